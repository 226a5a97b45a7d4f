// C14 file rotation.
#include "hoglsim.hpp"
#include "iofault.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdexcept>
#include <hogl/output-file.hpp>
using namespace sim;

// ---- delays in the helper thread, so that writes happen at every stage of a rotation
static pthread_t g_main; static volatile int g_delays, g_waiting; static unsigned g_dt[16]; static volatile unsigned g_di, g_opens;
static void stage() { if (g_delays && !pthread_equal(pthread_self(), g_main)) { unsigned d = g_dt[__sync_fetch_and_add(&g_di, 1) % 16]; if (d) usleep(d); } }
extern "C" int rename(const char *a, const char *b) { typedef int (*fn)(const char *, const char *); static fn r; if (!r) r = (fn) dlsym(RTLD_NEXT, "rename"); stage(); return r(a, b); }
extern "C" int symlink(const char *a, const char *b) { typedef int (*fn)(const char *, const char *); static fn r; if (!r) r = (fn) dlsym(RTLD_NEXT, "symlink"); stage(); return r(a, b); }
extern "C" int fsync(int) { stage(); return 0; }
extern "C" int open(const char *p, int fl, ...)
{
	typedef int (*fn)(const char *, int, ...); static fn r; if (!r) r = (fn) dlsym(RTLD_NEXT, "open");
	va_list ap; va_start(ap, fl); unsigned m = (fl & O_CREAT) ? va_arg(ap, unsigned) : 0; va_end(ap);
	if (fl & O_CREAT) stage();
	int fd = r(p, fl, m);
	if (!pthread_equal(pthread_self(), g_main)) { __sync_fetch_and_add(&g_opens, 1); if (fl & O_CREAT) stage(); }
	return fd;
}

// the helper thread may be slow to go to sleep
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	typedef int (*fn)(pthread_cond_t *, pthread_mutex_t *); static fn r; if (!r) r = (fn) dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"); if (!r) r = (fn) dlsym(RTLD_NEXT, "pthread_cond_wait");
	stage(); bool helper = !pthread_equal(pthread_self(), g_main);
	if (helper) g_waiting = 1;
	int k = r(c, m);
	if (helper) g_waiting = 0;
	return k;
}

// ---- the format: every byte in a chunk says what it is
struct ChunkFormat : hogl::format {
	std::string cur; unsigned pad;
	void header(hogl::ostrbuf &s, const char *n, bool first) { s.printf("[H %s %s %s]\n", first ? "first" : "next", n ? n : "(null)", std::string(pad, 'h').c_str()); }
	void footer(hogl::ostrbuf &s, const char *n) { s.printf("[F %s]\n", n ? n : "-"); }
	void process(hogl::ostrbuf &s, const data &) { s.push_back(cur); }
};
static std::string rec(uint64_t id, size_t len) { std::string r = strf("<%llu ", (ull) id); for (size_t i = 0; i < len; i++) r += (char) ('a' + (id * 7 + i) % 26); return r + ">\n"; }

struct Chunk { std::string path; bool ok, first, footer; std::string hname, next, why; uint64_t id0, n; size_t data, size; mode_t mode; };
static std::string slurp(const std::string &p) { std::string o; FILE *f = fopen(p.c_str(), "r"); if (!f) return o; char b[65536]; size_t r; while ((r = fread(b, 1, sizeof b, f)) > 0) o.append(b, r); fclose(f); return o; }
static Chunk parse(const std::string &path, const std::map<uint64_t, std::string> &recs)
{
	Chunk c; c.path = path; c.ok = c.first = c.footer = false; c.id0 = c.n = 0; c.data = 0; c.mode = 0;
	std::string t = slurp(path); size_t p = 0; c.size = t.size();
	struct stat st; if (!stat(path.c_str(), &st)) c.mode = st.st_mode & 0777;
	auto line = [&](std::string &l) { size_t e = t.find('\n', p); if (e == t.npos) return false; l = t.substr(p, e - p + 1); p = e + 1; return true; };
	std::string l;
	if (!line(l) || l.compare(0, 3, "[H ")) { c.why = "no header at the start: " + show(l.empty() ? t.substr(0, 60) : l.substr(0, 60)); return c; }
	{ size_t a = l.find(' ', 3), b = l.find(' ', a + 1); c.first = l.substr(3, a - 3) == "first"; c.hname = l.substr(a + 1, b - a - 1); }
	uint64_t want = 0; bool have = false;
	while (p < t.size()) {
		if (c.footer) { c.why = "data after the footer: " + show(t.substr(p, 60)); return c; }
		if (!line(l)) { c.why = "incomplete line: " + show(t.substr(p, 60)); return c; }
		if (l[0] == '[') {
			if (!l.compare(0, 3, "[F ")) { c.footer = true; c.next = l.substr(3, l.size() - 5); continue; }
			c.why = "unexpected " + show(l.substr(0, 60)); return c;
		}
		uint64_t id = strtoull(l.c_str() + 1, 0, 10); auto i = recs.find(id);
		if (l[0] != '<' || i == recs.end() || i->second != l) { c.why = "damaged record " + show(l.substr(0, 60)); return c; }
		if (have && id != want) { c.why = strf("record %llu where %llu was due", (ull) id, (ull) want); return c; }
		if (!have) c.id0 = id;
		have = true; want = id + 1; c.n++; c.data += l.size();
	}
	c.ok = true; return c;
}

struct Pat { std::string pref, sufx, link; };
static Pat pattern(const std::string &s)
{
	Pat p; size_t k = s.find('#');
	if (k == s.npos) { p.pref = s + "."; p.link = s; return p; }
	p.pref = s.substr(0, k); p.sufx = s.substr(k + 1);
	p.link = (k && !p.sufx.empty() && s[k - 1] == p.sufx[0]) ? s.substr(0, k - 1) + p.sufx : p.pref + p.sufx;
	return p;
}
static unsigned width(unsigned max) { unsigned w = 1; for (unsigned long s = 10; s < max; s *= 10) w++; return w; }
static std::string chunk_name(const Pat &p, unsigned idx, unsigned max) { return strf("%s%0*u%s", p.pref.c_str(), (int) width(max), idx, p.sufx.c_str()); }

struct FileWorld {
	std::string dir, old; ChunkFormat fmt; hogl::output_file *o; std::map<uint64_t, std::string> recs; uint64_t next; Pat pat; std::string patname;
	unsigned max; size_t maxsz; unsigned perms, cap; bool rel, nowrap, switched, same_dir; std::set<std::string> pats; std::map<std::string, Pat> allpats; unsigned rotations; bool hdrfault, switched_ever; std::map<std::string, std::string> sentinels;
	unsigned exact, exact_missed; bool stepwise_, moved; std::string prevlink; std::map<std::string, std::pair<uint64_t, uint64_t> > prev;
	FileWorld() : exact(0), exact_missed(0), stepwise_(false), moved(false), o(0), next(0), max(0), maxsz(0), perms(0), cap(0), rel(false), nowrap(false), switched(false), same_dir(true), rotations(0), hdrfault(false), switched_ever(false) {}
	std::string full(const std::string &p) { return p[0] == '/' ? p : dir + "/" + p; }
	std::string name_of(const std::string &n) { return rel ? n : dir + "/" + n; }
	void open_(const std::string &n)
	{
		patname = n; pat = pattern(name_of(n)); allpats[n] = pat;
		hogl::output_file::options oo = { perms, maxsz, max, cap, 0 };
		o = new hogl::output_file(name_of(n).c_str(), fmt, oo);
	}
	void rec_(size_t len, bool flush, bool direct)
	{
		std::string r = rec(next, len); recs[next++] = r;
		if (direct) { o->flush(); ssize_t k = o->write(r.data(), r.size()); PBT_ASSERT(k == (ssize_t) r.size(), "write() returned %zd for %zu bytes", k, r.size()); return; }
		fmt.cur = r; hogl::format::data d = { "r", 0 }; o->process(d); if (flush) o->flush();
	}
	std::string linked(const Pat &p) // path of the file the link resolves to, "" if it does not
	{
		char b[4096]; std::string l = full(p.link); char *r = realpath(l.c_str(), b); return r ? r : "";
	}
	void scan(const std::string &d, std::vector<std::string> &out, std::vector<std::string> &links)
	{
		DIR *h = opendir(d.c_str()); if (!h) return;
		while (struct dirent *e = readdir(h)) {
			std::string n = e->d_name; if (n == "." || n == "..") continue;
			std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue;
			if (S_ISDIR(st.st_mode)) scan(p, out, links); else if (S_ISLNK(st.st_mode)) links.push_back(p); else out.push_back(p);
		}
		closedir(h);
	}
	bool ident(const std::string &path, std::string &pn, unsigned &idx) // which pattern and index is it
	{
		for (auto &q : allpats) for (unsigned i = 0; i < (max > 300 ? 300 : max); i++) if (full(chunk_name(q.second, i, max)) == path) { pn = q.first; idx = i; return true; }
		return false;
	}
	// everything on disk must be explained
	void verify(bool closed)
	{
		std::vector<std::string> files, links; scan(dir, files, links); std::sort(files.begin(), files.end());
		std::vector<Chunk> ch; std::map<std::string, Chunk> by;
		for (auto &f : files) {
			if (sentinels.count(f)) { PBT_ASSERT(slurp(f) == sentinels[f], "unrelated file %s was changed", f.c_str()); continue; }
			Chunk c = parse(f, recs);
			if (!c.ok && hdrfault && c.size < 400 && c.n == 0) continue; // left behind by a failed rotation
			PBT_ASSERT(c.ok, "%s: %s", f.c_str() + dir.size(), c.why.c_str());
			PBT_ASSERT(full(c.hname) == f, "%s: header names %s", f.c_str() + dir.size(), c.hname.c_str());
			std::string pn; unsigned ix; PBT_ASSERT(ident(f, pn, ix), "unexpected file %s", f.c_str() + dir.size());
			PBT_ASSERT(c.mode == (perms & 0755), "%s: mode %o", f.c_str() + dir.size(), c.mode);
			by[f] = c; if (c.n) ch.push_back(c);
		}
		std::sort(ch.begin(), ch.end(), [](const Chunk &a, const Chunk &b) { return a.id0 < b.id0; });
		uint64_t due = ch.empty() ? 0 : ch[0].id0;
		if (nowrap) PBT_ASSERT(due == 0, "the first %llu records are gone although no index was used twice", (ull) due);
		for (size_t i = 0; i < ch.size(); i++) {
			Chunk &a = ch[i];
			if (a.id0 > due && !nowrap && allpats.size() > 1) due = a.id0; // the oldest chunks of another name were used again
			PBT_ASSERT(a.id0 == due, "%s starts with record %llu, the previous chunk (%s) ended before %llu", a.path.c_str() + dir.size(), (ull) a.id0, i ? ch[i - 1].path.c_str() + dir.size() : "none", (ull) due);
			due = a.id0 + a.n;
			if (i + 1 < ch.size()) {
				PBT_ASSERT(a.footer, "%s is followed by %s but has no footer", a.path.c_str() + dir.size(), ch[i + 1].path.c_str() + dir.size());
				// follow the chain to the next chunk with records
				Chunk c = a; unsigned hops = 0; bool ok = false;
				if (ch[i + 1].id0 != due && !nowrap) ok = true; // what was in between is gone
				while (!ok && hops++ < 50) {
					if (c.next == "-") { ok = true; break; } // closed, a new instance follows
					std::string nx = full(c.next); if (nx == ch[i + 1].path) { ok = true; break; }
					if (!by.count(nx) ) { ok = hdrfault; break; }
					Chunk d = by[nx]; if (d.n) { ok = d.id0 > ch[i + 1].id0; break; } // overwritten meanwhile
					if (!d.footer) { ok = !nowrap && nx == linked(pat); break; } // used again, newest chunk
					c = d;
				}
				PBT_ASSERT(ok, "footer of %s names %s, the data continue in %s", a.path.c_str() + dir.size(), a.next.c_str(), ch[i + 1].path.c_str() + dir.size());
			}
		}
		uint64_t last = due;
		bool gap = false; // only in wrapping histories with several names, see above
		for (size_t i = 1; i < ch.size(); i++) if (ch[i].id0 != ch[i - 1].id0 + ch[i - 1].n) gap = true;
		if (gap) PBT_ASSERT(!nowrap && allpats.size() > 1, "gap");
		// chunks are only ever replaced by newer ones, the oldest first
		std::string lnow = linked(pat);
		if (stepwise_) {
			for (auto &q : prev) {
				if (!q.second.second) continue;
				uint64_t pid = q.second.first, pn2 = q.second.second;
				if (by.count(q.first) && by[q.first].id0 == pid && by[q.first].n >= pn2) continue;
				bool ok = false; std::string x = prevlink, pn; unsigned ix = 0;
				if (by.count(q.first) && (!by[q.first].n || by[q.first].id0 >= pid + pn2)) {
					if (q.first == lnow && (q.first != prevlink || (max == 2 && !moved))) ok = true;
					if (ident(x, pn, ix)) for (unsigned h = 1; h <= 3; h++) { if (h % max == 0 && moved) break; std::string y = full(chunk_name(allpats[pn], (ix + h) % max, max)); if (y == q.first) ok = true; if (y == lnow) break; }
				}
				if (hdrfault && !by.count(q.first)) ok = true;
				PBT_ASSERT(ok, "%s had records %llu-%llu, was replaced out of turn (the stream moved from %s to %s)", q.first.c_str() + dir.size(), (ull) pid, (ull) (pid + pn2 - 1), prevlink.c_str() + (prevlink.empty() ? 0 : dir.size()), lnow.c_str() + dir.size());
			}
			prev.clear(); for (auto &b : by) prev[b.first] = std::make_pair(b.second.id0, b.second.n);
			prevlink = lnow; moved = false;
		}
		if (closed || !recs.empty()) PBT_ASSERT(last == next || (!closed && cap) || (!nowrap && by.size() > ch.size()), /* newer chunks may be empty */ "records %llu.. of %llu are missing", (ull) last, (ull) next);
		for (auto &b : by) {
			const Chunk &c = b.second; std::string pn, pm; unsigned i1, i2;
			if (closed) PBT_ASSERT(c.footer, "%s has no footer", c.path.c_str() + dir.size());
			if (!c.footer || c.next == "-") continue;
			PBT_ASSERT(ident(c.path, pn, i1) && ident(full(c.next), pm, i2), "footer of %s names %s", c.path.c_str() + dir.size(), c.next.c_str());
			if (pn == pm) PBT_ASSERT(i2 == (i1 + 1) % max, "%s is followed by %s", c.path.c_str() + dir.size(), c.next.c_str());
			if (pn == pm && !switched_ever) PBT_ASSERT(c.size - (c.next.size() + 5) >= maxsz, "%s was left with %zu bytes, limit %zu", c.path.c_str() + dir.size(), c.size, maxsz);
		}
		if (!nowrap && !ch.empty() && ch[0].id0 > 0 && !switched_ever) PBT_ASSERT(by.size() == max || (hdrfault && by.size() + 1 >= max), "%zu chunks left of %u, but the oldest data are gone", by.size(), max);
		// the link
		std::string l = linked(pat); PBT_ASSERT(!l.empty(), "link %s does not resolve", pat.link.c_str());
		PBT_ASSERT(by.count(l), "link %s resolves to %s", pat.link.c_str(), l.c_str());
		if (closed) PBT_ASSERT(by[l].next == "-", "link %s resolves to %s which is not the newest chunk", pat.link.c_str(), l.c_str() + dir.size());
		if (!ch.empty() && by[l].n) PBT_ASSERT(l == ch.back().path, "link resolves to %s, newest data are in %s", l.c_str() + dir.size(), ch.back().path.c_str() + dir.size());
		for (auto &x : links) {
			bool known = false; for (auto &q : allpats) if (full(q.second.link) == x) known = true;
			PBT_ASSERT(known, "unexpected link %s", x.c_str() + dir.size());
			char b[4096]; PBT_ASSERT(realpath(x.c_str(), b), "link %s is dangling", x.c_str() + dir.size());
		}
	}
	// wait until no rotation is due
	void settle(const std::string &expect = "")
	{
		uint64_t t0 = now_ms(), tw = t0; unsigned retries = 0;
		while (1) {
			std::string l = linked(pat);
			if (!l.empty()) {
				Chunk c = parse(l, recs); bool busy = false;
				if (c.ok && !c.footer && c.size < maxsz + 0 && (expect.empty() || l == expect)) {
					std::vector<std::string> files, links; scan(dir, files, links); unsigned openc = 0;
					for (auto &f : files) { if (sentinels.count(f)) continue; Chunk d = parse(f, recs); if (d.ok && !d.footer) openc++; if (!d.ok && !(hdrfault && d.size < 400 && !d.n)) busy = true; }
					if (openc == 1 && !busy) return;
				}
				// not decided by the size of the data alone: make it so
				if (now_ms() - tw > 40 && c.ok && !c.footer && c.size >= maxsz && retries < 60) { rec_(10, true, false); retries++; tw = now_ms(); }
			}
			if (now_ms() - t0 > 6000) {
				Chunk c = parse(l, recs);
				fail("no rotation: link %s -> %s with %zu bytes (limit %zu), %s%s", pat.link.c_str(), l.c_str() + (l.size() > dir.size() ? dir.size() : 0), c.size, maxsz, c.ok ? "" : c.why.c_str(), expect.empty() ? "" : (" expected " + expect).c_str());
			}
			usleep(200);
		}
	}
	void clean(const std::string &d)
	{
		DIR *h = opendir(d.c_str()); if (!h) return;
		while (struct dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st)) { if (S_ISDIR(st.st_mode)) clean(p); else unlink(p.c_str()); } }
		closedir(h); rmdir(d.c_str());
	}
};
static const char *PATS[] = { "log", "a.#.txt", "b#", "c-#.bin", "a.b.#.c", "e.#", "sub/log.#.txt", "sub/g", "sub/deep/x#y", "f#1", "#.log", "n.#0" };
static void setup(Src &s, FileWorld &w)
{
	const char *e = getenv("PBT_SCRATCH"); std::string t = strf("%s/fXXXXXX", e ? e : "/tmp"); std::vector<char> b(t.begin(), t.end()); b.push_back(0);
	if (!mkdtemp(b.data())) fail("mkdtemp: %s", strerror(errno));
	char rp[4096]; w.dir = realpath(b.data(), rp); umask(022);
	if (chdir(w.dir.c_str())) fail("chdir");
	mkdir("sub", 0777); mkdir("sub/deep", 0777);
	w.rel = s.flip(); w.nowrap = s.flip(); w.max = w.nowrap ? s.pick({150u, 1000u}) : s.range(2, 6); if (s.chance(1, 12)) { w.max = s.pick({10u, 11u, 12u}); w.nowrap = false; }
	w.cap = s.pick({0u, 0u, 1u, 64u, 300u, 8192u}); w.perms = s.pick({0666u, 0644u, 0600u, 0640u}); w.fmt.pad = s.bits(12);
	w.maxsz = s.flip() ? s.range(180, 400) : s.range(180, 3000);
	g_main = pthread_self(); g_delays = 1; g_waiting = 0; g_di = g_opens = 0; bool d = s.chance(2, 3);
	for (unsigned i = 0; i < 16; i++) g_dt[i] = d ? (s.chance(1, 3) ? s.bits(1500) : 0) : 0;
	for (auto n : { "log.txt.bak", "sub/log.x", "other" }) { std::string p = w.dir + "/" + n; FILE *f = fopen(p.c_str(), "w"); fprintf(f, "not a log of %s\n", n); fclose(f); w.sentinels[p] = strf("not a log of %s\n", n); }
	note("%s names, at most %u chunks of %zu bytes, buffer %u, delays %d", w.rel ? "relative" : "absolute", w.max, w.maxsz, w.cap, d);
}
static void teardown(FileWorld &w) { if (chdir("/")) {} g_delays = 0; w.clean(w.dir); }
static size_t rlen(Src &s, FileWorld &w) { return s.chance(1, 12) ? s.bits(w.maxsz * 2) : s.chance(1, 3) ? s.bits(w.maxsz / 2) : s.bits(60); }

// one step at a time: after every operation the rotation is allowed to finish and the directory is compared with the model
static void stepwise(Src &s)
{
	FileWorld w; setup(s, w); iof::start(); w.stepwise_ = true;
	std::string p0 = PATS[s.bits(12)]; 
	if (s.chance(1, 3)) { // a link that does not name a chunk of this log
		Pat p = pattern(w.name_of(p0)); std::string full = chunk_name(p, 0, w.max), t; size_t dir = 0; if (w.rel) { dir = full.rfind('/'); dir = dir == full.npos ? 0 : dir + 1; }
		std::string pref = p.pref.substr(dir); unsigned kind = s.bits(10);
		switch (kind) {
		case 0: t = w.dir + "/other"; break;
		case 1: t = "nowhere"; break;
		case 2: t = pref + strf("%u", w.max + s.pick({0u, 0u, 1u, 7u, 100u, 10000u, 12345678u})) + p.sufx; break;
		case 3: t = pref + strf("%u", s.bits(w.max)) + p.sufx + "x"; break;
		case 4: t = "x" + full; break;
		case 9: { std::string z = p.sufx; for (char &c : z) if (s.flip()) c = c == 'y' ? 'z' : 'y'; t = pref + strf("%0*u", (int) width(w.max), s.bits(w.max)) + z; if (z == p.sufx) t += "y"; break; }
		case 6: t = pref + p.sufx.substr(std::min(p.sufx.size(), (size_t) 1 + s.bits(4))); break;
		case 7: t = pref + strf("%u", s.bits(w.max)) + (p.sufx.empty() || isdigit((unsigned char) p.sufx[0]) ? "x" : ""); break; // (a narrower index may come from another limit: that is continued)
		case 8: t = pref + std::string(1 + s.bits(40), '0') + strf("%u", s.bits(w.max)) + p.sufx + "/"; break;
		default: t = pref + strf("%u", 1 + s.bits(9)) + strf("%0*u", (int) width(w.max), s.bits(w.max)) + p.sufx; break;
		}
		// (patterns whose suffix is a digit make some of these the name of a chunk)
		bool own = false; for (unsigned i = 0; i < w.max; i++) { std::string c = chunk_name(p, i, w.max); if (t == c || t == c.substr(dir)) own = true; }
		if (!own && t.size() && t.size() < 4000) { note("the link points to %s", t.c_str()); if (symlink(t.c_str(), w.full(p.link).c_str())) fail("symlink: %s", strerror(errno)); label("foreign link"); }
	}
	note("open %s", p0.c_str());
	w.open_(p0); std::map<std::string, int> lastidx; // per pattern
	auto now_at = [&](const std::string &pn) { std::string l = w.linked(w.pat), q; unsigned ix; if (!w.ident(l, q, ix)) fail("link %s resolves to %s", w.pat.link.c_str(), l.c_str()); PBT_ASSERT(q == pn, "link of %s resolves to a chunk of %s", pn.c_str(), q.c_str()); return (int) ix; };
	PBT_ASSERT(now_at(p0) == 0, "a new log starts with index %d", now_at(p0));
	unsigned n = s.range(1, 14), rot = 0, faults = 0; std::string blocked; bool reopened = false;
	auto pos = [&]() { w.settle(); w.verify(false); int ix = now_at(w.patname); lastidx[w.patname] = ix; return ix; };
	w.o->flush(); int ix = pos();
	for (unsigned i = 0; i < n; i++) {
		ops(1);
		switch (s.weighted({8, 2, 2, 2, 1})) {
		case 0: { unsigned k = s.range(1, 12); note("%u records", k);
			for (unsigned j = 0; j < k; j++) {
				std::string cur; size_t len = rlen(s, w);
				if (s.chance(1, 4)) { Chunk c = parse(w.linked(w.pat), w.recs); size_t ov = rec(w.next, 0).size(); if (c.ok && !c.footer && c.data + ov <= w.maxsz) { cur = c.path; len = w.maxsz - c.data - ov; } }
				if (!cur.empty()) { for (unsigned q = 0; q < 200 && !g_waiting; q++) usleep(500); usleep(3000); } // the helper thread is waiting again
				w.rec_(len, true, s.chance(1, 6));
				if (!cur.empty()) { // data of exactly the limit
					bool mv = false; uint64_t t0 = now_ms(); while (!(mv = w.linked(w.pat) != cur) && now_ms() - t0 < 800) usleep(200);
					w.exact++; if (!mv) w.exact_missed++; if (w.exact_missed >= 3 && w.exact_missed * 2 > w.exact) fail("a chunk with exactly the configured size (%zu) is not followed by the next one", w.maxsz);
				}
				int nx = pos();
				if (nx != ix) rot++;
				PBT_ASSERT(nx == ix || nx == (ix + 1) % (int) w.max || nx == (ix + 2) % (int) w.max, "index went from %d to %d", ix, nx);
				PBT_ASSERT(w.o->index() == (unsigned) nx, "index() %u, link at %d", w.o->index(), nx);
				PBT_ASSERT(w.full(w.o->name()) == w.full(w.pat.link), "name() %s", w.o->name().c_str());
				ix = nx;
			}
			break; }
		case 1: { // close and reopen
			bool same = s.flip(); std::string np = same ? w.patname : PATS[s.bits(12)];
			note("close, open %s", np.c_str()); delete w.o; w.o = 0; w.verify(true); w.moved = true;
			w.open_(np); w.o->flush(); reopened = true; w.settle(); int nx = now_at(np); int exp = lastidx.count(np) ? (lastidx[np] + 1) % (int) w.max : 0;
			PBT_ASSERT(nx == exp, "%s reopened at index %d, expected %d", np.c_str(), nx, exp);
			if (lastidx.count(np) && lastidx[np] + 1 >= (int) w.max) w.switched_ever = true;
			w.switched_ever = true; ix = pos(); break; }
		case 2: { // switch
			std::string np = s.chance(1, 4) ? w.patname : PATS[s.bits(12)]; int exp = lastidx.count(np) ? (lastidx[np] + 1) % (int) w.max : 0;
			note("switch to %s", np.c_str()); w.switched_ever = true; w.moved = true;
			w.patname = np; w.pat = pattern(w.name_of(np)); w.allpats[np] = w.pat;
			PBT_ASSERT(w.o->switch_name(w.name_of(np)), "switch_name failed");
			w.settle(w.full(chunk_name(w.pat, exp, w.max))); ix = pos();
			if (ix != exp) { PBT_ASSERT(0, "switched to index %d of %s, expected %d", ix, np.c_str(), exp); }
			rot++; break; }
		case 3: { // the next chunk cannot be opened
			std::string nx = w.full(chunk_name(w.pat, (ix + 1) % w.max, w.max)), cur = w.linked(w.pat); struct stat st; std::string keep; bool had = !stat(nx.c_str(), &st); std::string sv = nx + "~";
			if (had) break; // only names not used yet, so that nothing is removed by the harness
			bool hdr = s.flip(); note("the next chunk cannot be %s", hdr ? "written" : "opened"); faults++;
			unsigned tries = s.range(1, 4);
			if (hdr) { close(open(nx.c_str(), O_CREAT | O_WRONLY, w.perms)); iof::File *f = iof::watch(nx.c_str()); f->sticky = false; for (unsigned j = 0; j < 1; j++) { iof::Act a = { iof::FAIL, 0, ENOSPC }; f->plan.push_back(a); } f->next = 0; w.hdrfault = true; tries = 1; }
			else mkdir(nx.c_str(), 0777);
			Chunk c; unsigned o0 = g_opens;
			// up to the limit and beyond
			for (unsigned j = 0; j < tries; j++) {
				do { w.rec_(30 + s.bits(60), true, false); c = parse(cur, w.recs); } while (c.ok && !c.footer && c.data < w.maxsz);
				for (unsigned q = 0; q < 100 && g_opens == o0; q++) usleep(200);
				o0 = g_opens; usleep(300);
				if (hdr) break;
				w.rec_(5, true, false);
				PBT_ASSERT(w.linked(w.pat) == cur, "link moved to %s although the next chunk could not be opened", w.linked(w.pat).c_str());
				c = parse(cur, w.recs); PBT_ASSERT(c.ok && !c.footer, "current chunk after a failed rotation: %s", c.ok ? "has a footer" : c.why.c_str());
			}
			if (!hdr) rmdir(nx.c_str());
			w.rec_(7, true, false); w.settle(); // retried
			w.verify(false); ix = pos(); rot++;
			break; }
		case 4: { // a name that cannot be opened
			std::string bad = "missing/dir/log.#"; note("construct with a name that cannot be opened");
			hogl::output_file::options oo = { w.perms, w.maxsz, w.max, w.cap, 0 }; ChunkFormat f2; f2.pad = 0; bool threw = false;
			int before = 0, after = 0; DIR *h; auto count = [&]() { int k = 0; h = opendir("/proc/self/task"); if (!h) return -1; while (readdir(h)) k++; closedir(h); return k; };
			before = count(); try { hogl::output_file o2(w.name_of(bad).c_str(), f2, oo); } catch (std::runtime_error &) { threw = true; }
			PBT_ASSERT(threw, "no exception for a file that cannot be opened");
			for (unsigned q = 0; q < 4000 && (after = count()) > before; q++) usleep(500);
			PBT_ASSERT(after <= before, "a thread is left behind by a failed constructor");
			break; }
		}
	}
	(void) reopened; if (w.exact) label("exact-limit", w.exact);
	if (w.o) { w.o->flush(); w.settle(); delete w.o; w.o = 0; w.verify(true); }
	iof::stop(); teardown(w);
	if (rot) { label("rotations", rot); nontrivial(hash_str(cur_slot()->desc)); }
	if (faults) label("blocked-rotations", faults);
}
PBT_SUITE("C14", "stepwise", stepwise, true, true, 1200, 40000, 60, 500, 40000, 0,
	"writes, reopens, name switches and rotations that cannot open or write the next chunk; the directory is compared with the model after each; non-trivial: at least one rotation");

// no waiting: rotations overlap with writes, switches and the destructor
static void overlapping(Src &s)
{
	FileWorld w; setup(s, w); iof::start(); w.switched_ever = false;
	unsigned inst = s.range(1, 3); uint64_t bytes = 0; bool sw = s.flip();
	for (unsigned k = 0; k < inst; k++) {
		std::string p0 = PATS[s.bits(12)]; note("open %s", p0.c_str()); w.open_(p0); if (k) w.switched_ever = true;
		unsigned n = s.range(0, 60); unsigned nsw = 0;
		for (unsigned i = 0; i < n; i++) {
			if (sw && s.chance(1, 10) && nsw++ < 8) {
				std::string np = PATS[s.bits(12)]; note("switch to %s", np.c_str()); w.switched_ever = true;
				w.patname = np; w.pat = pattern(w.name_of(np)); w.allpats[np] = w.pat; w.o->switch_name(w.name_of(np));
			}
			size_t l = rlen(s, w); bytes += l; w.rec_(l, s.flip(), false);
			if (s.chance(1, 5)) usleep(s.bits(400));
			ops(1);
		}
		note("%u records, close", n);
		if (w.nowrap && w.recs.size() / 1 * 0 + bytes / w.maxsz + 40 > w.max) throw Discard();
		// which name is in force depends on whether the last switch was carried out before the end
		delete w.o; w.o = 0;
		if (w.switched_ever) { for (auto &q : w.allpats) { std::string l = w.linked(q.second); if (l.empty()) continue; Chunk c = parse(l, w.recs); if (c.ok && c.footer && c.next == "-" && (!c.n || c.id0 + c.n == w.next)) { w.pat = q.second; w.patname = q.first; if (c.n) break; } } }
		w.verify(true);
	}
	iof::stop(); teardown(w);
	if (bytes > w.maxsz) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C14", "overlapping", overlapping, true, true, 2000, 60000, 60, 500, 40000, 0,
	"writes, switches and closes while rotations are in progress, the helper thread delayed at its file operations; non-trivial: more data than one chunk");

int main(int argc, char **argv) { return run_main(argc, argv); }
