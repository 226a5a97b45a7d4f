// C23: the log processing scripts, run on logs the library's own formatter wrote.
#include "pbt.hpp"
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <map>
#include <hogl/detail/ringbuf.hpp>
#include <hogl/post.hpp>
#include <hogl/format-basic.hpp>
#include <hogl/area.hpp>
using namespace pbt;
typedef unsigned long long ull;

static uint64_t g_now;
static hogl::timestamp now_cb(const hogl::timesource *) { return hogl::timestamp(g_now); }
struct StrBuf : hogl::ostrbuf { std::string t; StrBuf() : hogl::ostrbuf(0) {} void do_flush(const uint8_t *d, size_t n) { t.append((const char *) d, n); } };

static std::string g_dir;
static void rm_dir() { if (g_dir.empty()) return; for (const char *n : { "0", "1", "2", "out", "err", "res" }) unlink((g_dir + "/" + n).c_str()); rmdir(g_dir.c_str()); g_dir.clear(); }
struct Dir { Dir() { const char *e = getenv("PBT_SCRATCH"); std::string t = strf("%s/gXXXXXX", e ? e : "/tmp"); std::vector<char> b(t.begin(), t.end()); b.push_back(0); if (!mkdtemp(b.data())) fail("mkdtemp"); g_dir = b.data(); } ~Dir() { rm_dir(); } };
static std::string slurp(const std::string &p) { std::string o; FILE *f = fopen(p.c_str(), "r"); if (!f) return o; char b[65536]; size_t r; while ((r = fread(b, 1, sizeof b, f)) > 0) o.append(b, r); fclose(f); return o; }
static void spit(const std::string &p, const std::string &t) { FILE *f = fopen(p.c_str(), "w"); if (!f || fwrite(t.data(), 1, t.size(), f) != t.size() || fclose(f)) fail("cannot write %s", p.c_str()); }

// Runs a script, its standard output and error into files; its exit status.
static int run(const char *script, const std::vector<std::string> &args, const std::string &in, std::string &out, std::string &err)
{
	std::vector<const char *> av = { "python3", script }; for (auto &a : args) av.push_back(a.c_str()); av.push_back(0);
	pid_t p = fork(); if (p < 0) throw Discard();
	if (!p) {
		int i = open(in.empty() ? "/dev/null" : in.c_str(), O_RDONLY), o = open((g_dir + "/out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open((g_dir + "/err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(i, 0); dup2(o, 1); dup2(e, 2);
		setenv("LC_ALL", "C.UTF-8", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); unsetenv("GREP_OPTIONS"); unsetenv("GREP_COLORS"); unsetenv("PYTHONIOENCODING");
		execvp("python3", (char **) av.data()); _exit(127);
	}
	int st; while (waitpid(p, &st, 0) < 0) {}
	out = slurp(g_dir + "/out"); err = slurp(g_dir + "/err");
	return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

static uint64_t gen_base(Src &s)
{
	switch (s.bits(6)) {
	case 0: return 1451508993ULL * 1000000000 + s.bits(1000000000);
	case 1: return s.bits(5);
	case 2: return s.bits(1000000000ULL * 100000);
	case 3: return (1ULL << 53) - 20 + s.bits(40);
	case 4: return 1e18 + s.bits(900000000000000000ULL);
	default: return s.bits(1ULL << 63);
	}
}
static uint64_t gen_step(Src &s) { switch (s.bits(6)) { case 0: return s.bits(3); case 1: return s.bits(1000); case 2: return 1000000000 - s.bits(3); case 3: return s.bits(100000000000ULL); case 4: return 1000 * s.bits(5000); default: return 1; } }
static std::string timespec(uint64_t ts) { return strf("%011llu.%09llu", (ull) (ts / 1000000000), (ull) (ts % 1000000000)); }
struct Layout { const char *fields; bool delta, ring, seq, area, sect; };

// ------------------------------------------------------------------ hogl-grep
static const char *WORDS[] = { "alpha", "beta", "Gamma", "delta-7", "x", "packet", "ALPHA", "(12)", "12.5", "one two", "a:b", "\xc3\xa9t\xc3\xa9", "TRACE" };
static std::string lower(std::string s) { for (char &c : s) c = tolower(c); return s; }
static void grep(Src &s)
{
	Dir dir;
	static const Layout L[] = { { "timespec|area|section", 0, 0, 0, 1, 1 }, { "timespec|timedelta|ring|seqnum|area|section", 1, 1, 1, 1, 1 }, { "timespec|timedelta|area|section", 1, 0, 0, 1, 1 }, { "timespec|ring|area", 0, 1, 0, 1, 0 }, { "timespec|timedelta", 1, 0, 0, 0, 0 } };
	const Layout &l = L[s.bits(5)];
	const char *sn[] = { "INFO", "TRACE", "S2", 0 }; hogl::area A("AREA", sn), B("Other", sn); hogl::area *ar[] = { &A, &B };
	hogl::timesource src("case", now_cb); hogl::ringbuf::options ro = {}; ro.capacity = 4; ro.record_tailroom = 512;
	hogl::ringbuf *ring = new hogl::ringbuf("RING0", ro); ring->hold(); ring->timesource(&src);
	unsigned n = s.range(1, 30), nf = s.weighted({4, 2, 1}) + 1; std::vector<std::string> file(nf);
	g_now = gen_base(s); bool mono = l.delta || s.flip();
	struct Ln { uint64_t ts; std::string full, rest; }; std::vector<Ln> lines;
	hogl::format_basic *fb = 0; unsigned cur = 0; note("layout %s, %u records in %u files", l.fields, n, nf);
	uint64_t prev = 0; bool first = true;
	for (unsigned i = 0; i < n; i++) {
		unsigned f = std::min<unsigned>(nf - 1, i * nf / n); if (!fb || f != cur) { delete fb; fb = new hogl::format_basic(l.fields); cur = f; first = true; }
		if (i) g_now = !mono && s.chance(1, 6) ? g_now - std::min<uint64_t>(g_now, s.bits(100000)) : g_now + gen_step(s);
		if (l.delta && first && !g_now) g_now = 1;
		std::string m; unsigned w = s.range(0, 4); for (unsigned k = 0; k < w; k++) { if (k) m += ' '; m += s.chance(1, 6) ? s.str(s.size(40), "abcxyz 0189.:;,_()[]#%/<>=+-\"'\\{}~\t") : WORDS[s.bits(sizeof WORDS / sizeof *WORDS)]; }
		hogl::area *a = ar[s.bits(2)]; unsigned sect = s.bits(3);
		uint64_t seq = ring->seqnum();
		hogl::push_unlocked(ring, a, sect, "%s", m); hogl::record *r = ring->pop_begin(); hogl::format::data d = {}; d.ring_name = ring->name(); d.record = r;
		StrBuf sb; fb->process(sb, d); sb.flush(); ring->pop_commit();
		Ln x; x.ts = g_now;
		std::string body = m; // what the record shows as
		if (l.ring) x.rest += "RING0" + (l.seq ? strf(":%llu", (ull) seq) : std::string()) + " ";
		if (l.area) x.rest += a->name() + (l.sect ? std::string(":") + sn[sect] : std::string()) + " ";
		// an empty string argument shows as null
		x.rest += m.empty() ? "null" : m;
		x.full = timespec(g_now) + " "; if (l.delta) x.full += strf("(%llu) ", (ull) (first ? 0 : g_now - prev)); x.full += x.rest;
		PBT_ASSERT(sb.t == x.full + "\n", "harness expects line [%s], library wrote [%s]", x.full.c_str(), pbt::show(sb.t).c_str());
		prev = g_now; first = false;
		file[f] += sb.t; lines.push_back(x); note("%u: %s", f, x.full.c_str());
	}
	delete fb; ring->release(); ops(n);
	for (unsigned f = 0; f < nf; f++) spit(g_dir + "/" + std::to_string(f), file[f]);
	// filter
	std::vector<std::string> args, pats; bool inv = s.chance(1, 4), icase = s.chance(1, 4); unsigned maxn = 0; std::vector<std::string> opt;
	unsigned np = s.chance(1, 4) ? 2 : 1;
	for (unsigned i = 0; i < np; i++) {
		std::string p; if (s.chance(1, 4)) p = s.pick({"AREA", "INFO", "Other:", ":TRACE", ".", "S2", "RING0"}); else p = WORDS[s.bits(sizeof WORDS / sizeof *WORDS)];
		if (icase && (unsigned char) p[0] >= 0x80) p = "x"; // case of letters beyond ASCII
		pats.push_back(p);
	}
	bool re = np == 1 && !inv && s.chance(1, 4); if (re) pats[0] = s.pick({"^0[0-9]*\\.", "AREA.*alpha", "beta$", "[xX]", "a\\|e", "INFO \\|TRACE "});
	if (!re) opt.push_back("-F"); if (inv) opt.push_back("-v"); if (icase && !re) opt.push_back("-i"); else icase = false;
	if (nf == 1 && s.chance(1, 8)) { maxn = s.range(1, 4); opt.push_back("-m"); opt.push_back(std::to_string(maxn)); }
	if (np == 2) { for (auto &p : pats) { opt.push_back("-e"); opt.push_back(p); } } else { opt.push_back(pats[0]); }
	std::string in; for (unsigned f = 0; f < nf; f++) opt.push_back(g_dir + "/" + std::to_string(f));
	if (nf == 1 && s.chance(1, 6)) { in = opt.back(); opt.pop_back(); note("log on standard input"); }
	bool to_file = s.chance(1, 3); if (to_file) { args.push_back(s.flip() ? "-o" : "--output"); args.push_back(g_dir + "/res"); }
	if (s.chance(1, 10)) { args.push_back("-g"); args.push_back("/bin/grep"); }
	if (opt[0][0] == '-' || s.flip()) args.push_back("--");
	args.insert(args.end(), opt.begin(), opt.end());
	std::string al; for (auto &a : args) al += " " + a; note("hogl-grep%s", al.c_str());
	// expected
	auto re_match = [&](const std::string &t) -> bool {
		if (pats[0] == "^0[0-9]*\\.") { size_t i = 0; if (t.empty() || t[0] != '0') return false; i = 1; while (i < t.size() && isdigit((unsigned char) t[i])) i++; return i < t.size() && t[i] == '.'; }
		if (pats[0] == "AREA.*alpha") { size_t a = t.find("AREA"); return a != t.npos && t.find("alpha", a + 4) != t.npos; }
		if (pats[0] == "beta$") return t.size() >= 4 && t.compare(t.size() - 4, 4, "beta") == 0;
		if (pats[0] == "[xX]") return t.find_first_of("xX") != t.npos;
		if (pats[0] == "a\\|e") return t.find_first_of("ae") != t.npos;
		return t.find("INFO ") != t.npos || t.find("TRACE ") != t.npos;
	};
	std::string want; bool got1 = false; uint64_t last = 0; unsigned nm = 0;
	for (auto &x : lines) {
		bool m = false; if (re) m = re_match(x.full); else for (auto &p : pats) m |= icase ? lower(x.full).find(lower(p)) != std::string::npos : x.full.find(p) != std::string::npos;
		if (m == inv) continue; if (maxn && nm == maxn) break;
		__int128 d = got1 ? (__int128) x.ts - last : 0; want += timespec(x.ts) + strf(" (%lld) ", (long long) d) + x.rest + "\n"; got1 = true; last = x.ts; nm++;
	}
	std::string out, err; int st = run(REPO_DIR "/tools/hogl-grep", args, in, out, err);
	PBT_ASSERT(st == 0, "hogl-grep ended with %d: %s", st, pbt::show(err + out, 600).c_str());
	if (to_file) { PBT_ASSERT(out.empty(), "output on the terminal although a file was given: %s", pbt::show(out, 300).c_str()); out = slurp(g_dir + "/res"); }
	if (out != want) { size_t i = 0; while (i < out.size() && i < want.size() && out[i] == want[i]) i++; size_t b = out.rfind('\n', i ? i - 1 : 0); b = b == out.npos ? 0 : b + 1;
		fail("hogl-grep printed\n  %s\nexpected\n  %s", pbt::show(out.substr(b), 300).c_str(), pbt::show(want.substr(std::min(b, want.size())), 300).c_str()); }
	if (nm > 1) nontrivial(hash_str(want));
	label(nm == lines.size() ? "all lines" : nm ? "some lines" : "no lines"); if (to_file) label("output file");
}
PBT_SUITE("C23", "grep", grep, false, false, 3000, 100000, 40, 300, 30000, 0,
	"logs of 1..30 records in 1..3 files or on standard input, in every layout with second.nanosecond timestamps, filtered with generated patterns and grep options; non-trivial: at least two lines printed");

// ------------------------------------------------------------------ hogl-trace
// Just enough of a JSON reader, strict.
struct J {
	int k; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J> > o; // k: 's'tring 'n'umber 'a'rray 'o'bject 'l'iteral
	const J *get(const char *n) const { const J *r = 0; for (auto &x : o) if (x.first == n) r = &x.second; return r; }
};
struct JP {
	const std::string &t; size_t p; std::string err; JP(const std::string &x) : t(x), p(0) {}
	void ws() { while (p < t.size() && strchr(" \t\r\n", t[p])) p++; }
	bool bad(const char *m) { if (err.empty()) err = strf("%s at %zu: %s", m, p, pbt::show(t.substr(p > 20 ? p - 20 : 0, 60)).c_str()); return false; }
	bool str(std::string &o)
	{
		if (p >= t.size() || t[p] != '"') return bad("no string"); p++;
		while (p < t.size() && t[p] != '"') {
			unsigned char c = t[p++]; if (c < 0x20) return bad("control character in string");
			if (c != '\\') { o += c; continue; }
			if (p >= t.size()) return bad("end"); c = t[p++];
			switch (c) {
			case '"': case '\\': case '/': o += c; break;
			case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
			case 'u': { if (p + 4 > t.size()) return bad("end"); unsigned u = strtoul(t.substr(p, 4).c_str(), 0, 16); p += 4; if (u < 0x80) o += u; else if (u < 0x800) { o += 0xc0 | u >> 6; o += 0x80 | (u & 63); } else { o += 0xe0 | u >> 12; o += 0x80 | ((u >> 6) & 63); o += 0x80 | (u & 63); } break; }
			default: return bad("bad escape");
			}
		}
		if (p >= t.size()) return bad("end"); p++; return true;
	}
	bool val(J &j)
	{
		ws(); if (p >= t.size()) return bad("end"); char c = t[p];
		if (c == '"') { j.k = 's'; return str(j.s); }
		if (c == '{' || c == '[') {
			j.k = c == '{' ? 'o' : 'a'; char e = c == '{' ? '}' : ']'; p++; ws(); if (p < t.size() && t[p] == e) { p++; return true; }
			for (;;) {
				std::string n; if (j.k == 'o') { ws(); if (!str(n)) return false; ws(); if (p >= t.size() || t[p] != ':') return bad("no colon"); p++; }
				J v; if (!val(v)) return false; if (j.k == 'o') j.o.push_back(std::make_pair(n, v)); else j.a.push_back(v);
				ws(); if (p < t.size() && t[p] == ',') { p++; continue; } if (p < t.size() && t[p] == e) { p++; return true; } return bad("neither comma nor end");
			}
		}
		size_t b = p; while (p < t.size() && (isalnum((unsigned char) t[p]) || strchr("+-.", t[p]))) p++;
		j.s = t.substr(b, p - b); j.k = isdigit((unsigned char) c) || c == '-' ? 'n' : 'l'; return j.s.empty() ? bad("no value") : true;
	}
};
static std::string token(Src &s, const char *extra, bool may_empty = false)
{
	std::string al = std::string("abcdefgXYZ0123456789_-./%\"'\\<>{}[]()") + extra; size_t n = s.size(12); if (!may_empty || n) n = std::max<size_t>(n, 1);
	std::string r = s.str(n, al.c_str()); if (s.chance(1, 12)) r += "\xc3\xa9"; return r;
}
static void trace(Src &s)
{
	Dir dir;
	static const Layout L[] = { { "timespec|area|section", 0, 0, 0, 1, 1 }, { "timespec|ring|seqnum|area|section", 0, 1, 1, 1, 1 }, { "timespec|timedelta|ring|seqnum|area|section", 1, 1, 1, 1, 1 }, { "timespec|ring|area|section", 0, 1, 0, 1, 1 }, { "timespec|timedelta|ring|area|section", 1, 1, 0, 1, 1 } };
	const Layout &l = L[s.bits(5)];
	const char *sn[] = { "INFO", "TRACE", "S2", 0 }; hogl::area A("AREA", sn), B("Other", sn); hogl::area *ar[] = { &A, &B };
	hogl::timesource src("case", now_cb); hogl::ringbuf::options ro = {}; ro.capacity = 4; ro.record_tailroom = 3000;
	std::string rn = "TH" + s.str(s.range(1, 6), "AB09_-."); hogl::ringbuf *ring = new hogl::ringbuf(rn.c_str(), ro); ring->hold(); ring->timesource(&src);
	unsigned n = s.range(1, 20), nf = s.weighted({4, 2, 1}) + 1; std::vector<std::string> file(nf);
	g_now = gen_base(s); hogl::format_basic *fb = 0; unsigned cur = 0;
	struct Ev { uint64_t ts; std::string cat, name, pid, tid; std::map<std::string, std::string> attr, arg; }; std::vector<Ev> evs; unsigned odd = 0;
	bool only_b = s.chance(1, 5); note("layout %s, ring %s, %u records in %u files", l.fields, rn.c_str(), n, nf);
	for (unsigned i = 0; i < n; i++) {
		unsigned f = std::min<unsigned>(nf - 1, i * nf / n); if (!fb || f != cur) { delete fb; fb = new hogl::format_basic(l.fields); cur = f; if (l.delta && !g_now) g_now = 1; }
		if (i) g_now += gen_step(s);
		unsigned kind = s.weighted({8, 2, 1}); hogl::area *a = ar[s.bits(2)]; unsigned sect = kind == 1 ? s.pick({0u, 2u}) : 1; std::string m;
		Ev e; e.ts = g_now;
		if (kind == 0) {
			e.cat = token(s, ":"); e.name = token(s, ":"); e.pid = token(s, ":"); e.tid = l.ring ? rn : e.pid;
			m = e.cat + std::string(s.range(1, 2), ' ') + e.name + " " + e.pid; if (s.chance(1, 8)) m += " ";
			unsigned na = s.weighted({3, 2, 1}), ng = s.weighted({2, 2, 2, 1});
			if (na || ng || s.chance(1, 4)) m += s.flip() ? " #" : "#";
			for (unsigned k = 0; k < na; k++) { std::string key = s.chance(1, 2) ? s.pick({"ph", "dur", "color", "cat", "ts"}) : "k" + token(s, ""), v = token(s, ":", true); if (key == "args") key = "kk"; m += " " + key + ":" + v; e.attr[key] = v; }
			if (ng || s.chance(1, 8)) m += s.flip() ? " #" : "#";
			for (unsigned k = 0; k < ng; k++) { std::string key = token(s, ""), v = token(s, ":#", true); m += " " + key + ":" + v; e.arg[key] = v; }
			if (!only_b || a == &B) evs.push_back(e);
		} else if (kind == 1) m = "not a trace " + token(s, "");
		else { m = s.pick({l.delta ? "a b c d e f" : "unsupported", "a b c d e f g", "cat name pid # attribute", "cat name pid # a:b # argument"}); odd++; }
		hogl::push_unlocked(ring, a, sect, "%s", m); hogl::record *r = ring->pop_begin(); hogl::format::data d = {}; d.ring_name = ring->name(); d.record = r;
		StrBuf sb; fb->process(sb, d); sb.flush(); ring->pop_commit(); file[f] += sb.t; note("%u: %s", f, sb.t.c_str());
	}
	delete fb; ring->release(); ops(n);
	std::vector<std::string> args; bool to_file = s.chance(1, 3);
	if (only_b) { args.push_back("-r"); args.push_back("Other:TRACE"); }
	if (to_file) { args.push_back("-o"); args.push_back(g_dir + "/res"); }
	for (unsigned f = 0; f < nf; f++) { spit(g_dir + "/" + std::to_string(f), file[f]); args.push_back(g_dir + "/" + std::to_string(f)); }
	std::string out, err; int st = run(REPO_DIR "/tools/hogl-trace", args, "", out, err);
	PBT_ASSERT(st == 0, "hogl-trace ended with %d: %s", st, pbt::show(err + out, 600).c_str());
	if (to_file) out = slurp(g_dir + "/res");
	J j; JP jp(out); bool ok = jp.val(j); jp.ws(); PBT_ASSERT(ok && jp.p == out.size() && j.k == 'o', "the output is not a JSON document: %s%s", jp.err.c_str(), ok ? strf("data after its end: %s", pbt::show(out.substr(jp.p), 100).c_str()).c_str() : "");
	const J *te = j.get("traceEvents"); PBT_ASSERT(te && te->k == 'a', "no list of trace events");
	PBT_ASSERT(te->a.size() == evs.size(), "%zu events, %zu records (and %u of unsupported form)", te->a.size(), evs.size(), odd);
	for (size_t i = 0; i < evs.size(); i++) {
		const J &v = te->a[i]; Ev &e = evs[i]; PBT_ASSERT(v.k == 'o', "event %zu is no object", i);
		std::map<std::string, std::string> want = { { "cat", "s" + e.cat }, { "name", "s" + e.name }, { "pid", "s" + e.pid }, { "tid", "s" + e.tid }, { "ts", strf("n%llu", (ull) (e.ts / 1000)) } };
		for (auto &x : e.attr) want[x.first] = "s" + x.second;
		for (auto &x : want) { const J *g = v.get(x.first.c_str()); PBT_ASSERT(g && (char) g->k + g->s == x.second, "event %zu (%s): %s is %s, expected %s", i, e.name.c_str(), x.first.c_str(), g ? pbt::show((char) g->k + g->s).c_str() : "missing", pbt::show(x.second).c_str()); }
		const J *ag = v.get("args"); PBT_ASSERT(ag && ag->k == 'o', "event %zu has no arguments", i);
		PBT_ASSERT(ag->o.size() == e.arg.size(), "event %zu has %zu arguments, the record %zu", i, ag->o.size(), e.arg.size());
		for (auto &x : e.arg) { const J *g = ag->get(x.first.c_str()); PBT_ASSERT(g && g->k == 's' && g->s == x.second, "event %zu argument %s is %s, expected %s", i, x.first.c_str(), g ? pbt::show(g->s).c_str() : "missing", pbt::show(x.second).c_str()); }
	}
	if (evs.size() > 1) nontrivial(hash_str(out)); if (odd) label("unsupported records");
}
PBT_SUITE("C23", "trace", trace, false, false, 3000, 100000, 40, 300, 30000, 0,
	"logs of 1..20 records in 1..3 files: trace records with generated attributes and arguments, other records and unsupported ones; the JSON document is parsed and compared event by event; non-trivial: at least two events");

int main(int ac, char **av) { int r = pbt::run_main(ac, av); return r; }
