// C17 recovery of pending records from core dumps.
// The process that "crashed" is a copy of this one (or a child with running threads that are frozen at
// arbitrary instructions); it writes its own memory as a core file, which the recovery tool (built with
// AddressSanitizer) then reads.
#include "pbt.hpp"
#include "vals.hpp"
#include "cookrun.hpp"
#include "plug.hpp"
#include "coredump.hpp"
#include <dirent.h>
#include <sys/personality.h>
#include <deque>
#include <map>
#include <sstream>
#include <set>
#include <pthread.h>
#include <hogl/area.hpp>
#include <hogl/engine.hpp>
#include <hogl/flush.hpp>
#include <hogl/format-basic.hpp>
#include <hogl/mask.hpp>
#include <hogl/output-plainfile.hpp>
#include <hogl/post.hpp>
#include <hogl/ring.hpp>
#include <hogl/timesource.hpp>
#include <hogl/detail/magic.hpp>
#include <hogl/detail/ostrbuf.hpp>
#include <hogl/detail/output.hpp>
using namespace pbt;
using namespace vals;
int cook_main(int, char **) { return 1; }
#define A16(a) a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]
static uint64_t g_now;
static hogl::timestamp now_cb(const hogl::timesource *) { return hogl::timestamp(g_now); }
static hogl::timesource now_ts("gen", now_cb);
struct StrBuf : hogl::ostrbuf { std::string t; StrBuf() : hogl::ostrbuf(0) {} void do_flush(const uint8_t *d, size_t n) { t.append((const char *) d, n); } };
struct NullBuf : hogl::ostrbuf { NullBuf(size_t c) : hogl::ostrbuf(c) {} void do_flush(const uint8_t *, size_t) {} };
struct Out : hogl::output { Out(hogl::format &f, size_t c) : hogl::output(f) { init(new NullBuf(c)); } };

static std::string scratch(const char *n) { const char *e = getenv("PBT_SCRATCH"); return strf("%s/%s-%d", e ? e : "/tmp", n, (int) getpid()); }
struct Tool { int status; std::string out, err; };
static Tool recover(const std::vector<std::string> &opts, const std::string &core)
{
	const char *bin = getenv("BIN_RECTOOL"); if (!bin) fail("no recovery tool");
	int fo = memfd_create("out", 0), fe = memfd_create("err", 0); fflush(0); pid_t c = fork();
	if (!c) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(fo, 1); dup2(fe, 2); setenv("ASAN_OPTIONS", "detect_leaks=0:max_allocation_size_mb=600:exitcode=99:quarantine_size_mb=8", 1); setenv("UBSAN_OPTIONS", "print_stacktrace=1", 1);
		std::vector<std::string> a; a.push_back(bin); a.insert(a.end(), opts.begin(), opts.end()); a.push_back(core); std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(0); execv(bin, v.data()); _exit(126);
	}
	int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR); Tool t; t.status = st; t.out = cook::no_addr(cook::fd_text(fo)); t.err = cook::fd_text(fe); close(fo); close(fe);
	PBT_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the recovery tool ended with status %x: %s", st, pbt::show(t.err, 1500).c_str());
	return t;
}
// what the tool prints as records
static std::string ring_part(const std::string &o)
{
	size_t a = o.rfind("Dumping records from ring buffers:\n"); PBT_ASSERT(a != o.npos, "no records section in the tool's output %s", pbt::show(o, 300).c_str()); a = o.find('\n', a) + 1;
	size_t e = o.rfind("#### #### #### ####"); PBT_ASSERT(e != o.npos && e >= a, "records section not terminated"); return o.substr(a, e - a);
}
static std::string outbuf_part(const std::string &o) { return o.substr(0, o.rfind("Dumping records from ring buffers:\n")); }

struct Exp { uint64_t ts; unsigned ring; std::string text; };
struct Shared { volatile bool ok; };

// ---------------------------------------------------------------- junk memory
struct Hole { char *p; size_t n; };
static void fill(Src &s, unsigned char *p, size_t n, const std::vector<uintptr_t> &ptrs)
{
	for (size_t i = 0; i < n; i += 8) {
		uint64_t v; switch (s.weighted({3, 2, 2, 2, 3})) { case 0: v = s.bits(0); break; case 1: v = 0; break; case 2: v = ~0ull; break; case 3: v = s.bits(64) | s.bits(5000) << 32; break; default: v = ptrs[s.bits(ptrs.size())] + s.irange(-16, 200); }
		memcpy(p + i, &v, std::min<size_t>(8, n - i));
	}
}
template <class T> static std::string about(const T &x) { std::ostringstream o; o << x; std::string t = o.str(); if (!t.empty() && t.back() == 10 && t.find(10) == t.size() - 1) t.pop_back(); return t; }
static std::vector<std::string> split(const std::string &t) { std::vector<std::string> o; for (size_t p = 0; p < t.size();) { size_t e = t.find(10, p); if (e == t.npos) e = t.size(); if (e > p) o.push_back(t.substr(p, e - p)); p = e + 1; } return o; }
static void snapshot(Src &s)
{
	setenv("TZ", "UTC", 1); tzset(); bool hostile = s.chance(1, 2), whole = s.flip(); static const char *F[] = { "ring,seqnum", "timestamp|ring|seqnum|area|section", "timespec,ring,seqnum,section", "fast0", "default" };
	std::string fields = F[s.bits(5)]; bool plugin = s.chance(1, 5); if (plugin) { label("plugin"); note("through a formatter plugin"); } hogl::format_basic txt(fields.c_str()); unsigned nr = s.range(1, 5), na = s.range(1, 4); uint64_t h = 5; Pool pool;
	std::vector<hogl::area *> areas; std::vector<hogl::ringbuf *> rings; unsigned total = 0, wrapped = 0, equal = 0, maxargs = 0; std::set<uint64_t> stamps;
	for (unsigned i = 0; i < na; i++) {
		if (s.chance(1, 3)) { areas.push_back(new hogl::area(strf("area%u", i).c_str())); continue; }
		static std::vector<std::vector<std::string>> keep; keep.push_back({}); unsigned k = s.chance(1, 6) ? s.range(60, 300) : s.range(1, 8); std::vector<const char *> p; for (unsigned j = 0; j < k; j++) keep.back().push_back(strf("S%u-%u", i, j)); for (auto &x : keep.back()) p.push_back(x.c_str()); p.push_back(0);
		areas.push_back(new hogl::area(strf("custom area %u", i).c_str(), p.data()));
	}
	for (auto a : areas) a->enable();
	for (unsigned i = 0; i < nr; i++) {
		hogl::ringbuf::options ro = {}; ro.capacity = s.pick({2u, 4u, 16u, 64u, 1024u}); ro.prio = s.pick({0u, 1u, 100u, 9999u, 20000u}); ro.flags = s.bits(8); ro.record_tailroom = s.chance(1, 3) ? s.range(0, 200) : s.range(200, 2000);
		hogl::ringbuf *r = new hogl::ringbuf(s.chance(1, 4) ? "same name" : strf("ring-%u", i).c_str(), ro); r->hold(); r->timesource(&now_ts); rings.push_back(r);
	}
	unsigned n = s.chance(1, 5) ? s.range(0, 1500) : s.range(0, 60); g_now = 1700000000ULL * 1000000000; std::vector<uint64_t> lastpost(nr), posts(nr);
	note("%u rings, %u areas, %u posts, %s, %s", nr, na, n, whole ? "whole memory" : "written memory only", hostile ? "with damaged structures" : "with foreign memory");
	for (unsigned i = 0; i < n; i++) {
		unsigned k = s.bits(nr); hogl::ringbuf *r = rings[k];
		if (s.chance(1, 4)) { unsigned c = s.range(1, 8); if (s.flip()) { while (c-- && r->pop_begin()) r->pop_commit(); } else { hogl::ringbuf::pop_iterator it(r); while (c-- && it.next()); it.commit(); } }
		unsigned m = s.chance(1, 3) ? s.range(0, 16) : s.range(0, 4); std::vector<Val> vs; hogl::arg args[16];
		for (unsigned j = 0; j < m; j++) { vs.push_back(gen_val(s, 80)); if (!whole && vs.back().k == GSTR) { vs.back() = Val(); vs.back().u = j; } if (vs.back().k == CSTR && s.flip()) vs.back().s = strf("text %u", i); args[j] = to_arg(vs.back(), pool); h = hash_add(h, vs.back().u); }
		if (s.chance(1, 3) || stamps.size() < 2) { g_now += s.bits(1000); } else if (s.chance(1, 4)) g_now = *std::next(stamps.begin(), s.bits(std::min<size_t>(stamps.size(), 20)));
		equal += !stamps.insert(g_now).second; const hogl::area *a = areas[s.bits(na)]; uint64_t d = r->dropcnt(); hogl::post(r, a, (unsigned) s.bits(a->count()), A16(args)); if (r->dropcnt() == d && ++posts[k] > r->capacity()) wrapped++;
		maxargs = std::max(maxargs, m); if (s.chance(1, 12)) { if (r->room()) posts[k]++; hogl::flush(r, 0); } pool.scribble(); pool.mem.clear(); pool.xds.clear();
	}
	// what has to be recovered
	static const char *SN[] = { "FLUSH", 0 }; static hogl::area special("SPECIAL", SN); // how requests to the engine are shown
	std::vector<Exp> exp; StrBuf sb;
	for (unsigned i = 0; i < nr; i++) { hogl::ringbuf::pop_iterator it(rings[i]); while (hogl::record *q = it.next()) { hogl::format::data d; d.ring_name = rings[i]->name(); d.record = q; hogl::record plain; if (q->special()) { plain.clear(); plain.area = &special; plain.timestamp = q->timestamp; plain.seqnum = q->seqnum; d.record = &plain; } sb.t.clear(); if (plugin) sb.t = plug::render(d, fields.c_str()); else txt.process(sb, d); sb.flush(); Exp e = { (uint64_t) q->timestamp, i, cook::no_addr(sb.t) }; exp.push_back(e); total++; } }
	// formatted text that was not written
	std::vector<Out *> outs; std::vector<std::string> bufd; unsigned no = s.range(0, 2);
	for (unsigned i = 0; i < no; i++) { outs.push_back(new Out(txt, s.range(100, 5000))); std::string t = s.flip() ? strf("buffered %u ", i) + s.str(s.range(0, 70), "abc \n") + "." : ""; outs.back()->get_ostrbuf()->push_back(t); bufd.push_back(t); }
	// other contents of memory
	std::vector<uintptr_t> ptrs; for (auto r : rings) { ptrs.push_back((uintptr_t) r); ptrs.push_back((uintptr_t) r->name()); ptrs.push_back((uintptr_t) r->push_begin()); } for (auto a : areas) { ptrs.push_back((uintptr_t) a); ptrs.push_back((uintptr_t) a->name()); } ptrs.push_back((uintptr_t) &ptrs); ptrs.push_back((uintptr_t) strdup("x"));
	bool claims = false; // something else may claim the same records
	std::set<unsigned> damaged; unsigned junk = s.range(0, 8); const hogl::magic M[] = { hogl::ring_magic, hogl::area_magic, hogl::output_magic, hogl::engine_magic };
	for (unsigned i = 0; i < junk; i++) {
		size_t z = s.pick({sizeof(hogl::ringbuf), sizeof(hogl::ringbuf) + 64, sizeof(hogl::ringbuf) - 8, (size_t) 4096}); bool edge = s.chance(1, 3);
		unsigned char *p; if (edge) { size_t q = s.pick({4096, 8192}); p = (unsigned char *) mmap(0, q + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + q, 4096, PROT_NONE); z = std::min(z, q); p += q - z; } else p = (unsigned char *) malloc(z);
		if (!hostile) { unsigned w = s.bits(4); for (size_t k = 0; k < z; k++) p[k] = w == 0 ? 0 : w == 1 ? 0xff : w == 2 ? s.bits(256) : 0x41; if (z > 24) { size_t at = s.chance(1, 3) ? z - 16 : s.chance(1, 2) ? 0 : 8; memcpy(p + at, &M[s.bits(4)], 16); } continue; }
		int what = s.weighted({3, 4, 2, 2, 1}); fill(s, p, z, ptrs);
		if (what == 0) memcpy(p, &M[s.bits(4)], 16);
		else {
			claims = true; const void *o = what == 1 ? (void *) rings[s.bits(nr)] : what == 2 ? (void *) areas[s.bits(na)] : what == 3 && no ? (void *) outs[s.bits(no)] : what == 4 && no ? (void *) outs[s.bits(no)]->get_ostrbuf() : (void *) rings[0]; size_t oz = o == (void *) areas[0] || what == 2 ? sizeof(hogl::area) : what == 3 && no ? sizeof(hogl::output) : what == 4 && no ? sizeof(hogl::ostrbuf) : sizeof(hogl::ringbuf);
			oz = std::min(oz, z); memcpy(p, o, oz); unsigned k = s.range(1, 4); for (unsigned j = 0; j < k; j++) { uint32_t v = s.pick({0u, 1u, 2u, 20u, 31u, 64u, 4096u, 0x7fffffffu, 0x80000000u, ~0u, 0xffffu, (uint32_t) ptrs[s.bits(ptrs.size())]}); if (s.chance(1, 4)) v = s.bits(0); size_t at = oz > 20 ? 16 + 4 * s.bits((oz - 16) / 4) : 0; memcpy(p + at, &v, 4); }
		}
	}
	if (hostile && s.flip() && total) { // damage records, areas and names that are in use
		unsigned k = s.range(1, 5);
		for (unsigned j = 0; j < k; j++) {
			unsigned w = s.bits(nr); hogl::ringbuf::pop_iterator it(rings[w]); hogl::record *q = it.next(); if (!q) continue; for (unsigned x = s.bits(8); x--;) { hogl::record *y = it.next(); if (!y) break; q = y; }
			damaged.insert(w); unsigned nb = s.range(1, 3); for (unsigned b = 0; b < nb; b++) { size_t at = 4 * s.bits(s.flip() ? 8 : rings[w]->record_size() / 4); uint32_t v = s.pick({0u, 1u, ~0u, 0x7fffffffu, 0x44444444u, 100u, 5000u}); if (s.chance(1, 3)) v = s.bits(0); if (s.chance(1, 4)) v = ptrs[s.bits(ptrs.size())]; memcpy((char *) q + at, &v, 4); }
		}
	}
	// what the tool has to say about rings and areas is what they say about themselves
	std::multiset<std::string> wr, wa; if (!hostile) { for (auto r : rings) wr.insert(about(*r)); wr.insert(about(hogl::default_ring)); std::set<const hogl::area *> used; for (auto r : rings) { hogl::ringbuf::pop_iterator it(r); while (hogl::record *q = it.next()) if (!q->special()) used.insert(q->area); } for (auto a : used) for (auto &l : split(about(*a))) wa.insert(l); }
	std::string core = scratch("core"); fflush(0); pid_t c = fork();
	if (!c) _exit(coredump_of_self::dump(core.c_str(), whole) ? 0 : 1);
	int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("no core file");
	std::vector<std::string> po = { s.flip() ? "-f" + fields : "--format=" + fields }; if (plugin) { const char *b = getenv("BIN_PLUG"); if (!b) fail("no plugin"); po.push_back(s.flip() ? std::string("-p") + b : std::string("--plugin=") + b); }
	Tool t = recover(po, core); if (plugin) PBT_ASSERT(t.err.find("plugin released\n") != t.err.npos, "the plugin was not released: %s", pbt::show(t.err, 300).c_str()); Tool lr, la; bool lists = s.chance(1, 3); if (lists) { lr = recover({ s.flip() ? "-R" : "--dump-rings" }, core); la = recover({ s.flip() ? "-A" : "--dump-areas" }, core); } Tool all; bool everything = s.chance(1, 4); if (everything) { po.push_back(s.flip() ? "-a" : "--all"); all = recover(po, core); } unlink(core.c_str());
	std::string got = ring_part(t.out), ob = outbuf_part(t.out); std::stable_sort(exp.begin(), exp.end(), [](const Exp &a, const Exp &b) { return a.ts < b.ts; });
	for (unsigned i = 0; i < no; i++) PBT_ASSERT(bufd[i].empty() || ob.find(bufd[i]) != ob.npos, "buffered text %s missing in %s", pbt::show(bufd[i], 200).c_str(), pbt::show(ob, 400).c_str());
	if (lists && !hostile) {
		std::multiset<std::string> gr, ga; if (!whole) { /* the names of time sources are constants */ std::multiset<std::string> x; for (auto &l : wr) x.insert(l.substr(0, l.rfind(", timesource:"))); wr.swap(x); } for (auto &l : split(lr.out)) gr.insert(whole ? l : l.substr(0, l.rfind(", timesource:"))); for (auto &l : split(la.out)) ga.insert(l); auto flat = [](const std::multiset<std::string> &x) { std::string o; for (auto &y : x) o += y + "; "; return o; };
		for (auto &l : wr) PBT_ASSERT(gr.count(l) == wr.count(l), "ring %s is not listed as such but as %s", l.c_str(), pbt::show(flat(gr), 600).c_str()); PBT_ASSERT(gr.size() == wr.size(), "%zu rings listed: %s", gr.size(), pbt::show(flat(gr), 600).c_str());
		for (auto &l : wa) PBT_ASSERT(ga.count(l) == wa.count(l), "area %s is not listed as such but as %s", l.c_str(), pbt::show(flat(ga), 600).c_str()); PBT_ASSERT(ga.size() == wa.size(), "areas listed: %s, expected %s", pbt::show(flat(ga), 600).c_str(), pbt::show(flat(wa), 600).c_str());
		label("lists");
	}
	if (everything && !hostile) { std::string ga = ring_part(all.out); for (auto &e : exp) PBT_ASSERT(ga.find(e.text) != ga.npos, "record %s missing when everything is dumped", pbt::show(e.text, 200).c_str()); }
	if (hostile) {
		// structures made up from others may show up as well, the sound ones must not be lost
		for (auto &e : exp) if (damaged.empty() && !claims) PBT_ASSERT(got.find(e.text) != got.npos, "record %s missing", pbt::show(e.text, 200).c_str());
	} else {
		size_t pos = 0;
		for (size_t i = 0; i < exp.size();) {
			size_t j = i; while (j < exp.size() && exp[j].ts == exp[i].ts) j++;
			std::map<unsigned, std::deque<const Exp *>> q; for (size_t k = i; k < j; k++) q[exp[k].ring].push_back(&exp[k]);
			for (size_t k = i; k < j; k++) {
				// records with the same time may come in any order of rings; the longest match decides between equal names
				const Exp *m = 0; for (auto &x : q) if (!x.second.empty()) { const Exp *e = x.second.front(); if (got.compare(pos, e->text.size(), e->text) == 0 && (!m || e->text.size() > m->text.size())) m = e; }
				PBT_ASSERT(m, "record %zu of %zu: instead of (for example) %s the tool prints %s", k, exp.size(), pbt::show(exp[i].text, 200).c_str(), pbt::show(got.substr(pos, 200), 200).c_str());
				pos += m->text.size(); q[m->ring].pop_front();
			}
			i = j;
		}
		PBT_ASSERT(pos == got.size(), "%zu records recovered, but then the tool prints %s", exp.size(), pbt::show(got.substr(pos), 300).c_str());
	}
	label(strf("%s%s", wrapped ? "wrapped " : "", equal ? "equal times" : "").c_str());
	ops(n); if (total > 3 && maxargs > 2 && (hostile ? junk > 0 : wrapped > 0)) nontrivial(h);
}
PBT_SUITE("C17", "snapshot", snapshot, true, true, 700, 30000, 45, 500, 40000, 0,
	"rings, areas and outputs in a generated state among foreign or damaged memory; non-trivial: more than three records pending, one with more than two arguments, and a wrapped ring or damaged structures");

// ---------------------------------------------------------------- crash of a running process
struct Live { volatile uint64_t started[4], done[4]; volatile int failed; };
static volatile int g_frozen;
static void freeze(int) { __sync_fetch_and_add(&g_frozen, 1); for (;;) syscall(SYS_pause); }
struct Writer { hogl::ringbuf *r; const hogl::area *a; Live *l; unsigned w, n, spin; volatile bool *go; };
static void *writer(void *v)
{
	Writer &w = *(Writer *) v; while (!*w.go) sched_yield();
	for (unsigned i = 0; i < w.n; i++) { w.l->started[w.w] = i + 1; hogl::post(w.r, w.a, hogl::area::INFO, "@%u:%u; %s", w.w, i, "some text to fill the buffers"); w.l->done[w.w] = i + 1; for (volatile unsigned k = 0; k < w.spin; k++); }
	for (;;) syscall(SYS_pause); return 0;
}
static void crash(Src &s)
{
	unsigned W = s.range(1, 3), n[4], spin[4]; for (unsigned i = 0; i < W; i++) { n[i] = s.chance(1, 3) ? s.range(1, 2000) : s.range(1, 200); spin[i] = s.pick({0u, 100u, 3000u}); }
	unsigned buf = s.pick({1u, 100u, 500u, 2000u, 8129u}), poll = s.pick({0u, 50u, 1000u, 10000u}), tso = s.pick({0u, 1u, 16u, 4096u}), wait = s.bits(s.pick({100u, 3000u, 20000u})); bool whole = s.flip(); uint64_t target = s.bits(n[0] + 1);
	note("%u writers, buffer %u, polling %u us, reorder buffer %u, crash %u spins after %llu posts", W, buf, poll, tso, wait, (vals::ull) target);
	Live *l = (Live *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); std::string core = scratch("core"), path = scratch("log"); fflush(0); pid_t c = fork();
	if (!c) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = freeze; sigaction(SIGUSR2, &sa, 0);
		hogl::format_basic *f = new hogl::format_basic("ring,seqnum"); hogl::output_plainfile *out = new hogl::output_plainfile(path.c_str(), *f, buf); hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = poll; eo.default_mask = hogl::mask(".*:INFO", "!HOGL:.*", 0); if (tso) eo.tso_buffer_capacity = tso; else eo.features = hogl::engine::DISABLE_TSO;
		hogl::engine *e = new hogl::engine(*out, eo); const hogl::area *a = e->add_area("A"); static volatile bool go; static Writer w[4]; pthread_t t;
		for (unsigned i = 0; i < W; i++) { hogl::ringbuf::options ro = {}; ro.capacity = 4096; ro.record_tailroom = 200; w[i] = Writer{ e->add_ring(strf("r%u", i).c_str(), ro), a, l, i, n[i], spin[i], &go }; if (pthread_create(&t, 0, writer, &w[i])) _exit(2); }
		int tid[16], nt = 0, self = syscall(SYS_gettid); DIR *d = opendir("/proc/self/task"); while (struct dirent *q = readdir(d)) { int x = atoi(q->d_name); if (x > 0 && x != self && nt < 16) tid[nt++] = x; }
		go = true; while (l->done[0] < target); for (volatile unsigned k = 0; k < wait; k++);
		for (int i = 0; i < nt; i++) syscall(SYS_tgkill, getpid(), tid[i], SIGUSR2);
		for (int i = 0; i < 5000 && g_frozen < nt; i++) { struct timespec ts = { 0, 1000000 }; syscall(SYS_nanosleep, &ts, 0); }
		if (g_frozen < nt) l->failed = 1; else if (!coredump_of_self::dump(core.c_str(), whole)) l->failed = 2;
		syscall(SYS_exit_group, 0);
	}
	int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || l->failed) { unlink(core.c_str()); unlink(path.c_str()); label(l->failed == 1 ? "not frozen" : "no core"); throw Discard(); }
	std::string file; { int f = open(path.c_str(), O_RDONLY); file = cook::fd_text(f); close(f); unlink(path.c_str()); }
	Tool t = recover({ "-f", "ring,seqnum" }, core); unlink(core.c_str()); std::string rp = ring_part(t.out), ob = outbuf_part(t.out);
	// the written file continues with the text in the buffer
	std::string stream = file; size_t a = ob.find("Dumping output buffer"), pend = 0, written = 0; if (a != ob.npos) { a = ob.find('\n', a) + 1; size_t e = ob.rfind("#### #### #### ####\n", ob.rfind("#### #### #### ####\n") - 1); if (e != ob.npos && e >= a) stream += ob.substr(a, e - a); }
	std::vector<std::set<unsigned>> out(W), ring(W); auto scan = [&](const std::string &x, bool rings) { for (size_t p = 0; (p = x.find('@', p)) != x.npos; p++) { unsigned w, i; char z = 0; if (sscanf(x.c_str() + p, "@%u:%u%c", &w, &i, &z) != 3 || z != ';' || w >= W) continue; if (!rings) { out[w].insert(i); continue; } PBT_ASSERT(ring[w].insert(i).second, "record %u of writer %u recovered twice", i, w); PBT_ASSERT(i == *ring[w].rbegin(), "record %u of writer %u recovered after %u", i, w, *ring[w].rbegin()); PBT_ASSERT(i < l->started[w], "record %u of writer %u recovered, which was never posted", i, w); } };
	scan(stream, false); scan(rp, true);
	for (unsigned w = 0; w < W; w++) {
		pend += ring[w].size(); written += out[w].size();
		for (unsigned i = 0; i < l->done[w]; i++) PBT_ASSERT(out[w].count(i) || ring[w].count(i), "record %u of writer %u (of %llu posted) is in neither the log (%zu records of it) nor the core (%zu)", i, w, (vals::ull) l->done[w], out[w].size(), ring[w].size());
		if (!ring[w].empty()) { PBT_ASSERT(*ring[w].rbegin() + 1 >= l->done[w], "last record recovered of writer %u is %u of %llu", w, *ring[w].rbegin(), (vals::ull) l->done[w]); PBT_ASSERT(*ring[w].rbegin() - *ring[w].begin() + 1 == ring[w].size(), "records of writer %u recovered with gaps", w); }
	}
	munmap(l, 4096); label(pend && written ? "both" : pend ? "pending only" : "written only");
	ops(written + pend); if (pend) nontrivial(hash_add(hash_add(pend, written), target));
}
PBT_SUITE("C17", "crash", crash, true, true, 500, 20000, 45, 500, 40000, 0,
	"engine and writer threads frozen at arbitrary instructions, their process dumped; non-trivial: records were pending");
int main(int argc, char **argv)
{
	// the same addresses in every run: they are part of the generated memory
	if (!getenv("NO_ASLR_DONE")) { setenv("NO_ASLR_DONE", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
	return run_main(argc, argv);
}
