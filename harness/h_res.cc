// C25 everything taken is given back; C21, C20 rings whose storage cannot be allocated.
// The allocator, thread creation and the scheduling calls are replaced in this program.
#include "hoglsim.hpp"
#include <dirent.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <stdexcept>
#include <dlfcn.h>
#include <hogl/format-basic.hpp>
#include <hogl/format-null.hpp>
#include <hogl/format-raw.hpp>
#include <hogl/output-file.hpp>
#include <hogl/output-null.hpp>
#include <hogl/output-pipe.hpp>
#include <hogl/output-plainfile.hpp>
#include <hogl/output-stderr.hpp>
#include <hogl/output-stdout.hpp>
#include <hogl/output-tee.hpp>
#include <hogl/platform.hpp>
#include <hogl/detail/schedparam.hpp>
#include <hogl/c-api/area.h>
#include <hogl/c-api/format.h>
#include <hogl/c-api/mask.h>
#include <hogl/c-api/output.h>
#include <hogl/c-api/tls.h>
#include <hogl/c-api/engine.h>
using namespace sim;

// ------------------------------------------------------------------ what is replaced
static volatile long g_live; // blocks in use
static volatile size_t g_refuse; // page aligned requests of at least this size are refused (0: none)
static volatile size_t g_asked; static volatile unsigned g_nasked, g_nrefused; // last page aligned request
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
static inline void *got(void *p) { if (p) __sync_fetch_and_add(&g_live, 1); return p; }
void *malloc(size_t n) { return got(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return got(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) { void *q = __libc_realloc(p, n); if (!p) return got(q); if (!n && !q) __sync_fetch_and_sub(&g_live, 1); return q; }
void free(void *p) { if (p) __sync_fetch_and_sub(&g_live, 1); __libc_free(p); }
void *memalign(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n)
{
	if (a >= 4096) { g_asked = n; __sync_fetch_and_add(&g_nasked, 1); if (g_refuse && n >= g_refuse) { __sync_fetch_and_add(&g_nrefused, 1); return ENOMEM; } }
	void *q = __libc_memalign(a, n); if (!q) return ENOMEM;
	got(q); *p = q; return 0;
}
static volatile int g_nothread; // so many thread creations from now, one is refused
static volatile unsigned g_late; // every new thread is late by so many microseconds
static volatile int g_nopipe; // the next pipe is refused
FILE *popen(const char *c, const char *m)
{
	typedef FILE *(*F)(const char *, const char *); static F real = (F) dlsym(RTLD_NEXT, "popen");
	if (g_nopipe) { g_nopipe = 0; errno = EMFILE; return 0; }
	return real(c, m);
}
static __thread int g_nomutex; static __thread unsigned g_nmutex; // so many initialisations of a mutex by this thread from now, one is refused
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	typedef int (*F)(pthread_mutex_t *, const pthread_mutexattr_t *); static F real = (F) dlsym(RTLD_NEXT, "pthread_mutex_init");
	if (g_nomutex && !--g_nomutex) { g_nmutex++; return ENOTSUP; } // as on a kernel without priority inheritance
	return real(m, a);
}
struct Late { void *(*f)(void *); void *x; unsigned us; };
static void *late(void *p) { Late l = *(Late *) p; free(p); usleep(l.us); return l.f(l.x); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
	typedef int (*F)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); static F real = (F) dlsym(RTLD_NEXT, "pthread_create");
	if (g_nothread && !--g_nothread) return EAGAIN;
	if (!g_late) return real(t, a, f, x);
	Late *l = (Late *) malloc(sizeof(Late)); l->f = f; l->x = x; l->us = g_late;
	int e = real(t, a, late, l); if (e) free(l);
	return e;
}
int pthread_join(pthread_t t, void **x)
{
	typedef int (*F)(pthread_t, void **); static F real = (F) dlsym(RTLD_NEXT, "pthread_join");
	int e = real(t, x); if (g_late) usleep(g_late); // and whoever waits for one is late as well
	return e;
}
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
int pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }
}

// ------------------------------------------------------------------ C25
struct Cur { // the script of a case; every run reads the same
	std::vector<uint32_t> v; size_t p; bool say;
	unsigned next(unsigned n) { return n ? v[p++ % v.size()] % n : 0; }
	bool one(unsigned n) { return next(n) == n - 1; } // zero: no
};
#define SAY(a...) do { if (c.say) note(a); } while (0)
static std::string g_dir; static unsigned g_uses[24];
static const char *S1[] = { "INFO", "WARN", "S1", 0 }, *S2[] = { "S0", "S1", "S2", "S3", "DEBUG", 0 }, *S3[] = { "ONE", 0 };
static const char **sects(unsigned k) { return k == 0 ? 0 : k == 1 ? S1 : k == 2 ? S2 : S3; }
static uint64_t g_t; static hogl::timestamp res_cb(const hogl::timesource *) { return hogl::timestamp(__sync_add_and_fetch(&g_t, 1)); }
static hogl::schedparam *sched(Cur &c) // handed over: deleted by the thread that uses it
{
	if (!c.one(3)) return 0;
	static const char *aff[] = { "", "0x3", "list:0,1", "mask:ff", "nonsense", "cpu-list-that-is-longer-than-a-short-string:0" };
	return new hogl::schedparam(SCHED_OTHER, 0, hogl::schedparam::DELETE_ON_EXIT, aff[c.next(6)]);
}
struct HeadFormat : hogl::format_basic { // says something at the ends of every chunk
	unsigned n; HeadFormat(unsigned n, const char *f) : format_basic(f), n(n) { }
	void header(hogl::ostrbuf &b, const char *name, bool first) { std::string s(n, 'h'); b.push_back(name); b.push_back((const uint8_t *) s.data(), s.size()); b.push_back(first ? "first\n" : "\n"); }
	void footer(hogl::ostrbuf &b, const char *name) { b.push_back("end\n"); }
};
static hogl::format *mkfmt(Cur &c)
{
	if (c.one(4)) return new HeadFormat(c.next(2) ? 10 : 300, "default");
	static const char *F[] = { "fast1", "fast0", "default", "timestamp|area|section", "timespec,timedelta|ring", "seqnum", "nonsense" };
	switch (c.next(6)) {
	case 0: return new hogl::format_null; case 1: return new hogl::format_raw; case 2: return new hogl::format_basic;
	case 3: return (hogl::format *) hogl_new_format_basic(F[c.next(7)]);
	default: return new hogl::format_basic(F[c.next(7)]);
	}
}
struct Made { hogl::output *o; bool c; std::vector<hogl::output *> sub; };
static void drop(Made &m) { if (m.c) hogl_delete_output(m.o); else delete m.o; for (auto x : m.sub) delete x; }
static hogl::output *mkone(Cur &c, hogl::format &f, bool &viac, bool &bad, unsigned depth)
{
	std::string n = g_dir + "/log"; bad = c.one(8); viac = false; unsigned caps[] = { 8192, 0, 1, 100, 65536 }, cap = caps[c.next(5)];
	if (bad) n = g_dir + "/none/log";
	unsigned k = c.next(depth ? 6 : 9); static const char *kn[] = { "null", "plain file", "rotating file", "pipe", "stdout", "stderr", "C plain file", "C rotating file", "C pipe" };
	SAY("output: %s, buffer %u%s", kn[k], cap, bad ? ", cannot be opened" : ""); g_uses[k]++;
	if (k != 1 && k != 2 && k != 3 && k != 6 && k != 7) bad = false;
	hogl::output_file::options fo = hogl::output_file::default_options; fo.max_size = c.next(2) ? 300 : 100000; fo.max_count = 2 + c.next(3); fo.buffer_capacity = cap;
	if (k == 2) {
		fo.schedparam = sched(c);
		bool nt = c.one(6), made = false; if (nt) { SAY("   its thread cannot be created"); g_uses[16]++; g_nothread = 1; }
		try { hogl::output *o = new hogl::output_file(n + (depth ? "d" : "") + ".#.txt", f, fo); made = true; PBT_ASSERT(!nt, "a rotating file without a thread was created"); return o; } catch (std::exception &) { g_nothread = 0; if (!made) delete fo.schedparam; throw; } // the thread that would have deleted it was not started
	}
	switch (k) {
	case 1: return new hogl::output_plainfile(n, f, cap);
	case 3: if (bad && c.next(2)) { g_nopipe = 1; SAY("   no pipe"); hogl::output *o = new hogl::output_pipe("cat", f, cap); fail("an output without its pipe was created"); return o; }
		return new hogl::output_pipe(bad ? "exit 3" : "cat > /dev/null", f, cap);
	case 4: return new hogl::output_stdout(f, cap);
	case 5: return new hogl::output_stderr(f, cap);
	case 6: viac = true; return (hogl::output *) hogl_new_output_plainfile(n.c_str(), &f);
	case 7: { viac = true; struct hogl_output_options o = { 0644, fo.max_size, fo.max_count, cap, { SCHED_OTHER, 0, c.next(2) ? "0x1" : 0 } }; return (hogl::output *) hogl_new_output_file(n.c_str(), &f, c.next(2) ? &o : 0); }
	case 8: viac = true; return (hogl::output *) hogl_new_output_pipe("cat > /dev/null", &f);
	}
	return new hogl::output_null(f, cap);
}
static bool k_opened(bool bad, hogl::output *o)
{
	PBT_ASSERT(!bad || !o || dynamic_cast<hogl::output_pipe *>(o), "an output whose file cannot be opened was created"); PBT_ASSERT(bad || o, "an output was refused"); return o;
}
static bool mkout(Cur &c, hogl::format &f, Made &m)
{
	m.o = 0; m.c = false; m.sub.clear(); bool bad;
	try {
		if (c.one(6)) {
			SAY("output: tee of"); g_uses[9]++;
			bool b; for (int i = 0; i < 2; i++) { hogl::output *o = mkone(c, f, b, bad, 1); if (k_opened(bad, o)) m.sub.push_back(o); }
			m.o = new hogl::output_tee(m.sub[0], m.sub[1], c.next(2) ? 8192 : 10); return true;
		}
		m.o = mkone(c, f, m.c, bad, 0); return k_opened(bad, m.o);
	} catch (std::runtime_error &e) { SAY("   refused"); g_uses[10]++; for (auto x : m.sub) delete x; m.sub.clear(); m.o = 0; return false; }
}
struct Thr { unsigned n; uint32_t seed; hogl::engine *e; const hogl::area *a; unsigned depth; bool viac; };
static void *thr(void *p)
{
	Thr &t = *(Thr *) p; std::vector<hogl::tls *> st; std::vector<hogl_tls_t> cst; uint32_t x = t.seed;
	hogl::platform::set_thread_title("res");
	for (unsigned d = 0; d < t.depth; d++) {
		hogl::ringbuf::options o = { 16u << (x % 4), x % 7, (x >> 3) % 2 ? (unsigned) hogl::ringbuf::SHARED : 0, (x >> 5) % 300 }; x = x * 1664525 + 1013904223;
		if (t.viac) { struct hogl_tls_options co = { 32, 1, 100 }; cst.push_back(hogl_new_tls(strf("T%u", (x >> 8) % 3).c_str(), &co)); }
		else st.push_back(new hogl::tls(strf("T%u", (x >> 8) % 3), o, t.e));
		for (unsigned i = 0; i < t.n; i++) hogl::post(t.a, 0, "message %d %s %f", i, "some text that does not fit into anything short", 1.5 * i);
	}
	while (st.size()) { delete st.back(); st.pop_back(); }
	while (cst.size()) { hogl_delete_tls(cst.back()); cst.pop_back(); }
	return 0;
}
static void run_once(Cur &c)
{
	c.p = 0; g_late = c.one(4) ? 100 << c.next(6) : 0;
	if (c.one(3)) { static const char *N[] = { "log.1.txt", "logd.1.txt", "log.1", "log.0.txt", "log", "other.0.txt" }; unsigned k = c.next(6); std::string n = g_dir + "/" + N[k]; if (symlink("/dev/full", n.c_str())) { } SAY("no room in %s", N[k]); g_uses[17]++; }
	if (c.one(5)) { static const char *N[] = { "log.1.txt", "log.2.txt", "other.0.txt" }; unsigned k = c.next(3); mkdir((g_dir + "/" + N[k]).c_str(), 0700); SAY("%s is a directory", N[k]); g_uses[18]++; }
	std::vector<hogl::format *> fmts; std::vector<Made> outs; static hogl::timesource fixed("res", res_cb);
	for (unsigned n = 1 + c.next(3); n--;) { // some outputs come and go unused
		fmts.push_back(mkfmt(c)); Made m; if (mkout(c, *fmts.back(), m)) { if (n) { if (c.next(2)) m.o->flush(); drop(m); } else outs.push_back(m); }
	}
	if (outs.empty()) { Made m = { new hogl::output_null(*fmts.back()), false, {} }; outs.push_back(m); }
	hogl::output &out = *outs.back().o;
	bool dflt = c.next(3) != 2, viac = c.one(5);
	{
		hogl::engine::options eo = hogl::engine::default_options; static const unsigned tso[] = { 4096, 1, 16, 200 }; eo.polling_interval_usec = 1 + c.next(3) * 50; eo.tso_buffer_capacity = tso[c.next(4)]; eo.features = c.one(4) ? hogl::engine::DISABLE_TSO : 0;
		if (c.next(2)) eo.default_mask << ".*:DEBUG" << "!.*:TRACE"; if (c.next(2)) eo.timesource = &fixed;
		bool nothread = c.one(10); hogl::engine *e = 0;
		if (viac) dflt = true; // the C interface has the default engine only
		if (viac) { struct hogl_engine_options co = { 0, c.next(2) ? hogl_new_mask(".*:INFO", ".*:TRACE", 0) : 0, 50, 100, { SCHED_OTHER, 0, c.next(2) ? "0x1" : 0 } }; hogl_activate(&out, c.next(2) ? &co : 0); if (co.default_mask) hogl_delete_mask(co.default_mask); e = hogl::default_engine; SAY("engine: C activation"); g_uses[11]++; }
		else {
			hogl::schedparam *sp = eo.schedparam = sched(c);
			if (nothread) {
				g_nothread = 1; SAY("engine: thread cannot be created"); g_uses[12]++; hogl::engine *x = 0; bool threw = false;
				try { if (dflt) hogl::activate(out, eo); else x = new hogl::engine(out, eo); } catch (std::exception &) { threw = true; }
				g_nothread = 0; PBT_ASSERT(threw && !hogl::default_engine, "an engine without a thread was created");
			}
			if (dflt) { hogl::activate(out, eo); e = hogl::default_engine; SAY("engine: activation"); g_uses[13]++; if (c.one(5)) { try { hogl::activate(out, eo); } catch (std::logic_error &) { } } }
			else { e = new hogl::engine(out, eo); SAY("engine: private"); g_uses[14]++; }
			(void) sp;
		}
		std::vector<hogl::area *> areas; std::vector<hogl::ringbuf *> rings; std::vector<hogl::mask *> masks; std::vector<hogl::area *> own; hogl::timesource copy(fixed);
		areas.push_back(e->add_area("BASE")); areas.back()->enable();
		for (unsigned i = c.next(16); i--;) switch (c.next(14)) {
			case 0: { unsigned k = c.next(4); hogl::area *a = e->add_area(strf("AREA-%u", c.next(4)).c_str(), sects(k)); if (a) areas.push_back(a); SAY("area %s", a ? "added" : "refused"); break; }
			case 1: { hogl::area *a = new hogl::area("OWN", sects(c.next(4))); a->enable(); if (c.next(2)) own.push_back(a); else delete a; SAY("own area"); break; }
			case 2: { hogl::ringbuf::options o = { 4u << c.next(6), c.next(30), c.next(16) & (unsigned) ~(hogl::ringbuf::BLOCKING | hogl::ringbuf::IMMORTAL), c.next(400) }; if (c.one(8)) { g_nomutex = 1 + c.next(2); g_uses[19]++; } hogl::ringbuf *r = e->add_ring(strf("R%u", c.next(3)).c_str(), o); g_nomutex = 0; if (r) rings.push_back(r); SAY("ring %s", r ? "added" : "refused"); break; }
			case 3: { hogl::ringbuf::options o = { 4u << c.next(6), c.next(30), 0, c.next(400) }; hogl::ringbuf *r = (new hogl::ringbuf(strf("R%u", c.next(3)).c_str(), o))->hold(); if (c.next(2)) { if (e->add_ring(r)) SAY("own ring added"); } if (c.next(2)) rings.push_back(r); else r->release(); break; }
			case 4: if (rings.size()) { unsigned k = c.next(rings.size()); rings[k]->release(); rings.erase(rings.begin() + k); SAY("ring released"); } break;
			case 5: if (rings.size()) { hogl::ringbuf *r = rings[c.next(rings.size())]; for (unsigned k = c.next(30); k--;) hogl::post(r, areas[c.next(areas.size())], 0, "post %u %s", k, "text"); } break;
			case 6: { hogl::ringbuf *r = e->find_ring(strf("R%u", c.next(3)).c_str()); if (r) r->release(); (void) e->find_area("AREA-1"); break; }
			case 7: { hogl::mask m(".*:INFO", "A.*:DEBUG", 0); m << "!BASE:WARN"; hogl::mask m2(m), m3; m3 = m2; m3 = m3; if (c.next(2)) m3.clear(); std::stringstream ss; ss << m2; ss >> m3; try { m3 << "((("; } catch (std::exception &) { } e->apply_mask(m3); SAY("masks"); break; }
			case 8: { hogl_mask_t m = hogl_new_mask("!.*", ".*:TRACE", 0); hogl_mask_add(m, "X:Y"); hogl_mask_clear(m); hogl_mask_add(m, ".*:.*"); if (dflt) hogl_apply_mask(m); hogl_delete_mask(m); break; }
			case 9: { hogl::string_list l; e->list_rings(l); e->list_areas(l); std::ostringstream o; o << *e << e->get_stats() << e->get_options() << *areas[0]; break; }
			case 10: { Thr t[4]; pthread_t th[4]; unsigned n = 1 + c.next(3); SAY("%u threads", n); g_uses[15]++; for (unsigned k = 0; k < n; k++) { t[k].n = c.next(40); t[k].seed = c.next(1u << 30); t[k].e = e; t[k].a = areas[c.next(areas.size())]; t[k].depth = 1 + c.next(3); t[k].viac = dflt && c.next(2); if (pthread_create(&th[k], 0, thr, &t[k])) abort(); } for (unsigned k = 0; k < n; k++) pthread_join(th[k], 0); break; }
			case 11: if (dflt) { hogl::flush(20000000); if (c.next(2)) { static hogl::timesource ts2("res2", res_cb); hogl::change_timesource(&ts2); hogl::change_timesource(&fixed); } SAY("flush"); } break;
			case 12: { Thr t = { c.next(20), c.next(1u << 30), e, areas[0], 1 + c.next(3), false }; thr(&t); break; }
			case 13: if (hogl::output_file *of = dynamic_cast<hogl::output_file *>(&out)) { of->switch_name(g_dir + "/" + (c.next(3) ? "other" : "none/other") + ".#.txt"); SAY("file name switched"); } break;
		}
		for (auto r : rings) r->release();
		if (c.one(4)) usleep(2000);
		if (viac) hogl_deactivate(); else if (dflt) hogl::deactivate(); else delete e;
		for (auto a : own) delete a;
	}
	for (auto &m : outs) drop(m);
	for (auto f : fmts) if (c.next(2)) hogl_delete_format(f); else delete f;
	DIR *d = opendir(g_dir.c_str()); if (d) { while (struct dirent *x = readdir(d)) if (x->d_name[0] != '.') { std::string n = g_dir + "/" + x->d_name; if (unlink(n.c_str())) rmdir(n.c_str()); } closedir(d); }
}
static unsigned entries(const char *p) { unsigned n = 0; DIR *d = opendir(p); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static int g_err; static void on_crash(int n) { void *b[60]; backtrace_symbols_fd(b, backtrace(b, 60), g_err); signal(n, SIG_DFL); raise(n); }
static void lifecycle(Src &s)
{
	g_err = fcntl(2, F_DUPFD, 100); { void *b[2]; backtrace(b, 2); signal(SIGSEGV, on_crash); signal(SIGABRT, on_crash); }
	signal(SIGPIPE, SIG_IGN); int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); close(z);
	const char *e = getenv("PBT_SCRATCH"); g_dir = strf("%s/c25-%d", e ? e : "/tmp", (int) getpid()); mkdir(g_dir.c_str(), 0700); g_t = 1000;
	Cur c; c.say = true; unsigned len = s.range(10, 120); for (unsigned i = 0; i < len; i++) c.v.push_back(s.bits(1 << 20));
	enum { N = 9 }; long live[N], fds[N], tasks[N]; int chld[N];
	for (unsigned i = 0; i < N; i++) {
		run_once(c); c.say = false; ops(1);
		for (unsigned k = 0; k < 2000 && (tasks[i] = entries("/proc/self/task") - 2) > 1; k++) usleep(1000);
		fds[i] = entries("/proc/self/fd"); live[i] = g_live; chld[i] = waitpid(-1, 0, WNOHANG) == -1 && errno == ECHILD;
	}
	rmdir(g_dir.c_str());
	bool more = true; for (unsigned i = 3; i + 1 < N; i++) if (live[i + 1] <= live[i]) more = false;
	PBT_ASSERT(!more, "memory is not given back: blocks in use after each of %u equal lifecycles %ld %ld %ld %ld %ld %ld %ld %ld %ld", (unsigned) N, live[0], live[1], live[2], live[3], live[4], live[5], live[6], live[7], live[8]);
	PBT_ASSERT(fds[N - 1] <= fds[0], "file descriptors are not given back: %ld open after the first of %u equal lifecycles, %ld after the last", fds[0], (unsigned) N, fds[N - 1]);
	for (unsigned i = 0; i < N; i++) { PBT_ASSERT(tasks[i] == 1, "%ld threads are left after the lifecycle", tasks[i] - 1); PBT_ASSERT(chld[i], "a child process is left after the lifecycle"); }
	static const char *un[] = { "null", "plain file", "rotating file", "pipe", "stdout", "stderr", "C plain file", "C rotating file", "C pipe", "tee", "refused output", "C activation", "refused thread", "activation", "private engine", "threads", "rotating file refused a thread", "no room in a file", "directory instead of a file", "mutex refused" };
	for (unsigned i = 0; i < 20; i++) if (g_uses[i]) label(un[i]);
	nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C25", "lifecycle", lifecycle, true, false, 3000, 100000, 40, 500, 40000, 0,
	"a generated lifecycle (outputs, formats, engine, areas, rings, masks, threads with thread-local rings, refused resources, shutdown) run nine times in one process; non-trivial: every case");

// C25: rotating files whose next chunks cannot be opened or written. Descriptors: as before once the file is closed, one more while it is open.
static void rotation(Src &s)
{
	signal(SIGPIPE, SIG_IGN); int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); close(z);
	const char *e = getenv("PBT_SCRATCH"); g_dir = strf("%s/c25r-%d", e ? e : "/tmp", (int) getpid()); mkdir(g_dir.c_str(), 0700); mkdir((g_dir + "/sub").c_str(), 0700); g_t = 1000;
	static hogl::timesource fixed("res", res_cb); bool hash = s.flip(); unsigned count = s.range(2, 5);
	std::string base = g_dir + "/log"; auto chunk = [&](unsigned i) { return hash ? base + strf(".%u.txt", i) : base + strf(".%u", i); };
	unsigned bad = 0; for (unsigned i = 0; i < count; i++) switch (s.weighted({3, 4, 1})) {
		case 1: if (i || s.flip()) { if (symlink("/dev/full", chunk(i).c_str())) { } note("no room in chunk %u", i); bad++; } break;
		case 2: if (i) { mkdir(chunk(i).c_str(), 0700); note("chunk %u is a directory", i); bad++; } break;
	}
	hogl::format_basic fb("timestamp|area"); hogl::format_raw fr; HeadFormat fh(s.pick({0u, 20u, 90u, 128u, 1000u}), "fast1"); hogl::format &f = s.chance(1, 6) ? (hogl::format &) fb : s.chance(1, 6) ? (hogl::format &) fr : fh;
	hogl::output_file::options fo = hogl::output_file::default_options; fo.max_size = s.pick({1u, 100u, 300u, 1000u}); fo.max_count = count; fo.buffer_capacity = s.pick({0u, 100u, 8192u});
	unsigned before = entries("/proc/self/fd"), most = 0, rot = 0; bool failedsw = false;
	hogl::output_file *of = new hogl::output_file(base + (hash ? ".#.txt" : ""), f, fo); // may rotate at once: counted below
	{
		hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = 50; eo.timesource = &fixed; eo.features = hogl::engine::DISABLE_TSO;
		hogl::engine en(*of, eo); hogl::area *a = en.add_area("A"); a->enable(); hogl::ringbuf::options ro = { 256, 0, 0, 80 }; hogl::ringbuf *r = en.add_ring("R", ro);
		for (unsigned i = s.range(2, 14); i--;) {
			unsigned k = s.range(1, 12), old = of->index(); note("%u posts", k); ops(k);
			while (k--) { a->enable(); hogl::post(r, a, hogl::area::INFO, "post %u some text to fill the file with", k); }
			for (unsigned w = s.pick({0u, 3u, 8u}); w-- && of->index() == old;) usleep(200);
			if (s.chance(1, 6)) { unsigned w = s.range(0, 2); note("name switched %u", w); if (w == 1) failedsw = true; of->switch_name(w == 0 ? g_dir + "/sub/log.#" : w == 1 ? g_dir + "/none/log.#" : base + (hash ? ".#.txt" : "")); }
			if (of->index() != old) rot++;
			unsigned n = entries("/proc/self/fd") - before; if (n > most) most = n;
		}
		r->release();
	}
	delete of; unsigned after = entries("/proc/self/fd");
	for (const char *sub : { "/sub", "" }) { std::string dn = g_dir + sub; DIR *d = opendir(dn.c_str()); if (d) { while (struct dirent *x = readdir(d)) if (x->d_name[0] != '.') { std::string n = dn + "/" + x->d_name; if (unlink(n.c_str())) rmdir(n.c_str()); } closedir(d); } rmdir(dn.c_str()); }
	PBT_ASSERT(after == before, "%ld descriptors are left open by a rotating file that was closed (%u chunks of %u without room, up to %u open at once)", (long) after - before, bad, count, most);
	PBT_ASSERT(most <= 4, "up to %u descriptors for one rotating file", most); // old and new chunk while rotating, and this directory listing
	if (bad) label("chunks without room"); if (failedsw) label("switched into a missing directory"); if (rot) label("rotated");
	if (bad || rot) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C25", "rotation", rotation, true, true, 3000, 100000, 20, 200, 40000, 0,
	"a rotating file with generated chunks that cannot be opened or written, written to and switched to other names: no descriptor is left; non-trivial: rotated or with such a chunk");

// ------------------------------------------------------------------ C21: any geometry
static const size_t LIMIT = 8 << 20; // larger storage is refused
struct Quiet { int o; Quiet() { fflush(stderr); o = dup(2); int z = open("/dev/null", O_WRONLY); dup2(z, 2); close(z); } ~Quiet() { fflush(stderr); dup2(o, 2); close(o); } };
static uint64_t up2(uint64_t n) { uint64_t p = 1; while (p < n) p <<= 1; return p; }
static unsigned geom(Src &s, unsigned small) { return s.chance(1, 2) ? s.range(0, small) : s.chance(1, 2) ? (unsigned) ((1ull << s.range(1, 32)) - s.range(0, 2)) : (unsigned) s.u64(); }
static void sizes(Src &s)
{
	hogl::ringbuf::options o = {}; o.capacity = geom(s, 3000); o.prio = s.bits(5); o.record_tailroom = geom(s, 2000); o.flags = s.bits(2);
	note("capacity %u tailroom %u", o.capacity, o.record_tailroom);
	uint64_t cap = up2(o.capacity), rec = up2(160 + (o.record_tailroom > 128 ? (uint64_t) o.record_tailroom - 128 : 0)), need = cap * rec;
	bool ovf = cap > (1ull << 32) / rec; // does not fit into 32 bits
	long live = g_live; g_refuse = LIMIT; hogl::ringbuf *r = 0; g_nasked = 0; bool threw = false;
	if (s.chance(1, 16)) { // initialisation of a mutex fails
		Quiet q; unsigned k = s.range(1, 3); note("mutex %u refused", k); g_nomutex = k; g_nmutex = 0;
		try { r = (new hogl::ringbuf("big", o))->hold(); } catch (std::exception &) { threw = true; }
		g_nomutex = 0; g_refuse = 0;
		if (g_nmutex) {
			PBT_ASSERT(threw, "a ring without its mutex %u was created", k);
			PBT_ASSERT(g_live == live, "a refused ring left %ld blocks behind", g_live - live);
			label("mutex refused"); nontrivial(o.capacity * 31ull + o.record_tailroom + k); return;
		}
	} else
	try { r = (new hogl::ringbuf("big", o))->hold(); } catch (std::bad_alloc &) { threw = true; }
	g_refuse = 0;
	if (threw) {
		PBT_ASSERT(ovf || need >= LIMIT, "a ring of %llu records of %llu bytes was refused", (ull) cap, (ull) rec);
		PBT_ASSERT(g_live == live, "a refused ring left %ld blocks behind", g_live - live);
		label("refused"); nontrivial(o.capacity * 31ull + o.record_tailroom); return;
	}
	PBT_ASSERT(need < LIMIT, "a ring of %llu records of %llu bytes got storage of %zu bytes", (ull) cap, (ull) rec, (size_t) g_asked);
	PBT_ASSERT(r->capacity() == cap && r->record_size() == rec && g_asked >= need && r->record_tailroom() == rec - 32, "asked for capacity %u tailroom %u: got %u records of %u bytes in %zu bytes", o.capacity, o.record_tailroom, r->capacity(), r->record_size(), (size_t) g_asked);
	r->release();
	PBT_ASSERT(g_live == live, "a released ring left %ld blocks behind", g_live - live);
	if (o.capacity > 16 || o.record_tailroom > 128) nontrivial(o.capacity * 31ull + o.record_tailroom);
}
PBT_SUITE("C21", "sizes", sizes, false, false, 100000, 3000000, 20, 200, 20000, 0,
	"any 32 bit capacity and tailroom, with storage of 8 MiB or more, or a mutex, refused: either the ring has the geometry asked for, or the construction fails and leaves nothing behind; non-trivial: larger than the least ring");

// ------------------------------------------------------------------ C20: no memory for a thread-local ring
static void nomem(Src &s)
{
	RecFormat fmt; Out out(fmt, 0, 0); hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = s.range(1, 100);
	static hogl::timesource ts("res", res_cb); g_t = 1000; eo.timesource = &ts;
	hogl::activate(out, eo); { Lock l(&fmt.m); fmt.eng = hogl::default_engine; }
	const hogl::area *a = hogl::add_area("A"); std::vector<std::pair<hogl::tls *, std::string> > st; std::vector<hogl::ringbuf *> keep; std::string cur = "DEFAULT"; std::map<std::string, std::vector<uint64_t> > want; uint64_t id = 1; unsigned names = 0, refused = 0, after = 0;
	for (unsigned i = s.range(1, 12); i--;) switch (s.weighted({4, 2, 3})) {
		case 0: {
			hogl::ringbuf::options o = { 64, 0, 0, 80 }; bool big = s.flip(); if (big) { if (s.flip()) o.capacity = s.pick({1u << 20, 1u << 24, 1u << 31, 0xffffffffu}); else o.record_tailroom = s.pick({1u << 24, 0x7fffffffu, 0xffffffffu}); }
			std::string n = strf("T%u", names++); note("thread-local ring %s, capacity %u tailroom %u", n.c_str(), o.capacity, o.record_tailroom);
			unsigned mx = !big && s.chance(1, 3) ? s.range(1, 2) : 0; if (mx) note("  mutex %u refused", mx);
			hogl::tls *t; { Quiet q; g_refuse = LIMIT; g_nomutex = mx; g_nmutex = 0; t = new hogl::tls(n, o); g_refuse = 0; g_nomutex = 0; } ops(1);
			big |= g_nmutex > 0;
			PBT_ASSERT(t->valid() == !big, "thread-local ring without storage or mutex is %svalid", t->valid() ? "" : "not ");
			PBT_ASSERT(big ? hogl::tls::ring()->name() == cur : hogl::tls::ring()->name() == n, "ring in use is %s", hogl::tls::ring()->name());
			hogl::ringbuf *r = hogl::default_engine->find_ring(n.c_str()); if (r) r->release(); PBT_ASSERT(!big || !r, "a ring without storage is registered");
			if (big) { refused++; if (s.flip()) { delete t; break; } }
			st.push_back(std::make_pair(t, cur)); if (!big) cur = n;
			break; }
		case 1: if (st.size()) { note("destroyed"); delete st.back().first; cur = st.back().second; st.pop_back(); hogl::flush(20000000); PBT_ASSERT(hogl::tls::ring()->name() == cur, "ring in use is %s, not %s", hogl::tls::ring()->name(), cur.c_str()); } break;
		default: { unsigned k = s.range(1, 20); note("%u posts", k); for (unsigned j = 0; j < k; j++) { while (!hogl::tls::ring()->room()) usleep(100); hogl::post(a, hogl::area::INFO, id, ~id); want[cur].push_back(id++); } if (refused) after++; break; }
	}
	while (st.size()) { delete st.back().first; st.pop_back(); }
	hogl::deactivate();
	std::map<std::string, std::vector<uint64_t> > got; for (auto &e : fmt.out) if (e.area == a) got[e.ring].push_back(e.id);
	for (auto &w : want) PBT_ASSERT(got[w.first] == w.second, "ring %s delivered %zu of %zu records", w.first.c_str(), got[w.first].size(), w.second.size());
	if (refused && after) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C20", "no-memory", nomem, true, false, 1500, 40000, 20, 200, 40000, 0,
	"thread-local rings whose storage or mutex is refused among others, nested, with posts before, between and after; non-trivial: posts after a refusal");

int main(int ac, char **av) { return pbt::run_main(ac, av); }
