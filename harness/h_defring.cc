// C24: the default ring an application asks for, and what a process that simply exits still delivers.
// Every case is a program of its own: this executable, started again with generated default ring options
// and a generated script.
#include "pbt.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdexcept>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <hogl/area.hpp>
#include <hogl/engine.hpp>
#include <hogl/flush.hpp>
#include <hogl/format-basic.hpp>
#include <hogl/mask.hpp>
#include <hogl/output-file.hpp>
#include <hogl/output-pipe.hpp>
#include <hogl/output-plainfile.hpp>
#include <hogl/output-stdout.hpp>
#include <hogl/post.hpp>
#include <hogl/tls.hpp>
#include <hogl/detail/internal.hpp>
using namespace pbt;
typedef unsigned long long ull;

// The application's own options, fixed before any other object is constructed.
namespace hogl { ringbuf::options default_ring_options = { 2048, 0, ringbuf::SHARED | ringbuf::IMMORTAL, 80 }; }
static uint64_t g_script[4096]; static unsigned g_nscript, g_pos;
#ifdef SHARED_LIB // the library's own constructors run before any of the program's
static void early(int, char **, char **);
__attribute__((section(".preinit_array"), used)) static void (*early_ptr)(int, char **, char **) = early;
static void early(int, char **, char **env)
#else
__attribute__((constructor(101))) static void early(int, char **, char **env)
#endif
{
	const char *e = 0; for (; *env; env++) if (!strncmp(*env, "DEFRING_SCRIPT=", 15)) e = *env + 15;
	if (!e) return;
	while (*e && g_nscript < 4096) { char *n; g_script[g_nscript++] = strtoull(e, &n, 10); if (n == e) break; e = *n ? n + 1 : n; }
	hogl::ringbuf::options &o = hogl::default_ring_options;
	o.capacity = g_script[0]; o.prio = g_script[1]; o.flags = g_script[2]; o.record_tailroom = g_script[3]; g_pos = 4;
}
static uint64_t next() { return g_pos < g_nscript ? g_script[g_pos++] : 0; }

// ------------------------------------------------------------------ the program
enum { POST, ACTIVATE, AGAIN, THREADS, TLS, DEACTIVATE, FLUSH, NAP, PRIVATE, END };
enum { RETURN, EXIT, EXIT_THREAD, EXPLICIT };
enum { O_PLAIN, O_PIPE, O_STDOUT, O_FILE, O_CLASS };
static FILE *g_rep; static hogl::area *g_area; static uint64_t g_seq[64]; static unsigned g_who = 1; static volatile uint64_t g_done;
#define rep(a...) (fprintf(g_rep, a), fflush(g_rep))
static void post_n(unsigned who, unsigned n) { for (unsigned i = 0; i < n; i++) { hogl::post(&hogl::default_ring, g_area, hogl::area::INFO, "<%u %u %s>", who, g_seq[who], "text"); g_seq[who]++; } }
static void post_tls(unsigned who, unsigned n) { for (unsigned i = 0; i < n; i++) { hogl::post(g_area, hogl::area::INFO, "<%u %u %s>", who, g_seq[who], "text"); g_seq[who]++; } }
static unsigned g_hn;
static void handler() { if (hogl::default_ring.blocking() && !hogl::default_engine) g_hn = std::min(g_hn, hogl::default_ring.room()); /* nobody would ever read them */ uint64_t d = hogl::default_ring.dropcnt(); post_n(60, g_hn); rep("handler %u %llu\n", g_hn, (ull) (hogl::default_ring.dropcnt() - d)); }
static hogl::output *make_output(unsigned k, unsigned storage, hogl::format &f, const std::string &dir, unsigned cap)
{
	if (storage) switch (k) { // static objects, constructed before activation
	case O_PLAIN: { static hogl::output_plainfile o(dir + "/log", f, cap); return &o; }
	case O_PIPE: { static hogl::output_pipe o("cat >&4", f, cap); return &o; }
	case O_STDOUT: { static hogl::output_stdout o(f, cap); return &o; }
	default: { static hogl::output_file::options fo = hogl::output_file::default_options; fo.max_size = 4096; fo.max_count = 1000; fo.buffer_capacity = cap; static hogl::output_file o(dir + "/log.#", f, fo); return &o; }
	}
	switch (k) { // never destroyed
	case O_PLAIN: return new hogl::output_plainfile(dir + "/log", f, cap);
	case O_PIPE: return new hogl::output_pipe("cat >&4", f, cap);
	case O_STDOUT: return new hogl::output_stdout(f, cap);
	default: { hogl::output_file::options fo = hogl::output_file::default_options; fo.max_size = 4096; fo.max_count = 1000; fo.buffer_capacity = cap; return new hogl::output_file(dir + "/log.#", f, fo); }
	}
}
struct W { unsigned who, n, yield; };
static void *writer(void *p) { W &w = *(W *) p; for (unsigned i = 0; i < w.n; i++) { post_n(w.who, 1); if (w.yield && i % w.yield == 0) usleep(50); } return 0; }
static int program()
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	g_rep = fdopen(3, "w"); fcntl(3, F_SETFD, FD_CLOEXEC);
	hogl::ringbuf &r = hogl::default_ring;
	rep("ring %s %u %d %u %u %u %u %u %u\n", r.name(), r.capacity(), r.prio(), r.record_size(), r.record_tailroom(), r.shared(), r.immortal(), r.reusable(), r.blocking());
	std::string dir = getenv("DEFRING_DIR");
	unsigned kind = next(), storage = next(), cap = next(), poll = next(), how = next(); g_hn = next(); unsigned when = next();
	hogl::format_basic &f = *new hogl::format_basic("timestamp,ring,area,section");
	hogl::output *out = 0; hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = poll;
	g_area = new hogl::area("DR"); g_area->enable();
	for (;;) {
		unsigned op = next(); if (op == END) break;
		switch (op) {
		case POST: { unsigned n = next(); uint64_t d = r.dropcnt(); unsigned room = r.room(); post_n(1, n); rep("post %u %llu room %u\n", n, (ull) (r.dropcnt() - d), room); break; }
		case ACTIVATE:
			if (!out) out = make_output(kind, storage, f, dir, cap);
			try { hogl::activate(*out, eo); rep("activate ok %d\n", !!hogl::default_engine); if (g_hn && when == 0) { atexit(handler); when = 2; } }
			catch (std::logic_error &) { rep("activate refused %d\n", !!hogl::default_engine); }
			break;
		case AGAIN: {
			hogl::engine *e = hogl::default_engine;
			try { hogl::activate(*out, eo); rep("again ok\n"); } catch (std::logic_error &) { rep("again refused %d\n", hogl::default_engine == e); }
			break; }
		case THREADS: {
			unsigned k = next(), n = next(); pthread_t th[8]; W w[8]; uint64_t d = r.dropcnt();
			for (unsigned i = 0; i < k; i++) { w[i].who = ++g_who; w[i].n = n; w[i].yield = next(); pthread_create(&th[i], 0, writer, &w[i]); }
			for (unsigned i = 0; i < k; i++) pthread_join(th[i], 0);
			rep("threads %u %u %u %llu\n", g_who - k + 1, k, n, (ull) (r.dropcnt() - d)); break; }
		case TLS: {
			unsigned n = next(); hogl::ringbuf::options ro = { 1024, 1, 0, 100 }; g_who++;
			{ char nm[20]; snprintf(nm, 20, "T%u", g_who); hogl::tls t(nm, ro); post_tls(g_who, n); }
			rep("tls %u %u\n", g_who, n); break; }
		case DEACTIVATE: hogl::deactivate(); rep("deactivate %d\n", !!hogl::default_engine); break;
		case FLUSH: rep("flush %d\n", hogl::default_engine ? hogl::flush(15000000) : 1); break;
		case NAP: usleep(next()); break;
		case PRIVATE: { // an engine of the application's own still serves thread-local rings
			unsigned n = next(); if (!out) out = make_output(kind, storage, f, dir, cap);
			g_who++;
			{ hogl::engine e(*out, eo); { hogl::ringbuf::options ro = { 1024, 1, 0, 100 }; hogl::ringbuf *x = e.add_ring("PRIV", ro); for (unsigned i = 0; i < n; i++) { hogl::post(x, g_area, hogl::area::INFO, "<%u %u %s>", g_who, g_seq[g_who], "text"); g_seq[g_who]++; } x->release(); } }
			rep("tls %u %u\n", g_who, n); break; }
		}
	}
	rep("end\n");
	switch (how) {
	case EXIT: exit(0);
	case EXIT_THREAD: { pthread_t t; pthread_create(&t, 0, [](void *) -> void * { exit(0); }, 0); for (;;) pause(); }
	case EXPLICIT: hogl::deactivate(); return 0;
	}
	return 0;
}

// ------------------------------------------------------------------ the check
static std::string slurp(const std::string &p) { std::string o; FILE *f = fopen(p.c_str(), "r"); if (!f) return o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f))) o.append(b, n); fclose(f); return o; }
static unsigned pow2(unsigned n) { unsigned p = 1; while (p < n) p <<= 1; return p; }
static void process(Src &s)
{
	std::string dir = strf("%s/c24-%d", getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp", (int) getpid());
	mkdir(dir.c_str(), 0700);
	struct Rm { std::string d; ~Rm() { DIR *x = opendir(d.c_str()); if (x) { while (struct dirent *e = readdir(x)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(x); } rmdir(d.c_str()); } } rm = { dir };
	// options
	std::vector<uint64_t> sc; auto put = [&](uint64_t v) { sc.push_back(v); return v; };
	unsigned cap = put(s.chance(1, 5) ? s.range(2, 4096) : s.pick({2u, 3u, 4u, 7u, 8u, 16u, 33u, 64u, 100u, 256u, 1000u, 2048u}));
	unsigned prio = put(s.chance(1, 6) ? s.pick({9998u, 9999u, 10000u, 2147483648u, 4294967295u}) : s.range(0, 20));
	unsigned flags = (s.chance(7, 8) ? hogl::ringbuf::SHARED : 0) | (s.chance(7, 8) ? hogl::ringbuf::IMMORTAL : 0) | (s.chance(1, 4) ? hogl::ringbuf::BLOCKING : 0) | (s.chance(1, 4) ? hogl::ringbuf::REUSABLE : 0); put(flags);
	unsigned tail = put(s.pick({80u, 64u, 128u, 129u, 160u, 200u, 256u, 500u, 1000u}));
	bool good = (flags & hogl::ringbuf::SHARED) && (flags & hogl::ringbuf::IMMORTAL), blocking = flags & hogl::ringbuf::BLOCKING;
	note("default ring: capacity %u prio %u flags %x tailroom %u", cap, prio, flags, tail);
	bool slow = blocking && cap <= 8; // every few posts wait for the engine
	unsigned kind = put(s.bits(O_CLASS)), storage = put(s.bits(2)), bcap = put(s.pick({8192u, 0u, 1u, 64u, 1000u, 100000u})), poll = put(std::min(s.pick({1000u, 1u, 100u, 20000u}), !blocking || cap > 256 ? 20000u : cap > 8 ? 1000u : 100u)), how = put(s.bits(4)), hn = put(s.chance(1, 3) ? s.range(1, 20) : 0); put(0);
	static const char *kn[] = { "plain file", "pipe", "stdout", "rotating file" }, *hw[] = { "return from main", "exit()", "exit() in another thread", "deactivate, then return" };
	note("output: %s%s, buffer %u, polling %u", kn[kind], storage ? ", static" : "", bcap, poll);
	// script
	bool act = false, everact = false; unsigned room = pow2(cap) - 1, n = s.range(1, 8), posts = 0, pend = 0; unsigned nthr = 0; bool flushed_last = false;
	for (unsigned i = 0; i < n; i++) {
		unsigned op = s.weighted({4, (unsigned) (act ? 0 : 5), (unsigned) (act ? 1 : 0), 3, (unsigned) (act ? 2 : 0), (unsigned) (act ? 1 : 0), (unsigned) (act ? 1 : 0), 1, (unsigned) (act ? 0 : 1)});
		if (!act && !good && (op == THREADS || (op == POST && blocking))) op = ACTIVATE; // an unshared ring belongs to one thread
		if (!act && op == THREADS) op = POST;
		put(op); flushed_last = false;
		switch (op) {
		case POST: { unsigned k = s.range(0, s.chance(1, 4) ? slow ? 60 : 300 : 20); if (!act && blocking) { k = std::min(k, room - pend); } put(k); posts += k; if (!act) pend = std::min(room, pend + k); note("%u posts%s", k, act ? "" : ", not active"); break; }
		case ACTIVATE: note("activate"); if (good) { act = everact = true; pend = 0; } break;
		case AGAIN: note("activate again"); break;
		case THREADS: { unsigned k = put(s.range(1, 4)), m = put(s.range(0, slow ? 10 : s.chance(1, 4) ? 300 : 30)); for (unsigned j = 0; j < k; j++) put(s.range(0, 10)); posts += k * m; nthr += k; note("%u threads post %u each", k, m); break; }
		case TLS: { unsigned k = put(s.range(0, 60)); posts += k; note("thread-local ring, %u posts", k); break; }
		case DEACTIVATE: note("deactivate"); act = false; break;
		case FLUSH: note("flush"); flushed_last = true; break;
		case NAP: put(s.pick({10, 200, 3000})); break;
		case PRIVATE: { unsigned k = put(s.range(0, 60)); posts += k; note("engine of its own, %u posts", k); break; }
		}
	}
	put(END); note("%s, %u more posts from an exit handler", hw[how], everact ? hn : 0);
	std::string env = "DEFRING_SCRIPT="; for (auto v : sc) env += strf("%llu,", (ull) v);
	std::string envd = "DEFRING_DIR=" + dir;
	// run it
	int rp[2], op[2], ep[2]; if (pipe(rp) || pipe(op) || pipe(ep)) throw Discard();
	fflush(0); pid_t c = fork();
	if (!c) {
		close(rp[0]); close(op[0]); close(ep[0]);
		int a = fcntl(rp[1], F_DUPFD, 20), b = fcntl(op[1], F_DUPFD, 20), e = fcntl(ep[1], F_DUPFD, 20), z = open("/dev/null", O_RDWR);
		dup2(z, 0); dup2(kind == O_STDOUT ? b : z, 1); dup2(e, 2); dup2(a, 3); dup2(kind == O_PIPE ? b : z, 4); for (int i = 5; i < 64; i++) close(i);
		std::vector<char *> ev; for (char **x = environ; *x; x++) ev.push_back(*x); ev.push_back(&env[0]); ev.push_back(&envd[0]); ev.push_back(0);
		char a0[] = "/proc/self/exe"; char *av[] = { a0, 0 }; execve(a0, av, ev.data()); _exit(99);
	}
	close(rp[1]); close(op[1]); close(ep[1]);
	std::string R, O, E; struct pollfd pf[3] = { { rp[0], POLLIN, 0 }, { op[0], POLLIN, 0 }, { ep[0], POLLIN, 0 } }; std::string *to[3] = { &R, &O, &E }; unsigned open_ = 3; bool hung = false; uint64_t t0 = now_ms();
	while (open_) {
		if (::poll(pf, 3, 500) < 0 && errno != EINTR) break;
		for (int i = 0; i < 3; i++) if (pf[i].fd >= 0 && pf[i].revents) { char b[8192]; ssize_t k = read(pf[i].fd, b, sizeof b); if (k > 0) to[i]->append(b, k); else { close(pf[i].fd); pf[i].fd = -1; open_--; } }
		if (now_ms() - t0 > 20000) { hung = true; kill(c, SIGKILL); break; }
	}
	int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR);
	PBT_ASSERT(!hung, "the process did not end within 20 s; report: %s", R.c_str());
	PBT_ASSERT(st == 0, "the process ended with status %x; errors: %s", st, E.substr(0, 600).c_str());
	if (kind == O_PLAIN) O = slurp(dir + "/log");
	if (kind == O_FILE) { O.clear(); for (unsigned i = 0; i < 1000; i++) { std::string p = strf("%s/log.%03u", dir.c_str(), i); if (access(p.c_str(), R_OK)) break; O += slurp(p); } }
	// what it said about itself
	size_t rec = pow2(160 + (tail > 128 ? tail - 128 : 0));
	std::string want = strf("ring DEFAULT %u %d %zu %zu %u %u %u %u\n", pow2(cap), (int) std::min(prio, 9999u), rec, rec - 32, !!(flags & hogl::ringbuf::SHARED), !!(flags & hogl::ringbuf::IMMORTAL), !!(flags & hogl::ringbuf::REUSABLE), blocking);
	PBT_ASSERT(R.compare(0, want.size(), want) == 0, "the default ring is '%s', asked for '%s'", R.substr(0, R.find('\n')).c_str(), want.c_str());
	// what must have come out: per writer, a number of records in order, all but the dropped ones
	std::map<unsigned, uint64_t> posted, dropped; uint64_t groupdrops = 0; bool active = false, was = false, ended = false; uint64_t must = 0, undelivered = 0; unsigned pending = 0, nact = 0;
	char *save = 0; std::string copy = R; bool lastflush = false; (void) lastflush;
	uint64_t dpost = 0, ddrop = 0; unsigned hposts = 0; uint64_t hdrops = 0; unsigned rm_ = pow2(cap) - 1;
	for (char *l = strtok_r(&copy[0], "\n", &save); l; l = strtok_r(0, "\n", &save)) {
		unsigned a, b, k, fr; ull d;
		if (sscanf(l, "post %u %llu room %u", &a, &d, &b) == 3) {
			if (!active) PBT_ASSERT(d == (a > b ? a - b : 0), "%u posts into a ring with room for %u, nobody reading: %llu dropped", a, b, d);
			if (blocking) PBT_ASSERT(!d, "a blocking ring dropped %llu records", d);
			posted[1] += a; dpost += a; ddrop += d; if (active) undelivered = 0; else undelivered += a - d;
			if (!active && !was) PBT_ASSERT(b == rm_ - pending, "room %u in a ring of %u holding %u", b, rm_, pending);
			if (!active) pending += a - d;
		} else if (!strncmp(l, "activate", 8)) {
			PBT_ASSERT(!strcmp(l, good ? "activate ok 1" : "activate refused 0"), "default ring is %sfit for activation: '%s'", good ? "" : "not ", l);
			if (good) { nact++; active = was = true; undelivered = 0; pending = 0; }
		} else if (!strncmp(l, "again", 5)) PBT_ASSERT(!strcmp(l, "again refused 1"), "second activation: '%s'", l);
		else if (sscanf(l, "threads %u %u %u %llu", &a, &k, &fr, &d) == 4) { for (unsigned i = 0; i < k; i++) posted[a + i] += fr; groupdrops += d; dpost += k * fr; ddrop += d; if (blocking) PBT_ASSERT(!d, "a blocking ring dropped %llu records", d); }
		else if (sscanf(l, "tls %u %u", &a, &b) == 2) posted[a] += b;
		else if (!strncmp(l, "deactivate", 10)) { PBT_ASSERT(!strcmp(l, "deactivate 0"), "default engine is still set after deactivate"); active = false; pending = 0; }
		else if (!strncmp(l, "flush", 5)) PBT_ASSERT(!strcmp(l, "flush 1"), "flush failed");
		else if (sscanf(l, "handler %u %llu", &a, &d) == 2) { hposts = a; hdrops = d; }
		else if (!strcmp(l, "end")) ended = true;
	}
	PBT_ASSERT(ended, "the program did not get to its end: %s", R.c_str());
	if (everact && hn && (!blocking || active)) PBT_ASSERT(hposts == hn || blocking, "exit handler posted %u of %u", hposts, hn);
	// the handler was registered after the first activation, so it runs before that one is undone, and after a later one is
	if (hposts && active && nact == 1 && how != EXPLICIT) { posted[60] = hposts; dpost += hposts; ddrop += hdrops; }
	must = dpost - ddrop - undelivered;
	std::map<unsigned, uint64_t> nxt, cnt; uint64_t got = 0;
	for (size_t p = 0; (p = O.find('<', p)) != O.npos; p++) {
		unsigned w; ull i; int e = 0; if (sscanf(O.c_str() + p, "<%u %llu text>%n", &w, &i, &e) < 2 || !e) pbt::fail("damaged record in the output: '%s'", O.substr(p, 40).c_str());
		PBT_ASSERT(posted.count(w) && i < posted[w], "record %u %llu was never posted", w, i);
		PBT_ASSERT(i >= nxt[w], "records of writer %u out of order or doubled: %llu after %llu", w, i, (ull) nxt[w] - 1);
		nxt[w] = i + 1; cnt[w]++; got++;
	}
	uint64_t tls = 0; for (auto &x : posted) tls += x.second; tls -= dpost;
	PBT_ASSERT(got == must + tls, "%llu records accepted before the end of the process, %llu delivered (%s)\nreport: %s", (ull) (must + tls), (ull) got, hw[how], R.c_str());
	(void) flushed_last; (void) nthr; (void) groupdrops; (void) posts;
	if (active && how != EXPLICIT) label("active at exit"); if (!good) label("unfit default ring"); if (ddrop) label("default ring overflow"); if (undelivered) label("left in the ring at exit"); if (hposts) label("posts from exit handler");
	label(kn[kind]); label(hw[how]);
	if (got || !good) nontrivial(hash_str(cur_slot()->desc));
}
#ifdef SHARED_LIB
PBT_SUITE("C24", "process-shared", process, true, false, 2500, 20000, 20, 200, 40000, 0,
	"the same with the library as a shared object");
#else
PBT_SUITE("C24", "process", process, true, false, 6000, 60000, 40, 400, 40000, 0,
	"a program with generated default ring options and a script of posts, activations, threads and ends of process; non-trivial: records came out, or activation had to be refused");
#endif

int main(int ac, char **av) { if (getenv("DEFRING_SCRIPT")) return program(); return pbt::run_main(ac, av); }
