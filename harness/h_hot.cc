// C22: posting performs no memory allocation and no system call.
// The posting thread is armed around each post: system calls then raise SIGSYS (syscall user dispatch, or a seccomp
// filter where that is missing), and the allocator, replaced in this program, counts.
#include "hoglsim.hpp"
#include "vals.hpp"
#include <errno.h>
#include <signal.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <ucontext.h>
#include <hogl/format-null.hpp>
#include "capi.h"
using namespace sim;
using namespace vals;

// ------------------------------------------------------------------ allocation and system call detection
struct Armed { volatile char sel; volatile bool on; volatile int nsys, lastsys, nalloc; };
static __thread Armed armed __attribute__((tls_model("initial-exec")));
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
static inline void tick() { if (armed.on) armed.nalloc = armed.nalloc + 1; }
void *malloc(size_t n) { tick(); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { tick(); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { tick(); return __libc_realloc(p, n); }
void free(void *p) { if (p) tick(); __libc_free(p); }
void *memalign(size_t a, size_t n) { tick(); return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { tick(); return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { tick(); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
}
static int g_mode; // 1: syscall user dispatch, 2: seccomp
extern "C" long hot_raw_syscall(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char hot_raw_ret[];
asm(".text\n.globl hot_raw_syscall\n.type hot_raw_syscall,@function\nhot_raw_syscall:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl hot_raw_ret\nhot_raw_ret:\n ret\n");
static void on_sys(int, siginfo_t *si, void *c)
{
	ucontext_t *u = (ucontext_t *) c; greg_t *g = u->uc_mcontext.gregs;
	armed.sel = 0;
	if (armed.on) { armed.nsys = armed.nsys + 1; armed.lastsys = si->si_syscall; }
	// carry it out, so that the post goes on as it would have
	g[REG_RAX] = hot_raw_syscall(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
}
static void trap_init() // for the calling thread; a case runs in a process of its own
{
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, 0);
	armed.sel = 0; armed.on = false;
	if (!getenv("HOT_SECCOMP") && prctl(59 /*PR_SET_SYSCALL_USER_DISPATCH*/, 1, 0, 0, &armed.sel) == 0) { g_mode = 1; return; }
	uint64_t ip = (uint64_t) hot_raw_ret;
	struct sock_filter f[] = {
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_rt_sigreturn, 4, 0),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t) ip, 0, 3),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t) (ip >> 32), 0, 1),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP) };
	struct sock_fprog p = { sizeof f / sizeof *f, f };
	prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
	if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0) g_mode = 2;
	else g_mode = 0;
}
template <typename F> static void watched(F f)
{
	armed.nsys = armed.nalloc = 0; armed.on = true;
	if (g_mode == 1) armed.sel = 1;
	f();
	armed.sel = 0; armed.on = false;
}
static void check_watched(const char *what)
{
	PBT_ASSERT(!armed.nalloc, "%s called the allocator %d times", what, armed.nalloc);
	PBT_ASSERT(!armed.nsys, "%s made %d system calls (%d)", what, armed.nsys, armed.lastsys);
}
// The detection itself: an allocation and a system call are seen, computing is not.
static void detector()
{
	trap_init();
	if (!g_mode) { label("system calls cannot be watched here"); return; }
	label(g_mode == 1 ? "watched with syscall user dispatch" : "watched with seccomp");
	void *volatile p; watched([&] { p = malloc(10); }); if (armed.nalloc != 1) pbt::fail("the check itself is broken: allocation not seen"); free(p);
	long pid = 0; watched([&] { pid = syscall(SYS_getppid); }); if (armed.nsys != 1 || armed.lastsys != SYS_getppid || pid != getppid()) pbt::fail("the check itself is broken: system call not seen");
	volatile int x = 0; watched([&] { for (int i = 0; i < 100; i++) x = x + i; }); check_watched("nothing");
}

// ------------------------------------------------------------------ a post
#define A16(a) a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]
template <typename F> static void with_n(unsigned n, const hogl::arg *a, F f)
{
	switch (n) {
	case 0: f(); break;
	case 1: f(a[0]); break;
	case 2: f(a[0], a[1]); break;
	case 3: f(a[0], a[1], a[2]); break;
	case 5: f(a[0], a[1], a[2], a[3], a[4]); break;
	case 8: f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
	default: f(A16(a)); break;
	}
}
struct Post {
	unsigned path; hogl::ringbuf *ring; const hogl::area *area; unsigned sect;
	template <typename... T> void operator()(const T &... t) const
	{
		switch (path) {
		case 0: hogl::post(ring, area, sect, t...); break;
		case 1: hogl::post_unlocked(ring, area, sect, t...); break;
		case 2: hogl::push(ring, area, sect, t...); break;
		case 3: hogl::push_unlocked(ring, area, sect, t...); break;
		case 4: hogl::post(area, sect, t...); break;
		default: hogl::post_unlocked(area, sect, t...); break;
		}
	}
};
extern "C" unsigned c_nsigs(void);
static void fill_cv(Src &s, cv &v, Pool &p)
{
	memset(&v, 0, sizeof v);
	for (int i = 0; i < 4; i++) {
		uint64_t x = s.u64(); v.i8[i] = x; v.u8[i] = x; v.i16[i] = x; v.u16[i] = x; v.i32[i] = x; v.u32[i] = x; v.i64[i] = x; v.u64[i] = x; v.ll[i] = x; v.ull[i] = x; v.ch[i] = x; v.b[i] = x & 1;
		v.f[i] = (float) x; v.d[i] = (double) x; v.p[i] = (void *) x; v.ip[i] = (int *) (x & ~3ULL);
		v.s[i] = s.chance(1, 25) ? 0 : hold(p, s.str(s.size(400), "abc %d"));
		v.ms[i] = s.chance(1, 25) ? 0 : hold(p, s.str(s.size(60), "xyz {}")); v.us[i] = (unsigned char *) hold(p, s.str(s.size(60), "uvw"));
		strcpy(v.ca[i], "chars");
	}
}
// One watched post with generated arguments; returns a description.
static void one_post(Src &s, const Post &call, size_t tail, bool c_ok, bool enabled, bool full)
{
	Pool pool; std::string what; size_t maxd = s.chance(1, 5) ? 5000 : tail + 16; uint64_t h = call.path;
	switch (c_ok ? s.weighted({4, 3, 2}) : s.weighted({4, 3})) {
	case 0: {
		unsigned n = s.chance(1, 3) ? s.range(0, 16) : s.range(0, 5); hogl::arg a[16];
		for (unsigned i = 0; i < n; i++) { Val v = gen_val(s, maxd); note("   %s", show(v).c_str()); a[i] = to_arg(v, pool); h = hash_add(h, v.k * 1000 + std::min<size_t>(v.s.size(), 900)); }
		what = strf("post of %u arguments", n);
		watched([&] { with_n(n, a, call); });
		break; }
	case 1: {
		unsigned shape = s.bits(8); uint64_t u[8]; for (auto &x : u) x = s.u64();
		const char *st[4]; std::string ss[2]; for (auto &x : st) x = hold(pool, s.str(s.size(maxd), "abc def")); for (auto &x : ss) x = s.str(s.size(maxd), "opq");
		what = strf("typed post %u", shape); h = hash_add(h, shape * 7 + strlen(st[0]) + ss[0].size() * 3);
		hogl::arg_xdump xd(ss[1].data(), ss[1].size(), 'x', 1, 0, 16);
		watched([&] {
			switch (shape) {
			case 0: call("literal"); break;
			case 1: call("%d %u %s", (int) u[0], (unsigned) u[1], st[0]); break;
			case 2: call(ss[0], ss[1], (double) u[2]); break;
			case 3: call(st[0], st[1], st[2], st[3]); break;
			case 4: call(hogl::arg_gstr("global"), (bool) (u[0] & 1), (char) u[1], (short) u[2], (float) u[3]); break;
			case 5: call("raw", hogl::arg_raw(ss[0].data(), ss[0].size()), xd); break;
			case 6: call((void *) u[0], (long) u[1], (unsigned long long) u[2], (uint8_t) u[3], st[0], ss[0]); break;
			default: call("16", (int) u[0], (int) u[1], (int) u[2], (int) u[3], (int) u[4], u[5], u[6], u[7], st[0], st[1], ss[0], 1.5, 'c', true, xd); break;
			}
		});
		break; }
	default: {
		cv v; fill_cv(s, v, pool); unsigned k = s.bits(c_nsigs());
		what = strf("C post %u (%u arguments)", k, c_nargs(k)); h = hash_add(h, k);
		watched([&] { c_post(k, (void *) call.area, call.sect, &v); });
		break; }
	}
	what += strf(", path %u, %s, ring %s", call.path, enabled ? "enabled" : "disabled", full ? "full" : "not full");
	note("%s", what.c_str());
	check_watched(what.c_str());
	if (enabled) nontrivial(hash_add(h, full));
}

// ------------------------------------------------------------------ rings without an engine
static void rings(Src &s)
{
	detector(); if (!g_mode) return;
	hogl::timesource ts("case", clk_cb); clock_now() = 1000;
	const char *names[] = { "S0", "S1", "S2", 0 };
	hogl::area *ar[2] = { new hogl::area("A", names), new hogl::area("B") };
	for (auto a : ar) for (unsigned i = 0; i < a->count(); i++) if (s.chance(2, 3)) a->enable(i);
	struct R { hogl::ringbuf *r; bool shared, blocking; }; std::vector<R> rings;
	unsigned nr = s.range(1, 3);
	for (unsigned i = 0; i < nr; i++) {
		hogl::ringbuf::options o = {}; o.capacity = s.pick({4u, 2u, 8u, 64u, 1024u}); o.prio = s.bits(10); o.record_tailroom = s.pick({80u, 0u, 128u, 300u, 1000u, 5000u});
		o.flags = (s.flip() ? hogl::ringbuf::SHARED : 0) | (s.chance(1, 3) ? hogl::ringbuf::BLOCKING : 0) | (s.flip() ? hogl::ringbuf::REUSABLE : 0);
		R r = { new hogl::ringbuf(strf("R%u", i).c_str(), o), !!(o.flags & hogl::ringbuf::SHARED), !!(o.flags & hogl::ringbuf::BLOCKING) };
		r.r->hold(); r.r->timesource(&ts); rings.push_back(r); note("ring %u capacity %u flags %u tailroom %u", i, o.capacity, o.flags, o.record_tailroom);
	}
	hogl::default_ring.timesource(&ts);
	unsigned n = s.range(1, 40);
	for (unsigned i = 0; i < n; i++) {
		unsigned w = s.bits(rings.size() + 1); bool dflt = w == rings.size();
		hogl::ringbuf *r = dflt ? &hogl::default_ring : rings[w].r; bool shared = dflt || rings[w].shared, blocking = !dflt && rings[w].blocking;
		if (s.chance(1, 5)) { // the reader catches up, or part of it
			unsigned k = s.chance(1, 3) ? 100000 : s.range(1, 3); unsigned d = 0; while (d < k && r->pop_begin()) { r->pop_commit(); d++; } r->unblock();
			note("ring %u: %u popped", w, d); continue;
		}
		const hogl::area *a = ar[s.bits(2)]; unsigned sect = s.bits(a->count());
		Post p = { dflt ? 4u : (unsigned) s.pick(shared ? std::vector<int>{0, 2} : std::vector<int>{0, 1, 2, 3}), r, a, sect };
		bool push = p.path == 2 || p.path == 3, en = push || a->test(sect), full = r->room() == 0;
		if (blocking && full && en) { r->pop_begin(); r->pop_commit(); full = false; } // a full blocking ring waits
		uint64_t seq = r->seqnum(); unsigned size = r->size();
		one_post(s, p, r->record_tailroom(), dflt, en, full);
		if (en) PBT_ASSERT(r->seqnum() == seq + 1 && r->size() == size + (full ? 0 : 1), "post changed seqnum %llu->%llu size %u->%u (full %d)", (ull) seq, (ull) r->seqnum(), size, r->size(), full);
		else PBT_ASSERT(r->seqnum() == seq && r->size() == size, "disabled post touched the ring");
		if (full && en) label("dropped"); if (!en) label("disabled");
		clock_now() = clock_now() + s.bits(3); ops(1);
	}
}
PBT_SUITE("C22", "rings", rings, true, false, 6000, 150000, 30, 300, 30000, 0,
	"1..40 watched posts of generated arguments through every C and C++ interface into rings of every kind, empty to full; non-trivial: an enabled post");

// ------------------------------------------------------------------ with a running engine
struct HoldBuf : hogl::ostrbuf {
	volatile bool *held; HoldBuf(volatile bool *h) : hogl::ostrbuf(256), held(h) {}
	void do_flush(const uint8_t *, size_t) { while (*held) usleep(50); reset(); }
};
struct HoldOut : hogl::output { volatile bool held; HoldOut(hogl::format &f) : hogl::output(f), held(false) { init(new HoldBuf(&held)); } };
struct Worker {
	pthread_t th; unsigned id; uint64_t seed; const std::vector<const hogl::area *> *areas; hogl::ringbuf::options o; 
};
static std::string g_err; static pthread_mutex_t g_err_m = PTHREAD_MUTEX_INITIALIZER; static volatile unsigned g_done;
static void *worker(void *x)
{
	Worker &w = *(Worker *) x;
	// arguments are made up by a generator of the thread's own, from a seed of the case
	uint64_t rng = w.seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; if (!rng) rng = 1;
	trap_init();
	{
		hogl::tls t(strf("T%u", w.id).c_str(), w.o);
		hogl::ringbuf *r = hogl::tls::ring(); std::string str(3000, 'q'); const char *cs = str.c_str();
		auto rnd = [&](unsigned n) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned) ((rng >> 20) % n); };
		cv v; Pool pool; memset(&v, 0, sizeof v); for (int i = 0; i < 4; i++) { v.s[i] = cs + rnd(3000); v.ms[i] = (char *) cs + rnd(3000); v.us[i] = (unsigned char *) cs + rnd(3000); strcpy(v.ca[i], "ca"); }
		for (unsigned i = 0; i < 300; i++) {
			const hogl::area *a = (*w.areas)[rnd(w.areas->size())]; unsigned sect = rnd(a->count());
			if ((w.o.flags & hogl::ringbuf::BLOCKING) && !r->room()) { usleep(100); continue; }
			unsigned kind = rnd(5), k = rnd(c_nsigs()), off = rnd(3000);
			watched([&] {
				switch (kind) {
				case 0: c_post(k, (void *) a, sect, &v); break;
				case 1: hogl::post(a, sect, "%s %d", cs + off, i); break;
				case 2: hogl::post_unlocked(a, sect, str, i, 2.5); break;
				case 3: hogl::post(r, a, sect, hogl::arg_gstr("g %u"), i); break;
				default: hogl::push_unlocked(r, a, sect, "%u", hogl::arg_xdump(cs + off, 3000 - off)); break;
				}
			});
			if (armed.nalloc || armed.nsys) {
				pthread_mutex_lock(&g_err_m);
				if (g_err.empty()) g_err = strf("post of kind %u by thread %u, ring %s, called the allocator %d times and made %d system calls (%d)", kind, w.id, r->room() ? "not full" : "full", armed.nalloc, armed.nsys, armed.lastsys);
				pthread_mutex_unlock(&g_err_m); break;
			}
		}
	}
	__sync_fetch_and_add(&g_done, 1);
	return 0;
}
static void engine(Src &s)
{
	// in a thread of its own: a seccomp filter stays for good
	pthread_t dt; if (pthread_create(&dt, 0, [](void *) -> void * { detector(); return 0; }, 0)) throw Discard();
	pthread_join(dt, 0); if (!g_mode) return;
	hogl::timesource ts("case", clk_cb); clock_now() = 1000;
	hogl::engine::default_options.timesource = &ts; hogl::engine::default_options.polling_interval_usec = s.pick({1u, 50u, 500u});
	hogl::format_null fmt; HoldOut out(fmt); hogl::activate(out);
	std::vector<const hogl::area *> areas; const char *sn[] = { "S0", "S1", 0 };
	areas.push_back(hogl::add_area("A")); areas.push_back(hogl::add_area("B", sn));
	hogl::mask m0(".*", "!HOGL:.*", 0); hogl::apply_mask(m0);
	g_err.clear(); g_done = 0;
	std::vector<Worker> ws(s.range(1, 3));
	for (unsigned i = 0; i < ws.size(); i++) {
		Worker &w = ws[i]; w.id = i; w.seed = s.bits(1 << 30); w.areas = &areas; memset(&w.o, 0, sizeof w.o);
		w.o.capacity = s.pick({16u, 4u, 64u, 1024u}); w.o.record_tailroom = s.pick({80u, 0u, 200u, 4000u}); w.o.prio = s.bits(5); w.o.flags = s.chance(1, 4) ? hogl::ringbuf::BLOCKING : 0;
		note("thread %u: capacity %u tailroom %u flags %u", i, w.o.capacity, w.o.record_tailroom, w.o.flags);
	}
	for (auto &w : ws) if (pthread_create(&w.th, 0, worker, &w)) throw Discard();
	unsigned n = s.range(0, 20), na = 0;
	for (unsigned i = 0; i < n && g_done < ws.size(); i++) {
		switch (s.weighted({3, 3, 2, 1, 1, 2})) {
		case 0: out.held = true; note("engine held in its output"); break;
		case 1: out.held = false; note("engine released"); break;
		case 2: { hogl::mask m("!.*", s.pick({"A:.*", "B:.*", ".*:S1", ".*"}), 0); hogl::apply_mask(m); note("mask applied"); break; }
		case 3: out.held = false; hogl::flush(); note("flush"); break;
		case 4: hogl::add_area(strf("N%u", na++).c_str()); note("area added"); break;
		default: usleep(s.pick({10, 100, 1000})); clock_now() = clock_now() + 1; break;
		}
		ops(1);
	}
	out.held = false;
	for (auto &w : ws) pthread_join(w.th, 0);
	hogl::deactivate();
	PBT_ASSERT(g_err.empty(), "%s", g_err.c_str());
	nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C22", "engine", engine, true, true, 600, 20000, 30, 300, 30000, 0,
	"1..3 threads of 300 watched posts each into their own rings while the engine runs, is held in its output, masks change, areas are added and flushes wait; every case is non-trivial");

int main(int ac, char **av) { return pbt::run_main(ac, av); }
