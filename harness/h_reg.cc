// C09 ring registry and lifetime, C20 thread-local rings.
#include "hoglsim.hpp"
#include "lockgate.hpp"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#include <semaphore.h>
using namespace sim;

namespace hogl { ringbuf::options default_ring_options = { 2048, 0, ringbuf::SHARED | ringbuf::IMMORTAL, 80 }; }

// ---------------------------------------------------------------- allocation tracking
// Every block allocated while `tracking` is set must have been freed by the end of the case.
static __thread int tracking;
namespace trk {
static const size_t N = 1 << 16;
static const volatile void *tab[N]; static volatile char lk; static size_t total;
static volatile bool on;
static void lock() { while (__sync_lock_test_and_set(&lk, 1)) sched_yield(); }
static void unlock() { __sync_lock_release(&lk); }
static size_t slot(const volatile void *p) { return (((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ULL) >> 48; }
static void on_malloc(const volatile void *p, size_t n)
{
	if (!on || !tracking || !p) return;
	lock();
	size_t i = slot(p); for (size_t k = 0; k < N && tab[i] && tab[i] != (void *) 1; k++) i = (i + 1) % N;
	tab[i] = p; total++;
	unlock();
}
static void on_free(const volatile void *p)
{
	if (!on || !p) return;
	lock();
	size_t i = slot(p); for (size_t k = 0; k < N && tab[i]; k++, i = (i + 1) % N) if (tab[i] == p) { tab[i] = (void *) 1; break; }
	unlock();
}
static size_t live() { size_t n = 0; for (size_t i = 0; i < N; i++) if (tab[i] && tab[i] != (void *) 1) n++; return n; }
static bool has(const void *p) { size_t i = slot(p); for (size_t k = 0; k < N && tab[i]; k++, i = (i + 1) % N) if (tab[i] == p) return true; return false; }
static void start() { static bool inst; if (!inst) { inst = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } memset((void *) tab, 0, sizeof tab); total = 0; on = true; }
}
struct Track { Track() { tracking++; } ~Track() { tracking--; } };

// ---------------------------------------------------------------- engine held at its lock operations
static Gate *eg_gate; static volatile unsigned eg_arm; static __thread int eg_depth;
static void eg_before(pthread_mutex_t *)
{
	if (!is_engine() || in_harness() || eg_depth || !eg_arm) return;
	if (--eg_arm == 0) { in_harness()++; eg_gate->hit(3, 0); in_harness()--; }
}
static void eg_after(pthread_mutex_t *, int locked) { if (is_engine() && !in_harness()) eg_depth += locked ? 1 : -1; }

// ---------------------------------------------------------------- model
struct MR { // one incarnation of a ring
	std::string name; hogl::ringbuf *p; unsigned flags, cap; int refs; bool listed; std::vector<uint64_t> acc; uint64_t seq; int eng; bool tracked, ever;
};
struct Registry { // several engines share the record id space
	std::vector<World *> w; std::deque<MR> rings; uint64_t id; uint64_t clk; unsigned reused, refused, killed, raced;
	Registry() : id(1), clk(1000), reused(0), refused(0), killed(0), raced(0) {}
	~Registry() { for (auto x : w) delete x; }
	bool ok() { for (auto x : w) if (x->degraded) return false; return true; }
	MR *find(int e, const std::string &n) { for (auto &r : rings) if (r.listed && r.eng == e && r.name == n) return &r; return 0; }
	std::set<uint64_t> out_ids(int e)
	{
		std::set<uint64_t> o; Lock l(&w[e]->fmt->m);
		for (auto &x : w[e]->fmt->out) if (x.area == w[e]->area || is_ours(x.area)) o.insert(x.id);
		return o;
	}
	bool is_ours(const hogl::area *a) { for (auto x : w) if (x->area == a) return true; return false; }
	// compare the registry with the model
	void sync(const char *what)
	{
		for (size_t e = 0; e < w.size(); e++) {
			hogl::string_list l; w[e]->eng->list_rings(l);
			std::multiset<std::string> have(l.begin(), l.end()); std::set<uint64_t> ids; bool got = false;
			for (auto &r : rings) {
				if (!r.listed || r.eng != (int) e) continue;
				auto it = have.find(r.name);
				if (it != have.end()) { have.erase(it); continue; }
				PBT_ASSERT(r.refs == 0, "after %s: ring %s is no longer registered although %d reference(s) are held", what, r.name.c_str(), r.refs);
				r.listed = false; killed++;
				if (!got) { ids = out_ids(e); got = true; }
				for (uint64_t i : r.acc) PBT_ASSERT(ids.count(i), "after %s: ring %s is gone, its record %llu has not been output", what, r.name.c_str(), (ull) i);
			}
			PBT_ASSERT(have.empty(), "after %s: unexpected ring %s is registered", what, have.begin()->c_str());
		}
		// reference counts of rings we own are exact
		for (auto &r : rings)
			if (r.refs > 0) PBT_ASSERT(r.p->refcnt() >= r.refs, "after %s: ring %s has %d references, %d are held", what, r.name.c_str(), r.p->refcnt(), r.refs);
	}
	void check_refs(const char *what)
	{
		for (auto &r : rings)
			if (r.refs > 0) PBT_ASSERT(r.p->refcnt() == r.refs + (r.listed ? 1 : 0), "%s: ring %s has %d references, expected %d and %d of the engine", what, r.name.c_str(), r.p->refcnt(), r.refs, r.listed);
	}
	MR &fresh(int e, const std::string &name, hogl::ringbuf *p, const hogl::ringbuf::options &o, bool listed, bool tracked)
	{
		MR m; m.name = name; m.p = p; m.flags = o.flags; m.cap = 1; while (m.cap < o.capacity) m.cap *= 2;
		m.refs = 1; m.listed = listed; m.seq = 0; m.eng = e; m.tracked = tracked; m.ever = listed;
		PBT_ASSERT(p->name() == name, "new ring is called %s instead of %s", p->name(), name.c_str());
		PBT_ASSERT(p->empty() && p->seqnum() == 0 && p->dropcnt() == 0, "new ring %s is not fresh: size %u seqnum %llu", name.c_str(), p->size(), (ull) p->seqnum());
		PBT_ASSERT(p->capacity() == m.cap, "new ring %s has capacity %u, asked for %u", name.c_str(), p->capacity(), o.capacity);
		PBT_ASSERT(p->shared() == !!(o.flags & hogl::ringbuf::SHARED) && p->reusable() == !!(o.flags & hogl::ringbuf::REUSABLE), "new ring %s has other flags than asked for", name.c_str());
		for (auto &r : rings) PBT_ASSERT(r.p != p || (r.refs == 0 && !r.listed), "new ring %s is the live ring %s", name.c_str(), r.name.c_str());
		rings.push_back(m);
		return rings.back();
	}
	enum Want { NEW, SAME, NONE };
	Want expect(int e, const std::string &name)
	{
		MR *m = find(e, name);
		if (!m) return NEW;
		if (m->flags & hogl::ringbuf::SHARED) return SAME;
		if ((m->flags & hogl::ringbuf::REUSABLE) && m->refs == 0) return SAME;
		return NONE;
	}
	void judge(int e, const std::string &name, const hogl::ringbuf::options &o, Want want, MR *old, hogl::ringbuf *p, const char *op, bool tracked)
	{
		switch (want) {
		case NEW:
			PBT_ASSERT(p, "%s(%s) failed although the name is free", op, name.c_str());
			fresh(e, name, p, o, true, tracked); break;
		case SAME:
			PBT_ASSERT(p == old->p, "%s(%s): expected the registered %s ring back, got %s", op, name.c_str(), old->flags & hogl::ringbuf::SHARED ? "shared" : "reusable", p ? "another one" : "null");
			old->refs++; reused++; break;
		case NONE:
			PBT_ASSERT(!p, "%s(%s) succeeded although the name belongs to a live ring (flags %x, %d owner references)", op, name.c_str(), old->flags, old->refs);
			refused++; break;
		}
	}
	void post(MR &m, hogl::ringbuf *via_tls = 0)
	{
		hogl::ringbuf *r = m.p;
		if (!r->room()) return;
		clock_now() = clk += 1 + (clk % 3);
		uint64_t d = r->dropcnt();
		World *x = w[m.eng];
		if (via_tls) hogl::post(x->area, hogl::area::INFO, id, ~id); else hogl::post(r, x->area, hogl::area::INFO, id, ~id);
		PBT_ASSERT(r->dropcnt() == d, "post to ring %s with room was dropped", m.name.c_str());
		m.acc.push_back(id++);
	}
	void finish()
	{
		for (auto &r : rings) if (!r.ever) r.acc.clear(); // never given to an engine
		for (auto &r : rings) { while (r.refs > 0) { r.refs--; r.p->release(); } }
		for (auto x : w) x->rings.clear();
		for (size_t i = 0; i < 5000; i++) {
			bool any = false;
			for (auto &r : rings) if (r.listed) any = true;
			if (!any) break;
			PBT_ASSERT(i < 4990, "released rings are still registered after %zu passes", i);
			for (auto x : w) { x->step(); x->to_end(); }
			sync("final passes");
		}
		std::set<const hogl::area *> internal; for (auto x : w) internal.insert(x->eng->internal_area());
		for (auto x : w) x->finish();
		// everything accepted, once, under the right name, in order
		for (size_t e = 0; e < w.size(); e++) {
			std::map<uint64_t, const MR *> want; for (auto &r : rings) if (r.eng == (int) e) for (uint64_t i : r.acc) want[i] = &r;
			std::map<const MR *, uint64_t> last; std::set<uint64_t> seen;
			for (auto &x : w[e]->ev) {
				if (!is_ours(x.area)) {
					PBT_ASSERT(internal.count(x.area), "record of an unknown area");
					PBT_ASSERT(!is_drop(x), "unexpected %s", show_ev(x).c_str());
					continue;
				}
				PBT_ASSERT(want.count(x.id) && !x.torn, "engine %zu output a record it was never given: %s", e, show_ev(x).c_str());
				PBT_ASSERT(seen.insert(x.id).second, "output twice: %s", show_ev(x).c_str());
				PBT_ASSERT(want[x.id]->name == x.ring, "record %llu of ring %s output as %s", (ull) x.id, want[x.id]->name.c_str(), x.ring.c_str());
				uint64_t &l = last[want[x.id]];
				PBT_ASSERT(x.id > l, "ring %s: record %llu output after %llu", x.ring.c_str(), (ull) x.id, (ull) l);
				l = x.id;
			}
			for (auto &p : want) PBT_ASSERT(seen.count(p.first), "record %llu posted to ring %s was never output", (ull) p.first, p.second->name.c_str());
		}
		// memory
		for (auto &r : rings) {
			if (r.flags & hogl::ringbuf::IMMORTAL) {
				PBT_ASSERT(!r.tracked || trk::has(r.p), "immortal ring %s was freed", r.name.c_str());
				PBT_ASSERT(r.p->refcnt() == 0, "immortal ring %s still has %d references", r.name.c_str(), r.p->refcnt());
				delete r.p; r.p = 0;
			}
		}
		PBT_ASSERT(!trk::live(), "%zu of %zu blocks allocated for rings were never freed", trk::live(), trk::total);
	}
};
static World *new_world(Src &s, unsigned nth)
{
	sim::Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({64u, 8u, 2u, 1u, 512u}); o.dropmark = true; o.poll = 0; o.bufcap = 0;
	World *w = new World(o);
	eg_gate = &w->gate;
	return w;
}
static hogl::ringbuf::options gen_opts(Src &s, bool immortal)
{
	hogl::ringbuf::options o = {}; o.capacity = s.range(2, 40); o.prio = s.range(0, 3); o.record_tailroom = s.range(0, 200);
	o.flags = s.pick({0u, (unsigned) hogl::ringbuf::SHARED, (unsigned) hogl::ringbuf::REUSABLE, (unsigned) (hogl::ringbuf::SHARED | hogl::ringbuf::REUSABLE)});
	if (immortal && s.chance(1, 8)) o.flags |= hogl::ringbuf::IMMORTAL;
	if (s.chance(1, 8)) o.flags |= hogl::ringbuf::BLOCKING;
	return o;
}
static const char *const NAMES[] = { "ALPHA", "BETA", "ALPHA2", "a ring with a longer name", "" , "ENGINE" };

static void registry(Src &s)
{
	trk::start(); eg_arm = 0;
	Registry g; g.w.push_back(new_world(s, 0)); World &w = *g.w[0];
	lockgate::before = eg_before; lockgate::after = eg_after;
	unsigned nn = s.range(1, 6), n = s.range(5, 20 + s.size(60)), removed_then_new = 0;
	auto pick_held = [&]() -> MR * { std::vector<MR *> v; for (auto &r : g.rings) if (r.refs > 0) v.push_back(&r); return v.empty() ? 0 : v[s.bits(v.size())]; };
	for (unsigned k = 0; k < n; k++) {
		if (!g.ok()) break;
		std::string name = NAMES[s.bits(nn)];
		switch (s.weighted({4, 2, 2, 6, 5, 4, 1, 1, 3})) {
		case 0: { // register by name
			hogl::ringbuf::options o = gen_opts(s, g.find(0, name) == 0);
			MR *old = g.find(0, name); Registry::Want want = g.expect(0, name);
			bool had = false; for (auto &r : g.rings) if (r.name == name) had = true;
			bool trackit = true; hogl::ringbuf *p;
			note("add \"%s\" flags %x capacity %u (%s)", name.c_str(), o.flags, o.capacity, want == Registry::NEW ? "free" : want == Registry::SAME ? "reuse" : "taken");
			{ Track t; p = w.eng->add_ring(name.c_str(), o); }
			g.judge(0, name, o, want, old, p, "add_ring", trackit);
			if (want == Registry::NEW && had) { removed_then_new++; label("name-used-again"); }
			break;
		}
		case 1: { // register an existing object, possibly one that is registered already
			MR *again = s.chance(1, 4) ? pick_held() : 0;
			if (again) {
				bool want = !g.find(0, again->name);
				note("add ring object \"%s\" %s", again->name.c_str(), again->listed ? "again" : "");
				bool r; { Track t; r = w.eng->add_ring(again->p); }
				PBT_ASSERT(r == want, "add_ring(ring \"%s\") returned %d, expected %d", again->name.c_str(), r, want);
				if (r) again->listed = again->ever = true; else g.refused++;
			} else {
				hogl::ringbuf::options o = gen_opts(s, true); bool want = !g.find(0, name); hogl::ringbuf *p;
				{ Track t; p = new hogl::ringbuf(name.c_str(), o); p->hold(); p->timesource(w.cur); }
				MR &m = g.fresh(0, name, p, o, false, true);
				if (s.flip()) g.post(m);
				note("add own ring object \"%s\" flags %x", name.c_str(), o.flags);
				bool r; { Track t; r = w.eng->add_ring(p); }
				PBT_ASSERT(r == want, "add_ring(ring \"%s\") returned %d, expected %d", name.c_str(), r, want);
				if (r) m.listed = m.ever = true; else g.refused++;
			}
			break;
		}
		case 2: {
			MR *m = g.find(0, name); hogl::ringbuf *p = w.eng->find_ring(name.c_str());
			note("find \"%s\"%s", name.c_str(), m && !m->refs ? " (orphan)" : "");
			PBT_ASSERT(p == (m ? m->p : 0), "find_ring(%s) returned %s", name.c_str(), !m ? "a ring that is not registered" : p ? "another ring" : "null although it is registered");
			if (m) m->refs++;
			break;
		}
		case 3: { MR *m = pick_held(); if (m) { unsigned c = s.range(1, 4); note("post %u to \"%s\"", c, m->name.c_str()); while (c--) g.post(*m); } break; }
		case 4: {
			MR *m = pick_held(); if (!m) break;
			if (m->refs == 1 && !m->listed) { // would free it with records nobody will ever see
				if (m->p->size()) break;
			}
			note("release \"%s\" (%d)", m->name.c_str(), m->refs);
			m->refs--; hogl::ringbuf *p = m->p; bool gone = !m->refs && !m->listed && !(m->flags & hogl::ringbuf::IMMORTAL);
			p->release();
			if (gone) m->p = 0;
			break;
		}
		case 5: { unsigned c = s.range(1, 3); note("%u pass(es)", c); while (c--) { w.step(); w.to_end(); } break; }
		case 6: { note("pass held half way"); w.step(s.range(1, 4)); break; }
		case 7: { MR *m = pick_held(); if (m) { note("hold \"%s\"", m->name.c_str()); m->p->hold(); m->refs++; } break; }
		default: { // engine held in front of one of its lock operations
			unsigned a = s.range(1, 4);
			note("pass held in front of lock operation %u", a);
			eg_arm = a; w.step(); if (w.gate.where == 3) { g.raced++; label("held-at-lock"); } eg_arm = 0;
			break;
		}
		}
		if (!g.ok()) break;
		g.sync("operation"); g.check_refs("after operation");
	}
	if (g.ok()) { w.to_end(); g.sync("end"); }
	g.finish();
	lockgate::before = 0; lockgate::after = 0;
	ops(n);
	if (g.killed && (g.reused || g.refused || removed_then_new)) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C09", "registry", registry, true, false, 8000, 200000, 60, 700, 30000, 0,
	"5-80 operations (register by name / by object, find, hold, release, post, engine passes whole, held half way or held in front of a lock) over 1-6 names; non-trivial: a ring was cleaned up and a registration was refused or reused");

// ---------------------------------------------------------------- free running registration
struct CT { World *w; unsigned seed, iters; uint64_t id0; std::map<std::string, std::vector<std::pair<uint64_t, uint64_t> > > posted; unsigned ok, none, found; pthread_barrier_t *bar; };
static uint64_t g_tick;
static hogl::timestamp tick_cb(const hogl::timesource *) { return hogl::timestamp(__sync_add_and_fetch(&g_tick, 1)); }
static hogl::timesource tick_ts("tick", tick_cb);
static unsigned fixed_flags(unsigned n) { static const unsigned f[] = { hogl::ringbuf::SHARED, hogl::ringbuf::REUSABLE, 0, hogl::ringbuf::SHARED | hogl::ringbuf::REUSABLE }; return f[n] | hogl::ringbuf::BLOCKING; }
static void *cthread(void *p)
{
	CT &c = *(CT *) p; unsigned x = c.seed; uint64_t id = c.id0;
	auto rnd = [&](unsigned n) { x = x * 1103515245 + 12345; return (x >> 8) % n; };
	pthread_barrier_wait(c.bar);
	for (unsigned i = 0; i < c.iters; i++) {
		unsigned k = rnd(4); char name[8]; snprintf(name, sizeof name, "N%u", k);
		hogl::ringbuf *r;
		if (rnd(3) == 0) { r = c.w->eng->find_ring(name); if (r) c.found++; }
		else { hogl::ringbuf::options o = {}; o.capacity = 32; o.record_tailroom = 0; o.flags = fixed_flags(k); { Track t; r = c.w->eng->add_ring(name, o); } if (!r) c.none++; else c.ok++;
			if (r && !r->shared()) { // exclusive owner
				unsigned n = rnd(6); for (unsigned j = 0; j < n; j++, id++) { hogl::post(r, c.w->area, hogl::area::INFO, id, ~id); c.posted[name].push_back(std::make_pair(id, 1)); }
			}
		}
		if (r && r->shared()) { unsigned n = rnd(6); for (unsigned j = 0; j < n; j++, id++) { hogl::post(r, c.w->area, hogl::area::INFO, id, ~id); c.posted[name].push_back(std::make_pair(id, 1)); } }
		if (r) { if (rnd(5) == 0) sched_yield(); r->release(); }
		if (rnd(4) == 0) usleep(rnd(60));
	}
	return 0;
}
static void regfree(Src &s)
{
	trk::start(); g_tick = 1000;
	sim::Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({2048u, 64u, 4u}); o.dropmark = true; o.poll = s.pick({0u, 1u, 30u}); o.bufcap = 0;
	World w(o); w.gate.open(); w.degraded = true;
	{ hogl::ringbuf *k = w.eng->add_ring("KEEP", hogl::ringbuf::default_options); k->timesource(&tick_ts); k->release(); }
	// every ring gets the counting clock from the engine
	hogl::engine *e = w.eng; (void) e;
	clock_now() = 5000;
	unsigned nt = s.range(2, 6); std::deque<CT> ct(nt); std::vector<pthread_t> th(nt); pthread_barrier_t bar; pthread_barrier_init(&bar, 0, nt);
	note("%u threads, tso %d capacity %u poll %u", nt, o.tso, o.tsocap, o.poll);
	uint64_t total = 0;
	for (unsigned i = 0; i < nt; i++) {
		ct[i].w = &w; ct[i].seed = s.bits(1 << 30); ct[i].iters = s.range(20, 150); ct[i].id0 = 1 + i * 1000000ULL; ct[i].ok = ct[i].none = ct[i].found = 0; ct[i].bar = &bar;
		pthread_create(&th[i], 0, cthread, &ct[i]);
	}
	for (unsigned i = 0; i < nt; i++) pthread_join(th[i], 0);
	pthread_barrier_destroy(&bar);
	w.drain(); w.finish();
	std::map<uint64_t, std::string> want; std::map<std::pair<std::string, unsigned>, uint64_t> last;
	unsigned none = 0;
	for (auto &c : ct) { none += c.none; for (auto &p : c.posted) for (auto &q : p.second) { want[q.first] = p.first; total++; } }
	std::set<uint64_t> seen;
	for (auto &x : w.ev) {
		if (x.internal) { PBT_ASSERT(!is_drop(x), "unexpected %s", show_ev(x).c_str()); continue; }
		PBT_ASSERT(want.count(x.id) && !x.torn && want[x.id] == x.ring, "wrong record %s", show_ev(x).c_str());
		PBT_ASSERT(seen.insert(x.id).second, "output twice %s", show_ev(x).c_str());
		uint64_t &l = last[std::make_pair(x.ring, (unsigned) (x.id / 1000000))];
		PBT_ASSERT(x.id > l, "ring %s: record %llu of one thread output after %llu", x.ring.c_str(), (ull) x.id, (ull) l);
		l = x.id;
	}
	for (auto &p : want) PBT_ASSERT(seen.count(p.first), "record %llu posted to ring %s was never output", (ull) p.first, p.second.c_str());
	PBT_ASSERT(!trk::live(), "%zu of %zu blocks allocated for rings were never freed", trk::live(), trk::total);
	ops(total); if (none) label("name-taken");
	nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C09", "threads", regfree, true, true, 250, 8000, 20, 250, 30000, 4,
	"2-6 threads register, find, use and release rings under four names while the engine runs freely; non-trivial: every case");

// ---------------------------------------------------------------- C20
// Threads take turns (the harness passes a baton), so the model is exact.
struct Frame { hogl::tls *t; MR *ring; bool valid; };
struct TlsThread {
	pthread_t th; sem_t go, done; std::vector<Frame> st; int op; // what to do next
	Registry *g; MR *target; int e; std::string name; hogl::ringbuf::options o; hogl::ringbuf *p; hogl::ringbuf *cur; bool bystr; std::string err;
};
static MR *g_def;
static void tls_do(TlsThread &t)
{
	switch (t.op) {
	case 1: { hogl::tls *x; { Track k; x = t.bystr ? new hogl::tls(t.name, t.o, t.g->w[t.e]->eng) : new hogl::tls(t.name.c_str(), t.o, t.g->w[t.e]->eng); } Frame f = { x, 0, x->valid() }; t.st.push_back(f); break; }
	case 2: { hogl::tls *x = new hogl::tls(t.p, t.g->w[t.e]->eng); Frame f = { x, 0, x->valid() }; t.st.push_back(f); break; }
	case 3: { delete t.st.back().t; t.st.pop_back(); break; }
	case 4: t.g->post(*t.target, hogl::tls::ring()); break;
	}
	t.cur = hogl::tls::ring();
}
static void *tls_thread(void *p)
{
	TlsThread &t = *(TlsThread *) p;
	while (1) {
		while (sem_wait(&t.go)) ;
		if (t.op == 0) { sem_post(&t.done); return 0; }
		tls_do(t); sem_post(&t.done);
	}
}
static void run_op(TlsThread &t, int op) { t.op = op; sem_post(&t.go); while (sem_wait(&t.done)) ; }
static void tlsrings(Src &s)
{
	trk::start(); eg_arm = 0;
	Registry g; unsigned ne = s.range(1, 2);
	for (unsigned i = 0; i < ne; i++) g.w.push_back(new_world(s, i));
	lockgate::before = 0; lockgate::after = 0;
	// the default ring is served by the first engine
	PBT_ASSERT(hogl::tls::ring() == &hogl::default_ring, "the first thread does not start on the default ring");
	int def0 = hogl::default_ring.refcnt();
	hogl::default_ring.hold();
	PBT_ASSERT(g.w[0]->eng->add_ring(&hogl::default_ring), "default ring refused");
	{ MR m; m.name = hogl::default_ring.name(); m.p = &hogl::default_ring; m.flags = hogl::ringbuf::SHARED; m.cap = 2048; m.refs = 1; m.listed = true; m.seq = 0; m.eng = 0; m.tracked = false; m.ever = true; g.rings.push_back(m); }
	MR *def = g_def = &g.rings.back();
	unsigned nt = s.range(1, 4), n = s.range(8, 20 + s.size(60)), nn = s.range(1, 5), maxdepth = 0, invalid = 0, restored = 0;
	std::deque<TlsThread> th(nt);
	for (auto &t : th) { t.g = &g; sem_init(&t.go, 0, 0); sem_init(&t.done, 0, 0); pthread_create(&t.th, 0, tls_thread, &t); }
	auto top = [&](TlsThread &t) -> MR * { for (size_t i = t.st.size(); i-- > 0; ) if (t.st[i].valid) return t.st[i].ring; return def; };
	auto expect_cur = [&](TlsThread &t, const char *what) {
		PBT_ASSERT(t.cur == top(t)->p, "after %s the thread's ring is %s, expected %s", what, t.cur ? t.cur->name() : "null", top(t)->name.c_str());
	};
	auto pop = [&](TlsThread &t) {
		Frame f = t.st.back(); unsigned i = &t - &th[0]; (void) i;
		run_op(t, 3);
		if (f.valid) { f.ring->refs--; restored++; }
		expect_cur(t, "destroying a thread-local ring");
		g.sync("tls destroyed");
	};
	for (unsigned k = 0; k < n && g.ok(); k++) {
		unsigned ti = s.bits(nt); TlsThread &t = th[ti]; t.e = s.bits(ne);
		switch (s.weighted({4, 1, 4, 6, 3, 1})) {
		case 0: {
			t.name = NAMES[s.bits(nn)]; t.o = gen_opts(s, false); t.o.capacity = 64; t.bystr = s.flip(); t.o.flags &= ~hogl::ringbuf::BLOCKING;
			MR *old = g.find(t.e, t.name); Registry::Want want = g.expect(t.e, t.name);
			note("thread %u: tls \"%s\" flags %x engine %d (%s)", ti, t.name.c_str(), t.o.flags, t.e, want == Registry::NEW ? "free" : want == Registry::SAME ? "reuse" : "taken");
			run_op(t, 1);
			bool v = t.st.back().valid;
			PBT_ASSERT(v == (want != Registry::NONE), "tls(\"%s\").valid() is %d, expected %d", t.name.c_str(), v, want != Registry::NONE);
			hogl::ringbuf *p = v ? t.cur : 0;
			g.judge(t.e, t.name, t.o, want, old, p, "tls", true);
			if (v) t.st.back().ring = g.find(t.e, t.name); else invalid++;
			expect_cur(t, "creating a thread-local ring");
			break;
		}
		case 1: { // an existing ring, found by name
			MR *m = g.find(t.e, NAMES[s.bits(nn)]);
			if (!m || (m->refs && !(m->flags & hogl::ringbuf::SHARED))) break;
			t.p = g.w[t.e]->eng->find_ring(m->name.c_str()); PBT_ASSERT(t.p == m->p, "find_ring(%s)", m->name.c_str());
			note("thread %u: tls of found ring \"%s\"", ti, m->name.c_str());
			m->refs++; run_op(t, 2);
			PBT_ASSERT(t.st.back().valid, "tls of an existing ring is not valid");
			t.st.back().ring = m; expect_cur(t, "creating a thread-local ring");
			break;
		}
		case 2: if (!t.st.empty()) { note("thread %u: end of tls (depth %zu%s)", ti, t.st.size(), t.st.back().valid ? "" : ", invalid"); pop(t); } break;
		case 3: {
			unsigned c = s.range(1, 3); MR *m = top(t); note("thread %u: post %u (to \"%s\")", ti, c, m->name.c_str());
			if (m->p->room() < c + 4) for (auto x : g.w) { x->step(); x->to_end(); x->step(); x->to_end(); x->step(); x->to_end(); }
			while (c--) { t.target = m; run_op(t, 4); }
			break;
		}
		case 4: { unsigned c = s.range(1, 3); note("%u pass(es) of engine %d", c, t.e); while (c--) { g.w[t.e]->step(); g.w[t.e]->to_end(); } break; }
		default: { // a thread that comes and goes
			if (!t.st.empty()) break;
			run_op(t, 0); pthread_join(t.th, 0); pthread_create(&t.th, 0, tls_thread, &t);
			note("thread %u ended and started again", ti); break;
		}
		}
		if (!g.ok()) break;
		// internal messages of failed set-ups also use ring space
		for (auto &r : g.rings) if (r.refs && r.listed && r.p->room() < 8) for (auto x : g.w) { x->step(); x->to_end(); x->step(); x->to_end(); x->step(); x->to_end(); }
		g.sync("operation");
		for (auto &x : th) maxdepth = std::max<unsigned>(maxdepth, x.st.size());
	}
	for (auto &t : th) { while (!t.st.empty()) { if (g.ok()) pop(t); else { Frame f = t.st.back(); run_op(t, 3); if (f.valid) f.ring->refs--; } } }
	if (g.ok()) { g.sync("all tls gone"); g.check_refs("all tls gone"); }
	for (auto &t : th) { run_op(t, 0); pthread_join(t.th, 0); sem_destroy(&t.go); sem_destroy(&t.done); }
	g.finish();
	PBT_ASSERT(hogl::default_ring.refcnt() == def0, "default ring has %d references, %d at the start", hogl::default_ring.refcnt(), def0);
	PBT_ASSERT(hogl::tls::ring() == &hogl::default_ring, "the main thread's ring changed");
	ops(n); if (invalid) label("invalid-tls"); if (maxdepth > 2) label("depth>2");
	if (maxdepth >= 2 && restored) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C20", "nesting", tlsrings, true, false, 20000, 200000, 60, 700, 30000, 0,
	"8-80 operations by 1-4 threads (set up by name or by ring, tear down, post, thread restart) on 1-2 engines with clashing names; non-trivial: nesting depth of two or more and at least one restore");

int main(int argc, char **argv) { return run_main(argc, argv); }
