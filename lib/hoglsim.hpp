// Shared simulation pieces: an engine whose passes are granted one at a time by the harness,
// a recording output, generated clocks and a model of every ring.
//
// The harness owns the schedule only through public extension points: the output's ostrbuf
// (flushed at the end of each engine pass), format::process() and the timesource callback.
// If an expected stop is not reached the simulation degrades to free running; oracles that need
// the schedule are then switched off, never turned into failures.
#pragma once
#include "pbt.hpp"
#include <pthread.h>
#include <sched.h>
#include <memory>
#include <set>
#include <deque>
#include <hogl/area.hpp>
#include <hogl/engine.hpp>
#include <hogl/flush.hpp>
#include <hogl/mask.hpp>
#include <hogl/post.hpp>
#include <hogl/ring.hpp>
#include <hogl/timesource.hpp>
#include <hogl/tls.hpp>
#include <hogl/detail/internal.hpp>
#include <hogl/detail/ostrbuf.hpp>
#include <hogl/detail/output.hpp>
#include <hogl/detail/format.hpp>

namespace sim {
using namespace pbt;
typedef unsigned long long ull;

// set while a thread is inside the harness's own synchronisation
inline int &in_harness() { static __thread int n; return n; }
// set in engine threads (known from the first callback on)
inline int &is_engine() { static __thread int n; return n; }
struct Lock {
	pthread_mutex_t *m;
	Lock(pthread_mutex_t *m_) : m(m_) { in_harness()++; pthread_mutex_lock(m); }
	~Lock() { pthread_mutex_unlock(m); in_harness()--; }
};

// A place where the engine thread can be held.
struct Gate {
	pthread_mutex_t m; pthread_cond_t cv;
	bool free_run, stopped, grant; int where; uint64_t nstop, loops_at;
	Gate() : free_run(false), stopped(false), grant(false), where(0), nstop(0), loops_at(0)
	{
		pthread_mutex_init(&m, 0);
		pthread_condattr_t a; pthread_condattr_init(&a); pthread_condattr_setclock(&a, CLOCK_MONOTONIC);
		pthread_cond_init(&cv, &a); pthread_condattr_destroy(&a);
	}
	~Gate() { pthread_cond_destroy(&cv); pthread_mutex_destroy(&m); }
	// engine side
	void hit(int w, uint64_t loops)
	{
		Lock l(&m);
		if (free_run) return;
		stopped = true; where = w; nstop++; loops_at = loops; grant = false;
		pthread_cond_broadcast(&cv);
		while (!grant && !free_run) pthread_cond_wait(&cv, &m);
		stopped = false; grant = false;
	}
	// driver side
	bool wait_stop(unsigned ms)
	{
		struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
		ts.tv_sec += ms / 1000; ts.tv_nsec += (ms % 1000) * 1000000;
		if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
		Lock l(&m);
		while (!stopped) if (pthread_cond_timedwait(&cv, &m, &ts) == ETIMEDOUT && !stopped) return false;
		return true;
	}
	// release the engine; the current stop is consumed before returning
	void go()
	{
		Lock l(&m);
		if (!stopped) return;
		stopped = false; grant = true; pthread_cond_broadcast(&cv);
	}
	void open() { Lock l(&m); free_run = true; grant = true; pthread_cond_broadcast(&cv); }
};

struct Ev {
	std::string ring; bool internal; unsigned sect; uint64_t ts, seq, id; uint64_t loops;
	const hogl::area *area; std::string text, a1, a2; uint64_t n; bool torn;
};

struct RecFormat : public hogl::format {
	std::vector<Ev> out; hogl::engine *eng; Gate *gate; uint64_t mid_at; pthread_mutex_t m;
	RecFormat() : eng(0), gate(0), mid_at(0) { pthread_mutex_init(&m, 0); }
	~RecFormat() { pthread_mutex_destroy(&m); }
	uint64_t loops() { return eng ? eng->get_stats().loops : 0; }
	void process(hogl::ostrbuf &s, const data &d)
	{
		const hogl::record *r = d.record;
		is_engine() = 1;
		Ev e; e.ring = d.ring_name; e.internal = eng && r->area == eng->internal_area();
		e.sect = r->section; e.ts = r->timestamp; e.seq = r->seqnum; e.area = r->area; e.loops = loops();
		e.id = 0; e.n = 0; e.torn = false;
		if (e.internal) {
			unsigned t0 = r->get_arg_type(0), t1 = r->get_arg_type(1), t2 = r->get_arg_type(2);
			if (t0 == hogl::arg::GSTR) e.text = (const char *) r->get_arg_val64(0);
			if (t1 == hogl::arg::GSTR) e.a1 = (const char *) r->get_arg_val64(1); else e.n = r->get_arg_val64(1);
			if (t2 == hogl::arg::GSTR && r->get_arg_val64(2)) e.a2 = (const char *) r->get_arg_val64(2);
		} else {
			e.id = r->get_arg_val64(0);
			e.torn = r->get_arg_val64(1) != ~e.id;
		}
		{ Lock l(&m); out.push_back(e); }
		sink(s, e);
		if (gate && mid_at && --mid_at == 0) gate->hit(2, e.loops);
	}
	virtual void sink(hogl::ostrbuf &, const Ev &) {}
};

// Flushed by the engine at the end of every pass.
struct GateBuf : public hogl::ostrbuf {
	RecFormat *fmt; Gate *gate; uint64_t last; std::string written; pthread_mutex_t m; bool stop_before;
	GateBuf(RecFormat *f, Gate *g, size_t cap = 0) : hogl::ostrbuf(cap), fmt(f), gate(g), last(0), stop_before(true) { pthread_mutex_init(&m, 0); }
	~GateBuf() { pthread_mutex_destroy(&m); }
	void do_flush(const uint8_t *d, size_t n)
	{
		is_engine() = 1;
		if (!n && gate) {
			uint64_t l = fmt->loops();
			if (l != last) { last = l; gate->hit(1, l); }
		}
		Lock l(&m);
		written.append((const char *) head(), size()); reset();
		if (n) written.append((const char *) d, n);
	}
	std::string contents() { Lock l(&m); return written; }
};
struct Out : public hogl::output {
	GateBuf *buf;
	Out(RecFormat &f, Gate *g, size_t cap = 0) : hogl::output(f) { buf = new GateBuf(&f, g, cap); init(buf); }
};

// Generated clock: what the next post will be stamped with.
inline volatile uint64_t &clock_now() { static volatile uint64_t t; return t; }
inline hogl::timestamp clk_cb(const hogl::timesource *) { return hogl::timestamp((uint64_t) clock_now()); }
static const uint64_t CLK_B = 1000000000000000ULL, CLK_C = 3000000000000000ULL;
inline hogl::timestamp clk_cb_b(const hogl::timesource *) { return hogl::timestamp((uint64_t) clock_now() + CLK_B); }
inline hogl::timestamp clk_cb_c(const hogl::timesource *) { return hogl::timestamp((uint64_t) clock_now() + CLK_C); }

struct Item { // something accepted by a ring
	enum K { REG, FLUSH, TSRC } k; uint64_t id, ts, seq, gap, epoch; std::string from, to; int at; uint64_t outloops;
};

struct Ring {
	std::string name; hogl::ringbuf *r; bool attached, owned; unsigned cap, flags; int prio;
	uint64_t seq, gap, drops, last_ts; std::vector<Item> acc; unsigned full_hits;
	uint64_t off; // clock offset expected on new records
};

struct Options { bool tso; unsigned tsocap; bool dropmark; unsigned poll; size_t bufcap; };

struct World {
	Gate gate; RecFormat *fmt; Out *out; hogl::engine *eng; hogl::area *area; Options o;
	hogl::timesource tA, tB, tC; hogl::timesource *cur;
	std::deque<Ring> rings; uint64_t next_id, nring; bool degraded; uint64_t specials;
	std::vector<Ev> ev; hogl::engine::stats st; bool finished;
	uint64_t n_posted, n_dropped, n_mid, n_steps;

	World(const Options &oo, RecFormat *f = 0) : fmt(f ? f : new RecFormat), o(oo), tA("clkA", clk_cb), tB("clkB", clk_cb_b), tC("clkC", clk_cb_c),
		cur(&tA), next_id(1), nring(0), degraded(false), specials(0), finished(false), n_posted(0), n_dropped(0), n_mid(0), n_steps(0)
	{
		clock_now() = 1000;
		hogl::engine::options eo = hogl::engine::default_options;
		eo.polling_interval_usec = o.poll; eo.tso_buffer_capacity = o.tsocap;
		eo.features = o.tso ? 0 : hogl::engine::DISABLE_TSO; eo.timesource = &tA;
		if (!o.dropmark) eo.default_mask << "!HOGL:DROPMARK";
		fmt->gate = &gate;
		out = new Out(*fmt, &gate, o.bufcap);
		eng = new hogl::engine(*out, eo);
		// the first stop may come before 'eng' is visible to the engine thread: it is reached again per pass
		fmt->eng = eng;
		sync();
		area = eng->add_area("A");
	}
	~World() { if (!finished) finish(); delete out; delete fmt; }

	// make sure the engine thread is held
	void sync()
	{
		if (degraded) return;
		if (!gate.wait_stop(8000)) { degraded = true; label("gate-missed"); gate.open(); }
	}
	uint64_t epoch() { return eng->get_stats().loops; }

	// one engine pass (or until the armed mid-pass stop)
	bool step(uint64_t mid = 0)
	{
		if (degraded) { usleep(200); return true; }
		fmt->mid_at = mid; n_steps++;
		gate.go(); sync();
		bool wasmid = gate.where != 1;
		if (wasmid) n_mid++;
		return !wasmid;
	}
	// finish a pass that was stopped half way
	void to_end() { while (!degraded && gate.where != 1) { fmt->mid_at = 0; gate.go(); sync(); } }

	Ring &new_ring(const hogl::ringbuf::options &ro, bool detached, const char *nm = 0)
	{
		Ring x; x.name = nm ? nm : strf("R%llu", (ull) nring++);
		x.cap = 1; while (x.cap < ro.capacity) x.cap *= 2;
		x.flags = ro.flags; x.prio = ro.prio; x.seq = x.gap = x.drops = x.last_ts = 0; x.full_hits = 0; x.owned = true; x.attached = !detached; x.off = 0;
		if (detached) {
			x.r = new hogl::ringbuf(x.name.c_str(), ro); x.r->hold(); x.r->timesource(cur);
		} else {
			x.r = eng->add_ring(x.name.c_str(), ro);
			PBT_ASSERT(x.r, "add_ring(%s) failed for a new name", x.name.c_str());
		}
		x.off = cur == &tB ? CLK_B : cur == &tC ? CLK_C : 0;
		rings.push_back(x);
		return rings.back();
	}
	void attach(Ring &x)
	{
		PBT_ASSERT(eng->add_ring(x.r), "add_ring(%s) failed for a new name", x.name.c_str());
		x.attached = true;
		for (auto &it : x.acc) it.epoch = eng->get_stats().loops; // visible to the engine from now on
	}
	void release(Ring &x) { x.owned = false; x.r->release(); x.r = 0; }

	// returns true if accepted
	bool post(Ring &x, uint64_t ts, unsigned sect = hogl::area::INFO)
	{
		hogl::ringbuf *r = x.r;
		unsigned room = r->room();
		if (!room && r->blocking()) return false;
		clock_now() = ts;
		uint64_t d0 = r->dropcnt(), id = next_id++;
		hogl::post(r, area, sect, id, ~id);
		n_posted++;
		uint64_t d1 = r->dropcnt();
		PBT_ASSERT(d1 == d0 || d1 == d0 + 1, "%s: drop counter went from %llu to %llu in one post", x.name.c_str(), (ull) d0, (ull) d1);
		bool dropped = d1 != d0;
		if (!degraded)
			PBT_ASSERT(dropped == !room, "%s: post with room %u (capacity %u) was %s", x.name.c_str(), room, x.cap, dropped ? "dropped" : "accepted");
		if (dropped) { x.gap++; x.drops++; x.full_hits++; n_dropped++; }
		else { Item i = { Item::REG, id, ts, x.seq, x.gap, eng->get_stats().loops, "", "", -1, 0 }; x.acc.push_back(i); x.gap = 0; }
		x.seq++;
		if (ts > x.last_ts) x.last_ts = ts;
		return !dropped;
	}
	// a flush request that is not waited for
	bool flush0(Ring &x, uint64_t ts)
	{
		unsigned room = x.r->room();
		clock_now() = ts;
		bool ok = hogl::flush(x.r, 0);
		if (degraded) room = 1; // cannot know
		if (room) {
			PBT_ASSERT(!ok || degraded, "flush with zero timeout succeeded while the engine was held");
			Item i = { Item::FLUSH, 0, ts, x.seq, x.gap, eng->get_stats().loops, "", "", -1, 0 }; x.acc.push_back(i); x.gap = 0; x.seq++; specials++;
			if (ts > x.last_ts) x.last_ts = ts;
		} else
			PBT_ASSERT(!ok, "flush of a full ring succeeded while the engine was held");
		return room;
	}
	hogl::timesource *src(unsigned i) { return i == 0 ? &tA : i == 1 ? &tB : &tC; }

	void release_owners()
	{
		for (size_t i = 0; i < rings.size(); i++)
			if (rings[i].owned) { hogl::ringbuf *r = rings[i].r; rings[i].r = 0; rings[i].owned = false; r->release(); }
	}
	// Owners let go and the engine is stepped until it has drained and forgotten every ring;
	// the statistics are read with the engine idle.
	void drain()
	{
		release_owners();
		for (unsigned i = 0; ; i++) {
			hogl::string_list l; eng->list_rings(l);
			if (l.empty()) break;
			PBT_ASSERT(i < 5000, "%zu released ring(s) (first %s) still registered after %u engine passes", l.size(), l.front().c_str(), i);
			step(); to_end();
		}
		st = eng->get_stats();
	}
	// destroy the engine, whatever it is doing
	void finish()
	{
		finished = true;
		release_owners();
		gate.open();
		delete eng;
		ev = fmt->out;
	}
};

// ---- oracles over a finished world ----

inline std::string show_ev(const Ev &e)
{
	if (e.internal) return strf("[pass %llu ring %s ts %llu] %s n=%llu %s %s", (ull) e.loops, e.ring.c_str(), (ull) e.ts, e.text.c_str(), (ull) e.n, e.a1.c_str(), e.a2.c_str());
	return strf("[pass %llu ring %s ts %llu seq %llu] id %llu", (ull) e.loops, e.ring.c_str(), (ull) e.ts, (ull) e.seq, (ull) e.id);
}
inline bool is_drop(const Ev &e) { return e.internal && e.sect == hogl::internal::DROPMARK; }
inline bool is_full(const Ev &e) { return e.internal && e.sect == hogl::internal::TSOFULLMARK; }
inline bool is_switch(const Ev &e) { return e.internal && e.sect == hogl::internal::INFO && e.text.compare(0, 20, "switching timesource") == 0; }

// links items to output positions
inline void link_items(World &w)
{
	std::map<uint64_t, int> pos;
	for (size_t i = 0; i < w.ev.size(); i++) if (!w.ev[i].internal) pos[w.ev[i].id] = i;
	for (auto &x : w.rings) for (auto &it : x.acc) if (it.k == Item::REG && pos.count(it.id)) { it.at = pos[it.id]; it.outloops = w.ev[it.at].loops; }
}

inline void check_exactly_once(World &w)
{
	std::map<uint64_t, std::pair<Ring *, Item *> > exp;
	for (auto &x : w.rings) if (x.attached) for (auto &it : x.acc) if (it.k == Item::REG) exp[it.id] = std::make_pair(&x, &it);
	std::set<uint64_t> seen; std::map<std::string, std::vector<uint64_t> > per;
	for (auto &e : w.ev) {
		if (e.internal) continue;
		PBT_ASSERT(exp.count(e.id), "output record that was never accepted: %s", show_ev(e).c_str());
		PBT_ASSERT(!e.torn, "output record is torn: %s", show_ev(e).c_str());
		PBT_ASSERT(seen.insert(e.id).second, "record output twice: %s", show_ev(e).c_str());
		Ring *x = exp[e.id].first; Item *it = exp[e.id].second;
		PBT_ASSERT(e.ring == x->name, "record of ring %s output as ring %s", x->name.c_str(), e.ring.c_str());
		PBT_ASSERT(e.area == w.area && e.sect == hogl::area::INFO, "record %llu area/section changed", (ull) e.id);
		PBT_ASSERT(e.seq == it->seq, "record %llu of %s has sequence number %llu, expected %llu", (ull) e.id, x->name.c_str(), (ull) e.seq, (ull) it->seq);
		PBT_ASSERT(e.ts == it->ts, "record %llu of %s has timestamp %llu, posted with %llu", (ull) e.id, x->name.c_str(), (ull) e.ts, (ull) it->ts);
		per[e.ring].push_back(e.id);
	}
	for (auto &p : exp)
		PBT_ASSERT(seen.count(p.first), "record %llu (ring %s seq %llu) was accepted but never output", (ull) p.first, p.second.first->name.c_str(), (ull) p.second.second->seq);
	std::map<std::string, std::vector<uint64_t> > want;
	for (auto &x : w.rings) if (x.attached) for (auto &it : x.acc) if (it.k == Item::REG) want[x.name].push_back(it.id);
	for (auto &p : want) {
		std::vector<uint64_t> &g = per[p.first];
		for (size_t i = 0; i < p.second.size(); i++)
			PBT_ASSERT(i < g.size() && g[i] == p.second[i], "ring %s: position %zu is record %llu, expected %llu", p.first.c_str(), i, i < g.size() ? (ull) g[i] : 0ULL, (ull) p.second[i]);
	}
}

// Per ring: markers, records and announcements in exactly the expected sequence.
inline void check_drops(World &w, uint64_t recs_out, uint64_t recs_dropped)
{
	uint64_t marked = 0, regs = 0, expect_dropped = 0;
	std::map<std::string, std::vector<size_t> > per;
	for (size_t i = 0; i < w.ev.size(); i++) {
		Ev &e = w.ev[i];
		if (!e.internal) regs++;
		if (is_drop(e)) marked += e.n;
		if (is_full(e)) continue;
		if (e.internal && !is_drop(e) && !is_switch(e)) fail("unexpected internal record %s", show_ev(e).c_str());
		per[e.ring].push_back(i);
	}
	for (auto &x : w.rings) {
		if (!x.attached) continue;
		std::vector<size_t> &g = per[x.name]; size_t k = 0;
		for (auto &it : x.acc) {
			expect_dropped += it.gap;
			if (it.gap && w.o.tso && w.o.dropmark) {
				PBT_ASSERT(k < g.size() && is_drop(w.ev[g[k]]), "ring %s: %llu record(s) dropped before seq %llu but no drop marker (next is %s)", x.name.c_str(), (ull) it.gap, (ull) it.seq,
					k < g.size() ? show_ev(w.ev[g[k]]).c_str() : "end");
				PBT_ASSERT(w.ev[g[k]].n == it.gap, "ring %s: marker says %llu dropped, truth is %llu (before seq %llu)", x.name.c_str(), (ull) w.ev[g[k]].n, (ull) it.gap, (ull) it.seq);
				if (it.k == Item::REG)
					PBT_ASSERT(g[k] + 1 < w.ev.size() && w.ev[g[k] + 1].id == it.id && !w.ev[g[k] + 1].internal, "ring %s: drop marker is not directly before record %llu", x.name.c_str(), (ull) it.id);
				k++;
			}
			if (it.k == Item::FLUSH) continue;
			PBT_ASSERT(k < g.size(), "ring %s: output ends before seq %llu", x.name.c_str(), (ull) it.seq);
			Ev &e = w.ev[g[k]];
			PBT_ASSERT(!is_drop(e), "ring %s: drop marker (%llu) where nothing was dropped, before seq %llu", x.name.c_str(), (ull) e.n, (ull) it.seq);
			if (it.k == Item::TSRC)
				PBT_ASSERT(is_switch(e) && e.seq == it.seq && e.ts == it.ts, "ring %s: switch requested at %llu (seq %llu), announced as %s", x.name.c_str(), (ull) it.ts, (ull) it.seq, show_ev(e).c_str());
			else
				PBT_ASSERT(!is_switch(e), "ring %s: %s before seq %llu", x.name.c_str(), show_ev(e).c_str(), (ull) it.seq);
			k++;
		}
		PBT_ASSERT(k == g.size(), "ring %s: extra output %s", x.name.c_str(), show_ev(w.ev[g[k]]).c_str());
	}
	uint64_t fulls = 0; for (auto &e : w.ev) if (is_full(e)) fulls++;
	PBT_ASSERT(fulls == w.st.tso_full, "%llu overflow announcements, statistics say %llu", (ull) fulls, (ull) w.st.tso_full);
	if (w.o.tso) {
		PBT_ASSERT(recs_dropped == expect_dropped, "recs_dropped %llu, gaps output %llu", (ull) recs_dropped, (ull) expect_dropped);
		if (w.o.dropmark) PBT_ASSERT(marked == expect_dropped, "markers sum %llu, gaps %llu", (ull) marked, (ull) expect_dropped);
	}
	PBT_ASSERT(recs_out == regs + w.specials, "recs_out %llu, output %llu + %llu special", (ull) recs_out, (ull) regs, (ull) w.specials);
}

// Timestamp order; needs strictly increasing timestamps within each ring.
inline unsigned check_order(World &w)
{
	if (getenv("SIM_DUMP")) for (auto &e : w.ev) fprintf(stderr, "%s\n", show_ev(e).c_str());
	if (getenv("SIM_DUMP")) for (auto &x : w.rings) for (auto &i : x.acc) fprintf(stderr, "posted %s id %llu ts %llu epoch %llu\n", x.name.c_str(), (ull) i.id, (ull) i.ts, (ull) i.epoch);
	if (w.degraded || !w.o.tso) return 0;
	link_items(w);
	struct R { uint64_t ts, epoch, outl; int at; const Ring *ring; };
	std::vector<R> v;
	for (auto &x : w.rings) if (x.attached) for (auto &it : x.acc)
		if (it.k == Item::REG && it.at >= 0) v.push_back(R{it.ts, it.epoch, it.outloops, it.at, &x});
	std::sort(v.begin(), v.end(), [](const R &a, const R &b) { return a.at < b.at; });
	std::vector<std::pair<int, uint64_t> > fulls; // position, pass
	for (size_t i = 0; i < w.ev.size(); i++) if (is_full(w.ev[i])) fulls.push_back(std::make_pair((int) i, w.ev[i].loops));
	unsigned late = 0;
	for (size_t j = 0; j < v.size(); j++)          // b = v[i] came out before a = v[j], although newer
		for (size_t i = 0; i < j; i++) {
			if (v[i].ts <= v[j].ts) continue;
			const R &b = v[i], &a = v[j];
			uint64_t p = std::max(a.epoch, b.epoch) + 1;
			if (b.outl >= p && a.outl >= p) {
				bool ex = false;
				for (auto &f : fulls) if (f.second >= p && f.first < b.at) ex = true;
				PBT_ASSERT(ex, "record ts %llu (ring %s, pass %llu) was output before ts %llu (ring %s, pass %llu) although both were pending when pass %llu began and no overflow was announced",
					(ull) b.ts, b.ring->name.c_str(), (ull) b.outl, (ull) a.ts, a.ring->name.c_str(), (ull) a.outl, (ull) p);
				label("exempt-overflow");
			}
		}
	// one pass late, within 1/8 of the buffer
	uint64_t keep = w.o.tsocap / 8;
	for (size_t j = 0; j < v.size(); j++) {
		const R &a = v[j]; uint64_t L = a.epoch; // pending before pass L+1
		std::vector<const R *> newer; bool ok = true;
		for (auto &b : v) {
			if (b.ts <= a.ts || b.ring == a.ring || b.epoch >= L || b.outl < L) continue; // not pending at start of pass L
			newer.push_back(&b);
			if (b.epoch != L - 1) ok = false;
		}
		// records of other rings posted in the middle of pass L may have been collected by it as well
		for (auto &b : v) if (b.epoch == L && b.outl == L) ok = false;
		if (newer.empty() || !ok || newer.size() > keep) continue;
		for (auto &f : fulls) for (auto b : newer) if (f.second + 1 >= L && f.first < b->at) ok = false;
		if (!ok) continue;
		late++;
		for (auto b : newer)
			PBT_ASSERT(b->at > a.at, "record ts %llu (ring %s) arrived one pass late with %zu <= %llu newer records pending, but ts %llu (ring %s) was output first",
				(ull) a.ts, a.ring->name.c_str(), newer.size(), (ull) keep, (ull) b->ts, b->ring->name.c_str());
	}
	return late;
}

} // namespace sim
