// C06 blocking rings, C10 shutdown, C11 flush, C12 timesource changes.
#include "hoglsim.hpp"
#include "lockgate.hpp"
using namespace sim;

// small default ring, so that it can overflow (applications may override these options)
namespace hogl { ringbuf::options default_ring_options = { 64, 0, ringbuf::SHARED | ringbuf::IMMORTAL, 80 }; }

static uint64_t g_tick;
static hogl::timestamp tick_cb(const hogl::timesource *) { return hogl::timestamp(__sync_add_and_fetch(&g_tick, 1)); }
static hogl::timesource tick_ts("tick", tick_cb);

// ------------------------------------------------------------------ C06
struct BW { World *w; Ring *x; uint64_t id; unsigned n; int arm; volatile unsigned done; volatile int fin; };
static void *bwriter(void *p)
{
	BW &b = *(BW *) p;
	lockgate::arm = b.arm;
	for (unsigned i = 0; i < b.n; i++) { hogl::post(b.x->r, b.w->area, hogl::area::INFO, b.id + i, ~(b.id + i)); b.done = i + 1; }
	lockgate::arm = 0;
	b.fin = 1; return 0;
}
static void check_simple(World &w, std::map<std::string, std::vector<std::pair<uint64_t, unsigned> > > &posted) // ring -> (first id, count) per thread
{
	std::map<uint64_t, std::string> where; std::set<uint64_t> seen; std::map<uint64_t, uint64_t> nextof; std::map<uint64_t, uint64_t> firstof;
	for (auto &p : posted) for (auto &q : p.second) for (unsigned i = 0; i < q.second; i++) { where[q.first + i] = p.first; firstof[q.first + i] = q.first; }
	for (auto &e : w.ev) {
		if (is_full(e)) continue;
		PBT_ASSERT(!e.internal, "unexpected %s", show_ev(e).c_str());
		PBT_ASSERT(where.count(e.id) && where[e.id] == e.ring && !e.torn, "wrong record %s", show_ev(e).c_str());
		PBT_ASSERT(seen.insert(e.id).second, "output twice: %s", show_ev(e).c_str());
		uint64_t f = firstof[e.id];
		PBT_ASSERT(e.id == f + nextof[f], "ring %s: record %llu of a writer output when %llu was due (lost or reordered)", e.ring.c_str(), (ull) (e.id - f), (ull) nextof[f]);
		nextof[f]++;
	}
	for (auto &x : where) PBT_ASSERT(seen.count(x.first), "record %llu on ring %s lost", (ull) x.first, x.second.c_str());
}
static void blocked(Src &s)
{
	lockgate::reset(); g_tick = 1000;
	sim::Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({1u, 2u, 3u, 8u, 16u, 64u, 300u, 4096u}); o.dropmark = true; o.poll = s.range(0, 2); o.bufcap = 0;
	World w(o);
	unsigned nr = s.range(1, 3); std::map<std::string, std::vector<std::pair<uint64_t, unsigned> > > posted; uint64_t id = 1;
	std::deque<BW> bw; std::vector<pthread_t> th;
	note("tso %d capacity %u", o.tso, o.tsocap);
	for (unsigned i = 0; i < nr; i++) {
		hogl::ringbuf::options ro = {}; ro.capacity = s.range(2, 20); ro.prio = s.range(0, 2); ro.record_tailroom = 128;
		ro.flags = hogl::ringbuf::BLOCKING | (s.flip() ? hogl::ringbuf::SHARED : 0);
		Ring &x = w.new_ring(ro, false); x.r->timesource(&tick_ts);
		// fill it (the engine is held)
		unsigned fill = s.chance(4, 5) ? x.r->room() : s.bits(x.r->room() + 1);
		for (unsigned j = 0; j < fill; j++) { hogl::post(x.r, w.area, hogl::area::INFO, id + j, ~(id + j)); }
		PBT_ASSERT(x.r->room() == x.cap - 1 - fill, "room %u after %u of %u", x.r->room(), fill, x.cap - 1);
		if (fill) posted[x.name].push_back(std::make_pair(id, fill)); id += fill;
		unsigned nw = (ro.flags & hogl::ringbuf::SHARED) ? s.range(1, 3) : 1;
		bool first = i == 0;
		for (unsigned j = 0; j < nw; j++) {
			BW b = { &w, &x, id, (unsigned) s.range(1, 30), (int) (first && j == 0 ? s.range(0, 3) : 0), 0, 0 };
			posted[x.name].push_back(std::make_pair(id, b.n)); id += b.n; bw.push_back(b);
		}
		note("ring %s capacity %u flags %x: %u pending, %u writer(s)", x.name.c_str(), x.cap, x.flags, fill, nw);
	}
	int pos = s.bits(3); // when the writers start: pass not begun / held half way / later
	if (pos == 1) w.step(s.range(1, 6));
	note("writers start %s, first held before lock %d", pos == 1 ? "in the middle of a pass" : "between passes", bw[0].arm);
	th.resize(bw.size());
	for (size_t i = 0; i < bw.size(); i++) pthread_create(&th[i], 0, bwriter, &bw[i]);
	if (bw[0].arm) lockgate::wait_parked(3000); else usleep(s.range(0, 300));
	bool held = lockgate::parked == 1;
	unsigned k = s.range(0, 5);
	for (unsigned i = 0; i < k; i++) { w.step(); w.to_end(); }
	lockgate::let_go();
	if (held) label("held-before-waiting");
	uint64_t t0 = now_ms(), passes = 0; unsigned lastdone = 0;
	while (1) {
		unsigned done = 0; bool all = true;
		for (auto &b : bw) { done += b.done; if (!b.fin) all = false; }
		if (all) break;
		if (done != lastdone) { lastdone = done; t0 = now_ms(); passes = 0; }
		w.step(); w.to_end(); passes++;
		if (passes > 20) usleep(100);
		if (passes > 1000 && now_ms() - t0 > 4000) {
			std::string d;
			for (auto &b : bw) if (!b.fin) d += strf(" ring %s (room %u of %u) after %u of %u posts;", b.x->name.c_str(), b.x->r->room(), b.x->cap - 1, b.done, b.n);
			fail("writer still blocked after %llu engine passes and %llu ms without progress:%s", (ull) passes, (ull) (now_ms() - t0), d.c_str());
		}
	}
	for (size_t i = 0; i < bw.size(); i++) pthread_join(th[i], 0);
	for (auto &x : w.rings) PBT_ASSERT(x.r->dropcnt() == 0, "blocking ring %s dropped %llu", x.name.c_str(), (ull) x.r->dropcnt());
	w.drain(); w.finish();
	check_simple(w, posted);
	ops(id);
	nontrivial(hash_add(hash_str(cur_slot()->desc), k));
}
PBT_SUITE("C06", "lockstep", blocked, true, true, 4000, 120000, 40, 600, 40000, 0,
	"blocking rings filled while the engine is held, writers started before / in the middle of / after passes, one writer held just before it goes to sleep while 0-5 passes run; non-trivial: every case");

struct FW { World *w; std::vector<Ring *> rg; uint64_t id; unsigned n, spin; volatile int fin; };
static void *fwriter(void *p)
{
	FW &b = *(FW *) p;
	for (unsigned i = 0; i < b.n; i++) { hogl::post(b.rg[i % b.rg.size()]->r, b.w->area, hogl::area::INFO, b.id + i, ~(b.id + i)); if (b.spin && i % b.spin == 0) sched_yield(); }
	b.fin = 1; return 0;
}
static void bfree(Src &s)
{
	g_tick = 1000;
	sim::Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({1u, 2u, 8u, 64u, 4096u}); o.dropmark = true; o.poll = s.pick({0u, 1u, 20u, 200u}); o.bufcap = 0;
	World w(o); w.gate.open(); w.degraded = true;
	unsigned nr = s.range(1, 4); uint64_t id = 1; std::deque<FW> fw;
	note("tso %d capacity %u poll %u", o.tso, o.tsocap, o.poll);
	for (unsigned i = 0; i < nr; i++) {
		hogl::ringbuf::options ro = {}; ro.capacity = s.range(2, 12); ro.prio = s.range(0, 2); ro.record_tailroom = 128;
		ro.flags = hogl::ringbuf::BLOCKING | (s.flip() ? hogl::ringbuf::SHARED : 0);
		Ring &x = w.new_ring(ro, false); x.r->timesource(&tick_ts);
		unsigned nw = (ro.flags & hogl::ringbuf::SHARED) ? s.range(1, 3) : 1;
		for (unsigned j = 0; j < nw; j++) { FW f = { &w, {&x}, id, (unsigned) s.range(10, 400), (unsigned) s.range(0, 7), 0 }; id += f.n; fw.push_back(f); }
		note("ring %s capacity %u flags %x, %u writers", x.name.c_str(), x.cap, x.flags, nw);
	}
	std::vector<pthread_t> th(fw.size());
	std::map<std::string, std::vector<std::pair<uint64_t, unsigned> > > posted;
	for (size_t i = 0; i < fw.size(); i++) { posted[fw[i].rg[0]->name].push_back(std::make_pair(fw[i].id, fw[i].n)); pthread_create(&th[i], 0, fwriter, &fw[i]); }
	for (size_t i = 0; i < fw.size(); i++) pthread_join(th[i], 0); // a lost wake-up is a hang of this case
	for (auto &x : w.rings) PBT_ASSERT(x.r->dropcnt() == 0, "blocking ring %s dropped %llu", x.name.c_str(), (ull) x.r->dropcnt());
	w.drain(); w.finish();
	check_simple(w, posted);
	ops(id); nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C06", "threads", bfree, true, true, 400, 10000, 20, 240, 20000, 4, "free-running engine, 1-12 writers on 1-4 small blocking rings; non-trivial: every case");

// ------------------------------------------------------------------ C10
static void shutdown_any(Src &s)
{
	sim::Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({1u, 2u, 3u, 8u, 16u, 64u, 300u, 4096u}); o.dropmark = true; o.poll = s.range(0, 50); o.bufcap = s.pick({0u, 64u, 4096u});
	World w(o);
	unsigned nr = s.range(1, 12); uint64_t now = 10000;
	note("tso %d capacity %u, %u rings", o.tso, o.tsocap, nr);
	for (unsigned i = 0; i < nr; i++) {
		hogl::ringbuf::options ro = {}; ro.capacity = s.range(2, s.chance(1, 4) ? 700 : 40); ro.prio = s.range(0, 3); ro.record_tailroom = 128;
		ro.flags = (s.flip() ? hogl::ringbuf::SHARED : 0) | (s.chance(1, 4) ? hogl::ringbuf::REUSABLE : 0) | (s.chance(1, 4) ? hogl::ringbuf::BLOCKING : 0);
		w.new_ring(ro, false);
	}
	unsigned rounds = s.range(0, 3);
	for (unsigned r = 0; r < rounds; r++) {
		unsigned k = s.range(0, 60);
		for (unsigned j = 0; j < k; j++) { Ring &x = w.rings[s.bits(nr)]; if (!x.owned) continue; now += s.bits(4); w.post(x, s.chance(1, 5) ? now - s.bits(5000) : now); }
		if (s.flip()) { w.step(s.chance(1, 3) ? s.range(1, 20) : 0); if (s.flip()) w.to_end(); }
		if (s.chance(1, 3)) { Ring &x = w.rings[s.bits(nr)]; if (x.owned) w.release(x); }
	}
	bool mid = false;
	for (auto &x : w.rings) if (x.owned) { unsigned k = s.weighted({2, 2, 1}) == 2 ? x.cap + 1 : s.bits(std::min(x.cap, 50u)); for (unsigned j = 0; j < k; j++) { now += s.bits(4); w.post(x, s.chance(1, 5) ? now - s.bits(5000) : now); } }
	if (s.flip()) mid = !w.step(s.range(1, 40));
	unsigned pend = 0; for (auto &x : w.rings) if (x.owned) pend += x.r->size();
	note("%llu posted, %u pending when the engine is destroyed%s", (ull) w.n_posted, pend, mid ? " in the middle of a pass" : "");
	// some owners hold on to their ring for a while during the shutdown and keep posting
	struct L { World *w; std::vector<Ring *> r; unsigned n; volatile bool started; } l = { &w, {}, (unsigned) s.range(0, 10), false };
	for (auto &x : w.rings) if (x.owned && s.chance(1, 6)) l.r.push_back(&x);
	unsigned late = l.r.size();
	if (late) { // posts that happen while the engine is being destroyed: engine gate open, acceptance read from the drop counter
		label("late-owner");
		std::vector<hogl::ringbuf *> keep; for (auto x : l.r) { x->owned = false; keep.push_back(x->r); }
		struct T { static void *run(void *p) {
			L &l = *(L *) p;
			for (unsigned i = 0; i < l.n; i++) for (auto x : l.r) { if (x->flags & hogl::ringbuf::BLOCKING) continue; l.w->post(*x, 20000 + i); if (i % 3 == 0) usleep(30); }
			for (auto x : l.r) { hogl::ringbuf *r = x->r; x->r = 0; r->release(); }
			return 0;
		} };
		w.degraded = true; // no schedule knowledge from here on
		pthread_t t; pthread_create(&t, 0, T::run, &l);
		w.finish();
		pthread_join(t, 0);
	} else
		w.finish();
	check_exactly_once(w);
	label(mid ? "destroyed-mid-pass" : "destroyed-between-passes");
	if (pend || late) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C10", "destroy", shutdown_any, false, false, 30000, 250000, 40, 500, 30000, 0,
	"1-12 rings with generated fill levels (up to full), engine destroyed between or in the middle of passes, owners releasing before or during destruction; non-trivial: records were pending");

static void cycles(Src &s)
{
	hogl::default_ring.reset(); g_tick = 1000;
	hogl::area *area = new hogl::area("A"); area->enable();
	std::vector<std::pair<uint64_t, uint64_t> > pend; // accepted by the default ring, not yet delivered: id, gap before
	uint64_t id = 1, gap = 0; unsigned n = s.range(1, 5);
	auto dpost = [&](unsigned k) {
		for (unsigned i = 0; i < k; i++) {
			uint64_t d0 = hogl::default_ring.dropcnt();
			hogl::post(&hogl::default_ring, area, hogl::area::INFO, id, ~id);
			if (hogl::default_ring.dropcnt() != d0) gap++; else { pend.push_back(std::make_pair(id, gap)); gap = 0; }
			id++;
		}
	};
	bool over = false;
	note("%u activations", n);
	for (unsigned c = 0; c < n; c++) {
		unsigned k = s.weighted({2, 3, 1}) == 0 ? 0 : s.range(0, s.chance(1, 4) ? 100 : 20);
		note("post %u to the default ring while inactive", k);
		dpost(k);
		RecFormat fmt; Out out(fmt, 0, 0);
		hogl::engine::options eo = hogl::engine::default_options; eo.timesource = &tick_ts; eo.polling_interval_usec = s.range(0, 200);
		eo.tso_buffer_capacity = s.pick({2u, 16u, 4096u}); if (s.chance(1, 4)) eo.features = hogl::engine::DISABLE_TSO;
		bool tso = !(eo.features & hogl::engine::DISABLE_TSO);
		bool pause = s.chance(1, 6); // the engine may run passes before activate goes on
		if (pause) { unsigned k = s.range(1, 5); bool u = s.flip(); note("activation pauses %s %u", u ? "after unlock" : "before lock", k); lockgate::reset(); lockgate::max_us = 2000; if (u) lockgate::armu = k; else lockgate::arm = k; eo.polling_interval_usec = s.range(0, 20); }
		hogl::activate(out, eo);
		if (pause) { lockgate::arm = lockgate::armu = 0; lockgate::max_us = 60000; if (lockgate::parked) label("activation-paused"); }
		{ Lock l(&fmt.m); fmt.eng = hogl::default_engine; }
		bool threw = false;
		if (s.chance(1, 4)) { RecFormat f2; Out o2(f2, 0); try { hogl::activate(o2, eo); } catch (std::logic_error &) { threw = true; } PBT_ASSERT(threw, "second activation while active was accepted"); }
		uint64_t t0 = id; unsigned m = s.range(0, 30);
		// free-running engine: the ring may overflow or not; the drop counter tells
		dpost(m);
		std::vector<uint64_t> tl; unsigned tn = s.range(0, 3);
		for (unsigned q = 0; q < tn; q++) { // thread-local rings, some still holding records at the end
			hogl::ringbuf::options ro = { 64, 1, 0, 128 };
			hogl::tls t(strf("T%u-%u", c, q).c_str(), ro);
			PBT_ASSERT(t.valid() && hogl::tls::ring() != &hogl::default_ring, "tls ring not installed");
			unsigned y = s.range(0, 40);
			for (unsigned i = 0; i < y; i++) { hogl::post(area, hogl::area::INFO, id, ~id); tl.push_back(id); id++; }
			if (s.flip()) { Lock l(&fmt.m); }
		}
		PBT_ASSERT(hogl::tls::ring() == &hogl::default_ring, "tls ring not restored");
		note("active: %u to the default ring, %u tls rings (%zu posts), then deactivate", m, tn, tl.size());
		hogl::deactivate();
		PBT_ASSERT(!hogl::default_engine, "default engine still set");
		(void) t0;
		// what this activation must have delivered
		std::vector<uint64_t> got, gott; std::vector<uint64_t> marks; uint64_t want_marks = 0;
		for (size_t i = 0; i < fmt.out.size(); i++) {
			Ev &e = fmt.out[i];
			if (e.area != area) { // internal
				if (e.sect == hogl::internal::DROPMARK) marks.push_back(e.n ? e.n : ~0ULL);
				continue;
			}
			if (e.ring == "DEFAULT") got.push_back(e.id); else gott.push_back(e.id);
		}
		std::sort(gott.begin(), gott.end());
		PBT_ASSERT(got.size() == pend.size(), "activation %u delivered %zu records of the default ring, %zu were accepted", c, got.size(), pend.size());
		for (size_t i = 0; i < got.size(); i++) { PBT_ASSERT(got[i] == pend[i].first, "activation %u: record %llu delivered at position %zu, expected %llu", c, (ull) got[i], i, (ull) pend[i].first); if (pend[i].second && tso) want_marks++; if (pend[i].second) over = true; }
		PBT_ASSERT(gott == tl, "activation %u: %zu of %zu records of thread-local rings delivered", c, gott.size(), tl.size());
		PBT_ASSERT(marks.size() == want_marks, "activation %u: %zu drop reports, %llu gaps", c, marks.size(), (ull) want_marks);
		pend.clear();
		if (c) label("reactivated");
	}
	if (over) label("default-ring-overflow");
	delete area;
	nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C10", "reactivate", cycles, false, false, 12000, 60000, 30, 300, 30000, 0,
	"1-5 activate/deactivate cycles with posts to the default ring before, during and between them and thread-local rings; non-trivial: every case");
PBT_SUITE("C02", "reattached", cycles, false, false, 1000, 30000, 15, 200, 30000, 0, "activate/deactivate cycles: the default ring moves to a new engine each time; non-trivial: every case");

// ------------------------------------------------------------------ C11
struct SinkFormat : public RecFormat { void sink(hogl::ostrbuf &s, const Ev &e) { if (!e.internal) { std::string l = strf("%llu\n", (ull) e.id); s.push_back(l); } } };
struct FL { World *w; Ring *x; unsigned to; volatile int fin; bool res; std::vector<uint64_t> must; std::string bad; uint64_t ms; };
static void *flusher(void *p)
{
	FL &f = *(FL *) p; uint64_t t0 = now_ms();
	f.res = hogl::flush(f.x->r, f.to);
	f.ms = now_ms() - t0;
	if (f.res) {
		std::string c = f.w->out->buf->contents(); std::set<uint64_t> have; const char *q = c.c_str(); char *e;
		while (*q) { have.insert(strtoull(q, &e, 10)); if (e == q) break; q = e; if (*q == '\n') q++; }
		for (uint64_t id : f.must) if (!have.count(id)) { f.bad = strf("flush returned true but record %llu is not in the output stream (%zu records there)", (ull) id, have.size()); break; }
	}
	f.fin = 1; return 0;
}
static uint64_t tusec() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ULL + t.tv_nsec / 1000; }
static void flushing(Src &s)
{
	sim::Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({1u, 2u, 8u, 16u, 64u, 4096u}); o.dropmark = true; o.poll = s.range(0, 3); o.bufcap = s.pick({0u, 8u, 100u, 10000u});
	World w(o, new SinkFormat);
	unsigned nr = s.range(1, 4); uint64_t now = 10000; unsigned nflush = 0, ntrue = 0;
	note("tso %d capacity %u, output buffer %zu, %u rings", o.tso, o.tsocap, o.bufcap, nr);
	for (unsigned i = 0; i < nr; i++) {
		hogl::ringbuf::options ro = {}; ro.capacity = s.range(2, 30); ro.prio = s.range(0, 3); ro.record_tailroom = 128; ro.flags = s.flip() ? hogl::ringbuf::SHARED : 0;
		w.new_ring(ro, false);
	}
	unsigned n = s.range(2, 16);
	for (unsigned i = 0; i < n; i++) {
		Ring &x = w.rings[s.bits(nr)];
		switch (s.weighted({5, 4, 2, 2})) {
		case 0: {
			unsigned k = s.range(1, 20), acc = 0;
			for (unsigned j = 0; j < k; j++) { Ring &y = s.flip() ? x : w.rings[s.bits(nr)]; now += s.bits(3); acc += w.post(y, s.chance(1, 6) ? now - s.bits(3000) : now); }
			note("post %u around %s (%u accepted)", k, x.name.c_str(), acc); break;
		}
		case 1: { // a real flush while passes are granted
			w.to_end();
			bool full = !x.r->room();
			FL f = { &w, &x, 20000000, 0, false, {}, "", 0 };
			for (auto &it : x.acc) if (it.k == Item::REG) f.must.push_back(it.id);
			note("flush %s (%u pending%s)", x.name.c_str(), x.r->size(), full ? ", full" : "");
			clock_now() = now; 
			pthread_t t; pthread_create(&t, 0, flusher, &f);
			unsigned passes = 0;
			while (!f.fin) { w.step(); passes++; for (unsigned q = 0; q < 30 && !f.fin; q++) usleep(100); PBT_ASSERT(passes < 3000, "flush not done after %u passes", passes); }
			pthread_join(t, 0);
			PBT_ASSERT(f.bad.empty(), "%s", f.bad.c_str());
			PBT_ASSERT(f.res, "flush with a 20 s timeout returned false after %llu ms and %u passes", (ull) f.ms, passes);
			Item it = { Item::FLUSH, 0, now, x.seq, x.gap, 0, "", "", -1, 0 }; x.acc.push_back(it); x.gap = 0; x.seq++; w.specials++;
			nflush++; ntrue++; w.to_end();
			break;
		}
		case 2: { // one that cannot be served: the engine is held
			unsigned to = s.pick({0u, 1000u, 3000u, 0u, 1000u, 3000u, 20000u, 60000u}); bool room = x.r->room();
			note("flush %s with timeout %u us while the engine is held (%s)", x.name.c_str(), to, room ? "room" : "full");
			clock_now() = now;
			if (w.degraded) break;
			uint64_t took = 0;
			for (unsigned att = 0; att < 3; att++) { // the timeout is counted in sleeps of 1 ms: a loaded machine stretches it, so the upper bound is wide and must be missed three times
				bool had = x.r->room(); uint64_t t0 = tusec();
				bool r = hogl::flush(x.r, to); took = tusec() - t0;
				PBT_ASSERT(!r, "flush succeeded although no record was processed");
				PBT_ASSERT(took >= to * 9 / 10, "flush with a %u us timeout gave up after %llu us", to, (ull) took);
				if (had) { Item it = { Item::FLUSH, 0, now, x.seq, x.gap, 0, "", "", -1, 0 }; x.acc.push_back(it); x.gap = 0; x.seq++; w.specials++; }
				if (took < 2500000) break;
			}
			PBT_ASSERT(took < 2500000, "flush with a %u us timeout took %llu us", to, (ull) took);
			label(room ? "timed-out-queued" : "timed-out-full");
			break;
		}
		case 3: { bool m = s.flip(); note("%s", m ? "pass held half way" : "pass"); w.step(m ? s.range(1, 10) : 0); break; }
		}
		ops(1);
	}
	w.to_end(); w.drain(); w.finish();
	check_exactly_once(w);
	check_drops(w, w.st.recs_out, w.st.recs_dropped);
	if (nflush) { label("flush-true", ntrue); nontrivial(hash_str(cur_slot()->desc)); }
}
PBT_SUITE("C11", "lockstep", flushing, true, false, 2500, 60000, 50, 500, 40000, 0,
	"posts, flushes served by a stepped engine whose output buffer is inspected the moment flush returns, flushes that time out; non-trivial: at least one successful flush");

static void flush_free(Src &s)
{
	// free-running engine writing through the library's own buffered descriptor output
	g_tick = 1000;
	sim::Options o; o.tso = s.flip(); o.tsocap = 256; o.dropmark = true; o.poll = s.pick({0u, 20u, 500u}); o.bufcap = s.pick({0u, 50u, 3000u});
	World w(o, new SinkFormat); w.gate.open(); w.degraded = true;
	unsigned nt = s.range(1, 4); 
	struct T { World *w; Ring *x; unsigned rounds, burst; uint64_t id; std::string bad; static void *run(void *p) {
		T &t = *(T *) p; std::vector<uint64_t> must;
		for (unsigned r = 0; r < t.rounds && t.bad.empty(); r++) {
			for (unsigned i = 0; i < t.burst; i++) { uint64_t d = t.x->r->dropcnt(); hogl::post(t.x->r, t.w->area, hogl::area::INFO, t.id, ~t.id); if (t.x->r->dropcnt() == d) must.push_back(t.id); t.id++; }
			FL f = { t.w, t.x, 20000000, 0, false, must, "", 0 };
			flusher(&f);
			if (!f.res) t.bad = "flush with a 20 s timeout failed"; else t.bad = f.bad;
		}
		return 0; } };
	std::deque<T> ts; std::vector<pthread_t> th(nt); uint64_t id = 1;
	note("tso %d poll %u buffer %zu, %u threads", o.tso, o.poll, o.bufcap, nt);
	bool shared = nt > 1 && s.flip(); // all of them post to and flush one ring
	for (unsigned i = 0; i < nt; i++) {
		hogl::ringbuf::options ro = { (unsigned) s.range(4, 40), 0, shared ? (unsigned) (hogl::ringbuf::SHARED | hogl::ringbuf::BLOCKING) : 0u, 128 };
		Ring &x = shared && i ? w.rings[0] : w.new_ring(ro, false); x.r->timesource(&tick_ts);
		T t = { &w, &x, (unsigned) s.range(1, shared ? 20 : 8), (unsigned) s.range(0, shared ? 12 : 30), id, "" }; id += 1000; ts.push_back(t);
	}
	if (shared) { note("one shared ring"); label("shared"); }
	for (auto &t : ts) note("ring %s capacity %u: %u x %u posts and a flush", t.x->name.c_str(), t.x->cap, t.rounds, t.burst);
	for (unsigned i = 0; i < nt; i++) pthread_create(&th[i], 0, T::run, &ts[i]);
	for (unsigned i = 0; i < nt; i++) pthread_join(th[i], 0);
	for (auto &t : ts) PBT_ASSERT(t.bad.empty(), "%s", t.bad.c_str());
	w.drain(); w.finish();
	if (shared) { // blocking: everything must be there, once, in each thread's order
		std::vector<uint64_t> nx; for (auto &t : ts) nx.push_back(t.id - (uint64_t) t.rounds * t.burst);
		for (auto &e : w.ev) { if (is_full(e)) continue; PBT_ASSERT(!e.internal && !e.torn && e.id, "unexpected %s", show_ev(e).c_str()); unsigned q = (e.id - 1) / 1000; PBT_ASSERT(q < nt && nx[q] == e.id, "%s out of turn", show_ev(e).c_str()); nx[q]++; }
		for (unsigned q = 0; q < nt; q++) PBT_ASSERT(nx[q] == ts[q].id, "thread %u: records up to %llu of %llu out", q, (ull) nx[q], (ull) ts[q].id);
	}
	nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C11", "threads", flush_free, true, true, 800, 10000, 20, 200, 40000, 4, "free-running engine, 1-4 threads posting and flushing, on rings of their own or one shared ring; non-trivial: every case");

// The engine's thread reports scheduling parameters it could not apply; that must not get in the way of a flush.
struct SlowParam : hogl::schedparam {
	unsigned us; SlowParam(int p, int pr, const std::string &a, unsigned u) : hogl::schedparam(p, pr, 0, a), us(u) {}
	bool thread_enter(const char *t) { usleep(us); return hogl::schedparam::thread_enter(t); }
};
static void startup(Src &s)
{
	g_tick = 1000; struct CntFormat : hogl::format { std::vector<uint64_t> ids; unsigned reports; void process(hogl::ostrbuf &, const data &d) { if (!strcmp(d.record->area->name(), "A")) ids.push_back(d.record->get_arg_val64(0)); else reports++; } } fmt; fmt.reports = 0;
	struct NB : hogl::ostrbuf { NB() : hogl::ostrbuf(0) {} void do_flush(const uint8_t *, size_t) { reset(); } };
	struct NO : hogl::output { NO(hogl::format &f) : hogl::output(f) { init(new NB); } } out(fmt); CntFormat fmt2; NO out2(fmt2);
	bool aux = s.chance(1, 3); unsigned rounds = s.range(1, 3), bad = s.bits(3); SlowParam sp(bad == 1 ? SCHED_FIFO : SCHED_OTHER, bad == 1 ? 0 : 0, bad == 0 ? "bad" : bad == 1 ? "" : "list:300", s.pick({0u, 100u, 2000u}));
	hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = s.pick({0u, 10u, 500u}); eo.schedparam = &sp; eo.features = s.flip() ? 0u : (unsigned) hogl::engine::DISABLE_TSO;
	note("scheduling parameters that cannot be applied (%s), reported %u us after the start%s", bad == 0 ? "affinity 'bad'" : bad == 1 ? "SCHED_FIFO priority 0" : "CPU 300", sp.us, aux ? ", and a second engine" : ""); uint64_t id = 1;
	for (unsigned r = 0; r < rounds; r++) {
		fmt.ids.clear(); hogl::activate(out, eo); const hogl::area *a = hogl::add_area("A"); unsigned n = s.range(1, 30); uint64_t first = id;
		hogl::engine *x = aux ? new hogl::engine(out2, eo) : 0;
		for (unsigned i = 0; i < n; i++) hogl::post(a, 0u, id++);
		uint64_t t0 = now_ms(); bool f = hogl::flush(5000000u); uint64_t took = now_ms() - t0;
		note("post %u and flush", n);
		PBT_ASSERT(f, "flush right after the start failed after %llu ms", (ull) took);
		PBT_ASSERT(fmt.ids.size() == n && fmt.ids[0] == first, "%zu of %u records out after flush", fmt.ids.size(), n);
		delete x; hogl::deactivate();
	}
	ops(rounds); nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C11", "startup", startup, true, false, 400, 10000, 15, 100, 40000, 0,
	"flush at once after starting an engine whose scheduling parameters are refused; non-trivial: every case");

// ------------------------------------------------------------------ C12
static uint64_t off_of(World &w, hogl::timesource *t) { return t == &w.tB ? CLK_B : t == &w.tC ? CLK_C : 0; }
struct CT { World *w; Ring *x; hogl::timesource *ts; unsigned to; bool res; volatile int fin; };
static void *changer(void *p) // through the calling thread's ring, or naming the ring
{
	CT &c = *(CT *) p;
	if (c.to & 1) { c.x->r->hold(); hogl::tls t(c.x->r, c.w->eng); c.res = hogl::change_timesource(c.ts, c.to); c.fin = 1; } // the thread-local ring gives back the reference it is handed
	else { c.res = hogl::change_timesource(c.x->r, c.ts, c.to); c.fin = 1; }
	return 0;
}
struct AR { World *w; std::string name; hogl::ringbuf::options ro; hogl::ringbuf *r; int arm; volatile int fin; };
static void *adder(void *p) { AR &a = *(AR *) p; lockgate::arm = a.arm; a.r = a.w->eng->add_ring(a.name.c_str(), a.ro); lockgate::arm = 0; a.fin = 1; return 0; }
static void switching(Src &s)
{
	lockgate::reset();
	sim::Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({1u, 2u, 8u, 16u, 64u, 4096u}); o.dropmark = true; o.poll = s.range(0, 2); o.bufcap = 0;
	World w(o); w.eng->apply_mask(hogl::mask(".*:INFO", ".*:DROPMARK", ".*:TSOFULLMARK", 0));
	unsigned nr = s.range(1, 4); uint64_t now = 10000; unsigned nsw = 0; 
	note("tso %d capacity %u, %u rings", o.tso, o.tsocap, nr);
	for (unsigned i = 0; i < nr; i++) { hogl::ringbuf::options ro = {}; ro.capacity = s.range(2, 30); ro.prio = s.range(0, 3); ro.record_tailroom = 128; ro.flags = s.flip() ? hogl::ringbuf::SHARED : 0; w.new_ring(ro, false); }
	std::vector<std::string> requested; bool pending = false; size_t nreq = 0;
	auto count_sw = [&]() { size_t n = 0; Lock l(&w.fmt->m); for (auto &e : w.fmt->out) if (is_switch(e)) n++; return n; };
	auto last_sw = [&]() { std::string n; Lock l(&w.fmt->m); for (auto &e : w.fmt->out) if (is_switch(e)) n = e.a2; return n; };
	auto post1 = [&](Ring &x) {
		now += s.bits(4);
		uint64_t id = w.next_id; size_t k = x.acc.size();
		hogl::timesource *ts = x.r->timesource();
		w.post(x, now);
		(void) id;
		if (x.acc.size() > k) x.acc.back().ts = now + (pending ? off_of(w, ts) : off_of(w, w.cur));
	};
	auto settle = [&]() { // run passes until every request was announced
		unsigned p = 0;
		while (pending) {
			w.step(); w.to_end();
			if (count_sw() >= nreq) { pending = false; std::string n = last_sw(); w.cur = n == "clkA" ? &w.tA : n == "clkB" ? &w.tB : &w.tC; w.step(); w.to_end(); }
			PBT_ASSERT(++p < 3000, "timesource change not processed after %u passes", p);
		}
	};
	auto request = [&](Ring &x, hogl::timesource *ts) { // queued, not waited for
		bool room = x.r->room();
		note("change to %s on %s, not waited for (%s)", ts->name(), x.name.c_str(), room ? "queued" : "full");
		clock_now() = now; hogl::timesource *rt = x.r->timesource();
		unsigned to = s.chance(1, 3) ? s.pick({1000u, 3000u, 20000u}) : 0; // with a timeout: nobody runs the engine, so it expires; the request stays queued
		if (to && w.degraded) throw Discard();
		if (to) note("(timeout %u us while the engine is held)", to);
		uint64_t t0 = tusec(); bool r = hogl::change_timesource(x.r, ts, to), expired = false; uint64_t took = tusec() - t0;
		if (w.degraded) throw Discard();
		if (to) {
			PBT_ASSERT(!r, "change_timesource returned true while the engine processed nothing");
			PBT_ASSERT(took >= to * 9 / 10 && took < 20000000, "change_timesource with a timeout of %u us gave up after %llu us", to, (ull) took);
			label(room ? "change-expired" : "change-full"); expired = room;
		}
		if (!expired) PBT_ASSERT(to || r == room, "change_timesource on a ring with%s room returned %d", room ? "" : "out", r);
		if (!r && !expired) { label("change-full"); return; }
		Item it = { Item::TSRC, 0, now + off_of(w, rt), x.seq, x.gap, 0, "", ts->name(), -1, 0 }; x.acc.push_back(it); x.gap = 0; x.seq++; w.specials++; nreq++; requested.push_back(ts->name());
		pending = true; nsw++;
	};
	unsigned n = s.range(2, 18);
	for (unsigned i = 0; i < n; i++) {
		Ring &x = w.rings[s.bits(w.rings.size())];
		switch (s.weighted({6, 3, 3, 2, 2, 1, 2})) {
		case 0: { unsigned k = s.range(1, 25); note("post %u", k); for (unsigned j = 0; j < k; j++) post1(s.flip() ? x : w.rings[s.bits(w.rings.size())]); break; }
		case 1: { bool m = s.flip(); note("%s", m ? "pass held half way" : "pass"); w.step(m ? s.range(1, 10) : 0); break; }
		case 2: { // request and wait for the acknowledgement
			w.to_end(); settle();
			hogl::timesource *ts = w.src(s.bits(3));
			note("change to %s on %s (%u pending), acknowledged", ts->name(), x.name.c_str(), x.r->size());
			CT c = { &w, &x, ts, 20000000u + s.bits(2), false, 0 }; pthread_t t; clock_now() = now;
			uint64_t sts = now + off_of(w, w.cur);
			pthread_create(&t, 0, changer, &c);
			unsigned passes = 0;
			while (!c.fin) { w.step(); passes++; for (unsigned q = 0; q < 30 && !c.fin; q++) usleep(100); PBT_ASSERT(passes < 3000, "no acknowledgement after %u passes", passes); }
			pthread_join(t, 0);
			PBT_ASSERT(c.res, "change_timesource with 20 s timeout failed");
			Item it = { Item::TSRC, 0, sts, x.seq, x.gap, 0, "", ts->name(), -1, 0 }; x.acc.push_back(it); x.gap = 0; x.seq++; w.specials++; nreq++; requested.push_back(ts->name());
			w.cur = ts; nsw++;
			// already in force on every ring, even though the pass may not have ended
			for (auto &y : w.rings) if (y.r->room()) post1(y);
			w.to_end();
			break;
		}
		case 3: { // queued, not waited for
			request(x, w.src(s.bits(3)));
			break;
		}
		case 4: { // ring added later
			if (w.rings.size() > 9) { w.to_end(); break; }
			bool det = s.flip(); hogl::ringbuf::options ro = {}; ro.capacity = s.range(2, 30); ro.prio = s.range(0, 3); ro.record_tailroom = 128; ro.flags = s.flip() ? hogl::ringbuf::SHARED : 0;
			int how = s.bits(3); // 0: nothing pending, 1: as it is (changes may be queued, the pass may be held half way), 2: held half way through a pass that has a change queued
			if (how == 0) { w.to_end(); settle(); }
			if (how == 2) {
				if (!pending && x.r->room() > 3) {
					unsigned k = s.range(1, 8); for (unsigned j = 0; j < k && x.r->room() > 2; j++) post1(x);
					request(x, w.src(s.bits(3)));
				}
				w.step(s.range(1, 8));
			}
			note("new ring (%s), %s%s", det ? "by pointer" : "by name", pending ? "change pending" : "", w.gate.where == 2 ? ", pass held half way" : "");
			if (pending && w.gate.where == 2) label("registered-mid-pass-with-change-pending");
			Ring &y = w.new_ring(ro, det);
			if (det) { y.r->timesource(&w.tA); w.attach(y); }
			post1(y);
			if (s.flip()) { w.to_end(); settle(); for (auto &z : w.rings) if (z.r->room()) post1(z); }
			break;
		}
		case 5: settle(); break;
		case 6: { // a ring being registered while the clock is switched
			w.to_end(); settle(); if (w.rings.size() > 9) break;
			hogl::timesource *ts = w.src(s.bits(3));
			AR a = { &w, strf("R%llu", (ull) w.nring++), { 16, 0, 0, 128 }, 0, (int) s.range(1, 2), 0 };
			lockgate::reset(); pthread_t t, t2; pthread_create(&t, 0, adder, &a);
			lockgate::wait_parked(2000);
			note("ring %s registered (held at lock %d) while %s changes to %s", a.name.c_str(), a.arm, x.name.c_str(), ts->name());
			CT c = { &w, &x, ts, 20000000, false, 0 }; clock_now() = now; uint64_t sts = now + off_of(w, w.cur);
			pthread_create(&t2, 0, changer, &c);
			unsigned passes = 0;
			while (!c.fin) { w.step(); passes++; for (unsigned q = 0; q < 30 && !c.fin; q++) usleep(100); PBT_ASSERT(passes < 3000, "no acknowledgement after %u passes", passes); }
			lockgate::let_go(); pthread_join(t2, 0); pthread_join(t, 0);
			PBT_ASSERT(c.res && a.r, "change %d, new ring %p", c.res, (void *) a.r);
			Item it = { Item::TSRC, 0, sts, x.seq, x.gap, 0, "", ts->name(), -1, 0 }; x.acc.push_back(it); x.gap = 0; x.seq++; w.specials++; nreq++; requested.push_back(ts->name());
			w.cur = ts; nsw++;
			Ring y; y.name = a.name; y.cap = 16; y.flags = 0; y.prio = 0; y.seq = y.gap = y.drops = y.last_ts = 0; y.full_hits = 0; y.owned = y.attached = true; y.r = a.r; y.off = 0;
			w.rings.push_back(y);
			for (auto &z : w.rings) if (z.r->room()) post1(z);
			w.to_end(); label("registered-during-switch");
			break;
		}
		}
		ops(1);
	}
	w.to_end(); settle(); w.drain(); w.finish();
	check_exactly_once(w);
	check_drops(w, w.st.recs_out, w.st.recs_dropped);
	// announcements: one per request, each naming the source in force before and the one requested
	std::string cur = "clkA"; std::vector<std::string> got;
	for (auto &e : w.ev) if (is_switch(e)) {
		PBT_ASSERT(e.a1 == cur, "announced switch from %s to %s while %s was in force", e.a1.c_str(), e.a2.c_str(), cur.c_str());
		cur = e.a2; got.push_back(e.a2);
	}
	std::sort(got.begin(), got.end()); std::sort(requested.begin(), requested.end());
	PBT_ASSERT(got == requested, "%zu switches announced, %zu requested", got.size(), requested.size());
	PBT_ASSERT(w.st.timesource_changed == requested.size(), "timesource_changed %lu", w.st.timesource_changed);
	if (nsw) { label("switches", nsw); nontrivial(hash_str(cur_slot()->desc)); }
}
PBT_SUITE("C12", "lockstep", switching, true, false, 2500, 60000, 50, 500, 40000, 0,
	"posts, acknowledged and unacknowledged timesource changes on any ring, rings registered later and during a change; non-trivial: at least one change");

int main(int argc, char **argv) { return run_main(argc, argv); }

// ------------------------------------------------------------------ C01, C09: a thread stopped in the middle of registering or looking up a ring
struct HA { World *w; std::string name; hogl::ringbuf::options ro; int how, arm, armu; hogl::ringbuf *r; volatile int fin; };
static void *hadder(void *p)
{
	HA &a = *(HA *) p; hogl::ringbuf *d = 0;
	if (a.how == 1) { d = new hogl::ringbuf(a.name.c_str(), a.ro); d->hold(); d->timesource(&a.w->tA); }
	lockgate::arm = a.arm; lockgate::armu = a.armu;
	if (a.how == 0) a.r = a.w->eng->add_ring(a.name.c_str(), a.ro);
	else if (a.how == 1) a.r = a.w->eng->add_ring(d) ? d : 0;
	else a.r = a.w->eng->find_ring(a.name.c_str());
	lockgate::arm = lockgate::armu = 0;
	if (a.how == 1 && !a.r) d->release();
	a.fin = 1; return 0;
}
static void held_add(Src &s)
{
	lockgate::reset();
	sim::Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({1u, 2u, 8u, 64u, 4096u}); o.dropmark = true; o.poll = s.range(0, 2); o.bufcap = 0;
	World w(o); uint64_t now = 10000; unsigned n = s.range(2, 9), helds = 0;
	auto opts = [&]() { hogl::ringbuf::options ro = {}; ro.capacity = s.range(2, 30); ro.prio = s.range(0, 3); ro.record_tailroom = 128; ro.flags = s.flip() ? hogl::ringbuf::SHARED : 0; return ro; };
	unsigned nr = s.range(0, 3); for (unsigned i = 0; i < nr; i++) w.new_ring(opts(), false);
	auto live = [&]() { std::vector<Ring *> v; for (auto &x : w.rings) if (x.r) v.push_back(&x); return v; };
	auto posts = [&](unsigned k) { auto v = live(); if (v.empty()) return; for (unsigned j = 0; j < k; j++) { now += s.bits(4); w.post(*v[s.bits(v.size())], now); } };
	note("tso %d capacity %u, %u rings", o.tso, o.tsocap, nr);
	for (unsigned i = 0; i < n; i++) {
		ops(1);
		switch (s.weighted({3, 2, 5, 1})) {
		case 0: { unsigned k = s.range(1, 20); note("post %u", k); posts(k); break; }
		case 1: { bool m = s.flip(); note("%s", m ? "pass held half way" : "pass"); w.step(m ? s.range(1, 10) : 0); break; }
		case 2: {
			auto v = live(); if (v.size() > 12) break;
			HA a = { &w, strf("R%llu", (ull) w.nring), opts(), (int) s.bits(2), 0, 0, 0, 0 }; Ring *known = 0; hogl::ringbuf *kr = 0;
			if (v.size() && s.chance(1, 3)) { known = v[s.bits(v.size())]; a.how = 2; a.name = known->name; kr = known->r; }
			else w.nring++;
			if (s.flip()) a.arm = s.range(1, 3); else a.armu = s.range(1, 3);
			lockgate::reset(); pthread_t t; pthread_create(&t, 0, hadder, &a);
			for (unsigned q = 0; q < 150 && !lockgate::parked && !a.fin; q++) usleep(20);
			bool held = lockgate::parked == 1; helds += held;
			note("ring %s %s, stopped %s %d%s", a.name.c_str(), a.how == 0 ? "registered by name" : a.how == 1 ? "registered by pointer" : "looked up", a.arm ? "before lock" : "after unlock", a.arm + a.armu, held ? "" : " (not stopped)");
			for (unsigned q = s.range(0, 4); q--;) switch (s.bits(5)) {
				case 0: note("  a ring is registered"); if (live().size() < 13) w.new_ring(opts(), false); break;
				case 1: { auto z = live(); Ring *x = z.size() ? z[s.bits(z.size())] : 0; if (x) { note("  %s is released", x->name.c_str()); w.release(*x); } break; }
				case 2: note("  posts"); posts(s.range(1, 8)); break;
				default: note("  pass"); w.to_end(); w.step(); w.to_end(); break;
			}
			lockgate::let_go(); while (!a.fin) { usleep(20); } pthread_join(t, 0);
			if (known && !known->r) label("released-during-look-up"); // it may be found or not
			else PBT_ASSERT(a.r, "ring %s was not %s", a.name.c_str(), a.how == 2 ? "found" : "registered");
			if (known) { if (a.r) { PBT_ASSERT(a.r == kr, "ring %s looked up is another one", a.name.c_str()); PBT_ASSERT(a.name == a.r->name(), "ring %s is called %s", a.name.c_str(), a.r->name()); a.r->release(); } break; }
			Ring y; y.name = a.name; y.cap = 1; while (y.cap < a.ro.capacity) y.cap *= 2; y.flags = a.ro.flags; y.prio = a.ro.prio; y.seq = y.gap = y.drops = y.last_ts = 0; y.full_hits = 0; y.owned = y.attached = true; y.r = a.r; y.off = 0;
			w.rings.push_back(y); posts(s.range(0, 6));
			break;
		}
		case 3: { auto v = live(); if (v.size()) { Ring *x = v[s.bits(v.size())]; note("%s is released", x->name.c_str()); w.release(*x); } break; }
		}
	}
	w.to_end(); w.drain(); w.finish();
	check_exactly_once(w);
	check_drops(w, w.st.recs_out, w.st.recs_dropped);
	if (helds) { label("stopped-in-the-middle", helds); nontrivial(hash_str(cur_slot()->desc)); }
}
PBT_SUITE("C09", "held-lookup", held_add, true, false, 6000, 80000, 25, 250, 40000, 0,
	"threads stopped before a lock or after an unlock of a registration or look-up while passes run and other rings come and go; non-trivial: at least one was stopped");
PBT_SUITE("C01", "held-lookup", held_add, true, false, 6000, 80000, 25, 250, 40000, 0,
	"threads stopped before a lock or after an unlock of a registration or look-up while passes run and other rings come and go; non-trivial: at least one was stopped");

// ------------------------------------------------------------------ free-running order and switches
// C03: a record that was in its ring before another was even stamped comes out first, as long as the reorder buffer is not short of room.
struct OT { World *w; Ring *x; uint64_t id; unsigned n, spin; std::vector<uint64_t> b, e; };
static void *owriter(void *p)
{
	OT &o = *(OT *) p; unsigned z = o.id;
	for (unsigned i = 0; i < o.n; i++) {
		uint64_t id = o.id + i, b = __sync_add_and_fetch(&g_tick, 1);
		hogl::post(o.x->r, o.w->area, hogl::area::INFO, id, ~id);
		o.b.push_back(b); o.e.push_back(__sync_add_and_fetch(&g_tick, 1));
		z = z * 1103515245 + 12345; if (o.spin) for (volatile unsigned q = 0; q < (z >> 16) % o.spin; q = q + 1);
	}
	return 0;
}
static void causal(Src &s)
{
	g_tick = 1000;
	sim::Options o; o.tso = true; o.tsocap = 65536; o.dropmark = true; o.poll = s.pick({0u, 0u, 1u, 20u, 200u}); o.bufcap = 0;
	World w(o); w.gate.open(); w.degraded = true;
	unsigned nt = s.range(2, 6), spin = s.pick({0u, 100u, 2000u}); uint64_t id = 1; std::deque<OT> ts;
	for (unsigned i = 0; i < nt; i++) { // together less than an eighth of the reorder buffer
		hogl::ringbuf::options ro = { (unsigned) s.pick({4u, 64u, 1024u, 4096u}), (unsigned) s.range(0, 3), s.flip() ? (unsigned) hogl::ringbuf::BLOCKING : 0u, 64 };
		Ring &x = w.new_ring(ro, false); x.r->timesource(&tick_ts);
		OT t = { &w, &x, id, (unsigned) s.range(10, 1300), spin, {}, {} }; id += t.n; ts.push_back(t);
		note("ring %s capacity %u priority %u flags %x: %u posts", x.name.c_str(), x.cap, ro.prio, ro.flags, t.n);
	}
	std::vector<pthread_t> th(nt); std::vector<uint64_t> b(id), e(id), drops(nt);
	for (unsigned i = 0; i < nt; i++) pthread_create(&th[i], 0, owriter, &ts[i]);
	for (unsigned i = 0; i < nt; i++) pthread_join(th[i], 0);
	uint64_t nd = 0; for (auto &x : w.rings) nd += x.r->dropcnt();
	for (auto &t : ts) for (unsigned i = 0; i < t.n; i++) { b[t.id + i] = t.b[i]; e[t.id + i] = t.e[i]; }
	w.drain(); w.finish();
	std::vector<uint64_t> out; for (auto &v : w.ev) if (!v.internal) { PBT_ASSERT(v.id && v.id < id && !v.torn, "wrong record %s", show_ev(v).c_str()); out.push_back(v.id); }
	PBT_ASSERT(out.size() + nd == id - 1, "%zu records out and %llu dropped of %llu", out.size(), (ull) nd, (ull) id - 1);
	uint64_t mn = ~0ULL, at = 0, sw = 0;
	for (size_t i = out.size(); i--; ) {
		PBT_ASSERT(mn >= b[out[i]], "record %llu (post began at %llu) came out before record %llu (post over by %llu)", (ull) out[i], (ull) b[out[i]], (ull) at, (ull) mn);
		if (e[out[i]] < mn) { mn = e[out[i]]; at = out[i]; }
		if (i) { unsigned r1 = 0, r2 = 0; for (unsigned q = 0; q < nt; q++) { if (ts[q].id <= out[i]) r1 = q; if (ts[q].id <= out[i - 1]) r2 = q; } sw += r1 != r2; }
	}
	if (sw > 20) label("interleaved"); if (nd) label("drops");
	ops(id); if (sw) nontrivial(hash_add(hash_str(cur_slot()->desc), sw));
}
PBT_SUITE("C03", "threads", causal, true, true, 1500, 25000, 20, 250, 40000, 4,
	"free-running engine, 2-6 threads posting with a clock that ticks for every reading; non-trivial: records of different rings alternate in the output");

// C12: threads that post and register rings while the clock is switched.
struct SwSt { volatile uint64_t ep; std::vector<int> src; }; // even: src[ep/2] in force; odd: being changed to src[(ep+1)/2]
struct ST { World *w; SwSt *st; std::string name; hogl::ringbuf::options ro; unsigned rounds, per, delay; uint64_t id; std::vector<std::pair<uint64_t, uint64_t> > ep; std::string bad; };
static void *swriter(void *p)
{
	ST &t = *(ST *) p; uint64_t id = t.id; unsigned z = t.id;
	for (unsigned r = 0; r < t.rounds; r++) {
		hogl::ringbuf *rb = t.w->eng->add_ring(strf("%s-%u", t.name.c_str(), r).c_str(), t.ro);
		if (!rb) { t.bad = "ring refused"; return 0; }
		for (unsigned i = 0; i < t.per; i++, id++) {
			uint64_t e0 = __atomic_load_n(&t.st->ep, __ATOMIC_SEQ_CST);
			hogl::post(rb, t.w->area, hogl::area::INFO, id, ~id);
			t.ep.push_back(std::make_pair(e0, __atomic_load_n(&t.st->ep, __ATOMIC_SEQ_CST)));
			z = z * 1103515245 + 12345; if (t.delay) usleep((z >> 16) % t.delay);
		}
		rb->release();
	}
	return 0;
}
static void switchfree(Src &s)
{
	sim::Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({2u, 64u, 4096u}); o.dropmark = true; o.poll = s.pick({0u, 1u, 20u, 300u}); o.bufcap = 0;
	World w(o); w.gate.open(); w.degraded = true; w.eng->apply_mask(hogl::mask(".*:INFO", ".*:DROPMARK", ".*:TSOFULLMARK", 0));
	unsigned nt = s.range(1, 5), nc = s.range(1, 12); uint64_t id = 1; std::deque<ST> ts; SwSt st; st.ep = 0; st.src.push_back(0);
	hogl::ringbuf::options co = { 8, (unsigned) s.range(0, 3), 0, 128 }; Ring &cr = w.new_ring(co, false);
	for (unsigned i = 0; i < nc; i++) st.src.push_back(s.bits(3));
	note("tso %d capacity %u poll %u, %u changes", o.tso, o.tsocap, o.poll, nc);
	for (unsigned i = 0; i < nt; i++) {
		ST t = { &w, &st, strf("W%u", i), { (unsigned) s.range(2, 40), (unsigned) s.range(0, 3), hogl::ringbuf::BLOCKING, 128 }, (unsigned) s.range(1, 20), (unsigned) s.range(1, 12), s.pick({0u, 50u, 400u}), id, {}, "" };
		id += (uint64_t) t.rounds * t.per; ts.push_back(t); note("%u rings in turn, %u posts each, pauses up to %u us", t.rounds, t.per, t.delay);
	}
	std::vector<pthread_t> th(nt); unsigned gap = s.pick({0u, 100u, 500u});
	for (unsigned i = 0; i < nt; i++) pthread_create(&th[i], 0, swriter, &ts[i]);
	std::string bad;
	for (unsigned i = 0; i < nc && bad.empty(); i++) {
		__atomic_store_n(&st.ep, 2 * i + 1, __ATOMIC_SEQ_CST);
		if (!hogl::change_timesource(cr.r, w.src(st.src[i + 1]), 20000000)) bad = "change_timesource with a 20 s timeout failed";
		__atomic_store_n(&st.ep, 2 * i + 2, __ATOMIC_SEQ_CST);
		if (gap) usleep(gap);
	}
	for (unsigned i = 0; i < nt; i++) { pthread_join(th[i], 0); if (!ts[i].bad.empty()) bad = ts[i].bad; }
	PBT_ASSERT(bad.empty(), "%s", bad.c_str());
	w.drain(); w.finish();
	std::vector<std::pair<uint64_t, uint64_t> > ep(id); std::vector<unsigned> who(id); for (unsigned q = 0; q < nt; q++) for (size_t i = 0; i < ts[q].ep.size(); i++) { ep[ts[q].id + i] = ts[q].ep[i]; who[ts[q].id + i] = q; }
	std::vector<bool> seen(id); std::vector<uint64_t> last(nt); uint64_t n = 0, sharp = 0; std::string cur = "clkA"; unsigned nsw = 0; std::vector<uint64_t> perring(id);
	static const char *nm[] = { "clkA", "clkB", "clkC" };
	for (auto &v : w.ev) {
		if (is_switch(v)) { PBT_ASSERT(nsw < nc && v.a1 == cur && v.a2 == nm[st.src[nsw + 1]], "switch %u announced from %s to %s; %s was in force and %s requested", nsw, v.a1.c_str(), v.a2.c_str(), cur.c_str(), nsw < nc ? nm[st.src[nsw + 1]] : "none"); cur = v.a2; nsw++; continue; }
		if (is_full(v)) continue;
		PBT_ASSERT(!v.internal, "unexpected %s", show_ev(v).c_str());
		PBT_ASSERT(v.id && v.id < id && !v.torn && !seen[v.id], "wrong or repeated record %s", show_ev(v).c_str());
		seen[v.id] = true; n++; unsigned q = who[v.id], per = ts[q].per; uint64_t k = (v.id - ts[q].id) / per, pos = (v.id - ts[q].id) % per;
		PBT_ASSERT(v.ring == strf("W%u-%llu", q, (ull) k) && v.seq == pos && perring[ts[q].id + k * per]++ == pos, "record %s out of place (position %llu of its ring)", show_ev(v).c_str(), (ull) pos);
		int src = v.ts >= CLK_C ? 2 : v.ts >= CLK_B ? 1 : 0; bool ok = false; uint64_t a = ep[v.id].first / 2, z = (ep[v.id].second + 1) / 2;
		for (uint64_t j = a; j <= z; j++) ok |= st.src[j] == src;
		PBT_ASSERT(ok, "record %llu on ring %s carries the time of %s; posted between change %llu and %llu, when %s%s was in force", (ull) v.id, v.ring.c_str(), nm[src], (ull) a, (ull) z, nm[st.src[a]], a == z ? "" : " or a later one");
		if (a == z && a) sharp++;
	}
	PBT_ASSERT(n == id - 1, "%llu of %llu records out", (ull) n, (ull) id - 1);
	PBT_ASSERT(nsw == nc, "%u of %u switches announced", nsw, nc);
	if (sharp) label("stable-after-change"); ops(id);
	if (sharp) nontrivial(hash_add(hash_str(cur_slot()->desc), sharp));
}
PBT_SUITE("C12", "threads", switchfree, true, true, 2000, 30000, 20, 250, 40000, 4,
	"free-running engine; 1-5 threads registering rings and posting while another switches the clock; non-trivial: records posted wholly between two changes");
