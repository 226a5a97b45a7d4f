// C01 exactly once, C02 drop accounting, C03 timestamp order, C10 shutdown: histories run against an
// engine whose passes are granted one by one.
#include "hoglsim.hpp"
using namespace sim;

struct Prof { bool mono, specials, tswitch, mid, tso_only; unsigned maxops; };

static hogl::ringbuf::options gen_ring(Src &s)
{
	hogl::ringbuf::options ro;
	switch (s.weighted({5, 2, 1})) {
	case 0: ro.capacity = s.range(2, 16); break;
	case 1: ro.capacity = s.range(2, 64); break;
	default: ro.capacity = s.range(2, 600); break;
	}
	ro.prio = s.range(0, 3); ro.record_tailroom = 128;
	ro.flags = (s.flip() ? hogl::ringbuf::SHARED : 0) | (s.chance(1, 4) ? hogl::ringbuf::BLOCKING : 0) | (s.chance(1, 4) ? hogl::ringbuf::REUSABLE : 0);
	return ro;
}

static sim::Options gen_world(Src &s, const Prof &p)
{
	sim::Options o;
	o.tso = p.tso_only || s.chance(3, 4);
	switch (s.weighted({4, 3, 2, 1})) {
	case 0: o.tsocap = s.range(1, 16); break;
	case 1: o.tsocap = s.range(1, 64); break;
	case 2: o.tsocap = s.range(8, 300); break;
	default: o.tsocap = s.pick({0u, 4096u, 1u, 2u, 3u}); break;
	}
	o.dropmark = s.chance(4, 5); o.poll = s.range(0, 3); o.bufcap = 0;
	return o;
}

// A generated history. Returns false if it never got interesting.
static void history(Src &s, const Prof &p, World &w)
{
	unsigned nr = s.range(1, 4);
	note("tso %d capacity %u dropmark %d, %u ring(s)", w.o.tso, w.o.tsocap, w.o.dropmark, nr);
	for (unsigned i = 0; i < nr; i++) {
		bool det = s.chance(1, 5);
		hogl::ringbuf::options ro = gen_ring(s);
		Ring &x = w.new_ring(ro, det);
		note("  ring %s capacity %u prio %d flags %x%s", x.name.c_str(), x.cap, x.prio, x.flags, det ? " (not registered yet)" : "");
	}
	// more rings than a byte can number, more records than 16 bits can
	bool many = s.chance(1, 150), huge = !many && !p.mono && s.chance(1, 300);
	if (many) { unsigned k = s.range(200, 600); note("  and %u more", k); label("many-rings"); for (unsigned i = 0; i < k; i++) { hogl::ringbuf::options ro = gen_ring(s); ro.capacity = s.range(2, 9); w.new_ring(ro, false); } }
	if (huge) { hogl::ringbuf::options ro = gen_ring(s); ro.capacity = s.pick({32768u, 65536u, 131072u}); Ring &x = w.new_ring(ro, s.chance(1, 5)); note("  ring %s capacity %u", x.name.c_str(), x.cap); label("huge-ring"); }
	uint64_t now = 10000, lateness = s.pick({0u, 0u, 5u, 50u, 5000u});
	unsigned n = 3 + s.size(many || huge ? p.maxops / 4 : p.maxops);
	for (unsigned i = 0; i < n; i++) {
		ops(1);
		std::vector<Ring *> own; for (auto &x : w.rings) if (x.owned) own.push_back(&x);
		unsigned op = s.weighted({8, 6, p.mid ? 3u : 0u, 1, 1, 1, p.specials ? 2u : 0u, p.tswitch ? 1u : 0u});
		if (own.empty() && op != 1) op = 3;
		switch (op) {
		case 0: { // burst of posts, one ring or interleaved over several
			unsigned k = s.weighted({3, 3, 1}) == 0 ? 1 : s.range(1, s.chance(1, 6) ? 120 : 24);
			bool inter = many ? s.chance(7, 8) : s.flip(); Ring *x = own[s.bits(own.size())]; unsigned acc = 0;
			uint64_t q = 0; // the choice of a ring in a long burst is not drawn one by one
			if (many && inter) { k *= s.range(1, 60); q = s.u64() | 1; }
			if (huge && s.flip()) { x = own[own.size() > nr ? nr : 0]; k = s.range(30000, 70000); inter = false; }
			unsigned stepts = s.pick({1u, 3u, 0u, 17u});
			for (unsigned j = 0; j < k; j++) {
				if (q) { q = q * 6364136223846793005ULL + 1442695040888963407ULL; x = own[(q >> 33) % own.size()]; }
				else if (inter) x = own[s.bits(own.size())];
				uint64_t ts = now;
				if (lateness && k < 10000) ts -= s.bits(std::min<uint64_t>(lateness, now - 1000) + 1);
				if (p.mono && ts <= x->last_ts) ts = x->last_ts + 1;
				now += stepts ? k < 10000 ? s.bits(stepts + 1) : 1 : 0;
				if (ts > now) now = ts;
				acc += w.post(*x, ts);
			}
			note("post %u to %s (%u accepted)", k, inter ? "several rings" : x->name.c_str(), acc);
			break;
		}
		case 1: {
			unsigned k = s.weighted({6, 1}) ? s.range(1, 4) : 1;
			note("%u pass(es)", k);
			for (unsigned j = 0; j < k; j++) { w.step(); w.to_end(); }
			break;
		}
		case 2: { // stop in the middle of a pass, post there, finish the pass
			w.to_end();
			unsigned at = s.range(1, 20);
			bool end = w.step(at);
			unsigned k = s.range(1, 30), acc = 0;
			if (!own.empty()) for (unsigned j = 0; j < k; j++) {
				Ring *x = own[s.bits(own.size())];
				uint64_t ts = now; if (lateness) ts -= s.bits(std::min<uint64_t>(lateness, now - 1000) + 1);
				if (p.mono && ts <= x->last_ts) ts = x->last_ts + 1;
				if (ts > now) now = ts;
				acc += w.post(*x, ts);
			}
			note("pass held at output %u%s, %u posts there (%u accepted)", at, end ? " (not reached)" : "", k, acc);
			if (s.chance(3, 4)) w.to_end();
			break;
		}
		case 3: { // new ring, possibly attached later
			w.to_end();
			if (w.rings.size() > 12) break;
			bool det = s.chance(1, 3);
			hogl::ringbuf::options ro = gen_ring(s);
			Ring &x = w.new_ring(ro, det);
			note("new ring %s capacity %u prio %d flags %x%s", x.name.c_str(), x.cap, x.prio, x.flags, det ? " (not registered yet)" : "");
			break;
		}
		case 4: { // register a ring that may already hold records
			w.to_end();
			for (auto x : own) if (!x->attached) { note("register %s with %u pending", x->name.c_str(), x->r->size()); w.attach(*x); label("prefilled"); break; }
			break;
		}
		case 5: { // owner lets go
			w.to_end();
			if (own.size() < 2) break;
			Ring *x = own[s.bits(own.size())];
			if (!x->attached) break;
			note("release %s with %u pending", x->name.c_str(), x->r->size());
			w.release(*x); label("released");
			break;
		}
		case 6: {
			Ring *x = own[s.bits(own.size())];
			if (!x->attached) break;
			uint64_t ts = now; if (p.mono && ts <= x->last_ts) ts = x->last_ts + 1;
			if (ts > now) now = ts;
			bool ok = w.flush0(*x, ts);
			note("flush %s without waiting (%s)", x->name.c_str(), ok ? "queued" : "full");
			label(ok ? "flush-queued" : "flush-full");
			break;
		}
		}
	}
	w.to_end();
	// rings never registered are simply registered now
	for (auto &x : w.rings) if (x.owned && !x.attached) { note("register %s with %u pending", x.name.c_str(), x.r->size()); w.attach(x); }
}

static void classify(World &w, bool &nt)
{
	unsigned full = 0; bool over = false, multi = w.rings.size() > 1;
	for (auto &e : w.ev) if (is_full(e)) full++;
	for (auto &x : w.rings) if (x.full_hits) over = true;
	if (full) label("tso-overflow"); if (over) label("ring-overflow"); if (w.n_mid) label("mid-pass"); if (multi) label("multi-ring");
	if (w.degraded) label("degraded");
	label(w.o.tso ? "tso" : "notso");
	nt = w.n_posted > 3 && (full || over || w.n_mid || multi);
}

static void exactly_once(Src &s)
{
	Prof p = { false, true, false, true, false, 60 };
	World w(gen_world(s, p));
	history(s, p, w);
	bool abrupt = s.chance(1, 3);
	note(abrupt ? "engine destroyed right away" : "drained");
	if (!abrupt) w.drain();
	w.finish();
	check_exactly_once(w);
	bool nt; classify(w, nt);
	if (nt) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C01", "lockstep", exactly_once, false, false, 30000, 500000, 45, 700, 30000, 0,
	"histories of 3-60 operations (post bursts, engine passes, posts in the middle of a pass, ring creation, late registration, release, flush requests) over 1-12 rings; non-trivial: more than 3 posts and a ring or reorder-buffer overflow, a mid-pass post or several rings");

static void drops(Src &s)
{
	Prof p = { false, true, false, true, false, 60 };
	World w(gen_world(s, p));
	history(s, p, w);
	w.drain();
	w.finish();
	check_drops(w, w.st.recs_out, w.st.recs_dropped);
	bool nt; classify(w, nt);
	bool over = false; for (auto &x : w.rings) for (auto &i : x.acc) if (i.gap) over = true;
	if (over) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C02", "lockstep", drops, false, false, 30000, 500000, 45, 700, 30000, 0,
	"same histories; non-trivial: at least one record was output (or request processed) after a gap");

static void order(Src &s)
{
	Prof p = { true, false, false, true, true, 60 };
	World w(gen_world(s, p));
	history(s, p, w);
	w.drain();
	w.finish();
	unsigned late = check_order(w);
	bool nt; classify(w, nt);
	if (late) label("late-by-one-pass", late);
	if (nt && w.rings.size() > 1) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C03", "lockstep", order, false, false, 30000, 500000, 45, 700, 30000, 0,
	"histories with strictly increasing timestamps per ring and arbitrary skew between rings; non-trivial: several rings and more than 3 posts");

// Lateness windows around the 1/8 boundary, constructed.
static void late(Src &s)
{
	sim::Options o; o.tso = true; o.tsocap = s.range(8, 128); o.dropmark = true; o.poll = 0; o.bufcap = 0;
	World w(o);
	unsigned nr = s.range(2, 4); hogl::ringbuf::options ro = { 512, 0, 0, 128 };
	for (unsigned i = 0; i < nr; i++) { ro.prio = s.range(0, 2); w.new_ring(ro, false); }
	unsigned keep = o.tsocap / 8; uint64_t now = 10000;
	note("capacity %u, 1/8 = %u, %u rings", o.tsocap, keep, nr);
	unsigned n = s.range(1, 8);
	for (unsigned i = 0; i < n; i++) {
		unsigned a = s.bits(keep + 2), old = s.bits(o.tsocap / 2 + 1);
		note("pass with %u old and %u new records, then late ones, then %s", old, a, "a pass");
		// old records in random rings, then `a` newer ones; after the pass, late records older than the new ones
		for (unsigned j = 0; j < old; j++) { Ring &x = w.rings[s.bits(nr)]; uint64_t ts = std::max(now, x.last_ts + 1); w.post(x, ts); now = ts + s.bits(3); }
		uint64_t gap = now + 1; now += 1000;
		unsigned r1 = s.bits(nr);
		for (unsigned j = 0; j < a; j++) { Ring &x = w.rings[r1]; uint64_t ts = std::max(now, x.last_ts + 1); w.post(x, ts); now = ts + s.bits(3); }
		w.step(); w.to_end();
		unsigned l = s.range(0, 6);
		for (unsigned j = 0; j < l; j++) {
			unsigned r2 = s.bits(nr); if (r2 == r1) r2 = (r2 + 1) % nr;
			Ring &x = w.rings[r2]; uint64_t ts = std::max(gap + j, x.last_ts + 1); if (ts < gap + 900) w.post(x, ts);
		}
		if (s.chance(3, 4)) { w.step(); w.to_end(); }
		now += 1000;
	}
	w.drain(); w.finish();
	unsigned l = check_order(w);
	check_exactly_once(w);
	if (l) { label("late-by-one-pass", l); nontrivial(hash_str(cur_slot()->desc)); }
}
PBT_SUITE("C03", "late-window", late, false, false, 6000, 300000, 25, 300, 30000, 0,
	"rounds of old/new/late records with the number of newer records around 1/8 of the capacity; non-trivial: at least one record arrived one pass late within the window");

// ---- free-running engine, real threads ----
struct WArg { World *w; std::vector<Ring *> rings; unsigned n, id, spin; volatile int *go; bool unlocked; std::vector<std::pair<Ring *, unsigned> > plan; };
static volatile uint64_t g_tick;
static hogl::timestamp tick_cb(const hogl::timesource *) { return hogl::timestamp(__sync_add_and_fetch(&g_tick, 1)); }
static hogl::timesource tick_ts("tick", tick_cb);
static void *wthread(void *p)
{
	WArg &a = *(WArg *) p;
	while (!*a.go) sched_yield();
	for (unsigned i = 0; i < a.n; i++) {
		uint64_t id = (uint64_t) (a.id + 1) << 32 | i;
		Ring *x = a.rings[i % a.rings.size()];
		if (x->flags & hogl::ringbuf::SHARED) hogl::post(x->r, a.w->area, hogl::area::INFO, id, ~id);
		else if (a.unlocked) hogl::post_unlocked(x->r, a.w->area, hogl::area::INFO, id, ~id);
		else hogl::post(x->r, a.w->area, hogl::area::INFO, id, ~id);
		if (a.spin && i % a.spin == 0) sched_yield();
	}
	return 0;
}
static void concurrent(Src &s, bool c02)
{
	sim::Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({2u, 5u, 16u, 64u, 4096u}); o.dropmark = true; o.poll = s.pick({0u, 1u, 50u, 500u}); o.bufcap = 0;
	World w(o);
	w.gate.open(); w.degraded = true;
	g_tick = 1000;
	unsigned nt = s.range(1, 6), nshared = s.range(0, 2);
	std::vector<WArg> a(nt); volatile int go = 0;
	note("tso %d capacity %u poll %u, %u threads, %u shared rings", o.tso, o.tsocap, o.poll, nt, nshared);
	for (unsigned i = 0; i < nshared; i++) { hogl::ringbuf::options ro = gen_ring(s); ro.flags |= hogl::ringbuf::SHARED; w.new_ring(ro, false); }
	for (unsigned i = 0; i < nt; i++) {
		hogl::ringbuf::options ro = gen_ring(s); ro.flags &= ~hogl::ringbuf::SHARED;
		w.new_ring(ro, false); 
	}
	for (auto &x : w.rings) { x.r->timesource(&tick_ts); note("  ring %s capacity %u flags %x", x.name.c_str(), x.cap, x.flags); }
	for (unsigned i = 0; i < nt; i++) {
		a[i].w = &w; a[i].n = s.range(10, 600); a[i].id = i; a[i].spin = s.range(0, 9); a[i].go = &go; a[i].unlocked = s.flip();
		if (nshared == 0 || s.chance(2, 3)) a[i].rings.push_back(&w.rings[nshared + i]);
		for (unsigned j = 0; j < nshared; j++) if (a[i].rings.empty() || s.flip()) a[i].rings.push_back(&w.rings[j]);
	}
	std::vector<pthread_t> t(nt);
	for (unsigned i = 0; i < nt; i++) pthread_create(&t[i], 0, wthread, &a[i]);
	go = 1;
	for (unsigned i = 0; i < nt; i++) pthread_join(t[i], 0);
	std::map<std::string, uint64_t> drops, posted; uint64_t total = 0;
	for (auto &x : w.rings) { drops[x.name] = x.r->dropcnt(); posted[x.name] = 0; }
	for (auto &y : a) for (unsigned i = 0; i < y.n; i++) { posted[y.rings[i % y.rings.size()]->name]++; total++; }
	for (auto &x : w.rings) PBT_ASSERT(x.r->seqnum() == posted[x.name], "ring %s handed out %llu sequence numbers for %llu posts", x.name.c_str(), (ull) x.r->seqnum(), (ull) posted[x.name]);
	for (auto &x : w.rings) if (x.flags & hogl::ringbuf::BLOCKING) PBT_ASSERT(!drops[x.name], "blocking ring dropped records");
	w.drain(); w.finish();
	std::map<std::string, uint64_t> lastseq, cnt, marked; std::map<std::pair<std::string, uint64_t>, uint64_t> last; uint64_t regs = 0, sum = 0;
	for (size_t k = 0; k < w.ev.size(); k++) {
		Ev &e = w.ev[k];
		if (is_full(e)) continue;
		if (is_drop(e)) {
			marked[e.ring] += e.n; sum += e.n;
			PBT_ASSERT(k + 1 < w.ev.size() && !w.ev[k + 1].internal && w.ev[k + 1].ring == e.ring, "drop marker of %s not directly before a record of it", e.ring.c_str());
			PBT_ASSERT(w.ev[k + 1].seq == (lastseq.count(e.ring) ? lastseq[e.ring] + 1 : 0) + e.n, "ring %s: marker says %llu dropped, gap is different", e.ring.c_str(), (ull) e.n);
			continue;
		}
		PBT_ASSERT(!e.internal, "unexpected %s", show_ev(e).c_str());
		PBT_ASSERT(!e.torn, "torn record %s", show_ev(e).c_str());
		uint64_t th = (e.id >> 32) - 1, i = e.id & 0xffffffff;
		PBT_ASSERT(th < nt && i < a[th].n, "record that was never posted: %s", show_ev(e).c_str());
		PBT_ASSERT(a[th].rings[i % a[th].rings.size()]->name == e.ring, "record output with the wrong ring: %s", show_ev(e).c_str());
		std::pair<std::string, uint64_t> key(e.ring, th);
		PBT_ASSERT(!last.count(key) || last[key] < i, "ring %s: record %llu of thread %llu repeated or out of order", e.ring.c_str(), (ull) i, (ull) th);
		last[key] = i;
		uint64_t want = lastseq.count(e.ring) ? lastseq[e.ring] + 1 : 0;
		PBT_ASSERT(e.seq >= want, "ring %s: sequence number %llu after %llu", e.ring.c_str(), (ull) e.seq, (ull) want - 1);
		if (c02 && o.tso && e.seq > want)
			PBT_ASSERT(k && is_drop(w.ev[k - 1]) && w.ev[k - 1].ring == e.ring && w.ev[k - 1].n == e.seq - want, "ring %s: %llu records missing before seq %llu without a marker", e.ring.c_str(), (ull) (e.seq - want), (ull) e.seq);
		lastseq[e.ring] = e.seq; cnt[e.ring]++; regs++;
	}
	for (auto &x : w.rings)
		PBT_ASSERT(cnt[x.name] + drops[x.name] == posted[x.name], "ring %s: %llu posted, %llu output, %llu counted as dropped", x.name.c_str(), (ull) posted[x.name], (ull) cnt[x.name], (ull) drops[x.name]);
	if (c02) {
		PBT_ASSERT(w.st.recs_out == regs, "recs_out %llu, output %llu", (ull) w.st.recs_out, (ull) regs);
		if (o.tso) PBT_ASSERT(w.st.recs_dropped == sum, "recs_dropped %llu, markers %llu", (ull) w.st.recs_dropped, (ull) sum);
	}
	ops(total); if (total > regs) label("concurrent-drops");
	nontrivial(hash_str(cur_slot()->desc));
}
static void conc1(Src &s) { concurrent(s, false); }
static void conc2(Src &s) { concurrent(s, true); }
PBT_SUITE("C01", "threads", conc1, true, true, 300, 8000, 15, 200, 20000, 4, "free-running engine, 1-6 writer threads on private and shared rings; non-trivial: every case");
PBT_SUITE("C02", "threads", conc2, true, true, 300, 8000, 15, 200, 20000, 4, "free-running engine, 1-6 writer threads; non-trivial: every case");

// A writer held between taking its slot and publishing it (inside the timesource callback) while a
// second writer posts to the same shared ring.
static pthread_mutex_t h_m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t h_cv = PTHREAD_COND_INITIALIZER;
static int h_in, h_rel; static __thread int h_me;
static hogl::timestamp held_cb(const hogl::timesource *)
{
	if (h_me == 1) {
		h_me = 0;
		pthread_mutex_lock(&h_m); h_in = 1; pthread_cond_broadcast(&h_cv);
		while (!h_rel) pthread_cond_wait(&h_cv, &h_m);
		pthread_mutex_unlock(&h_m);
	}
	return hogl::timestamp(__sync_add_and_fetch(&g_tick, 1));
}
static hogl::timesource held_ts("held", held_cb);
struct HArg { World *w; hogl::ringbuf *r; uint64_t id; unsigned n, kind; bool hold; volatile int done; };
static void *hthread(void *p)
{
	HArg &a = *(HArg *) p; std::string st(40, 'x');
	for (unsigned i = 0; i < a.n; i++) {
		uint64_t id = a.id + i; h_me = a.hold && i == 0;
		if (a.kind == 0) hogl::post(a.r, a.w->area, hogl::area::INFO, id, ~id);
		else hogl::post(a.r, a.w->area, hogl::area::INFO, id, ~id, st, "abc");
	}
	a.done = 1; return 0;
}
static void held(Src &s)
{
	sim::Options o; o.tso = s.flip(); o.tsocap = 64; o.dropmark = true; o.poll = 0; o.bufcap = 0;
	World w(o); g_tick = 1000; h_in = h_rel = 0;
	hogl::ringbuf::options ro = gen_ring(s); ro.flags |= hogl::ringbuf::SHARED; ro.flags &= ~hogl::ringbuf::BLOCKING; ro.capacity += 24;
	Ring &x = w.new_ring(ro, false); x.r->timesource(&held_ts);
	unsigned pre = s.range(0, 5), nb = s.range(1, 3), n = s.range(1, 3);
	std::vector<HArg> a(nb + 1); std::vector<pthread_t> t(nb + 1); uint64_t id = 1;
	HArg f = { &w, x.r, id, pre, 0, false, 0 }; id += pre; hthread(&f);
	note("shared ring capacity %u, %u posted, one writer held while posting, %u others post %u", x.cap, pre, nb, n);
	a[0] = HArg{ &w, x.r, id, n, (unsigned) s.bits(2), true, 0 }; id += n;
	pthread_create(&t[0], 0, hthread, &a[0]);
	pthread_mutex_lock(&h_m); while (!h_in) pthread_cond_wait(&h_cv, &h_m); pthread_mutex_unlock(&h_m);
	for (unsigned i = 1; i <= nb; i++) {
		a[i] = HArg{ &w, x.r, id, n, (unsigned) s.bits(2), false, 0 }; id += n;
		pthread_create(&t[i], 0, hthread, &a[i]);
	}
	unsigned passes = s.range(0, 3);
	usleep(2000); // lets the others run into the ring lock (or through it)
	for (unsigned i = 0; i < passes; i++) w.step();
	pthread_mutex_lock(&h_m); h_rel = 1; pthread_cond_broadcast(&h_cv); pthread_mutex_unlock(&h_m);
	for (unsigned i = 0; i <= nb; i++) pthread_join(t[i], 0);
	PBT_ASSERT(x.r->dropcnt() == 0, "records dropped with room in the ring");
	w.drain(); w.finish();
	std::set<uint64_t> seen; uint64_t seq = 0; std::map<uint64_t, uint64_t> last;
	for (auto &e : w.ev) {
		PBT_ASSERT(!e.internal, "unexpected %s", show_ev(e).c_str());
		PBT_ASSERT(!e.torn, "torn record %s", show_ev(e).c_str());
		PBT_ASSERT(seen.insert(e.id).second, "record output twice %s", show_ev(e).c_str());
		PBT_ASSERT(e.seq == seq, "sequence number %llu at position %llu", (ull) e.seq, (ull) seq); seq++;
	}
	for (uint64_t i = 1; i < id; i++) PBT_ASSERT(seen.count(i), "record %llu posted but never output", (ull) i);
	nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C01", "held-writer", held, true, false, 300, 6000, 10, 120, 30000, 0, "one writer of a shared ring held between reserving and publishing its record while others post; non-trivial: every case");

int main(int argc, char **argv) { return run_main(argc, argv); }
