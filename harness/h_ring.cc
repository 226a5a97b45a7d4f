// C21: ring buffer against a bounded FIFO model.
#include "pbt.hpp"
#include <deque>
#include <pthread.h>
#include <sched.h>
#include <sstream>
#include <hogl/detail/ringbuf.hpp>
#include <hogl/area.hpp>
#include <hogl/post.hpp>
using namespace pbt;

static unsigned pow2(unsigned v) { unsigned p = 1; while (p < v) p *= 2; return p; }

struct Item { uint64_t id; };

static uint64_t g_ts;
static hogl::timestamp ts_cb(const hogl::timesource *) { return hogl::timestamp(g_ts); }

static void fill(hogl::record *r, hogl::ringbuf &ring, uint64_t id, unsigned tail)
{
	r->area = (const hogl::area *) (uintptr_t) 0x1000;
	r->section = id & 0x7ff;
	r->timestamp = id * 7;
	r->seqnum = ring.inc_seqnum();
	r->argtype = id;
	// every byte of the record's storage belongs to the item
	uint8_t *p = (uint8_t *) r->argval;
	for (unsigned i = 0; i < tail; i += 13) p[i] = (uint8_t) (id * 31 + i);
	p[tail - 1] = (uint8_t) (id * 31 + 5);
}
static void verify(const hogl::record *r, uint64_t id, unsigned tail)
{
	PBT_ASSERT(r->argtype == id, "popped item %llu where %llu was expected", (unsigned long long) r->argtype, (unsigned long long) id);
	PBT_ASSERT((uint64_t) r->timestamp == id * 7 && r->section == (id & 0x7ff), "item %llu header changed", (unsigned long long) id);
	const uint8_t *p = (const uint8_t *) r->argval;
	for (unsigned i = 0; i < tail - 1; i += 13)
		PBT_ASSERT(p[i] == (uint8_t) (id * 31 + i), "item %llu byte %u changed", (unsigned long long) id, i);
	PBT_ASSERT(p[tail - 1] == (uint8_t) (id * 31 + 5), "item %llu last byte changed", (unsigned long long) id);
}

static void model(Src &s)
{
	hogl::ringbuf::options o;
	o.capacity = s.weighted({5, 1}) ? s.range(0, 3000) : s.range(0, 20);
	switch (s.weighted({3, 2, 1})) {
	case 0: o.prio = s.range(0, 100); break;
	case 1: o.prio = s.range(9990, 10010); break;
	default: o.prio = s.u64(); break;
	}
	o.flags = (s.flip() ? hogl::ringbuf::SHARED : 0) | (s.flip() ? hogl::ringbuf::REUSABLE : 0);
	o.record_tailroom = s.weighted({4, 2, 1}) == 0 ? s.range(0, 400) : s.range(0, 9000);
	bool huge = s.chance(1, 400); // more than 16 bits can count
	if (huge) { o.capacity = s.range(40000, 200000); o.record_tailroom = s.range(0, 100); label("huge"); }
	note("options: capacity %u prio %u flags %x tailroom %u", o.capacity, o.prio, o.flags, o.record_tailroom);

	hogl::ringbuf *ring = new hogl::ringbuf("R", o); ring->hold();
	unsigned cap = pow2(o.capacity);
	PBT_ASSERT(ring->capacity() == cap, "capacity %u for requested %u", ring->capacity(), o.capacity);
	PBT_ASSERT((unsigned) ring->prio() == (o.prio > 9999 ? 9999 : o.prio), "prio %d for requested %u", ring->prio(), o.prio);
	PBT_ASSERT(ring->record_size() == pow2(ring->record_size()), "record size %u not a power of two", ring->record_size());
	unsigned tail = ring->record_tailroom();
	PBT_ASSERT(tail >= o.record_tailroom && tail >= hogl::record::argval_size(), "tailroom %u for requested %u", tail, o.record_tailroom);
	PBT_ASSERT(tail + hogl::record::header_size() <= ring->record_size(), "tailroom %u exceeds record size %u", tail, ring->record_size());
	PBT_ASSERT(ring->record_size() <= 2 * (hogl::record::header_size() + std::max<unsigned>(o.record_tailroom, 128)), "record size %u wasteful for %u", ring->record_size(), o.record_tailroom);
	PBT_ASSERT(!strcmp(ring->name(), "R") && ring->shared() == !!(o.flags & 1) && ring->reusable() == !!(o.flags & 4) && !ring->blocking() && !ring->immortal(), "flags/name");
	PBT_ASSERT(ring->refcnt() == 1 && ring->orphan(), "refcount of a new ring");

	std::deque<uint64_t> q;      // model
	uint64_t id = 1, drops = 0, seq = 0;
	unsigned maxsz = 0, wraps = 0, full = 0, partial = 0;
	// iterator model: snapshot of q (by absolute position), cursor
	typedef hogl::ringbuf::pop_iterator It;
	It it(ring);
	std::vector<std::pair<uint64_t, hogl::record *>> snap, seen; // items visible to the iterator in order / walked
	size_t snapn = 0;
	auto take_snap = [&]() { it.reset(); snapn = q.size(); seen.clear(); };
	take_snap();
	uint64_t snap_epoch = 0, epoch = 0; // the reader state moved outside the iterator -> iterator must be reset
	auto push1 = [&](bool bulk = false) {
		bool isfull = q.size() + 1 >= cap;
		if (bulk ? id & 1 : s.chance(1, 4)) {
			hogl::record *r = ring->push_begin();
			fill(r, *ring, id, tail); ring->push_commit();
		} else {
			hogl::record *r = ring->push_begin();
			fill(r, *ring, id, tail); ring->push_commit(hogl::ringbuf::NOBARRIER);
		}
		seq++;
		if (isfull) { drops++; full++; } else { q.push_back(id); if (seq >= cap) wraps++; }
		id++;
	};
	auto inv = [&](const char *where) {
		PBT_ASSERT(ring->size() == q.size(), "after %s: size %u, model %zu", where, ring->size(), q.size());
		PBT_ASSERT(ring->empty() == q.empty(), "after %s: empty %d, model %zu", where, ring->empty(), q.size());
		PBT_ASSERT(ring->room() == cap - 1 - q.size(), "after %s: room %u, model %zu", where, ring->room(), cap - 1 - q.size());
		PBT_ASSERT(ring->dropcnt() == drops, "after %s: dropcnt %llu, model %llu", where, (unsigned long long) ring->dropcnt(), (unsigned long long) drops);
		PBT_ASSERT(ring->seqnum() == seq, "after %s: seqnum", where);
		hogl::record *r = ring->pop_begin();
		PBT_ASSERT(!r == q.empty(), "after %s: pop_begin %p, model size %zu", where, (void *) r, q.size());
		if (r) verify(r, q.front(), tail);
		if (q.size() > maxsz) maxsz = q.size();
	};
	inv("creation");
	unsigned n = s.size(120) + 4;
	for (unsigned i = 0; i < n; i++) {
		switch (s.weighted({6, 4, 3, 3, 1, 1})) {
		case 0: { // burst of pushes
			unsigned k = s.weighted({3, 2, 1}) == 0 ? 1 : s.range(1, std::min(cap + 2, 70u));
			note("push %u (ids %llu..)", k, (unsigned long long) id);
			bool bulk = huge && s.flip(); if (bulk) { k = s.flip() ? cap + 2 : s.range(30000, cap); note("%u in all", k); }
			for (unsigned j = 0; j < k; j++) push1(bulk);
			inv("push"); break;
		}
		case 1: { // pops
			unsigned k = std::min<uint64_t>(s.range(1, huge && s.flip() ? 80000 : 8), q.size()); bool bulk = k > 8;
			note("pop %u", k);
			for (unsigned j = 0; j < k; j++) {
				hogl::record *r = ring->pop_begin();
				PBT_ASSERT(r, "pop_begin null with %zu items", q.size());
				verify(r, q.front(), tail);
				ring->pop_commit(bulk ? j & 1 : s.flip()); q.pop_front();
			}
			if (k) epoch++;
			inv("pop"); break;
		}
		case 2: { // iterator reset and walk
			take_snap(); snap_epoch = epoch;
			unsigned k = s.flip() ? snapn + 1 : s.range(0, snapn);
			note("iterate %u of %zu", k, snapn);
			for (unsigned j = 0; j < k; j++) {
				hogl::record *r = it.next();
				PBT_ASSERT(!r == (j >= snapn), "iterator %s at %u of %zu", r ? "returned an item" : "ended", j, snapn);
				if (!r) break;
				verify(r, q[j], tail);
				seen.push_back(std::make_pair(q[j], r));
			}
			inv("iterate"); break;
		}
		case 3: { // commit what was walked, possibly only part of it
			if (snap_epoch != epoch) { take_snap(); snap_epoch = epoch; }
			size_t k = seen.size();
			if (k && s.flip()) {
				k = s.range(1, k); it.rewind(seen[k - 1].second);
				if (k < seen.size()) partial++;
			}
			note("commit %zu of %zu walked", k, seen.size());
			it.commit(s.flip());
			for (size_t j = 0; j < k; j++) q.pop_front();
			if (k) epoch++;
			seen.clear();
			inv("commit");
			take_snap(); snap_epoch = epoch;
			break;
		}
		case 4: {
			note("reset"); ring->reset(); q.clear(); drops = 0; seq = 0; epoch++;
			take_snap(); snap_epoch = epoch; inv("reset"); break;
		}
		case 5: { // hold/release
			ring->hold(); PBT_ASSERT(ring->refcnt() == 2 && !ring->orphan(), "refcnt"); ring->release();
			ring->lock(); ring->unlock();
			break;
		}
		}
		ops(1);
	}
	// drain by iterator
	take_snap();
	for (size_t j = 0; j < q.size(); j++) { hogl::record *r = it.next(); PBT_ASSERT(r, "drain"); verify(r, q[j], tail); }
	PBT_ASSERT(!it.next(), "iterator goes past the end");
	it.commit(); q.clear(); inv("drain");
	ring->release();
	if (full) label("overflow"); if (wraps) label("wrapped"); if (partial) label("partial-commit"); if (cap == 1) label("capacity-1");
	if (maxsz + 1 >= cap) label("reached-full");
	if (maxsz > 1 && (wraps || full || partial)) {
		uint64_t h = hash_add(o.capacity, o.record_tailroom); h = hash_add(h, hash_str(cur_slot()->desc));
		nontrivial(h);
	}
}
PBT_SUITE("C21", "fifo-model", model, false, false, 40000, 1200000, 40, 500, 20000, 0,
	"ring options and 4-120 operations (push bursts, pops, iterator walks, partial commits, reset); non-trivial: the ring wrapped, overflowed or was partially committed with more than one item pending");

// Posts through the API while another thread consumes: FIFO per writer, nothing torn.
struct Conc { hogl::ringbuf *ring; hogl::area *area; unsigned n; unsigned w; unsigned str; unsigned spin; volatile int *go; };
static void *writer(void *p)
{
	Conc &c = *(Conc *) p;
	while (!*c.go) sched_yield();
	for (unsigned i = 0; i < c.n; i++) {
		uint64_t k = (uint64_t) c.w << 32 | i;
		std::string str(c.str, 'a' + (i + c.w) % 26);
		hogl::post(c.ring, c.area, 0, k, str, ~k);
		if (c.spin && i % c.spin == 0) sched_yield();
	}
	return 0;
}
static void concurrent(Src &s)
{
	static hogl::area *area = 0;
	if (!area) { area = new hogl::area("A"); area->enable(); }
	hogl::ringbuf::options o = {};
	o.capacity = s.range(2, 40); o.flags = hogl::ringbuf::SHARED; o.record_tailroom = s.range(128, 400);
	unsigned nw = s.range(1, 4), n = s.range(20, 400);
	if (nw == 1 && s.flip()) o.flags = 0;
	bool blocking = s.flip(); if (blocking) o.flags |= hogl::ringbuf::BLOCKING;
	hogl::ringbuf *ring = new hogl::ringbuf("R", o); ring->hold();
	static hogl::timesource ts("t", ts_cb); ring->timesource(&ts);
	volatile int go = 0; std::vector<Conc> c(nw); std::vector<pthread_t> t(nw);
	unsigned pause = s.range(0, 20);
	note("%u writers x %u posts, capacity %u flags %x", nw, n, ring->capacity(), o.flags);
	for (unsigned i = 0; i < nw; i++) {
		c[i] = Conc{ring, area, n, i, (unsigned) s.range(0, 60), (unsigned) s.range(0, 5), &go};
		pthread_create(&t[i], 0, writer, &c[i]);
	}
	go = 1;
	std::vector<uint64_t> next(nw, 0); uint64_t got = 0, lastseq = 0; bool first = true; unsigned done = 0;
	uint64_t idle = 0;
	std::vector<bool> joined(nw, false);
	hogl::ringbuf::pop_iterator it(ring);
	while (1) {
		it.reset(); hogl::record *r; unsigned k = 0;
		while ((r = it.next())) {
			uint64_t v = r->get_arg_val64(0), w = v >> 32, i = v & 0xffffffff; unsigned len;
			PBT_ASSERT(w < nw && r->get_arg_val64(2) == ~v, "torn record %llx", (unsigned long long) v);
			const char *str = (const char *) r->get_arg_data(1, len);
			PBT_ASSERT(len == c[w].str, "string length %u, expected %u", len, c[w].str);
			for (unsigned j = 0; j < len; j++) PBT_ASSERT(str[j] == (char) ('a' + (i + w) % 26), "torn string");
			PBT_ASSERT(i >= next[w], "writer %llu: record %llu after %llu", (unsigned long long) w, (unsigned long long) i, (unsigned long long) next[w]);
			if (blocking) PBT_ASSERT(i == next[w], "blocking ring lost a record");
			next[w] = i + 1;
			PBT_ASSERT(first || r->seqnum > lastseq, "sequence number %llu after %llu", (unsigned long long) r->seqnum, (unsigned long long) lastseq);
			lastseq = r->seqnum; first = false; got++; k++;
		}
		it.commit(); ring->unblock();
		if (!k) { idle++; if (done == nw) break; }
		for (unsigned i = 0; i < nw; i++)
			if (!joined[i] && !pthread_tryjoin_np(t[i], 0)) { joined[i] = true; done++; }
		for (unsigned p = 0; p < pause; p++) sched_yield();
	}
	PBT_ASSERT(got + ring->dropcnt() == (uint64_t) nw * n, "%llu consumed + %llu dropped != %llu posted", (unsigned long long) got, (unsigned long long) ring->dropcnt(), (unsigned long long) nw * n);
	PBT_ASSERT(ring->seqnum() == (uint64_t) nw * n, "seqnum %llu != posts", (unsigned long long) ring->seqnum());
	if (blocking) PBT_ASSERT(ring->dropcnt() == 0, "blocking ring counted drops");
	label(nw > 1 ? "multi-writer" : "single-writer");
	if (blocking) label("blocking"); if (ring->dropcnt()) label("concurrent-overflow");
	ops(nw * n);
	ring->release();
	nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C21", "concurrent", concurrent, true, true, 500, 12000, 15, 120, 60000, 4,
	"1-4 real writer threads and one reader; non-trivial: every case");

int main(int argc, char **argv) { return run_main(argc, argv); }
