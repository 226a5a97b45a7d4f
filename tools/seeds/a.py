import sys; sys.path.insert(0, '/verif/tools/seeds')
from common import *
R = 'include/hogl/detail/ringbuf.hpp'; E = 'src/engine.cc'; T = 'include/hogl/detail/tsobuf.hpp'
SEEDS = [
seed('c01-equal-timestamps', 'C01', 'more than 16 records of one ring with the same timestamp in one pass (a coarse clock)',
 'records of one ring with equal timestamps are handed to an unstable sort with equal keys: they are output out of order, and the ring is committed past or short of the last one',
 [(E, 'if (hogl_unlikely(te.timestamp <= tso_ts))', 'if (hogl_unlikely(te.timestamp < tso_ts))')],
 r'''#include "demo.hpp"
int main()
{
	limit(60);
	RecFormat f; { Out o(f); hogl::engine e(o, eopt(100000)); hogl::area *a = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 256);
	for (uint64_t i = 1; i <= 200; i++) hogl::post(r, a, hogl::area::INFO, i);
	usleep(400000); r->release(); }
	CHECK(f.ev.size() == 200, "%zu records output, 200 posted", f.ev.size());
	for (size_t i = 0; i < 200; i++) CHECK(f.ev[i].id == i + 1, "position %zu has record %llu", i, (ull) f.ev[i].id);
	return 0;
}
'''),
seed('c02-uncounted-drops', 'C02', 'records dropped while the DROPMARK section is masked off',
 'drops are not counted in the engine statistics when drop markers are disabled',
 [(E, '''				inject_record(ring->name(), r->timestamp - 1, 0, internal::DROPMARK, "dropped %llu record(s)", n);

			_stats.recs_dropped += n;
		}''', '''{
				inject_record(ring->name(), r->timestamp - 1, 0, internal::DROPMARK, "dropped %llu record(s)", n);
				_stats.recs_dropped += n;
			}
		}''')],
 r'''#include "demo.hpp"
int main()
{
	limit(60);
	RecFormat f; Out o(f); hogl::engine::options eo = eopt(100000); eo.default_mask << "!HOGL:DROPMARK"; uint64_t dropped = 0, counted;
	{ hogl::engine e(o, eo); hogl::area *a = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 8); uint64_t id = 1;
	for (unsigned k = 0; k < 5; k++) { for (unsigned i = 0; i < 20; i++) { now_++; hogl::post(r, a, hogl::area::INFO, id++); } dropped = r->dropcnt(); usleep(350000); }
	now_++; hogl::post(r, a, hogl::area::INFO, id++); usleep(500000);
	counted = e.get_stats().recs_dropped; dropped = r->dropcnt(); r->release(); }
	CHECK(dropped > 0, "nothing dropped"); CHECK(counted == dropped, "%llu dropped, statistics say %llu", (ull) dropped, (ull) counted);
	return 0;
}
'''),
seed('c03-single-flush', 'C03', 'a pass that releases exactly one record while newer ones of a higher-priority ring stay in the reorder buffer',
 'when only one record is due the buffer is not sorted first, so a newer record of a ring collected earlier overtakes an older one',
 [(E, '''	_tso.sort();

	tsobuf::entry te;
	for''', '''	if (size > 1)
		_tso.sort();

	tsobuf::entry te;
	for''')],
 r'''#include "demo.hpp"
int main()
{
	limit(60);
	RecFormat f; { Out o(f); hogl::engine e(o, eopt(150000, 16)); // keeps two records back
	hogl::area *a = e.add_area("A"); hogl::ringbuf *hi = ring(e, "HI", 64, 0, 9), *lo = ring(e, "LO", 64, 0, 1);
	usleep(400000); f.hold = 1;
	now_ = 2000; hogl::post(hi, a, hogl::area::INFO, (uint64_t) 1); now_ = 2001; hogl::post(hi, a, hogl::area::INFO, (uint64_t) 2); now_ = 2002; hogl::post(hi, a, hogl::area::INFO, (uint64_t) 3);
	while (!f.holding) usleep(1000); // the first of them is about to be output
	f.hold = 0; usleep(1000000);
	for (unsigned k = 0; k < 6; k++) { // three pending records, the oldest one on the low priority ring
		now_ = 3000 + k * 10; hogl::post(lo, a, hogl::area::INFO, (uint64_t) now_); now_++; hogl::post(hi, a, hogl::area::INFO, (uint64_t) now_); now_++; hogl::post(hi, a, hogl::area::INFO, (uint64_t) now_);
		usleep(700000);
	}
	hi->release(); lo->release(); }
	uint64_t last = 0; for (auto &x : f.ev) { CHECK(x.ts >= last, "record with time %llu output after %llu", (ull) x.ts, (ull) last); last = x.ts; }
	CHECK(f.ev.size() == 21, "%zu records", f.ev.size());
	return 0;
}
'''),
seed('c07-last-colon', 'C07', 'a mask rule whose section expression contains a colon (such as the internal TLS:DEBUG sections)',
 'rules are split at the last colon instead of the first, so rules for sections with a colon in the name match nothing (or the wrong area)',
 [('src/mask.cc', "size_t aend = str.find(':', abeg);", "size_t aend = str.rfind(':');")],
 r'''#include "demo.hpp"
int main()
{
	const char *s[] = { "INFO", "RX:DEBUG", "TX:DEBUG", 0 }; hogl::area a("NET", s); a.disable();
	hogl::mask m; m << "NET:RX:DEBUG"; m.apply(a);
	CHECK(a.test(1), "NET:RX:DEBUG did not enable RX:DEBUG"); CHECK(!a.test(0) && !a.test(2), "other sections changed");
	hogl::mask n; n << "!NET:RX:.*"; a.enable(); n.apply(a); CHECK(!a.test(1) && a.test(2), "!NET:RX:.* did not disable RX:DEBUG");
	return 0;
}
'''),
seed('c09-hold-after-unlock', 'C09', 'the engine removes an orphaned ring between a look-up and its reference being taken',
 'find_ring takes its reference after dropping the lock, so the ring may be gone already',
 [(E, '''		r = it->second;
		r = r->hold();
	}
	pthread_mutex_unlock(&_ring_mutex);
	return r;''', '''		r = it->second;
	}
	pthread_mutex_unlock(&_ring_mutex);
	return r ? r->hold() : 0;''')],
 r'''#include "demo.hpp"
#include <dlfcn.h>
#include <sched.h>
// widens the window after the lock is dropped, in the thread that looks the ring up
static __thread int slow;
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
	static int (*real)(pthread_mutex_t *); if (!real) real = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	int r = real(m); if (slow) { slow = 0; usleep(300000); } return r;
}
int main()
{
	limit(60);
	RecFormat f; { Out o(f); hogl::engine e(o, eopt(50000)); hogl::area *a = e.add_area("A"); ring(e, "KEEP", 8);
	hogl::ringbuf *r = ring(e, "R", 8); usleep(200000);
	f.hold = 99; hogl::ringbuf *k = e.find_ring("KEEP"); hogl::post(k, a, hogl::area::INFO, (uint64_t) 99); while (!f.holding) usleep(100); // engine busy
	r->release();                       // R is an orphan now
	f.hold = 0; slow = 1;
	hogl::ringbuf *p = e.find_ring("R"); slow = 0;
	if (p) {
		hogl::string_list l; e.list_rings(l); bool there = false; for (auto &x : l) if (x == "R") there = true;
		CHECK(there, "the ring found is no longer registered");
		p->release();
	}
	k->release(); k->release(); }
	return 0;
}
'''),
seed('c11-stale-ack', 'C11', 'a flush request placed in a ring slot whose first argument still holds an old acknowledgement (the ring has wrapped)',
 'a special record does not clear the acknowledgement field, so flush returns before the engine has seen the request',
 [('include/hogl/detail/record.hpp', '		argval[0].u64 = 0;\n', '')],
 r'''#include "demo.hpp"
int main()
{
	limit(60);
	RecFormat f; { Out o(f); hogl::engine e(o, eopt(20000)); hogl::area *a = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 4);
	uint64_t id = 1;
	for (unsigned k = 0; k < 40; k++) {
		if (k % 3 == 0) { now_++; hogl::post(r, a, hogl::area::INFO, id++); }
		CHECK(hogl::flush(r, 5000000), "flush timed out");
		CHECK(f.count() == id - 1, "flush %u returned with %zu of %llu records output", k, f.count(), (ull) id - 1);
	}
	r->release(); }
	return 0;
}
'''),
seed('c12-unindexed-ring', 'C12', 'a ring registered after the engine built its index and before it processes the timesource change',
 'only rings already in the engine index are switched; a ring that was registered during the pass keeps the old clock',
 [(E, '''	// Iterate all rings and update their timesource pointers.
	ring_map::const_iterator it;
	for (it = _ring_map.begin(); it != _ring_map.end(); ++it) {
		ringbuf *ring = it->second;
		ring->timesource(_timesource);
	}
''', '''	// Iterate all rings and update their timesource pointers.
	for (unsigned int i = 0; i < _ring_index.count; i++) {
		ringbuf::pop_iterator &it = _ring_index(i)->pit;
		if (it.valid())
			it.ring()->timesource(_timesource);
	}
''')],
 r'''#include "demo.hpp"
static hogl::timestamp clk2(const hogl::timesource *) { return hogl::timestamp((uint64_t) now_ + 1000000); }
static hogl::timesource t2("two", clk2);
static void *chg(void *r) { return (void *) hogl::change_timesource((hogl::ringbuf *) r, &t2, 5000000); }
int main()
{
	limit(60);
	RecFormat f; { Out o(f); hogl::engine e(o, eopt(50000)); hogl::area *a = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 64); usleep(200000);
	f.hold = 1; now_++; hogl::post(r, a, hogl::area::INFO, (uint64_t) 1); while (f.holding != 1) usleep(100);
	now_++; hogl::post(r, a, hogl::area::INFO, (uint64_t) 2); now_++;
	pthread_t t; pthread_create(&t, 0, chg, r); usleep(200000); // pending behind record 2
	f.hold = 2; while (f.holding != 2) usleep(100);
	hogl::ringbuf *n = ring(e, "N", 64); // not indexed yet
	f.hold = 0; void *ok; pthread_join(t, &ok); CHECK(ok, "change of timesource timed out");
	now_++; hogl::post(n, a, hogl::area::INFO, (uint64_t) 7); uint64_t want = now_ + 1000000;
	r->release(); n->release(); usleep(300000);
	for (auto &x : f.ev) if (x.id == 7 && !x.internal) CHECK(x.ts == want, "record of the new ring has time %llu, expected %llu", (ull) x.ts, (ull) want); }
	return 0;
}
'''),
seed('c04-truncated-then-next', 'C04', 'a record whose first string is truncated and that has another short string after it',
 'the space used by a truncated string is computed without the truncation marker, so the next string overwrites its end',
 [('include/hogl/detail/record.hpp', '		return len + 1;', '		return n + 1;')],
 r'''#include "demo.hpp"
struct F : public hogl::format { std::string a, b; void process(hogl::ostrbuf &, const data &d) { unsigned l; const char *p = (const char *) d.record->get_arg_data(0, l); a.assign(p, l); p = (const char *) d.record->get_arg_data(1, l); b.assign(p, l); } };
int main()
{
	limit(60);
	F f; unsigned room; { Out o(f); hogl::engine e(o, eopt(1000)); hogl::area *a = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 8); room = r->record_tailroom() - 16;
	std::string big(room + 100, 'x'); hogl::post(r, a, hogl::area::INFO, big.c_str(), "AB"); r->release(); }
	std::string want(room - 1, 'x'); want.replace(want.size() - 3, 3, ">>>");
	CHECK(f.a == want, "truncated string is '%s'", f.a.c_str()); CHECK(f.b.empty(), "second string is '%s'", f.b.c_str());
	return 0;
}
'''),
seed('c05-second-boundary', 'C05', 'two records in different seconds where the later one has the smaller sub-second part',
 'the cached upper half of the nanoseconds is only refreshed when it grows',
 [('src/format-basic.cc', '	if (_nsec_hi != nhi) {', '	if (_nsec_hi < nhi) {')],
 r'''#include "demo.hpp"
struct Buf : public hogl::ostrbuf { std::string *s; Buf(std::string *p) : s(p) {} void do_flush(const uint8_t *d, size_t n) { s->append((const char *) head(), size()); reset(); if (n) s->append((const char *) d, n); } };
struct O2 : public hogl::output { O2(hogl::format &f, std::string *s) : hogl::output(f) { init(new Buf(s)); } };
int main()
{
	limit(60);
	hogl::format_basic f("fast0"); std::string s; { O2 o(f, &s); hogl::engine e(o, eopt(1000)); hogl::area *a = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 8);
	now_ = 5900000001ULL; hogl::post(r, a, hogl::area::INFO, "one"); now_ = 6100000002ULL; hogl::post(r, a, hogl::area::INFO, "two"); r->release(); }
	printf("%s", s.c_str()); CHECK(s.find("6.100000002 ") != s.npos, "second time stamp is wrong");
	return 0;
}
'''),
seed('c20-invalid-resets', 'C20', 'a thread-local ring that could not be created, destroyed while another thread-local ring is active',
 'destroying an invalid thread-local ring puts the thread back on the default ring',
 [('src/tls.cc', '''		hogl::post(_engine->internal_area(), internal::WARN, "destroyed tls %p null-ring", this);
		return;''', '''		_ring = &default_ring;
		hogl::post(_engine->internal_area(), internal::WARN, "destroyed tls %p null-ring", this);
		return;''')],
 r'''#include "demo.hpp"
int main()
{
	limit(60);
	RecFormat f; Out o(f); hogl::engine e(o, eopt(1000)); hogl::ringbuf *taken = ring(e, "TAKEN", 8);
	{ hogl::ringbuf::options ro = hogl::ringbuf::default_options; hogl::tls a("MINE", ro, &e); CHECK(a.valid(), "tls not created");
	  hogl::ringbuf *mine = hogl::tls::ring(); { hogl::tls b("TAKEN", ro, &e); CHECK(!b.valid() && hogl::tls::ring() == mine, "clashing tls"); }
	  CHECK(hogl::tls::ring() == mine, "thread is on ring %s instead of MINE", hogl::tls::ring()->name()); }
	taken->release();
	return 0;
}
'''),
]
