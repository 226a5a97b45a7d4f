import sys; sys.path.insert(0, '/verif/tools/seeds')
from common import *
SEEDS = [
seed('c26-failed-stream', 'C26', 'dumping an engine into a stream that fails in the middle, such as a file on a full disk',
 'the reference taken to show the ring at which the stream failed is not given back, so the ring is never removed and the engine never ends',
 [('src/engine.cc', '''			s.width(4);
			s << *ring;
			ring->release();
''', '''			s.width(4);
			if (!(s << *ring))
				return s;
			ring->release();
''')],
 r'''#include "demo.hpp"
#include <ostream>
#include <algorithm>
struct Short : public std::streambuf { // takes so many characters
	int left; Short(int n) : left(n) {}
	int overflow(int c) { return left-- > 0 ? c : EOF; }
};
static bool has(hogl::engine *e, const char *n) { hogl::string_list l; e->list_rings(l); return std::find(l.begin(), l.end(), n) != l.end(); }
int main()
{
	limit(60);
	hogl::output_null o(*new hogl::format_basic("AREA")); hogl::engine *e = new hogl::engine(o, eopt(1000));
	hogl::ringbuf *r = ring(*e, "R", 64); int before = r->refcnt();
	for (int n = 0; n < 2000; n += 20) { Short b(n); std::ostream s(&b); s << *e; }
	CHECK(r->refcnt() == before, "%d references after the dumps, %d before", r->refcnt(), before);
	r->release();
	for (int i = 0; i < 50 && has(e, "R"); i++) usleep(10000);
	CHECK(!has(e, "R"), "the released ring is still there");
	delete e;
	return 0;
}
'''),
seed('c26-decimal', 'C26', 'dumping engine options into a stream that does not print numbers in decimal',
 'the stream prints in decimal afterwards',
 [('src/engine.cc', '''	std::ios_base::fmtflags fmt = s.flags();

	s << "" << "{ "
		<< "polling_interval_usec:" << opts''', '''	s << "" << "{ "
		<< "polling_interval_usec:" << opts'''),
  ('src/engine.cc', '''		<< "features:" << std::hex  << opts.features << ", "
''', '''		<< "features:" << std::hex  << opts.features << std::dec << ", "
'''),
  ('src/engine.cc', '''		<< " }"	<< std::endl;

	s.flags(fmt);

	return s;''', '''		<< " }"	<< std::endl;

	return s;''')],
 r'''#include "demo.hpp"
#include <iomanip>
int main()
{
	limit(60);
	std::ostringstream s; hogl::engine::options o = hogl::engine::default_options; o.features = 1;
	s << std::hex; s << o; s.str(""); s << 255;
	CHECK(s.str() == "ff", "a stream in hex printed 255 as %s", s.str().c_str());
	s.str(""); s << std::dec; s << o; s.str(""); s << 255;
	CHECK(s.str() == "255", "a stream in decimal printed 255 as %s", s.str().c_str());
	return 0;
}
'''),
seed('c27-coarse', 'C27', 'two posts, or a post and a reading of the clock, within a few milliseconds',
 'records carry the time of the last tick of the system clock instead of the time of the post',
 [('src/default-timesource.cc', 'clock_gettime(CLOCK_REALTIME, &ts);', 'clock_gettime(CLOCK_REALTIME_COARSE, &ts);')],
 r'''#include "demo.hpp"
#include <time.h>
static uint64_t rt() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
int main()
{
	limit(60);
	RecFormat f; Out o(f); hogl::engine::options eo = eopt(1000); eo.timesource = &hogl::realtime_timesource; hogl::engine *e = new hogl::engine(o, eo);
	hogl::area *a = e->add_area("A"); hogl::ringbuf *r = ring(*e, "R", 1024); std::vector<uint64_t> b;
	for (uint64_t i = 1; i <= 200; i++) { b.push_back(rt()); hogl::post(r, a, hogl::area::INFO, i); for (uint64_t t = rt(); rt() < t + 50000;) ; }
	r->release(); delete e;
	size_t late = 0, n = 0; for (auto &x : f.ev) if (x.id) { n++; if (x.ts < b[x.id - 1]) late++; }
	CHECK(n == 200, "%zu of 200 records", n);
	CHECK(late < 100, "%zu of 200 records carry a time before their post", late); // tolerate a clock that is set back meanwhile
	return 0;
}
'''),
seed('c27-null-default', 'C27', 'an application that defines its own default time source and asks for the default source again after another one',
 'records get the built-in realtime source instead of the application\'s',
 [('src/timesource.cc', '''		ts = &default_timesource;''', '''		ts = &realtime_timesource;''')],
 r'''#include "demo.hpp"
namespace hogl { timesource default_timesource("mine", clk); }
int main()
{
	limit(60);
	RecFormat f; Out o(f); hogl::engine::options eo = eopt(1000); eo.timesource = 0; hogl::activate(o, eo); const hogl::area *a = hogl::add_area("A");
	hogl::post(a, hogl::area::INFO, (uint64_t) 1);
	CHECK(hogl::change_timesource(&hogl::monotonic_timesource), "changing the source failed");
	hogl::post(a, hogl::area::INFO, (uint64_t) 2);
	CHECK(hogl::change_timesource(0), "changing the source failed");
	now_ = 5000; hogl::post(a, hogl::area::INFO, (uint64_t) 3);
	hogl::deactivate();
	uint64_t t1 = 0, t3 = 0; for (auto &x : f.ev) { if (x.id == 1) t1 = x.ts; if (x.id == 3) t3 = x.ts; }
	CHECK(t1 == 1000, "first record has time %llu", (ull) t1);
	CHECK(t3 == 5000, "record under the default source has time %llu", (ull) t3);
	return 0;
}
'''),
seed('c11-early-ack', 'C11', 'an output that takes a moment to write what it has buffered',
 'flush returns before the data has been written',
 [('src/engine.cc', '''		// Process special record
		switch (r->argtype) {''', '''		// Process special record
		r->ack();

		switch (r->argtype) {'''),
  ('src/engine.cc', '''		default:
			break;
		};

		r->ack();
''', '''		default:
			break;
		};
''')],
 r'''#include "demo.hpp"
#include <hogl/format-raw.hpp>
static volatile size_t written;
struct SlowBuf : public hogl::ostrbuf { SlowBuf() : hogl::ostrbuf(65536) {} void do_flush(const uint8_t *, size_t n) { size_t k = _size + n; if (k) { usleep(50000); written += k; } reset(); } };
struct SlowOut : public hogl::output { SlowOut(hogl::format &f) : hogl::output(f) { init(new SlowBuf); } };
int main()
{
	limit(60);
	hogl::format_basic f("AREA"); SlowOut o(f); hogl::engine *e = new hogl::engine(o, eopt(1000)); hogl::area *a = e->add_area("A"); hogl::ringbuf *r = ring(*e, "R", 64);
	usleep(200000);
	for (int i = 0; i < 10; i++) {
		size_t w = written; std::string s(40, 'x');
		now_++; hogl::post(r, a, hogl::area::INFO, "%s", s);
		now_++; CHECK(hogl::flush(r, 5000000), "flush timed out");
		CHECK(written >= w + 40, "flush returned with %zu bytes written after %zu", written, w);
	}
	r->release(); delete e;
	return 0;
}
'''),
seed('c06-idle-ring', 'C06', 'a writer that found its blocking ring full and goes to sleep only after the pass that empties the ring, without time ordering',
 'the writer is never woken',
 [('src/engine.cc', '''		it.reset();
		record *r;
		while ((r = it.next()))
			flush_record(i, r);
		it.commit();
		it.ring()->unblock();
''', '''		it.reset();
		record *r;
		bool progress = false;
		while ((r = it.next())) {
			flush_record(i, r);
			progress = true;
		}
		if (progress) {
			it.commit();
			it.ring()->unblock();
		}
''')],
 r'''#include "demo.hpp"
#include <dlfcn.h>
// Delays every wait for a condition or lock of the writer, so that it goes to sleep after the pass that empties the ring.
static hogl::ringbuf *r; static hogl::area *a; static volatile uint64_t done; static __thread bool slow;
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	static int (*real)(pthread_cond_t *, pthread_mutex_t *) = (int (*)(pthread_cond_t *, pthread_mutex_t *)) dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
	if (slow) usleep(200000);
	return real(c, m);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
	static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
	if (slow) usleep(200000);
	return real(m);
}
static void *writer(void *) { slow = true; for (uint64_t i = 1; i <= 12; i++) { now_++; hogl::post(r, a, hogl::area::INFO, i); done = i; } slow = false; return 0; }
int main()
{
	limit(60);
	RecFormat f; Out o(f); hogl::engine::options eo = eopt(20000); eo.features = hogl::engine::DISABLE_TSO; hogl::engine *e = new hogl::engine(o, eo);
	a = e->add_area("A"); r = ring(*e, "R", 4, hogl::ringbuf::BLOCKING);
	pthread_t t; pthread_create(&t, 0, writer, 0);
	for (int i = 0; i < 200 && done < 12; i++) usleep(100000);
	CHECK(done == 12, "writer is stuck after %llu records", (ull) done);
	pthread_join(t, 0); r->release(); delete e;
	return 0;
}
'''),
]
