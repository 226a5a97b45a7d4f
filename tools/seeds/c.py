import sys; sys.path.insert(0, '/verif/tools/seeds')
from common import *
SEEDS = [
seed('c10-quiet-pass', 'C10', 'a thread that still holds a ring and posts while the engine is being destroyed, after a pass of the engine that found nothing',
 'the engine stops at the first quiet pass instead of waiting for the rings in use, so what is posted to them afterwards is lost',
 [('src/engine.cc', '''	while (1) {
		process_rings();

		// We can exit once we have no rings in the index
		if (!_ring_index.dirty && !_ring_index.count)
			break;
''', '''	while (1) {
		uint64_t n = _stats.recs_out;
		process_rings();

		// We can exit once we have no rings in the index or nothing is left in them
		if (!_ring_index.dirty && (!_ring_index.count || (n == _stats.recs_out && ((_opts.features & DISABLE_TSO) || !_tso_leftover))))
			break;
''')],
 r'''#include "demo.hpp"
static hogl::ringbuf *r; static hogl::area *a;
static void *writer(void *) { for (uint64_t i = 1; i <= 20; i++) { now_++; hogl::post(r, a, hogl::area::INFO, i); usleep(20000); } r->release(); return 0; }
int main()
{
	limit(60);
	RecFormat f; Out o(f); hogl::engine *e = new hogl::engine(o, eopt(1000)); a = e->add_area("A"); r = ring(*e, "R", 64);
	pthread_t t; pthread_create(&t, 0, writer, 0); usleep(50000);
	delete e; // waits until the writer has released the ring
	size_t n = 0; for (auto &x : f.ev) if (x.id) n++;
	CHECK(n == 20, "%zu of 20 records were output", n);
	pthread_join(t, 0);
	return 0;
}
'''),
seed('c24-leaked-output', 'C24', 'an output object that is never deleted in a program that returns from main without deactivating',
 'what the engine drains at the end stays in the buffer of the output',
 [('src/engine.cc', '''	// Flush output buffers
	_output.flush();
}

void engine::drain_rings''', '''	// Flush output buffers.
	// The output flushes what is left when it is deleted.
	if (!_killed)
		_output.flush();
}

void engine::drain_rings''')],
 r'''#include "demo.hpp"
#include <hogl/output-plainfile.hpp>
#include <sys/wait.h>
int main()
{
	limit(60);
	fflush(0);
	pid_t p = fork();
	if (!p) {
		hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = 200000;
		hogl::activate(*new hogl::output_plainfile("log", *new hogl::format_basic("AREA")), eo); const hogl::area *a = hogl::add_area("A");
		usleep(50000); for (int i = 0; i < 20; i++) hogl::post(a, hogl::area::INFO, "message %d", i);
		exit(0);
	}
	waitpid(p, 0, 0);
	FILE *f = fopen("log", "r"); CHECK(f, "no log"); char b[256]; int n = 0; while (fgets(b, sizeof(b), f)) if (strstr(b, "message")) n++;
	CHECK(n == 20, "%d of 20 messages in the log", n);
	return 0;
}
'''),
seed('c25-shared-again', 'C25', 'adding a shared ring by name and options when it exists already',
 'every further user of a shared ring leaves a ring behind that nobody uses',
 [('src/engine.cc', '''	nr->release();

	ringbuf *r = s.first->second;

	// Shared rings can be reused of course.
	if (r->shared())
		return r;
''', '''	ringbuf *r = s.first->second;

	// Shared rings can be reused of course.
	if (r->shared())
		return r;

	nr->release();
''')],
 r'''#include "demo.hpp"
#include <malloc.h>
int main()
{
	limit(60);
	RecFormat f; Out o(f); hogl::engine e(o, eopt(1000)); hogl::ringbuf *r = ring(e, "R", 64, hogl::ringbuf::SHARED); size_t start = 0;
	for (unsigned i = 0; i < 300; i++) {
		if (i == 100) start = mallinfo2().uordblks + mallinfo2().hblkhd;
		hogl::ringbuf *x = ring(e, "R", 64, hogl::ringbuf::SHARED); CHECK(x == r, "another ring"); x->release();
	}
	size_t end = mallinfo2().uordblks + mallinfo2().hblkhd; r->release();
	CHECK(end < start + 100000, "%zu bytes more in use after 200 times", end - start);
	return 0;
}
'''),
seed('c25-failed-rotation', 'C25', 'a new chunk of a log file whose header cannot be written, for instance on a full disk',
 'every attempt to rotate leaves a file descriptor behind',
 [('src/output-file.cc', '''		// Failed to write. Retry later.
		close(nfd);
''', '''		// Failed to write. Retry later.
''')],
 r'''#include "demo.hpp"
#include <dirent.h>
#include <hogl/output-file.hpp>
struct Head : hogl::format_basic { void header(hogl::ostrbuf &b, const char *, bool) { b.push_back("--- start\n"); } };
static unsigned fds() { unsigned n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
int main()
{
	limit(60);
	Head f; if (symlink("/dev/full", "log.1")) return 3; // no room for the second chunk
	hogl::output_file::options oo = hogl::output_file::default_options; oo.max_size = 200; oo.max_count = 4;
	{ hogl::output_file o("log", f, oo); hogl::engine e(o, eopt(1000)); hogl::area *a = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 64);
	unsigned n = fds();
	for (unsigned i = 0; i < 100; i++) { now_++; hogl::post(r, a, hogl::area::INFO, "some text that fills up the file"); usleep(5000); }
	unsigned m = fds(); r->release();
	CHECK(m < n + 10, "%u descriptors more are open", m - n); }
	return 0;
}
'''),
seed('c16-exactly-enough', 'C16', 'a log damaged behind exactly as many sound records as the minimum number of valid ones',
 'the sound records are printed several times, from the second on',
 [('tools/cook.cc', 'nrecs >= min_valid_recs', 'nrecs > min_valid_recs')],
 r'''#include "demo.hpp"
#include <hogl/format-raw.hpp>
#include <hogl/output-plainfile.hpp>
int main()
{
	limit(60);
	hogl::format_raw f; hogl::output_plainfile o("raw", f); hogl::engine e(o, eopt(1000)); hogl::area *a = e.add_area("AREA"); hogl::ringbuf *r = ring(e, "RING", 64);
	for (unsigned i = 0; i < 4; i++) { now_++; hogl::post(r, a, hogl::area::INFO, "message %u", i); }
	r->release();
	return 0;
}
''', demo=DEMO.replace('cd "$t" && ./demo\n', '''repo=$PWD; cd "$t" && ./demo || exit 3
head -c 200 /dev/zero >> raw
LD_LIBRARY_PATH="$repo/_build/src/.libs" timeout 60 "$repo/_build/tools/hogl-cook" raw > txt 2> err
n=$(grep -ac 'message [0-3]$' txt); [ "$n" = 4 ] || { echo "$n messages instead of 4"; cat txt | head -20; exit 1; }
''')),
]
