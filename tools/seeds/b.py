import sys; sys.path.insert(0, '/verif/tools/seeds')
from common import *
FMT = r'''
struct StrBuf : public hogl::ostrbuf { std::string *s; StrBuf(std::string *p, size_t c = 1024) : hogl::ostrbuf(c), s(p) {} void do_flush(const uint8_t *d, size_t n) { s->append((const char *) head(), size()); reset(); if (n) s->append((const char *) d, n); } };
struct StrOut : public hogl::output { StrOut(hogl::format &f, std::string *s) : hogl::output(f) { init(new StrBuf(s)); } };
'''
SEEDS = [
seed('c06-wait-once', 'C06', 'a writer blocked on a full blocking ring while a pass of the engine keeps its records in the reorder buffer',
 'a blocked writer that is woken without any room commits its record anyway: the ring looks empty and its records are lost',
 [('include/hogl/detail/ringbuf.hpp', '		while (hogl_unlikely(_head == t)) {', '		if (hogl_unlikely(_head == t)) {')],
 r'''#include "demo.hpp"
static hogl::area *a;
static void *post2(void *p) { for (uint64_t i = 100; i < 108; i++) { __sync_fetch_and_add(&now_, 1); hogl::post((hogl::ringbuf *) p, a, hogl::area::INFO, i); } return 0; }
int main()
{
	limit(60);
	RecFormat f; { Out o(f); hogl::engine e(o, eopt(20000, 256)); // keeps 32 records back for one more pass
	a = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 4, hogl::ringbuf::BLOCKING), *s = ring(e, "S", 256);
	usleep(100000);
	// a record that is held up stops the engine while the ring fills up
	f.hold = 1; now_++; hogl::post(s, a, hogl::area::INFO, (uint64_t) 1); while (f.holding != 1) usleep(100);
	pthread_t t; pthread_create(&t, 0, post2, r); usleep(200000);
	f.hold = 0; pthread_join(t, 0); usleep(300000);
	r->release(); s->release(); }
	std::vector<uint64_t> got; for (auto &x : f.ev) if (x.id >= 100) got.push_back(x.id);
	CHECK(got.size() == 8, "%zu of 8 records of the blocking ring were output", got.size());
	for (size_t i = 0; i < 8; i++) CHECK(got[i] == 100 + i, "position %zu has record %llu", i, (ull) got[i]);
	return 0;
}
'''),
seed('c08-last-section', 'C08', 'adding an area again with a section list that differs only in its last section',
 'areas that differ in the last section are treated as the same, so the second user posts to a section of another name',
 [('src/area.cc', '	for (i=0; i < _bitmap.size(); ++i)\n		if (strcmp', '	for (i=0; i + 1 < _bitmap.size(); ++i)\n		if (strcmp')],
 r'''#include "demo.hpp"
int main()
{
	limit(60);
	RecFormat f; Out o(f); hogl::engine e(o, eopt(1000));
	const char *s1[] = { "ONE", "TWO", "THREE", 0 }, *s2[] = { "ONE", "TWO", "OTHER", 0 }, *s3[] = { "ONE", "TWO", "THREE", 0 };
	const hogl::area *a = e.add_area("X", s1); CHECK(a, "not added");
	CHECK(e.add_area("X", s3) == a, "same list of sections does not give the area");
	CHECK(!e.add_area("X", s2), "different list of sections accepted");
	return 0;
}
'''),
seed('c13-tee-else', 'C13', 'text that does not fit in what is left of the buffer of a tee output',
 'a tee drops the text that does not fit in its buffer when there is buffered text to be written first',
 [('src/ostrbuf-tee.cc', '''	// Flush un-buffered data
	if (len) {''', '''	// Flush un-buffered data
	else if (len) {''')],
 '#include "demo.hpp"\n#include <hogl/output-tee.hpp>\n' + FMT + r'''
struct F : public hogl::format { std::string want; void process(hogl::ostrbuf &s, const data &d) { unsigned l; const char *p = (const char *) d.record->get_arg_data(0, l); want.append(p, l); s.push_back(p, l); } };
int main()
{
	limit(60);
	F f; std::string x, y; { StrOut a(f, &x), b(f, &y); { hogl::output_tee t(&a, &b, 64); { hogl::engine e(t, eopt(100000)); hogl::area *ar = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 64);
	for (unsigned i = 0; i < 20; i++) { char m[64]; snprintf(m, sizeof(m), "message number %u with some text\n", i); hogl::post(r, ar, hogl::area::INFO, m); } r->release(); } t.flush(); } }
	CHECK(x == y, "the two outputs differ"); CHECK(x == f.want, "%zu bytes output, %zu expected", x.size(), f.want.size());
	return 0;
}
'''),
seed('c14-short-link', 'C14', 'reopening a rotating file given by an absolute name or in the current directory',
 'the target of the link is cut off while it is read, so the numbering restarts and the old chunks are overwritten',
 [('src/output-file.cc', '	unsigned int len = _symlink.size() + _index_width + 1;', '	unsigned int len = _symlink.size() + _index_width;')],
 r'''#include "demo.hpp"
#include <hogl/output-file.hpp>
int main()
{
	limit(60);
	hogl::format_basic f; hogl::output_file::options o = hogl::output_file::default_options;
	for (unsigned i = 0; i < 3; i++) { hogl::output_file of("log.#.txt", f, o); CHECK(of.index() == i, "run %u writes chunk %u", i, of.index()); }
	return 0;
}
'''),
seed('c14-stale-tail', 'C14', 'the index of the chunks wraps around and a chunk that already has data is opened again',
 'a chunk that is used again keeps its old contents',
 [('src/output-file.cc', '''	// Open a new chunk
	int nfd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);''', '''	// Open a new chunk
	int nfd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND, _mode);''')],
 r'''#include "demo.hpp"
#include <hogl/output-file.hpp>
#include <fstream>
int main()
{
	limit(60);
	hogl::format_basic f("fast0"); hogl::output_file::options o = hogl::output_file::default_options; o.max_size = 400; o.max_count = 2; o.buffer_capacity = 64;
	{ hogl::output_file of("log.#.txt", f, o); hogl::engine e(of, eopt(1000)); hogl::area *a = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 1024);
	for (unsigned i = 0; i < 12; i++) { unsigned was = of.index(); for (unsigned j = 0; j < 14; j++) { now_++; char m[64]; snprintf(m, sizeof(m), "round %02u message %02u", i, j); hogl::post(r, a, hogl::area::INFO, m); }
		for (unsigned w = 0; of.index() == was && w < 2000; w++) usleep(1000); usleep(20000); }
	r->release(); }
	for (unsigned c = 0; c < 2; c++) { std::ifstream in("log." + std::to_string(c) + ".txt"); std::string l; bool old = false; while (std::getline(in, l)) if (l.find("round 00") != l.npos || l.find("round 01") != l.npos) old = true;
		CHECK(!old, "chunk %u still has the records of its first use", c); }
	return 0;
}
'''),
seed('c15-name-limit', 'C15', 'a ring, area or section name of exactly 128 characters',
 'the cook tool rejects a log with a name of exactly 128 characters, which it accepted before',
 [('tools/raw-parser.cc', 'if (n >= 2 && n <= 128) return true;', 'if (n >= 2 && n < 128) return true;')],
 '#include "demo.hpp"\n#include <hogl/format-raw.hpp>\n#include <hogl/output-plainfile.hpp>\n' + r'''
int main()
{
	limit(60);
	hogl::format_raw f; { hogl::output_plainfile o("raw", f); hogl::engine e(o, eopt(1000)); std::string n(128, 'N'); hogl::area *a = e.add_area(n.c_str()); hogl::ringbuf *r = ring(e, "RING", 8);
	for (unsigned i = 0; i < 6; i++) { now_++; hogl::post(r, a, hogl::area::INFO, "message %u", i); } r->release(); }
	return 0;
}
''', demo='''#!/bin/bash
# exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT; repo=$PWD
lib=$(find _build/src/.libs -name libhogl.a | head -1)
g++ -std=c++11 -O1 -g -pthread -DHAVE_CXX11=1 -DHAVE_PTHREAD=1 -w -I include -I "$d" "$d/demo.cc" "$lib" -o "$t/demo" || exit 3
cd "$t" && ./demo || exit 1
LD_LIBRARY_PATH="$repo/_build/src/.libs" timeout 60 "$repo/_build/tools/hogl-cook" "$t/raw" > "$t/txt" || { echo "hogl-cook failed"; exit 1; }
n=$(grep -c 'message [0-5]$' "$t/txt")
[ "$n" = 6 ] || { echo "$n of 6 records converted"; exit 1; }
'''),
seed('c18-thirteenth', 'C18', 'a C caller that posts exactly thirteen arguments',
 'the last of thirteen arguments is replaced by the one before it',
 [('src/c-api.cc', '			arg[8], arg[9], arg[10], arg[11], arg[12]);', '			arg[8], arg[9], arg[10], arg[11], arg[11]);')],
 r'''#include "demo.hpp"
#include <hogl/engine.hpp>
#include <hogl/c-api/args.h>
extern "C" void __hogl_post_13(void *area, unsigned int sect, struct hogl_arg *arg);
struct F : public hogl::format { uint64_t v[16]; bool got; F() : got(false) {} void process(hogl::ostrbuf &, const data &d) { if (!strcmp(d.record->area->name(), "HOGL")) return; for (unsigned i = 0; i < 13; i++) v[i] = d.record->get_arg_val64(i); got = true; } };
int main()
{
	limit(60);
	F f; { Out o(f); hogl::activate(o, eopt(1000)); const hogl::area *a = hogl::add_area("A"); struct hogl_arg arg[16]; memset(arg, 0, sizeof(arg));
	for (unsigned i = 0; i < 13; i++) { hogl::arg x((uint64_t) 1000 + i); memcpy(&arg[i], &x, sizeof(x)); }
	__hogl_post_13((void *) a, hogl::area::INFO, arg); hogl::deactivate(); }
	CHECK(f.got, "not output"); for (unsigned i = 0; i < 13; i++) CHECK(f.v[i] == 1000 + i, "argument %u is %llu", i, (ull) f.v[i]);
	return 0;
}
'''),
seed('c19-first-invalid-cpu', 'C19', 'a list with the first CPU number that is out of range',
 'a list with CPU 256 is accepted, and the CPU is silently left out',
 [('src/schedparam.cc', '		if (b >= mask.ncpus) return ERANGE;', '		if (b > mask.ncpus) return ERANGE;')],
 r'''#include "demo.hpp"
#include <hogl/platform.hpp>
static bool ok(const char *s) { hogl::schedparam p(0, 0, 0, s); return p.validate(); }
int main()
{
	limit(60);
	CHECK(ok("list:0"), "0"); CHECK(ok("list:0-255"), "0-255"); CHECK(!ok("list:256"), "list:256 accepted"); CHECK(!ok("list:3,250-256"), "list:3,250-256 accepted"); CHECK(!ok("list:257"), "257");
	return 0;
}
'''),
seed('c21-reset-keeps-drops', 'C21', 'a ring that dropped records and is reset',
 'the drop count survives a reset of the ring',
 [('src/ringbuf.cc', '	_seqnum   = 0;\n	_dropcnt  = 0;\n	_next_seqnum = 0;\n	unlock();', '	_seqnum   = 0;\n	_next_seqnum = 0;\n	unlock();')],
 r'''#include "demo.hpp"
int main()
{
	limit(60);
	hogl::ringbuf::options o = {}; o.capacity = 4; hogl::ringbuf *r = (new hogl::ringbuf("R", o))->hold();
	for (unsigned i = 0; i < 7; i++) { r->push_begin()->seqnum = r->inc_seqnum(); r->push_commit(); }
	CHECK(r->dropcnt() == 4 && r->size() == 3, "dropped %llu", (ull) r->dropcnt());
	r->reset(); CHECK(r->empty() && r->size() == 0 && r->seqnum() == 0, "not empty"); CHECK(r->dropcnt() == 0, "%llu drops after reset", (ull) r->dropcnt());
	r->release();
	return 0;
}
'''),
seed('c22-truncate-alloc', 'C22', 'a string that is longer than the room in the record',
 'the writer allocates memory whenever a string has to be truncated',
 [('include/hogl/detail/record.hpp', '		uint8_t *dst = (uint8_t *) this->argval + offset;\n		unsigned int n = len; // Copy len', '		uint8_t *dst = (uint8_t *) this->argval + offset;\n		std::string tmp;\n		unsigned int n = len; // Copy len'),
  ('include/hogl/detail/record.hpp', '			n = len = room;\n			if (n > 3) {\n				n -= 3;\n				memcpy(dst + n, ">>>", 3);\n			}\n		}', '			n = len = room;\n			tmp.assign((const char *) str, n);\n			if (n > 3)\n				tmp.replace(n - 3, 3, ">>>");\n			str = (const uint8_t *) tmp.data();\n		}')],
 r'''#include "demo.hpp"
#include <dlfcn.h>
static __thread bool counting; static __thread unsigned count;
extern "C" void *__libc_malloc(size_t); extern "C" void *malloc(size_t n) { if (counting) count++; return __libc_malloc(n); }
int main()
{
	limit(60);
	RecFormat f; { Out o(f); hogl::engine e(o, eopt(1000)); hogl::area *a = e.add_area("A"); hogl::ringbuf *r = ring(e, "R", 64);
	char big[1000]; memset(big, 'x', sizeof(big)); big[999] = 0; hogl::post(r, a, hogl::area::INFO, "short"); counting = true; hogl::post(r, a, hogl::area::INFO, "short"); hogl::post(r, a, hogl::area::INFO, "%s", big); counting = false; r->release(); }
	CHECK(!count, "%u allocations while posting", count);
	return 0;
}
'''),
seed('c23-thread-field', 'C23', 'a trace of a log that has both time deltas and ring names',
 'with time deltas the thread of an event is taken from the wrong field',
 [('tools/hogl-trace', "        event['tid']  = evt[2].split(':')[0]", "        event['tid']  = evt[1].split(':')[0]")],
 'int main() { return 0; }\n', demo='''#!/bin/bash
# exit 0 when the property holds
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo '00000028363.625193560 (197) TID-7:2749 AREA:TRACE cat name PID' > "$t/log"
python3 tools/hogl-trace -o "$t/out" "$t/log" || exit 1
python3 - "$t/out" <<'E' || exit 1
import json, sys
e = json.load(open(sys.argv[1]))['traceEvents']
assert len(e) == 1 and e[0]['tid'] == 'TID-7' and e[0]['pid'] == 'PID', e
E
'''),
seed('c17-ceiling-ring', 'C17', 'a pending record in a ring of the highest priority',
 'the recovery tool takes a ring of the highest priority for a damaged one and leaves its records out',
 [('tools/recovery-engine.cc', '		if (r->prio() > r->PRIORITY_CEILING)', '		if (r->prio() >= r->PRIORITY_CEILING)')],
 r'''#include "demo.hpp"
#include <sys/resource.h>
int main()
{
	limit(60);
	RecFormat f; Out o(f); hogl::engine e(o, eopt(30000000)); hogl::area *a = e.add_area("A"); usleep(200000);
	hogl::ringbuf *r = ring(e, "CEIL", 16, 0, 9999), *s = ring(e, "LOW", 16, 0, 5);
	for (unsigned i = 0; i < 5; i++) { char m[32]; now_++; snprintf(m, sizeof(m), "ceiling %u", i); hogl::post(r, a, hogl::area::INFO, m); now_++; snprintf(m, sizeof(m), "low %u", i); hogl::post(s, a, hogl::area::INFO, m); }
	fflush(0); pause(); return 0;
}
''', demo='''#!/bin/bash
# exit 0 when the property holds. The core dump is written by gdb.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT; repo=$PWD
lib=$(find _build/src/.libs -name libhogl.a | head -1)
g++ -std=c++11 -O1 -g -pthread -DHAVE_CXX11=1 -DHAVE_PTHREAD=1 -w -I include -I "$d" "$d/demo.cc" "$lib" -o "$t/demo" || exit 3
cd "$t" && timeout 60 gdb -q -batch -ex 'set debuginfod enabled off' -ex 'handle SIGALRM stop nopass' -ex 'break pause' -ex run -ex "generate-core-file $t/core" -ex kill ./demo > "$t/gdb" 2>&1
[ -s "$t/core" ] || { cat "$t/gdb"; exit 3; }
LD_LIBRARY_PATH="$repo/_build/src/.libs" timeout 60 "$repo/_build/tools/hogl-recover" "$t/core" > "$t/txt" 2> "$t/err"
c=$(grep -ac 'ceiling [0-4]$' "$t/txt"); l=$(grep -ac 'low [0-4]$' "$t/txt")
[ "$c $l" = "5 5" ] || { echo "$c and $l of 5 records recovered"; cat "$t/err" | head; exit 1; }
'''),
]
