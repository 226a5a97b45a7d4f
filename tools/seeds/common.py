HPP = r'''// Small recording output for demonstrations.
#pragma once
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <sstream>
#include <hogl/area.hpp>
#include <hogl/engine.hpp>
#include <hogl/flush.hpp>
#include <hogl/mask.hpp>
#include <hogl/post.hpp>
#include <hogl/ring.hpp>
#include <hogl/timesource.hpp>
#include <hogl/tls.hpp>
#include <hogl/output-null.hpp>
#include <hogl/format-basic.hpp>
#include <hogl/detail/internal.hpp>
#include <hogl/detail/ostrbuf.hpp>
#include <hogl/detail/output.hpp>
#include <hogl/detail/format.hpp>
#define CHECK(c, ...) do { if (!(c)) { printf("FAILED: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
typedef unsigned long long ull;
struct Ev { std::string ring, sect, text; uint64_t id, ts, seq, n; bool internal; };
struct RecFormat : public hogl::format {
	std::vector<Ev> ev; pthread_mutex_t m; volatile uint64_t hold, holding; // hold: id of the record to stop in front of
	RecFormat() : hold(0), holding(0) { pthread_mutex_init(&m, 0); }
	void process(hogl::ostrbuf &, const data &d)
	{
		Ev e; e.ring = d.ring_name; e.internal = !strcmp(d.record->area->name(), "HOGL"); e.sect = d.record->area->section_name(d.record->section);
		e.ts = d.record->timestamp; e.seq = d.record->seqnum; e.id = e.n = 0;
		if (e.internal && d.record->get_arg_type(0) == hogl::arg::GSTR) { e.text = (const char *) d.record->get_arg_val64(0); e.n = d.record->get_arg_val64(1); }
		else if (!e.internal) e.id = d.record->get_arg_val64(0);
		if (e.id && hold == e.id) { holding = e.id; while (hold == e.id) usleep(100); holding = 0; }
		pthread_mutex_lock(&m); ev.push_back(e); pthread_mutex_unlock(&m);
	}
	size_t count() { pthread_mutex_lock(&m); size_t n = ev.size(); pthread_mutex_unlock(&m); return n; }
};
struct RecBuf : public hogl::ostrbuf { void do_flush(const uint8_t *, size_t) { reset(); } };
struct Out : public hogl::output { Out(hogl::format &f) : hogl::output(f) { init(new RecBuf); } };
static volatile uint64_t now_ = 1000;
static hogl::timestamp clk(const hogl::timesource *) { return hogl::timestamp((uint64_t) now_); }
static hogl::timesource tclk("clk", clk);
static inline hogl::engine::options eopt(unsigned poll, unsigned tso = 4096)
{
	hogl::engine::options o = hogl::engine::default_options; o.polling_interval_usec = poll; o.tso_buffer_capacity = tso; o.timesource = &tclk; return o;
}
static inline hogl::ringbuf *ring(hogl::engine &e, const char *n, unsigned cap, unsigned flags = 0, unsigned prio = 0)
{
	hogl::ringbuf::options o = {}; o.capacity = cap; o.flags = flags; o.prio = prio; o.record_tailroom = 128; return e.add_ring(n, o);
}
// kill a demonstration that hangs
static inline void limit(unsigned s) { alarm(s); }
'''
DEMO = '''#!/bin/bash
# exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
lib=$(find _build/src/.libs -name libhogl.a | head -1)
g++ -std=c++11 -O1 -g -pthread -DHAVE_CXX11=1 -DHAVE_PTHREAD=1 -w -I include -I "$d" "$d/demo.cc" "$lib" -o "$t/demo" || exit 3
cd "$t" && ./demo
'''
def seed(id, prop, needs, breaks, edits, cc, demo=DEMO, extra={}):
    files = {'demo.cc': cc}
    if 'demo.hpp' in cc: files['demo.hpp'] = HPP
    files.update(extra)
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, files=files, demo=demo)
