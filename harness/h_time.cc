// C27: a record is stamped with the time of its post, by the clock that is in use; timestamps are exact.
// Built five times (plain and own default also with the library as a shared object, SHARED_LIB): as it is, with a default time source of the application's own (OWN_DEFAULT), and with
// the seconds/nanoseconds representation of timestamps (HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT).
#include "hoglsim.hpp"
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <hogl/output-stdout.hpp>
#include <hogl/engine.hpp>
#include <hogl/format-basic.hpp>
using namespace sim;
#if defined(OWN_DEFAULT) && defined(SHARED_LIB)
#define V "own-default-shared"
#elif defined(SHARED_LIB)
#define V "shared"
#elif defined(OWN_DEFAULT)
#define V "own-default"
#elif defined(HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT)
#define V "timespec"
#else
#define V "plain"
#endif
#ifdef HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT
static const uint64_t MAXSEC = 0xffffffffull; // 32 bits of seconds
#else
static const uint64_t MAXSEC = 18446744072ull;
#endif
static const uint64_t S = 1000000000ull;

// ---------------------------------------------------------------- the machine's clocks, as a posting thread sees them
static __thread bool t_fake; static uint64_t f_real, f_mono, f_step; static unsigned f_calls[2];
static bool monotonic_id(clockid_t c) { return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME; }
extern "C" int clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!t_fake) return syscall(SYS_clock_gettime, c, ts);
	bool m = monotonic_id(c); if (!m && c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) return syscall(SYS_clock_gettime, c, ts); // CPU time and the like
	uint64_t &v = m ? f_mono : f_real; v += f_step; f_calls[m]++;
	ts->tv_sec = v / S; ts->tv_nsec = v % S; return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *)
{
	struct timespec ts; int e = clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return e;
}
// a source with state of its own
struct Own : public hogl::timesource {
	uint64_t now, step; mutable unsigned calls; unsigned id;
	static hogl::timestamp cb(const hogl::timesource *t) { Own *o = (Own *) t; o->calls++; o->now += o->step; return hogl::timestamp(o->now); }
	Own(const char *n, unsigned i) : hogl::timesource(n, cb), now(0), step(1), calls(0), id(i) {}
};
#ifdef OWN_DEFAULT
static uint64_t d_now; static hogl::timestamp d_cb(const hogl::timesource *) { return hogl::timestamp(d_now); }
namespace hogl { timesource default_timesource("the application's", d_cb); }
#endif

static uint64_t gen_time(Src &s, uint64_t maxsec = MAXSEC - 2)
{
	uint64_t sec; switch (s.bits(6)) { case 0: sec = s.bits(5); break; case 1: sec = 1ull << s.bits(35); break; case 2: sec = 0x7fffffff + s.irange(-2, 2); break; case 3: sec = 0xffffffffull + s.irange(-3, 2); break; case 4: sec = 1700000000 + s.bits(100000); break; default: sec = s.u64() % (maxsec + 1); }
	if (sec > maxsec) sec %= maxsec + 1;
	uint64_t ns = s.pick({(uint64_t) 0, (uint64_t) 1, (uint64_t) 999999999, (uint64_t) 500000000, (uint64_t) s.bits(1000000000), (uint64_t) s.bits(1000)}); return sec * S + ns;
}
struct Text : public hogl::ostrbuf { std::string t; Text() : hogl::ostrbuf(0) {} void do_flush(const uint8_t *d, size_t n) { t.append((const char *) d, n); } };

// ---------------------------------------------------------------- stamps
static void stamps(Src &s)
{
	Own own[2] = { Own("own 0", 0), Own("own 1", 1) }; hogl::area a("A"); a.enable(); hogl::timesource copy(hogl::monotonic_timesource);
	unsigned nr = s.range(1, 3), n = s.range(1, 40), changes = 0; uint64_t h = 1; std::vector<hogl::ringbuf *> r; std::vector<int> src; hogl::format_basic txt("timespec"); Text sb; std::string all;
	for (unsigned i = 0; i < nr; i++) { hogl::ringbuf::options ro = {}; ro.capacity = 4; ro.flags = s.flip() ? hogl::ringbuf::SHARED : 0; r.push_back(new hogl::ringbuf("r", ro)); r[i]->hold(); src.push_back(0); }
	f_real = gen_time(s, MAXSEC / 2); f_mono = gen_time(s, MAXSEC / 4);
	for (unsigned i = 0; i < n; i++) {
		unsigned k = s.bits(nr); hogl::ringbuf *q = r[k];
		if (s.chance(1, 3)) { // 0: the default one
			src[k] = s.bits(6); hogl::timesource *t = src[k] == 0 ? &hogl::default_timesource : src[k] == 1 ? &hogl::realtime_timesource : src[k] == 2 ? &hogl::monotonic_timesource : src[k] == 3 ? &copy : &own[src[k] - 4]; q->timesource(t); changes++; PBT_ASSERT(q->timesource() == t, "time source of the ring"); note("ring %u: source %s", k, t->name());
		}
		f_step = s.pick({(uint64_t) 1, (uint64_t) s.bits(1000) + 1, (uint64_t) s.bits(3000000000u) + 1}); if (s.chance(1, 6)) f_real = gen_time(s, MAXSEC / 2); if (s.chance(1, 6)) f_mono = gen_time(s, MAXSEC / 4);
		for (auto &o : own) { if (s.chance(1, 4)) o.now = gen_time(s, MAXSEC / 2); o.step = s.bits(2000); o.calls = 0; }
		uint64_t lo, hi, d = 0; (void) d; int c = src[k]; unsigned calls = f_calls[0] + f_calls[1];
#ifdef OWN_DEFAULT
		d_now = gen_time(s); if (c == 0) c = 9;
#endif
		lo = c == 9 ?
#ifdef OWN_DEFAULT
			d_now
#else
			0
#endif
			: c <= 1 ? f_real : c <= 3 ? f_mono : own[c - 4].now;
		unsigned how = s.bits(3); t_fake = true; if (how == 0) hogl::post(q, &a, 0u, i); else if (how == 1) hogl::post_unlocked(q, &a, 0u, i); else hogl::flush(q, 0); t_fake = false;
		hi = c == 9 ? lo : c <= 1 ? f_real : c <= 3 ? f_mono : own[c - 4].now;
		hogl::record *rec = q->pop_begin(); PBT_ASSERT(rec, "nothing in the ring"); uint64_t ts = rec->timestamp;
		PBT_ASSERT(ts >= lo && ts <= hi, "record %u of ring %u (source %s) is stamped %llu, posted between %llu and %llu", i, k, q->timesource()->name(), (ull) ts, (ull) lo, (ull) hi);
		if (c >= 4 && c < 9) PBT_ASSERT(own[c - 4].calls && !own[5 - c].calls, "source %u asked %u times, the other one %u times", c - 4, own[c - 4].calls, own[5 - c].calls);
		if (c >= 1 && c <= 3) { PBT_ASSERT(f_calls[0] + f_calls[1] > calls, "the clock was not read"); PBT_ASSERT(ts > lo, "stamped with a time before the post"); }
		struct timespec t; rec->timestamp.to_timespec(t); PBT_ASSERT((uint64_t) t.tv_sec == ts / S && (uint64_t) t.tv_nsec == ts % S, "%llu is %lld s and %ld ns", (ull) ts, (long long) t.tv_sec, t.tv_nsec);
		hogl::format::data fd; memset(&fd, 0, sizeof(fd)); fd.ring_name = "r"; fd.record = rec; if (how < 2) { txt.process(sb, fd); sb.flush(); all += strf("%011llu.%09llu %u\n", (ull) (ts / S), (ull) (ts % S), i); PBT_ASSERT(sb.t == all, "shown as %s instead of %s", show(sb.t.substr(std::min(sb.t.size(), all.size() - 20))).c_str(), show(all.substr(all.size() - 20)).c_str()); }
		q->pop_commit(); h = hash_add(h, ts);
	}
	for (auto q : r) q->release(); ops(n); if (changes) nontrivial(h);
}
PBT_SUITE("C27", "stamps-" V, stamps, false, false, 20000, 500000, 10, 100, 10000, 0,
	"posts by rings with built-in, copied, default and custom time sources under generated clock readings; the stamp must lie between the readings before and after the post; non-trivial: a time source was changed");

// ---------------------------------------------------------------- engine: which source, real clocks
static uint64_t real_now(clockid_t c) { struct timespec t; syscall(SYS_clock_gettime, c, &t); return t.tv_sec * S + t.tv_nsec; }
static void engines(Src &s)
{
	RecFormat fmt; Out *out = new Out(fmt, 0); Own own("own", 0); own.now = s.bits(1000) + 5; own.step = 3; hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = s.pick({0u, 100u, 1000u}); eo.default_mask = hogl::mask(".*:INFO", "!HOGL:.*", 0); if (s.chance(1, 4)) eo.features = hogl::engine::DISABLE_TSO;
	hogl::timesource *S_[] = { 0, &hogl::realtime_timesource, &hogl::monotonic_timesource, &own, &hogl::default_timesource }; int cur = s.bits(5); eo.timesource = S_[cur];
	hogl::engine *e = new hogl::engine(*out, eo); fmt.eng = e; const hogl::area *a = e->add_area("A"); std::vector<hogl::ringbuf *> r; struct P { int src; uint64_t lo, hi; }; std::map<uint64_t, P> posted; uint64_t id = 1; unsigned n = s.range(2, 40), changed = 0;
	for (unsigned i = 0; i < n; i++) {
		if (r.empty() || (r.size() < 4 && s.chance(1, 6))) {
			hogl::ringbuf::options ro = {}; ro.capacity = 64; ro.record_tailroom = 80; ro.flags = hogl::ringbuf::BLOCKING; std::string nm = strf("r%zu", r.size()); hogl::ringbuf *q; if (s.flip()) q = e->add_ring(nm.c_str(), ro); else { q = new hogl::ringbuf(nm.c_str(), ro); q->hold(); q->timesource(&own); PBT_ASSERT(e->add_ring(q), "add_ring"); } r.push_back(q);
			hogl::timesource *w = S_[cur] ? S_[cur] : &hogl::default_timesource; PBT_ASSERT(q->timesource() == w, "new ring has time source %s, the engine has %s", q->timesource()->name(), w->name()); note("ring");
		}
		hogl::ringbuf *q = r[s.bits(r.size())];
		if (s.chance(1, 5)) { int to = 1 + s.bits(4); note("source %s", S_[to]->name()); PBT_ASSERT(hogl::change_timesource(q, S_[to]), "change not acknowledged"); if (to != cur) changed++; cur = to; for (auto x : r) PBT_ASSERT(x->timesource() == S_[to], "after a change to %s a ring has %s", S_[to]->name(), x->timesource()->name()); continue; }
		int k = cur; uint64_t lo, hi; clockid_t c = k == 2 ? CLOCK_MONOTONIC : CLOCK_REALTIME; bool o = k == 3;
#ifdef OWN_DEFAULT
		if (k == 0 || k == 4) { d_now += s.bits(50) + 1; lo = hi = d_now; hogl::post(q, a, 0u, id, ~id); } else
#endif
		{ lo = o ? own.now : real_now(c); hogl::post(q, a, 0u, id, ~id); hi = o ? own.now : real_now(c); }
		posted[id++] = P{ k, lo, hi };
	}
	for (auto q : r) q->release(); delete e; uint64_t h = 3;
	for (auto &v : fmt.out) { if (v.internal) continue; auto p = posted.find(v.id); PBT_ASSERT(p != posted.end(), "record %llu was never posted", (ull) v.id); PBT_ASSERT(v.ts >= p->second.lo && v.ts <= p->second.hi, "record %llu (source %d) is stamped %llu, posted between %llu and %llu", (ull) v.id, p->second.src, (ull) v.ts, (ull) p->second.lo, (ull) p->second.hi); h = hash_add(h, p->second.src); posted.erase(p); }
	PBT_ASSERT(posted.empty(), "%zu records missing", posted.size()); delete out; ops(n); if (changed) nontrivial(hash_add(h, n));
}
PBT_SUITE("C27", "engine-" V, engines, true, true, 1500, 40000, 12, 120, 15000, 0,
	"engines started with, and changed to, built-in, default and custom time sources on the real clocks; non-trivial: the source was changed");

// ---------------------------------------------------------------- order of the output for any times
static void merged(Src &s)
{
	sim::Options o; o.tso = true; o.tsocap = 4096; o.dropmark = false; o.poll = 100; o.bufcap = 0; World w(o); unsigned nr = s.range(2, 5), total = 0; uint64_t base = gen_time(s, MAXSEC / 2);
	for (unsigned i = 0; i < nr; i++) { hogl::ringbuf::options ro = {}; ro.capacity = 64; ro.prio = s.bits(3); ro.record_tailroom = 80; w.new_ring(ro, true); uint64_t t = base + s.bits(3) * S / 2; unsigned n = s.range(1, 30); for (unsigned j = 0; j < n; j++) { t += 1 + s.pick({(uint64_t) 0, (uint64_t) s.bits(1000), (uint64_t) s.bits(S), S - 1, S, 2 * S + 7, S - t % S, S - 1 - t % S}); w.post(w.rings.back(), t); total++; } }
	for (auto &x : w.rings) w.attach(x);
	w.drain(); w.finish(); { std::vector<Ev> e; for (auto &v : w.ev) if (!v.internal) e.push_back(v); w.ev = e; } check_exactly_once(w);
	if (!w.degraded) for (size_t i = 1; i < w.ev.size(); i++) PBT_ASSERT(w.ev[i].ts >= w.ev[i - 1].ts, "record of time %llu.%09llu comes after one of %llu.%09llu", (ull) (w.ev[i].ts / S), (ull) (w.ev[i].ts % S), (ull) (w.ev[i - 1].ts / S), (ull) (w.ev[i - 1].ts % S));
	ops(total); if (total > 4) nontrivial(hash_add(base, total));
}
PBT_SUITE("C27", "merged-" V, merged, false, false, 2000, 60000, 10, 100, 15000, 0,
	"rings filled with records around second boundaries and registered while the engine is held: the output is in time order; non-trivial: more than four records");

// ---------------------------------------------------------------- arithmetic
static void arith(Src &s)
{
	unsigned n = s.range(1, 30); uint64_t v = gen_time(s), h = v; hogl::timestamp t(v); std::vector<std::pair<uint64_t, hogl::timestamp> > all; uint64_t MAX = MAXSEC * S + S - 1;
	auto same = [&](const char *what) { PBT_ASSERT((uint64_t) t == v && t.to_nsec() == v, "%s: %llu instead of %llu", what, (ull) t.to_nsec(), (ull) v); struct timespec x; t.to_timespec(x); PBT_ASSERT((uint64_t) x.tv_sec == v / S && (uint64_t) x.tv_nsec == v % S, "%s: timespec %lld.%09ld of %llu", what, (long long) x.tv_sec, x.tv_nsec, (ull) v); PBT_ASSERT(t.to_usec() == v / 1000 && t.to_msec() == v / 1000000 && t.to_sec() == v / S, "%s: us/ms/s of %llu are %llu %llu %llu", what, (ull) v, (ull) t.to_usec(), (ull) t.to_msec(), (ull) t.to_sec()); };
	same("start");
	for (unsigned i = 0; i < n; i++) {
		uint64_t d = s.pick({(uint64_t) 0, (uint64_t) 1, (uint64_t) s.bits(2000), S - 1, S, (uint64_t) s.bits(5000000000ull), s.u64() % (MAX / 2)}); int k = s.pick({0, 1, -1, (int) s.irange(-1000000000, 1000000000), 2147483647, -2147483647 - 1}); bool up = d <= MAX - v, dn = d <= v, kup = k >= 0 ? (uint64_t) k <= MAX - v : (uint64_t) -(int64_t) k <= v, kdn = k >= 0 ? (uint64_t) k <= v : (uint64_t) -(int64_t) k <= MAX - v;
		switch (s.bits(16)) {
		case 0: v = gen_time(s); t.from_nsec(v); same("from_nsec"); break;
		case 1: v = gen_time(s) / 1000 * 1000; t.from_usec(v / 1000); same("from_usec"); break;
		case 2: v = gen_time(s) / 1000000 * 1000000; t.from_msec(v / 1000000); same("from_msec"); break;
		case 3: v = gen_time(s) / S * S; t.from_sec(v / S); same("from_sec"); break;
		case 4: { v = gen_time(s); struct timespec x = { (time_t) (v / S), (long) (v % S) }; if (s.flip()) t.from_timespec(x); else t = hogl::timestamp(x); same("from timespec"); break; }
		case 5: if (v < MAX) { v++; hogl::timestamp &q = ++t; PBT_ASSERT(&q == &t, "++"); same("++"); } break;
		case 6: if (v > 1) { v--; --t; same("--"); } break;
		case 7: if (up) { t += d; v += d; same("+= 64 bit"); } break;
		case 8: if (kup) { t += k; v += (int64_t) k; same("+= int"); } break;
		case 9: if (up) { t = t + d; v += d; same("+ 64 bit"); } break;
		case 10: if (kup) { t = t + k; v += (int64_t) k; same("+ int"); } break;
		case 11: if (dn) { t = t - d; v -= d; same("- 64 bit"); } break;
		case 12: if (kdn) { t = t - k; v -= (int64_t) k; same("- int"); } break;
		case 13: if (up) { t = t + hogl::timestamp(d); v += d; same("+ timestamp"); } break;
		case 14: if (dn) { t = t - hogl::timestamp(d); v -= d; same("- timestamp"); } break;
		default: { hogl::timestamp c(t); t = c; same("copy"); }
		}
		all.push_back(std::make_pair(v, t)); if (s.chance(1, 4)) all.push_back(std::make_pair(v ^ 0, hogl::timestamp(v))); h = hash_add(h, v);
	}
	for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < all.size(); j++) { auto &x = all[i], &y = all[j]; PBT_ASSERT((x.second < y.second) == (x.first < y.first) && (x.second > y.second) == (x.first > y.first) && (x.second == y.second) == (x.first == y.first), "comparison of %llu and %llu", (ull) x.first, (ull) y.first); }
	ops(n); nontrivial(h);
}
PBT_SUITE("C27", "arithmetic-" V, arith, false, false, 60000, 2000000, 8, 100, 10000, 0,
	"conversions, sums, differences and comparisons of timestamps against integer arithmetic; every case counts");

// ---------------------------------------------------------------- a process that ends
static void ends(Src &s)
{
	unsigned n = s.bits(30), how = s.bits(3); bool off = s.flip(); int fd[2]; if (pipe(fd)) throw Discard(); fflush(0); pid_t c = fork();
	if (!c) {
		dup2(fd[1], 1); close(fd[0]); close(fd[1]); static hogl::format_basic f("timespec"); static hogl::output_stdout o(f); hogl::engine::options eo = hogl::engine::default_options; eo.default_mask = hogl::mask("A:.*", 0); hogl::activate(o, eo); const hogl::area *a = hogl::add_area("A");
		if (how == 1) hogl::change_timesource(&hogl::realtime_timesource), hogl::change_timesource((hogl::timesource *) 0);
#ifdef OWN_DEFAULT
		d_now = 5 * S;
#endif
		for (unsigned i = 0; i < n; i++) hogl::post(a, a->INFO, "%u", i); if (off) hogl::deactivate(); exit(strcmp(hogl::default_timesource.name(),
#ifdef OWN_DEFAULT
			"the application's"
#else
			"clock_realtime"
#endif
			) ? 7 : 0);
	}
	close(fd[1]); std::string t; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) t.append(b, k); close(fd[0]); int st; waitpid(c, &st, 0);
	PBT_ASSERT(!WIFEXITED(st) || WEXITSTATUS(st) != 7, "the default time source is not the one that was defined"); PBT_ASSERT(WIFEXITED(st) && !WEXITSTATUS(st), "the process ends with status %x", st);
	{ std::string u; for (size_t p = 0; p < t.size();) { size_t e = t.find(10, p); if (e == t.npos) break; std::string l = t.substr(p, e + 1 - p); p = e + 1; if (l.find("switching timesource") == l.npos) u += l; } t = u; } unsigned lines = 0; for (char x : t) lines += x == 10; PBT_ASSERT(lines == n, "%u lines of %u records", lines, n);
#ifdef OWN_DEFAULT
	for (size_t p = 0; p < t.size(); p = t.find('\n', p) + 1) PBT_ASSERT(t.compare(p, 22, "00000000005.000000000 ") == 0, "stamped %s", show(t.substr(p, 30)).c_str());
#endif
	ops(n); nontrivial(hash_add(hash_add(n, how), off));
}
PBT_SUITE("C27", "process-" V, ends, true, false, 200, 4000, 8, 60, 15000, 0,
	"processes that log by the default time source, built in or of their own, and end normally; every case counts");

int main(int argc, char **argv) { return run_main(argc, argv); }
