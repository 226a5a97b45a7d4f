// C19: CPU affinity strings, policy and priority of the library's threads.
#include "hoglsim.hpp"
#include <dlfcn.h>
#include <sched.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <hogl/output-plainfile.hpp>
#include <hogl/output-file.hpp>
#include <hogl/format-basic.hpp>
#include <hogl/detail/schedparam.hpp>
using namespace sim;

// ---------------------------------------------------------------- the operating system's side
struct Call { int what; pthread_t who; std::set<unsigned> cpus; int policy, prio; };
static std::vector<Call> calls; static pthread_mutex_t cmx = PTHREAD_MUTEX_INITIALIZER; static bool rec_on; static int ret_aff, ret_sched;
extern "C" int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c)
{
	if (!rec_on) { typedef int (*F)(pthread_t, size_t, const cpu_set_t *); static F f = (F) dlsym(RTLD_NEXT, "pthread_setaffinity_np"); return f ? f(t, n, c) : ENOSYS; }
	Call k; k.what = 0; k.who = t; k.policy = k.prio = 0;
	for (size_t i = 0; i < n; i++) for (int b = 0; b < 8; b++) if (((const unsigned char *) c)[i] >> b & 1) k.cpus.insert(i * 8 + b);
	pthread_mutex_lock(&cmx); calls.push_back(k); pthread_mutex_unlock(&cmx); return ret_aff;
}
extern "C" int pthread_setschedparam(pthread_t t, int policy, const struct sched_param *sp)
{
	if (!rec_on) { typedef int (*F)(pthread_t, int, const struct sched_param *); static F f = (F) dlsym(RTLD_NEXT, "pthread_setschedparam"); return f ? f(t, policy, sp) : ENOSYS; }
	Call k; k.what = 1; k.who = t; k.policy = policy; k.prio = sp->sched_priority;
	pthread_mutex_lock(&cmx); calls.push_back(k); pthread_mutex_unlock(&cmx); return ret_sched;
}

// threads that start late, and whoever waits for one continues late
static volatile unsigned late_start, late_join;
struct Late { void *(*f)(void *); void *x; unsigned us; };
static void *late(void *p) { Late l = *(Late *) p; delete (Late *) p; usleep(l.us); return l.f(l.x); }
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
	typedef int (*F)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); static F real = (F) dlsym(RTLD_NEXT, "pthread_create");
	if (!late_start) return real(t, a, f, x);
	Late *l = new Late; l->f = f; l->x = x; l->us = late_start; int e = real(t, a, late, l); if (e) delete l; return e;
}
extern "C" int pthread_join(pthread_t t, void **x)
{
	typedef int (*F)(pthread_t, void **); static F real = (F) dlsym(RTLD_NEXT, "pthread_join");
	int e = real(t, x); if (late_join) usleep(late_join); return e;
}

// ---------------------------------------------------------------- the two grammars, read independently
enum { BAD, GOOD, EITHER }; // EITHER: not one of the documented forms, but if it is accepted it has to mean this set
struct Want { int kind; std::set<unsigned> cpus; };
static Want read_mask(const std::string &t)
{
	Want w; w.kind = GOOD; size_t i = 0; bool neg = false;
	while (i < t.size() && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) { i++; w.kind = EITHER; }
	if (i < t.size() && (t[i] == '+' || t[i] == '-')) { neg = t[i] == '-'; i++; w.kind = EITHER; }
	unsigned base = 10; if (t.compare(i, 2, "0x") == 0 || t.compare(i, 2, "0X") == 0) { base = 16; i += 2; } else if ((t.compare(i, 2, "0b") == 0 || t.compare(i, 2, "0B") == 0) && t.size() > i + 2) { base = 2; i += 2; w.kind = EITHER; /* newer C libraries */ } else if (i < t.size() && t[i] == '0') base = 8;
	if (i >= t.size()) { w.kind = BAD; return w; }
	unsigned __int128 v = 0;
	for (; i < t.size(); i++) {
		int c = t[i], d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
		if (d >= (int) base) { w.kind = BAD; return w; }
		v = v * base + d; if (v >> 64) { w.kind = BAD; return w; }
	}
	uint64_t m = neg ? -(uint64_t) v : (uint64_t) v;
	for (unsigned b = 0; b < 64; b++) if (m >> b & 1) w.cpus.insert(b);
	return w;
}
static Want read_list(std::string t)
{
	Want w; w.kind = GOOD; if (t.size() > 1 && t.back() == ',') { t.pop_back(); w.kind = EITHER; }
	auto num = [](const std::string &x, unsigned &o) { if (x.empty()) return false; unsigned long v = 0; for (char c : x) { if (c < '0' || c > '9') return false; v = std::min(v * 10 + (c - '0'), 100000ul); } o = v; return true; };
	for (size_t p = 0;;) {
		size_t e = t.find(',', p); std::string it = t.substr(p, e == t.npos ? t.npos : e - p); size_t d = it.find('-'); unsigned a, b;
		if (!num(d == it.npos ? it : it.substr(0, d), a)) { w.kind = BAD; return w; }
		b = a; if (d != it.npos && !num(it.substr(d + 1), b)) { w.kind = BAD; return w; }
		if (b < a || b >= 256) { w.kind = BAD; return w; }
		for (unsigned i = a; i <= b; i++) w.cpus.insert(i);
		if (e == t.npos) return w; p = e + 1;
	}
}
static Want read_setting(const std::string &t)
{
	if (t.compare(0, 5, "list:") == 0) return read_list(t.substr(5));
	if (t.compare(0, 5, "mask:") == 0) return read_mask(t.substr(5));
	return read_mask(t);
}

// ---------------------------------------------------------------- strings
static std::string gen_num(Src &s)
{
	static const char *EDGE[] = { "255", "256", "257", "4294967295", "4294967296", "4294967299", "18446744073709551615", "18446744073709551616", "18446744073709551619", "99999999999999999999999", "0", "00", "007", "63", "64" };
	return s.chance(1, 6) ? std::string(EDGE[s.bits(15)]) : strf("%u", (unsigned) (s.chance(1, 10) ? s.bits(600) : s.bits(256)));
}
static std::string gen_setting(Src &s)
{
	std::string o;
	if (s.flip()) { // bit mask
		if (s.flip()) o = "mask:";
		uint64_t m = 0; switch (s.bits(4)) { case 0: m = s.bits(256); break; case 1: m = 1ULL << s.bits(64); break; case 2: m = s.u64(); break; default: { unsigned k = s.bits(6); while (k--) m |= 1ULL << s.bits(64); } }
		switch (s.weighted({6, 2, 1, 1})) { case 0: o += strf(s.flip() ? "0x%llx" : "0X%llX", (ull) m); break; case 1: o += strf("%llu", (ull) m); break; case 2: o += strf("0%llo", (ull) m); break; default: o += strf("0x%llx%c", (ull) m, "0fg,"[s.bits(4)]); }
	} else {
		o = "list:"; unsigned k = s.range(1, 6), at = 0;
		for (unsigned i = 0; i < k; i++) {
			if (i) o += ",";
			if (s.chance(1, 4)) { o += gen_num(s); if (s.flip()) o += "-" + gen_num(s); }
			else { unsigned a = s.chance(1, 3) ? s.bits(256) : std::min(255u, at + (unsigned) s.bits(20)), b = std::min(255u, a + (unsigned) (s.flip() ? s.bits(6) : s.bits(80))); at = b; o += strf("%u", a); if (s.flip()) o += strf("-%u", b); }
		}
	}
	unsigned mut = s.weighted({6, 3, 1}); // and near misses
	for (unsigned i = 0; i < mut; i++) {
		static const char AL[] = "0123456789,-x:af +lismk\t\x80"; size_t p = s.bits(o.size() + 1);
		switch (s.bits(4)) { case 0: o.insert(p, 1, AL[s.bits(sizeof AL - 1)]); break; case 1: if (p < o.size()) o.erase(p, 1); break; case 2: if (p < o.size()) o[p] = AL[s.bits(sizeof AL - 1)]; break; default: o = o.substr(0, p); }
	}
	return o;
}
static std::string show_set(const std::set<unsigned> &c) { std::string o; for (unsigned x : c) o += strf("%u ", x); return o.empty() ? "none" : o; }

static void strings(Src &s)
{
	unsigned n = s.range(1, 12), good = 0; rec_on = true; std::string all;
	for (unsigned i = 0; i < n; i++) {
		std::string t = gen_setting(s); Want w = t.empty() ? Want{GOOD, {}} : read_setting(t); note("%s: %s, CPUs %s", show(t).c_str(), w.kind == BAD ? "invalid" : w.kind == GOOD ? "valid" : "unspecified", show_set(w.cpus).c_str());
		int pol = s.pick({SCHED_OTHER, SCHED_FIFO, SCHED_RR, SCHED_BATCH, SCHED_IDLE}), prio = (int) s.bits(100); ret_aff = s.chance(1, 8) ? EINVAL : 0; ret_sched = s.chance(1, 8) ? EPERM : 0; all += t + ";";
		hogl::schedparam sp(pol, prio, 0, t); calls.clear();
		bool v = sp.validate(); PBT_ASSERT(calls.empty(), "validate() of %s changed the thread", show(t).c_str());
		if (w.kind != EITHER) PBT_ASSERT(v == (w.kind == GOOD), "validate() of %s: %d", show(t).c_str(), v);
		hogl::schedparam copy(sp); if (s.flip()) { hogl::schedparam x(0, 0, 0, "1"); x = sp; copy = x; }
		bool e = copy.thread_enter("t"); unsigned na = 0, ns = 0;
		for (auto &c : calls) {
			PBT_ASSERT(pthread_equal(c.who, pthread_self()), "another thread was changed");
			if (c.what == 0) { na++; PBT_ASSERT(c.cpus == w.cpus, "%s selects CPUs %s, not %s", show(t).c_str(), show_set(c.cpus).c_str(), show_set(w.cpus).c_str()); }
			else { ns++; PBT_ASSERT(c.policy == pol && c.prio == prio, "policy %d priority %d instead of %d %d", c.policy, c.prio, pol, prio); }
		}
		PBT_ASSERT(ns == 1, "policy set %u times", ns);
		PBT_ASSERT(na == (unsigned) (v && !t.empty()), "%s: validate() says %d, but the CPU set was applied %u times", show(t).c_str(), v, na);
		bool want = v && !(na && ret_aff) && !ret_sched; PBT_ASSERT(e == want, "thread_enter returned %d for %s", e, show(t).c_str());
		if (w.kind != BAD && w.cpus.size() > 1) good++;
	}
	rec_on = false; ops(n); if (good) nontrivial(hash_str(all));
}
PBT_SUITE("C19", "strings", strings, false, false, 200000, 2000000, 30, 200, 10000, 0,
	"settings from both grammars with up to two edits, validated and applied; the CPU set handed to the operating system is compared with an independent reading; non-trivial: a setting that selects more than one CPU");

// ---------------------------------------------------------------- the library's threads
struct Counted : hogl::schedparam {
	std::vector<std::string> *ev; std::string nm;
	Counted(int p, int pr, unsigned f, const std::string &a, std::vector<std::string> *e, const std::string &n) : hogl::schedparam(p, pr, f, a), ev(e), nm(n) {}
	void add(const char *w) { pthread_mutex_lock(&cmx); ev->push_back(nm + w + strf(" %llx", (ull) pthread_self())); pthread_mutex_unlock(&cmx); }
	bool thread_enter(const char *t) { add(" enter"); return hogl::schedparam::thread_enter(t); }
	void thread_exit() { add(" exit"); hogl::schedparam::thread_exit(); }
	~Counted() { add(" delete"); }
};
struct NullB : hogl::ostrbuf { NullB() : hogl::ostrbuf(0) {} void do_flush(const uint8_t *, size_t) { reset(); } };
struct NullBufOut : hogl::output { NullBufOut(hogl::format &f) : hogl::output(f) { init(new NullB); } };
static void threads(Src &s)
{
	const char *e = getenv("PBT_SCRATCH"); std::string t = strf("%s/sXXXXXX", e ? e : "/tmp"); std::vector<char> b(t.begin(), t.end()); b.push_back(0); if (!mkdtemp(b.data())) fail("mkdtemp"); std::string dir = b.data();
	rec_on = true; ret_aff = s.chance(1, 6) ? EINVAL : 0; ret_sched = s.chance(1, 3) ? EPERM : 0; calls.clear();
	struct P { std::string aff; int pol, prio; bool del; Want w; Counted *c; std::vector<std::string> ev; hogl::schedparam *plain; } p[3]; unsigned n = s.range(1, 2); // n engines + 1 file
	static const char *NM[] = { "file", "engine0", "engine1" };
	for (unsigned i = 0; i <= n; i++) {
		p[i].aff = s.chance(1, 4) ? "" : gen_setting(s); p[i].w = p[i].aff.empty() ? Want{GOOD, {}} : read_setting(p[i].aff); p[i].pol = s.pick({SCHED_OTHER, SCHED_FIFO, SCHED_RR, SCHED_BATCH}); p[i].prio = (int) s.bits(100) + 100 * i; p[i].del = s.flip();
		p[i].c = new Counted(p[i].pol, p[i].prio, p[i].del ? hogl::schedparam::DELETE_ON_EXIT : 0, p[i].aff, &p[i].ev, NM[i]);
		note("%s: affinity %s policy %d priority %d%s", NM[i], show(p[i].aff).c_str(), p[i].pol, p[i].prio, p[i].del ? ", deleted at exit" : "");
	}
	hogl::format_basic fmt("AREA SECT"); unsigned posts = s.bits(20);
	{
		hogl::output_file::options oo = hogl::output_file::default_options; oo.max_size = s.pick({1000ul, 1ul << 30}); oo.schedparam = p[0].c;
		hogl::output_file out((dir + "/log").c_str(), fmt, oo); NullBufOut dummy(fmt);
		std::vector<hogl::engine *> eng;
		for (unsigned i = 0; i < n; i++) { hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = 100; eo.schedparam = p[i + 1].c; eng.push_back(new hogl::engine(i ? (hogl::output &) dummy : (hogl::output &) out, eo)); }
		for (auto g : eng) { const hogl::area *a = g->add_area("A"); hogl::ringbuf::options ro = {}; ro.capacity = 64; ro.record_tailroom = 80; hogl::ringbuf *r = g->add_ring("R", ro); for (unsigned k = 0; k < posts; k++) hogl::post(r, a, 0u, "some text to be logged %u", k); if (r) r->release(); }
		for (auto g : eng) delete g;
	}
	for (unsigned i = 0; i <= n; i++) {
		auto &v = p[i].ev; std::string h; for (auto &x : v) h += x + "; ";
		size_t want = p[i].del ? 3 : 2; PBT_ASSERT(v.size() == want && v[0].find(" enter") != v[0].npos && v[1].find(" exit") != v[1].npos && (want < 3 || v[2].find(" delete") != v[2].npos), "%s: %s", NM[i], h.c_str());
		std::string th = v[0].substr(v[0].rfind(' ')); PBT_ASSERT(v[1].substr(v[1].rfind(' ')) == th && strf(" %llx", (ull) pthread_self()) != th, "%s: %s", NM[i], h.c_str());
		unsigned na = 0, ns = 0;
		for (auto &c : calls) if (strf(" %llx", (ull) c.who) == th && (c.what == 0 || c.prio == p[i].prio)) {
			if (c.what == 0) { na++; }
			else { ns++; PBT_ASSERT(c.policy == p[i].pol, "%s runs with policy %d", NM[i], c.policy); }
		}
		PBT_ASSERT(ns == 1, "%s: policy and priority applied %u times", NM[i], ns);
		if (p[i].w.kind == GOOD && !p[i].aff.empty()) { bool f = false; for (auto &c : calls) if (c.what == 0 && strf(" %llx", (ull) c.who) == th && c.cpus == p[i].w.cpus) f = true; PBT_ASSERT(f, "%s: CPUs of %s not applied", NM[i], show(p[i].aff).c_str()); }
		(void) na;
	}
	rec_on = false;
	for (unsigned i = 0; i <= n; i++) if (!p[i].del) delete p[i].c;
	if (system(strf("rm -rf '%s'", dir.c_str()).c_str())) {}
	ops(n + 1); if (n > 1 || posts) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C19", "threads", threads, true, false, 3000, 40000, 25, 200, 20000, 0,
	"one or two engines and a file output started with generated scheduling parameters; non-trivial: two engines or posts");

// ---------------------------------------------------------------- settings that cannot be applied, threads that come late
static std::string slurp(const std::string &p) { std::string o; FILE *f = fopen(p.c_str(), "r"); if (!f) return o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f))) o.append(b, n); fclose(f); return o; }
static unsigned count_in(const std::string &f, const char *w) { unsigned n = 0; std::string t = slurp(f); for (size_t p = 0; (p = t.find(w, p)) != t.npos; p++) n++; return n; }
static void lates(Src &s)
{
	const char *e = getenv("PBT_SCRATCH"); std::string t = strf("%s/sXXXXXX", e ? e : "/tmp"); std::vector<char> b(t.begin(), t.end()); b.push_back(0); if (!mkdtemp(b.data())) fail("mkdtemp"); std::string dir = b.data();
	int fd = open((dir + "/err").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600), old = fcntl(2, F_DUPFD_CLOEXEC, 100); dup2(fd, 2); close(fd);
	rec_on = true; hogl::format_basic fmt("AREA SECT"); unsigned n = s.range(2, 4), waff = 0, wpol = 0; std::vector<std::string> logs;
	for (unsigned k = 0; k < n; k++) { // lifecycles, one after the other
		ret_aff = s.chance(1, 3) ? EINVAL : 0; ret_sched = s.chance(1, 3) ? EPERM : 0; late_start = late_join = 0; unsigned ls = s.chance(2, 3) ? s.range(1, 40) * 100 : 0, lj = s.chance(2, 3) ? s.range(1, 40) * 100 : 0;
		logs.push_back(dir + strf("/log%u", k)); hogl::output_plainfile out(logs.back(), fmt); std::vector<hogl::output_file *> files; std::vector<hogl::schedparam *> sps;
		auto param = [&]() { std::string a = s.pick({"", "1", "list:0-1", "nonsense", "list:999"}); Want w = a.empty() ? Want{GOOD, {}} : read_setting(a); bool f = !a.empty() && (w.kind == BAD || ret_aff); if (f) waff++; if (ret_sched) wpol++; note("   setting %s%s%s", show(a).c_str(), f ? ", affinity cannot be applied" : "", ret_sched ? ", policy neither" : ""); sps.push_back(new hogl::schedparam(SCHED_OTHER, 0, 0, a)); return sps.back(); };
		auto file = [&]() { note("   file output"); hogl::output_file::options oo = hogl::output_file::default_options; oo.max_size = 400; oo.schedparam = param(); files.push_back(new hogl::output_file(dir + strf("/f%u-%zu", k, files.size()), fmt, oo)); };
		note("lifecycle %u, threads start %u us late, waiting for one takes %u us more", k, ls, lj);
		late_start = ls; unsigned pre = s.bits(3), in = s.bits(2); for (unsigned i = 0; i < pre; i++) file();
		hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = s.range(1, 300); if (s.flip()) eo.schedparam = param();
		hogl::activate(out, eo); const hogl::area *a = hogl::add_area("A"); unsigned posts = s.bits(4); for (unsigned i = 0; i < posts; i++) hogl::post(a, hogl::area::INFO, "post %u", i);
		for (unsigned i = 0; i < in; i++) file();
		if (s.flip()) usleep(s.bits(30) * 100);
		late_join = lj; hogl::deactivate(); late_join = 0;
		for (auto f : files) delete f;
		for (auto p : sps) delete p;
		ops(1 + files.size());
	}
	late_start = 0; rec_on = false; dup2(old, 2); close(old);
	unsigned aff = count_in(dir + "/err", "set-cpu-affinity failed"), pol = count_in(dir + "/err", "pthread-setschedparam failed");
	for (auto &l : logs) { aff += count_in(l, "set-cpu-affinity failed"); pol += count_in(l, "pthread-setschedparam failed"); }
	std::string err = slurp(dir + "/err"); if (system(strf("rm -rf '%s'", dir.c_str()).c_str())) {}
	PBT_ASSERT(aff == waff && pol == wpol, "%u CPU sets and %u policies could not be applied, reported are %u and %u", waff, wpol, aff, pol);
	if (waff + wpol) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C19", "late", lates, true, true, 1200, 40000, 20, 200, 40000, 0,
	"lifecycles of the default engine and file outputs with settings that cannot be applied, threads that start late and waits that end late: each failure is reported once, in a log or on standard error; non-trivial: some setting could not be applied");
int main(int argc, char **argv) { return run_main(argc, argv); }
