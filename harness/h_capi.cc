// C18: the C API against the C++ API. The same generated script is carried out through the C functions and,
// in a fresh engine, through the C++ ones; what can be observed must be the same.
#include "hoglsim.hpp"
#include <sstream>
#include <sched.h>
#include <dirent.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <hogl/format-basic.hpp>
#include <hogl/output-file.hpp>
#include <hogl/output-plainfile.hpp>
#include <hogl/output-pipe.hpp>
#include <hogl/output-stdout.hpp>
#include <hogl/output-stderr.hpp>
#include <hogl/c-api/area.h>
#include <hogl/c-api/mask.h>
#include <hogl/c-api/format.h>
#include <hogl/c-api/output.h>
#include <hogl/c-api/engine.h>
#include <hogl/c-api/tls.h>
#include "capi.h"
using namespace sim;
extern "C" void hogl_flush();
#define hogl_string(x) ((const char *) (x))
#define hogl_pointer(x) ((void *) (x))
#define SIG(k, n, ...) static void post_##k(const hogl::area *area, unsigned sect, const struct cv *v) { (void) v; hogl::post(area, sect, __VA_ARGS__); }
#include "capi_sigs.h"
#undef SIG
static void cc_post(unsigned k, const hogl::area *area, unsigned sect, const struct cv *v)
{
	switch (k) {
#define SIG(k, n, ...) case k: post_##k(area, sect, v); break;
#include "capi_sigs.h"
#undef SIG
	}
}

static uint64_t g_fixed = 1700000000ULL * 1000000000;
static hogl::timestamp fixed_cb(const hogl::timesource *) { return hogl::timestamp(g_fixed); }
static hogl::timesource fixed_ts("fixed", fixed_cb);

static bool g_noseq; // the engine's thread may report something in the default ring at any time
static std::string strip(std::string s) { if (g_noseq) for (size_t p = 0; (p = s.find("DEFAULT:", p)) != s.npos;) { p += 8; while (p < s.size() && isdigit(s[p])) s.erase(p, 1); } return s; }
struct StrBuf : hogl::ostrbuf { std::string t; StrBuf() : hogl::ostrbuf(0) {} void do_flush(const uint8_t *d, size_t n) { t.append((const char *) d, n); } };
// every record as text: its area, section, argument types and rendering
struct Capture : hogl::format {
	std::vector<std::string> out; hogl::format_basic fb; Capture() : fb("AREA|SECT|RING|SEQNUM") {}
	std::string sched; // how the engine's thread runs
	void process(hogl::ostrbuf &, const data &d)
	{
		cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); sched = strf("policy %d cpus", sched_getscheduler(0)); for (int i = 0; i < 64; i++) if (CPU_ISSET(i, &cs)) sched += strf(" %d", i);
		StrBuf b; fb.process(b, d); std::string t;
		for (unsigned i = 0; i < 16; i++) {
			unsigned ty = d.record->get_arg_type(i); if (!ty) { bool more = false; for (unsigned j = i; j < 16; j++) more |= d.record->get_arg_type(j) != 0; if (!more) break; }
			t += strf("%u:", ty);
			if (ty == hogl::arg::CSTR || ty == hogl::arg::XDUMP || ty == hogl::arg::RAW) { unsigned len; const uint8_t *p = d.record->get_arg_data(i, len); t += std::string((const char *) p, len); }
			else if (ty) t += strf("%llx", (ull) (hogl::arg::is_32bit(ty) ? d.record->get_arg_val32(i) : d.record->get_arg_val64(i)));
			t += ",";
		}
		if (std::string(d.record->area->name()) == "HOGL") return;
		out.push_back(strip(strf("%s/%u/%s ", d.record->area->name(), d.record->section, d.ring_name) + t + " " + b.t));
	}
};
struct NullBuf : hogl::ostrbuf { NullBuf() : hogl::ostrbuf(0) {} void do_flush(const uint8_t *, size_t) { reset(); } };
struct CapOut : hogl::output { CapOut(hogl::format &f) : hogl::output(f) { init(new NullBuf); } };

struct Vals { cv v; std::vector<std::string> keep; std::vector<std::vector<char> > chars; };
static void gen_vals(Src &s, Vals &V)
{
	cv &v = V.v; memset(&v, 0, sizeof v); V.keep.reserve(16); V.chars.reserve(16);
	auto num = [&]() { return s.u64(); };
	for (int i = 0; i < 4; i++) {
		v.i8[i] = num(); v.u8[i] = num(); v.i16[i] = num(); v.u16[i] = num(); v.i32[i] = num(); v.u32[i] = num(); v.i64[i] = num(); v.u64[i] = num(); v.ll[i] = num(); v.ull[i] = num();
		v.ch[i] = num(); v.b[i] = s.flip(); v.f[i] = (float) s.irange(-10000000, 10000000) / 64; v.d[i] = (double) s.irange(-1000000000, 1000000000) / s.pick({1, 3, 10, 1000}); v.p[i] = (void *) (uintptr_t) num();
		std::string a = s.str(s.size(60), "abcXYZ 019.,:-_"), b = s.str(s.size(40), "mnoPQR 87%{}"), c = s.str(s.size(30), "uvw");
		V.keep.push_back(a); v.s[i] = s.chance(1, 25) ? 0 : V.keep.back().c_str();
		V.keep.push_back(c);
		V.chars.push_back(std::vector<char>(b.begin(), b.end())); V.chars.back().push_back(0); v.ms[i] = s.chance(1, 25) ? 0 : V.chars.back().data();
		V.chars.push_back(std::vector<char>(c.begin(), c.end())); V.chars.back().push_back(0); v.us[i] = (unsigned char *) V.chars.back().data();
		snprintf(v.ca[i], sizeof v.ca[i], "%s", s.str(s.size(23), "efg{} %").c_str()); v.ip[i] = (int *) (uintptr_t) (num() & ~3ULL);
	}
}

static void args(Src &s)
{
	hogl::engine::default_options.timesource = &fixed_ts; hogl::engine::default_options.polling_interval_usec = 1;
	Vals V; gen_vals(s, V); unsigned n = s.range(1, 20); std::vector<unsigned> sig, sec; unsigned tail = s.pick({0u, 80u, 200u, 1000u});
	for (unsigned i = 0; i < n; i++) { sig.push_back(s.bits(c_nsigs())); sec.push_back(s.bits(6)); }
	note("%u posts, tailroom %u", n, tail); unsigned maxa = 0; for (auto k : sig) { note("argument list %u (%u arguments)", k, c_nargs(k)); maxa = std::max(maxa, c_nargs(k)); }
	Capture cap[2];
	for (int side = 0; side < 2; side++) {
		CapOut out(cap[side]); bool c = side == 0;
		if (c) c_activate((hogl::output *) &out, 0, 0, 0, 0, 0, 0, 0); else hogl::activate(out);
		hogl::mask all(".*", "!HOGL:.*", 0); hogl::default_engine->apply_mask(all);
		const hogl::area *a = c ? (const hogl::area *) hogl_add_area("AREA", 0) : hogl::add_area("AREA");
		PBT_ASSERT(a, "add_area");
		void *ct = 0; hogl::tls *t = 0; hogl::ringbuf::options ro = {}; ro.capacity = 64; ro.prio = 3; ro.flags = 0; ro.record_tailroom = tail ? tail : 80;
		if (c) ct = c_new_tls("T", 64, 3, tail); else t = new hogl::tls("T", ro);
		for (unsigned i = 0; i < n; i++) if (c) c_post(sig[i], (void *) a, sec[i], &V.v); else cc_post(sig[i], a, sec[i], &V.v);
		if (c) hogl_flush(); else hogl::flush();
		PBT_ASSERT(cap[side].out.size() == n, "%s: %zu of %u records out after flush", c ? "C" : "C++", cap[side].out.size(), n);
		if (c) hogl_delete_tls(ct); else delete t;
		if (c) hogl_deactivate(); else hogl::deactivate();
	}
	for (unsigned i = 0; i < n; i++) PBT_ASSERT(cap[0].out[i] == cap[1].out[i], "argument list %u: C gives [%s], C++ gives [%s]", sig[i], show(cap[0].out[i]).c_str(), show(cap[1].out[i]).c_str());
	ops(n); if (maxa > 3) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C18", "arguments", args, true, false, 3000, 80000, 40, 300, 30000, 0,
	"argument lists of 1-16 arguments of every C type with generated values, posted through both interfaces; non-trivial: a list of more than three arguments");

// ------------------------------------------------------------------ objects
struct Op { int k; std::vector<std::string> str; std::vector<uint64_t> n; };
static const char *RULES[] = { ".*", "A:INFO", ".*:DEBUG", "!.*:TRACE", "B.*", "!A", "A:(WARN|ERROR)", ".*:S[0-2]", "!.*", "C:", ":INFO", "[AB]:S1" };
static const char *FIELDS[] = { "area|section", "fast1", "ring,area", "seqnum|area", "timestamp|area|section", "timespec|ring", "timespec,section", "fast0", "default", "timestamp|ring|seqnum", "nonsense|area" };
static std::string slurp(const std::string &p) { std::string o; FILE *f = fopen(p.c_str(), "r"); if (!f) return o; char b[65536]; size_t r; while ((r = fread(b, 1, sizeof b, f)) > 0) o.append(b, r); fclose(f); return o; }
static std::string lines(const std::string &t) // record lines of a log; what the engine reports about itself is left out
{
	std::vector<std::string> v; std::string o; size_t p = 0;
	while (p < t.size()) { size_t e = t.find('\n', p); if (e == t.npos) e = t.size(); std::string l = t.substr(p, e - p); if (l.find("HOGL") == l.npos && l.find("ile") != 0 && l.find("rec ") != l.npos) { size_t o = l.find(" ("), c = l.find(") ", o); if (o != l.npos && c != l.npos && o < 40) l.erase(o, c + 1 - o); v.push_back(strip(l)); } p = e + 1; } // no time deltas: they depend on the order
	std::sort(v.begin(), v.end()); for (auto &l : v) o += l + "\n"; // the order between rings is not fixed
	return o;
}
struct Side {
	bool c; std::vector<std::string> trace; std::string dir;
	void say(const std::string &s) { trace.push_back(s); }
	hogl::format *mkfmt(const char *f) { return c ? (hogl::format *) hogl_new_format_basic(f) : f ? new hogl::format_basic(f) : new hogl::format_basic(); }
	hogl::mask *mkmask(const std::vector<std::string> &r)
	{
		if (c) { const char *p[4] = { 0, 0, 0, 0 }; for (unsigned i = 0; i < r.size(); i++) p[i] = r[i].c_str(); return (hogl::mask *) c_new_mask(r.size(), p); }
		hogl::mask *m = new hogl::mask(); for (auto &x : r) *m << x; return m;
	}
	static std::string rules(hogl::mask *m) { std::ostringstream o; o << *m; return o.str(); }
};
template <class F> static void isolated(std::vector<std::string> &trace, unsigned &n, F f)
{
	int p[2]; if (pipe(p)) fail("pipe");
	pid_t k = fork(); if (k < 0) fail("fork");
	if (!k) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); close(p[0]); f(); std::string o; auto put = [&](const std::string &x) { o += strf("%zu ", x.size()) + x; };
		put(strf("%u", n)); for (auto &t : trace) put(t);
		for (size_t i = 0; i < o.size();) { ssize_t r = write(p[1], o.data() + i, o.size() - i); if (r <= 0) break; i += r; }
		_exit(0);
	}
	close(p[1]); std::string o; char b[65536]; ssize_t r; while ((r = read(p[0], b, sizeof b)) > 0) o.append(b, r); close(p[0]);
	int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR);
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
	if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
	size_t i = 0; bool first = true;
	while (i < o.size()) { size_t e = o.find(' ', i), l = strtoul(o.c_str() + i, 0, 10); std::string x = o.substr(e + 1, l); i = e + 1 + l; if (first) n = strtoul(x.c_str(), 0, 10); else trace.push_back(x); first = false; }
}
static void objects(Src &s)
{
	// the script
	int okind = s.weighted({4, 3, 1, 1}), with_eopt = s.flip(), with_oopt = s.flip(), fld = (int) s.bits(12);
	unsigned features = s.bits(2), poll = s.pick({1u, 10u, 100u}), tso = s.pick({1u, 2u, 16u, 500u, 4096u}); bool dmask = s.flip();
	unsigned perms = s.pick({0666u, 0644u, 0600u, 0640u}), maxc = s.pick({2u, 3u, 10u, 11u, 200u}), cap = s.pick({0u, 1u, 100u, 8192u, 70000u}); unsigned long maxs = s.pick({3000ul, 100000ul, 1ul << 33});
	int policy = s.pick({SCHED_OTHER, SCHED_BATCH}); const char *aff = s.pick<const char *>({0, 0, "", "0xfe", "list:0-5", "mask:0x7f", "bad"});
	std::vector<std::string> drules; { unsigned k = s.bits(4); for (unsigned i = 0; i < k; i++) drules.push_back(RULES[s.bits(12)]); }
	std::vector<Op> ops_; unsigned n = s.range(1, 25);
	for (unsigned i = 0; i < n; i++) {
		Op o; o.k = s.weighted({3, 2, 2, 1, 3, 2, 2, 2, 1, 1, 6, 2}); o.n.assign(4, 0); for (auto &x : o.n) x = s.bits(1000);
		unsigned k = s.bits(5); for (unsigned j = 0; j < k; j++) o.str.push_back(RULES[s.bits(12)]);
		ops_.push_back(o);
	}
	Vals V; gen_vals(s, V);
	static const char *ON[] = { "plain file", "file", "pipe", "captured" };
	note("scheduling policy %d affinity %s", policy, aff ? aff : "(null)"); note("output %s (options %d: perms %o size %lu count %u buffer %u), engine options %d (features %u poll %u tso %u mask %d), fields %s", ON[okind], with_oopt, perms, maxs, maxc, cap, with_eopt, features, poll, tso, dmask, fld == 11 ? "(null)" : FIELDS[fld]);
	const char *e = getenv("PBT_SCRATCH"); std::string t = strf("%s/cXXXXXX", e ? e : "/tmp"); std::vector<char> b(t.begin(), t.end()); b.push_back(0); if (!mkdtemp(b.data())) fail("mkdtemp"); std::string base = b.data();
	umask(022);
	hogl::engine::options saved = hogl::engine::default_options; saved.timesource = &fixed_ts; saved.polling_interval_usec = 20;
	hogl::engine::default_options = saved;
	Side sd[2]; static const char *SEC1[] = { "INFO", "WARN", "S1", 0 }, *SEC2[] = { "S0", "S1", "S2", "S3", "DEBUG", 0 };
	unsigned posts = 0;
	// each side in its own process: the default ring goes on counting from engine to engine
	for (int q = 0; q < 2; q++) isolated(sd[q].trace, posts, [&]() {
		Side &w = sd[q]; bool c = w.c = q == 0; g_noseq = aff && *aff; w.dir = base + (c ? "/c" : "/cc"); mkdir(w.dir.c_str(), 0777); if (chdir(w.dir.c_str())) fail("chdir");
		hogl::format *fmt = w.mkfmt(fld == 11 ? 0 : FIELDS[fld]); hogl::output *out = 0; Capture capf;
		if (okind == 0) out = c ? (hogl::output *) hogl_new_output_plainfile("log", fmt) : new hogl::output_plainfile("log", *fmt);
		else if (okind == 1) {
			if (c) out = (hogl::output *) c_new_output_file("log", fmt, with_oopt, perms, maxs, maxc, cap, policy, aff);
			else { hogl::output_file::options oo = hogl::output_file::default_options; if (with_oopt) { oo.perms = perms; oo.max_size = maxs; oo.max_count = maxc; oo.buffer_capacity = cap; oo.schedparam = new hogl::schedparam(policy, 0, hogl::schedparam::DELETE_ON_EXIT, aff ? aff : ""); } out = new hogl::output_file("log", *fmt, oo); }
		} else if (okind == 2) out = c ? (hogl::output *) hogl_new_output_pipe("cat > log", fmt) : new hogl::output_pipe("cat > log", *fmt);
		else out = new CapOut(capf);
		PBT_ASSERT(out, "no output");
		w.say(strf("buffer %zu failed %d", out->get_ostrbuf()->capacity(), out->failed()));
		hogl::mask *dm = w.mkmask(drules); w.say("rules " + Side::rules(dm));
		if (c) c_activate(out, with_eopt, features, dmask ? dm : 0, poll, tso, policy, aff);
		else { hogl::engine::options eo = hogl::engine::default_options; if (with_eopt) { eo.features = features; if (dmask) eo.default_mask = *dm; eo.polling_interval_usec = poll; eo.tso_buffer_capacity = tso; eo.schedparam = new hogl::schedparam(policy, 0, hogl::schedparam::DELETE_ON_EXIT, aff ? aff : ""); } hogl::activate(*out, eo); }
		PBT_ASSERT(hogl::default_engine, "not active");
		{ const hogl::engine::options &eo = hogl::default_engine->get_options(); w.say(strf("engine features %u poll %u tso %u", eo.features, eo.polling_interval_usec, eo.tso_buffer_capacity)); std::ostringstream m; m << hogl::default_engine->get_mask(); w.say("engine mask " + m.str()); }
		if (c) hogl_delete_mask(dm); else delete dm;
		std::vector<hogl::area *> areas; std::vector<hogl::mask *> masks; std::vector<void *> tls; std::vector<std::string> live; size_t made = 0; unsigned np = 0;
		auto state = [&]() { std::string o; for (auto a : areas) { if (!a) { o += "null "; continue; } o += a->name(); o += "="; for (unsigned i = 0; i < a->count(); i++) { bool x = c ? hogl_area_test(a, i) : a->test(i); PBT_ASSERT(x == a->test(i), "area_test"); o += x ? '1' : '0'; } o += " "; } return o; };
		for (auto &o : ops_) {
			hogl::area *a = areas.empty() ? 0 : areas[o.n[0] % areas.size()]; hogl::mask *m = masks.empty() ? 0 : masks[o.n[0] % masks.size()];
			switch (o.k) {
			case 0: { std::string nm = std::string(1, (char) ('A' + o.n[0] % 4)); const char **sc = o.n[1] % 3 == 0 ? 0 : o.n[1] % 3 == 1 ? SEC1 : SEC2; areas.push_back(c ? (hogl::area *) hogl_add_area(nm.c_str(), sc) : (hogl::area *) hogl::add_area(nm.c_str(), sc)); break; }
			case 1: { std::vector<std::string> r = o.str; if (r.size() > 4) r.resize(4); masks.push_back(w.mkmask(r)); w.say("new mask " + Side::rules(masks.back())); break; }
			case 2: if (m) { std::string r = RULES[o.n[1] % 12]; if (c) hogl_mask_add(m, r.c_str()); else *m << r; w.say("mask " + Side::rules(m)); } break;
			case 3: if (m) { if (c) hogl_mask_clear(m); else m->clear(); w.say("mask " + Side::rules(m)); } break;
			case 4: if (m) { if (c) hogl_apply_mask(m); else hogl::apply_mask(*m); } break;
			case 5: if (a) { unsigned x = o.n[1] % a->count(); if (c) hogl_area_set(a, x); else a->set(x); } break;
			case 6: if (a) { unsigned x = o.n[1] % a->count(); if (c) hogl_area_reset(a, x); else a->reset(x); } break;
			case 7: if (a) { if (o.n[1] % 2) { if (c) hogl_area_set_all(a); else a->set(); } else { if (c) hogl_area_reset_all(a); else a->reset(); } } break;
			case 8: if (tls.size() < 4) {
				std::string nm = !live.empty() && o.n[0] % 4 == 0 ? live.back() : strf("T%zu", made++); live.push_back(nm); unsigned cp = 40 + o.n[1] % 100, pr = o.n[2] % 20, tl = o.n[3] % 3 ? o.n[3] : 0;
				if (c) tls.push_back(c_new_tls(nm.c_str(), cp, pr, tl));
				else { hogl::ringbuf::options ro = {}; ro.capacity = cp; ro.prio = pr; ro.flags = 0; ro.record_tailroom = tl ? tl : 80; tls.push_back(new hogl::tls(nm.c_str(), ro)); }
				hogl::ringbuf *r = hogl::tls::ring(); w.say(strf("ring %s cap %u prio %d tail %u flags %d%d%d%d", r->name(), r->capacity(), r->prio(), r->record_tailroom(), r->shared(), r->immortal(), r->blocking(), r->reusable()));
				break; }
			case 9: if (!tls.empty()) { if (c) hogl_delete_tls(tls.back()); else delete (hogl::tls *) tls.back(); tls.pop_back(); live.pop_back(); w.say(strf("ring %s", hogl::tls::ring()->name())); } break;
			case 10: if (a) { unsigned k = 1 + o.n[1] % 6; for (unsigned j = 0; j < k; j++) {
					unsigned sg = (o.n[2] + j * 7) % c_nsigs(), sc = (o.n[3] + j) % a->count();
					if (a->test(sc)) np++;
					if (c) c_post(sg, a, sc, &V.v); else if (a->test(sc)) cc_post(sg, a, sc, &V.v);
					hogl::post(a, sc, "rec %u", np);
				} } break;
			case 11: { if (c) hogl_flush(); else hogl::flush(); if (made) break; /* a flush covers the current ring only */ if (okind == 0) w.say("file " + lines(slurp("log"))); if (okind == 3) w.say(strf("%zu records", capf.out.size())); break; }
			}
			w.say(state());
		}
		while (!tls.empty()) { if (c) hogl_delete_tls(tls.back()); else delete (hogl::tls *) tls.back(); tls.pop_back(); }
		if (okind == 1) { // enough to fill a small chunk, then let the rotation happen
			hogl::area *a = c ? (hogl::area *) hogl_add_area("ZZ", 0) : (hogl::area *) hogl::add_area("ZZ"); if (c) hogl_area_set_all(a); else a->set();
			for (int r = 0; r < 3; r++) { for (unsigned i = 0; i < 100; i++) hogl::post(a, 0u, "rec padding padding padding %u", i); if (c) hogl_flush(); else hogl::flush(); for (int z = 0; z < 100 && with_oopt && maxs == 3000; z++) { struct stat st; char l0[64]; snprintf(l0, sizeof l0, "log.%0*d", maxc > 100 ? 3 : maxc > 10 ? 2 : 1, 1); if (!stat(l0, &st)) break; usleep(500); } }
		}
		for (auto m : masks) { if (c) hogl_delete_mask(m); else delete m; }
		if (c) hogl_deactivate(); else hogl::deactivate();
		PBT_ASSERT(!hogl::default_engine, "still active");
		if (okind == 3) { delete out; w.say(capf.sched); std::sort(capf.out.begin(), capf.out.end()); for (auto &x : capf.out) w.say(x); } else { if (c) hogl_delete_output(out); else delete out; }
		if (c) hogl_delete_format(fmt); else delete fmt;
		// what is on disk
		std::vector<std::string> names; DIR *h = opendir("."); while (struct dirent *d = readdir(h)) { std::string nn = d->d_name; if (nn != "." && nn != "..") names.push_back(nn); } closedir(h); std::sort(names.begin(), names.end());
		if (okind != 3) {
			bool rot = okind == 1 && with_oopt && maxs == 3000; std::string all;
			for (auto &nn : names) { struct stat st; lstat(nn.c_str(), &st); if (S_ISLNK(st.st_mode)) { w.say("link " + nn); continue; } if (!rot || nn.find_last_not_of("0123456789") + 2 + (maxc > 10) + (maxc > 100) >= nn.size()) { if (!rot) w.say("file " + nn + strf(" %o", st.st_mode)); else if (nn.find_first_not_of('0', nn.rfind('.') + 1) == nn.npos) w.say("first chunk " + nn + strf(" %o", st.st_mode)); } if (!rot) w.say(lines(slurp(nn))); }
			if (rot) w.say(strf("rotated %d", names.size() > 2));
		}
		for (auto &nn : names) unlink(nn.c_str());
		if (chdir("/")) {} rmdir(w.dir.c_str()); posts = np;
	});
	rmdir(base.c_str());
	for (auto &d : sd) d.trace.push_back("end");
	for (size_t i = 0; i < std::min(sd[0].trace.size(), sd[1].trace.size()); i++) PBT_ASSERT(sd[0].trace[i] == sd[1].trace[i], "C: [%s]  C++: [%s]", show(sd[0].trace[i]).c_str(), show(sd[1].trace[i]).c_str());
	ops(n); if (posts) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C18", "objects", objects, true, false, 2500, 60000, 50, 400, 30000, 0,
	"scripts of area, mask, format, output, engine, tls, post and flush operations with generated options; non-trivial: at least one enabled post");

static void failures(Src &s)
{
	// functions documented to return zero on failure must not end the process
	std::string bad = s.flip() ? "/nonexistent-dir/log" : "/proc/self/nope/x"; int k = s.bits(3); hogl::format *f = (hogl::format *) hogl_new_format_basic(0); void *o = (void *) 1;
	note("%s in a missing directory", k == 0 ? "plain file" : "file");
	if (k == 0) o = hogl_new_output_plainfile(bad.c_str(), f); else o = c_new_output_file(bad.c_str(), f, k == 1, 0644, 1000, 3, s.bits(100), 0, 0);
	PBT_ASSERT(!o, "handle %p for an output that cannot be opened", o);
	hogl_delete_format(f); ops(1); nontrivial(hash_str(cur_slot()->desc) + k);
}
PBT_SUITE("C18", "failures", failures, true, false, 60, 300, 10, 20, 20000, 0, "outputs that cannot be opened; non-trivial: every case");

int main(int argc, char **argv) { return run_main(argc, argv); }
