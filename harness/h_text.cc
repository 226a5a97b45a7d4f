// C04: argument fidelity.  C05: text format.
#include "hoglsim.hpp"
#include "vals.hpp"
#include <hogl/format-basic.hpp>
using namespace pbt;
using namespace vals;

static uint64_t g_now;
static hogl::timestamp now_cb(const hogl::timesource *) { return hogl::timestamp(g_now); }

struct Posted { std::vector<Val> a; std::vector<std::string> st; const hogl::area *area; unsigned sect; uint64_t ts, seq; };

#define A16(a) a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]

// Call with exactly n arguments, the way user code does.
template <typename F> static void with_n(unsigned n, const hogl::arg *a, F f)
{
	switch (n) {
	case 0: f(); break;
	case 1: f(a[0]); break;
	case 2: f(a[0], a[1]); break;
	case 4: f(a[0], a[1], a[2], a[3]); break;
	default: f(A16(a)); break;
	}
}

struct Post { // a call through one of the posting interfaces with n arguments
	unsigned path; hogl::ringbuf *ring; const hogl::area *area; unsigned sect;
	template <typename... T> void operator()(const T &... t) const
	{
		switch (path) {
		case 0: hogl::post(ring, area, sect, t...); break;
		case 1: hogl::post_unlocked(ring, area, sect, t...); break;
		case 2: hogl::push(ring, area, sect, t...); break;
		case 3: hogl::push_unlocked(ring, area, sect, t...); break;
		case 4: hogl::post(area, sect, t...); break;
		default: hogl::post_unlocked(area, sect, t...); break;
		}
	}
};

// Typed calls with compile-time argument types (no hogl::arg made by the caller).
static void typed_call(unsigned shape, const Post &p, const std::vector<Val> &a, Pool &pool)
{
	auto cs = [&](unsigned i) { return (const char *) hold(pool, a[i].s); };
	switch (shape) {
	case 0: p((int) a[0].u, (double) a[1].d, (unsigned long long) a[2].u, (bool) (a[3].u & 1)); break;
	case 1: p(cs(0), (unsigned) a[1].u, (const std::string &) (pool.mem.push_back(a[2].s), pool.mem.back())); break;
	case 2: p("literal", (uint16_t) a[1].u, cs(2), (void *) a[3].u, (long) a[4].u); break;
	case 3: p(hogl::arg_gstr(gstr_of(a[0].u)), (uint8_t) a[1].u, (float) a[2].d, (char) a[3].u, (short) a[4].u, (unsigned long) a[5].u); break;
	case 4: { char *x = hold(pool, a[1].s), *y = hold(pool, a[2].s);
		p(cs(0), hogl::arg_raw(x, a[1].s.size()), hogl::arg_xdump(y, a[2].s.size(), a[2].xd.fmt.type, a[2].xd.fmt.byte_width, a[2].xd.fmt.precision, a[2].xd.fmt.line_width, a[2].xd.fmt.delim)); break; }
	default: p((long long) a[0].u, cs(1), (int) a[2].u, cs(3), (double) a[4].d, cs(5), (unsigned) a[6].u, cs(7)); break;
	}
}
static std::vector<Val> typed_vals(Src &s, unsigned shape, size_t maxd)
{
	static const std::vector<std::vector<Kind>> k = {
		{ I32, DBL, U64LL, BOOL }, { CSTR, U32, SSTR }, { CSTR, U16, CSTR, PTR, I64L },
		{ GSTR, U8, FLT, CHR, I32, U64L }, { CSTR, RAW, XD }, { I64LL, CSTR, I32, CSTR, DBL, CSTR, U32, CSTR } };
	std::vector<Val> r;
	for (Kind kk : k[shape]) {
		Val v; v.k = kk;
		if (kk == CSTR || kk == SSTR) { v.s = gen_text(s, maxd, false); if (kk == CSTR) for (char &c : v.s) if (!c) c = '0'; }
		else if (kk == DBL) v.d = gen_double(s);
		else if (kk == FLT) { v.d = (float) gen_double(s); if (std::isnan(v.d)) v.d = 1; }
		else if (kk == GSTR) { v.u = s.chance(1, 20) ? 5 : s.bits(5); v.s = gtext(v.u); }
		else if (kk == RAW) v.s = s.bytes(s.size(std::min<size_t>(maxd, 400)));
		else if (kk == XD) { v.s = s.bytes(4 * s.size(std::min<size_t>(maxd, 400) / 4)); v.xd.fmt = hogl::arg_xdump::format('x', 4, 0, s.range(0, 9), ','); }
		else v.u = s.u64();
		r.push_back(v);
	}
	if (shape == 2) { r[0].s = "literal"; }
	if (shape == 3) { r[4].u = (uint64_t) (int) (short) r[4].u; }
	return r;
}

static Posted post_one(Src &s, hogl::ringbuf *ring, const std::vector<hogl::area *> &areas, Pool &pool, bool tls_ok, unsigned tail)
{
	Posted p; unsigned ai = s.bits(areas.size());
	p.area = areas[ai];
	p.sect = s.chance(1, 4) ? p.area->count() - 1 : s.bits(p.area->count());
	g_now = s.chance(1, 8) ? s.bits(0) : g_now + s.bits(1000);
	p.ts = g_now;
	size_t maxd = s.chance(1, 6) ? 3000 : tail;
	Post call = { (unsigned) s.bits(tls_ok ? 6 : 4), ring, p.area, p.sect };
	if (s.chance(1, 5)) {
		unsigned shape = s.bits(6);
		p.a = typed_vals(s, shape, maxd);
		for (auto &v : p.a) note("   %s", show(v).c_str());
		p.seq = ring->seqnum();
		typed_call(shape, call, p.a, pool);
	} else {
		unsigned n = s.chance(1, 3) ? s.range(0, 16) : s.range(0, 5);
		hogl::arg args[16];
		for (unsigned i = 0; i < n; i++) { p.a.push_back(gen_val(s, maxd)); note("   %s", show(p.a.back()).c_str()); args[i] = to_arg(p.a.back(), pool); }
		p.seq = ring->seqnum();
		if (s.chance(1, 3)) call(A16(args)); else with_n(n, args, call);
	}
	unsigned nt;
	p.st = stored(p.a, tail, &nt);
	note("post path %u %s:%u ts %llu seq %llu (%zu args, %u truncated)", call.path, p.area->name(), p.sect, (ull) p.ts, (ull) p.seq, p.a.size(), nt);
	pool.scribble(); pool.mem.clear(); pool.xds.clear();
	uint64_t h = 7; for (auto &v : p.a) { h = hash_add(h, v.k); h = hash_add(h, v.u); h = hash_add(h, hash_str(v.s)); }
	if (nt) { label("record truncated"); }
	if (p.a.size() > 3 || nt) nontrivial(hash_add(h, tail));
	return p;
}
static void check_rec(const hogl::record *r, const Posted &p, unsigned tail)
{
	std::string w = strf("record seq %llu", (ull) p.seq);
	// known finding: a record holds the lowest 12 bits of the section's number
	bool known = p.sect > 0xfff && r->section == (p.sect & 0xfff); if (known) label("known finding: section beyond 4095");
	PBT_ASSERT(r->area == p.area && (r->section == p.sect || known), "%s: area/section changed (section %u, posted %u)", w.c_str(), (unsigned) r->section, p.sect);
	PBT_ASSERT((uint64_t) r->timestamp == p.ts, "%s: timestamp %llu, posted %llu", w.c_str(), (ull) (uint64_t) r->timestamp, (ull) p.ts);
	PBT_ASSERT(r->seqnum == p.seq, "%s: sequence number %llu", w.c_str(), (ull) r->seqnum);
	check_args(r, p.a, p.st, tail, w.c_str());
}

static std::vector<hogl::area *> gen_areas(Src &s)
{
	std::vector<hogl::area *> r;
	r.push_back(new hogl::area("AREA0"));
	unsigned n = s.chance(1, 6) ? s.range(1, 4096 + (s.chance(1, 5) ? 1000 : 0)) : s.range(1, 80);
	std::vector<std::string> nm; std::vector<const char *> p;
	for (unsigned i = 0; i < n; i++) nm.push_back(strf("S%u", i));
	for (auto &x : nm) p.push_back(x.c_str());
	p.push_back(0);
	r.push_back(new hogl::area("AREA1", &p[0]));
	for (auto a : r) a->enable();
	return r;
}
static hogl::ringbuf::options gen_opts(Src &s)
{
	hogl::ringbuf::options o;
	o.capacity = 1u << s.range(1, 4); o.prio = 0;
	o.flags = s.flip() ? hogl::ringbuf::SHARED : 0;
	switch (s.weighted({3, 2, 2})) {
	case 0: o.record_tailroom = s.range(0, 300); break;
	case 1: o.record_tailroom = s.pick({80, 128, 129, 140, 200, 256, 512}); break;
	default: o.record_tailroom = s.range(0, 3000); break;
	}
	return o;
}

// ring only: neighbours pending, wrap-around, all posting interfaces
static void args_ring(Src &s)
{
	hogl::ringbuf::options o = gen_opts(s);
	hogl::ringbuf *ring = new hogl::ringbuf("R", o); ring->hold();
	hogl::timesource tsrc("gen", now_cb); ring->timesource(&tsrc);
	g_now = 1000;
	unsigned tail = ring->record_tailroom();
	note("ring capacity %u tailroom %u", ring->capacity(), tail);
	std::vector<hogl::area *> areas = gen_areas(s);
	std::deque<Posted> q; Pool pool;
	unsigned n = s.range(1, 12); ops(n);
	for (unsigned i = 0; i < n; i++) {
		if (ring->room() && (q.empty() || !s.chance(1, 3))) q.push_back(post_one(s, ring, areas, pool, false, tail));
		else {
			hogl::record *r = ring->pop_begin();
			check_rec(r, q.front(), tail); q.pop_front();
			ring->pop_commit();
		}
	}
	hogl::ringbuf::pop_iterator it(ring); it.reset();
	while (hogl::record *r = it.next()) {
		PBT_ASSERT(!q.empty(), "unexpected record");
		check_rec(r, q.front(), tail); q.pop_front();
	}
	PBT_ASSERT(q.empty(), "%zu records missing", q.size());
	it.commit(); ring->release();
	for (auto a : areas) delete a;
}
PBT_SUITE("C04", "ring", args_ring, false, false, 9000, 1500000, 40, 500, 20000, 0,
	"1..12 posts of generated argument lists through every C++ interface into one small ring, mixed with pops; caller buffers overwritten after each post; non-trivial: more than 3 arguments or something truncated");

// through a running engine to a format handler
struct CmpFormat : public hogl::format {
	std::map<std::string, std::deque<Posted>> exp; std::map<std::string, unsigned> tail; hogl::engine *eng; unsigned seen;
	CmpFormat() : eng(0), seen(0) {}
	void process(hogl::ostrbuf &, const data &d)
	{
		if (!eng || d.record->area == eng->internal_area()) return;
		auto &q = exp[d.ring_name];
		PBT_ASSERT(!q.empty(), "unexpected record from ring %s", d.ring_name);
		check_rec(d.record, q.front(), tail[d.ring_name]);
		q.pop_front(); seen++;
	}
};
struct NullBuf : public hogl::ostrbuf { NullBuf() : hogl::ostrbuf(64) {} void do_flush(const uint8_t *, size_t) { reset(); } };
struct Out2 : public hogl::output { Out2(hogl::format &f) : hogl::output(f) { hogl::output::init(new NullBuf); } };

static void args_engine(Src &s)
{
	CmpFormat fmt; Out2 out(fmt);
	hogl::engine::options eo = hogl::engine::default_options;
	eo.polling_interval_usec = 200; if (s.flip()) eo.features |= hogl::engine::DISABLE_TSO;
	std::vector<hogl::area *> areas = gen_areas(s);
	hogl::timesource tsrc("gen", now_cb);
	g_now = 1000;
	std::vector<hogl::ringbuf *> rings; Pool pool;
	unsigned nr = s.range(1, 3), total = 0;
	for (unsigned i = 0; i < nr; i++) {
		hogl::ringbuf::options o = gen_opts(s); o.capacity = 32;
		hogl::ringbuf *r = new hogl::ringbuf(strf("R%u", i).c_str(), o); r->hold(); r->timesource(&tsrc);
		rings.push_back(r); fmt.tail[r->name()] = r->record_tailroom();
	}
	hogl::engine *e = new hogl::engine(out, eo);
	fmt.eng = e;
	unsigned n = s.range(1, 20); ops(n);
	for (unsigned i = 0; i < n; i++) {
		hogl::ringbuf *r = rings[s.bits(nr)];
		note("ring %s", r->name());
		bool ok = s.chance(1, 3);
		if (ok) {
			hogl::tls t(r->hold(), e);
			fmt.exp[r->name()].push_back(post_one(s, r, areas, pool, true, r->record_tailroom()));
		} else fmt.exp[r->name()].push_back(post_one(s, r, areas, pool, false, r->record_tailroom()));
		total++;
	}
	// nothing is output before the rings are registered, so expectations are complete
	for (auto r : rings) PBT_ASSERT(e->add_ring(r), "add_ring");
	for (auto r : rings) r->release();
	delete e; fmt.eng = 0;
	PBT_ASSERT(fmt.seen == total, "%u of %u records reached the format handler", fmt.seen, total);
	for (auto a : areas) delete a;
}
PBT_SUITE("C04", "engine", args_engine, true, false, 2500, 200000, 40, 400, 20000, 0,
	"generated argument lists posted to 1..3 rings (some through the thread-local ring), then drained by an engine; the format handler compares every record");

// ------------------------------------------------------------------ C05
struct SBuf : public hogl::ostrbuf {
	std::string s;
	SBuf(size_t cap) : hogl::ostrbuf(cap) {}
	void do_flush(const uint8_t *d, size_t n) { if (s.size() > (64u << 20)) fail("the text of a record does not end"); s.append((const char *) head(), size()); reset(); if (d) s.append((const char *) d, n); }
};

// One printf conversion for one argument; returns the expected text and appends to the format.
static std::string conv(Src &s, std::string &f, std::vector<Val> &a, const std::vector<std::string> &)
{
	auto flagset = [&](const char *set) { std::string r; for (const char *p = set; *p; p++) if (s.chance(1, 4) && !(*p == ' ' && r.find('+') != std::string::npos)) r += *p; return r; };
	auto width = [&](int &w) { std::string r; w = 0; if (s.chance(1, 3)) { w = s.range(1, 30); r = strf("%d", w); } return r; };
	Val v; int w; std::string spec = "%", e;
	bool star = s.chance(1, 12);
	int sw = 0;
	auto starw = [&]() { if (star) { sw = (int) s.irange(-20, 20); Val x; x.k = I32; x.u = (uint32_t) sw; a.push_back(x); spec += "*"; } else spec += width(w); };
#define FMT1(val) (star ? strf(spec.c_str(), sw, val) : strf(spec.c_str(), val))
	switch (s.bits(8)) {
	case 0: { // signed 32
		v.k = s.pick({I32, CHR}); v.u = s.u64(); int32_t x = (int32_t) arg_value(v);
		bool prec = s.chance(1, 5);
		std::string fl = flagset("-+ "); if (!prec && fl.find('-') == std::string::npos && s.chance(1, 4)) fl += "0";
		if (star && fl.find('0') != std::string::npos) star = false;
		spec += fl; starw(); if (prec) spec += strf(".%d", (int) s.range(1, 15));
		spec += s.pick({"d", "i", "hd", "hhd", "ld"});
		if (spec[spec.size() - 2] == 'l') e = FMT1((long) x); else e = FMT1(x);
		a.push_back(v); break;
	}
	case 1: { // unsigned 32
		v.k = s.pick({U32, BOOL, U8, U16}); v.u = s.u64(); uint32_t x = arg_value(v);
		std::string c = s.pick({"u", "x", "X", "o", "lu", "lx"});
		bool prec = s.chance(1, 5); std::string fl = flagset("-");
		if (!prec && c != "u" && c != "lu" && s.chance(1, 4)) fl += "#";
		if (!prec && fl.find('-') == std::string::npos && s.chance(1, 4)) fl += "0";
		if (star && fl.find('0') != std::string::npos) star = false;
		spec += fl; starw(); if (prec) spec += strf(".%d", (int) s.range(1, 15));
		spec += c;
		if (c[0] == 'l') e = FMT1((unsigned long) x); else e = FMT1(x);
		a.push_back(v); break;
	}
	case 2: { // signed 64
		v.k = s.pick({I64L, I64LL}); v.u = s.u64();
		bool prec = s.chance(1, 5); std::string fl = flagset("-+ ");
		if (!prec && fl.find('-') == std::string::npos && s.chance(1, 4)) fl += "0";
		if (star && fl.find('0') != std::string::npos) star = false;
		spec += fl; starw(); if (prec) spec += strf(".%d", (int) s.range(1, 25));
		spec += s.pick({"ld", "lld", "li", "jd", "td"}); e = FMT1((long) v.u); a.push_back(v); break;
	}
	case 3: { // unsigned 64
		v.k = s.pick({U64L, U64LL}); v.u = s.u64();
		std::string c = s.pick({"lu", "llu", "lx", "llx", "zu", "lX", "lo"});
		bool prec = s.chance(1, 5); std::string fl = flagset("-");
		if (!prec && c.back() != 'u' && s.chance(1, 4)) fl += "#";
		if (!prec && fl.find('-') == std::string::npos && s.chance(1, 4)) fl += "0";
		if (star && fl.find('0') != std::string::npos) star = false;
		spec += fl; starw(); if (prec) spec += strf(".%d", (int) s.range(1, 25));
		spec += c; e = FMT1((unsigned long) v.u); a.push_back(v); break;
	}
	case 4: { // floating point
		v.k = s.pick({DBL, FLT}); v.d = gen_double(s); if (v.k == FLT) v.d = (float) v.d;
		if (!exact_double(v.d)) v.d = 1.25;
		char c = s.pick({'f', 'e', 'g', 'E', 'G', 'F'});
		std::string fl = flagset("-+ "); if (std::isfinite(v.d) && fl.find('-') == std::string::npos && s.chance(1, 4)) fl += "0";
		if (star && fl.find('0') != std::string::npos) star = false;
		spec += fl; starw();
		// the bundled library is not exact beyond 23 significant digits
		int most = 14; if ((c == 'f' || c == 'F') && std::isfinite(v.d) && fabs(v.d) >= 1) most = std::min(14, 23 - (int) ceil(log10(fabs(v.d) * 1.0001)));
		if (s.chance(1, 2)) spec += strf(".%d", (int) s.range(c == 'g' || c == 'G' ? 1 : 0, most));
		if (s.chance(1, 5)) spec += 'l';
		spec += c; e = FMT1(v.d); a.push_back(v); break;
	}
	case 5: { // strings
		v.k = s.pick({CSTR, SSTR, GSTR});
		if (v.k == GSTR) { v.u = s.chance(1, 20) ? 5 : s.bits(5); v.s = gtext(v.u); }
		else { v.s = gen_text(s, 60, false); for (char &c : v.s) if (!c) c = '0'; }
		std::string t = v.k != GSTR && v.s.empty() ? "null" : v.s;
		spec += flagset("-"); starw(); if (s.chance(1, 4)) spec += strf(".%d", (int) s.range(0, 20));
		// the width counts bytes for plain ASCII; other text is used without width
		bool ascii = true; for (unsigned char c : t) if (c >= 0x80) ascii = false;
		if (!ascii) { if (star) a.pop_back(); star = false; spec = "%"; }
		spec += "s"; e = FMT1(t.c_str()); a.push_back(v); break;
	}
	case 6: { v.k = CHR; v.u = s.range(0x20, 0x7e); spec += width(w); spec += "c"; e = strf(spec.c_str(), (int) v.u); a.push_back(v); break; }
	default: { v.k = s.pick({PTR, VPTR}); v.u = s.u64(); spec += flagset("-"); spec += width(w); spec += "p"; e = strf(spec.c_str(), (void *) v.u); a.push_back(v); break; }
	}
	f += spec;
	return e;
}

struct Rec { std::vector<uint64_t> mem; hogl::record *r() { return (hogl::record *) &mem[0]; } };

static void text(Src &s)
{
	static const char *const zones[] = { "UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "XYZ5:30", "EST5EDT", "CET-1CEST,M3.5.0,M10.5.0/3" };
	setenv("TZ", zones[s.bits(7)], 1); tzset();
	// field selection
	using F = hogl::format_basic;
	static const struct { const char *n; uint32_t b; } fn[] = { { "timespec", F::TIMESPEC }, { "timestamp", F::TIMESTAMP }, { "timedelta", F::TIMEDELTA }, { "ring", F::RING }, { "seqnum", F::SEQNUM }, { "area", F::AREA }, { "section", F::SECTION } };
	uint32_t fields; std::string how; F *fb;
	switch (s.weighted({4, 1, 1, 1, 1})) {
	case 0: fields = s.bits(128); break;
	case 1: fields = F::DEFAULT; break;
	case 2: fields = F::FAST0; break;
	case 3: fields = F::FAST1; break;
	default: fields = 0; break;
	}
	switch (s.bits(3)) {
	case 0: fb = new F(fields); break;
	case 1: {
		char d = s.pick({',', '|'}); std::string t;
		std::vector<unsigned> o; for (unsigned i = 0; i < 7; i++) if (fields >> i & 1) o.insert(o.begin() + s.bits(o.size() + 1), i);
		for (unsigned i : o) { if (!t.empty()) t += d; t += fn[i].n; }
		how = t; fb = s.flip() ? new F(t) : new F(t.c_str()); break;
	}
	default:
		if (s.flip()) { fields = F::DEFAULT; if (s.flip()) { fb = new F((const char *) 0); how = "null"; } else { fb = new F("default"); how = "default"; } }
		else if (s.flip()) { fields = F::FAST0; fb = new F("fast0"); how = "fast0"; }
		else { fields = F::FAST1; fb = new F("fast1"); how = "fast1"; }
	}
	note("TZ %s fields %x %s", getenv("TZ"), fields, how.c_str());
	SBuf sb(s.pick({0, 1, 16, 100, 1024, 4096}));
	uint64_t ts = s.chance(1, 4) ? 1 + s.u64() / 2 : 1 + s.bits(3000000000000000000ULL), last = 0;
	unsigned n = s.range(1, 6); ops(n);
	std::string all;
	for (unsigned k = 0; k < n; k++) {
		// names
		std::string an = s.str(1 + s.size(s.chance(1, 20) ? 2000 : 12), "ABCdef012_-. "), sn = s.str(1 + s.size(12), "XYZabc_-:"), rn = s.str(1 + s.size(s.chance(1, 20) ? 1500 : 12), "ring0123-");
		const char *sects[] = { "ZERO", sn.c_str(), 0 };
		hogl::area area(an.c_str(), sects); bool has_area = !s.chance(1, 15);
		std::vector<Val> a; std::vector<std::string> st; std::string body; bool isfmt = false;
		std::string fs; unsigned tail = 60000;
		switch (s.weighted({3, 3, 1})) {
		case 0: { // printf
			isfmt = true; Val f; f.k = s.pick({CSTR, GSTR, SSTR}); if (f.k == GSTR) f.k = CSTR;
			a.push_back(f); unsigned m = s.range(1, 5);
			for (unsigned i = 0; i < m && a.size() < 14; i++) {
				if (s.chance(1, 2)) { std::string lit = s.str(s.size(12), "abc XYZ.,:()[]{}<>\"'\\/\n\t"); fs += lit; body += lit; }
				if (s.chance(1, 6)) { fs += "%%"; body += "%"; }
				if (a.size() > 1 && a.size() < 14 && s.chance(1, 12)) { // a dump cannot be formatted; the arguments behind it keep their places
					Val v; v.k = s.pick({RAW, XD}); v.s = s.bytes(4 * s.size(10)); if (v.k == XD) v.xd.fmt = hogl::arg_xdump::format('x', 4, 0, 0, ','); fs += "%s";
					body += v.k == XD ? "xdump not supported with format strings" : "rawdata data not supported with format strings"; a.push_back(v); label("dump-with-format");
				}
				std::string e = conv(s, fs, a, st); body += e;
			}
			if (s.chance(1, 2)) { fs += " tail"; body += " tail"; }
			if (s.chance(1, 8) && a.size() < 16) { Val x; x.k = U32; x.u = 5; a.push_back(x); } // surplus argument
			a[0].s = fs; break;
		}
		case 1: { // plain list
			unsigned m = s.range(0, s.chance(1, 3) ? 16 : 5);
			for (unsigned i = 0; i < m; i++) {
				Val v = gen_val(s, 300);
				if ((v.k == DBL || v.k == FLT) && !exact_double(v.d)) v.d = -0.125;
				if (v.k == CSTR || v.k == SSTR) for (char &c : v.s) if (!c) c = '0';
				a.push_back(v);
			}
			// a leading string followed by a value is a format string: start with a number, or the dump form
			if (a.size() > 1 && a[0].textual() && a[1].k != RAW && a[1].k != XD) { a[0] = Val(); a[0].k = U32; a[0].u = s.u64(); }
			if (s.chance(1, 6)) tail = 128 + s.range(0, 40);
			break;
		}
		default: { // single string, percent signs and all
			Val v; v.k = s.pick({CSTR, SSTR, GSTR}); if (v.k == GSTR) { v.u = s.chance(1, 20) ? 5 : s.bits(5); v.s = gtext(v.u); } else { v.s = gen_text(s, 200, false); for (char &c : v.s) if (!c) c = '0'; }
			a.push_back(v); break;
		}
		}
		for (auto &v : a) note("   %s", show(v).c_str());
		Pool pool; hogl::arg args[16]; for (unsigned i = 0; i < a.size(); i++) args[i] = to_arg(a[i], pool);
		Rec rec; rec.mem.resize((hogl::record::header_size() + tail + 8) / 8);
		hogl::record *r = rec.r(); r->clear();
		if (k && s.flip()) ts += s.bits(2000000000); else if (k && s.chance(1, 3)) ts += s.bits(1ULL << 40);
		bool delta = fields & F::TIMEDELTA;
		if (k && !delta && s.chance(1, 3)) ts = 1 + s.bits(3000000000000000000ULL);
		r->area = has_area ? &area : 0; r->section = 1; r->timestamp = ts; r->seqnum = s.u64() & ((1ULL << 52) - 1);
		r->set_args(tail, A16(args));
		st = stored(a, tail);
		// header
		std::string e; struct tm tm; time_t sec = ts / 1000000000; unsigned long ns = ts % 1000000000;
		localtime_r(&sec, &tm);
		if (fields & F::TIMESPEC) e += strf("%011lu.%09lu ", (unsigned long) sec, ns);
		if (fields & F::TIMESTAMP) { char b[64]; strftime(b, sizeof b, "%m%d", &tm); e += b; e += strf("%04d ", tm.tm_year + 1900); strftime(b, sizeof b, "%H:%M:%S", &tm); e += b; e += strf(".%09lu ", ns); }
		if (delta) { e += strf("(%llu) ", (ull) (k ? ts - last : 0)); }
		last = ts;
		if ((fields & F::RING) && (fields & F::SEQNUM)) e += rn + strf(":%llu ", (ull) r->seqnum);
		else if (fields & F::RING) e += rn + " ";
		else if (fields & F::SEQNUM) e += strf("%llu ", (ull) r->seqnum);
		std::string ean = has_area ? an : "INVALID", esn = has_area ? sn : "INVALID";
		if ((fields & F::AREA) && (fields & F::SECTION)) e += ean + ":" + esn + " ";
		else if (fields & F::AREA) e += ean + " ";
		else if (fields & F::SECTION) e += esn + " ";
		// arguments
		if (!isfmt) for (unsigned i = 0; i < a.size(); i++) {
			unsigned len; const void *dp = a[i].complex() ? r->get_arg_data(i, len) : 0;
			if (i) body += ' ';
			body += plain_text(a[i], st[i], dp);
			if (!i && a[i].k == RAW) break; // raw records show only the raw block
		}
		body += "\n"; e += body;
		hogl::format::data d = {}; d.ring_name = rn.c_str(); d.record = r;
		fb->process(sb, d);
		size_t at = all.size(); all += e;
		sb.flush();
		PBT_ASSERT(sb.s == all, "record %u: text\n  %s\nexpected\n  %s", k, pbt::show(sb.s.size() > at ? sb.s.substr(at) : sb.s, 400).c_str(), pbt::show(e, 400).c_str());
		if (a.size() > 1) nontrivial(hash_str(all));
		label(isfmt ? "printf record" : "plain record");
	}
	delete fb;
}
PBT_SUITE("C05", "text", text, false, false, 400000, 8000000, 40, 600, 20000, 0,
	"1..6 records through one formatter with generated fields, names, time zone and arguments against an independent renderer; non-trivial: at least two arguments");

int main(int argc, char **argv) { return run_main(argc, argv); }
