// C26: what the library says about itself (dumps of rings, areas, masks, options, statistics and engines, lists of names).
#include "hoglsim.hpp"
#include <sstream>
#include <hogl/detail/schedparam.hpp>
using namespace sim;
typedef std::vector<std::string> Strs;
typedef std::multimap<std::string, std::string> KV;

// ---------------------------------------------------------------- reading a dump
static Strs lines(const std::string &t)
{
	Strs o; for (size_t p = 0; p < t.size();) { size_t e = t.find('\n', p); PBT_ASSERT(e != t.npos, "a dump does not end with a newline: %s", show(t, 300).c_str()); o.push_back(t.substr(p, e - p)); p = e + 1; }
	return o;
}
static std::string trim(std::string t) { while (!t.empty() && t[0] == ' ') t.erase(0, 1); while (!t.empty() && t.back() == ' ') t.pop_back(); return t; }
// "{ key:value, key:value }"
static KV fields(const std::string &text)
{
	std::string t = text; while (!t.empty() && t.back() == 10) t.pop_back(); t = trim(t); PBT_ASSERT(t.size() >= 2 && t[0] == '{' && t.back() == '}', "not a list of fields: %s", show(text, 300).c_str());
	KV o; t = t.substr(1, t.size() - 2);
	for (size_t p = 0; p < t.size();) { size_t e = t.find(", ", p); std::string f = trim(t.substr(p, e == t.npos ? t.npos : e - p)); p = e == t.npos ? t.size() : e + 2; if (f.empty() || f == ",") continue; size_t c = f.find(':'); PBT_ASSERT(c != f.npos, "field without value %s", show(f).c_str()); o.insert(std::make_pair(f.substr(0, c), f.substr(c + 1))); }
	return o;
}
static void want(const KV &kv, const char *key, const std::string &v, const char *what)
{
	auto r = kv.equal_range(key); PBT_ASSERT(r.first != r.second, "%s: no field %s", what, key);
	for (auto i = r.first; i != r.second; ++i) PBT_ASSERT(i->second == v, "%s: %s is shown as %s, but is %s", what, key, show(i->second).c_str(), show(v).c_str());
}
static uint64_t number(const KV &kv, const char *key, const char *what, bool hex = false)
{
	auto i = kv.find(key); PBT_ASSERT(i != kv.end(), "%s: no field %s", what, key); char *e; uint64_t v = strtoull(i->second.c_str(), &e, hex ? 16 : 10);
	PBT_ASSERT(!i->second.empty() && !*e, "%s: %s is not a number: %s", what, key, show(i->second).c_str()); return v;
}
static std::string num(uint64_t v, bool hex) { return strf(hex ? "%llx" : "%llu", (ull) v); }
static std::string ring_name(const std::string &l, std::string &rest)
{
	size_t p = l.rfind(": {"); PBT_ASSERT(p != l.npos, "not a ring: %s", show(l, 300).c_str()); rest = l.substr(p + 2); return trim(l.substr(0, p));
}
static void ring_fields(const KV &kv, const hogl::ringbuf *r, bool hex, unsigned own, const char *what)
{
	want(kv, "prio", num(r->prio(), hex), what); want(kv, "seqnum", num(r->seqnum(), hex), what); want(kv, "dropcnt", num(r->dropcnt(), hex), what);
	want(kv, "capacity", num(r->capacity(), hex), what); want(kv, "size", num(r->size(), hex), what); want(kv, "room", num(r->room(), hex), what);
	want(kv, "record_size", num(r->record_size(), hex), what); want(kv, "record_tailroom", num(r->record_tailroom(), hex), what);
	want(kv, "timesource", r->timesource() ? r->timesource()->name() : "null", what);
	uint64_t c = number(kv, "refcnt", what, hex); PBT_ASSERT(c >= r->refcnt() && c <= r->refcnt() + own, "%s: refcnt is shown as %llu, but is %u", what, (ull) c, (unsigned) r->refcnt());
}
struct Parts { Strs opt, mask, stats, rings, areas; };
static Parts engine_parts(const std::string &t)
{
	Parts p; Strs *at = 0; unsigned seen = 0;
	for (auto &l : lines(t)) {
		std::string x = trim(l); Strs *n = x == "Options:" ? &p.opt : x == "Mask:" ? &p.mask : x == "Stats:" ? &p.stats : x == "Rings:" ? &p.rings : x == "Areas:" ? &p.areas : 0;
		if (n) { at = n; seen++; continue; }
		PBT_ASSERT(at, "dump of the engine starts with %s", show(l).c_str()); at->push_back(x);
	}
	PBT_ASSERT(seen == 5 && p.opt.size() == 1 && p.stats.size() == 1, "dump of the engine has %u parts, %zu lines of options, %zu lines of statistics", seen, p.opt.size(), p.stats.size());
	return p;
}
static Strs area_lines(const hogl::area *a) { Strs o; for (unsigned i = 0; i < a->count(); i++) o.push_back(strf("%s%s:%s", a->test(i) ? "" : "!", a->name(), a->section_name(i))); return o; }
static std::string join(const Strs &v) { std::string o; for (auto &x : v) o += x + "; "; return o; }

struct Fmt { bool hex; unsigned width; std::ios_base::fmtflags set(std::ostringstream &o) const { if (hex) o.setf(std::ios_base::hex, std::ios_base::basefield); o.width(width); return o.flags(); } };
template <class T> static std::string dumped(const T &x, const Fmt &f)
{
	std::ostringstream o; std::ios_base::fmtflags g = f.set(o); o << x; PBT_ASSERT(o.flags() == g, "a dump leaves the stream with other flags (%x, before %x)", (unsigned) o.flags(), (unsigned) g); PBT_ASSERT(o.good(), "a dump leaves the stream failed"); return o.str();
}
// takes so many characters and fails
struct Short : public std::streambuf { std::string got; size_t left; Short(size_t n) : left(n) {} int overflow(int c) { if (!left) return EOF; left--; got += (char) c; return c; } };
static Strs names(hogl::engine *e, bool ring)
{
	hogl::string_list l; l.push_back("was there"); if (ring) e->list_rings(l); else e->list_areas(l); PBT_ASSERT(!l.empty() && l.front() == "was there", "listing removed what was in the list"); l.pop_front();
	Strs o(l.begin(), l.end()); std::sort(o.begin(), o.end()); return o;
}
static void stat_fields(const KV &kv, const hogl::engine::stats &st, bool hex)
{
	const char *W = "statistics"; want(kv, "tso_full", num(st.tso_full, hex), W); want(kv, "recs_out", num(st.recs_out, hex), W); want(kv, "recs_dropped", num(st.recs_dropped, hex), W); want(kv, "loops", num(st.loops, hex), W);
	want(kv, "rings_indexed", num(st.rings_indexed, hex), W); want(kv, "areas_added", num(st.areas_added, hex), W); want(kv, "mask_changed", num(st.mask_changed, hex), W); want(kv, "timesource_changed", num(st.timesource_changed, hex), W);
}
static std::string gen_name(Src &s, const char *pre, unsigned i) { return strf("%s%u%s", pre, i, s.chance(1, 3) ? s.str(s.range(0, 12), "abcXYZ_.-/()[]*").c_str() : ""); }
static std::string gen_rule(Src &s)
{
	static const char *A[] = { "", ".*", "A", "area0", "area.*", "HOGL", "area[0-3].*", "(A|area1).*" }, *X[] = { "", ".*", "INFO", "WARN|ERROR", "S.*", "S[0-2]", "DEBUG", "DROPMARK" };
	std::string r = std::string(s.flip() ? "!" : "") + A[s.bits(8)] + (s.chance(4, 5) ? ":" : "") + X[s.bits(8)]; return r.empty() || r == "!" ? ".*:INFO" : r;
}
// a mask and its dump read back mean the same
static void mask_round_trip(const hogl::mask &m, const Strs &rules, const Fmt &f, const std::vector<std::pair<std::string, Strs>> &areas)
{
	std::string t = dumped(m, f); Strs got; for (auto &l : lines(t)) got.push_back(trim(l)); PBT_ASSERT(got == rules, "mask is shown as %s, its rules are %s", show(join(got), 300).c_str(), show(join(rules), 300).c_str());
	std::istringstream in(t); hogl::mask back; if (f.width) { std::string u; for (auto &x : got) u += x + "\n"; in.str(u); } in >> back;
	for (auto &a : areas) {
		std::vector<const char *> p; for (auto &x : a.second) p.push_back(x.c_str()); p.push_back(0); const char **ps = a.second.empty() ? 0 : p.data();
		hogl::area x(a.first.c_str(), ps), y(a.first.c_str(), ps); m.apply(&x); back.apply(&y);
		for (unsigned i = 0; i < x.count(); i++) PBT_ASSERT(x.test(i) == y.test(i), "mask %s read back switches %s:%s %s", show(t, 300).c_str(), a.first.c_str(), x.section_name(i), y.test(i) ? "on" : "off");
	}
}

// ---------------------------------------------------------------- engine held by the harness
static void look(Src &s, World &w, const std::vector<std::pair<std::string, Strs>> &areas, const Strs &rules, uint64_t nmask, uint64_t nadd)
{
	Fmt f = { s.chance(1, 4), s.chance(1, 3) ? (unsigned) s.bits(12) : 0 }; hogl::engine::stats st0 = w.eng->get_stats(); Strs r0 = names(w.eng, true); std::vector<unsigned> ref;
	for (auto &x : w.rings) ref.push_back(x.r ? x.r->refcnt() : 0);
	std::set<std::string> must, may;
	for (auto &x : w.rings) {
		if (x.attached) { may.insert(x.name); if (x.owned) must.insert(x.name); }
		if (!x.r) continue;
		std::string d = dumped(*x.r, f), rest; Strs l = lines(d); PBT_ASSERT(l.size() == 1, "a ring is shown as %zu lines", l.size()); PBT_ASSERT(ring_name(l[0], rest) == trim(x.name), "ring %s is shown as %s", x.name.c_str(), show(l[0]).c_str());
		KV kv = fields(rest); ring_fields(kv, x.r, f.hex, 0, x.name.c_str());
		want(kv, "seqnum", num(x.seq, f.hex), "posts"); want(kv, "dropcnt", num(x.drops, f.hex), "dropped posts"); want(kv, "prio", num(std::min(x.prio, 9999), f.hex), "options");
		if (!x.attached) want(kv, "size", num(x.acc.size(), f.hex), "records posted"); 
		PBT_ASSERT(number(kv, "size", "ring", f.hex) + number(kv, "room", "ring", f.hex) + 1 == x.cap, "%s of a ring of %u records: size and room do not add up", show(l[0]).c_str(), x.cap);
	}
	std::string all = dumped(*w.eng, f); Parts p = engine_parts(all);
	if (s.chance(1, 2)) { // a stream that fails on the way
		Short b(s.bits(all.size())); std::ostream o(&b); if (f.hex) o.setf(std::ios_base::hex, std::ios_base::basefield); o.width(f.width); std::ios_base::fmtflags g = o.flags(); o << *w.eng; PBT_ASSERT(o.flags() == g, "a dump leaves a failed stream with other flags");
		PBT_ASSERT(b.got.size() <= all.size() && (w.degraded || all.compare(0, b.got.size(), b.got) == 0), "the engine is shown as %s in a stream that fails after %zu of %zu characters", show(b.got, 300).c_str(), b.got.size(), all.size());
	}
	std::set<std::string> seen; for (auto &l : p.rings) {
		std::string rest, n = ring_name(l, rest); PBT_ASSERT(seen.insert(n).second, "ring %s is shown twice", n.c_str()); PBT_ASSERT(may.count(n), "the engine shows ring %s, which was never registered", n.c_str());
		KV kv = fields(rest); for (auto &x : w.rings) if (x.attached && x.r && x.name == n) { ring_fields(kv, x.r, f.hex, 1, n.c_str()); }
	}
	for (auto &n : must) PBT_ASSERT(seen.count(n), "the engine does not show ring %s", n.c_str());
	PBT_ASSERT(r0 == Strs(seen.begin(), seen.end()), "list_rings returns %s, the engine shows %s", join(r0).c_str(), join(Strs(seen.begin(), seen.end())).c_str());
	Strs al = names(w.eng, false), an; for (auto &a : areas) an.push_back(a.first); an.push_back("HOGL"); std::sort(an.begin(), an.end()); PBT_ASSERT(al == an, "list_areas returns %s, registered are %s", join(al).c_str(), join(an).c_str());
	Strs ws, gs = p.areas; for (auto &n : an) { const hogl::area *a = w.eng->find_area(n.c_str()); PBT_ASSERT(a, "area %s not found", n.c_str()); Strs x = area_lines(a); Strs y; for (auto &l : lines(dumped(*a, f))) y.push_back(trim(l)); PBT_ASSERT(x == y, "area is shown as %s, but is %s", show(join(y), 300).c_str(), show(join(x), 300).c_str()); ws.insert(ws.end(), x.begin(), x.end()); }
	for (auto &a : areas) { const hogl::area *x = w.eng->find_area(a.first.c_str()); if (!a.second.empty()) { PBT_ASSERT(x->count() == a.second.size(), "area %s has %u sections", a.first.c_str(), x->count()); for (unsigned i = 0; i < x->count(); i++) PBT_ASSERT(a.second[i] == x->section_name(i), "section %u of %s", i, a.first.c_str()); } }
	std::sort(ws.begin(), ws.end()); std::sort(gs.begin(), gs.end()); PBT_ASSERT(ws == gs, "the engine shows areas %s, they are %s", show(join(gs), 400).c_str(), show(join(ws), 400).c_str());
	Strs mr; for (auto &r : rules) mr.push_back(trim(r)); PBT_ASSERT(p.mask == mr, "the engine shows mask %s, it is %s", show(join(p.mask), 300).c_str(), show(join(mr), 300).c_str());
	mask_round_trip(w.eng->get_mask(), mr, f, areas);
	hogl::engine::stats st1 = w.eng->get_stats(); if (!w.degraded) { stat_fields(fields(p.stats[0]), st0, f.hex); PBT_ASSERT(!memcmp(&st0, &st1, sizeof(st0)), "looking changed the statistics"); stat_fields(fields(dumped(st1, f)), st1, f.hex); }
	PBT_ASSERT(st1.mask_changed == nmask, "mask_changed is %lu after %llu changes", st1.mask_changed, (ull) nmask);
	PBT_ASSERT(st1.areas_added >= areas.size() && st1.areas_added <= nadd + 1, "areas_added is %lu after %llu calls and %zu areas", st1.areas_added, (ull) nadd, areas.size());
	KV o = fields(p.opt[0]); const char *W = "options"; want(o, "polling_interval_usec", num(w.o.poll, f.hex), W); want(o, "tso_buffer_capacity", num(w.o.tsocap, f.hex), W); want(o, "features", num(w.o.tso ? 0 : hogl::engine::DISABLE_TSO, true), W); want(o, "timesource", "clkA", W);
	for (size_t i = 0; i < w.rings.size(); i++) if (w.rings[i].r) PBT_ASSERT(w.rings[i].r->refcnt() == ref[i], "looking changed the references of %s from %u to %u", w.rings[i].name.c_str(), ref[i], (unsigned) w.rings[i].r->refcnt());
	if (!w.degraded) PBT_ASSERT(names(w.eng, true) == r0, "looking changed the registered rings");
}
static void dumps(Src &s)
{
	Options o; o.tso = s.chance(3, 4); o.tsocap = s.pick({16u, 64u, 4096u}); o.dropmark = s.flip(); o.poll = s.pick({50u, 100u, 1000u}); o.bufcap = 0;
	World w(o); hogl::engine *prev = hogl::default_engine; std::vector<std::pair<std::string, Strs>> areas; areas.push_back({ "A", {} }); Strs rules; uint64_t nmask = 0, nadd = 1, clk = 2000, looks = 0, changes = 0, h = 3; unsigned na = 0;
	{ std::ostringstream d; d << w.eng->get_options().default_mask; rules = lines(d.str()); Strs want; want.push_back(".*:(INFO|WARN|ERROR|FATAL).*"); if (!o.dropmark) want.push_back("!HOGL:DROPMARK"); PBT_ASSERT(rules == want, "default mask is %s", join(rules).c_str()); }
	unsigned n = 4 + s.size(50);
	for (unsigned i = 0; i < n; i++) {
		int op = s.weighted({4, 8, 5, 2, 2, 3, 3, 2, 6}); h = hash_add(h, op); changes++;
		Ring *x = 0; if (!w.rings.empty()) { x = &w.rings[s.bits(w.rings.size())]; if (!x->r) x = 0; }
		switch (op) {
		case 0: { hogl::ringbuf::options ro = {}; ro.capacity = s.pick({2u, 3u, 8u, 64u, 1024u}); ro.prio = s.pick({0u, 1u, 77u, 9999u, 20000u}); ro.flags = s.bits(8) & ~4u; ro.record_tailroom = s.range(0, 600); bool det = s.chance(1, 3); std::string nm = gen_name(s, "ring", w.rings.size()); w.new_ring(ro, det, nm.c_str()); note("ring %s%s", nm.c_str(), det ? " (not registered)" : ""); break; }
		case 1: if (x) { unsigned k = s.range(1, 12); note("%u posts to %s", k, x->name.c_str()); while (k--) w.post(*x, clk += s.bits(20) + 1); } break;
		case 2: note("a pass"); w.step(s.chance(1, 4) ? s.range(1, 6) : 0); break;
		case 3: if (x && !x->attached) { note("%s is registered", x->name.c_str()); w.attach(*x); } break;
		case 4: if (x && x->attached) { note("%s is released", x->name.c_str()); w.release(*x); } break;
		case 5: { Strs v; if (s.flip()) { unsigned k = s.range(1, s.chance(1, 5) ? 70 : 5); for (unsigned j = 0; j < k; j++) v.push_back(strf("S%u", j)); } bool again = s.chance(1, 3); std::pair<std::string, Strs> a = again ? areas[s.bits(areas.size())] : std::make_pair(gen_name(s, "area", na), v); std::vector<const char *> p; for (auto &q : a.second) p.push_back(q.c_str()); p.push_back(0); nadd++;
			if (!again) { na++; areas.push_back(a); } const hogl::area *q = w.eng->add_area(a.first.c_str(), a.second.empty() ? 0 : p.data()); PBT_ASSERT(q, "add_area(%s) refused", a.first.c_str()); note("area %s", a.first.c_str()); break; }
		case 6: { Strs r; hogl::mask m; unsigned k = s.range(0, 4); r.push_back("A:INFO"); m << "A:INFO"; if (k && s.flip()) { r.clear(); m.clear(); } for (unsigned j = 0; j < k; j++) { r.push_back(gen_rule(s)); m << r.back(); } r.push_back("A:INFO"); m << "A:INFO"; w.eng->apply_mask(m); m.clear(); m << "!.*"; rules = r; nmask++; note("mask %s", join(r).c_str()); break; }
		case 7: { // default engine wrappers
			hogl::default_engine = w.eng; hogl::string_list a, b; hogl::list_rings(a); hogl::list_areas(b); Strs c(a.begin(), a.end()), d(b.begin(), b.end()); std::sort(c.begin(), c.end()); std::sort(d.begin(), d.end()); hogl::default_engine = prev;
			PBT_ASSERT(c == names(w.eng, true) && d == names(w.eng, false), "lists of the default engine: %s %s", join(c).c_str(), join(d).c_str()); break; }
		default: look(s, w, areas, rules, nmask, nadd); looks++; note("looked"); }
	}
	look(s, w, areas, rules, nmask, nadd); w.to_end();
	unsigned posted = 0; for (auto &x : w.rings) posted += x.acc.size();
	w.drain(); w.to_end(); look(s, w, areas, rules, nmask, nadd);
	w.finish(); { std::vector<Ev> e; for (auto &v : w.ev) if (!v.internal || is_drop(v)) e.push_back(v); w.ev = e; } check_exactly_once(w);
	if (w.degraded) label("degraded"); ops(changes); if (posted && looks) nontrivial(h);
}
PBT_SUITE("C26", "dumps", dumps, false, false, 15000, 200000, 30, 300, 20000, 0,
	"histories of rings, areas, masks and posts with the engine held between or in the middle of passes; every dump is compared with the accessors and the model and must leave everything as it was; non-trivial: records posted and looked at in between");

// ---------------------------------------------------------------- objects of their own
static void objects(Src &s)
{
	Fmt f = { s.chance(1, 4), s.chance(1, 3) ? (unsigned) s.bits(12) : 0 }; uint64_t h = 7;
	{ int pol = s.irange(0, 5), prio = s.irange(-3, 99); std::string aff = s.str(s.range(0, 12), "0123456789abcfx,-:list mask"); hogl::schedparam p(pol, prio, 0, aff); Fmt d = { false, 0 }; std::string t = dumped(p, d); std::string want = strf("{ policy:%d, priority:%d, cpu-affinity:%s }", pol, prio, aff.c_str()); std::string sq; for (char c : t) if (c != '\n') sq += c; PBT_ASSERT(trim(sq) == want, "schedparam is shown as %s, but is %s", show(t).c_str(), want.c_str()); }
	{ hogl::engine::options o = hogl::engine::default_options; hogl::timesource ts("my clock", clk_cb); o.polling_interval_usec = s.u64(); o.tso_buffer_capacity = s.bits(100000); o.features = s.bits(16); o.timesource = s.flip() ? &ts : 0; hogl::schedparam sp(0, 0, 0, ""); o.schedparam = s.flip() ? &sp : 0;
	  KV k = fields(trim(lines(dumped(o, f))[0])); want(k, "polling_interval_usec", num(o.polling_interval_usec, f.hex), "options"); want(k, "tso_buffer_capacity", num(o.tso_buffer_capacity, f.hex), "options"); want(k, "features", num(o.features, true), "options"); want(k, "timesource", o.timesource ? "my clock" : "null", "options"); h = hash_add(h, o.polling_interval_usec); }
	{ hogl::engine::stats st; st.tso_full = s.u64(); st.recs_out = s.u64(); st.recs_dropped = s.u64(); st.loops = s.u64(); st.rings_indexed = s.u64(); st.areas_added = s.u64(); st.mask_changed = s.u64(); st.timesource_changed = s.u64(); stat_fields(fields(trim(lines(dumped(st, f))[0])), st, f.hex); h = hash_add(h, st.loops); }
	std::vector<std::pair<std::string, Strs>> areas; unsigned na = s.range(1, 4);
	for (unsigned i = 0; i < na; i++) {
		Strs v; if (s.flip()) { unsigned k = s.range(1, s.chance(1, 4) ? 200 : 6); for (unsigned j = 0; j < k; j++) v.push_back(strf("S%u", j)); } areas.push_back({ gen_name(s, "area", i), v });
		std::vector<const char *> p; for (auto &q : v) p.push_back(q.c_str()); p.push_back(0); hogl::area a(areas[i].first.c_str(), v.empty() ? 0 : p.data()); static const char *D[] = { "INFO", "WARN", "ERROR", "FATAL", "DEBUG", "TRACE" }; Strs want;
		for (unsigned j = 0; j < a.count(); j++) { bool on = s.flip(); if (on) a.enable(j); want.push_back(strf("%s%s:%s", on ? "" : "!", areas[i].first.c_str(), v.empty() ? D[j] : v[j].c_str())); }
		if (s.chance(1, 5)) { bool on = s.flip(); if (on) a.enable(); else a.disable(); for (auto &x : want) { if (x[0] == '!') x.erase(0, 1); if (!on) x = "!" + x; } }
		Strs got; for (auto &l : lines(dumped(a, f))) got.push_back(trim(l)); PBT_ASSERT(got == want, "area is shown as %s, but is %s", show(join(got), 300).c_str(), show(join(want), 300).c_str()); h = hash_add(h, hash_str(join(want)));
	}
	Strs rules; hogl::mask m; unsigned k = s.range(0, 6); for (unsigned i = 0; i < k; i++) { rules.push_back(gen_rule(s)); if (s.flip()) m << rules.back(); else m.add(rules.back()); }
	mask_round_trip(m, rules, f, areas); hogl::mask c(m), e; e = m; mask_round_trip(c, rules, f, areas); mask_round_trip(e, rules, f, areas); c << "A:X"; mask_round_trip(m, rules, f, areas);
	hogl::ringbuf::options ro = {}; ro.capacity = s.pick({2u, 16u, 1024u}); ro.prio = s.bits(20000); ro.flags = s.bits(8) & ~4u; ro.record_tailroom = s.bits(2000);
	hogl::ringbuf *r = new hogl::ringbuf("a ring", ro); r->hold(); hogl::timesource ts("my clock", clk_cb); unsigned holds = s.bits(4); for (unsigned i = 0; i < holds; i++) r->hold(); if (s.flip()) r->timesource(&ts);
	hogl::area a("A"); a.enable(); if (r->timesource()) { unsigned n = s.bits(40); for (unsigned i = 0; i < n; i++) hogl::post(r, &a, 0u, i); PBT_ASSERT(r->seqnum() == n, "seqnum"); }
	std::string d = dumped(*r, f), rest; PBT_ASSERT(ring_name(lines(d)[0], rest) == "a ring", "ring is shown as %s", show(d).c_str()); KV kv = fields(rest); ring_fields(kv, r, f.hex, 0, "ring"); want(kv, "refcnt", num(holds + 1, f.hex), "ring"); PBT_ASSERT(r->refcnt() == (int) holds + 1, "references changed");
	for (unsigned i = 0; i <= holds; i++) r->release();
	ops(na + k + 4); nontrivial(h);
}
PBT_SUITE("C26", "objects", objects, false, false, 200000, 600000, 12, 120, 10000, 0,
	"generated statistics, options, areas, masks, rings and scheduling parameters against their dumps; masks are read back from their dump; every case counts");

// ---------------------------------------------------------------- everything else goes on meanwhile
struct Busy {
	hogl::engine *e; const hogl::area *a; volatile bool stop; pthread_mutex_t m; std::map<std::string, std::vector<uint64_t>> acc; std::set<std::string> rings, areas, done; unsigned cap, mode; uint64_t seed; volatile unsigned started;
};
struct Thr { Busy *b; unsigned k, n; };
static void *worker(void *v)
{
	Thr &t = *(Thr *) v; Busy &b = *t.b; uint64_t x = b.seed * 977 + t.k; auto rnd = [&](unsigned n) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned) ((x >> 33) % n); };
	__sync_fetch_and_add(&b.started, 1);
	for (unsigned i = 0; i < t.n; i++) {
		if (t.k % 3 == 2) { // registers areas, changes the mask
			std::string nm = strf("area-%u-%u", t.k, i); const char *S[] = { "X", "Y", 0 }; if (rnd(2)) { { Lock l(&b.m); b.areas.insert(nm); } b.e->add_area(nm.c_str(), S); Lock l(&b.m); b.done.insert(nm); }
			else { hogl::mask m(".*:INFO", "!HOGL:.*", 0); for (unsigned j = rnd(4); j--;) m << strf("area-%u.*:%s", rnd(6), rnd(2) ? "X" : "Y"); b.e->apply_mask(m); }
			continue;
		}
		std::string nm = strf("ring-%u-%u", t.k, i); { Lock l(&b.m); b.rings.insert(nm); } hogl::ringbuf::options ro = {}; ro.capacity = b.cap; ro.prio = rnd(10); ro.record_tailroom = 40;
		hogl::ringbuf *r = b.e->add_ring(nm.c_str(), ro); if (!r) fail("add_ring(%s) refused", nm.c_str());
		std::vector<uint64_t> acc; for (unsigned j = rnd(60); j--;) { uint64_t id = (uint64_t) (t.k + 1) << 40 | (uint64_t) i << 16 | j, d = r->dropcnt(); hogl::post(r, b.a, (unsigned) hogl::area::INFO, id, ~id); if (r->dropcnt() == d) acc.push_back(id); if (rnd(16) == 0) sched_yield(); }
		{ Lock l(&b.m); b.acc[nm] = acc; } r->release();
	}
	return 0;
}
static void busy(Src &s)
{
	Busy b; pthread_mutex_init(&b.m, 0); b.stop = false; b.started = 0; b.cap = s.pick({4u, 64u, 256u}); b.seed = s.u64(); b.mode = 0; unsigned nt = s.range(1, 5), nd = s.range(1, 2); Thr t[8]; pthread_t th[8]; clock_now() = 1000;
	RecFormat fmt; Out *out = new Out(fmt, 0); hogl::timesource tA("clkA", clk_cb); hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = s.pick({0u, 50u, 500u}); eo.timesource = &tA; eo.default_mask = hogl::mask(".*:INFO", "!HOGL:.*", 0); if (s.flip()) eo.features = hogl::engine::DISABLE_TSO;
	b.e = new hogl::engine(*out, eo); fmt.eng = b.e; b.a = b.e->add_area("A"); hogl::ringbuf::options ro = {}; ro.capacity = 16; ro.prio = 5; ro.record_tailroom = 80; hogl::ringbuf *always = b.e->add_ring("always", ro);
	for (unsigned i = 0; i < nt; i++) { t[i] = Thr{ &b, (unsigned) i, (unsigned) s.range(1, 25) }; }
	note("%u workers, rings of %u, %u looking", nt, b.cap, nd);
	for (unsigned i = 0; i < nt; i++) if (pthread_create(&th[i], 0, worker, &t[i])) fail("thread");
	std::map<std::string, uint64_t> last; unsigned looks = 0, nl = s.range(5, 60), most = 0;
	for (; looks < nl; looks++) {
		Fmt f = { false, 0 }; std::set<std::string> rings, areas, before; { Lock l(&b.m); before = b.done; } Parts p = engine_parts(dumped(*b.e, f)); bool al = false; { Lock l(&b.m); rings = b.rings; areas = b.areas; }
		std::set<std::string> seen; for (auto &l : p.rings) {
			std::string rest, n = ring_name(l, rest); KV kv = fields(rest); PBT_ASSERT(seen.insert(n).second, "ring %s is shown twice", n.c_str());
			if (n == "always") { al = true; want(kv, "capacity", num(always->capacity(), false), "always"); want(kv, "prio", "5", "always"); want(kv, "size", "0", "always"); want(kv, "seqnum", "0", "always"); continue; }
			PBT_ASSERT(rings.count(n), "ring %s is shown, which nobody registers", n.c_str()); uint64_t q = number(kv, "seqnum", n.c_str()), z = number(kv, "size", n.c_str()); PBT_ASSERT(q >= last[n] && q <= 60, "ring %s: sequence number %llu, before %llu", n.c_str(), (ull) q, (ull) last[n]); last[n] = q; PBT_ASSERT(z < b.cap && number(kv, "room", n.c_str()) < b.cap, "ring %s of %u: %s", n.c_str(), b.cap, l.c_str());
		}
		most = std::max<unsigned>(most, seen.size()); PBT_ASSERT(al, "a registered ring is not shown");
		std::map<std::string, unsigned> sect; for (auto &l : p.areas) { std::string x = l[0] == '!' ? l.substr(1) : l; size_t c = x.find(':'); PBT_ASSERT(c != x.npos, "area line %s", show(l).c_str()); sect[x.substr(0, c)]++; }
		for (auto &q : sect) PBT_ASSERT(q.first == "HOGL" || q.first == "A" ? q.second >= 1 : areas.count(q.first) && q.second == 2, "area %s is shown with %u sections", q.first.c_str(), q.second);
		PBT_ASSERT(sect.count("A"), "a registered area is not shown"); for (auto &n : before) PBT_ASSERT(sect.count(n), "area %s is registered, but not shown", n.c_str());
		for (auto &l : p.mask) PBT_ASSERT(l == ".*:INFO" || l == "!HOGL:.*" || l.compare(0, 5, "area-") == 0, "mask line %s", show(l).c_str());
		fields(p.stats[0]); fields(p.opt[0]);
	}
	for (unsigned i = 0; i < nt; i++) pthread_join(th[i], 0);
	PBT_ASSERT(always->refcnt() == 2, "ring has %u references after looking", (unsigned) always->refcnt()); always->release(); delete b.e;
	std::map<std::string, std::vector<uint64_t>> got; for (auto &e : fmt.out) if (!e.internal) { PBT_ASSERT(!e.torn, "torn record"); got[e.ring].push_back(e.id); }
	uint64_t total = 0, h = b.seed; for (auto &r : b.acc) { PBT_ASSERT(got[r.first] == r.second, "ring %s: %zu records accepted, %zu output", r.first.c_str(), r.second.size(), got[r.first].size()); total += r.second.size(); h = hash_add(h, r.second.size()); }
	delete out; pthread_mutex_destroy(&b.m); ops(looks + total); label(most > 2 ? "several rings seen" : "few rings seen"); if (total && looks) nontrivial(h);
}
PBT_SUITE("C26", "busy", busy, true, true, 5000, 40000, 30, 300, 20000, 0,
	"dumps of an engine while threads register and release rings, post, register areas and change the mask; non-trivial: records were posted and the engine was looked at meanwhile");

int main(int argc, char **argv) { return run_main(argc, argv); }
