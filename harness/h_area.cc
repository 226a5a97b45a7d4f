// C07: masks.  C08: area registry.
#include "hoglsim.hpp"
#include "vals.hpp"
#include <sstream>
#include <regex>
using namespace pbt;
using namespace sim;

// ---------------------------------------------------------------- regular expressions
// A small expression tree printed in POSIX extended syntax and matched by its own matcher.
struct Re {
	enum T { LIT, DOT, SET, CAT, ALT, STAR, PLUS, OPT } t; char c; bool neg; std::string set; std::vector<Re> k;
	Re(T tt = LIT) : t(tt), c('a'), neg(false) {}
};
static bool in_set(const std::string &set, char c) // set holds chars and a-b ranges as triples "a-b"
{
	for (size_t i = 0; i < set.size(); i++) {
		if (i + 2 < set.size() && set[i + 1] == '-') { if (c >= set[i] && c <= set[i + 2]) return true; i += 2; }
		else if (set[i] == c) return true;
	}
	return false;
}
// set of end positions reachable from a set of start positions
typedef std::set<size_t> Pos;
static Pos rmatch(const Re &r, const std::string &s, const Pos &from)
{
	Pos o;
	switch (r.t) {
	case Re::LIT: for (size_t p : from) if (p < s.size() && s[p] == r.c) o.insert(p + 1); return o;
	case Re::DOT: for (size_t p : from) if (p < s.size()) o.insert(p + 1); return o;
	case Re::SET: for (size_t p : from) if (p < s.size() && in_set(r.set, s[p]) != r.neg) o.insert(p + 1); return o;
	case Re::CAT: o = from; for (auto &k : r.k) o = rmatch(k, s, o); return o;
	case Re::ALT: for (auto &k : r.k) { Pos x = rmatch(k, s, from); o.insert(x.begin(), x.end()); } return o;
	case Re::OPT: o = rmatch(r.k[0], s, from); o.insert(from.begin(), from.end()); return o;
	default: {
		Pos cur = r.t == Re::PLUS ? rmatch(r.k[0], s, from) : from; o = cur;
		for (;;) {
			Pos n = rmatch(r.k[0], s, cur), add;
			for (size_t p : n) if (!o.count(p)) add.insert(p);
			if (add.empty()) return o;
			o.insert(add.begin(), add.end()); cur = add;
		}
	}
	}
}
static bool matches(const Re &r, const std::string &s) { Pos f; f.insert(0); return rmatch(r, s, f).count(s.size()); }
static std::string print(const Re &r)
{
	static const std::string special = ".[]()*+?{}|^$\\";
	switch (r.t) {
	case Re::LIT: return special.find(r.c) != std::string::npos ? std::string("\\") + r.c : std::string(1, r.c);
	case Re::DOT: return ".";
	case Re::SET: return std::string("[") + (r.neg ? "^" : "") + r.set + "]";
	case Re::CAT: { std::string o; for (auto &k : r.k) o += k.t == Re::ALT ? "(" + print(k) + ")" : print(k); return o; }
	case Re::ALT: { std::string o; for (size_t i = 0; i < r.k.size(); i++) o += (i ? "|" : "") + print(r.k[i]); return o; }
	default: {
		const Re &k = r.k[0]; std::string in = print(k);
		if (k.t == Re::CAT || k.t == Re::ALT || k.t >= Re::STAR) in = "(" + in + ")";
		return in + (r.t == Re::STAR ? "*" : r.t == Re::PLUS ? "+" : "?");
	}
	}
}
static Re lit(const std::string &s) { Re r(Re::CAT); for (char c : s) { Re l; l.c = c; r.k.push_back(l); } return r; }
static Re any() { Re r(Re::STAR); r.k.push_back(Re(Re::DOT)); return r; }

// std::regex backtracks, so nested repetitions can take exponential time: repetition bodies hold
// neither repetitions nor more than one two-way alternative
static Re gen_re(Src &s, int depth, const std::string &alpha, bool inrep = false, bool *alt_used = nullptr)
{
	bool calt = depth > 0 && !(inrep && *alt_used), crep = depth > 0 && !inrep;
	switch (s.weighted({4, 1, 2, depth > 0 ? 3u : 0u, calt ? 2u : 0u, crep ? 2u : 0u})) {
	case 0: { Re r; r.c = alpha[s.bits(alpha.size())]; return r; }
	case 1: return Re(Re::DOT);
	case 2: { Re r(Re::SET); r.neg = s.chance(1, 4); r.set = s.pick({"A-C", "ABX", "0-9", "A-Z", "a-z_", "B"}); return r; }
	case 3: { Re r(Re::CAT); unsigned n = s.range(1, 4); for (unsigned i = 0; i < n; i++) r.k.push_back(gen_re(s, depth - 1, alpha, inrep, alt_used)); return r; }
	case 4: {
		Re r(Re::ALT); unsigned n = s.range(2, inrep ? 2 : 3);
		if (inrep) *alt_used = true;
		for (unsigned i = 0; i < n; i++) r.k.push_back(gen_re(s, depth - 1, alpha, inrep, alt_used));
		return r;
	}
	default: {
		Re r(s.pick({Re::STAR, Re::PLUS, Re::OPT})); bool au = false;
		r.k.push_back(r.t == Re::OPT ? gen_re(s, depth - 1, alpha) : gen_re(s, depth - 1, alpha, true, &au));
		return r;
	}
	}
}

static const char ALPHA[] = "ABCX01_a";
// no ':' in area expressions (the first one ends the expression)
static std::string gen_name(Src &s, bool sect)
{
	static const std::vector<std::string> voc = { "INFO", "WARN", "ERROR", "AREA", "A", "B", "AB", "ABC", "ABX", "X", "AREA1", "AREA10", "a_b" };
	std::string r;
	switch (s.weighted({3, 3, 1})) {
	case 0: r = voc[s.bits(voc.size())]; break;
	case 1: r = s.str(1 + s.size(6), ALPHA); break;
	default: r = s.str(1 + s.size(4), "AB.*+?()[]|^$\\{} -"); break;
	}
	if (sect && s.chance(1, 12)) { r += ":DEBUG"; }
	return r;
}
struct Rule { bool on; Re a, s; std::string str; };
struct AreaM { std::string name; std::vector<std::string> sect; std::vector<bool> st; };

static Rule gen_rule(Src &s, const std::vector<AreaM> &areas)
{
	Rule r; r.on = !s.chance(2, 5);
	// derive expressions from existing names often
	auto from_name = [&](const std::string &n) -> Re {
		Re x = lit(n);
		switch (s.bits(5)) {
		case 0: return x;
		case 1: { if (x.k.size() > 1) x.k.resize(1 + s.bits(x.k.size())); x.k.push_back(any()); return x; }
		case 2: { Re y(Re::CAT); y.k.push_back(any()); for (size_t i = s.bits(x.k.size() + 1); i < x.k.size(); i++) y.k.push_back(x.k[i]); return y; }
		case 3: { if (!x.k.empty()) x.k[s.bits(x.k.size())] = Re(Re::DOT); return x; }
		default: { if (x.k.size() > 1) x.k.pop_back(); return x; } // proper prefix: must not match the longer name
		}
	};
	auto one = [&](bool sect) -> Re {
		switch (s.weighted({3, 3, 2})) {
		case 0: {
			const AreaM &m = areas[s.bits(areas.size())];
			if (!sect) return from_name(m.name.find(':') == std::string::npos ? m.name : "A");
			return m.sect.empty() ? any() : from_name(m.sect[s.bits(m.sect.size())]);
		}
		case 1: return gen_re(s, 3, ALPHA);
		default: return any();
		}
	};
	bool has_a = s.chance(3, 4), has_s = s.chance(4, 5), colon = has_a || s.chance(1, 3);
	std::string at, sx;
	r.a = any(); r.s = any();
	if (has_a) { r.a = one(false); at = print(r.a); }
	if (has_s) { r.s = one(true); sx = print(r.s); }
	if (at.empty()) r.a = any();
	if (sx.empty()) r.s = any();
	if (!colon && sx.find(':') != std::string::npos) colon = true; // the first ':' would split the section expression
	r.str = std::string(r.on ? "" : "!") + at + (colon ? ":" : "") + sx;
	// a rule starting with '!' by itself would change meaning
	if (r.on && !r.str.empty() && r.str[0] == '!') { r.on = false; }
	return r;
}
static void apply_model(const std::vector<Rule> &rules, AreaM &m)
{
	for (auto &r : rules) {
		if (!matches(r.a, m.name)) continue;
		for (size_t i = 0; i < m.sect.size(); i++) if (matches(r.s, m.sect[i])) m.st[i] = r.on;
	}
}
static AreaM gen_area(Src &s)
{
	AreaM m; m.name = gen_name(s, false);
	unsigned n = s.chance(1, 8) ? s.range(0, 300) : s.chance(1, 3) ? s.pick({63, 64, 65, 128, 129}) : s.range(0, 12);
	for (unsigned i = 0; i < n; i++) m.sect.push_back(i < 20 ? gen_name(s, true) : strf("S%u%s", i, i % 7 == 3 ? "AB" : ""));
	m.st.resize(n);
	return m;
}
static std::vector<const char *> cstrs(const std::vector<std::string> &v) { std::vector<const char *> p; for (auto &x : v) p.push_back(x.c_str()); p.push_back(0); return p; }
static std::string first_diff(const hogl::area &a, const AreaM &m)
{
	for (size_t i = 0; i < m.sect.size(); i++)
		if (a.test(i) != (bool) m.st[i]) return strf("%s:%s (section %zu of %zu) is %s", m.name.c_str(), m.sect[i].c_str(), i, m.sect.size(), a.test(i) ? "enabled" : "disabled");
	return "";
}
static std::string list_str(const std::vector<Rule> &r) { std::string o; for (auto &x : r) o += " [" + x.str + "]"; return o; }

static hogl::mask *build(Src &s, const std::vector<Rule> &r)
{
	if (r.size() && r.size() <= 4 && !r[0].str.empty() && s.chance(1, 3)) {
		// the variadic constructor ends at a null or an empty string
		bool ok = true; for (auto &x : r) if (x.str.empty()) ok = false;
		if (ok) {
			const char *c[5] = { 0, 0, 0, 0, 0 }; for (size_t i = 0; i < r.size(); i++) c[i] = r[i].str.c_str();
			return new hogl::mask(c[0], c[1], c[2], c[3], c[4]);
		}
	}
	hogl::mask *m = new hogl::mask;
	for (auto &x : r) { if (s.flip()) m->add(x.str); else *m << x.str; }
	return m;
}

static void mask_suite(Src &s)
{
	std::vector<AreaM> ms; unsigned na = s.range(1, 4);
	for (unsigned i = 0; i < na; i++) ms.push_back(gen_area(s));
	std::vector<Rule> rules; unsigned nr = s.range(0, 6); bool has_empty = false;
	for (unsigned i = 0; i < nr; i++) { rules.push_back(gen_rule(s, ms)); if (rules.back().str.empty()) has_empty = true; }
	note("rules:%s", list_str(rules).c_str());
	for (auto &m : ms) { std::string t; for (auto &x : m.sect) if (t.size() < 120) t += " " + x; note("area %s:%s (%zu sections)", m.name.c_str(), t.c_str(), m.sect.size()); }
	hogl::mask *m = build(s, rules); hogl::mask *use = m; std::string how = "original";
	std::vector<hogl::mask *> made; made.push_back(m);
	unsigned hops = s.size(3);
	for (unsigned i = 0; i < hops; i++) {
		hogl::mask *n = 0;
		switch (s.bits(has_empty ? 4 : 6)) {
		case 0: n = new hogl::mask(*(const hogl::mask *) use); how += " copy"; break;
		case 1: n = new hogl::mask(*use); how += " copy(rw)"; break;
		case 2: n = new hogl::mask("!.*:.*", "JUNK:JUNK", (const char *) 0); *n = *use; how += " assign"; break;
		case 3: { const hogl::mask &self = *use; *use = self; how += " self-assign"; break; }
		default: {
			std::stringstream ss; ss << *use; std::string txt = ss.str();
			if (s.chance(1, 3) && !txt.empty()) txt.resize(txt.size() - 1); // no newline at the end
			std::stringstream in(txt); n = new hogl::mask; in >> *n; how += " print/read"; label("mask printed and read back"); break;
		}
		}
		if (n) { use = n; made.push_back(n); }
	}
	if (s.chance(1, 10)) {
		// a broken expression is refused and leaves the mask alone
		bool thrown = false;
		try { use->add(s.pick({"A[:x", "(:x", "x:(", "B:[z", "*:x\\"})); } catch (const std::regex_error &) { thrown = true; }
		if (!thrown) throw Discard();
		how += " +rejected rule";
	}
	if (s.chance(1, 10)) { std::vector<Rule> r2; hogl::mask c(*use); c.clear(); how += " (copy cleared)"; }
	note("mask: %s", how.c_str());
	ops(rules.size() * ms.size());
	unsigned changed = 0;
	for (auto &am : ms) {
		std::vector<const char *> p = cstrs(am.sect);
		hogl::area a(am.name.c_str(), &p[0]);
		for (size_t i = 0; i < am.sect.size(); i++) { am.st[i] = s.flip(); a.set(i, am.st[i]); }
		std::vector<bool> before = am.st;
		if (s.flip()) use->apply(a); else use->apply(&a);
		apply_model(rules, am);
		if (before != am.st) changed++;
		std::string d = first_diff(a, am);
		PBT_ASSERT(d.empty(), "after applying the rules%s (%s): %s", list_str(rules).c_str(), how.c_str(), d.c_str());
	}
	{ // printing yields the rules, one per line
		std::stringstream ss; ss << *use; std::string e; for (auto &r : rules) e += r.str + "\n";
		PBT_ASSERT(ss.str() == e, "mask prints %s instead of %s", show(ss.str()).c_str(), show(e).c_str());
	}
	for (auto x : made) delete x;
	if (changed) nontrivial(hash_add(hash_str(list_str(rules)), hash_str(ms[0].name + how)));
}
PBT_SUITE("C07", "mask", mask_suite, false, false, 15000, 600000, 40, 400, 20000, 0,
	"generated rule lists (expression trees printed as POSIX regexes) copied, assigned, printed and re-read, then applied to 1..4 areas with random initial states, against an independent matcher; non-trivial: some section changed state");

// ---------------------------------------------------------------- through the engine
struct EBuf : public hogl::ostrbuf { EBuf() : hogl::ostrbuf(64) {} void do_flush(const uint8_t *, size_t) { reset(); } };
struct CountFmt : public hogl::format {
	hogl::engine *eng; uint64_t n; std::set<std::string> bad; 
	CountFmt() : eng(0), n(0) {}
	void process(hogl::ostrbuf &, const data &d)
	{
		if (eng && d.record->area == eng->internal_area()) return;
		n++;
	}
};
struct EOut : public hogl::output { EOut(hogl::format &f) : hogl::output(f) { hogl::output::init(new EBuf); } };

static AreaM internal_model()
{
	AreaM m; m.name = "HOGL"; m.sect = { "INFO", "WARN", "ERROR", "DROPMARK", "TSOFULLMARK", "ENGINE:DEBUG", "AREA:DEBUG", "RING:DEBUG", "TLS:DEBUG" };
	m.st.resize(9); for (int i = 0; i < 5; i++) m.st[i] = true;
	return m;
}

static void engine_suite(Src &s)
{
	std::map<std::string, AreaM> reg; std::map<std::string, hogl::area *> ptr;
	std::vector<AreaM> pool; unsigned np = s.range(1, 5);
	for (unsigned i = 0; i < np; i++) pool.push_back(gen_area(s));
	pool.push_back(internal_model());
	std::vector<Rule> cur; unsigned nr = s.range(0, 4);
	for (unsigned i = 0; i < nr; i++) cur.push_back(gen_rule(s, pool));
	note("default mask:%s", list_str(cur).c_str());
	CountFmt fmt; EOut out(fmt); hogl::engine::options eo = hogl::engine::default_options;
	hogl::mask *dm = build(s, cur); eo.default_mask = *dm; delete dm;
	eo.polling_interval_usec = 200;
	hogl::engine *e = new hogl::engine(out, eo); fmt.eng = e;
	AreaM in = internal_model(); apply_model(cur, in); reg["HOGL"] = in; ptr["HOGL"] = (hogl::area *) e->internal_area();
	// a ring of our own, not registered: what disabled posts must leave alone
	hogl::ringbuf::options ro = hogl::ringbuf::default_options; ro.capacity = s.pick({2, 8, 256}); ro.flags = s.flip() ? hogl::ringbuf::SHARED : 0;
	hogl::ringbuf *ring = new hogl::ringbuf("OWN", ro); ring->hold();
	hogl::tls tl(ring->hold(), e);
	uint64_t exp_pend = 0, exp_drop = 0, exp_seq = ring->seqnum();
	auto own = [&](bool on) { if (!on) return; exp_seq++; if (exp_pend + 1 < ring->capacity()) exp_pend++; else exp_drop++; };
	auto verify = [&](const char *when) {
		for (auto &r : reg) { std::string d = first_diff(*ptr[r.first], r.second); PBT_ASSERT(d.empty(), "%s: %s", when, d.c_str()); }
		PBT_ASSERT(ring->size() == exp_pend && ring->dropcnt() == exp_drop && ring->seqnum() == exp_seq,
			"%s: ring holds %u records, %llu dropped, seqnum %llu; expected %llu, %llu, %llu", when, ring->size(), (ull) ring->dropcnt(), (ull) ring->seqnum(), (ull) exp_pend, (ull) exp_drop, (ull) exp_seq);
	};
	// the engine itself reports set-ups through the caller's ring
	own(reg["HOGL"].st[8] && false); // (posted before the ring was current)
	verify("start");
	unsigned n = s.range(1, 14), applied = 0, disabled = 0; ops(n);
	for (unsigned k = 0; k < n; k++) {
		switch (s.weighted({3, 3, 4, 2, 1})) {
		case 0: { // register
			AreaM m = pool[s.bits(pool.size())];
			if (m.name == "HOGL") break;
			std::vector<const char *> p = cstrs(m.sect);
			note("add_area %s (%zu sections)", m.name.c_str(), m.sect.size());
			bool dbg = reg["HOGL"].st[6], err = reg["HOGL"].st[2];
			hogl::area *a = e->add_area(m.name.c_str(), &p[0]);
			auto it = reg.find(m.name);
			if (it == reg.end()) {
				PBT_ASSERT(a, "add_area failed for new name %s", m.name.c_str());
				m.st.assign(m.sect.size(), false); apply_model(cur, m);
				reg[m.name] = m; ptr[m.name] = a; own(dbg);
			} else if (it->second.sect == m.sect) PBT_ASSERT(a == ptr[m.name], "identical area not shared");
			else { PBT_ASSERT(!a, "different area accepted"); own(err); }
			break;
		}
		case 1: { // apply
			std::vector<Rule> r; unsigned c = s.range(0, 4); for (unsigned i = 0; i < c; i++) r.push_back(gen_rule(s, pool));
			if (s.chance(1, 6)) { note("re-apply the current mask"); e->apply_mask(e->get_mask()); r = cur; }
			else {
				hogl::mask *m = build(s, r); note("apply_mask%s", list_str(r).c_str()); e->apply_mask(*m); delete m;
			}
			cur = r; for (auto &x : reg) apply_model(r, x.second);
			applied++; break;
		}
		case 2: { // post
			auto it = reg.begin(); std::advance(it, s.bits(reg.size()));
			if (it->second.sect.empty()) break;
			unsigned sect = s.bits(it->second.sect.size()); bool on = it->second.st[sect];
			note("post %s:%u (%s)", it->first.c_str(), sect, on ? "enabled" : "disabled");
			const hogl::area *a = ptr[it->first];
			switch (s.bits(4)) {
			case 0: hogl::post(ring, a, sect, 1, 2, "three"); break;
			case 1: hogl::post(ring, a, sect, (uint64_t) k); break;
			case 2: hogl::post(a, sect, "tls", k); break;
			default: if (ring->shared()) hogl::post(ring, a, sect); else hogl::post_unlocked(ring, a, sect, "unlocked %s", "x"); break;
			}
			own(on); if (!on) disabled++;
			break;
		}
		case 3: { // switch single sections
			auto it = reg.begin(); std::advance(it, s.bits(reg.size()));
			if (it->second.sect.empty() || it->first == "HOGL") break;
			unsigned sect = s.bits(it->second.sect.size()); bool v = s.flip(); hogl::area *a = ptr[it->first];
			note("%s %s:%u", v ? "enable" : "disable", it->first.c_str(), sect);
			if (v) { if (s.flip()) a->enable(sect); else a->set(sect); } else { if (s.flip()) a->disable(sect); else a->reset(sect); }
			it->second.st[sect] = v; break;
		}
		default: { // consume a little
			if (!exp_pend) break;
			unsigned c = s.range(1, exp_pend); for (unsigned i = 0; i < c; i++) { ring->pop_begin(); ring->pop_commit(); }
			exp_pend -= c; break;
		}
		}
		verify(strf("after step %u", k).c_str());
	}
	std::stringstream ss; ss << e->get_mask(); std::string ex; for (auto &r : cur) ex += r.str + "\n";
	PBT_ASSERT(ss.str() == ex, "get_mask prints %s instead of %s", show(ss.str()).c_str(), show(ex).c_str());
	if (applied && reg.size() > 1) { uint64_t h = hash_str(list_str(cur)); for (auto &r : reg) h = hash_add(h, hash_str(r.first)); nontrivial(hash_add(h, disabled)); }
}
// the thread-local object posts through the default ring when it goes away, then the engine stops
PBT_SUITE("C07", "engine", engine_suite, true, false, 6000, 200000, 40, 400, 20000, 0,
	"histories of mask applications, registrations, single switches and posts through an engine; every section of every area (the engine's own included) compared with the model after each step; non-trivial: a mask was applied with user areas present");

// ---------------------------------------------------------------- C08
static void check_area(const hogl::area *a, const AreaM &m)
{
	PBT_ASSERT(m.name == a->name(), "area is called %s instead of %s", a->name(), m.name.c_str());
	PBT_ASSERT(a->count() == m.sect.size() && a->size() == m.sect.size(), "area %s has %u sections instead of %zu", a->name(), a->count(), m.sect.size());
	for (unsigned i : { 0u, 1u, 63u, 64u, 0x7fffffffu }) PBT_ASSERT(!strcmp(a->section_name(m.sect.size() + i), "INVALID"), "a section %u past the last of area %s is called %s", i, a->name(), a->section_name(m.sect.size() + i));
	for (size_t i = 0; i < m.sect.size(); i++) PBT_ASSERT(m.sect[i] == a->section_name(i), "section %zu of %s is %s instead of %s", i, a->name(), a->section_name(i), m.sect[i].c_str());
	std::string d = first_diff(*a, m); PBT_ASSERT(d.empty(), "%s", d.c_str());
}
static AreaM gen_area8(Src &s)
{
	AreaM m; m.name = s.chance(1, 20) ? std::string(s.size(300), 'n') : gen_name(s, true);
	unsigned n = s.chance(1, 12) ? s.range(0, 6000) : s.chance(1, 4) ? s.pick({0, 1, 6, 7, 8, 63, 64, 65, 127, 128, 129, 4096}) : s.range(0, 10);
	if (s.chance(1, 4)) m.sect = { "INFO", "WARN", "ERROR", "FATAL", "DEBUG", "TRACE" };
	else for (unsigned i = 0; i < n; i++) m.sect.push_back(i < 10 ? (s.chance(1, 8) ? "" : gen_name(s, true)) : strf("S%u", i));
	m.st.resize(m.sect.size());
	return m;
}
static AreaM vary(Src &s, const AreaM &b) // a slightly different area with the same name
{
	AreaM m = b; if (m.sect.size() > 50) m.sect.resize(m.sect.size()); 
	switch (s.bits(5)) {
	case 0: m.sect.push_back("EXTRA"); break;
	case 1: if (m.sect.empty()) m.sect.push_back("X"); else m.sect.pop_back(); break;
	case 2: if (m.sect.empty()) m.sect.push_back("Y"); else m.sect[s.bits(m.sect.size())] += "x"; break;
	case 3: if (m.sect.size() > 1) { size_t i = s.bits(m.sect.size() - 1); if (m.sect[i] == m.sect[i + 1]) m.sect[i] += "q"; else std::swap(m.sect[i], m.sect[i + 1]); } else m.sect.push_back("Z"); break;
	default: if (m.sect.empty()) m.sect.push_back("W"); else { std::string &x = m.sect.back(); x = x.empty() ? "nonempty" : x.substr(0, x.size() - 1); } break;
	}
	m.st.assign(m.sect.size(), false);
	return m;
}

static void registry(Src &s)
{
	hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = 500;
	hogl::mask none; eo.default_mask = none;
	int all = s.bits(3); // initial state of new areas
	if (all == 1) eo.default_mask << ".*:.*"; else if (all == 2) { eo.default_mask << ".*:.*"; eo.default_mask << "!.*:(INFO|A.*)"; }
	auto init = [&](AreaM &m) { for (size_t i = 0; i < m.sect.size(); i++) m.st[i] = all == 1 || (all == 2 && m.sect[i] != "INFO" && m.sect[i].compare(0, 1, "A") != 0); };
	CountFmt fmt; EOut out(fmt); hogl::engine *e = new hogl::engine(out, eo); fmt.eng = e;
	hogl::ringbuf *tr = new hogl::ringbuf("T"); tr->hold(); // swallows the engine's own messages
	{
	hogl::tls tl(tr->hold(), e);
	std::map<std::string, AreaM> reg; std::map<std::string, const hogl::area *> ptr;
	AreaM in = internal_model(); if (all) for (size_t i = 0; i < 9; i++) in.st[i] = !(all == 2 && (in.sect[i] == "INFO" || in.sect[i][0] == 'A'));
	reg["HOGL"] = in; ptr["HOGL"] = e->internal_area();
	std::vector<AreaM> pool; unsigned np = s.range(1, 5); for (unsigned i = 0; i < np; i++) pool.push_back(gen_area8(s));
	pool.push_back(in);
	unsigned n = s.range(1, 20), shared = 0, refused = 0; ops(n);
	for (unsigned k = 0; k < n; k++) {
		while (tr->size()) { tr->pop_begin(); tr->pop_commit(); }
		switch (s.weighted({5, 2, 1, 4})) {
		case 0: {
			AreaM m = pool[s.bits(pool.size())];
			if (s.chance(1, 3)) m = vary(s, m);
			std::vector<const char *> p = cstrs(m.sect);
			bool dflt = m.sect.size() == 6 && m.sect[0] == "INFO" && m.sect[5] == "TRACE" && m.sect[1] == "WARN" && m.sect[2] == "ERROR" && m.sect[3] == "FATAL" && m.sect[4] == "DEBUG" && s.flip();
			note("add_area %s with %zu sections%s", m.name.c_str(), m.sect.size(), dflt ? " (default)" : "");
			hogl::area *a;
			{
				// the caller's strings need not outlive the call
				std::string tmp = m.name; std::vector<std::string> ts = m.sect; std::vector<const char *> tp = cstrs(ts);
				a = e->add_area(tmp.c_str(), dflt ? 0 : &tp[0]);
				for (auto &c : tmp) c = '#'; for (auto &x : ts) for (auto &c : x) c = '#';
			}
			auto it = reg.find(m.name);
			if (it == reg.end()) {
				PBT_ASSERT(a, "registering the new area %s failed", m.name.c_str());
				init(m); reg[m.name] = m; ptr[m.name] = a;
			} else if (it->second.sect == m.sect) { PBT_ASSERT(a == ptr[m.name], "an identical area was not shared"); shared++; }
			else { PBT_ASSERT(!a, "an area with different sections was accepted"); refused++; }
			break;
		}
		case 1: {
			std::string nm = s.flip() && !reg.empty() ? std::next(reg.begin(), s.bits(reg.size()))->first : gen_name(s, true);
			const hogl::area *a = e->find_area(nm.c_str());
			auto it = reg.find(nm);
			if (it == reg.end()) PBT_ASSERT(!a, "found the unregistered area %s", nm.c_str());
			else PBT_ASSERT(a == ptr[nm], "look-up of %s gives another object", nm.c_str());
			break;
		}
		case 2: {
			hogl::string_list l; e->list_areas(l);
			std::multiset<std::string> g(l.begin(), l.end()), x; for (auto &r : reg) x.insert(r.first);
			PBT_ASSERT(g == x, "list of areas has %zu names, expected %zu", g.size(), x.size());
			break;
		}
		default: {
			auto it = std::next(reg.begin(), s.bits(reg.size())); if (it->second.sect.empty()) break;
			hogl::area *a = (hogl::area *) ptr[it->first]; AreaM &m = it->second;
			unsigned i = s.bits(m.sect.size());
			switch (s.bits(8)) {
			case 0: a->set(i); m.st[i] = true; break;
			case 1: a->set(i, false); m.st[i] = false; break;
			case 2: a->enable(i); m.st[i] = true; break;
			case 3: a->disable(i); m.st[i] = false; break;
			case 4: a->reset(i); m.st[i] = false; break;
			case 5: a->enable(i, true); m.st[i] = true; break;
			case 6: if (s.flip()) a->set(); else a->enable(); m.st.assign(m.sect.size(), true); break;
			default: if (s.flip()) a->reset(); else a->disable(); m.st.assign(m.sect.size(), false); break;
			}
			break;
		}
		}
		for (auto &r : reg) check_area(ptr[r.first], r.second);
	}
	for (auto &r : reg) { std::stringstream ss; ss << *ptr[r.first]; std::string x; for (size_t i = 0; i < r.second.sect.size(); i++) x += (r.second.st[i] ? "" : "!") + r.first + ":" + r.second.sect[i] + "\n"; PBT_ASSERT(ss.str() == x, "area %s prints wrongly", r.first.c_str()); }
	if (shared || refused) { uint64_t h = shared * 100 + refused; for (auto &r : reg) h = hash_add(h, hash_str(r.first) + r.second.sect.size()); nontrivial(h); }
	}
	tr->release();
	delete e;
}
PBT_SUITE("C08", "registry", registry, true, false, 9000, 200000, 40, 400, 20000, 0,
	"histories of registrations (new, identical, slightly different), look-ups, listings and section switches; every section of every area compared with the model after each step; non-trivial: an area was shared or refused");

// concurrent registration, look-up and mask changes
struct Job { hogl::engine *e; std::vector<std::pair<AreaM, hogl::area *>> todo; unsigned kind; hogl::ringbuf *ring; std::vector<int> masks; pthread_barrier_t *bar; unsigned spin; };
static hogl::mask *g_mask[3];
static void *job(void *p)
{
	Job *j = (Job *) p;
	hogl::tls tl(j->ring->hold(), j->e);
	pthread_barrier_wait(j->bar);
	for (volatile unsigned i = 0; i < j->spin; i++) ;
	if (j->kind == 0) {
		for (auto &t : j->todo) {
			std::vector<const char *> c = cstrs(t.first.sect);
			t.second = j->e->add_area(t.first.name.c_str(), &c[0]);
		}
	} else if (j->kind == 1) {
		for (int m : j->masks) j->e->apply_mask(*g_mask[m]);
	} else {
		for (auto &t : j->todo) { j->e->find_area(t.first.name.c_str()); hogl::string_list l; j->e->list_areas(l); }
	}
	return 0;
}
static void concurrent(Src &s)
{
	hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = 500; hogl::mask none; eo.default_mask = none;
	CountFmt fmt; EOut out(fmt); hogl::engine *e = new hogl::engine(out, eo); fmt.eng = e;
	g_mask[0] = new hogl::mask(".*:.*", 0); g_mask[1] = new hogl::mask("!.*:.*", 0); g_mask[2] = new hogl::mask(".*:(S[0-9]*|A.*|X+)", "!.*:S.*[13579]", "!A.*:.*X.*", 0);
	std::vector<AreaM> pool; unsigned np = s.range(1, 4);
	for (unsigned i = 0; i < np; i++) { AreaM m; m.name = strf("A%u", i); unsigned n = s.range(0, 150); for (unsigned k = 0; k < n; k++) m.sect.push_back(strf("S%u", k)); m.st.resize(n); pool.push_back(m); }
	unsigned nt = s.range(2, 5); bool masks = s.chance(2, 3); ops(nt);
	std::vector<Job> jobs(nt); pthread_barrier_t bar; pthread_barrier_init(&bar, 0, nt);
	std::vector<pthread_t> th(nt);
	for (unsigned i = 0; i < nt; i++) {
		Job &j = jobs[i]; j.e = e; j.bar = &bar; j.spin = s.size(3000);
		j.kind = i == 0 && masks ? 1 : s.chance(1, 5) ? 2 : 0;
		j.ring = new hogl::ringbuf(strf("T%u", i).c_str()); j.ring->hold();
		unsigned n = s.range(1, 8);
		for (unsigned k = 0; k < n; k++) { AreaM m = pool[s.bits(pool.size())]; if (s.chance(1, 3)) m = vary(s, m); j.todo.push_back(std::make_pair(m, (hogl::area *) 0)); j.masks.push_back(s.bits(3)); }
		note("thread %u: kind %u, %zu operations", i, j.kind, j.todo.size());
	}
	for (unsigned i = 0; i < nt; i++) pthread_create(&th[i], 0, job, &jobs[i]);
	for (unsigned i = 0; i < nt; i++) pthread_join(th[i], 0);
	// every name belongs to exactly one object; equal section lists share it, others are refused
	std::map<std::string, const hogl::area *> win; unsigned dup = 0;
	for (auto &j : jobs) if (j.kind == 0) for (auto &t : j.todo) {
		const hogl::area *f = e->find_area(t.first.name.c_str());
		PBT_ASSERT(f, "area %s is not registered", t.first.name.c_str());
		bool same = f->count() == t.first.sect.size(); for (size_t i = 0; same && i < t.first.sect.size(); i++) if (t.first.sect[i] != f->section_name(i)) same = false;
		PBT_ASSERT(same ? t.second == f : t.second == 0, "add_area(%s) gave %p, registered is %p (%s sections)", t.first.name.c_str(), (void *) t.second, (const void *) f, same ? "identical" : "different");
		if (win.count(t.first.name)) dup++;
		win[t.first.name] = f;
	}
	hogl::string_list l; e->list_areas(l);
	PBT_ASSERT(l.size() == win.size() + 1, "%zu areas listed, %zu registered", l.size(), win.size() + 1);
	// a mask that decides every section: whatever was registered meanwhile must follow the last one
	if (masks && !jobs[0].masks.empty()) {
		int last = jobs[0].masks.back();
		if (last < 2) for (auto &w : win) for (unsigned i = 0; i < w.second->count(); i++)
			PBT_ASSERT(w.second->test(i) == (last == 0), "%s:%s does not follow the last mask applied", w.first.c_str(), w.second->section_name(i));
		label("concurrent mask changes");
	}
	if (dup) nontrivial(hash_add(hash_add(nt, dup), s.bits(0)));
	for (auto &j : jobs) j.ring->release();
	delete e;
}
PBT_SUITE("C08", "threads", concurrent, true, true, 3000, 150000, 40, 400, 20000, 0,
	"2..5 threads registering overlapping names (identical or varied sections), looking up and applying masks at the same time; non-trivial: one name registered more than once");
PBT_SUITE("C07", "threads", concurrent, true, true, 3000, 100000, 30, 300, 20000, 0,
	"masks applied while other threads register areas: the last mask decides every section afterwards; non-trivial: overlapping registrations");

int main(int argc, char **argv) { return run_main(argc, argv); }
