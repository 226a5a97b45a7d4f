// C15 binary logs convert back to the text of direct formatting.  C16 damaged binary logs.
#include "hoglsim.hpp"
#include "vals.hpp"
#include "cookrun.hpp"
#include "plug.hpp"
#include <hogl/format-basic.hpp>
#include <hogl/format-raw.hpp>
#include <hogl/output-plainfile.hpp>
using namespace pbt;
using namespace vals;
extern "C" const char *__asan_default_options() { return "max_allocation_size_mb=256:detect_leaks=0:quarantine_size_mb=8"; }
static const unsigned TYPES[] = { hogl::arg::NONE, hogl::arg::UINT32, hogl::arg::INT32, hogl::arg::UINT64, hogl::arg::INT64, hogl::arg::POINTER, hogl::arg::DOUBLE, hogl::arg::CSTR, hogl::arg::GSTR, hogl::arg::XDUMP, hogl::arg::RAW };

#define A16(a) a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]
static uint64_t g_now;
static hogl::timestamp now_cb(const hogl::timesource *) { return hogl::timestamp(g_now); }
static hogl::timesource now_ts("gen", now_cb);

struct StrBuf : hogl::ostrbuf { std::string t; StrBuf() : hogl::ostrbuf(0) {} void do_flush(const uint8_t *d, size_t n) { t.append((const char *) d, n); } };
static cook::Rec rec_of(const hogl::format::data &d)
{
	cook::Rec r; const hogl::record *q = d.record; r.ts = q->timestamp; r.seq = q->seqnum; r.ring = d.ring_name; r.area = q->area->name(); r.sect = q->area->section_name(q->section);
	for (unsigned i = 0; i < 16; i++) {
		unsigned t = q->get_arg_type(i); if (!t) break;
		cook::Arg a; a.u = 0; a.type = 0; for (unsigned k = 1; k < 11; k++) if (TYPES[k] == t) a.type = k;
		unsigned len; const uint8_t *p;
		switch (a.type) {
		case cook::TU32: case cook::TI32: a.u = q->get_arg_val32(i); break;
		case cook::TCSTR: case cook::TXD: case cook::TRAW: p = q->get_arg_data(i, len); a.s.assign((const char *) p, len); break;
		case cook::TGSTR: a.u = q->get_arg_val64(i); a.s = a.u ? (const char *) a.u : "null"; break;
		default: a.u = q->get_arg_val64(i);
		}
		r.args.push_back(a);
	}
	return r;
}
// One pass over the same records: the library's binary format into the log, the text format and an own packing beside it.
struct Both : hogl::format {
	hogl::format_raw raw; hogl::format_basic *txt; std::string text, own, own1, plugged; StrBuf sb; unsigned n; const char *given;
	Both(hogl::format_basic *t, const char *g) : txt(t), n(0), given(g) {}
	void process(hogl::ostrbuf &out, const data &d)
	{
		raw.process(out, d); sb.t.clear(); txt->process(sb, d); sb.flush(); text += sb.t; sb.t.clear(); n++; plugged += plug::render(d, given);
		cook::Rec r = rec_of(d); own += cook::pack(r, false, TYPES); own1 += cook::pack(r, true, TYPES);
	}
};
static std::string gen_name(Src &s, unsigned i)
{
	size_t n = s.chance(1, 10) ? s.range(100, 128) : s.range(2, 20); std::string o = s.str(n, "abcdefghABCDEFGH0123456789_-. :/");
	std::string u = strf("%u", i); return n < u.size() + 1 ? "n" + u : o.substr(0, n - u.size()) + u;
}
static std::string gen_fields(Src &s)
{
	static const char *F[] = { "timestamp", "timedelta", "timespec", "ring", "seqnum", "area", "section" };
	if (s.chance(1, 3)) return s.pick({"default", "fast0", "fast1"});
	std::string o; unsigned m = s.bits(128); char d = s.flip() ? '|' : ','; for (int i = 0; i < 7; i++) if (m >> i & 1) { if (!o.empty()) o += d; o += F[i]; }
	return o;
}
static void roundtrip(Src &s)
{
	const char *tz[] = { "UTC", "Asia/Kolkata", "America/New_York" }; setenv("TZ", tz[s.bits(3)], 1); tzset();
	bool deflt = s.chance(1, 6); std::string fields = gen_fields(s); hogl::format_basic txt(deflt ? 0 : fields.c_str()); Both both(&txt, deflt ? 0 : fields.c_str());
	const char *e = getenv("PBT_SCRATCH"); std::string path = strf("%s/rawXXXXXX", e ? e : "/tmp"); std::vector<char> b(path.begin(), path.end()); b.push_back(0); int fd = mkstemp(b.data()); if (fd < 0) fail("mkstemp"); close(fd); path = b.data();
	unsigned nr = s.range(1, 3), na = s.range(1, 3), n = s.chance(1, 5) ? s.range(0, 150) : s.range(1, 25), maxargs = 0, nt = 0; uint64_t h = 3;
	note("fields '%s', %u rings, %u areas, %u posts, output %s", deflt ? "(none given)" : fields.c_str(), nr, na, n, both.n ? "" : "plain file"); Pool pool;
	std::string raw;
	{
		hogl::output_plainfile out(path.c_str(), both); hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = s.pick({0u, 50u, 1000u}); eo.timesource = &now_ts; eo.default_mask = hogl::mask(".*", "!HOGL:.*DEBUG", 0);
		if (s.flip()) eo.features = hogl::engine::DISABLE_TSO;
		hogl::engine eng(out, eo); g_now = 1700000000ULL * 1000000000 + s.bits(1000000000);
		std::vector<hogl::ringbuf *> rings; std::vector<unsigned> tails; std::vector<const hogl::area *> areas;
		for (unsigned i = 0; i < na; i++) {
			std::vector<std::string> nm; unsigned k = s.range(1, 6); for (unsigned j = 0; j < k; j++) nm.push_back(gen_name(s, j)); std::vector<const char *> p; for (auto &x : nm) p.push_back(x.c_str()); p.push_back(0);
			const hogl::area *a = eng.add_area(gen_name(s, i).c_str(), p.data()); PBT_ASSERT(a, "add_area"); areas.push_back(a);
		}
		for (unsigned i = 0; i < nr; i++) { hogl::ringbuf::options ro = {}; ro.capacity = s.pick({8u, 64u, 256u}); ro.record_tailroom = s.chance(1, 4) ? s.range(0, 200) : s.chance(1, 12) ? 70000 : s.range(200, 4000); hogl::ringbuf *r = eng.add_ring(gen_name(s, i).c_str(), ro); PBT_ASSERT(r, "add_ring"); rings.push_back(r); tails.push_back(r->record_tailroom()); }
		for (unsigned i = 0; i < n; i++) {
			unsigned k = s.bits(nr), m = s.chance(1, 3) ? s.range(1, 16) : s.range(1, 5); size_t maxd = s.chance(1, 4) ? 3000 : tails[k] > 60000 && s.chance(1, 6) ? 60000 : std::min(tails[k], 400u); hogl::arg args[16]; std::vector<Val> vs;
			for (unsigned j = 0; j < m; j++) { vs.push_back(gen_val(s, maxd)); if (n < 30) note("   %s", vals::show(vs.back()).c_str()); args[j] = to_arg(vs.back(), pool); h = hash_add(h, vs.back().u); h = hash_add(h, hash_str(vs.back().s)); }
			// a format string of the user's own would be interpreted alike by both; numbers of digits are kept small
			if (m > 1 && (vs[0].k == CSTR || vs[0].k == SSTR)) { args[0] = hogl::arg(s.chance(1, 3) ? "%s %d|%x %8.3f" : "values %u, %s"); }
			stored(vs, tails[k], &nt); maxargs = std::max(maxargs, m); g_now = s.chance(1, 10) ? s.bits(1ULL << 62) : g_now + s.bits(100000);
			const hogl::area *a = areas[s.bits(na)]; hogl::post(rings[k], a, (unsigned) s.bits(a->count()), A16(args));
			pool.scribble(); pool.mem.clear(); pool.xds.clear();
		}
		for (auto r : rings) r->release();
	}
	{ int f = open(path.c_str(), O_RDONLY); raw = cook::fd_text(f); close(f); unlink(path.c_str()); }
	PBT_ASSERT(raw == both.own, "binary log (%zu bytes) differs from the format (%zu bytes) at %zu", raw.size(), both.own.size(), (size_t) (std::mismatch(raw.begin(), raw.begin() + std::min(raw.size(), both.own.size()), both.own.begin()).first - raw.begin()));
	std::string want = cook::no_addr(both.text);
	for (int v1 = 0; v1 < 2; v1++) {
		std::vector<std::string> opt; if (!deflt) { if (s.flip()) { opt.push_back("-f"); opt.push_back(fields); } else opt.push_back("--format=" + fields); }
		if (v1) { opt.push_back("-v"); opt.push_back("1.0"); } else if (s.chance(1, 3)) { opt.push_back("--version"); opt.push_back("1.1"); }
		if (s.chance(1, 3)) { opt.push_back("-M"); opt.push_back(s.flip() ? "0x300000" : "3000000"); }
		if (s.chance(1, 3)) { opt.push_back("-R"); opt.push_back(strf("%u", (unsigned) s.range(0, 10))); }
		std::vector<unsigned> chunks; if (s.flip()) { unsigned k = s.range(1, 5); for (unsigned i = 0; i < k; i++) chunks.push_back(s.chance(1, 3) ? s.range(4000, 4200) : s.range(1, 300)); if (raw.size() > 20000) for (auto &x : chunks) x += 2000; }
		note("cook version %s from %s", v1 ? "1.0" : "1.1", chunks.empty() ? "a file" : "standard input");
		cook::Result R = cook::run(opt, v1 ? both.own1 : raw, chunks);
		PBT_ASSERT(WIFEXITED(R.status) && WEXITSTATUS(R.status) == 0, "cook ended with status %x: %s", R.status, pbt::show(R.err, 600).c_str());
		std::string got = cook::no_addr(R.out); size_t at = 0; while (at < got.size() && at < want.size() && got[at] == want[at]) at++;
		PBT_ASSERT(got == want, "version %s: %zu bytes of text instead of %zu, differing at %zu: %s, directly formatted %s; %s", v1 ? "1.0" : "1.1", got.size(), want.size(), at, pbt::show(got.substr(at > 20 ? at - 20 : 0, 120), 120).c_str(), pbt::show(want.substr(at > 20 ? at - 20 : 0, 120), 120).c_str(), pbt::show(R.err, 200).c_str());
		PBT_ASSERT(R.err.empty(), "cook reports %s for a sound log", pbt::show(R.err, 200).c_str());
		if (!s.chance(1, 4)) continue;
		// the same through a formatter plugin
		const char *pl = getenv("BIN_PLUG"); if (!pl) fail("no plugin");
		unsigned how = s.weighted({6, 1, 1, 1}); std::string so = how == 1 ? getenv("BIN_NOPLUG") : how == 2 ? "/nonexistent/plugin.so" : pl; note("formatter plugin%s", how == 1 ? " without its symbol" : how == 2 ? " that does not exist" : how == 3 ? " that refuses" : ""); label("plugin");
		if (how == 3) { opt.push_back("-f"); opt.push_back("refuse"); }
		if (s.flip()) opt.push_back("--plugin=" + so); else { opt.push_back("-p"); opt.push_back(so); }
		R = cook::run(opt, v1 ? both.own1 : raw, chunks); PBT_ASSERT(WIFEXITED(R.status) && WEXITSTATUS(R.status) == (how ? 1 : 0), "cook with plugin (%u) ended with status %x: %s", how, R.status, pbt::show(R.err, 600).c_str());
		if (how) { PBT_ASSERT(R.out.empty() && !R.err.empty(), "unusable plugin (%u): output %s, errors %s", how, pbt::show(R.out, 200).c_str(), pbt::show(R.err, 200).c_str()); continue; }
		for (at = 0; at < R.out.size() && at < both.plugged.size() && R.out[at] == both.plugged[at];) at++;
		PBT_ASSERT(R.out == both.plugged, "version %s through the plugin: %s instead of %s", v1 ? "1.0" : "1.1", pbt::show(R.out.substr(at > 60 ? at - 60 : 0, 160), 160).c_str(), pbt::show(both.plugged.substr(at > 60 ? at - 60 : 0, 160), 160).c_str());
		PBT_ASSERT(R.err == "plugin released\n", "errors with the plugin: %s", pbt::show(R.err, 200).c_str());
	}
	ops(n); if (n > 2 && maxargs > 3) nontrivial(h);
}
PBT_SUITE("C15", "roundtrip", roundtrip, true, false, 4000, 120000, 60, 500, 30000, 0,
	"records with generated names and arguments logged in binary through an engine, formatted directly on the side, and cooked from a file or a pipe in both versions; non-trivial: more than two records and one with more than three arguments");

// ---------------------------------------------------------------- C16
typedef std::vector<std::pair<size_t, unsigned> > Fields; // where lengths, types and names are
static std::string gen_text(Src &s, size_t max)
{
	std::string o = s.str(s.chance(1, 5) ? s.range(0, max) : s.range(0, std::min<size_t>(max, 20)), s.flip() ? "abcXYZ 019_" : "ab\n\t\x01\x80\xff z");
	return o;
}
static cook::Rec gen_rec(Src &s, unsigned i, size_t max, uint64_t &ts)
{
	cook::Rec r; ts += s.bits(1 << s.range(1, 30)); r.ts = ts; r.seq = s.chance(1, 8) ? s.bits(1ULL << 52) : s.bits(1000); r.ring = gen_name(s, i); r.area = gen_name(s, i); r.sect = gen_name(s, i);
	unsigned n = s.chance(1, 4) ? s.range(0, 16) : s.range(0, 4);
	for (unsigned j = 0; j < n; j++) {
		cook::Arg a; a.type = s.range(1, 10); a.u = s.u64(); if (a.type == cook::TU32 || a.type == cook::TI32) a.u &= 0xffffffffu;
		if (a.type == cook::TCSTR || a.type == cook::TGSTR) a.s = !j && s.flip() ? s.pick({"n %d", "%s: %5.2f %x", "%%", "%u %u %u %u"}) : gen_text(s, max);
		if (a.type == cook::TXD) { unsigned char h[4] = { (unsigned char) s.pick({'H', 'X', 'D', 'U', 'F', 'A'}), (unsigned char) s.pick({1u, 2u, 4u, 8u, 3u}), (unsigned char) s.range(0, 20), (unsigned char) s.pick({' ', ',', '\0'}) }; a.s.assign((char *) h, s.chance(1, 8) ? s.range(0, 3) : 4); if (a.s.size() == 4) a.s += s.bytes(s.range(0, 64)); }
		if (a.type == cook::TRAW) a.s = s.bytes(s.range(0, 40));
		r.args.push_back(a);
	}
	return r;
}
static uint64_t get(const std::string &b, size_t p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v |= (uint64_t) (unsigned char) b[p + i] << (8 * i); return v; }
// An independent reader: the end of the record at p; npos when there is none that fits into a record of `max` bytes (if it were stored with 8 bytes per argument, a header, and its data).
// unsure: whether it fits depends on the layout of the record in memory.
static size_t record_end(const std::string &b, size_t p, bool v1, size_t max, bool *unsure, Fields *f)
{
	if (p + 17 > b.size()) return b.npos; p += 16;
	for (int k = 0; k < 3; k++) {
		if (p + 1 > b.size()) return b.npos; size_t n = (unsigned char) b[p]; if (f) f->push_back({p, 1}); p++; if (p + n > b.size()) return b.npos;
		size_t e = 0; while (e < n && b[p + e]) { if (!isprint((unsigned char) b[p + e])) return b.npos; e++; }
		if (e < 2 || e > 128) return b.npos; p += n;
	}
	if (p + 8 > b.size()) return b.npos; uint64_t at = get(b, p, 8); if (f) f->push_back({p, 8}); p += 8; size_t data = 0;
	for (int i = 0; i < 16; i++) {
		unsigned t = at >> (4 * i) & 15; unsigned w = 8, l = 0; if (t == TYPES[0]) break;
		if (t == TYPES[cook::TU32] || t == TYPES[cook::TI32]) w = 4; else if (t == TYPES[cook::TCSTR] || t == TYPES[cook::TGSTR]) l = 2; else if (t == TYPES[cook::TXD] || t == TYPES[cook::TRAW]) l = v1 ? 2 : 4;
		if (!l) { if (p + w > b.size()) return b.npos; p += w; continue; }
		if (p + l > b.size()) return b.npos; size_t n = get(b, p, l); if (f) f->push_back({p, l}); p += l; data += n + 1;
		if (n > b.size() - p) return b.npos; p += n;
		if (data > max) return b.npos; if (data + 400 > max) *unsure = true;
	}
	return p;
}
static std::string stable_fields(Src &s) { return s.pick({"fast0", "timespec,ring,seqnum,area,section", "seqnum", "area|section", "timespec|seqnum|ring"}); }
static std::string gen_log(Src &s, unsigned n, size_t max, bool v1, std::vector<size_t> *ends)
{
	std::string o; uint64_t ts = 1700000000ULL * 1000000000; for (unsigned i = 0; i < n; i++) { o += cook::pack(gen_rec(s, i, max, ts), v1, TYPES); if (ends) ends->push_back(o.size()); } return o;
}
struct Opts { std::string fields; bool v1; size_t max; unsigned minrecs; std::vector<std::string> o; };
static Opts gen_opts(Src &s, bool small)
{
	Opts p; p.fields = stable_fields(s); p.v1 = s.flip(); p.max = s.chance(1, 10) ? 10 << 20 : small && s.flip() ? s.range(0, 600) : s.pick({4096u, 20000u, 100000u}); p.minrecs = s.chance(1, 3) ? s.range(0, 6) : 4;
	p.o = { "-f", p.fields, "-v", p.v1 ? "1.0" : "1.1" }; if (p.max != 10 << 20) { p.o.push_back("-M"); p.o.push_back(strf("%zu", p.max)); } if (p.minrecs != 4) { p.o.push_back("-R"); p.o.push_back(strf("%u", p.minrecs)); }
	note("fields %s, version %s, record limit %zu, %u valid records", p.fields.c_str(), p.v1 ? "1.0" : "1.1", p.max, p.minrecs); return p;
}
static std::string cooked(const Opts &p, const std::string &b, std::string *err, const std::vector<unsigned> &chunks)
{
	cook::Result R = cook::run(p.o, b, chunks); if (err) *err = R.err;
	PBT_ASSERT(WIFEXITED(R.status) && (WEXITSTATUS(R.status) == 0 || (WEXITSTATUS(R.status) == 1 && !R.err.empty())), "cook ended with status %x: %s", R.status, pbt::show(R.err, 900).c_str());
	PBT_ASSERT(R.err.find("ERROR: AddressSanitizer") == R.err.npos && R.err.find("runtime error") == R.err.npos, "invalid access: %s", pbt::show(R.err, 900).c_str());
	PBT_ASSERT(R.rss < (600u << 10), "cook needed %lu kB of memory", R.rss);
	return cook::no_addr(R.out);
}
static void truncation(Src &s)
{
	Opts p = gen_opts(s, false); std::vector<size_t> ends; unsigned n = s.range(1, 12); std::string L = gen_log(s, n, 60, p.v1, &ends);
	size_t cut = s.chance(1, 3) ? ends[s.bits(ends.size())] + s.irange(-20, 20) : s.bits(L.size() + 1); if (cut > L.size()) cut = L.size();
	unsigned k = 0; while (k < ends.size() && ends[k] <= cut) k++; note("%u records, %zu bytes, cut at %zu after %u complete ones", n, L.size(), cut, k);
	size_t good = k ? ends[k - 1] : 0; std::string err, part, T = cooked(p, L.substr(0, good), &err, {});
	PBT_ASSERT(err.empty(), "cook reports %s for a sound log", pbt::show(err, 200).c_str());
	std::vector<unsigned> ch; if (s.chance(1, 3)) ch = { (unsigned) s.range(1, 50), (unsigned) s.range(1, 400) };
	part = cooked(p, L.substr(0, cut), &err, ch);
	if (k) PBT_ASSERT(part == T, "cut at %zu of %zu after %u complete records: output %s instead of %s", cut, L.size(), k, pbt::show(part, 300).c_str(), pbt::show(T, 300).c_str());
	if (cut - good >= 8) PBT_ASSERT(!err.empty(), "%zu bytes of an incomplete record not reported", cut - good);
	ops(n); if (k && cut != good) nontrivial(hash_add(hash_str(L), cut));
}
static std::string foreign(Src &s, bool v1)
{
	switch (s.range(0, 5)) {
	case 0: return s.bytes(s.range(1, 200));
	case 1: return std::string(s.range(1, 300), (char) s.pick({0, 255, 1, 65}));
	case 2: { std::string o; unsigned n = s.range(1, 4); for (unsigned i = 0; i < n; i++) o += s.str(s.range(0, 60), "abcdefghijkl {}=.:") + "\n"; return o; }
	case 3: { uint64_t ts = 5; std::string r = cook::pack(gen_rec(s, 0, 30, ts), v1, TYPES); return r.substr(0, s.range(1, r.size() - 1)); }
	case 4: { uint64_t ts = 5; std::string r = cook::pack(gen_rec(s, 0, 30, ts), v1, TYPES); return r.substr(s.range(1, r.size() - 1)); }
	default: { // looks like a record, but its last argument is said to be longer than everything that follows
		uint64_t ts = 5; cook::Rec q = gen_rec(s, 0, 10, ts); if (q.args.size() > 15) q.args.pop_back(); cook::Arg a; a.type = s.pick({(unsigned) cook::TCSTR, (unsigned) cook::TRAW, (unsigned) cook::TXD}); a.u = 0; q.args.push_back(a); std::string r = cook::pack(q, v1, TYPES); unsigned l = a.type == cook::TCSTR || v1 ? 2 : 4; r.resize(r.size() - l); cook::put(r, s.pick({0xffffu, 0x8000u, 9000u}) + (l == 4 ? s.pick({0ull, 0x10000ull, 0x7fff0000ull, 0xffff0000ull}) : 0), l); return r; }
	}
}
static void resync(Src &s)
{
	Opts p = gen_opts(s, false); unsigned n = s.range(1, 8); std::string J = foreign(s, p.v1), L = gen_log(s, n, 60, p.v1, 0), A = J + L; if (s.chance(1, 4)) { J = foreign(s, p.v1) + J; A = J + L; }
	if (J.size() + 16 > p.max) throw Discard();
	// where the foreign bytes happen to contain something that reads as a record nothing is promised
	bool unsure = false; for (size_t q = 0; q < J.size(); q++) if (record_end(A, q, p.v1, p.max, &unsure, 0) != A.npos || unsure) { label("foreign bytes read as a record"); throw Discard(); }
	note("%zu foreign bytes %s in front of %u records", J.size(), pbt::show(J, 200).c_str(), n);
	std::string err, T = cooked(p, L, &err, {}); PBT_ASSERT(err.empty(), "cook reports %s for a sound log", pbt::show(err, 200).c_str());
	std::string got = cooked(p, A, &err, {});
	PBT_ASSERT(got == T, "%u records behind %zu foreign bytes: output %s instead of %s; %s", n, J.size(), pbt::show(got, 300).c_str(), pbt::show(T, 300).c_str(), pbt::show(err, 200).c_str());
	PBT_ASSERT(!err.empty(), "foreign bytes not reported");
	ops(n); if (n > 1 && J.size() > 8) nontrivial(hash_str(A));
}
static void damaged(Src &s)
{
	Opts p = gen_opts(s, true); unsigned n = s.range(0, 8); std::string B = gen_log(s, n, s.chance(1, 10) ? 3000 : 60, p.v1, 0); bool u = false;
	unsigned m = s.range(1, 6);
	if (p.max < 1000 && s.flip()) { // data that just fits or just does not
		uint64_t ts = 7; cook::Rec q = gen_rec(s, 0, 1, ts); q.args.clear(); unsigned k = s.range(1, 3), room = std::max<size_t>(p.max, 160) - 160; for (unsigned i = 0; i < k; i++) { cook::Arg a; a.type = s.pick({(unsigned) cook::TCSTR, (unsigned) cook::TGSTR, (unsigned) cook::TRAW}); a.u = 0; unsigned n = i + 1 < k ? s.bits(room + 1) : std::max(0, (int) room + (int) s.irange(-4, 3)); a.s.assign(n, 'x'); room -= std::min(room, n + (a.type != cook::TRAW)); q.args.push_back(a); }
		B += cook::pack(q, p.v1, TYPES); if (s.flip()) m = 0;
	}
	for (unsigned i = 0; i < m; i++) {
		Fields f; for (size_t q = 0; q != B.npos && q < B.size();) q = record_end(B, q, p.v1, ~0ul >> 1, &u, &f);
		size_t at = B.empty() ? 0 : s.bits(B.size());
		switch (s.range(0, 8)) {
		case 0: if (!B.empty()) B[at] = s.bits(256); break;
		case 1: B.insert(at, s.bytes(s.range(1, 40))); break;
		case 2: B.erase(at, s.range(1, 60)); break;
		case 3: B.insert(at, B.substr(B.empty() ? 0 : s.bits(B.size()), s.range(1, 200))); break;
		case 4: if (!B.empty()) B.resize(at); break;
		case 5: B += s.bytes(s.range(1, 100)); break;
		case 6: B = s.bytes(s.range(0, 300)); break;
		default: if (!f.empty()) { auto x = f[s.bits(f.size())]; uint64_t v = s.pick({0ull, 1ull, 127ull, 128ull, 129ull, 255ull, 256ull, 0x7fffull, 0xffffull, 0x10000ull, 0x7fffffffull, 0xffffffffull, ~0ull, 0x8888888888888888ull, 0xaaaaaaaaaaaaaaaaull, 0x7777777777777777ull}); if (s.chance(1, 3)) v = p.max + s.irange(-400, 20); for (unsigned k = 0; k < x.second; k++) B[x.first + k] = v >> (8 * k); note("field of %u bytes at %zu set to %llx", x.second, x.first, (cook::ull) v); } break;
		}
		if (B.size() > 9000) B.resize(9000);
	}
	size_t good = 0; bool unsure = false; unsigned k = 0; for (;;) { size_t e = record_end(B, good, p.v1, p.max, &unsure, 0); if (e == B.npos || unsure) break; good = e; k++; }
	note("%zu bytes %s, of them %zu in %u complete records in front", B.size(), pbt::show(B, 120).c_str(), good, k);
	std::vector<unsigned> ch; if (s.chance(1, 4)) ch = { (unsigned) s.range(1, 50), (unsigned) s.range(1, 400) };
	std::string err, got = cooked(p, B, &err, ch);
	if (k) { std::string e2, T = cooked(p, B.substr(0, good), &e2, {}); PBT_ASSERT(e2.empty(), "cook reports %s for %u complete records", pbt::show(e2, 200).c_str(), k); PBT_ASSERT(got.compare(0, T.size(), T) == 0, "%u complete records in front of a damaged place: output %s instead of %s", k, pbt::show(got, 300).c_str(), pbt::show(T, 300).c_str());
		if (p.minrecs && k >= p.minrecs && !unsure) { label("enough valid records in front"); PBT_ASSERT(got == T, "%u complete records, with %u wanted, in front of a damaged place: output %s instead of %s", k, p.minrecs, pbt::show(got, 300).c_str(), pbt::show(T, 300).c_str()); }
	}
	if (!unsure && B.size() - good >= 8) PBT_ASSERT(!err.empty(), "damaged log accepted without an error");
	ops(m); if (n && good != B.size()) nontrivial(hash_str(B));
}
PBT_SUITE("C16", "truncation", truncation, true, false, 3000, 150000, 30, 300, 30000, 0,
	"logs cut at any byte; non-trivial: cut inside a record behind at least one complete one");
PBT_SUITE("C16", "resync", resync, true, false, 4000, 150000, 40, 300, 30000, 0,
	"foreign bytes (random, text, partial and overlong records) in front of a log; non-trivial: more than eight of them in front of more than one record");
PBT_SUITE("C16", "damaged", damaged, true, false, 8000, 400000, 60, 500, 30000, 0,
	"mutated, spliced, truncated and random bytes, small record limits, both versions; non-trivial: made of a log and not a sequence of complete records any more");

// ---------------------------------------------------------------- following a log that is being written
static bool watching(pid_t c)
{
	for (int fd = 3; fd < 40; fd++) { FILE *f = fopen(strf("/proc/%d/fdinfo/%d", (int) c, fd).c_str(), "r"); if (!f) continue; char b[256]; bool y = false; while (fgets(b, sizeof(b), f)) y |= !strncmp(b, "inotify wd:", 11); fclose(f); if (y) return true; }
	return false;
}
static void follow(Src &s)
{
	Opts p = gen_opts(s, false); if (p.max < 20000) throw Discard(); unsigned n0 = s.range(0, 3), n = s.range(1, 12); std::string old = gen_log(s, n0, 60, p.v1, 0), L = gen_log(s, n, s.chance(1, 4) ? 2500 : 60, p.v1, 0);
	std::string err, T = cooked(p, L, &err, {}); PBT_ASSERT(err.empty(), "cook reports %s for a sound log", pbt::show(err, 200).c_str());
	const char *e = getenv("PBT_SCRATCH"); std::string path = strf("%s/tailXXXXXX", e ? e : "/tmp"); std::vector<char> b(path.begin(), path.end()); b.push_back(0); int fd = mkstemp(b.data()); if (fd < 0) fail("mkstemp"); path = b.data();
	if (write(fd, old.data(), old.size()) != (ssize_t) old.size()) fail("write");
	int fo = memfd_create("out", 0), fe = memfd_create("err", 0); fflush(0); pid_t c = fork();
	if (!c) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(fo, 1); dup2(fe, 2); setvbuf(stdout, 0, _IONBF, 0); std::vector<std::string> a; a.push_back("hogl-cook"); a.insert(a.end(), p.o.begin(), p.o.end()); a.push_back(s.flip() ? "-t" : "--tailf"); a.push_back(path);
		std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(0); optind = 0; _exit(cook_main(a.size(), v.data()));
	}
	auto dead = [&]() { int st; return waitpid(c, &st, WNOHANG) == c; }; bool gone = false;
	for (int i = 0; i < 20000 && !(gone = dead()) && !watching(c); i++) usleep(500);
	note("%u old records of %zu bytes, %u appended in %zu bytes", n0, old.size(), n, L.size());
	unsigned steps = 0;
	for (size_t i = 0; i < L.size() && !gone;) { size_t k = std::min<size_t>(L.size() - i, s.chance(1, 3) ? s.range(1, 20) : s.range(1, 1500)); if (write(fd, L.data() + i, k) != (ssize_t) k) fail("write"); i += k; steps++; unsigned w = s.bits(4); if (w == 1) sched_yield(); else if (w == 2) usleep(s.range(1, 300)); }
	std::string got; for (int i = 0; i < 10000; i++) { got = cook::no_addr(cook::fd_text(fo)); if (got.size() >= T.size() || (gone = gone || dead())) break; usleep(1000); }
	if (!gone) { kill(c, SIGKILL); int st; waitpid(c, &st, 0); } err = cook::fd_text(fe); close(fo); close(fe); close(fd); unlink(path.c_str());
	PBT_ASSERT(!gone, "cook stopped following: %s", pbt::show(err, 400).c_str());
	PBT_ASSERT(got == T, "%u records appended in %u steps behind %u: output %s instead of %s; %s", n, steps, n0, pbt::show(got, 300).c_str(), pbt::show(T, 300).c_str(), pbt::show(err, 200).c_str());
	ops(n); if (n > 1 && steps > 2) nontrivial(hash_str(L));
}
PBT_SUITE("C15", "follow", follow, true, false, 1500, 40000, 30, 300, 35000, 0,
	"records appended in pieces to a log that the tool follows; non-trivial: more than one record in more than two pieces");
int main(int argc, char **argv) { return run_main(argc, argv); }
