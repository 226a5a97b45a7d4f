// Generated record arguments: how to post them, what the record must then hold, how they look as text.
#pragma once
#include "pbt.hpp"
#include <math.h>
#include <deque>
#include <hogl/detail/args.hpp>
#include <hogl/detail/record.hpp>

namespace vals {
using namespace pbt;
typedef unsigned long long ull;

enum Kind { BOOL, U8, U16, U32, I32, I64L, I64LL, U64L, U64LL, DBL, FLT, PTR, VPTR, CHR, CSTR, SSTR, GSTR, RAW, XD, NKIND };

struct Val {
	Kind k; uint64_t u; double d; std::string s; bool null_str;
	hogl::arg_xdump xd; std::string *buf; std::string *sbuf;
	Val() : k(U32), u(0), d(0), null_str(false), xd(0, 0), buf(0), sbuf(0) {}
	bool textual() const { return k == CSTR || k == SSTR || k == GSTR; }
	bool complex() const { return k == CSTR || k == SSTR || k == RAW || k == XD; }
};

// doubles too large for the formatter's exact range are avoided by the text generators (see DESIGN)
inline bool exact_double(double d) { return !std::isfinite(d) || fabs(d) < 1e17; }

inline const char *gstr_of(unsigned i)
{
	static const char *const t[] = { "global", "", "g%d", "a somewhat longer global string used as a format: %s %d", "x", 0 };
	return t[i % 6];
}

inline std::string gtext(unsigned i) { const char *p = gstr_of(i); return p ? p : "null"; }
inline std::string gen_text(Src &s, size_t max, bool nul)
{
	size_t n = s.size(max);
	if (s.chance(1, 12)) return s.bytes(n);
	std::string r = s.str(n, "abcdefghijXYZ0123 .,:%>\t\n\\\"'-_");
	(void) nul;
	return r;
}
inline double gen_double(Src &s)
{
	switch (s.weighted({4, 2, 2, 1})) {
	case 0: return (double) s.irange(-1000000, 1000000) / (double) s.pick({1, 2, 3, 7, 10, 100, 1000, 1000000});
	case 1: return ldexp((double) s.bits(1ULL << 53), (int) s.irange(-80, 3)) * (s.flip() ? -1 : 1);
	case 2: return s.pick({0.0, -0.0, 1.0, 0.5, 0.1, 1e-5, 123456.789, 1e15, 1e16, 2.5, 1e-300, 4.9e-324});
	default: { union { uint64_t u; double d; } x; x.u = s.bits(0); return x.d; }
	}
}

inline Val gen_val(Src &s, size_t maxdata)
{
	Val v;
	// index order keeps the simplest kind first
	static const Kind order[] = { U32, I32, BOOL, U8, U16, I64L, I64LL, U64L, U64LL, DBL, FLT, PTR, VPTR, CHR, GSTR, CSTR, SSTR, RAW, XD };
	v.k = s.chance(1, 2) ? s.pick({CSTR, SSTR, RAW, XD, GSTR}) : order[s.bits(NKIND)];
	switch (v.k) {
	case DBL: v.d = gen_double(s); break;
	case FLT: v.d = (float) gen_double(s); break;
	case CSTR: v.null_str = s.chance(1, 20); if (!v.null_str) { v.s = gen_text(s, maxdata, false); for (char &c : v.s) if (!c) c = '0'; } break;
	case SSTR: v.s = gen_text(s, maxdata, true); break;
	case GSTR: v.u = s.chance(1, 20) ? 5 : s.bits(5); v.s = gtext(v.u); break;
	case RAW: v.s = s.bytes(s.size(std::min<size_t>(maxdata, 600))); break;
	case XD: {
		uint8_t bw = s.pick({1, 2, 4, 8});
		uint8_t t = bw == 1 ? s.pick({'H', 'x', 'd', 'u'}) : bw == 2 ? s.pick({'x', 'd', 'u'}) : s.pick({'x', 'd', 'u', 'f'});
		v.s = s.bytes(bw * s.size(std::min<size_t>(maxdata, 400) / bw));
		if (t == 'f' && s.chance(9, 10)) for (size_t i = 0; i + bw <= v.s.size(); i += bw) {
			if (bw == 4) { float f = s.irange(-100000, 100000) / 64.0f; memcpy(&v.s[i], &f, 4); }
			else { double d = s.irange(-100000000, 100000000) / 1000.0; memcpy(&v.s[i], &d, 8); }
		}
		if (t == 'f') for (size_t i = 0; i + bw <= v.s.size(); i += bw) {
			float f = 0; double d; if (bw == 4) { memcpy(&f, &v.s[i], 4); d = f; } else memcpy(&d, &v.s[i], 8);
			if (!exact_double(d)) { f = 1; d = 1; memcpy(&v.s[i], bw == 4 ? (void *) &f : (void *) &d, bw); }
		}
		v.xd.fmt = hogl::arg_xdump::format(t, bw, s.range(0, 7), s.weighted({2, 1}) ? s.range(0, 255) : s.range(0, 20), s.pick({' ', ',', ';', 'x'}));
		break;
	}
	default: v.u = s.u64(); break;
	}
	return v;
}

inline std::string show(const Val &v)
{
	static const char *const nm[] = { "bool", "u8", "u16", "u32", "i32", "long", "llong", "ulong", "ullong", "double", "float", "ptr", "vptr", "char", "cstr", "string", "gstr", "raw", "xdump" };
	if (v.k == DBL || v.k == FLT) return strf("%s %.17g", nm[v.k], v.d);
	if (v.k == XD) return strf("xdump(%c,w%u,p%u,l%u) %s", v.xd.fmt.type, v.xd.fmt.byte_width, v.xd.fmt.precision, v.xd.fmt.line_width, pbt::show(v.s, 24).c_str());
	if (v.null_str) return "cstr null";
	if (v.k >= CSTR) return strf("%s %s", nm[v.k], pbt::show(v.s, 40).c_str());
	return strf("%s 0x%llx", nm[v.k], (ull) v.u);
}

// Scratch memory the arguments are posted from; scribble() afterwards shows that values were captured.
struct Pool {
	std::deque<std::string> mem; std::deque<hogl::arg_xdump> xds;
	void scribble() { for (auto &m : mem) for (char &c : m) c = 'Z'; for (auto &x : xds) { x.fmt.type = 'q'; x.len = 1; } }
};
inline char *hold(Pool &p, const std::string &s)
{
	// exact-size heap block so that over-reads are seen by the sanitizer
	p.mem.push_back(s);
	return &p.mem.back()[0];
}

// The argument exactly as a caller would produce it (through the matching constructor).
inline hogl::arg to_arg(const Val &v, Pool &p)
{
	switch (v.k) {
	case BOOL: return hogl::arg((bool) (v.u & 1));
	case U8: return hogl::arg((uint8_t) v.u);
	case U16: return hogl::arg((uint16_t) v.u);
	case U32: return hogl::arg((unsigned int) v.u);
	case CHR: return hogl::arg((int) (char) v.u);
	case I32: return hogl::arg((int) v.u);
	case I64L: return hogl::arg((long) v.u);
	case I64LL: return hogl::arg((long long) v.u);
	case U64L: return hogl::arg((unsigned long) v.u);
	case U64LL: return hogl::arg((unsigned long long) v.u);
	case DBL: return hogl::arg(v.d);
	case FLT: return hogl::arg((double) (float) v.d);
	case PTR: return hogl::arg((void *) v.u);
	case VPTR: return hogl::arg((volatile void *) v.u);
	case CSTR: if (v.null_str) return hogl::arg((const char *) 0); return hogl::arg((const char *) hold(p, v.s));
	case SSTR: p.mem.push_back(v.s); return hogl::arg(p.mem.back());
	case GSTR: return hogl::arg(hogl::arg_gstr(gstr_of(v.u)));
	case RAW: return hogl::arg(hogl::arg_raw(hold(p, v.s), v.s.size()));
	case XD: {
		hogl::arg_xdump x = v.xd; x.ptr = hold(p, v.s); x.len = v.s.size();
		p.xds.push_back(x); return hogl::arg(p.xds.back());
	}
	default: return hogl::arg();
	}
}
inline unsigned arg_type(const Val &v)
{
	switch (v.k) {
	case BOOL: case U8: case U16: case U32: return hogl::arg::UINT32;
	case I32: case CHR: return hogl::arg::INT32;
	case I64L: case I64LL: return hogl::arg::INT64;
	case U64L: case U64LL: return hogl::arg::UINT64;
	case DBL: case FLT: return hogl::arg::DOUBLE;
	case PTR: case VPTR: return hogl::arg::POINTER;
	case CSTR: case SSTR: return hogl::arg::CSTR;
	case GSTR: return hogl::arg::GSTR;
	case RAW: return hogl::arg::RAW;
	default: return hogl::arg::XDUMP;
	}
}
inline uint64_t arg_value(const Val &v)
{
	switch (v.k) {
	case BOOL: return v.u & 1;
	case U8: return (uint8_t) v.u;
	case U16: return (uint16_t) v.u;
	case U32: case I32: return (uint32_t) v.u;
	case CHR: return (uint32_t) (int) (char) v.u;
	case DBL: case FLT: { union { double d; uint64_t u; } x; x.d = v.d; return x.u; }
	case GSTR: return (uint64_t) gstr_of(v.u);
	default: return v.u;
	}
}
// What the record keeps of the data arguments, given the room (the documented truncation rule).
inline std::vector<std::string> stored(const std::vector<Val> &a, unsigned tailroom, unsigned *ntrunc = 0)
{
	std::vector<std::string> r; unsigned used = a.size() * 8, nt = 0;
	for (auto &v : a) {
		unsigned room = tailroom - used; std::string t;
		if (v.k == CSTR || v.k == SSTR) {
			if (room && !v.s.empty()) {
				if (v.s.size() <= room - 1) t = v.s;
				else {
					unsigned n = room - 1; nt++;
					t = n > 3 ? v.s.substr(0, n - 3) + ">>>" : v.s.substr(0, n);
				}
				used += t.size() + 1;
			} else if (!v.s.empty()) nt++;
		} else if (v.k == RAW) {
			t = v.s.substr(0, room); if (t.size() < v.s.size()) nt++;
			used += t.size();
		} else if (v.k == XD) {
			std::string full((const char *) &v.xd.fmt, 4); full += v.s;
			if (room >= 4) t = full.substr(0, room);
			if (t.size() < full.size()) nt++;
			used += t.size();
		}
		r.push_back(t);
	}
	if (ntrunc) *ntrunc = nt;
	return r;
}

// Compare a record's arguments with what was posted.
inline void check_args(const hogl::record *r, const std::vector<Val> &a, const std::vector<std::string> &st, unsigned tailroom, const char *what)
{
	for (unsigned i = 0; i < 16; i++) {
		unsigned t = r->get_arg_type(i), e = i < a.size() ? arg_type(a[i]) : (unsigned) hogl::arg::NONE;
		PBT_ASSERT(t == e, "%s: argument %u has type %u, posted type %u", what, i, t, e);
		if (i >= a.size()) continue;
		if (a[i].complex()) {
			unsigned len; const uint8_t *p = r->get_arg_data(i, len);
			PBT_ASSERT(len == st[i].size(), "%s: argument %u (%s) holds %u bytes instead of %zu", what, i, show(a[i]).c_str(), len, st[i].size());
			PBT_ASSERT(p >= (const uint8_t *) r->argval && p + len <= (const uint8_t *) r->argval + tailroom, "%s: argument %u outside the record", what, i);
			PBT_ASSERT(!memcmp(p, st[i].data(), len), "%s: argument %u holds %s instead of %s", what, i,
				pbt::show(std::string((const char *) p, len), 60).c_str(), pbt::show(st[i], 60).c_str());
			if (len && (a[i].k == CSTR || a[i].k == SSTR))
				PBT_ASSERT(p + len < (const uint8_t *) r->argval + tailroom && !p[len], "%s: string argument %u is not terminated", what, i);
		} else {
			bool w32 = e == hogl::arg::UINT32 || e == hogl::arg::INT32;
			uint64_t got = w32 ? r->get_arg_val32(i) : r->get_arg_val64(i), exp = arg_value(a[i]);
			PBT_ASSERT(got == exp, "%s: argument %u is 0x%llx, posted 0x%llx (%s)", what, i, (ull) got, (ull) exp, show(a[i]).c_str());
		}
	}
}

// ---------------------------------------------------------------- text
inline std::string xdump_text(const std::string &st)
{
	if (st.size() < 4) return "";
	hogl::arg_xdump::format f(0, 0, 0, 0, 0); memcpy((void *) &f, st.data(), 4);
	const uint8_t *d = (const uint8_t *) st.data() + 4; size_t n = (st.size() - 4) / f.byte_width; std::string o;
	if (f.type == 'H') {
		size_t lw = f.line_width ? f.line_width : n;
		for (size_t off = 0; off < n; off += lw) {
			o += strf("\n\t%03d: ", (int) off);
			for (size_t i = 0; i < lw; i++) o += off + i < n ? strf("%02x ", d[off + i]) : std::string("   ");
			o += "  ";
			for (size_t i = 0; i < lw && off + i < n; i++) o += d[off + i] >= 0x20 && d[off + i] < 0x7f ? (char) d[off + i] : '.';
		}
		return o;
	}
	for (size_t i = 0; i < n; i++) {
		if (f.line_width ? i % f.line_width == 0 : false) o += "\n\t";
		else if (i) o += (char) f.delim;
		const uint8_t *p = d + i * f.byte_width; uint64_t u = 0; memcpy(&u, p, f.byte_width);
		int64_t sg = f.byte_width == 8 ? (int64_t) u : f.byte_width == 4 ? (int32_t) u : f.byte_width == 2 ? (int16_t) u : (int8_t) u;
		if (f.type == 'x') o += strf("%llx", (ull) u);
		else if (f.type == 'u') o += strf("%llu", (ull) u);
		else if (f.type == 'd') o += strf("%lld", (long long) sg);
		else {
			double v; if (f.byte_width == 4) { float fl; memcpy(&fl, p, 4); v = fl; } else memcpy(&v, p, 8);
			int pr = f.precision >= 1 && f.precision <= 5 ? f.precision : 6;
			o += strf("%.*f", pr, v);
		}
	}
	return o;
}
inline std::string plain_text(const Val &v, const std::string &st, const void *data)
{
	switch (arg_type(v)) {
	case hogl::arg::UINT32: return strf("%u", (uint32_t) arg_value(v));
	case hogl::arg::INT32: return strf("%d", (int32_t) arg_value(v));
	case hogl::arg::INT64: return strf("%lld", (long long) v.u);
	case hogl::arg::UINT64: return strf("%llu", (ull) v.u);
	case hogl::arg::DOUBLE: return strf("%f", v.d);
	case hogl::arg::POINTER: return v.u ? strf("0x%llx", (ull) v.u) : "(nil)";
	case hogl::arg::CSTR: return st.empty() ? "null" : std::string(st.c_str());
	case hogl::arg::GSTR: return v.s;
	case hogl::arg::RAW: return strf("rawdata %u bytes @ %p", (unsigned) st.size(), data);
	default: return xdump_text(st);
	}
}

} // namespace vals
