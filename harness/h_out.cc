// C13 output streams.
#include "hoglsim.hpp"
#include "iofault.hpp"
#include <fcntl.h>
#include <stdio_ext.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <hogl/detail/ostrbuf-fd.hpp>
#undef HOGL_DETAIL_OSTRBUF_FD_HPP /* both headers use the same guard */
#include <hogl/detail/ostrbuf-stdio.hpp>
#include <hogl/detail/ostrbuf-tee.hpp>
#include <hogl/output-file.hpp>
#include <hogl/output-plainfile.hpp>
#include <hogl/output-pipe.hpp>
#include <hogl/output-stdout.hpp>
#include <hogl/output-stderr.hpp>
#include <hogl/output-tee.hpp>
using namespace sim;

static const int ERRS[] = { ENOSPC, EIO, EPIPE, EBADF, EFBIG, EAGAIN, EDQUOT };
static void gen_plan(Src &s, iof::File &f, bool fault, int mode)
{
	// mode 0: no disturbance, 1: short and interrupted calls, 2: those and a failure
	if (mode == 0) { note("  every call completes"); return; }
	unsigned n = s.range(1, 14); std::string d;
	for (unsigned i = 0; i < n; i++) {
		iof::Act a = { iof::FULL, 0, 0 };
		a.kind = s.weighted({3, 5, 2});
		if (a.kind == iof::SHORT) { a.n = s.flip() ? s.bits(8) : s.bits(2000); d += strf(" short%u", a.n); } else d += a.kind ? " eintr" : " full";
		f.plan.push_back(a);
	}
	if (fault && mode == 2) {
		iof::Act a = { iof::FAIL, 0, ERRS[s.bits(7)] }; f.sticky = s.flip();
		unsigned at = s.bits(n + 1); f.plan.insert(f.plan.begin() + at, a);
		d += strf(" (call %u fails with errno %d, %s)", at, a.err, f.sticky ? "for good" : "once");
	}
	note(" %s", d.c_str());
}
static std::string read_file(const std::string &p)
{
	std::string o; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return o;
	char b[65536]; ssize_t r; while ((r = read(fd, b, sizeof b)) > 0) o.append(b, r);
	close(fd); return o;
}
static void same(const char *what, const std::string &got, const std::string &want)
{
	if (got == want) return;
	size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	size_t a = i > 20 ? i - 20 : 0;
	fail("%s: %zu bytes instead of %zu, first difference at %zu: got ...%s, expected ...%s", what, got.size(), want.size(), i,
		show(got.substr(a, 60)).c_str(), show(want.substr(a, 60)).c_str());
}
static bool prefix_of(const std::string &a, const std::string &b) { return a.size() <= b.size() && !b.compare(0, a.size(), a); }
static std::string text(Src &s, size_t n) { std::string t; unsigned c = s.bits(26), st = 1 + s.bits(7); for (size_t i = 0; i < n; i++) { t += (char) ((i % 17 == 16) ? '\n' : 'a' + (c + i * st) % 26); } return t; }
static size_t gen_len(Src &s, size_t cap)
{
	switch (s.weighted({4, 3, 3, 1})) {
	case 0: return s.bits(20);
	case 1: { long n = (long) cap + s.irange(-3, 3); return n < 0 ? 0 : n; }
	case 2: return s.bits(cap + 2);
	default: return s.bits(3 * cap + 4000);
	}
}
static std::string errtext(int e) { char b[64]; snprintf(b, sizeof b, "%s", strerror(e)); return b; }

// ------------------------------------------------------------------ string buffers
// In-memory double of a derived class
struct MemBuf : hogl::ostrbuf {
	std::string got; int fail_at, calls; bool failed_once;
	MemBuf(unsigned cap) : hogl::ostrbuf(cap), fail_at(-1), calls(0), failed_once(false) {}
	void do_flush(const uint8_t *d, size_t n)
	{
		if (failed()) return;
		if (calls++ == fail_at) { failed_once = true; failure("a failure of the underlying stream that has a description longer than the error buffer"); reset(); return; }
		if (_size) got.append((const char *) _data, _size);
		if (n) got.append((const char *) d, n);
		reset();
	}
};
// Failures of stdio streams are injected per fwrite() call (what libc itself retries or keeps inside a failed
// call is not the library's doing)
struct Cookie { std::string got; FILE *fp; int fail_call, err, calls; bool sticky, failing; unsigned after; int failed; };
static std::vector<Cookie *> g_cookies;
static ssize_t cookie_write(void *c_, const char *b, size_t n)
{
	Cookie &c = *(Cookie *) c_;
	if (c.failing) { errno = c.err; return -1; }
	if (c.failed) c.after++;
	c.got.append(b, n); return n;
}
extern "C" size_t fwrite(const void *p, size_t sz, size_t n, FILE *fp)
{
	typedef size_t (*fn)(const void *, size_t, size_t, FILE *); static fn real;
	if (!real) real = (fn) dlsym(RTLD_NEXT, "fwrite");
	for (auto c : g_cookies) if (c->fp == fp) {
		if (c->failed) c->after++;
		if ((c->failed && c->sticky) || (!c->failed && c->calls++ == c->fail_call)) {
			c->failing = true; size_t r = real(p, sz, n, fp); c->failing = false; __fpurge(fp);
			c->failed = errno = c->err; return r;
		}
	}
	return real(p, sz, n, fp);
}
struct Leaf { int kind; unsigned cap; hogl::ostrbuf *ob; MemBuf *mem; Cookie ck; FILE *fp; int fd; iof::File *f; std::string want;
	std::string got() { return kind == 0 ? f->got : kind == 1 ? ck.got : mem->got; }
	int err() { return kind == 0 ? f->failed : kind == 1 ? ck.failed : mem->failed_once; }
	unsigned after() { return kind == 0 ? f->after : kind == 1 ? ck.after : 0; }
	std::string errstr() { return kind == 2 ? std::string("a failure of the underlying stream that has a description longer than the error buffer").substr(0, 63) : errtext(err()); }
};
static unsigned gen_cap(Src &s) { return s.chance(1, 6) ? 0 : s.chance(1, 3) ? s.range(1, 8) : s.chance(2, 3) ? s.range(9, 200) : s.pick({1024u, 4096u, 8192u}); }
static void bufs(Src &s)
{
	iof::start(); errno = 0; g_cookies.clear();
	bool tee = s.chance(1, 4); unsigned nl = tee ? 2 : 1; std::deque<Leaf> lf;
	int mode = s.weighted({1, 4, 4}); int victim = s.bits(nl);
	for (unsigned i = 0; i < nl; i++) {
		lf.emplace_back(); Leaf &l = lf.back(); l.kind = s.weighted({5, 3, 2}); l.cap = gen_cap(s); l.mem = 0; l.fp = 0; l.fd = -1; l.f = 0;
		bool fault = mode == 2 && (int) i == victim;
		note("%s, capacity %u", l.kind == 0 ? "descriptor" : l.kind == 1 ? "stdio stream" : "memory", l.cap);
		if (l.kind == 0) {
			l.fd = memfd_create("out", 0); PBT_ASSERT(l.fd >= 0, "memfd"); l.f = iof::watch_fd(l.fd);
			gen_plan(s, *l.f, fault, mode); l.ob = new hogl::ostrbuf_fd(l.fd, hogl::ostrbuf_fd::CLOSE_ON_DELETE, l.cap);
		} else if (l.kind == 1) {
			l.ck = Cookie(); l.ck.fail_call = fault ? s.bits(10) : -1; l.ck.err = ERRS[s.bits(7)]; l.ck.sticky = s.flip(); l.ck.failing = false; l.ck.calls = 0; l.ck.after = 0; l.ck.failed = 0;
			cookie_io_functions_t io = { 0, cookie_write, 0, 0 };
			l.fp = fopencookie(&l.ck, "w", io); setvbuf(l.fp, 0, _IONBF, 0); l.ck.fp = l.fp; g_cookies.push_back(&l.ck);
			if (fault) note("  call %d fails with errno %d, %s", l.ck.fail_call, l.ck.err, l.ck.sticky ? "for good" : "once");
			l.ob = new hogl::ostrbuf_stdio(l.fp, hogl::ostrbuf_stdio::CLOSE_ON_DELETE, l.cap);
		} else {
			l.mem = new MemBuf(l.cap); if (fault) { l.mem->fail_at = s.bits(10); note("  flush %d fails", l.mem->fail_at); } l.ob = l.mem;
		}
	}
	unsigned cap = tee ? gen_cap(s) : lf[0].cap;
	hogl::ostrbuf *top = tee ? new hogl::ostrbuf_tee(lf[0].ob, lf[1].ob, cap) : lf[0].ob;
	if (tee) note("tee, capacity %u", cap);
	PBT_ASSERT(top->capacity() == cap, "capacity() %zu, requested %u", top->capacity(), cap);
	std::string pend; // given to the tee, not yet to the leaves
	bool gone = false; unsigned n = s.range(1, 24); uint64_t total = 0;
	auto account = [&](const std::string &add) {
		total += add.size();
		if (!tee) { lf[0].want += add; return; }
		pend += add;
		PBT_ASSERT(top->size() <= pend.size(), "tee holds %zu bytes, given %zu", top->size(), pend.size());
		size_t out = pend.size() - top->size();
		for (auto &l : lf) l.want.append(pend, 0, out);
		pend.erase(0, out);
	};
	auto verify = [&]() {
		bool f = false; std::string want_err;
		for (auto &l : lf) {
			PBT_ASSERT(l.ob->size() <= l.ob->capacity(), "size %zu > capacity %zu", l.ob->size(), l.ob->capacity());
			if (l.err()) {
				f = true; if (want_err.empty()) want_err = l.errstr();
				PBT_ASSERT(l.ob->failed(), "write failed (errno %d) but failed() is false", l.err());
				PBT_ASSERT(l.errstr() == l.ob->error(), "error() \"%s\" instead of \"%s\"", l.ob->error(), l.errstr().c_str());
				PBT_ASSERT(!l.after(), "%u write calls after the stream failed", l.after());
				continue;
			}
			PBT_ASSERT(!l.ob->failed(), "failed() although no write failed: %s", l.ob->error());
		}
		PBT_ASSERT(top->failed() == f, "failed() %d, expected %d", top->failed(), f);
		if (f) PBT_ASSERT(want_err == top->error() , "error() \"%s\" instead of \"%s\"", top->error(), want_err.c_str());
		gone = gone || f;
	};
	for (unsigned i = 0; i < n && !gone; i++) {
		std::string d; ops(1);
		switch (s.weighted({5, 3, 3, 3, 4, 3, 2, 1, tee ? 1u : 0u})) {
		case 0: d = text(s, gen_len(s, cap)); note("append %zu", d.size()); top->push_back((const uint8_t *) d.data(), d.size()); account(d); break;
		case 1: d = text(s, gen_len(s, cap)); note("append string %zu", d.size()); top->push_back(d); account(d); break;
		case 2: d = text(s, gen_len(s, cap)); note("append c string %zu", d.size()); top->push_back(d.c_str()); account(d); break;
		case 3: { unsigned k = s.range(1, 12); d = text(s, k); note("append %u characters", k); for (unsigned j = 0; j < k; j++) top->push_back(d[j]); account(d); break; }
		case 4: { std::string a = text(s, gen_len(s, cap / 2)); int v = (int) s.u64(); double w = (int) s.irange(-100000, 100000) / 8.0; unsigned x = s.u64();
			d = strf("<%s|%d|%08x|%.3f>", a.c_str(), v, x, w); note("printf %zu", d.size()); top->printf("<%s|%d|%08x|%.3f>", a.c_str(), v, x, w); account(d); break; }
		case 5: note("flush"); top->flush(); account("");
			if (!tee) PBT_ASSERT(lf[0].ob->size() == 0 || lf[0].err(), "%zu bytes still buffered after flush", lf[0].ob->size());
			if (tee) PBT_ASSERT(top->size() == 0 || top->failed(), "%zu bytes still buffered after flush", top->size());
			break;
		case 6: d = text(s, gen_len(s, cap)); note("flush with %zu bytes", d.size()); top->flush((const uint8_t *) d.data(), d.size()); account(d); break;
		case 7: note("reset"); { size_t k = top->size(); if (tee) pend.clear(); else lf[0].want.resize(lf[0].want.size() - k); top->reset(); PBT_ASSERT(!top->size(), "size after reset"); break; }
		case 8: { Leaf &l = lf[s.bits(2)]; d = text(s, gen_len(s, l.cap)); note("append %zu directly to one side", d.size()); l.ob->push_back(d); l.want += d; break; }
		}
		verify();
		if (gone) break;
		for (auto &l : lf) {
			std::string g = l.got();
			PBT_ASSERT(g.size() + l.ob->size() == l.want.size(), "%zu bytes written, %zu buffered, %zu given", g.size(), l.ob->size(), l.want.size());
			same("bytes written", g, l.want.substr(0, g.size()));
			if (l.ob->size()) PBT_ASSERT(!memcmp(l.ob->head(), l.want.data() + g.size(), l.ob->size()), "buffered data differ");
		}
	}
	if (gone) {
		label("failed"); 
		for (auto &l : lf) PBT_ASSERT(prefix_of(l.got(), l.want), "after a failure the stream holds %zu bytes that are not the first ones of the %zu generated", l.got().size(), l.want.size());
		std::vector<std::string> before; for (auto &l : lf) before.push_back(l.got());
		bool bad[2] = { lf[0].err() != 0, nl > 1 && lf[1].err() != 0 };
		unsigned k = s.range(1, 6);
		for (unsigned j = 0; j < k; j++) { std::string d = text(s, gen_len(s, cap)); top->push_back(d); if (s.flip()) top->flush(); if (s.flip()) top->printf("%d%s", (int) j, d.c_str()); }
		verify();
		for (unsigned i = 0; i < nl; i++) if (bad[i]) same("data written after the failure", lf[i].got(), before[i]);
	} else {
		top->flush(); account(""); verify();
		if (!gone && tee) for (auto &l : lf) { l.ob->flush(); }
		if (tee) verify();
		if (!gone) for (auto &l : lf) { same("stream", l.got(), l.want); }
	}
	if (tee) delete top;
	unsigned shorts = 0; for (auto &l : lf) { if (l.f) shorts += l.f->shorts + l.f->eintrs; }
	if (shorts) label("short-or-interrupted", shorts);
	for (auto &l : lf) { std::string g = l.got(); int kind = l.kind; iof::File *f = l.f; delete l.ob; if (kind == 0) same("stream after delete", f->got, g); else if (kind == 1) same("stream after delete", l.ck.got, g); }
	iof::stop();
	if (total > cap) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C13", "buffers", bufs, false, false, 150000, 1500000, 40, 600, 20000, 0,
	"appends, prints, flushes and resets on descriptor, stdio, memory and tee buffers of every capacity, with short, interrupted and failing writes; non-trivial: more data than the buffer holds");

// ------------------------------------------------------------------ outputs
// Pieces written for header, records and footer are generated; names are up to the format.
struct PieceFormat : hogl::format {
	std::vector<std::string> head, foot; std::vector<std::vector<std::string> > recs; uint64_t processed, headers, footers; std::string want;
	PieceFormat() : processed(0), headers(0), footers(0) {}
	void emit(hogl::ostrbuf &s, const std::vector<std::string> &v) { for (size_t i = 0; i < v.size(); i++) { if (i % 3 == 2) s.printf("%s", v[i].c_str()); else s.push_back(v[i]); } }
	static std::string cat(const std::vector<std::string> &v) { std::string o; for (auto &x : v) o += x; return o; }
	void header(hogl::ostrbuf &s, const char *n, bool first) { headers++; emit(s, head); if (!n || !first) s.push_back("BAD"); }
	void footer(hogl::ostrbuf &s, const char *n) { footers++; emit(s, foot); if (n) s.push_back("BAD"); }
	void process(hogl::ostrbuf &s, const data &d) { is_engine() = 1; processed++; emit(s, recs[d.record ? (d.record->get_arg_val64(0) % recs.size()) : cur]); }
	size_t cur;
};
static std::vector<std::string> pieces(Src &s, const char *tag, size_t cap, unsigned lo, unsigned hi)
{
	std::vector<std::string> v; unsigned n = s.range(lo, hi);
	for (unsigned i = 0; i < n; i++) v.push_back((i ? std::string() : std::string(tag)) + text(s, gen_len(s, cap)));
	return v;
}
static void gen_format(Src &s, PieceFormat &f, size_t cap)
{
	f.head = pieces(s, "HEAD", cap, 0, 3); f.foot = pieces(s, "FOOT", cap, 0, 3);
	unsigned n = s.range(1, 6); for (unsigned i = 0; i < n; i++) f.recs.push_back(pieces(s, strf("R%u:", i).c_str(), cap, 1, 4));
}
static std::string scratch_dir() { const char *e = getenv("PBT_SCRATCH"); std::string t = strf("%s/oXXXXXX", e ? e : "/tmp"); std::vector<char> b(t.begin(), t.end()); b.push_back(0); if (!mkdtemp(b.data())) fail("mkdtemp: %s", strerror(errno)); return b.data(); }
static void outs(Src &s)
{
	signal(SIGPIPE, SIG_IGN); signal(SIGXFSZ, SIG_IGN);
	std::string dir = scratch_dir(), path = dir + "/log";
	unsigned cap = gen_cap(s); PieceFormat f; gen_format(s, f, cap > 64 ? 64 : cap);
	int kind = s.weighted({4, 4, 2, 1}); // plain file, rotating file (no rotation), standard output, standard error
	int mode = s.weighted({1, 3, 3}); bool lim = kind >= 2 || s.chance(1, 4);
	std::string want = PieceFormat::cat(f.head); size_t limit = 0; iof::File *wf = 0;
	int fd = open(path.c_str(), O_CREAT | O_RDWR, 0666); std::string real = path;
	if (kind < 2 && s.chance(1, 10)) { // no such place
		bool threw = false; std::string no = dir + "/none/log"; hogl::output_file::options oo = { 0666, 1u << 30, 4, cap, 0 };
		try { if (kind == 0) hogl::output_plainfile x(no, f, cap); else hogl::output_file x(no.c_str(), f, oo); } catch (std::runtime_error &) { threw = true; }
		PBT_ASSERT(threw, "an output was created for a file that cannot be opened"); label("cannot be opened");
	}
	note("%s, capacity %u", kind == 0 ? "plain file" : kind == 1 ? "file" : kind == 2 ? "standard output" : "standard error", cap);
	hogl::output *o = 0; int saved = -1; struct rlimit old; getrlimit(RLIMIT_FSIZE, &old);
	if (kind == 1) { close(fd); fd = -1; unlink(path.c_str()); real = path + ".0"; close(open(real.c_str(), O_CREAT | O_RDWR, 0666)); }
	unsigned n = s.range(0, 12); std::vector<unsigned> seq; std::vector<bool> fl; size_t total = want.size() + PieceFormat::cat(f.foot).size();
	for (unsigned i = 0; i < n; i++) { seq.push_back(s.bits(f.recs.size())); fl.push_back(s.chance(1, 4)); total += PieceFormat::cat(f.recs[seq.back()]).size(); }
	if (lim) { if (mode == 2) { limit = s.bits(total + 2); note("file size limit %zu of %zu", limit, total); } }
	else { iof::start(); wf = iof::watch(real.c_str()); gen_plan(s, *wf, true, mode); }
	int ionb = s.pick({ (int) _IONBF, (int) _IOLBF, (int) _IOFBF });
	if (limit || (lim && mode == 2)) { struct rlimit r = { limit, old.rlim_max }; setrlimit(RLIMIT_FSIZE, &r); }
	if (kind >= 2) { FILE *fp = kind == 2 ? stdout : stderr; fflush(fp); saved = dup(kind == 2 ? 1 : 2); dup2(fd, kind == 2 ? 1 : 2); if (kind == 2) setvbuf(fp, 0, ionb, 4096); note("stdio buffering %d", ionb); }
	hogl::output_file::options oo = { 0666, 1u << 30, 4, cap, 0 };
	if (kind == 0) o = new hogl::output_plainfile(path.c_str(), f, cap);
	else if (kind == 1) { o = new hogl::output_file(path.c_str(), f, oo); usleep(2000); }
	else if (kind == 2) o = new hogl::output_stdout(f, cap);
	else o = new hogl::output_stderr(f, cap);
	bool failed = o->failed(); std::string err = o->error(), atfail = "?"; std::string msg;
	for (unsigned i = 0; i < n; i++) {
		f.cur = seq[i]; hogl::format::data d = { "ring", 0 }; o->process(d); want += PieceFormat::cat(f.recs[seq[i]]);
		if (fl[i]) o->flush();
		if (failed && !o->failed() && msg.empty()) msg = "a failed output is not failed any more";
		if (!failed && o->failed()) { failed = true; err = o->error(); }
		if (fl[i] && !o->failed() && !(lim && mode == 2) && (kind < 2 || kind == 3 || ionb == _IONBF) && msg.empty()) { std::string g = read_file(real); if (g != want) msg = strf("after flush the file has %zu bytes, %zu expected", g.size(), want.size()); }
	}
	bool ff = o->failed(); want += PieceFormat::cat(f.foot);
	delete o;
	if (kind >= 2 && (fcntl(kind == 2 ? 1 : 2, F_GETFD) < 0 || fileno(kind == 2 ? stdout : stderr) < 0)) msg = "the standard stream was closed with the output";
	if (kind >= 2) { FILE *fp = kind == 2 ? stdout : stderr; fflush(fp); clearerr(fp); dup2(saved, kind == 2 ? 1 : 2); close(saved); if (kind == 2) setvbuf(fp, 0, _IOLBF, 4096); }
	if (lim && mode == 2) setrlimit(RLIMIT_FSIZE, &old);
	if (fd >= 0) close(fd);
	if (msg.size()) fail_str(msg);
	std::string got = read_file(real);
	iof::stop();
	if (lim && mode == 2) {
		std::string w = want.substr(0, limit);
		same("file limited in size", got, w); label("file-size-limit");
		if (limit < total && ff) PBT_ASSERT(err == errtext(EFBIG), "error() \"%s\"", err.c_str());
		if (ff) PBT_ASSERT(limit < total, "output failed: %s", err.c_str());
		size_t before = total - PieceFormat::cat(f.foot).size();
		if (kind < 2 && cap == 0 && limit < before) PBT_ASSERT(ff, "unbuffered output over the size limit did not fail");
	} else if (!lim && wf->failed) {
		label("failed");
		PBT_ASSERT(prefix_of(got, want), "after a failure the file holds %zu bytes that are not the first ones of the %zu generated", got.size(), want.size());
		PBT_ASSERT(!wf->after, "%u write calls after the stream failed", wf->after);
		if (ff) PBT_ASSERT(err == errtext(wf->failed), "error() \"%s\" for errno %d", err.c_str(), wf->failed);
	} else {
		PBT_ASSERT(!ff, "output failed without a reason: %s", err.c_str());
		same("output", got, want);
	}
	if (wf && wf->shorts + wf->eintrs) label("short-or-interrupted", wf->shorts + wf->eintrs);
	unlink(real.c_str()); unlink(path.c_str()); rmdir(dir.c_str());
	ops(n + 2);
	if (n && total > cap) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C13", "outputs", outs, true, false, 12000, 150000, 40, 400, 20000, 0,
	"file, plain file, standard output and error with generated header, records and footer, short/interrupted/failing writes and file size limits; non-trivial: more data than the buffer holds");

static void pipes(Src &s)
{
	signal(SIGPIPE, SIG_IGN);
	std::string dir = scratch_dir(), path = dir + "/log";
	unsigned cap = gen_cap(s); PieceFormat f; gen_format(s, f, cap > 64 ? 64 : cap);
	unsigned n = s.range(0, 30); std::vector<unsigned> seq; size_t total = PieceFormat::cat(f.head).size() + PieceFormat::cat(f.foot).size();
	for (unsigned i = 0; i < n; i++) { seq.push_back(s.bits(f.recs.size())); total += PieceFormat::cat(f.recs[seq.back()]).size(); }
	int mode = s.weighted({3, 2, 1}); size_t k = s.bits(total + 10);
	std::string cmd = mode == 0 ? "cat > " + path : mode == 1 ? strf("head -c %zu > %s", k, path.c_str()) : "exec true";
	note("pipe to %s, capacity %u, %zu bytes", mode == 0 ? "cat" : mode == 1 ? strf("head -c %zu", k).c_str() : "true", cap, total);
	std::string want = PieceFormat::cat(f.head); bool failed; std::string err;
	{
		hogl::output_pipe o(cmd.c_str(), f, cap);
		for (unsigned i = 0; i < n; i++) {
			f.cur = seq[i]; hogl::format::data d = { "ring", 0 }; o.process(d); want += PieceFormat::cat(f.recs[seq[i]]);
			if (s.chance(1, 4)) {
				o.flush();
				if (mode == 0 && s.chance(1, 3)) { // the child gets everything without anything further being written
					std::string g; unsigned w = 0; for (; w < 14000 && (g = read_file(path)).size() < want.size(); w++) usleep(w < 100 ? 50 : 500);
					same("bytes the child received after flush", g, want); label("pipe flushed");
				}
			}
			if (mode == 2 && i == n / 2) usleep(1500);
		}
		failed = o.failed(); err = o.error();
	}
	want += PieceFormat::cat(f.foot);
	std::string got = read_file(path);
	if (mode == 0) { PBT_ASSERT(!failed, "pipe failed: %s", err.c_str()); same("bytes received by the child", got, want); }
	if (mode == 1) same("bytes received by the child", got, want.substr(0, k));
	if (failed) { label("failed"); PBT_ASSERT(err == errtext(EPIPE), "error() \"%s\"", err.c_str()); }
	unlink(path.c_str()); rmdir(dir.c_str());
	ops(n + 2);
	if (n && total > cap) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C13", "pipes", pipes, true, false, 1500, 15000, 30, 200, 20000, 0,
	"pipe to a child that reads everything, only a part, or nothing; non-trivial: more data than the buffer holds");

static void tees(Src &s)
{
	std::string dir = scratch_dir(); iof::start();
	unsigned nl = s.range(2, 3), cap[3], tcap[2]; PieceFormat f[3]; std::string path[3]; iof::File *wf[3]; hogl::output *leaf[3]; std::string want[3];
	tcap[0] = gen_cap(s); tcap[1] = gen_cap(s); int mode = s.weighted({2, 3, 2}); unsigned victim = s.bits(nl);
	for (unsigned i = 0; i < nl; i++) {
		cap[i] = gen_cap(s); gen_format(s, f[i], 40); path[i] = strf("%s/log%u", dir.c_str(), i);
		note("output %u: capacity %u", i, cap[i]);
		close(open(path[i].c_str(), O_CREAT | O_RDWR, 0666)); wf[i] = iof::watch(path[i].c_str()); gen_plan(s, *wf[i], i == victim, mode);
		leaf[i] = new hogl::output_plainfile(path[i].c_str(), f[i], cap[i]); want[i] = PieceFormat::cat(f[i].head);
	}
	hogl::output_tee *t0 = new hogl::output_tee(leaf[0], leaf[1], tcap[0]), *t1 = nl == 3 ? new hogl::output_tee(t0, leaf[2], tcap[1]) : 0;
	hogl::output *top = t1 ? t1 : t0; note("%u outputs, tee capacities %u %u", nl, tcap[0], tcap[1]);
	unsigned n = s.range(0, 12); std::string body; bool seen = false;
	for (unsigned i = 0; i < n; i++) {
		f[0].cur = s.bits(f[0].recs.size()); hogl::format::data d = { "ring", 0 }; top->process(d); body += PieceFormat::cat(f[0].recs[f[0].cur]);
		if (s.chance(1, 3)) top->flush();
		bool any = false; for (unsigned j = 0; j < nl; j++) any |= wf[j]->failed != 0;
		PBT_ASSERT(top->failed() == any, "tee failed() %d, an output failed: %d", top->failed(), any);
		if (any) { seen = true; PBT_ASSERT(errtext(wf[victim]->failed) == top->error(), "error() \"%s\"", top->error()); }
	}
	top->flush(); if (t1) t0->flush();
	bool tf = top->failed();
	delete t1; delete t0;
	for (unsigned j = 0; j < nl; j++) { want[j] += body; leaf[j]->flush(); }
	for (unsigned j = 0; j < nl; j++) {
		want[j] += PieceFormat::cat(f[j].foot); delete leaf[j];
		std::string got = read_file(path[j]);
		if (wf[j]->failed) { PBT_ASSERT(prefix_of(got, want[j]), "file %u: not the first bytes of the stream", j); PBT_ASSERT(!wf[j]->after, "%u write calls after the failure", wf[j]->after); }
		else if (!tf) same(strf("file %u", j).c_str(), got, want[j]);
		unlink(path[j].c_str());
	}
	if (seen) label("failed");
	rmdir(dir.c_str()); iof::stop();
	ops(n + 2);
	if (n) nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C13", "tee", tees, true, false, 8000, 100000, 30, 300, 20000, 0,
	"two or three file outputs behind tees, each with its own buffer size and write plan; non-trivial: at least one record");

// ------------------------------------------------------------------ engine on top
static void withengine(Src &s)
{
	std::string dir = scratch_dir(), path = dir + "/log"; iof::start();
	unsigned cap = gen_cap(s); PieceFormat f; gen_format(s, f, 30);
	close(open(path.c_str(), O_CREAT | O_RDWR, 0666)); iof::File *wf = iof::watch(path.c_str());
	int mode = s.weighted({1, 2, 4}); gen_plan(s, *wf, true, mode);
	hogl::output_plainfile *o = new hogl::output_plainfile(path.c_str(), f, cap);
	std::string want = PieceFormat::cat(f.head); unsigned n = s.range(1, 10); uint64_t posted = 0;
	note("plain file, capacity %u", cap);
	{
		hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = s.range(1, 300); eo.tso_buffer_capacity = s.pick({1u, 16u, 4096u});
		hogl::engine e(*o, eo); e.apply_mask(hogl::mask(".*", "!HOGL:.*", 0));
		const hogl::area *a = e.add_area("A");
		hogl::ringbuf::options ro = { (unsigned) s.range(2, 40), 0, hogl::ringbuf::BLOCKING, 128 };
		hogl::ringbuf *r = e.add_ring("R", ro); PBT_ASSERT(a && r, "setup");
		for (unsigned i = 0; i < n; i++) {
			unsigned k = s.range(1, 30);
			for (unsigned j = 0; j < k; j++) { uint64_t id = s.bits(f.recs.size()); hogl::post(r, a, hogl::area::INFO, id, ~id); want += PieceFormat::cat(f.recs[id]); posted++; }
			PBT_ASSERT(hogl::flush(r, 20000000), "flush not acknowledged (output failed: %d)", wf->failed);
			PBT_ASSERT(f.processed == posted, "%llu of %llu records processed", (ull) f.processed, (ull) posted);
			if (!wf->failed) same("file after flush", read_file(path), want);
			else { PBT_ASSERT(o->failed(), "output not failed"); PBT_ASSERT(errtext(wf->failed) == o->error(), "error() \"%s\"", o->error()); label("failed"); }
			ops(k);
		}
		r->release();
	}
	want += PieceFormat::cat(f.foot);
	delete o;
	std::string got = read_file(path);
	if (wf->failed) { PBT_ASSERT(prefix_of(got, want), "not the first bytes of the stream"); PBT_ASSERT(!wf->after, "%u write calls after the failure", wf->after); }
	else same("file", got, want);
	iof::stop(); unlink(path.c_str()); rmdir(dir.c_str());
	nontrivial(hash_str(cur_slot()->desc));
}
PBT_SUITE("C13", "engine", withengine, true, true, 3000, 40000, 30, 300, 40000, 0,
	"engine writing to a file through a buffer, write failures in the middle: the engine keeps consuming records and acknowledging flushes; non-trivial: every case");

int main(int argc, char **argv) { return run_main(argc, argv); }
