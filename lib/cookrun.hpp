// Runs the cook tool (its main() compiled as cook_main) in a child process and packs binary logs.
#pragma once
#include "pbt.hpp"
#include <fcntl.h>
#include <getopt.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
int cook_main(int argc, char **argv);
namespace cook {
using namespace pbt;
typedef unsigned long long ull;
struct Result { int status; unsigned long rss; std::string out, err; };
inline std::string fd_text(int fd) { std::string o; struct stat st; fstat(fd, &st); o.resize(st.st_size); size_t n = 0; while (n < o.size()) { ssize_t r = pread(fd, &o[n], o.size() - n, n); if (r <= 0) break; n += r; } o.resize(n); return o; }
// chunks: sizes in which the input is delivered through a pipe; empty: a file
inline Result run(const std::vector<std::string> &opts, const std::string &in, const std::vector<unsigned> &chunks)
{
	Result R; int fo = memfd_create("out", 0), fe = memfd_create("err", 0), fi = -1, p[2] = {-1, -1}; pid_t w = 0;
	std::string name;
	if (chunks.empty()) { fi = memfd_create("in", 0); for (size_t i = 0; i < in.size();) { ssize_t r = write(fi, in.data() + i, in.size() - i); if (r <= 0) fail("memfd"); i += r; } name = strf("/proc/self/fd/%d", fi); }
	else {
		if (pipe(p)) fail("pipe"); name = "-"; fflush(0); w = fork();
		if (!w) { prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGPIPE, SIG_DFL); close(p[0]); size_t k = 0; for (size_t i = 0; i < in.size();) { size_t n = std::min<size_t>(chunks[k++ % chunks.size()], in.size() - i); ssize_t r = write(p[1], in.data() + i, n); if (r <= 0) break; i += r; if (k % 7 == 0) sched_yield(); } _exit(0); }
		close(p[1]);
	}
	fflush(0); pid_t c = fork();
	if (!c) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(fo, 1); dup2(fe, 2); if (p[0] >= 0) dup2(p[0], 0);
		std::vector<std::string> a; a.push_back("hogl-cook"); a.insert(a.end(), opts.begin(), opts.end()); a.push_back(name);
		std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(0); optind = 0;
		int r = cook_main(a.size(), v.data()); fflush(0); _exit(r);
	}
	int st; struct rusage ru; while (wait4(c, &st, 0, &ru) < 0 && errno == EINTR); R.status = st; R.rss = ru.ru_maxrss;
	if (p[0] >= 0) { close(p[0]); int x; waitpid(w, &x, 0); }
	R.out = fd_text(fo); R.err = fd_text(fe); close(fo); close(fe); if (fi >= 0) close(fi);
	return R;
}
// ---------------------------------------------------------------- an independent writer of the format
struct Arg { unsigned type; uint64_t u; std::string s; };
struct Rec { uint64_t ts, seq; std::string ring, area, sect; std::vector<Arg> args; };
enum { TNONE, TU32, TI32, TU64, TI64, TPTR, TDBL, TCSTR, TGSTR, TXD, TRAW };
inline void put(std::string &o, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; i++) o += (char) (v >> (8 * i)); }
inline std::string pack(const Rec &r, bool v1, const unsigned *types)
{
	std::string o; put(o, r.ts, 8); put(o, r.seq, 8);
	for (const std::string *n : { &r.ring, &r.area, &r.sect }) { put(o, n->size(), 1); o += *n; }
	uint64_t at = 0; for (size_t i = 0; i < r.args.size(); i++) at |= (uint64_t) types[r.args[i].type] << (4 * i);
	put(o, at, 8);
	for (auto &a : r.args) switch (a.type) {
		case TU32: case TI32: put(o, a.u, 4); break;
		case TCSTR: case TGSTR: put(o, a.s.size(), 2); o += a.s; break;
		case TXD: case TRAW: put(o, a.s.size(), v1 ? 2 : 4); o += a.s; break;
		default: put(o, a.u, 8);
	}
	return o;
}
// the address in "rawdata N bytes @ ADDR" is where the dump happened to be
inline std::string no_addr(const std::string &t)
{
	std::string o; size_t p = 0;
	while (p < t.size()) {
		size_t e = t.find("rawdata ", p); if (e == t.npos) { o += t.substr(p); break; }
		size_t q = e + 8; while (q < t.size() && isdigit(t[q])) q++;
		if (q > e + 8 && t.compare(q, 9, " bytes @ ") == 0) { q += 9; o += t.substr(p, q - p); if (t.compare(q, 2, "0x") == 0) { q += 2; while (q < t.size() && isxdigit(t[q])) q++; } o += "#"; p = q; }
		else { o += t.substr(p, e + 8 - p); p = e + 8; }
	}
	return o;
}
}
