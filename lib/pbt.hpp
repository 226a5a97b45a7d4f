// Choice-sequence property-based testing engine.
//
// A case is a pure function of a sequence of bounded draws.  Random driving, fork isolation,
// crash/hang detection, generic shrinking (deleting and lowering draws) and replay all work on
// that sequence, so every property gets them for free.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>

namespace pbt {

enum { MAXCH = 1 << 17, MSGLEN = 8192, DESCLEN = 1 << 16, NLABEL = 256, LABLEN = 64,
       NHASH = 1 << 20, MAXW = 16, NSAMPLE = 6, SAMPLELEN = 4000 };
enum Status { ST_IDLE = 0, ST_RUN = 1, ST_FAIL = 2, ST_PASS = 3 };

struct Slot {
	volatile uint64_t case_idx, n, start_ms, status, timeout_ms, done;
	char msg[MSGLEN];
	volatile uint64_t desc_len;
	char desc[DESCLEN];
	uint64_t ch[MAXCH];      // drawn values
	uint64_t bound[MAXCH];   // their bounds
};

struct Shared {
	volatile uint64_t evals, discards, nontrivial, ops;
	volatile uint64_t next_case;
	volatile uint32_t nlabel, nsample, stop, quiet;
	char     label[NLABEL][LABLEN];
	volatile uint64_t count[NLABEL];
	char     sample[NSAMPLE][SAMPLELEN];
	volatile uint64_t hash[NHASH];
	Slot slot[MAXW + 1];
};

inline Shared *&shared() { static Shared *s = 0; return s; }

inline uint64_t now_ms()
{
	struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
	return (uint64_t) ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}
inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL)
{
	const uint8_t *b = (const uint8_t *) p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
	return h;
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }
inline uint64_t hash_add(uint64_t h, uint64_t v) { return mix(h ^ mix(v)); }

inline std::string vfmt(const char *f, va_list ap)
{
	va_list a2; va_copy(a2, ap);
	int n = vsnprintf(0, 0, f, a2); va_end(a2);
	std::string s(n > 0 ? n : 0, 0);
	if (n > 0) vsnprintf(&s[0], n + 1, f, ap);
	return s;
}
inline std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char *f, ...)
{
	va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s;
}
// printable rendering of bytes
inline std::string show(const std::string &s, size_t max = 200)
{
	std::string o = "\"";
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = s[i];
		if (c == '\\' || c == '"') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) o += strf("\\x%02x", c);
		else o += c;
	}
	o += '"';
	if (s.size() > max) o += strf("...(%zu bytes)", s.size());
	return o;
}

// Source of choices for one case.
class Src {
	Slot *_s; uint64_t _rng; const std::vector<uint64_t> *_rep; size_t _pos;
public:
	Src(Slot *s, uint64_t seed) : _s(s), _rng(seed), _rep(0), _pos(0) { s->n = 0; }
	Src(Slot *s, const std::vector<uint64_t> *rep) : _s(s), _rng(0), _rep(rep), _pos(0) { s->n = 0; }
	size_t drawn() const { return _pos; }
	// uniform in [0, bound); bound 0 means all 64 bits. 0 is the simplest value.
	uint64_t bits(uint64_t bound)
	{
		uint64_t v;
		if (bound == 1) return 0;
		if (_rep) {
			v = _pos < _rep->size() ? (*_rep)[_pos] : 0;
			if (bound) v = v >= bound ? bound - 1 : v;
		} else {
			_rng += 0x9e3779b97f4a7c15ULL;
			v = mix(_rng);
			if (bound) v = (uint64_t) (((__uint128_t) v * bound) >> 64);
		}
		_pos++;
		if (_s->n < MAXCH) { _s->ch[_s->n] = v; _s->bound[_s->n] = bound; _s->n = _s->n + 1; }
		return v;
	}
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + bits(hi - lo + 1); }
	int64_t irange(int64_t lo, int64_t hi) { return lo + (int64_t) bits((uint64_t) (hi - lo) + 1); }
	bool chance(unsigned num, unsigned den) { return bits(den) >= den - num; } // 0 -> false
	bool flip() { return chance(1, 2); }
	size_t weighted(std::initializer_list<unsigned> w)
	{
		uint64_t t = 0; for (unsigned x : w) t += x;
		uint64_t v = bits(t); size_t i = 0;
		for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
		return 0;
	}
	// small numbers mostly, up to hi
	uint64_t size(uint64_t hi)
	{
		uint64_t m;
		switch (weighted({4, 3, 2, 1})) {
		case 0: m = 3; break;
		case 1: m = 12; break;
		case 2: m = 48; break;
		default: m = hi; break;
		}
		return bits((m < hi ? m : hi) + 1);
	}
	// any 64-bit value, boundary heavy
	uint64_t u64()
	{
		switch (weighted({4, 3, 3, 3})) {
		case 0: return bits(256);
		case 1: {
			uint64_t b = 1ULL << bits(64);
			return b - 1 + bits(3);
		}
		case 2: return bits(1ULL << 32);
		default: return bits(0);
		}
	}
	template <typename T> const T &pick(const std::vector<T> &v) { return v[bits(v.size())]; }
	template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + bits(v.size())); }
	std::string str(size_t n, const char *alphabet)
	{
		std::string s; size_t k = strlen(alphabet);
		for (size_t i = 0; i < n; i++) s += alphabet[bits(k)];
		return s;
	}
	std::string bytes(size_t n)
	{
		std::string s; for (size_t i = 0; i < n; i++) s += (char) bits(256); return s;
	}
};

inline Slot *&cur_slot() { static Slot *s = 0; return s; }

inline void note(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char *f, ...)
{
	va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
	s += "\n";
	Slot *sl = cur_slot();
	size_t l = sl->desc_len;
	if (l + s.size() + 1 >= DESCLEN) return;
	memcpy(sl->desc + l, s.data(), s.size()); sl->desc[l + s.size()] = 0;
	sl->desc_len = l + s.size();
}

inline void label(const char *name, uint64_t n = 1)
{
	Shared *sh = shared();
	if (sh->quiet) return;
	uint32_t i = 0;
	for (;; i++) {
		if (i >= NLABEL) return;
		if (i >= sh->nlabel) {
			static volatile uint32_t *lock = 0; (void) lock;
			// claim a new entry
			static_assert(sizeof(sh->stop) == 4, "");
			uint32_t exp = i;
			char tmp[LABLEN]; snprintf(tmp, sizeof tmp, "%s", name);
			if (__atomic_compare_exchange_n(&sh->nlabel, &exp, i + 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
				memcpy(sh->label[i] + 1, tmp + 1, LABLEN - 1);
				__atomic_store_n(&sh->label[i][0], tmp[0], __ATOMIC_SEQ_CST);
				break;
			}
		}
		for (int k = 0; k < 100000 && !__atomic_load_n(&sh->label[i][0], __ATOMIC_SEQ_CST); k++) ;
		if (!strncmp(sh->label[i], name, LABLEN - 1)) break;
	}
	__sync_fetch_and_add(&sh->count[i], n);
}
inline void ops(uint64_t n) { if (shared()->quiet) return; __sync_fetch_and_add(&shared()->ops, n); }

// Report that this case is non-trivial; h identifies it (for distinct counting).
inline void nontrivial(uint64_t h)
{
	Shared *sh = shared();
	if (sh->quiet) return;
	if (!h) h = 1;
	for (uint32_t i = 0; i < 64; i++) {
		volatile uint64_t *e = &sh->hash[(h + i) & (NHASH - 1)];
		uint64_t v = *e;
		if (v == h) return;
		if (!v) {
			if (__sync_bool_compare_and_swap(e, 0, h)) break;
			if (*e == h) return;
		}
	}
	uint64_t k = __sync_fetch_and_add(&sh->nontrivial, 1);
	// keep a few spread samples: 1st, 10th, 100th ...
	uint64_t p = 1; 
	for (unsigned j = 0; j < NSAMPLE; j++, p *= 8)
		if (k + 1 == p) {
			snprintf(sh->sample[j], SAMPLELEN, "%s", cur_slot()->desc);
			__sync_fetch_and_add(&sh->nsample, 1);
		}
}

inline void fail_str(const std::string &m) __attribute__((noreturn));
inline void fail_str(const std::string &m)
{
	Slot *s = cur_slot();
	snprintf(s->msg, MSGLEN, "%s", m.c_str());
	s->status = ST_FAIL;
	_exit(77);
}
inline void fail(const char *f, ...) __attribute__((format(printf, 1, 2), noreturn));
inline void fail(const char *f, ...)
{
	va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
	fail_str(s);
}
#define PBT_ASSERT(c, ...) do { if (!(c)) pbt::fail_str(std::string("[" #c "] ") + pbt::strf(__VA_ARGS__)); } while (0)

// thrown to abandon a case that the generator cannot complete (counted)
struct Discard {};

struct Suite {
	std::string prop, name;
	std::function<void (Src &)> fn;
	bool fork_each;
	bool racy;
	uint64_t quick, thorough;        // case counts
	unsigned quick_s, thorough_s;    // time caps (inconclusive beyond, never a violation)
	unsigned timeout_ms;             // per case hang limit
	unsigned workers;                // 0 = all
	std::string rule;
};
inline std::vector<Suite> &suites() { static std::vector<Suite> s; return s; }
struct Reg {
	Reg(Suite s) { suites().push_back(s); }
};

inline std::string jesc(const std::string &s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) o += strf("\\u%04x", c);
		else o += c;
	}
	return o;
}

struct Runner {
	std::string out_json, replay_dir, scratch; uint64_t seed; bool thorough; unsigned nworkers; double scale;
	Runner() : seed(1), thorough(false), nworkers(8), scale(1) {}

	static void reset_slot(Slot *s) { s->n = 0; s->msg[0] = 0; s->desc_len = 0; s->desc[0] = 0; s->status = ST_RUN; }

	static void run_body(const Suite &su, Slot *s, Src &src)
	{
		cur_slot() = s;
		try {
			su.fn(src);
		} catch (Discard &) {
			if (!shared()->quiet) __sync_fetch_and_add(&shared()->discards, 1);
		} catch (std::exception &e) {
			fail("uncaught exception: %s", e.what());
		}
		s->status = ST_PASS;
	}

	// Wait for a child with a deadline. Returns true if it exited cleanly.
	static bool wait_case(pid_t pid, unsigned timeout_ms, Slot *s, std::string &why)
	{
		uint64_t t0 = now_ms(); int st = 0; unsigned us = 50;
		while (1) {
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) break;
			if (now_ms() - t0 > timeout_ms) {
				kill(-pid, SIGKILL);
				kill(pid, SIGKILL); waitpid(pid, &st, 0);
				why = strf("hang: case did not finish within %u ms", timeout_ms);
				return false;
			}
			usleep(us); if (us < 2000) us += us / 4;
		}
		return judge(st, s, why);
	}
	static bool judge(int st, Slot *s, std::string &why)
	{
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->status == ST_PASS) return true;
		if (s->status == ST_FAIL) { why = s->msg; return false; }
		if (WIFSIGNALED(st)) why = strf("crash: killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
		else why = strf("crash: exit status %d (sanitizer report, assertion or std::terminate)", WEXITSTATUS(st));
		return false;
	}

	// One isolated execution of a given choice sequence in slot s.
	bool exec_one(const Suite &su, Slot *s, const std::vector<uint64_t> &ch, std::string &why, unsigned tmul = 1, bool loud = false, unsigned cap = 0)
	{
		reset_slot(s);
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if (p == 0) {
			setpgid(0, 0);
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			if (!loud) quiet();
			Src src(s, &ch);
			run_body(su, s, src);
			_exit(0);
		}
		bool ok = wait_case(p, cap && cap < su.timeout_ms * tmul ? cap : su.timeout_ms * tmul, s, why);
		kill(-p, SIGKILL);
		return ok;
	}
	static void quiet()
	{
		int fd = open("/dev/null", O_RDWR); dup2(fd, 1); 
		if (!getenv("PBT_LOUD")) dup2(fd, 2);
	}

	void worker(const Suite &su, size_t sidx, unsigned w, uint64_t ncases, uint64_t deadline)
	{
		Shared *sh = shared(); Slot *s = &sh->slot[w];
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		quiet();
		while (!sh->stop) {
			uint64_t i = __sync_fetch_and_add(&sh->next_case, 1);
			if (i >= ncases || now_ms() > deadline) break;
			uint64_t cs = mix(mix(seed * 1000003 + hash_str(su.prop + "/" + su.name)) + i * 0x632be59bd9b4e019ULL);
			reset_slot(s);
			s->case_idx = i; s->start_ms = now_ms();
			if (su.fork_each) {
				pid_t p = fork();
				if (p == 0) {
					setpgid(0, 0);
					prctl(PR_SET_PDEATHSIG, SIGKILL);
					Src src(s, cs);
					run_body(su, s, src);
					_exit(0);
				}
				if (p < 0) { usleep(10000); continue; }
				std::string why;
				if (!wait_case(p, su.timeout_ms, s, why)) {
					kill(-p, SIGKILL);
					snprintf(s->msg, MSGLEN, "%s", why.c_str());
					_exit(78);
				}
				kill(-p, SIGKILL);
			} else {
				Src src(s, cs);
				run_body(su, s, src);
			}
			__sync_fetch_and_add(&sh->evals, 1);
			s->start_ms = 0;
			s->done = s->done + 1;
		}
		_exit(0);
	}

	struct Result { bool failed; std::string why, file; uint64_t unrepro; };

	std::vector<uint64_t> shrink(const Suite &su, std::vector<uint64_t> cur, std::string &why, unsigned secs)
	{
		Slot *s = &shared()->slot[MAXW];
		uint64_t end = now_ms() + secs * 1000ULL;
		bool hang = why.compare(0, 4, "hang") == 0;
		auto attempt = [&](const std::vector<uint64_t> &c) -> bool {
			if (now_ms() > end) return false;
			std::string w;
			if (exec_one(su, s, c, w, 1, false, hang ? 5000 : 0)) return false;
			bool h = w.compare(0, 4, "hang") == 0;
			if (h != hang) return false;
			// normalise: keep what was actually drawn
			std::vector<uint64_t> nx(s->ch, s->ch + std::min<uint64_t>((uint64_t) s->n, (uint64_t) MAXCH));
			if (nx.size() > c.size()) nx = c;
			if (nx.size() > cur.size() || (nx.size() == cur.size() && !std::lexicographical_compare(nx.begin(), nx.end(), cur.begin(), cur.end()))) {
				if (c.size() > cur.size() || (c.size() == cur.size() && !std::lexicographical_compare(c.begin(), c.end(), cur.begin(), cur.end()))) return false;
				nx = c;
			}
			cur = nx; why = w;
			return true;
		};
		bool progress = true;
		while (progress && now_ms() < end) {
			progress = false;
			for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len = len / 2) {
				for (size_t i = cur.size(); i >= len && now_ms() < end; ) {
					std::vector<uint64_t> c(cur);
					if (i > c.size()) { i = c.size(); continue; }
					c.erase(c.begin() + (i - len), c.begin() + i);
					if (attempt(c)) { progress = true; if (i > cur.size()) i = cur.size(); }
					else i -= std::max<size_t>(1, len / 2 + (len == 1 ? 1 : 0));
					if (i > cur.size()) i = cur.size();
					if (i < len) break;
				}
				if (len == 1) break;
			}
			for (size_t i = 0; i < cur.size() && now_ms() < end; i++) {
				if (!cur[i]) continue;
				std::vector<uint64_t> c(cur);
				c[i] = 0;
				if (attempt(c)) { progress = true; continue; }
				uint64_t lo = 0; // binary search for a smaller failing value
				for (int k = 0; k < 12 && i < cur.size() && cur[i] > lo + 1; k++) {
					c = cur; c[i] = lo + (cur[i] - lo) / 2;
					if (attempt(c)) progress = true; else lo = c[i];
				}
				if (i < cur.size() && cur[i]) { c = cur; c[i]--; if (attempt(c)) progress = true; }
			}
		}
		return cur;
	}

	Result run_suite(const Suite &su, size_t sidx, std::string &json)
	{
		Shared *sh = shared();
		sh->next_case = 0; sh->stop = 0;
		for (unsigned i = 0; i <= MAXW; i++) { sh->slot[i].status = 0; sh->slot[i].start_ms = 0; sh->slot[i].done = 0; }
		uint64_t e0 = sh->evals, d0 = sh->discards, n0 = sh->nontrivial;
		uint64_t ncases = (uint64_t) ((thorough ? su.thorough : su.quick) * scale);
		if (const char *one = getenv("PBT_CASE")) { sh->next_case = strtoull(one, 0, 10); ncases = sh->next_case + 1; } // a single case, for development
		uint64_t t0 = now_ms(), deadline = t0 + 1000ULL * (thorough ? su.thorough_s : su.quick_s);
		unsigned nw = su.workers ? su.workers : nworkers;
		Result res; res.failed = false; res.unrepro = 0;
		std::vector<pid_t> pids(nw, 0);
		unsigned bad = 0;
		std::string badwhy; std::vector<uint64_t> badch;
		auto spawn = [&](unsigned w) {
			fflush(stdout); fflush(stderr);
			pid_t p = fork();
			if (p == 0) { setpgid(0, 0); worker(su, sidx, w, ncases, deadline); }
			setpgid(p, p);
			pids[w] = p;
		};
		auto killw = [&](unsigned w) {
			if (!pids[w]) return;
			kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL);
			int st; waitpid(pids[w], &st, 0); pids[w] = 0;
		};
		for (unsigned w = 0; w < nw; w++) spawn(w);
		while (1) {
			bool any = false, failed = false; unsigned fw = 0; std::string why;
			for (unsigned w = 0; w < nw && !failed; w++) {
				if (!pids[w]) continue;
				any = true;
				Slot *s = &sh->slot[w]; int st;
				pid_t r = waitpid(pids[w], &st, WNOHANG);
				if (r == pids[w]) {
					kill(-pids[w], SIGKILL);
					pids[w] = 0;
					if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
					failed = true; fw = w;
					if (WIFEXITED(st) && WEXITSTATUS(st) == 78) why = s->msg;
					else judge(st, s, why);
				} else if (!su.fork_each) {
					uint64_t sm = s->start_ms;
					if (sm && now_ms() > sm + su.timeout_ms) {
						killw(w);
						failed = true; fw = w;
						why = strf("hang: case did not finish within %u ms", su.timeout_ms);
					}
				}
			}
			if (failed) {
				Slot *s = &sh->slot[fw];
				std::vector<uint64_t> ch(s->ch, s->ch + std::min<uint64_t>((uint64_t) s->n, (uint64_t) MAXCH));
				uint64_t ci = s->case_idx;
				fprintf(stderr, "%s/%s: case %llu failed: %s -- confirming\n", su.prop.c_str(), su.name.c_str(), (unsigned long long) ci, why.c_str());
				std::string first = why; std::string firstdesc(s->desc);
				bool hang = why.compare(0, 4, "hang") == 0;
				// a crash is never noise: seen again once is enough
				bool once = su.racy || (why.compare(0, 6, "crash:") == 0 && why.find("signal 9 ") == why.npos);
				unsigned rep = 0, tries = hang ? (su.racy ? 3 : 1) : once ? 12 : 3;
				std::string w2;
				sh->quiet = 1;
				// pause other workers while confirming, load would only add noise
				for (unsigned w = 0; w < nw; w++) if (pids[w]) kill(-pids[w], SIGSTOP);
				for (unsigned k = 0; k < tries && (once ? rep < 1 : true); k++) {
					std::string w3;
					if (!exec_one(su, &sh->slot[MAXW], ch, w3, hang ? 2 : 1)) { rep++; w2 = w3; }
				}
				bool real = su.racy ? (rep >= 1 || !hang) : once ? rep >= 1 : rep == tries;
				if (real) {
					for (unsigned w = 0; w < nw; w++) killw(w);
					if (rep) {
						why = w2;
						ch = shrink(su, ch, why, hang ? 60 : 40);
						std::string w4;
						if (!exec_one(su, &sh->slot[MAXW], ch, w4, hang ? 2 : 1)) { why = w4; firstdesc = sh->slot[MAXW].desc; }
					}
					sh->quiet = 0;
					res.failed = true; res.why = why;
					res.file = write_replay(su, ch, why, firstdesc, ci, rep ? "" : "(observed once under real concurrency; the oracle does not depend on the schedule, but replays of this draw sequence did not hit the same interleaving)");
					break;
				}
				sh->quiet = 0;
				bad++; res.unrepro++;
				label("unreproduced-failure");
				fprintf(stderr, "%s/%s: case %llu did not reproduce (%u/%u), ignored\n", su.prop.c_str(), su.name.c_str(), (unsigned long long) ci, rep, tries);
				for (unsigned w = 0; w < nw; w++) if (pids[w]) { sh->slot[w].start_ms = sh->slot[w].start_ms ? now_ms() : 0; kill(-pids[w], SIGCONT); }
				if (bad < 50) spawn(fw);
				any = true;
			}
			if (!any) break;
			usleep(2000);
		}
		for (unsigned w = 0; w < nw; w++) killw(w);
		json = strf("{\"suite\": \"%s\", \"evaluations\": %llu, \"discarded\": %llu, \"distinct_nontrivial\": %llu, \"planned\": %llu, \"isolation\": \"%s\", \"unreproduced\": %llu, \"wall_s\": %.2f, \"rule\": \"%s\"}",
			su.name.c_str(), (unsigned long long) (sh->evals - e0), (unsigned long long) (sh->discards - d0),
			(unsigned long long) (sh->nontrivial - n0), (unsigned long long) ncases,
			su.fork_each ? "process per case" : "in process", (unsigned long long) res.unrepro, (now_ms() - t0) / 1000.0, jesc(su.rule).c_str());
		return res;
	}

	std::string write_replay(const Suite &su, const std::vector<uint64_t> &ch, const std::string &why, const std::string &desc, uint64_t idx, const char *rem)
	{
		std::string f = replay_dir + "/" + su.prop + "-" + su.name + strf("-s%llu-c%llu.replay", (unsigned long long) seed, (unsigned long long) idx);
		FILE *o = fopen(f.c_str(), "w");
		if (!o) return f;
		fprintf(o, "property %s\nsuite %s\nseed %llu\ncase %llu\nchoices", su.prop.c_str(), su.name.c_str(), (unsigned long long) seed, (unsigned long long) idx);
		for (uint64_t c : ch) fprintf(o, " %llu", (unsigned long long) c);
		fprintf(o, "\n---\nfailure: %s %s\n\ncase (minimised):\n%s\n", why.c_str(), rem, desc.c_str());
		fclose(o);
		return f;
	}
};

inline int run_main(int argc, char **argv)
{
	setvbuf(stdout, 0, _IOLBF, 0);
	size_t sz = sizeof(Shared);
	shared() = (Shared *) mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (shared() == MAP_FAILED) { perror("mmap"); return 2; }
	Runner r;
	r.replay_dir = "."; 
	std::string prop, only; std::string replay;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--prop") prop = val();
		else if (a == "--suite") only = val();
		else if (a == "--seed") r.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--thorough") r.thorough = true;
		else if (a == "--workers") r.nworkers = atoi(val().c_str());
		else if (a == "--out") r.out_json = val();
		else if (a == "--replay-dir") r.replay_dir = val();
		else if (a == "--scale") r.scale = atof(val().c_str());
		else if (a == "--replay") replay = val();
		else if (a == "--list") { for (auto &s : suites()) printf("%s %s\n", s.prop.c_str(), s.name.c_str()); return 0; }
	}
	if (r.nworkers > MAXW) r.nworkers = MAXW;
	if (replay.size()) {
		FILE *f = fopen(replay.c_str(), "r");
		if (!f) { perror(replay.c_str()); return 2; }
		std::string p, s; std::vector<uint64_t> ch;
		char *line = 0; size_t cap = 0;
		while (getline(&line, &cap, f) > 0) {
			std::string l(line); while (l.size() && l.back() == '\n') l.pop_back();
			if (l == "---") break;
			if (l.compare(0, 9, "property ") == 0) p = l.substr(9);
			if (l.compare(0, 6, "suite ") == 0) s = l.substr(6);
			if (l.compare(0, 7, "choices") == 0) {
				const char *c = l.c_str() + 7; char *e;
				while (1) { uint64_t v = strtoull(c, &e, 10); if (e == c) break; ch.push_back(v); c = e; }
			}
		}
		fclose(f);
		for (auto &su : suites())
			if (su.prop == p && su.name == s) {
				unsigned tries = su.racy ? 50 : 1;
				for (unsigned k = 0; k < tries; k++) {
					std::string why;
					bool ok = r.exec_one(su, &shared()->slot[MAXW], ch, why, 3, k == 0);
					if (k == 0 || !ok) { printf("%s\n", shared()->slot[MAXW].desc); }
					if (!ok) {
						printf("failure: %s\nVIOLATION property=%s replay=%s\n", why.c_str(), p.c_str(), replay.c_str());
						return 1;
					}
				}
				printf("case passes\n");
				return 0;
			}
		fprintf(stderr, "unknown suite %s/%s\n", p.c_str(), s.c_str());
		return 2;
	}
	uint64_t t0 = now_ms(); int rc = 0; std::string sj; unsigned violations = 0;
	Shared *sh = shared();
	for (size_t i = 0; i < suites().size(); i++) {
		const Suite &su = suites()[i];
		if (su.prop != prop || (only.size() && su.name != only)) continue;
		std::string j;
		Runner::Result res = r.run_suite(su, i, j);
		sj += (sj.size() ? ",\n    " : "") + j;
		if (res.failed) {
			printf("failure in %s/%s: %s\n", su.prop.c_str(), su.name.c_str(), res.why.c_str());
			printf("VIOLATION property=%s replay=%s\n", su.prop.c_str(), res.file.c_str());
			rc = 1; violations++;
			break;
		}
	}
	if (r.out_json.size()) {
		FILE *o = fopen(r.out_json.c_str(), "w");
		if (o) {
			fprintf(o, "{\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"discarded\": %llu,\n  \"operations\": %llu,\n  \"violations\": %u,\n  \"wall_s\": %.2f,\n  \"suites\": [\n    %s\n  ],\n  \"classes\": {",
				(unsigned long long) sh->evals, (unsigned long long) sh->nontrivial, (unsigned long long) sh->discards,
				(unsigned long long) sh->ops, violations, (now_ms() - t0) / 1000.0, sj.c_str());
			for (uint32_t i = 0; i < sh->nlabel; i++)
				fprintf(o, "%s\n    \"%s\": %llu", i ? "," : "", jesc(sh->label[i]).c_str(), (unsigned long long) sh->count[i]);
			fprintf(o, "\n  },\n  \"samples\": [");
			bool first = true;
			for (unsigned j = 0; j < NSAMPLE; j++) {
				if (!sh->sample[j][0]) continue;
				fprintf(o, "%s\n    \"%s\"", first ? "" : ",", jesc(sh->sample[j]).c_str()); first = false;
			}
			fprintf(o, "\n  ]\n}\n");
			fclose(o);
		}
	}
	return rc;
}

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_SUITE(prop, name, fn, ...) static pbt::Reg PBT_CAT(reg_, __LINE__)(pbt::Suite{prop, name, fn, __VA_ARGS__})
