// Stand-ins for write(), writev() and friends: writes of the code under test to chosen files go through a
// generated plan of complete, short, interrupted and failing calls. Everything accepted is recorded, so the
// oracle knows what the operating system received, in order.
#pragma once
#include "pbt.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <map>
#include <sys/stat.h>
#include <sys/uio.h>

namespace iof {
enum { FULL, SHORT, EINTR_, FAIL };
struct Act { int kind; unsigned n; int err; };
struct File {
	std::string got;              // bytes accepted, in order
	std::vector<Act> plan; size_t next; // consumed one per call, then complete writes
	bool sticky;                  // once failed every later call fails
	int failed; unsigned after;   // errno of the first failure, number of calls after it
	uint64_t calls, shorts, eintrs;
	File() : next(0), sticky(true), failed(0), after(0), calls(0), shorts(0), eintrs(0) {}
};
static volatile int on;
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static std::map<std::pair<dev_t, ino_t>, File> *files;
static __thread int busy;
typedef ssize_t (*write_fn)(int, const void *, size_t);
static write_fn real_write() { static write_fn f; if (!f) f = (write_fn) dlsym(RTLD_NEXT, "write"); return f; }

struct Guard { Guard() { busy++; pthread_mutex_lock(&mtx); } ~Guard() { pthread_mutex_unlock(&mtx); busy--; } };
// start watching a file (it must exist)
static File *watch(const char *path) { Guard g; struct stat st; if (stat(path, &st)) return 0; return &(*files)[std::make_pair(st.st_dev, st.st_ino)]; }
static File *watch_fd(int fd) { Guard g; struct stat st; if (fstat(fd, &st)) return 0; return &(*files)[std::make_pair(st.st_dev, st.st_ino)]; }
static void start() { Guard g; delete files; files = new std::map<std::pair<dev_t, ino_t>, File>; on = 1; }
static void stop() { on = 0; }

static ssize_t put(int fd, const struct iovec *v, int n, bool &mine)
{
	mine = false;
	if (!on || busy) return 0;
	struct stat st;
	if (fstat(fd, &st)) return 0;
	Guard g;
	auto i = files->find(std::make_pair(st.st_dev, st.st_ino));
	if (i == files->end()) return 0;
	mine = true;
	File &f = i->second; f.calls++;
	std::string all; for (int k = 0; k < n; k++) all.append((const char *) v[k].iov_base, v[k].iov_len);
	if (f.failed) { f.after++; if (f.sticky) { errno = f.failed; return -1; } }
	Act a = { FULL, 0, 0 };
	if (!f.failed && f.next < f.plan.size()) a = f.plan[f.next++];
	size_t len = all.size();
	if (a.kind == EINTR_) { f.eintrs++; errno = EINTR; return -1; }
	if (a.kind == FAIL) { f.failed = a.err; errno = a.err; return -1; }
	if (a.kind == SHORT && len > 1) { size_t w = 1 + a.n % (len - 1); len = w; f.shorts++; }
	size_t done = 0;
	while (done < len) { ssize_t r = real_write()(fd, all.data() + done, len - done); if (r < 0) { if (errno == EINTR) continue; break; } done += r; }
	f.got.append(all, 0, done);
	return done;
}
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int n)
{
	bool mine; ssize_t r = iof::put(fd, v, n, mine);
	if (mine) return r;
	typedef ssize_t (*fn)(int, const struct iovec *, int); static fn real;
	if (!real) real = (fn) dlsym(RTLD_NEXT, "writev");
	return real(fd, v, n);
}
extern "C" ssize_t write(int fd, const void *p, size_t n)
{
	struct iovec v = { (void *) p, n };
	bool mine; ssize_t r = iof::put(fd, &v, 1, mine);
	if (mine) return r;
	return iof::real_write()(fd, p, n);
}
