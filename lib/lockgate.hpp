// Holds a chosen thread in front of its n-th pthread_mutex_lock() call, so that a schedule in which
// other threads act "between" two critical sections can be generated. Only a perturbation: the hold
// ends by itself after a while, so code that locks differently is merely scheduled differently.
#pragma once
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>

namespace lockgate {
// called before every lock / trylock (may block)
static void (*volatile before)(pthread_mutex_t *);
static void (*volatile after)(pthread_mutex_t *, int locked); // locked: 1 got it, 0 unlocked
static __thread int arm;            // 0 = off, n = hold before the n-th lock from now
static __thread int armu;           // the same after the n-th unlock
static volatile int parked, release_; // one thread at a time
static volatile unsigned max_us = 60000;
inline void hold_here()
{
	parked = 1; __sync_synchronize();
	for (unsigned us = 0; !release_ && us < max_us; us += 50) usleep(50);
	parked = 2; __sync_synchronize();
}
inline void reset() { parked = 0; release_ = 0; __sync_synchronize(); }
inline bool wait_parked(unsigned us) { for (unsigned t = 0; t < us; t += 20) { if (parked) return true; usleep(20); } return parked; }
inline void let_go() { release_ = 1; __sync_synchronize(); }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
	typedef int (*fn)(pthread_mutex_t *);
	static fn real;
	if (!real) real = (fn) dlsym(RTLD_NEXT, "pthread_mutex_lock");
	if (__builtin_expect(lockgate::arm > 0, 0) && --lockgate::arm == 0) lockgate::hold_here();
	if (lockgate::before) lockgate::before(m);
	int r = real(m);
	if (!r && lockgate::after) lockgate::after(m, 1);
	return r;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m)
{
	typedef int (*fn)(pthread_mutex_t *);
	static fn real;
	if (!real) real = (fn) dlsym(RTLD_NEXT, "pthread_mutex_trylock");
	if (lockgate::before) lockgate::before(m);
	int r = real(m);
	if (!r && lockgate::after) lockgate::after(m, 1);
	return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
	typedef int (*fn)(pthread_mutex_t *);
	static fn real;
	if (!real) real = (fn) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	int r = real(m);
	if (!r && lockgate::after) lockgate::after(m, 0);
	if (__builtin_expect(lockgate::armu > 0, 0) && --lockgate::armu == 0) lockgate::hold_here();
	return r;
}
