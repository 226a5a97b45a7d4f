#include <stdlib.h>
#include <hogl/c-api/area.h>
#include <hogl/c-api/args.h>
#include <hogl/c-api/mask.h>
#include <hogl/c-api/format.h>
#include <hogl/c-api/output.h>
#include <hogl/c-api/engine.h>
#include <hogl/c-api/tls.h>
#include <hogl/c-api/post.h>
#include "capi.h"
#define SIG(k, n, ...) static void post_##k(hogl_area_t area, unsigned sect, const struct cv *v) { (void) v; hogl_post(area, sect, __VA_ARGS__); }
#include "capi_sigs.h"
#undef SIG
void c_post(unsigned k, void *area, unsigned sect, const struct cv *v)
{
	switch (k) {
#define SIG(k, n, ...) case k: post_##k(area, sect, v); break;
#include "capi_sigs.h"
#undef SIG
	}
}
unsigned c_nargs(unsigned k)
{
	switch (k) {
#define SIG(k, n, ...) case k: return n;
#include "capi_sigs.h"
#undef SIG
	}
	return 0;
}
unsigned c_nsigs(void) { return NSIGS; }
void *c_new_mask(unsigned n, const char **r)
{
	switch (n) {
	case 0: return hogl_new_mask(0);
	case 1: return hogl_new_mask(r[0], 0L);
	case 2: return hogl_new_mask(r[0], r[1], 0L);
	case 3: return hogl_new_mask(r[0], r[1], r[2], 0L);
	default: return hogl_new_mask(r[0], r[1], r[2], r[3], 0L);
	}
}
void *c_new_output_file(const char *name, void *fmt, int with_opts, unsigned perms, unsigned long max_size, unsigned max_count, unsigned cap, int policy, const char *affinity)
{
	struct hogl_output_options o = { .perms = perms, .max_size = max_size, .max_count = max_count, .buffer_capacity = cap, .schedparam = { .policy = policy, .priority = 0, .cpu_affinity = affinity } };
	return hogl_new_output_file(name, fmt, with_opts ? &o : 0);
}
void c_activate(void *out, int with_opts, unsigned features, void *mask, unsigned poll, unsigned tsocap, int policy, const char *affinity)
{
	struct hogl_engine_options o = { .features = features, .default_mask = mask, .polling_interval_usec = poll, .tso_buffer_capacity = tsocap, .schedparam = { .policy = policy, .priority = 0, .cpu_affinity = affinity } };
	hogl_activate(out, with_opts ? &o : 0);
}
void *c_new_tls(const char *name, unsigned cap, unsigned prio, unsigned tail)
{
	struct hogl_tls_options o = { cap, prio, tail };
	return hogl_new_tls(name, &o);
}
