/* shared by the C and the C++ half of the C18 harness */
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
typedef bool cbool;
#else
typedef _Bool cbool;
#endif
struct cv {
	int8_t i8[4]; uint8_t u8[4]; int16_t i16[4]; uint16_t u16[4]; int32_t i32[4]; uint32_t u32[4]; int64_t i64[4]; uint64_t u64[4];
	long long ll[4]; unsigned long long ull[4]; char ch[4]; cbool b[4]; float f[4]; double d[4]; void *p[4]; const char *s[4]; char *ms[4]; unsigned char *us[4]; int *ip[4]; char ca[4][24];
};
void c_post(unsigned k, void *area, unsigned sect, const struct cv *v);
unsigned c_nsigs(void), c_nargs(unsigned k);
/* operations of the object suite, all through the C headers */
void *c_new_mask(unsigned n, const char **r);
void *c_new_output_file(const char *name, void *fmt, int with_opts, unsigned perms, unsigned long max_size, unsigned max_count, unsigned cap, int policy, const char *affinity);
void c_activate(void *out, int with_opts, unsigned features, void *mask, unsigned poll, unsigned tsocap, int policy, const char *affinity);
void *c_new_tls(const char *name, unsigned cap, unsigned prio, unsigned tail);
#ifdef __cplusplus
}
#endif
