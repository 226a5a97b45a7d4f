# Writes harness/capi_sigs.h: argument lists posted through the C macro and through the C++ template.
import random
R = random.Random(20)
EXPR = ['v->i8[%d]', 'v->u8[%d]', 'v->i16[%d]', 'v->u16[%d]', 'v->i32[%d]', 'v->u32[%d]', 'v->i64[%d]', 'v->u64[%d]', 'v->ll[%d]', 'v->ull[%d]', 'v->ch[%d]', 'v->b[%d]', 'v->f[%d]', 'v->d[%d]', 'v->p[%d]', 'v->s[%d]', 'v->s[%d]', 'v->ms[%d]', 'hogl_string(v->ca[%d])', 'hogl_string(v->us[%d])', 'hogl_pointer(v->ip[%d])']
CONST = ['"literal %d and {} text"', '%d', '%du', '-%dL', '%dULL', '%d.5', '%d.25f', "'a' + %d", 'v->i32[0] + v->u16[%d %% 4]', 'v->i64[1] * %d', '(const char *) v->ms[%d %% 4]']
def arg():
    if R.random() < .85: return R.choice(EXPR) % R.randrange(4)
    c = R.choice(CONST); return (c % R.randrange(1, 4)) .replace('%%', '%')
sigs = []
for n in range(1, 17):
    for k in range(5 if n < 4 else 3): sigs.append([arg() for _ in range(n)])
for e in EXPR: sigs.append([e % 1])
o = ['// generated by tools/gen_capi.py']
for i, s in enumerate(sigs): o.append('SIG(%d, %d, %s)' % (i, len(s), ', '.join(s)))
o.append('#ifndef NSIGS\n#define NSIGS %d\n#endif' % len(sigs))
open('/verif/harness/capi_sigs.h', 'w').write('\n'.join(o) + '\n')
