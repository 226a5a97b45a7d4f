// generated by tools/gen_capi.py
SIG(0, 1, (const char *) v->ms[1 % 4])
SIG(1, 1, hogl_pointer(v->ip[0]))
SIG(2, 1, v->i64[1] * 1)
SIG(3, 1, v->d[0])
SIG(4, 1, v->ch[3])
SIG(5, 2, 'a' + 2, v->ch[2])
SIG(6, 2, v->i16[3], v->i64[1])
SIG(7, 2, v->u16[0], v->ull[2])
SIG(8, 2, v->u32[0], 3ULL)
SIG(9, 2, v->u64[1], hogl_pointer(v->ip[2]))
SIG(10, 3, hogl_pointer(v->ip[2]), v->p[1], 3ULL)
SIG(11, 3, v->u32[1], v->u16[1], v->i64[1] * 2)
SIG(12, 3, v->u16[0], v->d[1], 1)
SIG(13, 3, v->ull[0], v->ch[3], v->i32[0] + v->u16[3 % 4])
SIG(14, 3, v->u32[0], v->i32[0] + v->u16[2 % 4], hogl_string(v->ca[0]))
SIG(15, 4, v->ll[0], 3ULL, v->i8[1], v->s[0])
SIG(16, 4, v->s[1], 2u, v->f[0], v->i64[1])
SIG(17, 4, v->i32[3], (const char *) v->ms[1 % 4], v->i8[1], hogl_pointer(v->ip[2]))
SIG(18, 5, v->u16[2], hogl_string(v->us[2]), v->u16[0], v->f[2], v->ull[3])
SIG(19, 5, 'a' + 1, v->s[1], "literal 3 and {} text", v->i16[2], v->u32[2])
SIG(20, 5, v->u16[0], "literal 1 and {} text", hogl_string(v->us[3]), v->i16[2], v->p[0])
SIG(21, 6, v->i32[3], v->i32[0] + v->u16[2 % 4], v->i8[3], v->s[2], v->i64[2], v->ch[3])
SIG(22, 6, v->u8[2], v->i16[2], v->u16[3], v->i32[2], v->i8[1], v->b[1])
SIG(23, 6, v->d[3], v->f[3], v->ull[2], v->i16[3], v->i32[3], v->u64[3])
SIG(24, 7, v->ch[1], v->ms[0], hogl_pointer(v->ip[0]), v->b[3], v->s[2], hogl_pointer(v->ip[1]), 1u)
SIG(25, 7, v->i8[0], 2u, v->ch[0], v->ll[0], v->i16[3], v->u8[3], v->s[0])
SIG(26, 7, v->i32[2], v->d[1], v->s[3], v->u32[1], v->u16[1], v->p[0], 3ULL)
SIG(27, 8, v->i64[1], v->i64[2], 'a' + 1, v->u64[1], v->b[2], v->ch[3], v->s[1], v->u32[0])
SIG(28, 8, v->ll[3], v->i16[1], v->p[3], v->u8[1], v->u16[3], hogl_string(v->ca[2]), v->ll[1], v->ms[3])
SIG(29, 8, v->u64[1], v->p[0], v->ull[0], 2.5, v->i32[0] + v->u16[2 % 4], v->i16[2], hogl_string(v->ca[1]), hogl_pointer(v->ip[0]))
SIG(30, 9, v->d[0], v->i64[3], v->ms[3], v->p[2], v->p[1], hogl_pointer(v->ip[0]), v->b[1], v->u32[1], v->u16[0])
SIG(31, 9, 3.25f, v->f[2], hogl_pointer(v->ip[1]), v->u8[0], v->i32[0] + v->u16[3 % 4], v->u32[1], v->b[1], v->ull[0], v->ull[3])
SIG(32, 9, v->i16[0], hogl_string(v->us[1]), v->b[2], v->i8[2], v->p[0], v->ull[3], v->ull[0], v->u8[0], v->ull[3])
SIG(33, 10, hogl_string(v->us[2]), hogl_pointer(v->ip[3]), 1, "literal 2 and {} text", v->s[0], v->i8[2], v->s[3], v->s[0], v->u16[0], -2L)
SIG(34, 10, v->b[0], v->u16[0], v->ll[3], v->s[0], (const char *) v->ms[2 % 4], v->u32[1], hogl_string(v->us[1]), v->ull[0], v->b[3], 2.5)
SIG(35, 10, v->ull[0], v->i64[2], v->i32[1], v->u64[2], v->u8[0], v->u16[1], v->p[2], v->u8[3], 2ULL, v->b[3])
SIG(36, 11, v->i16[1], v->i64[3], hogl_pointer(v->ip[2]), v->ms[3], "literal 1 and {} text", hogl_string(v->ca[0]), v->ll[0], v->p[0], v->i8[1], 1, v->i8[2])
SIG(37, 11, hogl_pointer(v->ip[2]), -3L, v->d[0], hogl_pointer(v->ip[0]), v->p[2], v->b[0], v->i64[1] * 2, v->ll[1], v->i32[0], v->u64[0], v->i8[1])
SIG(38, 11, v->u64[0], v->i32[3], v->ll[1], v->ch[3], v->p[3], v->u16[1], hogl_pointer(v->ip[1]), v->ms[0], "literal 3 and {} text", v->ch[1], (const char *) v->ms[2 % 4])
SIG(39, 12, v->u64[1], v->s[2], v->i16[1], v->p[1], "literal 3 and {} text", v->f[0], v->p[3], v->i64[1] * 3, v->i32[0], v->i32[3], hogl_string(v->ca[0]), v->u64[0])
SIG(40, 12, v->i16[0], v->b[1], v->u8[1], v->u16[1], v->d[2], v->p[1], "literal 1 and {} text", v->s[2], v->s[2], v->u8[2], v->f[0], "literal 3 and {} text")
SIG(41, 12, v->u32[0], v->p[1], hogl_string(v->us[3]), v->u32[2], v->ms[1], 3ULL, hogl_string(v->us[2]), (const char *) v->ms[3 % 4], v->s[0], "literal 1 and {} text", v->s[2], v->i32[0] + v->u16[3 % 4])
SIG(42, 13, v->i16[3], v->i64[3], v->f[0], 3, v->u32[3], v->ull[1], v->ull[2], 3.5, v->d[2], v->ll[1], v->u16[0], 'a' + 1, v->i64[2])
SIG(43, 13, v->ull[1], v->ull[3], v->i64[1] * 3, v->ll[0], v->s[0], v->ll[3], v->i16[0], hogl_string(v->us[2]), v->u8[1], v->u8[2], v->i8[2], v->s[0], v->u8[1])
SIG(44, 13, v->ms[1], v->u32[0], hogl_pointer(v->ip[0]), v->u32[0], v->ll[2], v->u16[2], v->ms[3], v->u16[0], v->u8[3], v->f[0], v->f[2], v->u32[1], v->i8[2])
SIG(45, 14, 1.5, v->p[2], v->ull[1], v->u16[1], v->u64[2], v->p[2], v->u64[0], v->ull[0], v->u32[3], 1.25f, v->b[3], v->i32[3], v->b[0], v->f[1])
SIG(46, 14, v->ch[2], v->b[3], v->b[0], v->ms[3], v->p[3], v->b[2], v->u16[2], v->s[2], v->i32[0] + v->u16[2 % 4], v->i32[0], hogl_pointer(v->ip[2]), 3ULL, v->i32[1], hogl_pointer(v->ip[2]))
SIG(47, 14, (const char *) v->ms[3 % 4], v->i16[3], v->u64[3], v->u8[2], hogl_string(v->ca[2]), v->i16[3], v->p[2], v->ch[1], v->u8[0], v->ch[0], v->ch[1], v->i32[0] + v->u16[1 % 4], v->s[3], v->ull[3])
SIG(48, 15, v->i16[2], v->ch[1], v->p[0], v->b[2], v->d[3], v->b[0], 1.5, v->f[2], v->s[2], v->ll[3], v->f[1], "literal 2 and {} text", "literal 3 and {} text", v->u8[1], 3)
SIG(49, 15, v->i32[0], v->i8[1], v->s[1], v->u8[2], 3ULL, 1.25f, v->i32[3], v->i32[0] + v->u16[1 % 4], v->b[2], v->ull[2], v->ull[3], v->u64[3], v->d[2], v->i8[1], v->b[3])
SIG(50, 15, hogl_pointer(v->ip[2]), v->i64[3], hogl_pointer(v->ip[0]), v->i32[2], v->u64[2], v->i64[1], v->f[3], v->s[3], v->d[0], v->u16[0], -1L, v->f[1], hogl_string(v->ca[1]), v->i16[1], v->u64[0])
SIG(51, 16, v->s[1], v->u32[3], hogl_string(v->ca[0]), hogl_string(v->us[3]), v->u32[3], v->d[2], v->u16[0], hogl_string(v->us[0]), v->i64[1], v->i8[1], v->u64[2], v->d[1], v->ch[3], 1u, v->i16[2], v->i16[0])
SIG(52, 16, v->ull[0], v->ms[3], 2ULL, v->u32[1], v->u64[3], hogl_pointer(v->ip[2]), v->f[3], v->u16[3], v->ms[0], v->u64[1], v->u8[3], hogl_string(v->us[3]), v->ull[0], v->u32[2], v->u8[3], v->s[3])
SIG(53, 16, v->b[1], 2.25f, v->f[2], v->ull[1], v->u32[3], v->ms[1], v->i32[2], hogl_pointer(v->ip[2]), hogl_string(v->us[1]), v->p[1], v->i32[2], v->ms[3], v->s[2], hogl_string(v->us[0]), v->b[2], hogl_pointer(v->ip[3]))
SIG(54, 1, v->i8[1])
SIG(55, 1, v->u8[1])
SIG(56, 1, v->i16[1])
SIG(57, 1, v->u16[1])
SIG(58, 1, v->i32[1])
SIG(59, 1, v->u32[1])
SIG(60, 1, v->i64[1])
SIG(61, 1, v->u64[1])
SIG(62, 1, v->ll[1])
SIG(63, 1, v->ull[1])
SIG(64, 1, v->ch[1])
SIG(65, 1, v->b[1])
SIG(66, 1, v->f[1])
SIG(67, 1, v->d[1])
SIG(68, 1, v->p[1])
SIG(69, 1, v->s[1])
SIG(70, 1, v->s[1])
SIG(71, 1, v->ms[1])
SIG(72, 1, hogl_string(v->ca[1]))
SIG(73, 1, hogl_string(v->us[1]))
SIG(74, 1, hogl_pointer(v->ip[1]))
#ifndef NSIGS
#define NSIGS 75
#endif
