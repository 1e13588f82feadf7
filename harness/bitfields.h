/* generated by lib/gen_bitfields.py */
TYPEDEF_STRUCT (bf_int8_up0, (char, head), (int8_t, m0, : 1), (int8_t, m1, : 2), (int8_t, m2, : 3), (int8_t, m3, : 4), (int8_t, m4, : 5), (int8_t, m5, : 6), (int8_t, m6, : 7), (int8_t, m7, : 8), (char, tail))
static long long bf_int8_up0_l0 (void * o) { return (((bf_int8_up0*)o)->m0); }
static long long bf_int8_up0_l1 (void * o) { return (((bf_int8_up0*)o)->m1); }
static long long bf_int8_up0_l2 (void * o) { return (((bf_int8_up0*)o)->m2); }
static long long bf_int8_up0_l3 (void * o) { return (((bf_int8_up0*)o)->m3); }
static long long bf_int8_up0_l4 (void * o) { return (((bf_int8_up0*)o)->m4); }
static long long bf_int8_up0_l5 (void * o) { return (((bf_int8_up0*)o)->m5); }
static long long bf_int8_up0_l6 (void * o) { return (((bf_int8_up0*)o)->m6); }
static long long bf_int8_up0_l7 (void * o) { return (((bf_int8_up0*)o)->m7); }
static const zf_t zf_bf_int8_up0[] = { ZRAW (bf_int8_up0, head), { .kind = Z_BITS, .name = "m0:1", .get = bf_int8_up0_l0 }, { .kind = Z_BITS, .name = "m1:2", .get = bf_int8_up0_l1 }, { .kind = Z_BITS, .name = "m2:3", .get = bf_int8_up0_l2 }, { .kind = Z_BITS, .name = "m3:4", .get = bf_int8_up0_l3 }, { .kind = Z_BITS, .name = "m4:5", .get = bf_int8_up0_l4 }, { .kind = Z_BITS, .name = "m5:6", .get = bf_int8_up0_l5 }, { .kind = Z_BITS, .name = "m6:7", .get = bf_int8_up0_l6 }, { .kind = Z_BITS, .name = "m7:8", .get = bf_int8_up0_l7 }, ZRAW (bf_int8_up0, tail), ZEND };
static const zt_t zt_bf_int8_up0 = { "bf_int8_up0", sizeof (bf_int8_up0), zf_bf_int8_up0 };
Z_OPS (bf_int8_up0)
static void set_bf_int8_up0 (void * o, int m, mr_uint128_t v) { bf_int8_up0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; } }
static const int w_bf_int8_up0[] = { 1, 2, 3, 4, 5, 6, 7, 8, 0 };
TYPEDEF_STRUCT (bf_int8_down0, (char, head), (int8_t, m0, : 8), (int8_t, m1, : 7), (int8_t, m2, : 6), (int8_t, m3, : 5), (int8_t, m4, : 4), (int8_t, m5, : 3), (int8_t, m6, : 2), (int8_t, m7, : 1), (char, tail))
static long long bf_int8_down0_l0 (void * o) { return (((bf_int8_down0*)o)->m0); }
static long long bf_int8_down0_l1 (void * o) { return (((bf_int8_down0*)o)->m1); }
static long long bf_int8_down0_l2 (void * o) { return (((bf_int8_down0*)o)->m2); }
static long long bf_int8_down0_l3 (void * o) { return (((bf_int8_down0*)o)->m3); }
static long long bf_int8_down0_l4 (void * o) { return (((bf_int8_down0*)o)->m4); }
static long long bf_int8_down0_l5 (void * o) { return (((bf_int8_down0*)o)->m5); }
static long long bf_int8_down0_l6 (void * o) { return (((bf_int8_down0*)o)->m6); }
static long long bf_int8_down0_l7 (void * o) { return (((bf_int8_down0*)o)->m7); }
static const zf_t zf_bf_int8_down0[] = { ZRAW (bf_int8_down0, head), { .kind = Z_BITS, .name = "m0:8", .get = bf_int8_down0_l0 }, { .kind = Z_BITS, .name = "m1:7", .get = bf_int8_down0_l1 }, { .kind = Z_BITS, .name = "m2:6", .get = bf_int8_down0_l2 }, { .kind = Z_BITS, .name = "m3:5", .get = bf_int8_down0_l3 }, { .kind = Z_BITS, .name = "m4:4", .get = bf_int8_down0_l4 }, { .kind = Z_BITS, .name = "m5:3", .get = bf_int8_down0_l5 }, { .kind = Z_BITS, .name = "m6:2", .get = bf_int8_down0_l6 }, { .kind = Z_BITS, .name = "m7:1", .get = bf_int8_down0_l7 }, ZRAW (bf_int8_down0, tail), ZEND };
static const zt_t zt_bf_int8_down0 = { "bf_int8_down0", sizeof (bf_int8_down0), zf_bf_int8_down0 };
Z_OPS (bf_int8_down0)
static void set_bf_int8_down0 (void * o, int m, mr_uint128_t v) { bf_int8_down0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; } }
static const int w_bf_int8_down0[] = { 8, 7, 6, 5, 4, 3, 2, 1, 0 };
TYPEDEF_STRUCT (bf_int8_odd0, (char, head), (int8_t, m0, : 3), (int8_t, m1, : 1), (int8_t, m2, : 8), (int8_t, m3, : 2), (int8_t, m4, : 7), (int8_t, m5, : 3), (int8_t, m6, : 6), (int8_t, m7, : 4), (int8_t, m8, : 5), (char, tail))
static long long bf_int8_odd0_l0 (void * o) { return (((bf_int8_odd0*)o)->m0); }
static long long bf_int8_odd0_l1 (void * o) { return (((bf_int8_odd0*)o)->m1); }
static long long bf_int8_odd0_l2 (void * o) { return (((bf_int8_odd0*)o)->m2); }
static long long bf_int8_odd0_l3 (void * o) { return (((bf_int8_odd0*)o)->m3); }
static long long bf_int8_odd0_l4 (void * o) { return (((bf_int8_odd0*)o)->m4); }
static long long bf_int8_odd0_l5 (void * o) { return (((bf_int8_odd0*)o)->m5); }
static long long bf_int8_odd0_l6 (void * o) { return (((bf_int8_odd0*)o)->m6); }
static long long bf_int8_odd0_l7 (void * o) { return (((bf_int8_odd0*)o)->m7); }
static long long bf_int8_odd0_l8 (void * o) { return (((bf_int8_odd0*)o)->m8); }
static const zf_t zf_bf_int8_odd0[] = { ZRAW (bf_int8_odd0, head), { .kind = Z_BITS, .name = "m0:3", .get = bf_int8_odd0_l0 }, { .kind = Z_BITS, .name = "m1:1", .get = bf_int8_odd0_l1 }, { .kind = Z_BITS, .name = "m2:8", .get = bf_int8_odd0_l2 }, { .kind = Z_BITS, .name = "m3:2", .get = bf_int8_odd0_l3 }, { .kind = Z_BITS, .name = "m4:7", .get = bf_int8_odd0_l4 }, { .kind = Z_BITS, .name = "m5:3", .get = bf_int8_odd0_l5 }, { .kind = Z_BITS, .name = "m6:6", .get = bf_int8_odd0_l6 }, { .kind = Z_BITS, .name = "m7:4", .get = bf_int8_odd0_l7 }, { .kind = Z_BITS, .name = "m8:5", .get = bf_int8_odd0_l8 }, ZRAW (bf_int8_odd0, tail), ZEND };
static const zt_t zt_bf_int8_odd0 = { "bf_int8_odd0", sizeof (bf_int8_odd0), zf_bf_int8_odd0 };
Z_OPS (bf_int8_odd0)
static void set_bf_int8_odd0 (void * o, int m, mr_uint128_t v) { bf_int8_odd0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; } }
static const int w_bf_int8_odd0[] = { 3, 1, 8, 2, 7, 3, 6, 4, 5, 0 };
TYPEDEF_STRUCT (bf_uint8_up0, (char, head), (uint8_t, m0, : 1), (uint8_t, m1, : 2), (uint8_t, m2, : 3), (uint8_t, m3, : 4), (uint8_t, m4, : 5), (uint8_t, m5, : 6), (uint8_t, m6, : 7), (uint8_t, m7, : 8), (char, tail))
static long long bf_uint8_up0_l0 (void * o) { return (((bf_uint8_up0*)o)->m0); }
static long long bf_uint8_up0_l1 (void * o) { return (((bf_uint8_up0*)o)->m1); }
static long long bf_uint8_up0_l2 (void * o) { return (((bf_uint8_up0*)o)->m2); }
static long long bf_uint8_up0_l3 (void * o) { return (((bf_uint8_up0*)o)->m3); }
static long long bf_uint8_up0_l4 (void * o) { return (((bf_uint8_up0*)o)->m4); }
static long long bf_uint8_up0_l5 (void * o) { return (((bf_uint8_up0*)o)->m5); }
static long long bf_uint8_up0_l6 (void * o) { return (((bf_uint8_up0*)o)->m6); }
static long long bf_uint8_up0_l7 (void * o) { return (((bf_uint8_up0*)o)->m7); }
static const zf_t zf_bf_uint8_up0[] = { ZRAW (bf_uint8_up0, head), { .kind = Z_BITS, .name = "m0:1", .get = bf_uint8_up0_l0 }, { .kind = Z_BITS, .name = "m1:2", .get = bf_uint8_up0_l1 }, { .kind = Z_BITS, .name = "m2:3", .get = bf_uint8_up0_l2 }, { .kind = Z_BITS, .name = "m3:4", .get = bf_uint8_up0_l3 }, { .kind = Z_BITS, .name = "m4:5", .get = bf_uint8_up0_l4 }, { .kind = Z_BITS, .name = "m5:6", .get = bf_uint8_up0_l5 }, { .kind = Z_BITS, .name = "m6:7", .get = bf_uint8_up0_l6 }, { .kind = Z_BITS, .name = "m7:8", .get = bf_uint8_up0_l7 }, ZRAW (bf_uint8_up0, tail), ZEND };
static const zt_t zt_bf_uint8_up0 = { "bf_uint8_up0", sizeof (bf_uint8_up0), zf_bf_uint8_up0 };
Z_OPS (bf_uint8_up0)
static void set_bf_uint8_up0 (void * o, int m, mr_uint128_t v) { bf_uint8_up0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; } }
static const int w_bf_uint8_up0[] = { 1, 2, 3, 4, 5, 6, 7, 8, 0 };
TYPEDEF_STRUCT (bf_uint8_down0, (char, head), (uint8_t, m0, : 8), (uint8_t, m1, : 7), (uint8_t, m2, : 6), (uint8_t, m3, : 5), (uint8_t, m4, : 4), (uint8_t, m5, : 3), (uint8_t, m6, : 2), (uint8_t, m7, : 1), (char, tail))
static long long bf_uint8_down0_l0 (void * o) { return (((bf_uint8_down0*)o)->m0); }
static long long bf_uint8_down0_l1 (void * o) { return (((bf_uint8_down0*)o)->m1); }
static long long bf_uint8_down0_l2 (void * o) { return (((bf_uint8_down0*)o)->m2); }
static long long bf_uint8_down0_l3 (void * o) { return (((bf_uint8_down0*)o)->m3); }
static long long bf_uint8_down0_l4 (void * o) { return (((bf_uint8_down0*)o)->m4); }
static long long bf_uint8_down0_l5 (void * o) { return (((bf_uint8_down0*)o)->m5); }
static long long bf_uint8_down0_l6 (void * o) { return (((bf_uint8_down0*)o)->m6); }
static long long bf_uint8_down0_l7 (void * o) { return (((bf_uint8_down0*)o)->m7); }
static const zf_t zf_bf_uint8_down0[] = { ZRAW (bf_uint8_down0, head), { .kind = Z_BITS, .name = "m0:8", .get = bf_uint8_down0_l0 }, { .kind = Z_BITS, .name = "m1:7", .get = bf_uint8_down0_l1 }, { .kind = Z_BITS, .name = "m2:6", .get = bf_uint8_down0_l2 }, { .kind = Z_BITS, .name = "m3:5", .get = bf_uint8_down0_l3 }, { .kind = Z_BITS, .name = "m4:4", .get = bf_uint8_down0_l4 }, { .kind = Z_BITS, .name = "m5:3", .get = bf_uint8_down0_l5 }, { .kind = Z_BITS, .name = "m6:2", .get = bf_uint8_down0_l6 }, { .kind = Z_BITS, .name = "m7:1", .get = bf_uint8_down0_l7 }, ZRAW (bf_uint8_down0, tail), ZEND };
static const zt_t zt_bf_uint8_down0 = { "bf_uint8_down0", sizeof (bf_uint8_down0), zf_bf_uint8_down0 };
Z_OPS (bf_uint8_down0)
static void set_bf_uint8_down0 (void * o, int m, mr_uint128_t v) { bf_uint8_down0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; } }
static const int w_bf_uint8_down0[] = { 8, 7, 6, 5, 4, 3, 2, 1, 0 };
TYPEDEF_STRUCT (bf_uint8_odd0, (char, head), (uint8_t, m0, : 3), (uint8_t, m1, : 1), (uint8_t, m2, : 8), (uint8_t, m3, : 2), (uint8_t, m4, : 7), (uint8_t, m5, : 3), (uint8_t, m6, : 6), (uint8_t, m7, : 4), (uint8_t, m8, : 5), (char, tail))
static long long bf_uint8_odd0_l0 (void * o) { return (((bf_uint8_odd0*)o)->m0); }
static long long bf_uint8_odd0_l1 (void * o) { return (((bf_uint8_odd0*)o)->m1); }
static long long bf_uint8_odd0_l2 (void * o) { return (((bf_uint8_odd0*)o)->m2); }
static long long bf_uint8_odd0_l3 (void * o) { return (((bf_uint8_odd0*)o)->m3); }
static long long bf_uint8_odd0_l4 (void * o) { return (((bf_uint8_odd0*)o)->m4); }
static long long bf_uint8_odd0_l5 (void * o) { return (((bf_uint8_odd0*)o)->m5); }
static long long bf_uint8_odd0_l6 (void * o) { return (((bf_uint8_odd0*)o)->m6); }
static long long bf_uint8_odd0_l7 (void * o) { return (((bf_uint8_odd0*)o)->m7); }
static long long bf_uint8_odd0_l8 (void * o) { return (((bf_uint8_odd0*)o)->m8); }
static const zf_t zf_bf_uint8_odd0[] = { ZRAW (bf_uint8_odd0, head), { .kind = Z_BITS, .name = "m0:3", .get = bf_uint8_odd0_l0 }, { .kind = Z_BITS, .name = "m1:1", .get = bf_uint8_odd0_l1 }, { .kind = Z_BITS, .name = "m2:8", .get = bf_uint8_odd0_l2 }, { .kind = Z_BITS, .name = "m3:2", .get = bf_uint8_odd0_l3 }, { .kind = Z_BITS, .name = "m4:7", .get = bf_uint8_odd0_l4 }, { .kind = Z_BITS, .name = "m5:3", .get = bf_uint8_odd0_l5 }, { .kind = Z_BITS, .name = "m6:6", .get = bf_uint8_odd0_l6 }, { .kind = Z_BITS, .name = "m7:4", .get = bf_uint8_odd0_l7 }, { .kind = Z_BITS, .name = "m8:5", .get = bf_uint8_odd0_l8 }, ZRAW (bf_uint8_odd0, tail), ZEND };
static const zt_t zt_bf_uint8_odd0 = { "bf_uint8_odd0", sizeof (bf_uint8_odd0), zf_bf_uint8_odd0 };
Z_OPS (bf_uint8_odd0)
static void set_bf_uint8_odd0 (void * o, int m, mr_uint128_t v) { bf_uint8_odd0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; } }
static const int w_bf_uint8_odd0[] = { 3, 1, 8, 2, 7, 3, 6, 4, 5, 0 };
TYPEDEF_STRUCT (bf_int16_up0, (char, head), (int16_t, m0, : 1), (int16_t, m1, : 2), (int16_t, m2, : 3), (int16_t, m3, : 4), (int16_t, m4, : 5), (int16_t, m5, : 6), (int16_t, m6, : 7), (int16_t, m7, : 8), (int16_t, m8, : 9), (int16_t, m9, : 10), (int16_t, m10, : 11), (int16_t, m11, : 12), (int16_t, m12, : 13), (int16_t, m13, : 14), (int16_t, m14, : 15), (int16_t, m15, : 16), (char, tail))
static long long bf_int16_up0_l0 (void * o) { return (((bf_int16_up0*)o)->m0); }
static long long bf_int16_up0_l1 (void * o) { return (((bf_int16_up0*)o)->m1); }
static long long bf_int16_up0_l2 (void * o) { return (((bf_int16_up0*)o)->m2); }
static long long bf_int16_up0_l3 (void * o) { return (((bf_int16_up0*)o)->m3); }
static long long bf_int16_up0_l4 (void * o) { return (((bf_int16_up0*)o)->m4); }
static long long bf_int16_up0_l5 (void * o) { return (((bf_int16_up0*)o)->m5); }
static long long bf_int16_up0_l6 (void * o) { return (((bf_int16_up0*)o)->m6); }
static long long bf_int16_up0_l7 (void * o) { return (((bf_int16_up0*)o)->m7); }
static long long bf_int16_up0_l8 (void * o) { return (((bf_int16_up0*)o)->m8); }
static long long bf_int16_up0_l9 (void * o) { return (((bf_int16_up0*)o)->m9); }
static long long bf_int16_up0_l10 (void * o) { return (((bf_int16_up0*)o)->m10); }
static long long bf_int16_up0_l11 (void * o) { return (((bf_int16_up0*)o)->m11); }
static long long bf_int16_up0_l12 (void * o) { return (((bf_int16_up0*)o)->m12); }
static long long bf_int16_up0_l13 (void * o) { return (((bf_int16_up0*)o)->m13); }
static long long bf_int16_up0_l14 (void * o) { return (((bf_int16_up0*)o)->m14); }
static long long bf_int16_up0_l15 (void * o) { return (((bf_int16_up0*)o)->m15); }
static const zf_t zf_bf_int16_up0[] = { ZRAW (bf_int16_up0, head), { .kind = Z_BITS, .name = "m0:1", .get = bf_int16_up0_l0 }, { .kind = Z_BITS, .name = "m1:2", .get = bf_int16_up0_l1 }, { .kind = Z_BITS, .name = "m2:3", .get = bf_int16_up0_l2 }, { .kind = Z_BITS, .name = "m3:4", .get = bf_int16_up0_l3 }, { .kind = Z_BITS, .name = "m4:5", .get = bf_int16_up0_l4 }, { .kind = Z_BITS, .name = "m5:6", .get = bf_int16_up0_l5 }, { .kind = Z_BITS, .name = "m6:7", .get = bf_int16_up0_l6 }, { .kind = Z_BITS, .name = "m7:8", .get = bf_int16_up0_l7 }, { .kind = Z_BITS, .name = "m8:9", .get = bf_int16_up0_l8 }, { .kind = Z_BITS, .name = "m9:10", .get = bf_int16_up0_l9 }, { .kind = Z_BITS, .name = "m10:11", .get = bf_int16_up0_l10 }, { .kind = Z_BITS, .name = "m11:12", .get = bf_int16_up0_l11 }, { .kind = Z_BITS, .name = "m12:13", .get = bf_int16_up0_l12 }, { .kind = Z_BITS, .name = "m13:14", .get = bf_int16_up0_l13 }, { .kind = Z_BITS, .name = "m14:15", .get = bf_int16_up0_l14 }, { .kind = Z_BITS, .name = "m15:16", .get = bf_int16_up0_l15 }, ZRAW (bf_int16_up0, tail), ZEND };
static const zt_t zt_bf_int16_up0 = { "bf_int16_up0", sizeof (bf_int16_up0), zf_bf_int16_up0 };
Z_OPS (bf_int16_up0)
static void set_bf_int16_up0 (void * o, int m, mr_uint128_t v) { bf_int16_up0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_int16_up0[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0 };
TYPEDEF_STRUCT (bf_int16_down0, (char, head), (int16_t, m0, : 16), (int16_t, m1, : 15), (int16_t, m2, : 14), (int16_t, m3, : 13), (int16_t, m4, : 12), (int16_t, m5, : 11), (int16_t, m6, : 10), (int16_t, m7, : 9), (int16_t, m8, : 8), (int16_t, m9, : 7), (int16_t, m10, : 6), (int16_t, m11, : 5), (int16_t, m12, : 4), (int16_t, m13, : 3), (int16_t, m14, : 2), (int16_t, m15, : 1), (char, tail))
static long long bf_int16_down0_l0 (void * o) { return (((bf_int16_down0*)o)->m0); }
static long long bf_int16_down0_l1 (void * o) { return (((bf_int16_down0*)o)->m1); }
static long long bf_int16_down0_l2 (void * o) { return (((bf_int16_down0*)o)->m2); }
static long long bf_int16_down0_l3 (void * o) { return (((bf_int16_down0*)o)->m3); }
static long long bf_int16_down0_l4 (void * o) { return (((bf_int16_down0*)o)->m4); }
static long long bf_int16_down0_l5 (void * o) { return (((bf_int16_down0*)o)->m5); }
static long long bf_int16_down0_l6 (void * o) { return (((bf_int16_down0*)o)->m6); }
static long long bf_int16_down0_l7 (void * o) { return (((bf_int16_down0*)o)->m7); }
static long long bf_int16_down0_l8 (void * o) { return (((bf_int16_down0*)o)->m8); }
static long long bf_int16_down0_l9 (void * o) { return (((bf_int16_down0*)o)->m9); }
static long long bf_int16_down0_l10 (void * o) { return (((bf_int16_down0*)o)->m10); }
static long long bf_int16_down0_l11 (void * o) { return (((bf_int16_down0*)o)->m11); }
static long long bf_int16_down0_l12 (void * o) { return (((bf_int16_down0*)o)->m12); }
static long long bf_int16_down0_l13 (void * o) { return (((bf_int16_down0*)o)->m13); }
static long long bf_int16_down0_l14 (void * o) { return (((bf_int16_down0*)o)->m14); }
static long long bf_int16_down0_l15 (void * o) { return (((bf_int16_down0*)o)->m15); }
static const zf_t zf_bf_int16_down0[] = { ZRAW (bf_int16_down0, head), { .kind = Z_BITS, .name = "m0:16", .get = bf_int16_down0_l0 }, { .kind = Z_BITS, .name = "m1:15", .get = bf_int16_down0_l1 }, { .kind = Z_BITS, .name = "m2:14", .get = bf_int16_down0_l2 }, { .kind = Z_BITS, .name = "m3:13", .get = bf_int16_down0_l3 }, { .kind = Z_BITS, .name = "m4:12", .get = bf_int16_down0_l4 }, { .kind = Z_BITS, .name = "m5:11", .get = bf_int16_down0_l5 }, { .kind = Z_BITS, .name = "m6:10", .get = bf_int16_down0_l6 }, { .kind = Z_BITS, .name = "m7:9", .get = bf_int16_down0_l7 }, { .kind = Z_BITS, .name = "m8:8", .get = bf_int16_down0_l8 }, { .kind = Z_BITS, .name = "m9:7", .get = bf_int16_down0_l9 }, { .kind = Z_BITS, .name = "m10:6", .get = bf_int16_down0_l10 }, { .kind = Z_BITS, .name = "m11:5", .get = bf_int16_down0_l11 }, { .kind = Z_BITS, .name = "m12:4", .get = bf_int16_down0_l12 }, { .kind = Z_BITS, .name = "m13:3", .get = bf_int16_down0_l13 }, { .kind = Z_BITS, .name = "m14:2", .get = bf_int16_down0_l14 }, { .kind = Z_BITS, .name = "m15:1", .get = bf_int16_down0_l15 }, ZRAW (bf_int16_down0, tail), ZEND };
static const zt_t zt_bf_int16_down0 = { "bf_int16_down0", sizeof (bf_int16_down0), zf_bf_int16_down0 };
Z_OPS (bf_int16_down0)
static void set_bf_int16_down0 (void * o, int m, mr_uint128_t v) { bf_int16_down0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_int16_down0[] = { 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0 };
TYPEDEF_STRUCT (bf_int16_odd0, (char, head), (int16_t, m0, : 3), (int16_t, m1, : 1), (int16_t, m2, : 16), (int16_t, m3, : 2), (int16_t, m4, : 15), (int16_t, m5, : 3), (int16_t, m6, : 14), (int16_t, m7, : 4), (int16_t, m8, : 13), (int16_t, m9, : 5), (int16_t, m10, : 12), (int16_t, m11, : 6), (int16_t, m12, : 11), (int16_t, m13, : 7), (int16_t, m14, : 10), (int16_t, m15, : 8), (int16_t, m16, : 9), (char, tail))
static long long bf_int16_odd0_l0 (void * o) { return (((bf_int16_odd0*)o)->m0); }
static long long bf_int16_odd0_l1 (void * o) { return (((bf_int16_odd0*)o)->m1); }
static long long bf_int16_odd0_l2 (void * o) { return (((bf_int16_odd0*)o)->m2); }
static long long bf_int16_odd0_l3 (void * o) { return (((bf_int16_odd0*)o)->m3); }
static long long bf_int16_odd0_l4 (void * o) { return (((bf_int16_odd0*)o)->m4); }
static long long bf_int16_odd0_l5 (void * o) { return (((bf_int16_odd0*)o)->m5); }
static long long bf_int16_odd0_l6 (void * o) { return (((bf_int16_odd0*)o)->m6); }
static long long bf_int16_odd0_l7 (void * o) { return (((bf_int16_odd0*)o)->m7); }
static long long bf_int16_odd0_l8 (void * o) { return (((bf_int16_odd0*)o)->m8); }
static long long bf_int16_odd0_l9 (void * o) { return (((bf_int16_odd0*)o)->m9); }
static long long bf_int16_odd0_l10 (void * o) { return (((bf_int16_odd0*)o)->m10); }
static long long bf_int16_odd0_l11 (void * o) { return (((bf_int16_odd0*)o)->m11); }
static long long bf_int16_odd0_l12 (void * o) { return (((bf_int16_odd0*)o)->m12); }
static long long bf_int16_odd0_l13 (void * o) { return (((bf_int16_odd0*)o)->m13); }
static long long bf_int16_odd0_l14 (void * o) { return (((bf_int16_odd0*)o)->m14); }
static long long bf_int16_odd0_l15 (void * o) { return (((bf_int16_odd0*)o)->m15); }
static long long bf_int16_odd0_l16 (void * o) { return (((bf_int16_odd0*)o)->m16); }
static const zf_t zf_bf_int16_odd0[] = { ZRAW (bf_int16_odd0, head), { .kind = Z_BITS, .name = "m0:3", .get = bf_int16_odd0_l0 }, { .kind = Z_BITS, .name = "m1:1", .get = bf_int16_odd0_l1 }, { .kind = Z_BITS, .name = "m2:16", .get = bf_int16_odd0_l2 }, { .kind = Z_BITS, .name = "m3:2", .get = bf_int16_odd0_l3 }, { .kind = Z_BITS, .name = "m4:15", .get = bf_int16_odd0_l4 }, { .kind = Z_BITS, .name = "m5:3", .get = bf_int16_odd0_l5 }, { .kind = Z_BITS, .name = "m6:14", .get = bf_int16_odd0_l6 }, { .kind = Z_BITS, .name = "m7:4", .get = bf_int16_odd0_l7 }, { .kind = Z_BITS, .name = "m8:13", .get = bf_int16_odd0_l8 }, { .kind = Z_BITS, .name = "m9:5", .get = bf_int16_odd0_l9 }, { .kind = Z_BITS, .name = "m10:12", .get = bf_int16_odd0_l10 }, { .kind = Z_BITS, .name = "m11:6", .get = bf_int16_odd0_l11 }, { .kind = Z_BITS, .name = "m12:11", .get = bf_int16_odd0_l12 }, { .kind = Z_BITS, .name = "m13:7", .get = bf_int16_odd0_l13 }, { .kind = Z_BITS, .name = "m14:10", .get = bf_int16_odd0_l14 }, { .kind = Z_BITS, .name = "m15:8", .get = bf_int16_odd0_l15 }, { .kind = Z_BITS, .name = "m16:9", .get = bf_int16_odd0_l16 }, ZRAW (bf_int16_odd0, tail), ZEND };
static const zt_t zt_bf_int16_odd0 = { "bf_int16_odd0", sizeof (bf_int16_odd0), zf_bf_int16_odd0 };
Z_OPS (bf_int16_odd0)
static void set_bf_int16_odd0 (void * o, int m, mr_uint128_t v) { bf_int16_odd0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; } }
static const int w_bf_int16_odd0[] = { 3, 1, 16, 2, 15, 3, 14, 4, 13, 5, 12, 6, 11, 7, 10, 8, 9, 0 };
TYPEDEF_STRUCT (bf_uint16_up0, (char, head), (uint16_t, m0, : 1), (uint16_t, m1, : 2), (uint16_t, m2, : 3), (uint16_t, m3, : 4), (uint16_t, m4, : 5), (uint16_t, m5, : 6), (uint16_t, m6, : 7), (uint16_t, m7, : 8), (uint16_t, m8, : 9), (uint16_t, m9, : 10), (uint16_t, m10, : 11), (uint16_t, m11, : 12), (uint16_t, m12, : 13), (uint16_t, m13, : 14), (uint16_t, m14, : 15), (uint16_t, m15, : 16), (char, tail))
static long long bf_uint16_up0_l0 (void * o) { return (((bf_uint16_up0*)o)->m0); }
static long long bf_uint16_up0_l1 (void * o) { return (((bf_uint16_up0*)o)->m1); }
static long long bf_uint16_up0_l2 (void * o) { return (((bf_uint16_up0*)o)->m2); }
static long long bf_uint16_up0_l3 (void * o) { return (((bf_uint16_up0*)o)->m3); }
static long long bf_uint16_up0_l4 (void * o) { return (((bf_uint16_up0*)o)->m4); }
static long long bf_uint16_up0_l5 (void * o) { return (((bf_uint16_up0*)o)->m5); }
static long long bf_uint16_up0_l6 (void * o) { return (((bf_uint16_up0*)o)->m6); }
static long long bf_uint16_up0_l7 (void * o) { return (((bf_uint16_up0*)o)->m7); }
static long long bf_uint16_up0_l8 (void * o) { return (((bf_uint16_up0*)o)->m8); }
static long long bf_uint16_up0_l9 (void * o) { return (((bf_uint16_up0*)o)->m9); }
static long long bf_uint16_up0_l10 (void * o) { return (((bf_uint16_up0*)o)->m10); }
static long long bf_uint16_up0_l11 (void * o) { return (((bf_uint16_up0*)o)->m11); }
static long long bf_uint16_up0_l12 (void * o) { return (((bf_uint16_up0*)o)->m12); }
static long long bf_uint16_up0_l13 (void * o) { return (((bf_uint16_up0*)o)->m13); }
static long long bf_uint16_up0_l14 (void * o) { return (((bf_uint16_up0*)o)->m14); }
static long long bf_uint16_up0_l15 (void * o) { return (((bf_uint16_up0*)o)->m15); }
static const zf_t zf_bf_uint16_up0[] = { ZRAW (bf_uint16_up0, head), { .kind = Z_BITS, .name = "m0:1", .get = bf_uint16_up0_l0 }, { .kind = Z_BITS, .name = "m1:2", .get = bf_uint16_up0_l1 }, { .kind = Z_BITS, .name = "m2:3", .get = bf_uint16_up0_l2 }, { .kind = Z_BITS, .name = "m3:4", .get = bf_uint16_up0_l3 }, { .kind = Z_BITS, .name = "m4:5", .get = bf_uint16_up0_l4 }, { .kind = Z_BITS, .name = "m5:6", .get = bf_uint16_up0_l5 }, { .kind = Z_BITS, .name = "m6:7", .get = bf_uint16_up0_l6 }, { .kind = Z_BITS, .name = "m7:8", .get = bf_uint16_up0_l7 }, { .kind = Z_BITS, .name = "m8:9", .get = bf_uint16_up0_l8 }, { .kind = Z_BITS, .name = "m9:10", .get = bf_uint16_up0_l9 }, { .kind = Z_BITS, .name = "m10:11", .get = bf_uint16_up0_l10 }, { .kind = Z_BITS, .name = "m11:12", .get = bf_uint16_up0_l11 }, { .kind = Z_BITS, .name = "m12:13", .get = bf_uint16_up0_l12 }, { .kind = Z_BITS, .name = "m13:14", .get = bf_uint16_up0_l13 }, { .kind = Z_BITS, .name = "m14:15", .get = bf_uint16_up0_l14 }, { .kind = Z_BITS, .name = "m15:16", .get = bf_uint16_up0_l15 }, ZRAW (bf_uint16_up0, tail), ZEND };
static const zt_t zt_bf_uint16_up0 = { "bf_uint16_up0", sizeof (bf_uint16_up0), zf_bf_uint16_up0 };
Z_OPS (bf_uint16_up0)
static void set_bf_uint16_up0 (void * o, int m, mr_uint128_t v) { bf_uint16_up0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_uint16_up0[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0 };
TYPEDEF_STRUCT (bf_uint16_down0, (char, head), (uint16_t, m0, : 16), (uint16_t, m1, : 15), (uint16_t, m2, : 14), (uint16_t, m3, : 13), (uint16_t, m4, : 12), (uint16_t, m5, : 11), (uint16_t, m6, : 10), (uint16_t, m7, : 9), (uint16_t, m8, : 8), (uint16_t, m9, : 7), (uint16_t, m10, : 6), (uint16_t, m11, : 5), (uint16_t, m12, : 4), (uint16_t, m13, : 3), (uint16_t, m14, : 2), (uint16_t, m15, : 1), (char, tail))
static long long bf_uint16_down0_l0 (void * o) { return (((bf_uint16_down0*)o)->m0); }
static long long bf_uint16_down0_l1 (void * o) { return (((bf_uint16_down0*)o)->m1); }
static long long bf_uint16_down0_l2 (void * o) { return (((bf_uint16_down0*)o)->m2); }
static long long bf_uint16_down0_l3 (void * o) { return (((bf_uint16_down0*)o)->m3); }
static long long bf_uint16_down0_l4 (void * o) { return (((bf_uint16_down0*)o)->m4); }
static long long bf_uint16_down0_l5 (void * o) { return (((bf_uint16_down0*)o)->m5); }
static long long bf_uint16_down0_l6 (void * o) { return (((bf_uint16_down0*)o)->m6); }
static long long bf_uint16_down0_l7 (void * o) { return (((bf_uint16_down0*)o)->m7); }
static long long bf_uint16_down0_l8 (void * o) { return (((bf_uint16_down0*)o)->m8); }
static long long bf_uint16_down0_l9 (void * o) { return (((bf_uint16_down0*)o)->m9); }
static long long bf_uint16_down0_l10 (void * o) { return (((bf_uint16_down0*)o)->m10); }
static long long bf_uint16_down0_l11 (void * o) { return (((bf_uint16_down0*)o)->m11); }
static long long bf_uint16_down0_l12 (void * o) { return (((bf_uint16_down0*)o)->m12); }
static long long bf_uint16_down0_l13 (void * o) { return (((bf_uint16_down0*)o)->m13); }
static long long bf_uint16_down0_l14 (void * o) { return (((bf_uint16_down0*)o)->m14); }
static long long bf_uint16_down0_l15 (void * o) { return (((bf_uint16_down0*)o)->m15); }
static const zf_t zf_bf_uint16_down0[] = { ZRAW (bf_uint16_down0, head), { .kind = Z_BITS, .name = "m0:16", .get = bf_uint16_down0_l0 }, { .kind = Z_BITS, .name = "m1:15", .get = bf_uint16_down0_l1 }, { .kind = Z_BITS, .name = "m2:14", .get = bf_uint16_down0_l2 }, { .kind = Z_BITS, .name = "m3:13", .get = bf_uint16_down0_l3 }, { .kind = Z_BITS, .name = "m4:12", .get = bf_uint16_down0_l4 }, { .kind = Z_BITS, .name = "m5:11", .get = bf_uint16_down0_l5 }, { .kind = Z_BITS, .name = "m6:10", .get = bf_uint16_down0_l6 }, { .kind = Z_BITS, .name = "m7:9", .get = bf_uint16_down0_l7 }, { .kind = Z_BITS, .name = "m8:8", .get = bf_uint16_down0_l8 }, { .kind = Z_BITS, .name = "m9:7", .get = bf_uint16_down0_l9 }, { .kind = Z_BITS, .name = "m10:6", .get = bf_uint16_down0_l10 }, { .kind = Z_BITS, .name = "m11:5", .get = bf_uint16_down0_l11 }, { .kind = Z_BITS, .name = "m12:4", .get = bf_uint16_down0_l12 }, { .kind = Z_BITS, .name = "m13:3", .get = bf_uint16_down0_l13 }, { .kind = Z_BITS, .name = "m14:2", .get = bf_uint16_down0_l14 }, { .kind = Z_BITS, .name = "m15:1", .get = bf_uint16_down0_l15 }, ZRAW (bf_uint16_down0, tail), ZEND };
static const zt_t zt_bf_uint16_down0 = { "bf_uint16_down0", sizeof (bf_uint16_down0), zf_bf_uint16_down0 };
Z_OPS (bf_uint16_down0)
static void set_bf_uint16_down0 (void * o, int m, mr_uint128_t v) { bf_uint16_down0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_uint16_down0[] = { 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0 };
TYPEDEF_STRUCT (bf_uint16_odd0, (char, head), (uint16_t, m0, : 3), (uint16_t, m1, : 1), (uint16_t, m2, : 16), (uint16_t, m3, : 2), (uint16_t, m4, : 15), (uint16_t, m5, : 3), (uint16_t, m6, : 14), (uint16_t, m7, : 4), (uint16_t, m8, : 13), (uint16_t, m9, : 5), (uint16_t, m10, : 12), (uint16_t, m11, : 6), (uint16_t, m12, : 11), (uint16_t, m13, : 7), (uint16_t, m14, : 10), (uint16_t, m15, : 8), (uint16_t, m16, : 9), (char, tail))
static long long bf_uint16_odd0_l0 (void * o) { return (((bf_uint16_odd0*)o)->m0); }
static long long bf_uint16_odd0_l1 (void * o) { return (((bf_uint16_odd0*)o)->m1); }
static long long bf_uint16_odd0_l2 (void * o) { return (((bf_uint16_odd0*)o)->m2); }
static long long bf_uint16_odd0_l3 (void * o) { return (((bf_uint16_odd0*)o)->m3); }
static long long bf_uint16_odd0_l4 (void * o) { return (((bf_uint16_odd0*)o)->m4); }
static long long bf_uint16_odd0_l5 (void * o) { return (((bf_uint16_odd0*)o)->m5); }
static long long bf_uint16_odd0_l6 (void * o) { return (((bf_uint16_odd0*)o)->m6); }
static long long bf_uint16_odd0_l7 (void * o) { return (((bf_uint16_odd0*)o)->m7); }
static long long bf_uint16_odd0_l8 (void * o) { return (((bf_uint16_odd0*)o)->m8); }
static long long bf_uint16_odd0_l9 (void * o) { return (((bf_uint16_odd0*)o)->m9); }
static long long bf_uint16_odd0_l10 (void * o) { return (((bf_uint16_odd0*)o)->m10); }
static long long bf_uint16_odd0_l11 (void * o) { return (((bf_uint16_odd0*)o)->m11); }
static long long bf_uint16_odd0_l12 (void * o) { return (((bf_uint16_odd0*)o)->m12); }
static long long bf_uint16_odd0_l13 (void * o) { return (((bf_uint16_odd0*)o)->m13); }
static long long bf_uint16_odd0_l14 (void * o) { return (((bf_uint16_odd0*)o)->m14); }
static long long bf_uint16_odd0_l15 (void * o) { return (((bf_uint16_odd0*)o)->m15); }
static long long bf_uint16_odd0_l16 (void * o) { return (((bf_uint16_odd0*)o)->m16); }
static const zf_t zf_bf_uint16_odd0[] = { ZRAW (bf_uint16_odd0, head), { .kind = Z_BITS, .name = "m0:3", .get = bf_uint16_odd0_l0 }, { .kind = Z_BITS, .name = "m1:1", .get = bf_uint16_odd0_l1 }, { .kind = Z_BITS, .name = "m2:16", .get = bf_uint16_odd0_l2 }, { .kind = Z_BITS, .name = "m3:2", .get = bf_uint16_odd0_l3 }, { .kind = Z_BITS, .name = "m4:15", .get = bf_uint16_odd0_l4 }, { .kind = Z_BITS, .name = "m5:3", .get = bf_uint16_odd0_l5 }, { .kind = Z_BITS, .name = "m6:14", .get = bf_uint16_odd0_l6 }, { .kind = Z_BITS, .name = "m7:4", .get = bf_uint16_odd0_l7 }, { .kind = Z_BITS, .name = "m8:13", .get = bf_uint16_odd0_l8 }, { .kind = Z_BITS, .name = "m9:5", .get = bf_uint16_odd0_l9 }, { .kind = Z_BITS, .name = "m10:12", .get = bf_uint16_odd0_l10 }, { .kind = Z_BITS, .name = "m11:6", .get = bf_uint16_odd0_l11 }, { .kind = Z_BITS, .name = "m12:11", .get = bf_uint16_odd0_l12 }, { .kind = Z_BITS, .name = "m13:7", .get = bf_uint16_odd0_l13 }, { .kind = Z_BITS, .name = "m14:10", .get = bf_uint16_odd0_l14 }, { .kind = Z_BITS, .name = "m15:8", .get = bf_uint16_odd0_l15 }, { .kind = Z_BITS, .name = "m16:9", .get = bf_uint16_odd0_l16 }, ZRAW (bf_uint16_odd0, tail), ZEND };
static const zt_t zt_bf_uint16_odd0 = { "bf_uint16_odd0", sizeof (bf_uint16_odd0), zf_bf_uint16_odd0 };
Z_OPS (bf_uint16_odd0)
static void set_bf_uint16_odd0 (void * o, int m, mr_uint128_t v) { bf_uint16_odd0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; } }
static const int w_bf_uint16_odd0[] = { 3, 1, 16, 2, 15, 3, 14, 4, 13, 5, 12, 6, 11, 7, 10, 8, 9, 0 };
TYPEDEF_STRUCT (bf_int32_up0, (char, head), (int32_t, m0, : 1), (int32_t, m1, : 2), (int32_t, m2, : 3), (int32_t, m3, : 4), (int32_t, m4, : 5), (int32_t, m5, : 6), (int32_t, m6, : 7), (int32_t, m7, : 8), (int32_t, m8, : 9), (int32_t, m9, : 10), (int32_t, m10, : 11), (int32_t, m11, : 12), (int32_t, m12, : 13), (int32_t, m13, : 14), (int32_t, m14, : 15), (int32_t, m15, : 16), (char, tail))
static long long bf_int32_up0_l0 (void * o) { return (((bf_int32_up0*)o)->m0); }
static long long bf_int32_up0_l1 (void * o) { return (((bf_int32_up0*)o)->m1); }
static long long bf_int32_up0_l2 (void * o) { return (((bf_int32_up0*)o)->m2); }
static long long bf_int32_up0_l3 (void * o) { return (((bf_int32_up0*)o)->m3); }
static long long bf_int32_up0_l4 (void * o) { return (((bf_int32_up0*)o)->m4); }
static long long bf_int32_up0_l5 (void * o) { return (((bf_int32_up0*)o)->m5); }
static long long bf_int32_up0_l6 (void * o) { return (((bf_int32_up0*)o)->m6); }
static long long bf_int32_up0_l7 (void * o) { return (((bf_int32_up0*)o)->m7); }
static long long bf_int32_up0_l8 (void * o) { return (((bf_int32_up0*)o)->m8); }
static long long bf_int32_up0_l9 (void * o) { return (((bf_int32_up0*)o)->m9); }
static long long bf_int32_up0_l10 (void * o) { return (((bf_int32_up0*)o)->m10); }
static long long bf_int32_up0_l11 (void * o) { return (((bf_int32_up0*)o)->m11); }
static long long bf_int32_up0_l12 (void * o) { return (((bf_int32_up0*)o)->m12); }
static long long bf_int32_up0_l13 (void * o) { return (((bf_int32_up0*)o)->m13); }
static long long bf_int32_up0_l14 (void * o) { return (((bf_int32_up0*)o)->m14); }
static long long bf_int32_up0_l15 (void * o) { return (((bf_int32_up0*)o)->m15); }
static const zf_t zf_bf_int32_up0[] = { ZRAW (bf_int32_up0, head), { .kind = Z_BITS, .name = "m0:1", .get = bf_int32_up0_l0 }, { .kind = Z_BITS, .name = "m1:2", .get = bf_int32_up0_l1 }, { .kind = Z_BITS, .name = "m2:3", .get = bf_int32_up0_l2 }, { .kind = Z_BITS, .name = "m3:4", .get = bf_int32_up0_l3 }, { .kind = Z_BITS, .name = "m4:5", .get = bf_int32_up0_l4 }, { .kind = Z_BITS, .name = "m5:6", .get = bf_int32_up0_l5 }, { .kind = Z_BITS, .name = "m6:7", .get = bf_int32_up0_l6 }, { .kind = Z_BITS, .name = "m7:8", .get = bf_int32_up0_l7 }, { .kind = Z_BITS, .name = "m8:9", .get = bf_int32_up0_l8 }, { .kind = Z_BITS, .name = "m9:10", .get = bf_int32_up0_l9 }, { .kind = Z_BITS, .name = "m10:11", .get = bf_int32_up0_l10 }, { .kind = Z_BITS, .name = "m11:12", .get = bf_int32_up0_l11 }, { .kind = Z_BITS, .name = "m12:13", .get = bf_int32_up0_l12 }, { .kind = Z_BITS, .name = "m13:14", .get = bf_int32_up0_l13 }, { .kind = Z_BITS, .name = "m14:15", .get = bf_int32_up0_l14 }, { .kind = Z_BITS, .name = "m15:16", .get = bf_int32_up0_l15 }, ZRAW (bf_int32_up0, tail), ZEND };
static const zt_t zt_bf_int32_up0 = { "bf_int32_up0", sizeof (bf_int32_up0), zf_bf_int32_up0 };
Z_OPS (bf_int32_up0)
static void set_bf_int32_up0 (void * o, int m, mr_uint128_t v) { bf_int32_up0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_int32_up0[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0 };
TYPEDEF_STRUCT (bf_int32_up1, (char, head), (int32_t, m0, : 17), (int32_t, m1, : 18), (int32_t, m2, : 19), (int32_t, m3, : 20), (int32_t, m4, : 21), (int32_t, m5, : 22), (int32_t, m6, : 23), (int32_t, m7, : 24), (int32_t, m8, : 25), (int32_t, m9, : 26), (int32_t, m10, : 27), (int32_t, m11, : 28), (int32_t, m12, : 29), (int32_t, m13, : 30), (int32_t, m14, : 31), (int32_t, m15, : 32), (char, tail))
static long long bf_int32_up1_l0 (void * o) { return (((bf_int32_up1*)o)->m0); }
static long long bf_int32_up1_l1 (void * o) { return (((bf_int32_up1*)o)->m1); }
static long long bf_int32_up1_l2 (void * o) { return (((bf_int32_up1*)o)->m2); }
static long long bf_int32_up1_l3 (void * o) { return (((bf_int32_up1*)o)->m3); }
static long long bf_int32_up1_l4 (void * o) { return (((bf_int32_up1*)o)->m4); }
static long long bf_int32_up1_l5 (void * o) { return (((bf_int32_up1*)o)->m5); }
static long long bf_int32_up1_l6 (void * o) { return (((bf_int32_up1*)o)->m6); }
static long long bf_int32_up1_l7 (void * o) { return (((bf_int32_up1*)o)->m7); }
static long long bf_int32_up1_l8 (void * o) { return (((bf_int32_up1*)o)->m8); }
static long long bf_int32_up1_l9 (void * o) { return (((bf_int32_up1*)o)->m9); }
static long long bf_int32_up1_l10 (void * o) { return (((bf_int32_up1*)o)->m10); }
static long long bf_int32_up1_l11 (void * o) { return (((bf_int32_up1*)o)->m11); }
static long long bf_int32_up1_l12 (void * o) { return (((bf_int32_up1*)o)->m12); }
static long long bf_int32_up1_l13 (void * o) { return (((bf_int32_up1*)o)->m13); }
static long long bf_int32_up1_l14 (void * o) { return (((bf_int32_up1*)o)->m14); }
static long long bf_int32_up1_l15 (void * o) { return (((bf_int32_up1*)o)->m15); }
static const zf_t zf_bf_int32_up1[] = { ZRAW (bf_int32_up1, head), { .kind = Z_BITS, .name = "m0:17", .get = bf_int32_up1_l0 }, { .kind = Z_BITS, .name = "m1:18", .get = bf_int32_up1_l1 }, { .kind = Z_BITS, .name = "m2:19", .get = bf_int32_up1_l2 }, { .kind = Z_BITS, .name = "m3:20", .get = bf_int32_up1_l3 }, { .kind = Z_BITS, .name = "m4:21", .get = bf_int32_up1_l4 }, { .kind = Z_BITS, .name = "m5:22", .get = bf_int32_up1_l5 }, { .kind = Z_BITS, .name = "m6:23", .get = bf_int32_up1_l6 }, { .kind = Z_BITS, .name = "m7:24", .get = bf_int32_up1_l7 }, { .kind = Z_BITS, .name = "m8:25", .get = bf_int32_up1_l8 }, { .kind = Z_BITS, .name = "m9:26", .get = bf_int32_up1_l9 }, { .kind = Z_BITS, .name = "m10:27", .get = bf_int32_up1_l10 }, { .kind = Z_BITS, .name = "m11:28", .get = bf_int32_up1_l11 }, { .kind = Z_BITS, .name = "m12:29", .get = bf_int32_up1_l12 }, { .kind = Z_BITS, .name = "m13:30", .get = bf_int32_up1_l13 }, { .kind = Z_BITS, .name = "m14:31", .get = bf_int32_up1_l14 }, { .kind = Z_BITS, .name = "m15:32", .get = bf_int32_up1_l15 }, ZRAW (bf_int32_up1, tail), ZEND };
static const zt_t zt_bf_int32_up1 = { "bf_int32_up1", sizeof (bf_int32_up1), zf_bf_int32_up1 };
Z_OPS (bf_int32_up1)
static void set_bf_int32_up1 (void * o, int m, mr_uint128_t v) { bf_int32_up1 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_int32_up1[] = { 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 0 };
TYPEDEF_STRUCT (bf_int32_down0, (char, head), (int32_t, m0, : 32), (int32_t, m1, : 31), (int32_t, m2, : 30), (int32_t, m3, : 29), (int32_t, m4, : 28), (int32_t, m5, : 27), (int32_t, m6, : 26), (int32_t, m7, : 25), (int32_t, m8, : 24), (int32_t, m9, : 23), (int32_t, m10, : 22), (int32_t, m11, : 21), (int32_t, m12, : 20), (int32_t, m13, : 19), (int32_t, m14, : 18), (int32_t, m15, : 17), (char, tail))
static long long bf_int32_down0_l0 (void * o) { return (((bf_int32_down0*)o)->m0); }
static long long bf_int32_down0_l1 (void * o) { return (((bf_int32_down0*)o)->m1); }
static long long bf_int32_down0_l2 (void * o) { return (((bf_int32_down0*)o)->m2); }
static long long bf_int32_down0_l3 (void * o) { return (((bf_int32_down0*)o)->m3); }
static long long bf_int32_down0_l4 (void * o) { return (((bf_int32_down0*)o)->m4); }
static long long bf_int32_down0_l5 (void * o) { return (((bf_int32_down0*)o)->m5); }
static long long bf_int32_down0_l6 (void * o) { return (((bf_int32_down0*)o)->m6); }
static long long bf_int32_down0_l7 (void * o) { return (((bf_int32_down0*)o)->m7); }
static long long bf_int32_down0_l8 (void * o) { return (((bf_int32_down0*)o)->m8); }
static long long bf_int32_down0_l9 (void * o) { return (((bf_int32_down0*)o)->m9); }
static long long bf_int32_down0_l10 (void * o) { return (((bf_int32_down0*)o)->m10); }
static long long bf_int32_down0_l11 (void * o) { return (((bf_int32_down0*)o)->m11); }
static long long bf_int32_down0_l12 (void * o) { return (((bf_int32_down0*)o)->m12); }
static long long bf_int32_down0_l13 (void * o) { return (((bf_int32_down0*)o)->m13); }
static long long bf_int32_down0_l14 (void * o) { return (((bf_int32_down0*)o)->m14); }
static long long bf_int32_down0_l15 (void * o) { return (((bf_int32_down0*)o)->m15); }
static const zf_t zf_bf_int32_down0[] = { ZRAW (bf_int32_down0, head), { .kind = Z_BITS, .name = "m0:32", .get = bf_int32_down0_l0 }, { .kind = Z_BITS, .name = "m1:31", .get = bf_int32_down0_l1 }, { .kind = Z_BITS, .name = "m2:30", .get = bf_int32_down0_l2 }, { .kind = Z_BITS, .name = "m3:29", .get = bf_int32_down0_l3 }, { .kind = Z_BITS, .name = "m4:28", .get = bf_int32_down0_l4 }, { .kind = Z_BITS, .name = "m5:27", .get = bf_int32_down0_l5 }, { .kind = Z_BITS, .name = "m6:26", .get = bf_int32_down0_l6 }, { .kind = Z_BITS, .name = "m7:25", .get = bf_int32_down0_l7 }, { .kind = Z_BITS, .name = "m8:24", .get = bf_int32_down0_l8 }, { .kind = Z_BITS, .name = "m9:23", .get = bf_int32_down0_l9 }, { .kind = Z_BITS, .name = "m10:22", .get = bf_int32_down0_l10 }, { .kind = Z_BITS, .name = "m11:21", .get = bf_int32_down0_l11 }, { .kind = Z_BITS, .name = "m12:20", .get = bf_int32_down0_l12 }, { .kind = Z_BITS, .name = "m13:19", .get = bf_int32_down0_l13 }, { .kind = Z_BITS, .name = "m14:18", .get = bf_int32_down0_l14 }, { .kind = Z_BITS, .name = "m15:17", .get = bf_int32_down0_l15 }, ZRAW (bf_int32_down0, tail), ZEND };
static const zt_t zt_bf_int32_down0 = { "bf_int32_down0", sizeof (bf_int32_down0), zf_bf_int32_down0 };
Z_OPS (bf_int32_down0)
static void set_bf_int32_down0 (void * o, int m, mr_uint128_t v) { bf_int32_down0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_int32_down0[] = { 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 0 };
TYPEDEF_STRUCT (bf_int32_down1, (char, head), (int32_t, m0, : 16), (int32_t, m1, : 15), (int32_t, m2, : 14), (int32_t, m3, : 13), (int32_t, m4, : 12), (int32_t, m5, : 11), (int32_t, m6, : 10), (int32_t, m7, : 9), (int32_t, m8, : 8), (int32_t, m9, : 7), (int32_t, m10, : 6), (int32_t, m11, : 5), (int32_t, m12, : 4), (int32_t, m13, : 3), (int32_t, m14, : 2), (int32_t, m15, : 1), (char, tail))
static long long bf_int32_down1_l0 (void * o) { return (((bf_int32_down1*)o)->m0); }
static long long bf_int32_down1_l1 (void * o) { return (((bf_int32_down1*)o)->m1); }
static long long bf_int32_down1_l2 (void * o) { return (((bf_int32_down1*)o)->m2); }
static long long bf_int32_down1_l3 (void * o) { return (((bf_int32_down1*)o)->m3); }
static long long bf_int32_down1_l4 (void * o) { return (((bf_int32_down1*)o)->m4); }
static long long bf_int32_down1_l5 (void * o) { return (((bf_int32_down1*)o)->m5); }
static long long bf_int32_down1_l6 (void * o) { return (((bf_int32_down1*)o)->m6); }
static long long bf_int32_down1_l7 (void * o) { return (((bf_int32_down1*)o)->m7); }
static long long bf_int32_down1_l8 (void * o) { return (((bf_int32_down1*)o)->m8); }
static long long bf_int32_down1_l9 (void * o) { return (((bf_int32_down1*)o)->m9); }
static long long bf_int32_down1_l10 (void * o) { return (((bf_int32_down1*)o)->m10); }
static long long bf_int32_down1_l11 (void * o) { return (((bf_int32_down1*)o)->m11); }
static long long bf_int32_down1_l12 (void * o) { return (((bf_int32_down1*)o)->m12); }
static long long bf_int32_down1_l13 (void * o) { return (((bf_int32_down1*)o)->m13); }
static long long bf_int32_down1_l14 (void * o) { return (((bf_int32_down1*)o)->m14); }
static long long bf_int32_down1_l15 (void * o) { return (((bf_int32_down1*)o)->m15); }
static const zf_t zf_bf_int32_down1[] = { ZRAW (bf_int32_down1, head), { .kind = Z_BITS, .name = "m0:16", .get = bf_int32_down1_l0 }, { .kind = Z_BITS, .name = "m1:15", .get = bf_int32_down1_l1 }, { .kind = Z_BITS, .name = "m2:14", .get = bf_int32_down1_l2 }, { .kind = Z_BITS, .name = "m3:13", .get = bf_int32_down1_l3 }, { .kind = Z_BITS, .name = "m4:12", .get = bf_int32_down1_l4 }, { .kind = Z_BITS, .name = "m5:11", .get = bf_int32_down1_l5 }, { .kind = Z_BITS, .name = "m6:10", .get = bf_int32_down1_l6 }, { .kind = Z_BITS, .name = "m7:9", .get = bf_int32_down1_l7 }, { .kind = Z_BITS, .name = "m8:8", .get = bf_int32_down1_l8 }, { .kind = Z_BITS, .name = "m9:7", .get = bf_int32_down1_l9 }, { .kind = Z_BITS, .name = "m10:6", .get = bf_int32_down1_l10 }, { .kind = Z_BITS, .name = "m11:5", .get = bf_int32_down1_l11 }, { .kind = Z_BITS, .name = "m12:4", .get = bf_int32_down1_l12 }, { .kind = Z_BITS, .name = "m13:3", .get = bf_int32_down1_l13 }, { .kind = Z_BITS, .name = "m14:2", .get = bf_int32_down1_l14 }, { .kind = Z_BITS, .name = "m15:1", .get = bf_int32_down1_l15 }, ZRAW (bf_int32_down1, tail), ZEND };
static const zt_t zt_bf_int32_down1 = { "bf_int32_down1", sizeof (bf_int32_down1), zf_bf_int32_down1 };
Z_OPS (bf_int32_down1)
static void set_bf_int32_down1 (void * o, int m, mr_uint128_t v) { bf_int32_down1 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_int32_down1[] = { 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0 };
TYPEDEF_STRUCT (bf_int32_odd0, (char, head), (int32_t, m0, : 3), (int32_t, m1, : 1), (int32_t, m2, : 32), (int32_t, m3, : 2), (int32_t, m4, : 31), (int32_t, m5, : 3), (int32_t, m6, : 30), (int32_t, m7, : 4), (int32_t, m8, : 29), (int32_t, m9, : 5), (int32_t, m10, : 28), (int32_t, m11, : 6), (int32_t, m12, : 27), (int32_t, m13, : 7), (int32_t, m14, : 26), (int32_t, m15, : 8), (char, tail))
static long long bf_int32_odd0_l0 (void * o) { return (((bf_int32_odd0*)o)->m0); }
static long long bf_int32_odd0_l1 (void * o) { return (((bf_int32_odd0*)o)->m1); }
static long long bf_int32_odd0_l2 (void * o) { return (((bf_int32_odd0*)o)->m2); }
static long long bf_int32_odd0_l3 (void * o) { return (((bf_int32_odd0*)o)->m3); }
static long long bf_int32_odd0_l4 (void * o) { return (((bf_int32_odd0*)o)->m4); }
static long long bf_int32_odd0_l5 (void * o) { return (((bf_int32_odd0*)o)->m5); }
static long long bf_int32_odd0_l6 (void * o) { return (((bf_int32_odd0*)o)->m6); }
static long long bf_int32_odd0_l7 (void * o) { return (((bf_int32_odd0*)o)->m7); }
static long long bf_int32_odd0_l8 (void * o) { return (((bf_int32_odd0*)o)->m8); }
static long long bf_int32_odd0_l9 (void * o) { return (((bf_int32_odd0*)o)->m9); }
static long long bf_int32_odd0_l10 (void * o) { return (((bf_int32_odd0*)o)->m10); }
static long long bf_int32_odd0_l11 (void * o) { return (((bf_int32_odd0*)o)->m11); }
static long long bf_int32_odd0_l12 (void * o) { return (((bf_int32_odd0*)o)->m12); }
static long long bf_int32_odd0_l13 (void * o) { return (((bf_int32_odd0*)o)->m13); }
static long long bf_int32_odd0_l14 (void * o) { return (((bf_int32_odd0*)o)->m14); }
static long long bf_int32_odd0_l15 (void * o) { return (((bf_int32_odd0*)o)->m15); }
static const zf_t zf_bf_int32_odd0[] = { ZRAW (bf_int32_odd0, head), { .kind = Z_BITS, .name = "m0:3", .get = bf_int32_odd0_l0 }, { .kind = Z_BITS, .name = "m1:1", .get = bf_int32_odd0_l1 }, { .kind = Z_BITS, .name = "m2:32", .get = bf_int32_odd0_l2 }, { .kind = Z_BITS, .name = "m3:2", .get = bf_int32_odd0_l3 }, { .kind = Z_BITS, .name = "m4:31", .get = bf_int32_odd0_l4 }, { .kind = Z_BITS, .name = "m5:3", .get = bf_int32_odd0_l5 }, { .kind = Z_BITS, .name = "m6:30", .get = bf_int32_odd0_l6 }, { .kind = Z_BITS, .name = "m7:4", .get = bf_int32_odd0_l7 }, { .kind = Z_BITS, .name = "m8:29", .get = bf_int32_odd0_l8 }, { .kind = Z_BITS, .name = "m9:5", .get = bf_int32_odd0_l9 }, { .kind = Z_BITS, .name = "m10:28", .get = bf_int32_odd0_l10 }, { .kind = Z_BITS, .name = "m11:6", .get = bf_int32_odd0_l11 }, { .kind = Z_BITS, .name = "m12:27", .get = bf_int32_odd0_l12 }, { .kind = Z_BITS, .name = "m13:7", .get = bf_int32_odd0_l13 }, { .kind = Z_BITS, .name = "m14:26", .get = bf_int32_odd0_l14 }, { .kind = Z_BITS, .name = "m15:8", .get = bf_int32_odd0_l15 }, ZRAW (bf_int32_odd0, tail), ZEND };
static const zt_t zt_bf_int32_odd0 = { "bf_int32_odd0", sizeof (bf_int32_odd0), zf_bf_int32_odd0 };
Z_OPS (bf_int32_odd0)
static void set_bf_int32_odd0 (void * o, int m, mr_uint128_t v) { bf_int32_odd0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_int32_odd0[] = { 3, 1, 32, 2, 31, 3, 30, 4, 29, 5, 28, 6, 27, 7, 26, 8, 0 };
TYPEDEF_STRUCT (bf_int32_odd1, (char, head), (int32_t, m0, : 25), (int32_t, m1, : 9), (int32_t, m2, : 24), (int32_t, m3, : 10), (int32_t, m4, : 23), (int32_t, m5, : 11), (int32_t, m6, : 22), (int32_t, m7, : 12), (int32_t, m8, : 21), (int32_t, m9, : 13), (int32_t, m10, : 20), (int32_t, m11, : 14), (int32_t, m12, : 19), (int32_t, m13, : 15), (int32_t, m14, : 18), (int32_t, m15, : 16), (int32_t, m16, : 17), (char, tail))
static long long bf_int32_odd1_l0 (void * o) { return (((bf_int32_odd1*)o)->m0); }
static long long bf_int32_odd1_l1 (void * o) { return (((bf_int32_odd1*)o)->m1); }
static long long bf_int32_odd1_l2 (void * o) { return (((bf_int32_odd1*)o)->m2); }
static long long bf_int32_odd1_l3 (void * o) { return (((bf_int32_odd1*)o)->m3); }
static long long bf_int32_odd1_l4 (void * o) { return (((bf_int32_odd1*)o)->m4); }
static long long bf_int32_odd1_l5 (void * o) { return (((bf_int32_odd1*)o)->m5); }
static long long bf_int32_odd1_l6 (void * o) { return (((bf_int32_odd1*)o)->m6); }
static long long bf_int32_odd1_l7 (void * o) { return (((bf_int32_odd1*)o)->m7); }
static long long bf_int32_odd1_l8 (void * o) { return (((bf_int32_odd1*)o)->m8); }
static long long bf_int32_odd1_l9 (void * o) { return (((bf_int32_odd1*)o)->m9); }
static long long bf_int32_odd1_l10 (void * o) { return (((bf_int32_odd1*)o)->m10); }
static long long bf_int32_odd1_l11 (void * o) { return (((bf_int32_odd1*)o)->m11); }
static long long bf_int32_odd1_l12 (void * o) { return (((bf_int32_odd1*)o)->m12); }
static long long bf_int32_odd1_l13 (void * o) { return (((bf_int32_odd1*)o)->m13); }
static long long bf_int32_odd1_l14 (void * o) { return (((bf_int32_odd1*)o)->m14); }
static long long bf_int32_odd1_l15 (void * o) { return (((bf_int32_odd1*)o)->m15); }
static long long bf_int32_odd1_l16 (void * o) { return (((bf_int32_odd1*)o)->m16); }
static const zf_t zf_bf_int32_odd1[] = { ZRAW (bf_int32_odd1, head), { .kind = Z_BITS, .name = "m0:25", .get = bf_int32_odd1_l0 }, { .kind = Z_BITS, .name = "m1:9", .get = bf_int32_odd1_l1 }, { .kind = Z_BITS, .name = "m2:24", .get = bf_int32_odd1_l2 }, { .kind = Z_BITS, .name = "m3:10", .get = bf_int32_odd1_l3 }, { .kind = Z_BITS, .name = "m4:23", .get = bf_int32_odd1_l4 }, { .kind = Z_BITS, .name = "m5:11", .get = bf_int32_odd1_l5 }, { .kind = Z_BITS, .name = "m6:22", .get = bf_int32_odd1_l6 }, { .kind = Z_BITS, .name = "m7:12", .get = bf_int32_odd1_l7 }, { .kind = Z_BITS, .name = "m8:21", .get = bf_int32_odd1_l8 }, { .kind = Z_BITS, .name = "m9:13", .get = bf_int32_odd1_l9 }, { .kind = Z_BITS, .name = "m10:20", .get = bf_int32_odd1_l10 }, { .kind = Z_BITS, .name = "m11:14", .get = bf_int32_odd1_l11 }, { .kind = Z_BITS, .name = "m12:19", .get = bf_int32_odd1_l12 }, { .kind = Z_BITS, .name = "m13:15", .get = bf_int32_odd1_l13 }, { .kind = Z_BITS, .name = "m14:18", .get = bf_int32_odd1_l14 }, { .kind = Z_BITS, .name = "m15:16", .get = bf_int32_odd1_l15 }, { .kind = Z_BITS, .name = "m16:17", .get = bf_int32_odd1_l16 }, ZRAW (bf_int32_odd1, tail), ZEND };
static const zt_t zt_bf_int32_odd1 = { "bf_int32_odd1", sizeof (bf_int32_odd1), zf_bf_int32_odd1 };
Z_OPS (bf_int32_odd1)
static void set_bf_int32_odd1 (void * o, int m, mr_uint128_t v) { bf_int32_odd1 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; } }
static const int w_bf_int32_odd1[] = { 25, 9, 24, 10, 23, 11, 22, 12, 21, 13, 20, 14, 19, 15, 18, 16, 17, 0 };
TYPEDEF_STRUCT (bf_uint32_up0, (char, head), (uint32_t, m0, : 1), (uint32_t, m1, : 2), (uint32_t, m2, : 3), (uint32_t, m3, : 4), (uint32_t, m4, : 5), (uint32_t, m5, : 6), (uint32_t, m6, : 7), (uint32_t, m7, : 8), (uint32_t, m8, : 9), (uint32_t, m9, : 10), (uint32_t, m10, : 11), (uint32_t, m11, : 12), (uint32_t, m12, : 13), (uint32_t, m13, : 14), (uint32_t, m14, : 15), (uint32_t, m15, : 16), (char, tail))
static long long bf_uint32_up0_l0 (void * o) { return (((bf_uint32_up0*)o)->m0); }
static long long bf_uint32_up0_l1 (void * o) { return (((bf_uint32_up0*)o)->m1); }
static long long bf_uint32_up0_l2 (void * o) { return (((bf_uint32_up0*)o)->m2); }
static long long bf_uint32_up0_l3 (void * o) { return (((bf_uint32_up0*)o)->m3); }
static long long bf_uint32_up0_l4 (void * o) { return (((bf_uint32_up0*)o)->m4); }
static long long bf_uint32_up0_l5 (void * o) { return (((bf_uint32_up0*)o)->m5); }
static long long bf_uint32_up0_l6 (void * o) { return (((bf_uint32_up0*)o)->m6); }
static long long bf_uint32_up0_l7 (void * o) { return (((bf_uint32_up0*)o)->m7); }
static long long bf_uint32_up0_l8 (void * o) { return (((bf_uint32_up0*)o)->m8); }
static long long bf_uint32_up0_l9 (void * o) { return (((bf_uint32_up0*)o)->m9); }
static long long bf_uint32_up0_l10 (void * o) { return (((bf_uint32_up0*)o)->m10); }
static long long bf_uint32_up0_l11 (void * o) { return (((bf_uint32_up0*)o)->m11); }
static long long bf_uint32_up0_l12 (void * o) { return (((bf_uint32_up0*)o)->m12); }
static long long bf_uint32_up0_l13 (void * o) { return (((bf_uint32_up0*)o)->m13); }
static long long bf_uint32_up0_l14 (void * o) { return (((bf_uint32_up0*)o)->m14); }
static long long bf_uint32_up0_l15 (void * o) { return (((bf_uint32_up0*)o)->m15); }
static const zf_t zf_bf_uint32_up0[] = { ZRAW (bf_uint32_up0, head), { .kind = Z_BITS, .name = "m0:1", .get = bf_uint32_up0_l0 }, { .kind = Z_BITS, .name = "m1:2", .get = bf_uint32_up0_l1 }, { .kind = Z_BITS, .name = "m2:3", .get = bf_uint32_up0_l2 }, { .kind = Z_BITS, .name = "m3:4", .get = bf_uint32_up0_l3 }, { .kind = Z_BITS, .name = "m4:5", .get = bf_uint32_up0_l4 }, { .kind = Z_BITS, .name = "m5:6", .get = bf_uint32_up0_l5 }, { .kind = Z_BITS, .name = "m6:7", .get = bf_uint32_up0_l6 }, { .kind = Z_BITS, .name = "m7:8", .get = bf_uint32_up0_l7 }, { .kind = Z_BITS, .name = "m8:9", .get = bf_uint32_up0_l8 }, { .kind = Z_BITS, .name = "m9:10", .get = bf_uint32_up0_l9 }, { .kind = Z_BITS, .name = "m10:11", .get = bf_uint32_up0_l10 }, { .kind = Z_BITS, .name = "m11:12", .get = bf_uint32_up0_l11 }, { .kind = Z_BITS, .name = "m12:13", .get = bf_uint32_up0_l12 }, { .kind = Z_BITS, .name = "m13:14", .get = bf_uint32_up0_l13 }, { .kind = Z_BITS, .name = "m14:15", .get = bf_uint32_up0_l14 }, { .kind = Z_BITS, .name = "m15:16", .get = bf_uint32_up0_l15 }, ZRAW (bf_uint32_up0, tail), ZEND };
static const zt_t zt_bf_uint32_up0 = { "bf_uint32_up0", sizeof (bf_uint32_up0), zf_bf_uint32_up0 };
Z_OPS (bf_uint32_up0)
static void set_bf_uint32_up0 (void * o, int m, mr_uint128_t v) { bf_uint32_up0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_uint32_up0[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0 };
TYPEDEF_STRUCT (bf_uint32_up1, (char, head), (uint32_t, m0, : 17), (uint32_t, m1, : 18), (uint32_t, m2, : 19), (uint32_t, m3, : 20), (uint32_t, m4, : 21), (uint32_t, m5, : 22), (uint32_t, m6, : 23), (uint32_t, m7, : 24), (uint32_t, m8, : 25), (uint32_t, m9, : 26), (uint32_t, m10, : 27), (uint32_t, m11, : 28), (uint32_t, m12, : 29), (uint32_t, m13, : 30), (uint32_t, m14, : 31), (uint32_t, m15, : 32), (char, tail))
static long long bf_uint32_up1_l0 (void * o) { return (((bf_uint32_up1*)o)->m0); }
static long long bf_uint32_up1_l1 (void * o) { return (((bf_uint32_up1*)o)->m1); }
static long long bf_uint32_up1_l2 (void * o) { return (((bf_uint32_up1*)o)->m2); }
static long long bf_uint32_up1_l3 (void * o) { return (((bf_uint32_up1*)o)->m3); }
static long long bf_uint32_up1_l4 (void * o) { return (((bf_uint32_up1*)o)->m4); }
static long long bf_uint32_up1_l5 (void * o) { return (((bf_uint32_up1*)o)->m5); }
static long long bf_uint32_up1_l6 (void * o) { return (((bf_uint32_up1*)o)->m6); }
static long long bf_uint32_up1_l7 (void * o) { return (((bf_uint32_up1*)o)->m7); }
static long long bf_uint32_up1_l8 (void * o) { return (((bf_uint32_up1*)o)->m8); }
static long long bf_uint32_up1_l9 (void * o) { return (((bf_uint32_up1*)o)->m9); }
static long long bf_uint32_up1_l10 (void * o) { return (((bf_uint32_up1*)o)->m10); }
static long long bf_uint32_up1_l11 (void * o) { return (((bf_uint32_up1*)o)->m11); }
static long long bf_uint32_up1_l12 (void * o) { return (((bf_uint32_up1*)o)->m12); }
static long long bf_uint32_up1_l13 (void * o) { return (((bf_uint32_up1*)o)->m13); }
static long long bf_uint32_up1_l14 (void * o) { return (((bf_uint32_up1*)o)->m14); }
static long long bf_uint32_up1_l15 (void * o) { return (((bf_uint32_up1*)o)->m15); }
static const zf_t zf_bf_uint32_up1[] = { ZRAW (bf_uint32_up1, head), { .kind = Z_BITS, .name = "m0:17", .get = bf_uint32_up1_l0 }, { .kind = Z_BITS, .name = "m1:18", .get = bf_uint32_up1_l1 }, { .kind = Z_BITS, .name = "m2:19", .get = bf_uint32_up1_l2 }, { .kind = Z_BITS, .name = "m3:20", .get = bf_uint32_up1_l3 }, { .kind = Z_BITS, .name = "m4:21", .get = bf_uint32_up1_l4 }, { .kind = Z_BITS, .name = "m5:22", .get = bf_uint32_up1_l5 }, { .kind = Z_BITS, .name = "m6:23", .get = bf_uint32_up1_l6 }, { .kind = Z_BITS, .name = "m7:24", .get = bf_uint32_up1_l7 }, { .kind = Z_BITS, .name = "m8:25", .get = bf_uint32_up1_l8 }, { .kind = Z_BITS, .name = "m9:26", .get = bf_uint32_up1_l9 }, { .kind = Z_BITS, .name = "m10:27", .get = bf_uint32_up1_l10 }, { .kind = Z_BITS, .name = "m11:28", .get = bf_uint32_up1_l11 }, { .kind = Z_BITS, .name = "m12:29", .get = bf_uint32_up1_l12 }, { .kind = Z_BITS, .name = "m13:30", .get = bf_uint32_up1_l13 }, { .kind = Z_BITS, .name = "m14:31", .get = bf_uint32_up1_l14 }, { .kind = Z_BITS, .name = "m15:32", .get = bf_uint32_up1_l15 }, ZRAW (bf_uint32_up1, tail), ZEND };
static const zt_t zt_bf_uint32_up1 = { "bf_uint32_up1", sizeof (bf_uint32_up1), zf_bf_uint32_up1 };
Z_OPS (bf_uint32_up1)
static void set_bf_uint32_up1 (void * o, int m, mr_uint128_t v) { bf_uint32_up1 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_uint32_up1[] = { 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 0 };
TYPEDEF_STRUCT (bf_uint32_down0, (char, head), (uint32_t, m0, : 32), (uint32_t, m1, : 31), (uint32_t, m2, : 30), (uint32_t, m3, : 29), (uint32_t, m4, : 28), (uint32_t, m5, : 27), (uint32_t, m6, : 26), (uint32_t, m7, : 25), (uint32_t, m8, : 24), (uint32_t, m9, : 23), (uint32_t, m10, : 22), (uint32_t, m11, : 21), (uint32_t, m12, : 20), (uint32_t, m13, : 19), (uint32_t, m14, : 18), (uint32_t, m15, : 17), (char, tail))
static long long bf_uint32_down0_l0 (void * o) { return (((bf_uint32_down0*)o)->m0); }
static long long bf_uint32_down0_l1 (void * o) { return (((bf_uint32_down0*)o)->m1); }
static long long bf_uint32_down0_l2 (void * o) { return (((bf_uint32_down0*)o)->m2); }
static long long bf_uint32_down0_l3 (void * o) { return (((bf_uint32_down0*)o)->m3); }
static long long bf_uint32_down0_l4 (void * o) { return (((bf_uint32_down0*)o)->m4); }
static long long bf_uint32_down0_l5 (void * o) { return (((bf_uint32_down0*)o)->m5); }
static long long bf_uint32_down0_l6 (void * o) { return (((bf_uint32_down0*)o)->m6); }
static long long bf_uint32_down0_l7 (void * o) { return (((bf_uint32_down0*)o)->m7); }
static long long bf_uint32_down0_l8 (void * o) { return (((bf_uint32_down0*)o)->m8); }
static long long bf_uint32_down0_l9 (void * o) { return (((bf_uint32_down0*)o)->m9); }
static long long bf_uint32_down0_l10 (void * o) { return (((bf_uint32_down0*)o)->m10); }
static long long bf_uint32_down0_l11 (void * o) { return (((bf_uint32_down0*)o)->m11); }
static long long bf_uint32_down0_l12 (void * o) { return (((bf_uint32_down0*)o)->m12); }
static long long bf_uint32_down0_l13 (void * o) { return (((bf_uint32_down0*)o)->m13); }
static long long bf_uint32_down0_l14 (void * o) { return (((bf_uint32_down0*)o)->m14); }
static long long bf_uint32_down0_l15 (void * o) { return (((bf_uint32_down0*)o)->m15); }
static const zf_t zf_bf_uint32_down0[] = { ZRAW (bf_uint32_down0, head), { .kind = Z_BITS, .name = "m0:32", .get = bf_uint32_down0_l0 }, { .kind = Z_BITS, .name = "m1:31", .get = bf_uint32_down0_l1 }, { .kind = Z_BITS, .name = "m2:30", .get = bf_uint32_down0_l2 }, { .kind = Z_BITS, .name = "m3:29", .get = bf_uint32_down0_l3 }, { .kind = Z_BITS, .name = "m4:28", .get = bf_uint32_down0_l4 }, { .kind = Z_BITS, .name = "m5:27", .get = bf_uint32_down0_l5 }, { .kind = Z_BITS, .name = "m6:26", .get = bf_uint32_down0_l6 }, { .kind = Z_BITS, .name = "m7:25", .get = bf_uint32_down0_l7 }, { .kind = Z_BITS, .name = "m8:24", .get = bf_uint32_down0_l8 }, { .kind = Z_BITS, .name = "m9:23", .get = bf_uint32_down0_l9 }, { .kind = Z_BITS, .name = "m10:22", .get = bf_uint32_down0_l10 }, { .kind = Z_BITS, .name = "m11:21", .get = bf_uint32_down0_l11 }, { .kind = Z_BITS, .name = "m12:20", .get = bf_uint32_down0_l12 }, { .kind = Z_BITS, .name = "m13:19", .get = bf_uint32_down0_l13 }, { .kind = Z_BITS, .name = "m14:18", .get = bf_uint32_down0_l14 }, { .kind = Z_BITS, .name = "m15:17", .get = bf_uint32_down0_l15 }, ZRAW (bf_uint32_down0, tail), ZEND };
static const zt_t zt_bf_uint32_down0 = { "bf_uint32_down0", sizeof (bf_uint32_down0), zf_bf_uint32_down0 };
Z_OPS (bf_uint32_down0)
static void set_bf_uint32_down0 (void * o, int m, mr_uint128_t v) { bf_uint32_down0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_uint32_down0[] = { 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 0 };
TYPEDEF_STRUCT (bf_uint32_down1, (char, head), (uint32_t, m0, : 16), (uint32_t, m1, : 15), (uint32_t, m2, : 14), (uint32_t, m3, : 13), (uint32_t, m4, : 12), (uint32_t, m5, : 11), (uint32_t, m6, : 10), (uint32_t, m7, : 9), (uint32_t, m8, : 8), (uint32_t, m9, : 7), (uint32_t, m10, : 6), (uint32_t, m11, : 5), (uint32_t, m12, : 4), (uint32_t, m13, : 3), (uint32_t, m14, : 2), (uint32_t, m15, : 1), (char, tail))
static long long bf_uint32_down1_l0 (void * o) { return (((bf_uint32_down1*)o)->m0); }
static long long bf_uint32_down1_l1 (void * o) { return (((bf_uint32_down1*)o)->m1); }
static long long bf_uint32_down1_l2 (void * o) { return (((bf_uint32_down1*)o)->m2); }
static long long bf_uint32_down1_l3 (void * o) { return (((bf_uint32_down1*)o)->m3); }
static long long bf_uint32_down1_l4 (void * o) { return (((bf_uint32_down1*)o)->m4); }
static long long bf_uint32_down1_l5 (void * o) { return (((bf_uint32_down1*)o)->m5); }
static long long bf_uint32_down1_l6 (void * o) { return (((bf_uint32_down1*)o)->m6); }
static long long bf_uint32_down1_l7 (void * o) { return (((bf_uint32_down1*)o)->m7); }
static long long bf_uint32_down1_l8 (void * o) { return (((bf_uint32_down1*)o)->m8); }
static long long bf_uint32_down1_l9 (void * o) { return (((bf_uint32_down1*)o)->m9); }
static long long bf_uint32_down1_l10 (void * o) { return (((bf_uint32_down1*)o)->m10); }
static long long bf_uint32_down1_l11 (void * o) { return (((bf_uint32_down1*)o)->m11); }
static long long bf_uint32_down1_l12 (void * o) { return (((bf_uint32_down1*)o)->m12); }
static long long bf_uint32_down1_l13 (void * o) { return (((bf_uint32_down1*)o)->m13); }
static long long bf_uint32_down1_l14 (void * o) { return (((bf_uint32_down1*)o)->m14); }
static long long bf_uint32_down1_l15 (void * o) { return (((bf_uint32_down1*)o)->m15); }
static const zf_t zf_bf_uint32_down1[] = { ZRAW (bf_uint32_down1, head), { .kind = Z_BITS, .name = "m0:16", .get = bf_uint32_down1_l0 }, { .kind = Z_BITS, .name = "m1:15", .get = bf_uint32_down1_l1 }, { .kind = Z_BITS, .name = "m2:14", .get = bf_uint32_down1_l2 }, { .kind = Z_BITS, .name = "m3:13", .get = bf_uint32_down1_l3 }, { .kind = Z_BITS, .name = "m4:12", .get = bf_uint32_down1_l4 }, { .kind = Z_BITS, .name = "m5:11", .get = bf_uint32_down1_l5 }, { .kind = Z_BITS, .name = "m6:10", .get = bf_uint32_down1_l6 }, { .kind = Z_BITS, .name = "m7:9", .get = bf_uint32_down1_l7 }, { .kind = Z_BITS, .name = "m8:8", .get = bf_uint32_down1_l8 }, { .kind = Z_BITS, .name = "m9:7", .get = bf_uint32_down1_l9 }, { .kind = Z_BITS, .name = "m10:6", .get = bf_uint32_down1_l10 }, { .kind = Z_BITS, .name = "m11:5", .get = bf_uint32_down1_l11 }, { .kind = Z_BITS, .name = "m12:4", .get = bf_uint32_down1_l12 }, { .kind = Z_BITS, .name = "m13:3", .get = bf_uint32_down1_l13 }, { .kind = Z_BITS, .name = "m14:2", .get = bf_uint32_down1_l14 }, { .kind = Z_BITS, .name = "m15:1", .get = bf_uint32_down1_l15 }, ZRAW (bf_uint32_down1, tail), ZEND };
static const zt_t zt_bf_uint32_down1 = { "bf_uint32_down1", sizeof (bf_uint32_down1), zf_bf_uint32_down1 };
Z_OPS (bf_uint32_down1)
static void set_bf_uint32_down1 (void * o, int m, mr_uint128_t v) { bf_uint32_down1 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_uint32_down1[] = { 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0 };
TYPEDEF_STRUCT (bf_uint32_odd0, (char, head), (uint32_t, m0, : 3), (uint32_t, m1, : 1), (uint32_t, m2, : 32), (uint32_t, m3, : 2), (uint32_t, m4, : 31), (uint32_t, m5, : 3), (uint32_t, m6, : 30), (uint32_t, m7, : 4), (uint32_t, m8, : 29), (uint32_t, m9, : 5), (uint32_t, m10, : 28), (uint32_t, m11, : 6), (uint32_t, m12, : 27), (uint32_t, m13, : 7), (uint32_t, m14, : 26), (uint32_t, m15, : 8), (char, tail))
static long long bf_uint32_odd0_l0 (void * o) { return (((bf_uint32_odd0*)o)->m0); }
static long long bf_uint32_odd0_l1 (void * o) { return (((bf_uint32_odd0*)o)->m1); }
static long long bf_uint32_odd0_l2 (void * o) { return (((bf_uint32_odd0*)o)->m2); }
static long long bf_uint32_odd0_l3 (void * o) { return (((bf_uint32_odd0*)o)->m3); }
static long long bf_uint32_odd0_l4 (void * o) { return (((bf_uint32_odd0*)o)->m4); }
static long long bf_uint32_odd0_l5 (void * o) { return (((bf_uint32_odd0*)o)->m5); }
static long long bf_uint32_odd0_l6 (void * o) { return (((bf_uint32_odd0*)o)->m6); }
static long long bf_uint32_odd0_l7 (void * o) { return (((bf_uint32_odd0*)o)->m7); }
static long long bf_uint32_odd0_l8 (void * o) { return (((bf_uint32_odd0*)o)->m8); }
static long long bf_uint32_odd0_l9 (void * o) { return (((bf_uint32_odd0*)o)->m9); }
static long long bf_uint32_odd0_l10 (void * o) { return (((bf_uint32_odd0*)o)->m10); }
static long long bf_uint32_odd0_l11 (void * o) { return (((bf_uint32_odd0*)o)->m11); }
static long long bf_uint32_odd0_l12 (void * o) { return (((bf_uint32_odd0*)o)->m12); }
static long long bf_uint32_odd0_l13 (void * o) { return (((bf_uint32_odd0*)o)->m13); }
static long long bf_uint32_odd0_l14 (void * o) { return (((bf_uint32_odd0*)o)->m14); }
static long long bf_uint32_odd0_l15 (void * o) { return (((bf_uint32_odd0*)o)->m15); }
static const zf_t zf_bf_uint32_odd0[] = { ZRAW (bf_uint32_odd0, head), { .kind = Z_BITS, .name = "m0:3", .get = bf_uint32_odd0_l0 }, { .kind = Z_BITS, .name = "m1:1", .get = bf_uint32_odd0_l1 }, { .kind = Z_BITS, .name = "m2:32", .get = bf_uint32_odd0_l2 }, { .kind = Z_BITS, .name = "m3:2", .get = bf_uint32_odd0_l3 }, { .kind = Z_BITS, .name = "m4:31", .get = bf_uint32_odd0_l4 }, { .kind = Z_BITS, .name = "m5:3", .get = bf_uint32_odd0_l5 }, { .kind = Z_BITS, .name = "m6:30", .get = bf_uint32_odd0_l6 }, { .kind = Z_BITS, .name = "m7:4", .get = bf_uint32_odd0_l7 }, { .kind = Z_BITS, .name = "m8:29", .get = bf_uint32_odd0_l8 }, { .kind = Z_BITS, .name = "m9:5", .get = bf_uint32_odd0_l9 }, { .kind = Z_BITS, .name = "m10:28", .get = bf_uint32_odd0_l10 }, { .kind = Z_BITS, .name = "m11:6", .get = bf_uint32_odd0_l11 }, { .kind = Z_BITS, .name = "m12:27", .get = bf_uint32_odd0_l12 }, { .kind = Z_BITS, .name = "m13:7", .get = bf_uint32_odd0_l13 }, { .kind = Z_BITS, .name = "m14:26", .get = bf_uint32_odd0_l14 }, { .kind = Z_BITS, .name = "m15:8", .get = bf_uint32_odd0_l15 }, ZRAW (bf_uint32_odd0, tail), ZEND };
static const zt_t zt_bf_uint32_odd0 = { "bf_uint32_odd0", sizeof (bf_uint32_odd0), zf_bf_uint32_odd0 };
Z_OPS (bf_uint32_odd0)
static void set_bf_uint32_odd0 (void * o, int m, mr_uint128_t v) { bf_uint32_odd0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; } }
static const int w_bf_uint32_odd0[] = { 3, 1, 32, 2, 31, 3, 30, 4, 29, 5, 28, 6, 27, 7, 26, 8, 0 };
TYPEDEF_STRUCT (bf_uint32_odd1, (char, head), (uint32_t, m0, : 25), (uint32_t, m1, : 9), (uint32_t, m2, : 24), (uint32_t, m3, : 10), (uint32_t, m4, : 23), (uint32_t, m5, : 11), (uint32_t, m6, : 22), (uint32_t, m7, : 12), (uint32_t, m8, : 21), (uint32_t, m9, : 13), (uint32_t, m10, : 20), (uint32_t, m11, : 14), (uint32_t, m12, : 19), (uint32_t, m13, : 15), (uint32_t, m14, : 18), (uint32_t, m15, : 16), (uint32_t, m16, : 17), (char, tail))
static long long bf_uint32_odd1_l0 (void * o) { return (((bf_uint32_odd1*)o)->m0); }
static long long bf_uint32_odd1_l1 (void * o) { return (((bf_uint32_odd1*)o)->m1); }
static long long bf_uint32_odd1_l2 (void * o) { return (((bf_uint32_odd1*)o)->m2); }
static long long bf_uint32_odd1_l3 (void * o) { return (((bf_uint32_odd1*)o)->m3); }
static long long bf_uint32_odd1_l4 (void * o) { return (((bf_uint32_odd1*)o)->m4); }
static long long bf_uint32_odd1_l5 (void * o) { return (((bf_uint32_odd1*)o)->m5); }
static long long bf_uint32_odd1_l6 (void * o) { return (((bf_uint32_odd1*)o)->m6); }
static long long bf_uint32_odd1_l7 (void * o) { return (((bf_uint32_odd1*)o)->m7); }
static long long bf_uint32_odd1_l8 (void * o) { return (((bf_uint32_odd1*)o)->m8); }
static long long bf_uint32_odd1_l9 (void * o) { return (((bf_uint32_odd1*)o)->m9); }
static long long bf_uint32_odd1_l10 (void * o) { return (((bf_uint32_odd1*)o)->m10); }
static long long bf_uint32_odd1_l11 (void * o) { return (((bf_uint32_odd1*)o)->m11); }
static long long bf_uint32_odd1_l12 (void * o) { return (((bf_uint32_odd1*)o)->m12); }
static long long bf_uint32_odd1_l13 (void * o) { return (((bf_uint32_odd1*)o)->m13); }
static long long bf_uint32_odd1_l14 (void * o) { return (((bf_uint32_odd1*)o)->m14); }
static long long bf_uint32_odd1_l15 (void * o) { return (((bf_uint32_odd1*)o)->m15); }
static long long bf_uint32_odd1_l16 (void * o) { return (((bf_uint32_odd1*)o)->m16); }
static const zf_t zf_bf_uint32_odd1[] = { ZRAW (bf_uint32_odd1, head), { .kind = Z_BITS, .name = "m0:25", .get = bf_uint32_odd1_l0 }, { .kind = Z_BITS, .name = "m1:9", .get = bf_uint32_odd1_l1 }, { .kind = Z_BITS, .name = "m2:24", .get = bf_uint32_odd1_l2 }, { .kind = Z_BITS, .name = "m3:10", .get = bf_uint32_odd1_l3 }, { .kind = Z_BITS, .name = "m4:23", .get = bf_uint32_odd1_l4 }, { .kind = Z_BITS, .name = "m5:11", .get = bf_uint32_odd1_l5 }, { .kind = Z_BITS, .name = "m6:22", .get = bf_uint32_odd1_l6 }, { .kind = Z_BITS, .name = "m7:12", .get = bf_uint32_odd1_l7 }, { .kind = Z_BITS, .name = "m8:21", .get = bf_uint32_odd1_l8 }, { .kind = Z_BITS, .name = "m9:13", .get = bf_uint32_odd1_l9 }, { .kind = Z_BITS, .name = "m10:20", .get = bf_uint32_odd1_l10 }, { .kind = Z_BITS, .name = "m11:14", .get = bf_uint32_odd1_l11 }, { .kind = Z_BITS, .name = "m12:19", .get = bf_uint32_odd1_l12 }, { .kind = Z_BITS, .name = "m13:15", .get = bf_uint32_odd1_l13 }, { .kind = Z_BITS, .name = "m14:18", .get = bf_uint32_odd1_l14 }, { .kind = Z_BITS, .name = "m15:16", .get = bf_uint32_odd1_l15 }, { .kind = Z_BITS, .name = "m16:17", .get = bf_uint32_odd1_l16 }, ZRAW (bf_uint32_odd1, tail), ZEND };
static const zt_t zt_bf_uint32_odd1 = { "bf_uint32_odd1", sizeof (bf_uint32_odd1), zf_bf_uint32_odd1 };
Z_OPS (bf_uint32_odd1)
static void set_bf_uint32_odd1 (void * o, int m, mr_uint128_t v) { bf_uint32_odd1 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; } }
static const int w_bf_uint32_odd1[] = { 25, 9, 24, 10, 23, 11, 22, 12, 21, 13, 20, 14, 19, 15, 18, 16, 17, 0 };
TYPEDEF_STRUCT (bf_int64_up0, (char, head), (int64_t, m0, : 1), (int64_t, m1, : 2), (int64_t, m2, : 3), (int64_t, m3, : 4), (int64_t, m4, : 5), (int64_t, m5, : 6), (int64_t, m6, : 7), (int64_t, m7, : 8), (int64_t, m8, : 9), (int64_t, m9, : 10), (int64_t, m10, : 11), (int64_t, m11, : 12), (int64_t, m12, : 13), (int64_t, m13, : 14), (int64_t, m14, : 15), (int64_t, m15, : 16), (int64_t, m16, : 17), (int64_t, m17, : 20), (int64_t, m18, : 23), (int64_t, m19, : 24), (int64_t, m20, : 25), (int64_t, m21, : 29), (int64_t, m22, : 31), (int64_t, m23, : 32), (int64_t, m24, : 33), (int64_t, m25, : 34), (int64_t, m26, : 39), (int64_t, m27, : 40), (int64_t, m28, : 41), (int64_t, m29, : 47), (int64_t, m30, : 48), (int64_t, m31, : 55), (int64_t, m32, : 56), (int64_t, m33, : 57), (int64_t, m34, : 62), (int64_t, m35, : 63), (int64_t, m36, : 64), (char, tail))
static long long bf_int64_up0_l0 (void * o) { return (((bf_int64_up0*)o)->m0); }
static long long bf_int64_up0_l1 (void * o) { return (((bf_int64_up0*)o)->m1); }
static long long bf_int64_up0_l2 (void * o) { return (((bf_int64_up0*)o)->m2); }
static long long bf_int64_up0_l3 (void * o) { return (((bf_int64_up0*)o)->m3); }
static long long bf_int64_up0_l4 (void * o) { return (((bf_int64_up0*)o)->m4); }
static long long bf_int64_up0_l5 (void * o) { return (((bf_int64_up0*)o)->m5); }
static long long bf_int64_up0_l6 (void * o) { return (((bf_int64_up0*)o)->m6); }
static long long bf_int64_up0_l7 (void * o) { return (((bf_int64_up0*)o)->m7); }
static long long bf_int64_up0_l8 (void * o) { return (((bf_int64_up0*)o)->m8); }
static long long bf_int64_up0_l9 (void * o) { return (((bf_int64_up0*)o)->m9); }
static long long bf_int64_up0_l10 (void * o) { return (((bf_int64_up0*)o)->m10); }
static long long bf_int64_up0_l11 (void * o) { return (((bf_int64_up0*)o)->m11); }
static long long bf_int64_up0_l12 (void * o) { return (((bf_int64_up0*)o)->m12); }
static long long bf_int64_up0_l13 (void * o) { return (((bf_int64_up0*)o)->m13); }
static long long bf_int64_up0_l14 (void * o) { return (((bf_int64_up0*)o)->m14); }
static long long bf_int64_up0_l15 (void * o) { return (((bf_int64_up0*)o)->m15); }
static long long bf_int64_up0_l16 (void * o) { return (((bf_int64_up0*)o)->m16); }
static long long bf_int64_up0_l17 (void * o) { return (((bf_int64_up0*)o)->m17); }
static long long bf_int64_up0_l18 (void * o) { return (((bf_int64_up0*)o)->m18); }
static long long bf_int64_up0_l19 (void * o) { return (((bf_int64_up0*)o)->m19); }
static long long bf_int64_up0_l20 (void * o) { return (((bf_int64_up0*)o)->m20); }
static long long bf_int64_up0_l21 (void * o) { return (((bf_int64_up0*)o)->m21); }
static long long bf_int64_up0_l22 (void * o) { return (((bf_int64_up0*)o)->m22); }
static long long bf_int64_up0_l23 (void * o) { return (((bf_int64_up0*)o)->m23); }
static long long bf_int64_up0_l24 (void * o) { return (((bf_int64_up0*)o)->m24); }
static long long bf_int64_up0_l25 (void * o) { return (((bf_int64_up0*)o)->m25); }
static long long bf_int64_up0_l26 (void * o) { return (((bf_int64_up0*)o)->m26); }
static long long bf_int64_up0_l27 (void * o) { return (((bf_int64_up0*)o)->m27); }
static long long bf_int64_up0_l28 (void * o) { return (((bf_int64_up0*)o)->m28); }
static long long bf_int64_up0_l29 (void * o) { return (((bf_int64_up0*)o)->m29); }
static long long bf_int64_up0_l30 (void * o) { return (((bf_int64_up0*)o)->m30); }
static long long bf_int64_up0_l31 (void * o) { return (((bf_int64_up0*)o)->m31); }
static long long bf_int64_up0_l32 (void * o) { return (((bf_int64_up0*)o)->m32); }
static long long bf_int64_up0_l33 (void * o) { return (((bf_int64_up0*)o)->m33); }
static long long bf_int64_up0_l34 (void * o) { return (((bf_int64_up0*)o)->m34); }
static long long bf_int64_up0_l35 (void * o) { return (((bf_int64_up0*)o)->m35); }
static long long bf_int64_up0_l36 (void * o) { return (((bf_int64_up0*)o)->m36); }
static const zf_t zf_bf_int64_up0[] = { ZRAW (bf_int64_up0, head), { .kind = Z_BITS, .name = "m0:1", .get = bf_int64_up0_l0 }, { .kind = Z_BITS, .name = "m1:2", .get = bf_int64_up0_l1 }, { .kind = Z_BITS, .name = "m2:3", .get = bf_int64_up0_l2 }, { .kind = Z_BITS, .name = "m3:4", .get = bf_int64_up0_l3 }, { .kind = Z_BITS, .name = "m4:5", .get = bf_int64_up0_l4 }, { .kind = Z_BITS, .name = "m5:6", .get = bf_int64_up0_l5 }, { .kind = Z_BITS, .name = "m6:7", .get = bf_int64_up0_l6 }, { .kind = Z_BITS, .name = "m7:8", .get = bf_int64_up0_l7 }, { .kind = Z_BITS, .name = "m8:9", .get = bf_int64_up0_l8 }, { .kind = Z_BITS, .name = "m9:10", .get = bf_int64_up0_l9 }, { .kind = Z_BITS, .name = "m10:11", .get = bf_int64_up0_l10 }, { .kind = Z_BITS, .name = "m11:12", .get = bf_int64_up0_l11 }, { .kind = Z_BITS, .name = "m12:13", .get = bf_int64_up0_l12 }, { .kind = Z_BITS, .name = "m13:14", .get = bf_int64_up0_l13 }, { .kind = Z_BITS, .name = "m14:15", .get = bf_int64_up0_l14 }, { .kind = Z_BITS, .name = "m15:16", .get = bf_int64_up0_l15 }, { .kind = Z_BITS, .name = "m16:17", .get = bf_int64_up0_l16 }, { .kind = Z_BITS, .name = "m17:20", .get = bf_int64_up0_l17 }, { .kind = Z_BITS, .name = "m18:23", .get = bf_int64_up0_l18 }, { .kind = Z_BITS, .name = "m19:24", .get = bf_int64_up0_l19 }, { .kind = Z_BITS, .name = "m20:25", .get = bf_int64_up0_l20 }, { .kind = Z_BITS, .name = "m21:29", .get = bf_int64_up0_l21 }, { .kind = Z_BITS, .name = "m22:31", .get = bf_int64_up0_l22 }, { .kind = Z_BITS, .name = "m23:32", .get = bf_int64_up0_l23 }, { .kind = Z_BITS, .name = "m24:33", .get = bf_int64_up0_l24 }, { .kind = Z_BITS, .name = "m25:34", .get = bf_int64_up0_l25 }, { .kind = Z_BITS, .name = "m26:39", .get = bf_int64_up0_l26 }, { .kind = Z_BITS, .name = "m27:40", .get = bf_int64_up0_l27 }, { .kind = Z_BITS, .name = "m28:41", .get = bf_int64_up0_l28 }, { .kind = Z_BITS, .name = "m29:47", .get = bf_int64_up0_l29 }, { .kind = Z_BITS, .name = "m30:48", .get = bf_int64_up0_l30 }, { .kind = Z_BITS, .name = "m31:55", .get = bf_int64_up0_l31 }, { .kind = Z_BITS, .name = "m32:56", .get = bf_int64_up0_l32 }, { .kind = Z_BITS, .name = "m33:57", .get = bf_int64_up0_l33 }, { .kind = Z_BITS, .name = "m34:62", .get = bf_int64_up0_l34 }, { .kind = Z_BITS, .name = "m35:63", .get = bf_int64_up0_l35 }, { .kind = Z_BITS, .name = "m36:64", .get = bf_int64_up0_l36 }, ZRAW (bf_int64_up0, tail), ZEND };
static const zt_t zt_bf_int64_up0 = { "bf_int64_up0", sizeof (bf_int64_up0), zf_bf_int64_up0 };
Z_OPS (bf_int64_up0)
static void set_bf_int64_up0 (void * o, int m, mr_uint128_t v) { bf_int64_up0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; case 19: x->m19 = v; break; case 20: x->m20 = v; break; case 21: x->m21 = v; break; case 22: x->m22 = v; break; case 23: x->m23 = v; break; case 24: x->m24 = v; break; case 25: x->m25 = v; break; case 26: x->m26 = v; break; case 27: x->m27 = v; break; case 28: x->m28 = v; break; case 29: x->m29 = v; break; case 30: x->m30 = v; break; case 31: x->m31 = v; break; case 32: x->m32 = v; break; case 33: x->m33 = v; break; case 34: x->m34 = v; break; case 35: x->m35 = v; break; case 36: x->m36 = v; break; } }
static const int w_bf_int64_up0[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 23, 24, 25, 29, 31, 32, 33, 34, 39, 40, 41, 47, 48, 55, 56, 57, 62, 63, 64, 0 };
TYPEDEF_STRUCT (bf_int64_down0, (char, head), (int64_t, m0, : 64), (int64_t, m1, : 63), (int64_t, m2, : 62), (int64_t, m3, : 57), (int64_t, m4, : 56), (int64_t, m5, : 55), (int64_t, m6, : 48), (int64_t, m7, : 47), (int64_t, m8, : 41), (int64_t, m9, : 40), (int64_t, m10, : 39), (int64_t, m11, : 34), (int64_t, m12, : 33), (int64_t, m13, : 32), (int64_t, m14, : 31), (int64_t, m15, : 29), (int64_t, m16, : 25), (int64_t, m17, : 24), (int64_t, m18, : 23), (int64_t, m19, : 20), (int64_t, m20, : 17), (int64_t, m21, : 16), (int64_t, m22, : 15), (int64_t, m23, : 14), (int64_t, m24, : 13), (int64_t, m25, : 12), (int64_t, m26, : 11), (int64_t, m27, : 10), (int64_t, m28, : 9), (int64_t, m29, : 8), (int64_t, m30, : 7), (int64_t, m31, : 6), (int64_t, m32, : 5), (int64_t, m33, : 4), (int64_t, m34, : 3), (int64_t, m35, : 2), (int64_t, m36, : 1), (char, tail))
static long long bf_int64_down0_l0 (void * o) { return (((bf_int64_down0*)o)->m0); }
static long long bf_int64_down0_l1 (void * o) { return (((bf_int64_down0*)o)->m1); }
static long long bf_int64_down0_l2 (void * o) { return (((bf_int64_down0*)o)->m2); }
static long long bf_int64_down0_l3 (void * o) { return (((bf_int64_down0*)o)->m3); }
static long long bf_int64_down0_l4 (void * o) { return (((bf_int64_down0*)o)->m4); }
static long long bf_int64_down0_l5 (void * o) { return (((bf_int64_down0*)o)->m5); }
static long long bf_int64_down0_l6 (void * o) { return (((bf_int64_down0*)o)->m6); }
static long long bf_int64_down0_l7 (void * o) { return (((bf_int64_down0*)o)->m7); }
static long long bf_int64_down0_l8 (void * o) { return (((bf_int64_down0*)o)->m8); }
static long long bf_int64_down0_l9 (void * o) { return (((bf_int64_down0*)o)->m9); }
static long long bf_int64_down0_l10 (void * o) { return (((bf_int64_down0*)o)->m10); }
static long long bf_int64_down0_l11 (void * o) { return (((bf_int64_down0*)o)->m11); }
static long long bf_int64_down0_l12 (void * o) { return (((bf_int64_down0*)o)->m12); }
static long long bf_int64_down0_l13 (void * o) { return (((bf_int64_down0*)o)->m13); }
static long long bf_int64_down0_l14 (void * o) { return (((bf_int64_down0*)o)->m14); }
static long long bf_int64_down0_l15 (void * o) { return (((bf_int64_down0*)o)->m15); }
static long long bf_int64_down0_l16 (void * o) { return (((bf_int64_down0*)o)->m16); }
static long long bf_int64_down0_l17 (void * o) { return (((bf_int64_down0*)o)->m17); }
static long long bf_int64_down0_l18 (void * o) { return (((bf_int64_down0*)o)->m18); }
static long long bf_int64_down0_l19 (void * o) { return (((bf_int64_down0*)o)->m19); }
static long long bf_int64_down0_l20 (void * o) { return (((bf_int64_down0*)o)->m20); }
static long long bf_int64_down0_l21 (void * o) { return (((bf_int64_down0*)o)->m21); }
static long long bf_int64_down0_l22 (void * o) { return (((bf_int64_down0*)o)->m22); }
static long long bf_int64_down0_l23 (void * o) { return (((bf_int64_down0*)o)->m23); }
static long long bf_int64_down0_l24 (void * o) { return (((bf_int64_down0*)o)->m24); }
static long long bf_int64_down0_l25 (void * o) { return (((bf_int64_down0*)o)->m25); }
static long long bf_int64_down0_l26 (void * o) { return (((bf_int64_down0*)o)->m26); }
static long long bf_int64_down0_l27 (void * o) { return (((bf_int64_down0*)o)->m27); }
static long long bf_int64_down0_l28 (void * o) { return (((bf_int64_down0*)o)->m28); }
static long long bf_int64_down0_l29 (void * o) { return (((bf_int64_down0*)o)->m29); }
static long long bf_int64_down0_l30 (void * o) { return (((bf_int64_down0*)o)->m30); }
static long long bf_int64_down0_l31 (void * o) { return (((bf_int64_down0*)o)->m31); }
static long long bf_int64_down0_l32 (void * o) { return (((bf_int64_down0*)o)->m32); }
static long long bf_int64_down0_l33 (void * o) { return (((bf_int64_down0*)o)->m33); }
static long long bf_int64_down0_l34 (void * o) { return (((bf_int64_down0*)o)->m34); }
static long long bf_int64_down0_l35 (void * o) { return (((bf_int64_down0*)o)->m35); }
static long long bf_int64_down0_l36 (void * o) { return (((bf_int64_down0*)o)->m36); }
static const zf_t zf_bf_int64_down0[] = { ZRAW (bf_int64_down0, head), { .kind = Z_BITS, .name = "m0:64", .get = bf_int64_down0_l0 }, { .kind = Z_BITS, .name = "m1:63", .get = bf_int64_down0_l1 }, { .kind = Z_BITS, .name = "m2:62", .get = bf_int64_down0_l2 }, { .kind = Z_BITS, .name = "m3:57", .get = bf_int64_down0_l3 }, { .kind = Z_BITS, .name = "m4:56", .get = bf_int64_down0_l4 }, { .kind = Z_BITS, .name = "m5:55", .get = bf_int64_down0_l5 }, { .kind = Z_BITS, .name = "m6:48", .get = bf_int64_down0_l6 }, { .kind = Z_BITS, .name = "m7:47", .get = bf_int64_down0_l7 }, { .kind = Z_BITS, .name = "m8:41", .get = bf_int64_down0_l8 }, { .kind = Z_BITS, .name = "m9:40", .get = bf_int64_down0_l9 }, { .kind = Z_BITS, .name = "m10:39", .get = bf_int64_down0_l10 }, { .kind = Z_BITS, .name = "m11:34", .get = bf_int64_down0_l11 }, { .kind = Z_BITS, .name = "m12:33", .get = bf_int64_down0_l12 }, { .kind = Z_BITS, .name = "m13:32", .get = bf_int64_down0_l13 }, { .kind = Z_BITS, .name = "m14:31", .get = bf_int64_down0_l14 }, { .kind = Z_BITS, .name = "m15:29", .get = bf_int64_down0_l15 }, { .kind = Z_BITS, .name = "m16:25", .get = bf_int64_down0_l16 }, { .kind = Z_BITS, .name = "m17:24", .get = bf_int64_down0_l17 }, { .kind = Z_BITS, .name = "m18:23", .get = bf_int64_down0_l18 }, { .kind = Z_BITS, .name = "m19:20", .get = bf_int64_down0_l19 }, { .kind = Z_BITS, .name = "m20:17", .get = bf_int64_down0_l20 }, { .kind = Z_BITS, .name = "m21:16", .get = bf_int64_down0_l21 }, { .kind = Z_BITS, .name = "m22:15", .get = bf_int64_down0_l22 }, { .kind = Z_BITS, .name = "m23:14", .get = bf_int64_down0_l23 }, { .kind = Z_BITS, .name = "m24:13", .get = bf_int64_down0_l24 }, { .kind = Z_BITS, .name = "m25:12", .get = bf_int64_down0_l25 }, { .kind = Z_BITS, .name = "m26:11", .get = bf_int64_down0_l26 }, { .kind = Z_BITS, .name = "m27:10", .get = bf_int64_down0_l27 }, { .kind = Z_BITS, .name = "m28:9", .get = bf_int64_down0_l28 }, { .kind = Z_BITS, .name = "m29:8", .get = bf_int64_down0_l29 }, { .kind = Z_BITS, .name = "m30:7", .get = bf_int64_down0_l30 }, { .kind = Z_BITS, .name = "m31:6", .get = bf_int64_down0_l31 }, { .kind = Z_BITS, .name = "m32:5", .get = bf_int64_down0_l32 }, { .kind = Z_BITS, .name = "m33:4", .get = bf_int64_down0_l33 }, { .kind = Z_BITS, .name = "m34:3", .get = bf_int64_down0_l34 }, { .kind = Z_BITS, .name = "m35:2", .get = bf_int64_down0_l35 }, { .kind = Z_BITS, .name = "m36:1", .get = bf_int64_down0_l36 }, ZRAW (bf_int64_down0, tail), ZEND };
static const zt_t zt_bf_int64_down0 = { "bf_int64_down0", sizeof (bf_int64_down0), zf_bf_int64_down0 };
Z_OPS (bf_int64_down0)
static void set_bf_int64_down0 (void * o, int m, mr_uint128_t v) { bf_int64_down0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; case 19: x->m19 = v; break; case 20: x->m20 = v; break; case 21: x->m21 = v; break; case 22: x->m22 = v; break; case 23: x->m23 = v; break; case 24: x->m24 = v; break; case 25: x->m25 = v; break; case 26: x->m26 = v; break; case 27: x->m27 = v; break; case 28: x->m28 = v; break; case 29: x->m29 = v; break; case 30: x->m30 = v; break; case 31: x->m31 = v; break; case 32: x->m32 = v; break; case 33: x->m33 = v; break; case 34: x->m34 = v; break; case 35: x->m35 = v; break; case 36: x->m36 = v; break; } }
static const int w_bf_int64_down0[] = { 64, 63, 62, 57, 56, 55, 48, 47, 41, 40, 39, 34, 33, 32, 31, 29, 25, 24, 23, 20, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0 };
TYPEDEF_STRUCT (bf_int64_odd0, (char, head), (int64_t, m0, : 3), (int64_t, m1, : 1), (int64_t, m2, : 64), (int64_t, m3, : 2), (int64_t, m4, : 63), (int64_t, m5, : 3), (int64_t, m6, : 62), (int64_t, m7, : 4), (int64_t, m8, : 57), (int64_t, m9, : 5), (int64_t, m10, : 56), (int64_t, m11, : 6), (int64_t, m12, : 55), (int64_t, m13, : 7), (int64_t, m14, : 48), (int64_t, m15, : 8), (int64_t, m16, : 47), (int64_t, m17, : 9), (int64_t, m18, : 41), (int64_t, m19, : 10), (int64_t, m20, : 40), (int64_t, m21, : 11), (int64_t, m22, : 39), (int64_t, m23, : 12), (int64_t, m24, : 34), (int64_t, m25, : 13), (int64_t, m26, : 33), (int64_t, m27, : 14), (int64_t, m28, : 32), (int64_t, m29, : 15), (int64_t, m30, : 31), (int64_t, m31, : 16), (int64_t, m32, : 29), (int64_t, m33, : 17), (int64_t, m34, : 25), (int64_t, m35, : 20), (int64_t, m36, : 24), (int64_t, m37, : 23), (char, tail))
static long long bf_int64_odd0_l0 (void * o) { return (((bf_int64_odd0*)o)->m0); }
static long long bf_int64_odd0_l1 (void * o) { return (((bf_int64_odd0*)o)->m1); }
static long long bf_int64_odd0_l2 (void * o) { return (((bf_int64_odd0*)o)->m2); }
static long long bf_int64_odd0_l3 (void * o) { return (((bf_int64_odd0*)o)->m3); }
static long long bf_int64_odd0_l4 (void * o) { return (((bf_int64_odd0*)o)->m4); }
static long long bf_int64_odd0_l5 (void * o) { return (((bf_int64_odd0*)o)->m5); }
static long long bf_int64_odd0_l6 (void * o) { return (((bf_int64_odd0*)o)->m6); }
static long long bf_int64_odd0_l7 (void * o) { return (((bf_int64_odd0*)o)->m7); }
static long long bf_int64_odd0_l8 (void * o) { return (((bf_int64_odd0*)o)->m8); }
static long long bf_int64_odd0_l9 (void * o) { return (((bf_int64_odd0*)o)->m9); }
static long long bf_int64_odd0_l10 (void * o) { return (((bf_int64_odd0*)o)->m10); }
static long long bf_int64_odd0_l11 (void * o) { return (((bf_int64_odd0*)o)->m11); }
static long long bf_int64_odd0_l12 (void * o) { return (((bf_int64_odd0*)o)->m12); }
static long long bf_int64_odd0_l13 (void * o) { return (((bf_int64_odd0*)o)->m13); }
static long long bf_int64_odd0_l14 (void * o) { return (((bf_int64_odd0*)o)->m14); }
static long long bf_int64_odd0_l15 (void * o) { return (((bf_int64_odd0*)o)->m15); }
static long long bf_int64_odd0_l16 (void * o) { return (((bf_int64_odd0*)o)->m16); }
static long long bf_int64_odd0_l17 (void * o) { return (((bf_int64_odd0*)o)->m17); }
static long long bf_int64_odd0_l18 (void * o) { return (((bf_int64_odd0*)o)->m18); }
static long long bf_int64_odd0_l19 (void * o) { return (((bf_int64_odd0*)o)->m19); }
static long long bf_int64_odd0_l20 (void * o) { return (((bf_int64_odd0*)o)->m20); }
static long long bf_int64_odd0_l21 (void * o) { return (((bf_int64_odd0*)o)->m21); }
static long long bf_int64_odd0_l22 (void * o) { return (((bf_int64_odd0*)o)->m22); }
static long long bf_int64_odd0_l23 (void * o) { return (((bf_int64_odd0*)o)->m23); }
static long long bf_int64_odd0_l24 (void * o) { return (((bf_int64_odd0*)o)->m24); }
static long long bf_int64_odd0_l25 (void * o) { return (((bf_int64_odd0*)o)->m25); }
static long long bf_int64_odd0_l26 (void * o) { return (((bf_int64_odd0*)o)->m26); }
static long long bf_int64_odd0_l27 (void * o) { return (((bf_int64_odd0*)o)->m27); }
static long long bf_int64_odd0_l28 (void * o) { return (((bf_int64_odd0*)o)->m28); }
static long long bf_int64_odd0_l29 (void * o) { return (((bf_int64_odd0*)o)->m29); }
static long long bf_int64_odd0_l30 (void * o) { return (((bf_int64_odd0*)o)->m30); }
static long long bf_int64_odd0_l31 (void * o) { return (((bf_int64_odd0*)o)->m31); }
static long long bf_int64_odd0_l32 (void * o) { return (((bf_int64_odd0*)o)->m32); }
static long long bf_int64_odd0_l33 (void * o) { return (((bf_int64_odd0*)o)->m33); }
static long long bf_int64_odd0_l34 (void * o) { return (((bf_int64_odd0*)o)->m34); }
static long long bf_int64_odd0_l35 (void * o) { return (((bf_int64_odd0*)o)->m35); }
static long long bf_int64_odd0_l36 (void * o) { return (((bf_int64_odd0*)o)->m36); }
static long long bf_int64_odd0_l37 (void * o) { return (((bf_int64_odd0*)o)->m37); }
static const zf_t zf_bf_int64_odd0[] = { ZRAW (bf_int64_odd0, head), { .kind = Z_BITS, .name = "m0:3", .get = bf_int64_odd0_l0 }, { .kind = Z_BITS, .name = "m1:1", .get = bf_int64_odd0_l1 }, { .kind = Z_BITS, .name = "m2:64", .get = bf_int64_odd0_l2 }, { .kind = Z_BITS, .name = "m3:2", .get = bf_int64_odd0_l3 }, { .kind = Z_BITS, .name = "m4:63", .get = bf_int64_odd0_l4 }, { .kind = Z_BITS, .name = "m5:3", .get = bf_int64_odd0_l5 }, { .kind = Z_BITS, .name = "m6:62", .get = bf_int64_odd0_l6 }, { .kind = Z_BITS, .name = "m7:4", .get = bf_int64_odd0_l7 }, { .kind = Z_BITS, .name = "m8:57", .get = bf_int64_odd0_l8 }, { .kind = Z_BITS, .name = "m9:5", .get = bf_int64_odd0_l9 }, { .kind = Z_BITS, .name = "m10:56", .get = bf_int64_odd0_l10 }, { .kind = Z_BITS, .name = "m11:6", .get = bf_int64_odd0_l11 }, { .kind = Z_BITS, .name = "m12:55", .get = bf_int64_odd0_l12 }, { .kind = Z_BITS, .name = "m13:7", .get = bf_int64_odd0_l13 }, { .kind = Z_BITS, .name = "m14:48", .get = bf_int64_odd0_l14 }, { .kind = Z_BITS, .name = "m15:8", .get = bf_int64_odd0_l15 }, { .kind = Z_BITS, .name = "m16:47", .get = bf_int64_odd0_l16 }, { .kind = Z_BITS, .name = "m17:9", .get = bf_int64_odd0_l17 }, { .kind = Z_BITS, .name = "m18:41", .get = bf_int64_odd0_l18 }, { .kind = Z_BITS, .name = "m19:10", .get = bf_int64_odd0_l19 }, { .kind = Z_BITS, .name = "m20:40", .get = bf_int64_odd0_l20 }, { .kind = Z_BITS, .name = "m21:11", .get = bf_int64_odd0_l21 }, { .kind = Z_BITS, .name = "m22:39", .get = bf_int64_odd0_l22 }, { .kind = Z_BITS, .name = "m23:12", .get = bf_int64_odd0_l23 }, { .kind = Z_BITS, .name = "m24:34", .get = bf_int64_odd0_l24 }, { .kind = Z_BITS, .name = "m25:13", .get = bf_int64_odd0_l25 }, { .kind = Z_BITS, .name = "m26:33", .get = bf_int64_odd0_l26 }, { .kind = Z_BITS, .name = "m27:14", .get = bf_int64_odd0_l27 }, { .kind = Z_BITS, .name = "m28:32", .get = bf_int64_odd0_l28 }, { .kind = Z_BITS, .name = "m29:15", .get = bf_int64_odd0_l29 }, { .kind = Z_BITS, .name = "m30:31", .get = bf_int64_odd0_l30 }, { .kind = Z_BITS, .name = "m31:16", .get = bf_int64_odd0_l31 }, { .kind = Z_BITS, .name = "m32:29", .get = bf_int64_odd0_l32 }, { .kind = Z_BITS, .name = "m33:17", .get = bf_int64_odd0_l33 }, { .kind = Z_BITS, .name = "m34:25", .get = bf_int64_odd0_l34 }, { .kind = Z_BITS, .name = "m35:20", .get = bf_int64_odd0_l35 }, { .kind = Z_BITS, .name = "m36:24", .get = bf_int64_odd0_l36 }, { .kind = Z_BITS, .name = "m37:23", .get = bf_int64_odd0_l37 }, ZRAW (bf_int64_odd0, tail), ZEND };
static const zt_t zt_bf_int64_odd0 = { "bf_int64_odd0", sizeof (bf_int64_odd0), zf_bf_int64_odd0 };
Z_OPS (bf_int64_odd0)
static void set_bf_int64_odd0 (void * o, int m, mr_uint128_t v) { bf_int64_odd0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; case 19: x->m19 = v; break; case 20: x->m20 = v; break; case 21: x->m21 = v; break; case 22: x->m22 = v; break; case 23: x->m23 = v; break; case 24: x->m24 = v; break; case 25: x->m25 = v; break; case 26: x->m26 = v; break; case 27: x->m27 = v; break; case 28: x->m28 = v; break; case 29: x->m29 = v; break; case 30: x->m30 = v; break; case 31: x->m31 = v; break; case 32: x->m32 = v; break; case 33: x->m33 = v; break; case 34: x->m34 = v; break; case 35: x->m35 = v; break; case 36: x->m36 = v; break; case 37: x->m37 = v; break; } }
static const int w_bf_int64_odd0[] = { 3, 1, 64, 2, 63, 3, 62, 4, 57, 5, 56, 6, 55, 7, 48, 8, 47, 9, 41, 10, 40, 11, 39, 12, 34, 13, 33, 14, 32, 15, 31, 16, 29, 17, 25, 20, 24, 23, 0 };
TYPEDEF_STRUCT (bf_uint64_up0, (char, head), (uint64_t, m0, : 1), (uint64_t, m1, : 2), (uint64_t, m2, : 3), (uint64_t, m3, : 4), (uint64_t, m4, : 5), (uint64_t, m5, : 6), (uint64_t, m6, : 7), (uint64_t, m7, : 8), (uint64_t, m8, : 9), (uint64_t, m9, : 10), (uint64_t, m10, : 11), (uint64_t, m11, : 12), (uint64_t, m12, : 13), (uint64_t, m13, : 14), (uint64_t, m14, : 15), (uint64_t, m15, : 16), (uint64_t, m16, : 17), (uint64_t, m17, : 20), (uint64_t, m18, : 23), (uint64_t, m19, : 24), (uint64_t, m20, : 25), (uint64_t, m21, : 29), (uint64_t, m22, : 31), (uint64_t, m23, : 32), (uint64_t, m24, : 33), (uint64_t, m25, : 34), (uint64_t, m26, : 39), (uint64_t, m27, : 40), (uint64_t, m28, : 41), (uint64_t, m29, : 47), (uint64_t, m30, : 48), (uint64_t, m31, : 55), (uint64_t, m32, : 56), (uint64_t, m33, : 57), (uint64_t, m34, : 62), (uint64_t, m35, : 63), (uint64_t, m36, : 64), (char, tail))
static long long bf_uint64_up0_l0 (void * o) { return (((bf_uint64_up0*)o)->m0); }
static long long bf_uint64_up0_l1 (void * o) { return (((bf_uint64_up0*)o)->m1); }
static long long bf_uint64_up0_l2 (void * o) { return (((bf_uint64_up0*)o)->m2); }
static long long bf_uint64_up0_l3 (void * o) { return (((bf_uint64_up0*)o)->m3); }
static long long bf_uint64_up0_l4 (void * o) { return (((bf_uint64_up0*)o)->m4); }
static long long bf_uint64_up0_l5 (void * o) { return (((bf_uint64_up0*)o)->m5); }
static long long bf_uint64_up0_l6 (void * o) { return (((bf_uint64_up0*)o)->m6); }
static long long bf_uint64_up0_l7 (void * o) { return (((bf_uint64_up0*)o)->m7); }
static long long bf_uint64_up0_l8 (void * o) { return (((bf_uint64_up0*)o)->m8); }
static long long bf_uint64_up0_l9 (void * o) { return (((bf_uint64_up0*)o)->m9); }
static long long bf_uint64_up0_l10 (void * o) { return (((bf_uint64_up0*)o)->m10); }
static long long bf_uint64_up0_l11 (void * o) { return (((bf_uint64_up0*)o)->m11); }
static long long bf_uint64_up0_l12 (void * o) { return (((bf_uint64_up0*)o)->m12); }
static long long bf_uint64_up0_l13 (void * o) { return (((bf_uint64_up0*)o)->m13); }
static long long bf_uint64_up0_l14 (void * o) { return (((bf_uint64_up0*)o)->m14); }
static long long bf_uint64_up0_l15 (void * o) { return (((bf_uint64_up0*)o)->m15); }
static long long bf_uint64_up0_l16 (void * o) { return (((bf_uint64_up0*)o)->m16); }
static long long bf_uint64_up0_l17 (void * o) { return (((bf_uint64_up0*)o)->m17); }
static long long bf_uint64_up0_l18 (void * o) { return (((bf_uint64_up0*)o)->m18); }
static long long bf_uint64_up0_l19 (void * o) { return (((bf_uint64_up0*)o)->m19); }
static long long bf_uint64_up0_l20 (void * o) { return (((bf_uint64_up0*)o)->m20); }
static long long bf_uint64_up0_l21 (void * o) { return (((bf_uint64_up0*)o)->m21); }
static long long bf_uint64_up0_l22 (void * o) { return (((bf_uint64_up0*)o)->m22); }
static long long bf_uint64_up0_l23 (void * o) { return (((bf_uint64_up0*)o)->m23); }
static long long bf_uint64_up0_l24 (void * o) { return (((bf_uint64_up0*)o)->m24); }
static long long bf_uint64_up0_l25 (void * o) { return (((bf_uint64_up0*)o)->m25); }
static long long bf_uint64_up0_l26 (void * o) { return (((bf_uint64_up0*)o)->m26); }
static long long bf_uint64_up0_l27 (void * o) { return (((bf_uint64_up0*)o)->m27); }
static long long bf_uint64_up0_l28 (void * o) { return (((bf_uint64_up0*)o)->m28); }
static long long bf_uint64_up0_l29 (void * o) { return (((bf_uint64_up0*)o)->m29); }
static long long bf_uint64_up0_l30 (void * o) { return (((bf_uint64_up0*)o)->m30); }
static long long bf_uint64_up0_l31 (void * o) { return (((bf_uint64_up0*)o)->m31); }
static long long bf_uint64_up0_l32 (void * o) { return (((bf_uint64_up0*)o)->m32); }
static long long bf_uint64_up0_l33 (void * o) { return (((bf_uint64_up0*)o)->m33); }
static long long bf_uint64_up0_l34 (void * o) { return (((bf_uint64_up0*)o)->m34); }
static long long bf_uint64_up0_l35 (void * o) { return (((bf_uint64_up0*)o)->m35); }
static long long bf_uint64_up0_l36 (void * o) { return (((bf_uint64_up0*)o)->m36); }
static const zf_t zf_bf_uint64_up0[] = { ZRAW (bf_uint64_up0, head), { .kind = Z_BITS, .name = "m0:1", .get = bf_uint64_up0_l0 }, { .kind = Z_BITS, .name = "m1:2", .get = bf_uint64_up0_l1 }, { .kind = Z_BITS, .name = "m2:3", .get = bf_uint64_up0_l2 }, { .kind = Z_BITS, .name = "m3:4", .get = bf_uint64_up0_l3 }, { .kind = Z_BITS, .name = "m4:5", .get = bf_uint64_up0_l4 }, { .kind = Z_BITS, .name = "m5:6", .get = bf_uint64_up0_l5 }, { .kind = Z_BITS, .name = "m6:7", .get = bf_uint64_up0_l6 }, { .kind = Z_BITS, .name = "m7:8", .get = bf_uint64_up0_l7 }, { .kind = Z_BITS, .name = "m8:9", .get = bf_uint64_up0_l8 }, { .kind = Z_BITS, .name = "m9:10", .get = bf_uint64_up0_l9 }, { .kind = Z_BITS, .name = "m10:11", .get = bf_uint64_up0_l10 }, { .kind = Z_BITS, .name = "m11:12", .get = bf_uint64_up0_l11 }, { .kind = Z_BITS, .name = "m12:13", .get = bf_uint64_up0_l12 }, { .kind = Z_BITS, .name = "m13:14", .get = bf_uint64_up0_l13 }, { .kind = Z_BITS, .name = "m14:15", .get = bf_uint64_up0_l14 }, { .kind = Z_BITS, .name = "m15:16", .get = bf_uint64_up0_l15 }, { .kind = Z_BITS, .name = "m16:17", .get = bf_uint64_up0_l16 }, { .kind = Z_BITS, .name = "m17:20", .get = bf_uint64_up0_l17 }, { .kind = Z_BITS, .name = "m18:23", .get = bf_uint64_up0_l18 }, { .kind = Z_BITS, .name = "m19:24", .get = bf_uint64_up0_l19 }, { .kind = Z_BITS, .name = "m20:25", .get = bf_uint64_up0_l20 }, { .kind = Z_BITS, .name = "m21:29", .get = bf_uint64_up0_l21 }, { .kind = Z_BITS, .name = "m22:31", .get = bf_uint64_up0_l22 }, { .kind = Z_BITS, .name = "m23:32", .get = bf_uint64_up0_l23 }, { .kind = Z_BITS, .name = "m24:33", .get = bf_uint64_up0_l24 }, { .kind = Z_BITS, .name = "m25:34", .get = bf_uint64_up0_l25 }, { .kind = Z_BITS, .name = "m26:39", .get = bf_uint64_up0_l26 }, { .kind = Z_BITS, .name = "m27:40", .get = bf_uint64_up0_l27 }, { .kind = Z_BITS, .name = "m28:41", .get = bf_uint64_up0_l28 }, { .kind = Z_BITS, .name = "m29:47", .get = bf_uint64_up0_l29 }, { .kind = Z_BITS, .name = "m30:48", .get = bf_uint64_up0_l30 }, { .kind = Z_BITS, .name = "m31:55", .get = bf_uint64_up0_l31 }, { .kind = Z_BITS, .name = "m32:56", .get = bf_uint64_up0_l32 }, { .kind = Z_BITS, .name = "m33:57", .get = bf_uint64_up0_l33 }, { .kind = Z_BITS, .name = "m34:62", .get = bf_uint64_up0_l34 }, { .kind = Z_BITS, .name = "m35:63", .get = bf_uint64_up0_l35 }, { .kind = Z_BITS, .name = "m36:64", .get = bf_uint64_up0_l36 }, ZRAW (bf_uint64_up0, tail), ZEND };
static const zt_t zt_bf_uint64_up0 = { "bf_uint64_up0", sizeof (bf_uint64_up0), zf_bf_uint64_up0 };
Z_OPS (bf_uint64_up0)
static void set_bf_uint64_up0 (void * o, int m, mr_uint128_t v) { bf_uint64_up0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; case 19: x->m19 = v; break; case 20: x->m20 = v; break; case 21: x->m21 = v; break; case 22: x->m22 = v; break; case 23: x->m23 = v; break; case 24: x->m24 = v; break; case 25: x->m25 = v; break; case 26: x->m26 = v; break; case 27: x->m27 = v; break; case 28: x->m28 = v; break; case 29: x->m29 = v; break; case 30: x->m30 = v; break; case 31: x->m31 = v; break; case 32: x->m32 = v; break; case 33: x->m33 = v; break; case 34: x->m34 = v; break; case 35: x->m35 = v; break; case 36: x->m36 = v; break; } }
static const int w_bf_uint64_up0[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 23, 24, 25, 29, 31, 32, 33, 34, 39, 40, 41, 47, 48, 55, 56, 57, 62, 63, 64, 0 };
TYPEDEF_STRUCT (bf_uint64_down0, (char, head), (uint64_t, m0, : 64), (uint64_t, m1, : 63), (uint64_t, m2, : 62), (uint64_t, m3, : 57), (uint64_t, m4, : 56), (uint64_t, m5, : 55), (uint64_t, m6, : 48), (uint64_t, m7, : 47), (uint64_t, m8, : 41), (uint64_t, m9, : 40), (uint64_t, m10, : 39), (uint64_t, m11, : 34), (uint64_t, m12, : 33), (uint64_t, m13, : 32), (uint64_t, m14, : 31), (uint64_t, m15, : 29), (uint64_t, m16, : 25), (uint64_t, m17, : 24), (uint64_t, m18, : 23), (uint64_t, m19, : 20), (uint64_t, m20, : 17), (uint64_t, m21, : 16), (uint64_t, m22, : 15), (uint64_t, m23, : 14), (uint64_t, m24, : 13), (uint64_t, m25, : 12), (uint64_t, m26, : 11), (uint64_t, m27, : 10), (uint64_t, m28, : 9), (uint64_t, m29, : 8), (uint64_t, m30, : 7), (uint64_t, m31, : 6), (uint64_t, m32, : 5), (uint64_t, m33, : 4), (uint64_t, m34, : 3), (uint64_t, m35, : 2), (uint64_t, m36, : 1), (char, tail))
static long long bf_uint64_down0_l0 (void * o) { return (((bf_uint64_down0*)o)->m0); }
static long long bf_uint64_down0_l1 (void * o) { return (((bf_uint64_down0*)o)->m1); }
static long long bf_uint64_down0_l2 (void * o) { return (((bf_uint64_down0*)o)->m2); }
static long long bf_uint64_down0_l3 (void * o) { return (((bf_uint64_down0*)o)->m3); }
static long long bf_uint64_down0_l4 (void * o) { return (((bf_uint64_down0*)o)->m4); }
static long long bf_uint64_down0_l5 (void * o) { return (((bf_uint64_down0*)o)->m5); }
static long long bf_uint64_down0_l6 (void * o) { return (((bf_uint64_down0*)o)->m6); }
static long long bf_uint64_down0_l7 (void * o) { return (((bf_uint64_down0*)o)->m7); }
static long long bf_uint64_down0_l8 (void * o) { return (((bf_uint64_down0*)o)->m8); }
static long long bf_uint64_down0_l9 (void * o) { return (((bf_uint64_down0*)o)->m9); }
static long long bf_uint64_down0_l10 (void * o) { return (((bf_uint64_down0*)o)->m10); }
static long long bf_uint64_down0_l11 (void * o) { return (((bf_uint64_down0*)o)->m11); }
static long long bf_uint64_down0_l12 (void * o) { return (((bf_uint64_down0*)o)->m12); }
static long long bf_uint64_down0_l13 (void * o) { return (((bf_uint64_down0*)o)->m13); }
static long long bf_uint64_down0_l14 (void * o) { return (((bf_uint64_down0*)o)->m14); }
static long long bf_uint64_down0_l15 (void * o) { return (((bf_uint64_down0*)o)->m15); }
static long long bf_uint64_down0_l16 (void * o) { return (((bf_uint64_down0*)o)->m16); }
static long long bf_uint64_down0_l17 (void * o) { return (((bf_uint64_down0*)o)->m17); }
static long long bf_uint64_down0_l18 (void * o) { return (((bf_uint64_down0*)o)->m18); }
static long long bf_uint64_down0_l19 (void * o) { return (((bf_uint64_down0*)o)->m19); }
static long long bf_uint64_down0_l20 (void * o) { return (((bf_uint64_down0*)o)->m20); }
static long long bf_uint64_down0_l21 (void * o) { return (((bf_uint64_down0*)o)->m21); }
static long long bf_uint64_down0_l22 (void * o) { return (((bf_uint64_down0*)o)->m22); }
static long long bf_uint64_down0_l23 (void * o) { return (((bf_uint64_down0*)o)->m23); }
static long long bf_uint64_down0_l24 (void * o) { return (((bf_uint64_down0*)o)->m24); }
static long long bf_uint64_down0_l25 (void * o) { return (((bf_uint64_down0*)o)->m25); }
static long long bf_uint64_down0_l26 (void * o) { return (((bf_uint64_down0*)o)->m26); }
static long long bf_uint64_down0_l27 (void * o) { return (((bf_uint64_down0*)o)->m27); }
static long long bf_uint64_down0_l28 (void * o) { return (((bf_uint64_down0*)o)->m28); }
static long long bf_uint64_down0_l29 (void * o) { return (((bf_uint64_down0*)o)->m29); }
static long long bf_uint64_down0_l30 (void * o) { return (((bf_uint64_down0*)o)->m30); }
static long long bf_uint64_down0_l31 (void * o) { return (((bf_uint64_down0*)o)->m31); }
static long long bf_uint64_down0_l32 (void * o) { return (((bf_uint64_down0*)o)->m32); }
static long long bf_uint64_down0_l33 (void * o) { return (((bf_uint64_down0*)o)->m33); }
static long long bf_uint64_down0_l34 (void * o) { return (((bf_uint64_down0*)o)->m34); }
static long long bf_uint64_down0_l35 (void * o) { return (((bf_uint64_down0*)o)->m35); }
static long long bf_uint64_down0_l36 (void * o) { return (((bf_uint64_down0*)o)->m36); }
static const zf_t zf_bf_uint64_down0[] = { ZRAW (bf_uint64_down0, head), { .kind = Z_BITS, .name = "m0:64", .get = bf_uint64_down0_l0 }, { .kind = Z_BITS, .name = "m1:63", .get = bf_uint64_down0_l1 }, { .kind = Z_BITS, .name = "m2:62", .get = bf_uint64_down0_l2 }, { .kind = Z_BITS, .name = "m3:57", .get = bf_uint64_down0_l3 }, { .kind = Z_BITS, .name = "m4:56", .get = bf_uint64_down0_l4 }, { .kind = Z_BITS, .name = "m5:55", .get = bf_uint64_down0_l5 }, { .kind = Z_BITS, .name = "m6:48", .get = bf_uint64_down0_l6 }, { .kind = Z_BITS, .name = "m7:47", .get = bf_uint64_down0_l7 }, { .kind = Z_BITS, .name = "m8:41", .get = bf_uint64_down0_l8 }, { .kind = Z_BITS, .name = "m9:40", .get = bf_uint64_down0_l9 }, { .kind = Z_BITS, .name = "m10:39", .get = bf_uint64_down0_l10 }, { .kind = Z_BITS, .name = "m11:34", .get = bf_uint64_down0_l11 }, { .kind = Z_BITS, .name = "m12:33", .get = bf_uint64_down0_l12 }, { .kind = Z_BITS, .name = "m13:32", .get = bf_uint64_down0_l13 }, { .kind = Z_BITS, .name = "m14:31", .get = bf_uint64_down0_l14 }, { .kind = Z_BITS, .name = "m15:29", .get = bf_uint64_down0_l15 }, { .kind = Z_BITS, .name = "m16:25", .get = bf_uint64_down0_l16 }, { .kind = Z_BITS, .name = "m17:24", .get = bf_uint64_down0_l17 }, { .kind = Z_BITS, .name = "m18:23", .get = bf_uint64_down0_l18 }, { .kind = Z_BITS, .name = "m19:20", .get = bf_uint64_down0_l19 }, { .kind = Z_BITS, .name = "m20:17", .get = bf_uint64_down0_l20 }, { .kind = Z_BITS, .name = "m21:16", .get = bf_uint64_down0_l21 }, { .kind = Z_BITS, .name = "m22:15", .get = bf_uint64_down0_l22 }, { .kind = Z_BITS, .name = "m23:14", .get = bf_uint64_down0_l23 }, { .kind = Z_BITS, .name = "m24:13", .get = bf_uint64_down0_l24 }, { .kind = Z_BITS, .name = "m25:12", .get = bf_uint64_down0_l25 }, { .kind = Z_BITS, .name = "m26:11", .get = bf_uint64_down0_l26 }, { .kind = Z_BITS, .name = "m27:10", .get = bf_uint64_down0_l27 }, { .kind = Z_BITS, .name = "m28:9", .get = bf_uint64_down0_l28 }, { .kind = Z_BITS, .name = "m29:8", .get = bf_uint64_down0_l29 }, { .kind = Z_BITS, .name = "m30:7", .get = bf_uint64_down0_l30 }, { .kind = Z_BITS, .name = "m31:6", .get = bf_uint64_down0_l31 }, { .kind = Z_BITS, .name = "m32:5", .get = bf_uint64_down0_l32 }, { .kind = Z_BITS, .name = "m33:4", .get = bf_uint64_down0_l33 }, { .kind = Z_BITS, .name = "m34:3", .get = bf_uint64_down0_l34 }, { .kind = Z_BITS, .name = "m35:2", .get = bf_uint64_down0_l35 }, { .kind = Z_BITS, .name = "m36:1", .get = bf_uint64_down0_l36 }, ZRAW (bf_uint64_down0, tail), ZEND };
static const zt_t zt_bf_uint64_down0 = { "bf_uint64_down0", sizeof (bf_uint64_down0), zf_bf_uint64_down0 };
Z_OPS (bf_uint64_down0)
static void set_bf_uint64_down0 (void * o, int m, mr_uint128_t v) { bf_uint64_down0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; case 19: x->m19 = v; break; case 20: x->m20 = v; break; case 21: x->m21 = v; break; case 22: x->m22 = v; break; case 23: x->m23 = v; break; case 24: x->m24 = v; break; case 25: x->m25 = v; break; case 26: x->m26 = v; break; case 27: x->m27 = v; break; case 28: x->m28 = v; break; case 29: x->m29 = v; break; case 30: x->m30 = v; break; case 31: x->m31 = v; break; case 32: x->m32 = v; break; case 33: x->m33 = v; break; case 34: x->m34 = v; break; case 35: x->m35 = v; break; case 36: x->m36 = v; break; } }
static const int w_bf_uint64_down0[] = { 64, 63, 62, 57, 56, 55, 48, 47, 41, 40, 39, 34, 33, 32, 31, 29, 25, 24, 23, 20, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0 };
TYPEDEF_STRUCT (bf_uint64_odd0, (char, head), (uint64_t, m0, : 3), (uint64_t, m1, : 1), (uint64_t, m2, : 64), (uint64_t, m3, : 2), (uint64_t, m4, : 63), (uint64_t, m5, : 3), (uint64_t, m6, : 62), (uint64_t, m7, : 4), (uint64_t, m8, : 57), (uint64_t, m9, : 5), (uint64_t, m10, : 56), (uint64_t, m11, : 6), (uint64_t, m12, : 55), (uint64_t, m13, : 7), (uint64_t, m14, : 48), (uint64_t, m15, : 8), (uint64_t, m16, : 47), (uint64_t, m17, : 9), (uint64_t, m18, : 41), (uint64_t, m19, : 10), (uint64_t, m20, : 40), (uint64_t, m21, : 11), (uint64_t, m22, : 39), (uint64_t, m23, : 12), (uint64_t, m24, : 34), (uint64_t, m25, : 13), (uint64_t, m26, : 33), (uint64_t, m27, : 14), (uint64_t, m28, : 32), (uint64_t, m29, : 15), (uint64_t, m30, : 31), (uint64_t, m31, : 16), (uint64_t, m32, : 29), (uint64_t, m33, : 17), (uint64_t, m34, : 25), (uint64_t, m35, : 20), (uint64_t, m36, : 24), (uint64_t, m37, : 23), (char, tail))
static long long bf_uint64_odd0_l0 (void * o) { return (((bf_uint64_odd0*)o)->m0); }
static long long bf_uint64_odd0_l1 (void * o) { return (((bf_uint64_odd0*)o)->m1); }
static long long bf_uint64_odd0_l2 (void * o) { return (((bf_uint64_odd0*)o)->m2); }
static long long bf_uint64_odd0_l3 (void * o) { return (((bf_uint64_odd0*)o)->m3); }
static long long bf_uint64_odd0_l4 (void * o) { return (((bf_uint64_odd0*)o)->m4); }
static long long bf_uint64_odd0_l5 (void * o) { return (((bf_uint64_odd0*)o)->m5); }
static long long bf_uint64_odd0_l6 (void * o) { return (((bf_uint64_odd0*)o)->m6); }
static long long bf_uint64_odd0_l7 (void * o) { return (((bf_uint64_odd0*)o)->m7); }
static long long bf_uint64_odd0_l8 (void * o) { return (((bf_uint64_odd0*)o)->m8); }
static long long bf_uint64_odd0_l9 (void * o) { return (((bf_uint64_odd0*)o)->m9); }
static long long bf_uint64_odd0_l10 (void * o) { return (((bf_uint64_odd0*)o)->m10); }
static long long bf_uint64_odd0_l11 (void * o) { return (((bf_uint64_odd0*)o)->m11); }
static long long bf_uint64_odd0_l12 (void * o) { return (((bf_uint64_odd0*)o)->m12); }
static long long bf_uint64_odd0_l13 (void * o) { return (((bf_uint64_odd0*)o)->m13); }
static long long bf_uint64_odd0_l14 (void * o) { return (((bf_uint64_odd0*)o)->m14); }
static long long bf_uint64_odd0_l15 (void * o) { return (((bf_uint64_odd0*)o)->m15); }
static long long bf_uint64_odd0_l16 (void * o) { return (((bf_uint64_odd0*)o)->m16); }
static long long bf_uint64_odd0_l17 (void * o) { return (((bf_uint64_odd0*)o)->m17); }
static long long bf_uint64_odd0_l18 (void * o) { return (((bf_uint64_odd0*)o)->m18); }
static long long bf_uint64_odd0_l19 (void * o) { return (((bf_uint64_odd0*)o)->m19); }
static long long bf_uint64_odd0_l20 (void * o) { return (((bf_uint64_odd0*)o)->m20); }
static long long bf_uint64_odd0_l21 (void * o) { return (((bf_uint64_odd0*)o)->m21); }
static long long bf_uint64_odd0_l22 (void * o) { return (((bf_uint64_odd0*)o)->m22); }
static long long bf_uint64_odd0_l23 (void * o) { return (((bf_uint64_odd0*)o)->m23); }
static long long bf_uint64_odd0_l24 (void * o) { return (((bf_uint64_odd0*)o)->m24); }
static long long bf_uint64_odd0_l25 (void * o) { return (((bf_uint64_odd0*)o)->m25); }
static long long bf_uint64_odd0_l26 (void * o) { return (((bf_uint64_odd0*)o)->m26); }
static long long bf_uint64_odd0_l27 (void * o) { return (((bf_uint64_odd0*)o)->m27); }
static long long bf_uint64_odd0_l28 (void * o) { return (((bf_uint64_odd0*)o)->m28); }
static long long bf_uint64_odd0_l29 (void * o) { return (((bf_uint64_odd0*)o)->m29); }
static long long bf_uint64_odd0_l30 (void * o) { return (((bf_uint64_odd0*)o)->m30); }
static long long bf_uint64_odd0_l31 (void * o) { return (((bf_uint64_odd0*)o)->m31); }
static long long bf_uint64_odd0_l32 (void * o) { return (((bf_uint64_odd0*)o)->m32); }
static long long bf_uint64_odd0_l33 (void * o) { return (((bf_uint64_odd0*)o)->m33); }
static long long bf_uint64_odd0_l34 (void * o) { return (((bf_uint64_odd0*)o)->m34); }
static long long bf_uint64_odd0_l35 (void * o) { return (((bf_uint64_odd0*)o)->m35); }
static long long bf_uint64_odd0_l36 (void * o) { return (((bf_uint64_odd0*)o)->m36); }
static long long bf_uint64_odd0_l37 (void * o) { return (((bf_uint64_odd0*)o)->m37); }
static const zf_t zf_bf_uint64_odd0[] = { ZRAW (bf_uint64_odd0, head), { .kind = Z_BITS, .name = "m0:3", .get = bf_uint64_odd0_l0 }, { .kind = Z_BITS, .name = "m1:1", .get = bf_uint64_odd0_l1 }, { .kind = Z_BITS, .name = "m2:64", .get = bf_uint64_odd0_l2 }, { .kind = Z_BITS, .name = "m3:2", .get = bf_uint64_odd0_l3 }, { .kind = Z_BITS, .name = "m4:63", .get = bf_uint64_odd0_l4 }, { .kind = Z_BITS, .name = "m5:3", .get = bf_uint64_odd0_l5 }, { .kind = Z_BITS, .name = "m6:62", .get = bf_uint64_odd0_l6 }, { .kind = Z_BITS, .name = "m7:4", .get = bf_uint64_odd0_l7 }, { .kind = Z_BITS, .name = "m8:57", .get = bf_uint64_odd0_l8 }, { .kind = Z_BITS, .name = "m9:5", .get = bf_uint64_odd0_l9 }, { .kind = Z_BITS, .name = "m10:56", .get = bf_uint64_odd0_l10 }, { .kind = Z_BITS, .name = "m11:6", .get = bf_uint64_odd0_l11 }, { .kind = Z_BITS, .name = "m12:55", .get = bf_uint64_odd0_l12 }, { .kind = Z_BITS, .name = "m13:7", .get = bf_uint64_odd0_l13 }, { .kind = Z_BITS, .name = "m14:48", .get = bf_uint64_odd0_l14 }, { .kind = Z_BITS, .name = "m15:8", .get = bf_uint64_odd0_l15 }, { .kind = Z_BITS, .name = "m16:47", .get = bf_uint64_odd0_l16 }, { .kind = Z_BITS, .name = "m17:9", .get = bf_uint64_odd0_l17 }, { .kind = Z_BITS, .name = "m18:41", .get = bf_uint64_odd0_l18 }, { .kind = Z_BITS, .name = "m19:10", .get = bf_uint64_odd0_l19 }, { .kind = Z_BITS, .name = "m20:40", .get = bf_uint64_odd0_l20 }, { .kind = Z_BITS, .name = "m21:11", .get = bf_uint64_odd0_l21 }, { .kind = Z_BITS, .name = "m22:39", .get = bf_uint64_odd0_l22 }, { .kind = Z_BITS, .name = "m23:12", .get = bf_uint64_odd0_l23 }, { .kind = Z_BITS, .name = "m24:34", .get = bf_uint64_odd0_l24 }, { .kind = Z_BITS, .name = "m25:13", .get = bf_uint64_odd0_l25 }, { .kind = Z_BITS, .name = "m26:33", .get = bf_uint64_odd0_l26 }, { .kind = Z_BITS, .name = "m27:14", .get = bf_uint64_odd0_l27 }, { .kind = Z_BITS, .name = "m28:32", .get = bf_uint64_odd0_l28 }, { .kind = Z_BITS, .name = "m29:15", .get = bf_uint64_odd0_l29 }, { .kind = Z_BITS, .name = "m30:31", .get = bf_uint64_odd0_l30 }, { .kind = Z_BITS, .name = "m31:16", .get = bf_uint64_odd0_l31 }, { .kind = Z_BITS, .name = "m32:29", .get = bf_uint64_odd0_l32 }, { .kind = Z_BITS, .name = "m33:17", .get = bf_uint64_odd0_l33 }, { .kind = Z_BITS, .name = "m34:25", .get = bf_uint64_odd0_l34 }, { .kind = Z_BITS, .name = "m35:20", .get = bf_uint64_odd0_l35 }, { .kind = Z_BITS, .name = "m36:24", .get = bf_uint64_odd0_l36 }, { .kind = Z_BITS, .name = "m37:23", .get = bf_uint64_odd0_l37 }, ZRAW (bf_uint64_odd0, tail), ZEND };
static const zt_t zt_bf_uint64_odd0 = { "bf_uint64_odd0", sizeof (bf_uint64_odd0), zf_bf_uint64_odd0 };
Z_OPS (bf_uint64_odd0)
static void set_bf_uint64_odd0 (void * o, int m, mr_uint128_t v) { bf_uint64_odd0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; case 19: x->m19 = v; break; case 20: x->m20 = v; break; case 21: x->m21 = v; break; case 22: x->m22 = v; break; case 23: x->m23 = v; break; case 24: x->m24 = v; break; case 25: x->m25 = v; break; case 26: x->m26 = v; break; case 27: x->m27 = v; break; case 28: x->m28 = v; break; case 29: x->m29 = v; break; case 30: x->m30 = v; break; case 31: x->m31 = v; break; case 32: x->m32 = v; break; case 33: x->m33 = v; break; case 34: x->m34 = v; break; case 35: x->m35 = v; break; case 36: x->m36 = v; break; case 37: x->m37 = v; break; } }
static const int w_bf_uint64_odd0[] = { 3, 1, 64, 2, 63, 3, 62, 4, 57, 5, 56, 6, 55, 7, 48, 8, 47, 9, 41, 10, 40, 11, 39, 12, 34, 13, 33, 14, 32, 15, 31, 16, 29, 17, 25, 20, 24, 23, 0 };
TYPEDEF_STRUCT (bf_int128_up0, (char, head), (mr_int128_t, m0, : 1), (mr_int128_t, m1, : 5), (mr_int128_t, m2, : 8), (mr_int128_t, m3, : 17), (mr_int128_t, m4, : 31), (mr_int128_t, m5, : 33), (mr_int128_t, m6, : 63), (mr_int128_t, m7, : 64), (mr_int128_t, m8, : 65), (mr_int128_t, m9, : 71), (mr_int128_t, m10, : 72), (mr_int128_t, m11, : 80), (mr_int128_t, m12, : 96), (mr_int128_t, m13, : 100), (mr_int128_t, m14, : 120), (mr_int128_t, m15, : 121), (mr_int128_t, m16, : 126), (mr_int128_t, m17, : 127), (mr_int128_t, m18, : 128), (char, tail))
static long long bf_int128_up0_l0 (void * o) { return (((bf_int128_up0*)o)->m0); }
static long long bf_int128_up0_l1 (void * o) { return (((bf_int128_up0*)o)->m1); }
static long long bf_int128_up0_l2 (void * o) { return (((bf_int128_up0*)o)->m2); }
static long long bf_int128_up0_l3 (void * o) { return (((bf_int128_up0*)o)->m3); }
static long long bf_int128_up0_l4 (void * o) { return (((bf_int128_up0*)o)->m4); }
static long long bf_int128_up0_l5 (void * o) { return (((bf_int128_up0*)o)->m5); }
static long long bf_int128_up0_l6 (void * o) { return (((bf_int128_up0*)o)->m6); }
static long long bf_int128_up0_l7 (void * o) { return (((bf_int128_up0*)o)->m7); }
static long long bf_int128_up0_l8 (void * o) { return (((bf_int128_up0*)o)->m8); }
static long long bf_int128_up0_h8 (void * o) { return (((bf_int128_up0*)o)->m8 >> 64); }
static long long bf_int128_up0_l9 (void * o) { return (((bf_int128_up0*)o)->m9); }
static long long bf_int128_up0_h9 (void * o) { return (((bf_int128_up0*)o)->m9 >> 64); }
static long long bf_int128_up0_l10 (void * o) { return (((bf_int128_up0*)o)->m10); }
static long long bf_int128_up0_h10 (void * o) { return (((bf_int128_up0*)o)->m10 >> 64); }
static long long bf_int128_up0_l11 (void * o) { return (((bf_int128_up0*)o)->m11); }
static long long bf_int128_up0_h11 (void * o) { return (((bf_int128_up0*)o)->m11 >> 64); }
static long long bf_int128_up0_l12 (void * o) { return (((bf_int128_up0*)o)->m12); }
static long long bf_int128_up0_h12 (void * o) { return (((bf_int128_up0*)o)->m12 >> 64); }
static long long bf_int128_up0_l13 (void * o) { return (((bf_int128_up0*)o)->m13); }
static long long bf_int128_up0_h13 (void * o) { return (((bf_int128_up0*)o)->m13 >> 64); }
static long long bf_int128_up0_l14 (void * o) { return (((bf_int128_up0*)o)->m14); }
static long long bf_int128_up0_h14 (void * o) { return (((bf_int128_up0*)o)->m14 >> 64); }
static long long bf_int128_up0_l15 (void * o) { return (((bf_int128_up0*)o)->m15); }
static long long bf_int128_up0_h15 (void * o) { return (((bf_int128_up0*)o)->m15 >> 64); }
static long long bf_int128_up0_l16 (void * o) { return (((bf_int128_up0*)o)->m16); }
static long long bf_int128_up0_h16 (void * o) { return (((bf_int128_up0*)o)->m16 >> 64); }
static long long bf_int128_up0_l17 (void * o) { return (((bf_int128_up0*)o)->m17); }
static long long bf_int128_up0_h17 (void * o) { return (((bf_int128_up0*)o)->m17 >> 64); }
static long long bf_int128_up0_l18 (void * o) { return (((bf_int128_up0*)o)->m18); }
static long long bf_int128_up0_h18 (void * o) { return (((bf_int128_up0*)o)->m18 >> 64); }
static const zf_t zf_bf_int128_up0[] = { ZRAW (bf_int128_up0, head), { .kind = Z_BITS, .name = "m0:1", .get = bf_int128_up0_l0 }, { .kind = Z_BITS, .name = "m1:5", .get = bf_int128_up0_l1 }, { .kind = Z_BITS, .name = "m2:8", .get = bf_int128_up0_l2 }, { .kind = Z_BITS, .name = "m3:17", .get = bf_int128_up0_l3 }, { .kind = Z_BITS, .name = "m4:31", .get = bf_int128_up0_l4 }, { .kind = Z_BITS, .name = "m5:33", .get = bf_int128_up0_l5 }, { .kind = Z_BITS, .name = "m6:63", .get = bf_int128_up0_l6 }, { .kind = Z_BITS, .name = "m7:64", .get = bf_int128_up0_l7 }, { .kind = Z_BITS, .name = "m8:65", .get = bf_int128_up0_l8 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h8 }, { .kind = Z_BITS, .name = "m9:71", .get = bf_int128_up0_l9 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h9 }, { .kind = Z_BITS, .name = "m10:72", .get = bf_int128_up0_l10 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h10 }, { .kind = Z_BITS, .name = "m11:80", .get = bf_int128_up0_l11 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h11 }, { .kind = Z_BITS, .name = "m12:96", .get = bf_int128_up0_l12 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h12 }, { .kind = Z_BITS, .name = "m13:100", .get = bf_int128_up0_l13 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h13 }, { .kind = Z_BITS, .name = "m14:120", .get = bf_int128_up0_l14 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h14 }, { .kind = Z_BITS, .name = "m15:121", .get = bf_int128_up0_l15 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h15 }, { .kind = Z_BITS, .name = "m16:126", .get = bf_int128_up0_l16 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h16 }, { .kind = Z_BITS, .name = "m17:127", .get = bf_int128_up0_l17 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h17 }, { .kind = Z_BITS, .name = "m18:128", .get = bf_int128_up0_l18 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_up0_h18 }, ZRAW (bf_int128_up0, tail), ZEND };
static const zt_t zt_bf_int128_up0 = { "bf_int128_up0", sizeof (bf_int128_up0), zf_bf_int128_up0 };
Z_OPS (bf_int128_up0)
static void set_bf_int128_up0 (void * o, int m, mr_uint128_t v) { bf_int128_up0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; } }
static const int w_bf_int128_up0[] = { 1, 5, 8, 17, 31, 33, 63, 64, 65, 71, 72, 80, 96, 100, 120, 121, 126, 127, 128, 0 };
TYPEDEF_STRUCT (bf_int128_down0, (char, head), (mr_int128_t, m0, : 128), (mr_int128_t, m1, : 127), (mr_int128_t, m2, : 126), (mr_int128_t, m3, : 121), (mr_int128_t, m4, : 120), (mr_int128_t, m5, : 100), (mr_int128_t, m6, : 96), (mr_int128_t, m7, : 80), (mr_int128_t, m8, : 72), (mr_int128_t, m9, : 71), (mr_int128_t, m10, : 65), (mr_int128_t, m11, : 64), (mr_int128_t, m12, : 63), (mr_int128_t, m13, : 33), (mr_int128_t, m14, : 31), (mr_int128_t, m15, : 17), (mr_int128_t, m16, : 8), (mr_int128_t, m17, : 5), (mr_int128_t, m18, : 1), (char, tail))
static long long bf_int128_down0_l0 (void * o) { return (((bf_int128_down0*)o)->m0); }
static long long bf_int128_down0_h0 (void * o) { return (((bf_int128_down0*)o)->m0 >> 64); }
static long long bf_int128_down0_l1 (void * o) { return (((bf_int128_down0*)o)->m1); }
static long long bf_int128_down0_h1 (void * o) { return (((bf_int128_down0*)o)->m1 >> 64); }
static long long bf_int128_down0_l2 (void * o) { return (((bf_int128_down0*)o)->m2); }
static long long bf_int128_down0_h2 (void * o) { return (((bf_int128_down0*)o)->m2 >> 64); }
static long long bf_int128_down0_l3 (void * o) { return (((bf_int128_down0*)o)->m3); }
static long long bf_int128_down0_h3 (void * o) { return (((bf_int128_down0*)o)->m3 >> 64); }
static long long bf_int128_down0_l4 (void * o) { return (((bf_int128_down0*)o)->m4); }
static long long bf_int128_down0_h4 (void * o) { return (((bf_int128_down0*)o)->m4 >> 64); }
static long long bf_int128_down0_l5 (void * o) { return (((bf_int128_down0*)o)->m5); }
static long long bf_int128_down0_h5 (void * o) { return (((bf_int128_down0*)o)->m5 >> 64); }
static long long bf_int128_down0_l6 (void * o) { return (((bf_int128_down0*)o)->m6); }
static long long bf_int128_down0_h6 (void * o) { return (((bf_int128_down0*)o)->m6 >> 64); }
static long long bf_int128_down0_l7 (void * o) { return (((bf_int128_down0*)o)->m7); }
static long long bf_int128_down0_h7 (void * o) { return (((bf_int128_down0*)o)->m7 >> 64); }
static long long bf_int128_down0_l8 (void * o) { return (((bf_int128_down0*)o)->m8); }
static long long bf_int128_down0_h8 (void * o) { return (((bf_int128_down0*)o)->m8 >> 64); }
static long long bf_int128_down0_l9 (void * o) { return (((bf_int128_down0*)o)->m9); }
static long long bf_int128_down0_h9 (void * o) { return (((bf_int128_down0*)o)->m9 >> 64); }
static long long bf_int128_down0_l10 (void * o) { return (((bf_int128_down0*)o)->m10); }
static long long bf_int128_down0_h10 (void * o) { return (((bf_int128_down0*)o)->m10 >> 64); }
static long long bf_int128_down0_l11 (void * o) { return (((bf_int128_down0*)o)->m11); }
static long long bf_int128_down0_l12 (void * o) { return (((bf_int128_down0*)o)->m12); }
static long long bf_int128_down0_l13 (void * o) { return (((bf_int128_down0*)o)->m13); }
static long long bf_int128_down0_l14 (void * o) { return (((bf_int128_down0*)o)->m14); }
static long long bf_int128_down0_l15 (void * o) { return (((bf_int128_down0*)o)->m15); }
static long long bf_int128_down0_l16 (void * o) { return (((bf_int128_down0*)o)->m16); }
static long long bf_int128_down0_l17 (void * o) { return (((bf_int128_down0*)o)->m17); }
static long long bf_int128_down0_l18 (void * o) { return (((bf_int128_down0*)o)->m18); }
static const zf_t zf_bf_int128_down0[] = { ZRAW (bf_int128_down0, head), { .kind = Z_BITS, .name = "m0:128", .get = bf_int128_down0_l0 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h0 }, { .kind = Z_BITS, .name = "m1:127", .get = bf_int128_down0_l1 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h1 }, { .kind = Z_BITS, .name = "m2:126", .get = bf_int128_down0_l2 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h2 }, { .kind = Z_BITS, .name = "m3:121", .get = bf_int128_down0_l3 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h3 }, { .kind = Z_BITS, .name = "m4:120", .get = bf_int128_down0_l4 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h4 }, { .kind = Z_BITS, .name = "m5:100", .get = bf_int128_down0_l5 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h5 }, { .kind = Z_BITS, .name = "m6:96", .get = bf_int128_down0_l6 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h6 }, { .kind = Z_BITS, .name = "m7:80", .get = bf_int128_down0_l7 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h7 }, { .kind = Z_BITS, .name = "m8:72", .get = bf_int128_down0_l8 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h8 }, { .kind = Z_BITS, .name = "m9:71", .get = bf_int128_down0_l9 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h9 }, { .kind = Z_BITS, .name = "m10:65", .get = bf_int128_down0_l10 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_down0_h10 }, { .kind = Z_BITS, .name = "m11:64", .get = bf_int128_down0_l11 }, { .kind = Z_BITS, .name = "m12:63", .get = bf_int128_down0_l12 }, { .kind = Z_BITS, .name = "m13:33", .get = bf_int128_down0_l13 }, { .kind = Z_BITS, .name = "m14:31", .get = bf_int128_down0_l14 }, { .kind = Z_BITS, .name = "m15:17", .get = bf_int128_down0_l15 }, { .kind = Z_BITS, .name = "m16:8", .get = bf_int128_down0_l16 }, { .kind = Z_BITS, .name = "m17:5", .get = bf_int128_down0_l17 }, { .kind = Z_BITS, .name = "m18:1", .get = bf_int128_down0_l18 }, ZRAW (bf_int128_down0, tail), ZEND };
static const zt_t zt_bf_int128_down0 = { "bf_int128_down0", sizeof (bf_int128_down0), zf_bf_int128_down0 };
Z_OPS (bf_int128_down0)
static void set_bf_int128_down0 (void * o, int m, mr_uint128_t v) { bf_int128_down0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; } }
static const int w_bf_int128_down0[] = { 128, 127, 126, 121, 120, 100, 96, 80, 72, 71, 65, 64, 63, 33, 31, 17, 8, 5, 1, 0 };
TYPEDEF_STRUCT (bf_int128_odd0, (char, head), (mr_int128_t, m0, : 3), (mr_int128_t, m1, : 1), (mr_int128_t, m2, : 128), (mr_int128_t, m3, : 5), (mr_int128_t, m4, : 127), (mr_int128_t, m5, : 8), (mr_int128_t, m6, : 126), (mr_int128_t, m7, : 17), (mr_int128_t, m8, : 121), (mr_int128_t, m9, : 31), (mr_int128_t, m10, : 120), (mr_int128_t, m11, : 33), (mr_int128_t, m12, : 100), (mr_int128_t, m13, : 63), (mr_int128_t, m14, : 96), (mr_int128_t, m15, : 64), (mr_int128_t, m16, : 80), (mr_int128_t, m17, : 65), (mr_int128_t, m18, : 72), (mr_int128_t, m19, : 71), (char, tail))
static long long bf_int128_odd0_l0 (void * o) { return (((bf_int128_odd0*)o)->m0); }
static long long bf_int128_odd0_l1 (void * o) { return (((bf_int128_odd0*)o)->m1); }
static long long bf_int128_odd0_l2 (void * o) { return (((bf_int128_odd0*)o)->m2); }
static long long bf_int128_odd0_h2 (void * o) { return (((bf_int128_odd0*)o)->m2 >> 64); }
static long long bf_int128_odd0_l3 (void * o) { return (((bf_int128_odd0*)o)->m3); }
static long long bf_int128_odd0_l4 (void * o) { return (((bf_int128_odd0*)o)->m4); }
static long long bf_int128_odd0_h4 (void * o) { return (((bf_int128_odd0*)o)->m4 >> 64); }
static long long bf_int128_odd0_l5 (void * o) { return (((bf_int128_odd0*)o)->m5); }
static long long bf_int128_odd0_l6 (void * o) { return (((bf_int128_odd0*)o)->m6); }
static long long bf_int128_odd0_h6 (void * o) { return (((bf_int128_odd0*)o)->m6 >> 64); }
static long long bf_int128_odd0_l7 (void * o) { return (((bf_int128_odd0*)o)->m7); }
static long long bf_int128_odd0_l8 (void * o) { return (((bf_int128_odd0*)o)->m8); }
static long long bf_int128_odd0_h8 (void * o) { return (((bf_int128_odd0*)o)->m8 >> 64); }
static long long bf_int128_odd0_l9 (void * o) { return (((bf_int128_odd0*)o)->m9); }
static long long bf_int128_odd0_l10 (void * o) { return (((bf_int128_odd0*)o)->m10); }
static long long bf_int128_odd0_h10 (void * o) { return (((bf_int128_odd0*)o)->m10 >> 64); }
static long long bf_int128_odd0_l11 (void * o) { return (((bf_int128_odd0*)o)->m11); }
static long long bf_int128_odd0_l12 (void * o) { return (((bf_int128_odd0*)o)->m12); }
static long long bf_int128_odd0_h12 (void * o) { return (((bf_int128_odd0*)o)->m12 >> 64); }
static long long bf_int128_odd0_l13 (void * o) { return (((bf_int128_odd0*)o)->m13); }
static long long bf_int128_odd0_l14 (void * o) { return (((bf_int128_odd0*)o)->m14); }
static long long bf_int128_odd0_h14 (void * o) { return (((bf_int128_odd0*)o)->m14 >> 64); }
static long long bf_int128_odd0_l15 (void * o) { return (((bf_int128_odd0*)o)->m15); }
static long long bf_int128_odd0_l16 (void * o) { return (((bf_int128_odd0*)o)->m16); }
static long long bf_int128_odd0_h16 (void * o) { return (((bf_int128_odd0*)o)->m16 >> 64); }
static long long bf_int128_odd0_l17 (void * o) { return (((bf_int128_odd0*)o)->m17); }
static long long bf_int128_odd0_h17 (void * o) { return (((bf_int128_odd0*)o)->m17 >> 64); }
static long long bf_int128_odd0_l18 (void * o) { return (((bf_int128_odd0*)o)->m18); }
static long long bf_int128_odd0_h18 (void * o) { return (((bf_int128_odd0*)o)->m18 >> 64); }
static long long bf_int128_odd0_l19 (void * o) { return (((bf_int128_odd0*)o)->m19); }
static long long bf_int128_odd0_h19 (void * o) { return (((bf_int128_odd0*)o)->m19 >> 64); }
static const zf_t zf_bf_int128_odd0[] = { ZRAW (bf_int128_odd0, head), { .kind = Z_BITS, .name = "m0:3", .get = bf_int128_odd0_l0 }, { .kind = Z_BITS, .name = "m1:1", .get = bf_int128_odd0_l1 }, { .kind = Z_BITS, .name = "m2:128", .get = bf_int128_odd0_l2 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h2 }, { .kind = Z_BITS, .name = "m3:5", .get = bf_int128_odd0_l3 }, { .kind = Z_BITS, .name = "m4:127", .get = bf_int128_odd0_l4 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h4 }, { .kind = Z_BITS, .name = "m5:8", .get = bf_int128_odd0_l5 }, { .kind = Z_BITS, .name = "m6:126", .get = bf_int128_odd0_l6 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h6 }, { .kind = Z_BITS, .name = "m7:17", .get = bf_int128_odd0_l7 }, { .kind = Z_BITS, .name = "m8:121", .get = bf_int128_odd0_l8 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h8 }, { .kind = Z_BITS, .name = "m9:31", .get = bf_int128_odd0_l9 }, { .kind = Z_BITS, .name = "m10:120", .get = bf_int128_odd0_l10 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h10 }, { .kind = Z_BITS, .name = "m11:33", .get = bf_int128_odd0_l11 }, { .kind = Z_BITS, .name = "m12:100", .get = bf_int128_odd0_l12 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h12 }, { .kind = Z_BITS, .name = "m13:63", .get = bf_int128_odd0_l13 }, { .kind = Z_BITS, .name = "m14:96", .get = bf_int128_odd0_l14 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h14 }, { .kind = Z_BITS, .name = "m15:64", .get = bf_int128_odd0_l15 }, { .kind = Z_BITS, .name = "m16:80", .get = bf_int128_odd0_l16 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h16 }, { .kind = Z_BITS, .name = "m17:65", .get = bf_int128_odd0_l17 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h17 }, { .kind = Z_BITS, .name = "m18:72", .get = bf_int128_odd0_l18 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h18 }, { .kind = Z_BITS, .name = "m19:71", .get = bf_int128_odd0_l19 }, { .kind = Z_BITS, .name = "hi", .get = bf_int128_odd0_h19 }, ZRAW (bf_int128_odd0, tail), ZEND };
static const zt_t zt_bf_int128_odd0 = { "bf_int128_odd0", sizeof (bf_int128_odd0), zf_bf_int128_odd0 };
Z_OPS (bf_int128_odd0)
static void set_bf_int128_odd0 (void * o, int m, mr_uint128_t v) { bf_int128_odd0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; case 19: x->m19 = v; break; } }
static const int w_bf_int128_odd0[] = { 3, 1, 128, 5, 127, 8, 126, 17, 121, 31, 120, 33, 100, 63, 96, 64, 80, 65, 72, 71, 0 };
TYPEDEF_STRUCT (bf_uint128_up0, (char, head), (mr_uint128_t, m0, : 1), (mr_uint128_t, m1, : 5), (mr_uint128_t, m2, : 8), (mr_uint128_t, m3, : 17), (mr_uint128_t, m4, : 31), (mr_uint128_t, m5, : 33), (mr_uint128_t, m6, : 63), (mr_uint128_t, m7, : 64), (mr_uint128_t, m8, : 65), (mr_uint128_t, m9, : 71), (mr_uint128_t, m10, : 72), (mr_uint128_t, m11, : 80), (mr_uint128_t, m12, : 96), (mr_uint128_t, m13, : 100), (mr_uint128_t, m14, : 120), (mr_uint128_t, m15, : 121), (mr_uint128_t, m16, : 126), (mr_uint128_t, m17, : 127), (mr_uint128_t, m18, : 128), (char, tail))
static long long bf_uint128_up0_l0 (void * o) { return (((bf_uint128_up0*)o)->m0); }
static long long bf_uint128_up0_l1 (void * o) { return (((bf_uint128_up0*)o)->m1); }
static long long bf_uint128_up0_l2 (void * o) { return (((bf_uint128_up0*)o)->m2); }
static long long bf_uint128_up0_l3 (void * o) { return (((bf_uint128_up0*)o)->m3); }
static long long bf_uint128_up0_l4 (void * o) { return (((bf_uint128_up0*)o)->m4); }
static long long bf_uint128_up0_l5 (void * o) { return (((bf_uint128_up0*)o)->m5); }
static long long bf_uint128_up0_l6 (void * o) { return (((bf_uint128_up0*)o)->m6); }
static long long bf_uint128_up0_l7 (void * o) { return (((bf_uint128_up0*)o)->m7); }
static long long bf_uint128_up0_l8 (void * o) { return (((bf_uint128_up0*)o)->m8); }
static long long bf_uint128_up0_h8 (void * o) { return (((bf_uint128_up0*)o)->m8 >> 64); }
static long long bf_uint128_up0_l9 (void * o) { return (((bf_uint128_up0*)o)->m9); }
static long long bf_uint128_up0_h9 (void * o) { return (((bf_uint128_up0*)o)->m9 >> 64); }
static long long bf_uint128_up0_l10 (void * o) { return (((bf_uint128_up0*)o)->m10); }
static long long bf_uint128_up0_h10 (void * o) { return (((bf_uint128_up0*)o)->m10 >> 64); }
static long long bf_uint128_up0_l11 (void * o) { return (((bf_uint128_up0*)o)->m11); }
static long long bf_uint128_up0_h11 (void * o) { return (((bf_uint128_up0*)o)->m11 >> 64); }
static long long bf_uint128_up0_l12 (void * o) { return (((bf_uint128_up0*)o)->m12); }
static long long bf_uint128_up0_h12 (void * o) { return (((bf_uint128_up0*)o)->m12 >> 64); }
static long long bf_uint128_up0_l13 (void * o) { return (((bf_uint128_up0*)o)->m13); }
static long long bf_uint128_up0_h13 (void * o) { return (((bf_uint128_up0*)o)->m13 >> 64); }
static long long bf_uint128_up0_l14 (void * o) { return (((bf_uint128_up0*)o)->m14); }
static long long bf_uint128_up0_h14 (void * o) { return (((bf_uint128_up0*)o)->m14 >> 64); }
static long long bf_uint128_up0_l15 (void * o) { return (((bf_uint128_up0*)o)->m15); }
static long long bf_uint128_up0_h15 (void * o) { return (((bf_uint128_up0*)o)->m15 >> 64); }
static long long bf_uint128_up0_l16 (void * o) { return (((bf_uint128_up0*)o)->m16); }
static long long bf_uint128_up0_h16 (void * o) { return (((bf_uint128_up0*)o)->m16 >> 64); }
static long long bf_uint128_up0_l17 (void * o) { return (((bf_uint128_up0*)o)->m17); }
static long long bf_uint128_up0_h17 (void * o) { return (((bf_uint128_up0*)o)->m17 >> 64); }
static long long bf_uint128_up0_l18 (void * o) { return (((bf_uint128_up0*)o)->m18); }
static long long bf_uint128_up0_h18 (void * o) { return (((bf_uint128_up0*)o)->m18 >> 64); }
static const zf_t zf_bf_uint128_up0[] = { ZRAW (bf_uint128_up0, head), { .kind = Z_BITS, .name = "m0:1", .get = bf_uint128_up0_l0 }, { .kind = Z_BITS, .name = "m1:5", .get = bf_uint128_up0_l1 }, { .kind = Z_BITS, .name = "m2:8", .get = bf_uint128_up0_l2 }, { .kind = Z_BITS, .name = "m3:17", .get = bf_uint128_up0_l3 }, { .kind = Z_BITS, .name = "m4:31", .get = bf_uint128_up0_l4 }, { .kind = Z_BITS, .name = "m5:33", .get = bf_uint128_up0_l5 }, { .kind = Z_BITS, .name = "m6:63", .get = bf_uint128_up0_l6 }, { .kind = Z_BITS, .name = "m7:64", .get = bf_uint128_up0_l7 }, { .kind = Z_BITS, .name = "m8:65", .get = bf_uint128_up0_l8 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h8 }, { .kind = Z_BITS, .name = "m9:71", .get = bf_uint128_up0_l9 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h9 }, { .kind = Z_BITS, .name = "m10:72", .get = bf_uint128_up0_l10 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h10 }, { .kind = Z_BITS, .name = "m11:80", .get = bf_uint128_up0_l11 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h11 }, { .kind = Z_BITS, .name = "m12:96", .get = bf_uint128_up0_l12 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h12 }, { .kind = Z_BITS, .name = "m13:100", .get = bf_uint128_up0_l13 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h13 }, { .kind = Z_BITS, .name = "m14:120", .get = bf_uint128_up0_l14 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h14 }, { .kind = Z_BITS, .name = "m15:121", .get = bf_uint128_up0_l15 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h15 }, { .kind = Z_BITS, .name = "m16:126", .get = bf_uint128_up0_l16 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h16 }, { .kind = Z_BITS, .name = "m17:127", .get = bf_uint128_up0_l17 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h17 }, { .kind = Z_BITS, .name = "m18:128", .get = bf_uint128_up0_l18 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_up0_h18 }, ZRAW (bf_uint128_up0, tail), ZEND };
static const zt_t zt_bf_uint128_up0 = { "bf_uint128_up0", sizeof (bf_uint128_up0), zf_bf_uint128_up0 };
Z_OPS (bf_uint128_up0)
static void set_bf_uint128_up0 (void * o, int m, mr_uint128_t v) { bf_uint128_up0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; } }
static const int w_bf_uint128_up0[] = { 1, 5, 8, 17, 31, 33, 63, 64, 65, 71, 72, 80, 96, 100, 120, 121, 126, 127, 128, 0 };
TYPEDEF_STRUCT (bf_uint128_down0, (char, head), (mr_uint128_t, m0, : 128), (mr_uint128_t, m1, : 127), (mr_uint128_t, m2, : 126), (mr_uint128_t, m3, : 121), (mr_uint128_t, m4, : 120), (mr_uint128_t, m5, : 100), (mr_uint128_t, m6, : 96), (mr_uint128_t, m7, : 80), (mr_uint128_t, m8, : 72), (mr_uint128_t, m9, : 71), (mr_uint128_t, m10, : 65), (mr_uint128_t, m11, : 64), (mr_uint128_t, m12, : 63), (mr_uint128_t, m13, : 33), (mr_uint128_t, m14, : 31), (mr_uint128_t, m15, : 17), (mr_uint128_t, m16, : 8), (mr_uint128_t, m17, : 5), (mr_uint128_t, m18, : 1), (char, tail))
static long long bf_uint128_down0_l0 (void * o) { return (((bf_uint128_down0*)o)->m0); }
static long long bf_uint128_down0_h0 (void * o) { return (((bf_uint128_down0*)o)->m0 >> 64); }
static long long bf_uint128_down0_l1 (void * o) { return (((bf_uint128_down0*)o)->m1); }
static long long bf_uint128_down0_h1 (void * o) { return (((bf_uint128_down0*)o)->m1 >> 64); }
static long long bf_uint128_down0_l2 (void * o) { return (((bf_uint128_down0*)o)->m2); }
static long long bf_uint128_down0_h2 (void * o) { return (((bf_uint128_down0*)o)->m2 >> 64); }
static long long bf_uint128_down0_l3 (void * o) { return (((bf_uint128_down0*)o)->m3); }
static long long bf_uint128_down0_h3 (void * o) { return (((bf_uint128_down0*)o)->m3 >> 64); }
static long long bf_uint128_down0_l4 (void * o) { return (((bf_uint128_down0*)o)->m4); }
static long long bf_uint128_down0_h4 (void * o) { return (((bf_uint128_down0*)o)->m4 >> 64); }
static long long bf_uint128_down0_l5 (void * o) { return (((bf_uint128_down0*)o)->m5); }
static long long bf_uint128_down0_h5 (void * o) { return (((bf_uint128_down0*)o)->m5 >> 64); }
static long long bf_uint128_down0_l6 (void * o) { return (((bf_uint128_down0*)o)->m6); }
static long long bf_uint128_down0_h6 (void * o) { return (((bf_uint128_down0*)o)->m6 >> 64); }
static long long bf_uint128_down0_l7 (void * o) { return (((bf_uint128_down0*)o)->m7); }
static long long bf_uint128_down0_h7 (void * o) { return (((bf_uint128_down0*)o)->m7 >> 64); }
static long long bf_uint128_down0_l8 (void * o) { return (((bf_uint128_down0*)o)->m8); }
static long long bf_uint128_down0_h8 (void * o) { return (((bf_uint128_down0*)o)->m8 >> 64); }
static long long bf_uint128_down0_l9 (void * o) { return (((bf_uint128_down0*)o)->m9); }
static long long bf_uint128_down0_h9 (void * o) { return (((bf_uint128_down0*)o)->m9 >> 64); }
static long long bf_uint128_down0_l10 (void * o) { return (((bf_uint128_down0*)o)->m10); }
static long long bf_uint128_down0_h10 (void * o) { return (((bf_uint128_down0*)o)->m10 >> 64); }
static long long bf_uint128_down0_l11 (void * o) { return (((bf_uint128_down0*)o)->m11); }
static long long bf_uint128_down0_l12 (void * o) { return (((bf_uint128_down0*)o)->m12); }
static long long bf_uint128_down0_l13 (void * o) { return (((bf_uint128_down0*)o)->m13); }
static long long bf_uint128_down0_l14 (void * o) { return (((bf_uint128_down0*)o)->m14); }
static long long bf_uint128_down0_l15 (void * o) { return (((bf_uint128_down0*)o)->m15); }
static long long bf_uint128_down0_l16 (void * o) { return (((bf_uint128_down0*)o)->m16); }
static long long bf_uint128_down0_l17 (void * o) { return (((bf_uint128_down0*)o)->m17); }
static long long bf_uint128_down0_l18 (void * o) { return (((bf_uint128_down0*)o)->m18); }
static const zf_t zf_bf_uint128_down0[] = { ZRAW (bf_uint128_down0, head), { .kind = Z_BITS, .name = "m0:128", .get = bf_uint128_down0_l0 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h0 }, { .kind = Z_BITS, .name = "m1:127", .get = bf_uint128_down0_l1 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h1 }, { .kind = Z_BITS, .name = "m2:126", .get = bf_uint128_down0_l2 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h2 }, { .kind = Z_BITS, .name = "m3:121", .get = bf_uint128_down0_l3 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h3 }, { .kind = Z_BITS, .name = "m4:120", .get = bf_uint128_down0_l4 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h4 }, { .kind = Z_BITS, .name = "m5:100", .get = bf_uint128_down0_l5 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h5 }, { .kind = Z_BITS, .name = "m6:96", .get = bf_uint128_down0_l6 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h6 }, { .kind = Z_BITS, .name = "m7:80", .get = bf_uint128_down0_l7 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h7 }, { .kind = Z_BITS, .name = "m8:72", .get = bf_uint128_down0_l8 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h8 }, { .kind = Z_BITS, .name = "m9:71", .get = bf_uint128_down0_l9 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h9 }, { .kind = Z_BITS, .name = "m10:65", .get = bf_uint128_down0_l10 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_down0_h10 }, { .kind = Z_BITS, .name = "m11:64", .get = bf_uint128_down0_l11 }, { .kind = Z_BITS, .name = "m12:63", .get = bf_uint128_down0_l12 }, { .kind = Z_BITS, .name = "m13:33", .get = bf_uint128_down0_l13 }, { .kind = Z_BITS, .name = "m14:31", .get = bf_uint128_down0_l14 }, { .kind = Z_BITS, .name = "m15:17", .get = bf_uint128_down0_l15 }, { .kind = Z_BITS, .name = "m16:8", .get = bf_uint128_down0_l16 }, { .kind = Z_BITS, .name = "m17:5", .get = bf_uint128_down0_l17 }, { .kind = Z_BITS, .name = "m18:1", .get = bf_uint128_down0_l18 }, ZRAW (bf_uint128_down0, tail), ZEND };
static const zt_t zt_bf_uint128_down0 = { "bf_uint128_down0", sizeof (bf_uint128_down0), zf_bf_uint128_down0 };
Z_OPS (bf_uint128_down0)
static void set_bf_uint128_down0 (void * o, int m, mr_uint128_t v) { bf_uint128_down0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; } }
static const int w_bf_uint128_down0[] = { 128, 127, 126, 121, 120, 100, 96, 80, 72, 71, 65, 64, 63, 33, 31, 17, 8, 5, 1, 0 };
TYPEDEF_STRUCT (bf_uint128_odd0, (char, head), (mr_uint128_t, m0, : 3), (mr_uint128_t, m1, : 1), (mr_uint128_t, m2, : 128), (mr_uint128_t, m3, : 5), (mr_uint128_t, m4, : 127), (mr_uint128_t, m5, : 8), (mr_uint128_t, m6, : 126), (mr_uint128_t, m7, : 17), (mr_uint128_t, m8, : 121), (mr_uint128_t, m9, : 31), (mr_uint128_t, m10, : 120), (mr_uint128_t, m11, : 33), (mr_uint128_t, m12, : 100), (mr_uint128_t, m13, : 63), (mr_uint128_t, m14, : 96), (mr_uint128_t, m15, : 64), (mr_uint128_t, m16, : 80), (mr_uint128_t, m17, : 65), (mr_uint128_t, m18, : 72), (mr_uint128_t, m19, : 71), (char, tail))
static long long bf_uint128_odd0_l0 (void * o) { return (((bf_uint128_odd0*)o)->m0); }
static long long bf_uint128_odd0_l1 (void * o) { return (((bf_uint128_odd0*)o)->m1); }
static long long bf_uint128_odd0_l2 (void * o) { return (((bf_uint128_odd0*)o)->m2); }
static long long bf_uint128_odd0_h2 (void * o) { return (((bf_uint128_odd0*)o)->m2 >> 64); }
static long long bf_uint128_odd0_l3 (void * o) { return (((bf_uint128_odd0*)o)->m3); }
static long long bf_uint128_odd0_l4 (void * o) { return (((bf_uint128_odd0*)o)->m4); }
static long long bf_uint128_odd0_h4 (void * o) { return (((bf_uint128_odd0*)o)->m4 >> 64); }
static long long bf_uint128_odd0_l5 (void * o) { return (((bf_uint128_odd0*)o)->m5); }
static long long bf_uint128_odd0_l6 (void * o) { return (((bf_uint128_odd0*)o)->m6); }
static long long bf_uint128_odd0_h6 (void * o) { return (((bf_uint128_odd0*)o)->m6 >> 64); }
static long long bf_uint128_odd0_l7 (void * o) { return (((bf_uint128_odd0*)o)->m7); }
static long long bf_uint128_odd0_l8 (void * o) { return (((bf_uint128_odd0*)o)->m8); }
static long long bf_uint128_odd0_h8 (void * o) { return (((bf_uint128_odd0*)o)->m8 >> 64); }
static long long bf_uint128_odd0_l9 (void * o) { return (((bf_uint128_odd0*)o)->m9); }
static long long bf_uint128_odd0_l10 (void * o) { return (((bf_uint128_odd0*)o)->m10); }
static long long bf_uint128_odd0_h10 (void * o) { return (((bf_uint128_odd0*)o)->m10 >> 64); }
static long long bf_uint128_odd0_l11 (void * o) { return (((bf_uint128_odd0*)o)->m11); }
static long long bf_uint128_odd0_l12 (void * o) { return (((bf_uint128_odd0*)o)->m12); }
static long long bf_uint128_odd0_h12 (void * o) { return (((bf_uint128_odd0*)o)->m12 >> 64); }
static long long bf_uint128_odd0_l13 (void * o) { return (((bf_uint128_odd0*)o)->m13); }
static long long bf_uint128_odd0_l14 (void * o) { return (((bf_uint128_odd0*)o)->m14); }
static long long bf_uint128_odd0_h14 (void * o) { return (((bf_uint128_odd0*)o)->m14 >> 64); }
static long long bf_uint128_odd0_l15 (void * o) { return (((bf_uint128_odd0*)o)->m15); }
static long long bf_uint128_odd0_l16 (void * o) { return (((bf_uint128_odd0*)o)->m16); }
static long long bf_uint128_odd0_h16 (void * o) { return (((bf_uint128_odd0*)o)->m16 >> 64); }
static long long bf_uint128_odd0_l17 (void * o) { return (((bf_uint128_odd0*)o)->m17); }
static long long bf_uint128_odd0_h17 (void * o) { return (((bf_uint128_odd0*)o)->m17 >> 64); }
static long long bf_uint128_odd0_l18 (void * o) { return (((bf_uint128_odd0*)o)->m18); }
static long long bf_uint128_odd0_h18 (void * o) { return (((bf_uint128_odd0*)o)->m18 >> 64); }
static long long bf_uint128_odd0_l19 (void * o) { return (((bf_uint128_odd0*)o)->m19); }
static long long bf_uint128_odd0_h19 (void * o) { return (((bf_uint128_odd0*)o)->m19 >> 64); }
static const zf_t zf_bf_uint128_odd0[] = { ZRAW (bf_uint128_odd0, head), { .kind = Z_BITS, .name = "m0:3", .get = bf_uint128_odd0_l0 }, { .kind = Z_BITS, .name = "m1:1", .get = bf_uint128_odd0_l1 }, { .kind = Z_BITS, .name = "m2:128", .get = bf_uint128_odd0_l2 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h2 }, { .kind = Z_BITS, .name = "m3:5", .get = bf_uint128_odd0_l3 }, { .kind = Z_BITS, .name = "m4:127", .get = bf_uint128_odd0_l4 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h4 }, { .kind = Z_BITS, .name = "m5:8", .get = bf_uint128_odd0_l5 }, { .kind = Z_BITS, .name = "m6:126", .get = bf_uint128_odd0_l6 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h6 }, { .kind = Z_BITS, .name = "m7:17", .get = bf_uint128_odd0_l7 }, { .kind = Z_BITS, .name = "m8:121", .get = bf_uint128_odd0_l8 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h8 }, { .kind = Z_BITS, .name = "m9:31", .get = bf_uint128_odd0_l9 }, { .kind = Z_BITS, .name = "m10:120", .get = bf_uint128_odd0_l10 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h10 }, { .kind = Z_BITS, .name = "m11:33", .get = bf_uint128_odd0_l11 }, { .kind = Z_BITS, .name = "m12:100", .get = bf_uint128_odd0_l12 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h12 }, { .kind = Z_BITS, .name = "m13:63", .get = bf_uint128_odd0_l13 }, { .kind = Z_BITS, .name = "m14:96", .get = bf_uint128_odd0_l14 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h14 }, { .kind = Z_BITS, .name = "m15:64", .get = bf_uint128_odd0_l15 }, { .kind = Z_BITS, .name = "m16:80", .get = bf_uint128_odd0_l16 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h16 }, { .kind = Z_BITS, .name = "m17:65", .get = bf_uint128_odd0_l17 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h17 }, { .kind = Z_BITS, .name = "m18:72", .get = bf_uint128_odd0_l18 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h18 }, { .kind = Z_BITS, .name = "m19:71", .get = bf_uint128_odd0_l19 }, { .kind = Z_BITS, .name = "hi", .get = bf_uint128_odd0_h19 }, ZRAW (bf_uint128_odd0, tail), ZEND };
static const zt_t zt_bf_uint128_odd0 = { "bf_uint128_odd0", sizeof (bf_uint128_odd0), zf_bf_uint128_odd0 };
Z_OPS (bf_uint128_odd0)
static void set_bf_uint128_odd0 (void * o, int m, mr_uint128_t v) { bf_uint128_odd0 * x = o; switch (m) { case 0: x->m0 = v; break; case 1: x->m1 = v; break; case 2: x->m2 = v; break; case 3: x->m3 = v; break; case 4: x->m4 = v; break; case 5: x->m5 = v; break; case 6: x->m6 = v; break; case 7: x->m7 = v; break; case 8: x->m8 = v; break; case 9: x->m9 = v; break; case 10: x->m10 = v; break; case 11: x->m11 = v; break; case 12: x->m12 = v; break; case 13: x->m13 = v; break; case 14: x->m14 = v; break; case 15: x->m15 = v; break; case 16: x->m16 = v; break; case 17: x->m17 = v; break; case 18: x->m18 = v; break; case 19: x->m19 = v; break; } }
static const int w_bf_uint128_odd0[] = { 3, 1, 128, 5, 127, 8, 126, 17, 121, 31, 120, 33, 100, 63, 96, 64, 80, 65, 72, 71, 0 };
static const struct { const z_ops_t * ops; const zt_t * zt; void (*set) (void *, int, mr_uint128_t); const int * width; } bf_all[] = {
  { &ops_bf_int8_up0, &zt_bf_int8_up0, set_bf_int8_up0, w_bf_int8_up0 },
  { &ops_bf_int8_down0, &zt_bf_int8_down0, set_bf_int8_down0, w_bf_int8_down0 },
  { &ops_bf_int8_odd0, &zt_bf_int8_odd0, set_bf_int8_odd0, w_bf_int8_odd0 },
  { &ops_bf_uint8_up0, &zt_bf_uint8_up0, set_bf_uint8_up0, w_bf_uint8_up0 },
  { &ops_bf_uint8_down0, &zt_bf_uint8_down0, set_bf_uint8_down0, w_bf_uint8_down0 },
  { &ops_bf_uint8_odd0, &zt_bf_uint8_odd0, set_bf_uint8_odd0, w_bf_uint8_odd0 },
  { &ops_bf_int16_up0, &zt_bf_int16_up0, set_bf_int16_up0, w_bf_int16_up0 },
  { &ops_bf_int16_down0, &zt_bf_int16_down0, set_bf_int16_down0, w_bf_int16_down0 },
  { &ops_bf_int16_odd0, &zt_bf_int16_odd0, set_bf_int16_odd0, w_bf_int16_odd0 },
  { &ops_bf_uint16_up0, &zt_bf_uint16_up0, set_bf_uint16_up0, w_bf_uint16_up0 },
  { &ops_bf_uint16_down0, &zt_bf_uint16_down0, set_bf_uint16_down0, w_bf_uint16_down0 },
  { &ops_bf_uint16_odd0, &zt_bf_uint16_odd0, set_bf_uint16_odd0, w_bf_uint16_odd0 },
  { &ops_bf_int32_up0, &zt_bf_int32_up0, set_bf_int32_up0, w_bf_int32_up0 },
  { &ops_bf_int32_up1, &zt_bf_int32_up1, set_bf_int32_up1, w_bf_int32_up1 },
  { &ops_bf_int32_down0, &zt_bf_int32_down0, set_bf_int32_down0, w_bf_int32_down0 },
  { &ops_bf_int32_down1, &zt_bf_int32_down1, set_bf_int32_down1, w_bf_int32_down1 },
  { &ops_bf_int32_odd0, &zt_bf_int32_odd0, set_bf_int32_odd0, w_bf_int32_odd0 },
  { &ops_bf_int32_odd1, &zt_bf_int32_odd1, set_bf_int32_odd1, w_bf_int32_odd1 },
  { &ops_bf_uint32_up0, &zt_bf_uint32_up0, set_bf_uint32_up0, w_bf_uint32_up0 },
  { &ops_bf_uint32_up1, &zt_bf_uint32_up1, set_bf_uint32_up1, w_bf_uint32_up1 },
  { &ops_bf_uint32_down0, &zt_bf_uint32_down0, set_bf_uint32_down0, w_bf_uint32_down0 },
  { &ops_bf_uint32_down1, &zt_bf_uint32_down1, set_bf_uint32_down1, w_bf_uint32_down1 },
  { &ops_bf_uint32_odd0, &zt_bf_uint32_odd0, set_bf_uint32_odd0, w_bf_uint32_odd0 },
  { &ops_bf_uint32_odd1, &zt_bf_uint32_odd1, set_bf_uint32_odd1, w_bf_uint32_odd1 },
  { &ops_bf_int64_up0, &zt_bf_int64_up0, set_bf_int64_up0, w_bf_int64_up0 },
  { &ops_bf_int64_down0, &zt_bf_int64_down0, set_bf_int64_down0, w_bf_int64_down0 },
  { &ops_bf_int64_odd0, &zt_bf_int64_odd0, set_bf_int64_odd0, w_bf_int64_odd0 },
  { &ops_bf_uint64_up0, &zt_bf_uint64_up0, set_bf_uint64_up0, w_bf_uint64_up0 },
  { &ops_bf_uint64_down0, &zt_bf_uint64_down0, set_bf_uint64_down0, w_bf_uint64_down0 },
  { &ops_bf_uint64_odd0, &zt_bf_uint64_odd0, set_bf_uint64_odd0, w_bf_uint64_odd0 },
  { &ops_bf_int128_up0, &zt_bf_int128_up0, set_bf_int128_up0, w_bf_int128_up0 },
  { &ops_bf_int128_down0, &zt_bf_int128_down0, set_bf_int128_down0, w_bf_int128_down0 },
  { &ops_bf_int128_odd0, &zt_bf_int128_odd0, set_bf_int128_odd0, w_bf_int128_odd0 },
  { &ops_bf_uint128_up0, &zt_bf_uint128_up0, set_bf_uint128_up0, w_bf_uint128_up0 },
  { &ops_bf_uint128_down0, &zt_bf_uint128_down0, set_bf_uint128_down0, w_bf_uint128_down0 },
  { &ops_bf_uint128_odd0, &zt_bf_uint128_odd0, set_bf_uint128_odd0, w_bf_uint128_odd0 } };
