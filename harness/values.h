/* Value-shaped types: every scalar kind, unions with every kind of discriminator, sized pointers with every kind of size. */
#ifndef VALUES_H
#define VALUES_H
#include "graphs.h"
#include <float.h>

TYPEDEF_ENUM (ven_t, (VEN_NEG, = -7), VEN_ZERO_, (VEN_A, = 3), (VEN_BIG, = 0x7fffffff), (VEN_MIN, = -0x7fffffff - 1))
TYPEDEF_ENUM (ve8_t, ATTRIBUTES (__attribute__ ((packed))), (VE8_Z, = 0), (VE8_A, = 5), (VE8_M, = 255))
TYPEDEF_ENUM (vs8_t, ATTRIBUTES (__attribute__ ((packed))), (VS8_L, = -128), (VS8_A, = -1), (VS8_M, = 127))
TYPEDEF_ENUM (ve64_t, ATTRIBUTES (__attribute__ ((packed))), (VE64_Z, = 0), (VE64_A, = 1ULL << 40), (VE64_M, = 0xfedcba9876543210ULL))
TYPEDEF_ENUM (vbm_t, (VBM_A, = 1), (VBM_B, = 2), (VBM_C, = 4), (VBM_D, = 0x40))
TYPEDEF_ENUM (vbz_t, (VBZ_NONE, = 0), (VBZ_A, = 1), (VBZ_B, = 2), (VBZ_TOP, = 1 << 31))
typedef char vca_t[5];
TYPEDEF_FUNC (int, vfn_t, (int))
int v_func_one (int x) { return (x); }
int v_func_two (int x) { return (x + 1); }

TYPEDEF_STRUCT (vs_t,
		bool b, char c,
		int8_t i8, uint8_t u8, int16_t i16, uint16_t u16, int32_t i32, uint32_t u32, int64_t i64, uint64_t u64,
		(mr_int128_t, i128), (mr_uint128_t, u128),
		float f, double d, long_double_t ld,
		complex float cf, complex double cd, complex long double cld,
		(ven_t, e), (ve8_t, e8), (vs8_t, es8), (ve64_t, e64), (vbm_t, bm), (vbz_t, bz),
		(vca_t, ca),
		(vfn_t, fn), (int, fp, (int)),
		(int, bf3, : 3), (unsigned, bu3, : 3), (bool, bb, : 1), (int64_t, b33, : 33), (uint64_t, b40, : 40), (uint8_t, bu8, : 7), (int8_t, bi1, : 1),
		(ven_t, be, : 4), (vbm_t, bbm, : 7), (int, last, : 31))
static long long vg_bf3 (void * o) { return (((vs_t*)o)->bf3); }
static long long vg_bu3 (void * o) { return (((vs_t*)o)->bu3); }
static long long vg_bb (void * o) { return (((vs_t*)o)->bb); }
static long long vg_b33 (void * o) { return (((vs_t*)o)->b33); }
static long long vg_b40 (void * o) { return (((vs_t*)o)->b40); }
static long long vg_bu8 (void * o) { return (((vs_t*)o)->bu8); }
static long long vg_bi1 (void * o) { return (((vs_t*)o)->bi1); }
static long long vg_be (void * o) { return (((vs_t*)o)->be); }
static long long vg_bbm (void * o) { return (((vs_t*)o)->bbm); }
static long long vg_last (void * o) { return (((vs_t*)o)->last); }
#define ZCPX(T, M, P) { Z_FLT, #M, offsetof (T, M), sizeof (P), 2 }
static const zf_t zf_vs_t[] = { ZRAW (vs_t, b), ZRAW (vs_t, c), ZRAW (vs_t, i8), ZRAW (vs_t, u8), ZRAW (vs_t, i16), ZRAW (vs_t, u16), ZRAW (vs_t, i32), ZRAW (vs_t, u32),
  ZRAW (vs_t, i64), ZRAW (vs_t, u64), ZRAW (vs_t, i128), ZRAW (vs_t, u128), ZFLT (vs_t, f), ZFLT (vs_t, d), ZFLT (vs_t, ld),
  ZCPX (vs_t, cf, float), ZCPX (vs_t, cd, double), ZCPX (vs_t, cld, long double),
  ZRAW (vs_t, e), ZRAW (vs_t, e8), ZRAW (vs_t, es8), ZRAW (vs_t, e64), ZRAW (vs_t, bm), ZRAW (vs_t, bz), ZCA (vs_t, ca), ZRAW (vs_t, fn), ZRAW (vs_t, fp),
  ZBITS (vs_t, bf3, vg_bf3), ZBITS (vs_t, bu3, vg_bu3), ZBITS (vs_t, bb, vg_bb), ZBITS (vs_t, b33, vg_b33), ZBITS (vs_t, b40, vg_b40),
  ZBITS (vs_t, bu8, vg_bu8), ZBITS (vs_t, bi1, vg_bi1), ZBITS (vs_t, be, vg_be), ZBITS (vs_t, bbm, vg_bbm), ZBITS (vs_t, last, vg_last), ZEND };
static const zt_t zt_vs_t = { "vs_t", sizeof (vs_t), zf_vs_t };
Z_OPS (vs_t)

#define V_SETI(M, ...) do { static const __typeof__ (((vs_t*)0)->M) t_[] = { __VA_ARGS__ }; x->M = t_[mc_choose (sizeof (t_) / sizeof (t_[0]))]; } while (0)
#define V_SETB(M, ...) do { static const long long t_[] = { __VA_ARGS__ }; x->M = t_[mc_choose (sizeof (t_) / sizeof (t_[0]))]; } while (0)
#define V_FLT_LIST(S, MAX, MIN, DEN, EPS) 0.0 ## S, -0.0 ## S, 1.0 ## S, -1.0 ## S, 1.0 ## S / 3, -2.0 ## S / 3, MAX, -MAX, MIN, -MIN, DEN, -DEN, 1.0 ## S + EPS, 1.0 ## S - EPS / 2, 1e10 ## S, 123456789.0 ## S, -1e-7 ## S, __builtin_inff (), -__builtin_inff (), __builtin_nanf ("")
#define V_CPX(M, T, S, MAX, DEN) do { static const T t_[] = { 0.0 ## S, -0.0 ## S, 1.0 ## S, -1.0 ## S, 1.0 ## S / 3, MAX, -DEN, 2.5 ## S, __builtin_inff (), -__builtin_inff (), __builtin_nanf ("") }; \
    __real__ x->M = t_[mc_choose (11)]; __imag__ x->M = t_[mc_choose (11)]; } while (0)
#define V_MEMBERS 37
static void
v_member (vs_t * x, int m)
{
  switch (m)
    {
    case 0: V_SETI (b, 0, 1); break;
    case 1: x->c = mc_choose (256); break;
    case 2: x->i8 = mc_choose (256); break;
    case 3: x->u8 = mc_choose (256); break;
    case 4: V_SETI (i16, 0, 1, -1, 9, 10, 99, 100, 127, 128, -128, -129, 255, 256, 32767, -32768, -32767); break;
    case 5: V_SETI (u16, 0, 1, 255, 256, 32767, 32768, 65535); break;
    case 6: V_SETI (i32, 0, 1, -1, 65535, 65536, -65536, 0x7fffffff, -0x7fffffff - 1, -0x7fffffff, 1000000000, 123456789, -123456789); break;
    case 7: V_SETI (u32, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 4000000000u); break;
    case 8: V_SETI (i64, 0, 1, -1, INT64_MAX, INT64_MIN, INT64_MIN + 1, 1LL << 32, -(1LL << 32), (1LL << 53) + 1, 1LL << 62, 999999999999999999LL); break;
    case 9: V_SETI (u64, 0, 1, UINT64_MAX, UINT64_MAX - 1, 1ULL << 63, (1ULL << 63) - 1, (1ULL << 53) + 1, 10000000000000000000ULL); break;
    case 10: V_SETI (i128, 0, 1, -1, (mr_int128_t)1 << 64, -((mr_int128_t)1 << 64), ((mr_int128_t)1 << 126) - 1 + ((mr_int128_t)1 << 126),
		     -(((mr_int128_t)1 << 126) - 1 + ((mr_int128_t)1 << 126)) - 1, ((mr_int128_t)0x123456789abcdefULL << 60) + 7, (mr_int128_t)1 << 63, -((mr_int128_t)1 << 63)); break;
    case 11: V_SETI (u128, 0, 1, ~(mr_uint128_t)0, (mr_uint128_t)1 << 127, ((mr_uint128_t)1 << 127) - 1, (mr_uint128_t)1 << 64, ((mr_uint128_t)0xfedcba9876543210ULL << 64) + 9); break;
    case 12: V_SETI (f, V_FLT_LIST (f, FLT_MAX, FLT_MIN, FLT_TRUE_MIN, FLT_EPSILON), 16777217.0f, 0.1f, 3.4e38f); break;
    case 13: V_SETI (d, V_FLT_LIST (, DBL_MAX, DBL_MIN, DBL_TRUE_MIN, DBL_EPSILON), 0.1, 9007199254740993.0, 1e308); break;
    case 14: V_SETI (ld, V_FLT_LIST (L, LDBL_MAX, LDBL_MIN, LDBL_TRUE_MIN, LDBL_EPSILON), 0.1L, 1e4000L, 18446744073709551615.0L); break;
    case 15: V_CPX (cf, float, f, FLT_MAX, FLT_TRUE_MIN); break;
    case 16: V_CPX (cd, double, , DBL_MAX, DBL_TRUE_MIN); break;
    case 17: V_CPX (cld, long double, L, LDBL_MAX, LDBL_TRUE_MIN); break;
    case 18: V_SETI (e, VEN_NEG, VEN_ZERO_, VEN_A, VEN_BIG, VEN_MIN, 0, 1, -1, 77); break;
    case 19: V_SETI (e8, VE8_Z, VE8_A, VE8_M, 1, 128, 254); break;
    case 20: V_SETI (es8, VS8_L, VS8_A, VS8_M, 0, 1, -2); break;
    case 21: V_SETI (e64, VE64_Z, VE64_A, VE64_M, 1, 1ULL << 63, UINT64_MAX); break;
    case 22: x->bm = mc_choose (128); break;
    case 23: V_SETI (bz, VBZ_NONE, VBZ_A, VBZ_B, VBZ_A | VBZ_B, VBZ_TOP, VBZ_TOP | VBZ_A, 4, 5, 7, -1, 0x7fffffff); break;
    case 24: { static const char * const t[] = { "", "a", "abcd", " ", "\"'<&", "\\n\n\t", "\x7f\xc3\xa9" }; strcpy (x->ca, t[mc_choose (7)]); } break;
    case 25: { static int (* const t[]) (int) = { NULL, v_func_one, v_func_two }; x->fn = t[mc_choose (3)]; } break;
    case 26: { static int (* const t[]) (int) = { NULL, v_func_one, v_func_two }; x->fp = t[mc_choose (3)]; } break;
    case 27: x->bf3 = mc_choose (8); break;
    case 28: x->bu3 = mc_choose (8); break;
    case 29: x->bb = mc_choose (2); break;
    case 30: V_SETB (b33, 0, 1, -1, 0xffffffffLL, -0x100000000LL, 0x55555555LL, -2); break;
    case 31: V_SETB (b40, 0, 1, 0xffffffffffLL, 0x8000000000LL, 0x5555555555LL, 0x100000000LL); break;
    case 32: x->bu8 = mc_choose (128); break;
    case 33: x->bi1 = mc_choose (2); break;
    case 34: x->be = mc_choose (16); break;
    case 35: x->bbm = mc_choose (128); break;
    case 36: V_SETB (last, 0, 1, -1, 0x3fffffff, -0x40000000); break;
    }
}
/* a background in which every member is non-trivial */
static void
v_background (vs_t * x, int k)
{
  if (k == 0) return;
  *x = (vs_t) { .b = 1, .c = 'x', .i8 = -8, .u8 = 200, .i16 = -300, .u16 = 60000, .i32 = -70000, .u32 = 4000000000u, .i64 = -5000000000LL, .u64 = 1ULL << 63,
    .i128 = -5, .u128 = 5, .f = 1.5f, .d = -2.25, .ld = 0.1L, .e = VEN_A, .e8 = VE8_A, .es8 = VS8_A, .e64 = VE64_A, .bm = VBM_A | VBM_C, .bz = VBZ_B,
    .ca = "text", .fn = v_func_one, .fp = v_func_two, .bf3 = -1, .bu3 = 5, .bb = 1, .b33 = -1, .b40 = 0xaaaaaaaaaaLL, .bu8 = 0x55, .bi1 = -1, .be = VEN_A, .bbm = VBM_B, .last = -2 };
  __real__ x->cf = 1; __imag__ x->cf = -2; __real__ x->cd = 0.5; __imag__ x->cd = 1; __imag__ x->cld = 3;
}
static int v_changed;
static graph_t
g_values (void)
{
  vs_t * x = mem_new (sizeof (vs_t));
  v_background (x, mc_choose (2));
  v_member (x, v_changed = mc_choose (V_MEMBERS));
  return ((graph_t) { &ops_vs_t, &zt_vs_t, x });
}

/* the library remembers the names of functions */
static void __attribute__ ((unused))
v_warm (void)
{
  vs_t x, y;
  int i;
  memset (&x, 0, sizeof (x));
  for (i = 0; i < 8; ++i)
    {
      x.fn = (i & 1) ? v_func_one : v_func_two; x.fp = (i & 2) ? v_func_two : NULL;
      mr_rarray_t ra = ops_vs_t.save (i % F_N, &x);
      memset (&y, 0, sizeof (y));
      ops_vs_t.load (i % F_N, &ra, &y);
      z_drop (&ra);
    }
}
static void __attribute__ ((constructor)) v_init (void) { g_warm_more = v_warm; }

/* ---- unions ---- */
TYPEDEF_STRUCT (up_t, (int, x), (int, y))
static const zf_t zf_up_t[] = { ZRAW (up_t, x), ZRAW (up_t, y), ZEND };
static const zt_t zt_up_t = { "up_t", sizeof (up_t), zf_up_t };
TYPEDEF_UNION (uv_t, float f, int32_t i, (char *, s), (struct uo_t *, p), (up_t, st), (int16_t, arr, [3]))
TYPEDEF_ENUM (ud_t, (UD_F, , "f"), (UD_I, , "i"), (UD_S, , "s"), (UD_P, , "p"), (UD_ST, , "st"), (UD_ARR, , "arr"), (UD_BAD, , "nosuch"), UD_NONE)
TYPEDEF_STRUCT (uo_t, (uv_t, u, , "d"), (ud_t, d), (int, after))
static const zf_t zf_uf[] = { { Z_FLT, "f", 0, 4 }, ZEND };
static const zf_t zf_ui[] = { { Z_RAW, "i", 0, 4 }, ZEND };
static const zt_t zt_uo_t;
static const zf_t zf_up[] = { { Z_PTR, "p", 0, sizeof (void*), 1, &zt_uo_t }, ZEND };
static const zf_t zf_us[] = { { Z_STR, "s", 0, sizeof (void*), 1 }, ZEND };
static const zf_t zf_ust[] = { { Z_SUB, "st", 0, sizeof (up_t), 1, &zt_up_t }, ZEND };
static const zf_t zf_uarr[] = { { Z_RAW, "arr", 0, 2, 3 }, ZEND };
static const zt_t zt_u[] = { { "f", sizeof (uv_t), zf_uf }, { "i", sizeof (uv_t), zf_ui }, { "s", sizeof (uv_t), zf_us }, { "p", sizeof (uv_t), zf_up },
  { "st", sizeof (uv_t), zf_ust }, { "arr", sizeof (uv_t), zf_uarr } };
static const zt_t * zsel_uo (void * o) { unsigned d = ((uo_t*)o)->d; return (&zt_u[d < 6 ? d : 0]); }
static const zf_t zf_uo_t[] = { ZSEL (uo_t, u, zsel_uo), ZRAW (uo_t, d), ZRAW (uo_t, after), ZEND };
static const zt_t zt_uo_t = { "uo_t", sizeof (uo_t), zf_uo_t };
Z_OPS (uo_t)

static void
u_fill (uv_t * u, int kind, uo_t * self, uo_t * other)
{
  switch (kind)
    {
    case 0: u->f = 0.5f; break;
    case 1: u->i = -3; break;
    case 2: u->s = mc_choose (2) ? mem_str ("text") : NULL; break;
    case 3: u->p = ((uo_t*[]){ NULL, self, other })[mc_choose (other ? 3 : 2)]; break;
    case 4: u->st.x = 1; u->st.y = -2; break;
    case 5: u->arr[0] = 1; u->arr[2] = -3; break;
    }
}
static graph_t
g_unions (void)
{
  uo_t * a = mem_new (sizeof (uo_t)), * b = mem_new (sizeof (uo_t));
  a->d = mc_choose (8); a->after = 7;
  u_fill (&a->u, a->d < 6 ? a->d : 0, a, b);
  if (a->d == UD_P && a->u.p == b)
    {
      b->d = mc_choose (8); b->after = 8;
      u_fill (&b->u, b->d < 6 ? b->d : 0, b, a);
    }
  return ((graph_t) { &ops_uo_t, &zt_uo_t, a });
}

/* ---- char arrays filled to the last element, with and without something behind them ---- */
typedef char tca_t[3];
typedef char tcb_t[3];
MR_TYPEDEF_DESC_BI (tcb_t);
TYPEDEF_STRUCT (tx_t, (tca_t, a), (tca_t, b), (tcb_t *, v, , , { "n" }, "string"), (short, n), (tcb_t *, p))
static const zf_t zf_tcb_t[] = { { Z_CA, "text", 0, 3 }, ZEND };
static const zt_t zt_tcb_t = { "tcb_t", 3, zf_tcb_t };
static const zf_t zf_tx_t[] = { ZCA (tx_t, a), ZCA (tx_t, b), ZDYN (tx_t, v, zt_tcb_t, n), ZPTR (tx_t, p, zt_tcb_t), ZEND };
static const zt_t zt_tx_t = { "tx_t", sizeof (tx_t), zf_tx_t };
Z_OPS (tx_t)
static graph_t __attribute__ ((unused))
g_texts (void)
{
  static const char * const t[] = { "", "a", "ab", "abc", "abd", "bb", "bbc", "\xc3\xa9", "x\xc3\xa9" };
  tx_t * x = mem_new (sizeof (tx_t));
  int i, n;
  if (mc_choose (2))
    {
      strncpy (x->a, t[mc_choose (9)], 3);
      strncpy (x->b, t[mc_choose (9)], 3);
    }
  else if (mc_choose (2))
    {
      x->p = mem_new (3);
      strncpy (*x->p, t[mc_choose (9)], 3);
    }
  else
    {
      n = 1 + mc_choose (2);
      x->n = n * sizeof (tcb_t);
      x->v = mem_new (x->n);
      for (i = 0; i < n; ++i) strncpy (x->v[i], t[(int[]){ 0, 2, 3, 8 }[mc_choose (4)]], 3);
      if (mc_choose (2)) x->p = &x->v[mc_choose (n)];
    }
  return ((graph_t) { &ops_tx_t, &zt_tx_t, x });
}

/* ---- strings that are char arrays, in the structure or behind another pointer ---- */
TYPEDEF_STRUCT (lb_t, (char *, s), (tcb_t *, p), (tca_t, a), (tcb_t *, v, , , { "n" }, "string"), (short, n), (char *, t), (tcb_t *, q))
static const zf_t zf_lb_t[] = { ZSTR (lb_t, s), ZPTR (lb_t, p, zt_tcb_t), ZCA (lb_t, a), ZDYN (lb_t, v, zt_tcb_t, n), ZSTR (lb_t, t), ZPTR (lb_t, q, zt_tcb_t), ZEND };
static const zt_t zt_lb_t = { "lb_t", sizeof (lb_t), zf_lb_t };
Z_OPS (lb_t)
static graph_t __attribute__ ((unused))
g_labels (void)
{
  static const char * const t[] = { "", "a", "bc" };
  lb_t * x = mem_new (sizeof (lb_t));
  int i, ns = 0, n = mc_choose (3), k = mc_choose (3);
  tcb_t * own = mem_new (sizeof (tcb_t));
  char * ss[6] = { NULL };
  strcpy (x->a, t[(k + 1) % 3]);
  strcpy ((char*)own, t[k]);
  x->n = n * sizeof (tcb_t);
  if (n) x->v = mem_new (x->n);
  for (i = 0; i < n; ++i) strcpy ((char*)&x->v[i], t[(k + i) % 3]);
  tcb_t * ps[4] = { NULL, own };
  int np = 2;
  for (i = 0; i < n; ++i) ps[np++] = &x->v[i];
  x->p = ps[mc_choose (np)];
  x->q = ps[mc_choose (np)];
  ss[1] = mem_str (t[k]); ss[2] = x->a; ns = 3;
  if (x->p == own || x->q == own) ss[ns++] = (char*)own;
  for (i = 0; i < n; ++i) ss[ns++] = (char*)&x->v[i];
  x->s = ss[mc_choose (ns)];
  x->t = ss[mc_choose (ns)];
  return ((graph_t) { &ops_lb_t, &zt_lb_t, x });
}

/* ---- sized pointers ---- */
TYPEDEF_ENUM (zsz_t, (ZSZ_0, = 0), (ZSZ_2, = 2), (ZSZ_4, = 4), (ZSZ_6, = 6))
TYPEDEF_STRUCT (zd_t,
		(uint8_t, n8), (int16_t *, p8, , , { "n8" }, "string"),
		(int16_t *, p64, , , { .offset = offsetof (zd_t, n64) }, "offset"), (uint64_t, n64),
		(int16_t *, pb, , , { "nb" }, "string"), (unsigned, nb, : 5),
		(int16_t *, pe, , , { "ne" }, "string"), (zsz_t, ne),
		(int16_t *, pp, , , { "np" }, "string"), (int *, np),
		(emb_t *, ps, , , { "ns" }, "string"), (short, ns),
		(char **, pstr, , , { "nstr" }, "string"), (size_t, nstr))
static const zf_t zf_strcell[] = { { Z_STR, "s", 0, sizeof (char*), 1 }, ZEND };
static const zt_t zt_strcell = { "char *", sizeof (char*), zf_strcell };
static long long zg_nb (void * o) { return (((zd_t*)o)->nb); }
#define ZDYNX(T, M, ZT) { .kind = Z_DYN, .name = #M, .off = offsetof (T, M), .size = sizeof (void*), .count = 1, .t = &ZT }
static const zf_t zf_zd_t[] = { ZDYN (zd_t, p8, zt_i16, n8), ZDYN (zd_t, p64, zt_i16, n64), ZBITS (zd_t, nb, zg_nb), ZDYN (zd_t, pe, zt_i16, ne),
  ZPTR (zd_t, np, zt_i32), ZDYN (zd_t, ps, zt_emb_t, ns), ZDYN (zd_t, pstr, zt_strcell, nstr), ZEND };
static const zt_t zt_zd_t = { "zd_t", sizeof (zd_t), zf_zd_t };
Z_OPS (zd_t)

static graph_t
g_sized (void)
{
  zd_t * g = mem_new (sizeof (zd_t));
  int n, i, which = mc_choose (5);
#define Z_BLOCK(P, CNT) do { n = mc_choose (CNT + 1); if (n) { P = mem_new (n * sizeof (P[0])); } } while (0)
  switch (which)
    {
    case 0: Z_BLOCK (g->p8, 9); g->n8 = n * 2; for (i = 0; i < n; ++i) g->p8[i] = i - 2; break;
    case 1: Z_BLOCK (g->p64, 9); g->n64 = n * 2; for (i = 0; i < n; ++i) g->p64[i] = i - 2; break;
    case 2: Z_BLOCK (g->pe, 3); g->ne = n * 2; for (i = 0; i < n; ++i) g->pe[i] = i - 2; break;
    case 3: Z_BLOCK (g->ps, 4); g->ns = n * sizeof (emb_t); for (i = 0; i < n; ++i) { g->ps[i].a = i + 1; g->ps[i].up = ((emb_t*[]){ NULL, &g->ps[0], &g->ps[n - 1] })[mc_choose (3)]; } break;
    case 4:
      {
	char * ss[] = { NULL, mem_str ("p"), mem_str ("q") };
	Z_BLOCK (g->pstr, 3); g->nstr = n * sizeof (char*);
	for (i = 0; i < n; ++i) g->pstr[i] = ss[mc_choose (3)];
      }
      break;
    }
  return ((graph_t) { &ops_zd_t, &zt_zd_t, g });
}
#endif
