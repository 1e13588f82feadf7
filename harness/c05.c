/* C05: every value of every scalar kind comes back from every format, wherever it is stored. */
#include "graphs.h"
#include "values.h"

/* one structure per scalar type: plain member, array, pointer target, sized block */
#define SC_TYPE(ID, T, ZT) \
  TYPEDEF_STRUCT (sc_ ## ID, (T, v), (T, a, [2]), (T *, p), (T *, d, , , { "n" }, "string"), (int, n)) \
  static const zf_t zf_sc_ ## ID[] = { ZSUB (sc_ ## ID, v, ZT), ZSUB (sc_ ## ID, a, ZT), ZPTR (sc_ ## ID, p, ZT), ZDYN (sc_ ## ID, d, ZT, n), ZEND }; \
  static const zt_t zt_sc_ ## ID = { "sc_" #ID, sizeof (sc_ ## ID), zf_sc_ ## ID }; \
  Z_OPS (sc_ ## ID) \
  static void set_ ## ID (void * o, const void * value) { sc_ ## ID * x = o; const T * t = value; T * p; x->v = x->a[1] = *t; p = x->p = mem_new (sizeof (T)); *p = *t; \
      p = x->d = mem_new (2 * sizeof (T)); p[1] = *t; x->n = 2 * sizeof (T); }

#define FLT_ZT(ID, T, N) static const zf_t zf_z ## ID[] = { { Z_FLT, "v", 0, sizeof (T) / N, N }, ZEND }; static const zt_t zt_z ## ID = { #ID, sizeof (T), zf_z ## ID };
#define RAW_ZT(ID, T) static const zt_t zt_z ## ID = { #ID, sizeof (T) };
FLT_ZT (f, float, 1) FLT_ZT (d, double, 1) FLT_ZT (ld, long double, 1) FLT_ZT (cf, complex float, 2) FLT_ZT (cd, complex double, 2) FLT_ZT (cld, complex long double, 2)
RAW_ZT (bool, bool) RAW_ZT (char, char) RAW_ZT (i8, int8_t) RAW_ZT (u8, uint8_t) RAW_ZT (i16, int16_t) RAW_ZT (u16, uint16_t) RAW_ZT (i32, int32_t) RAW_ZT (u32, uint32_t)
RAW_ZT (i64, int64_t) RAW_ZT (u64, uint64_t) RAW_ZT (i128, mr_int128_t) RAW_ZT (u128, mr_uint128_t)
RAW_ZT (ven, ven_t) RAW_ZT (ve8, ve8_t) RAW_ZT (vs8, vs8_t) RAW_ZT (ve64, ve64_t) RAW_ZT (vbm, vbm_t) RAW_ZT (vbz, vbz_t) RAW_ZT (ll, long long) RAW_ZT (ul, unsigned long)
SC_TYPE (f, float, zt_zf) SC_TYPE (d, double, zt_zd) SC_TYPE (ld, long_double_t, zt_zld)
SC_TYPE (cf, complex_float_t, zt_zcf) SC_TYPE (cd, complex_double_t, zt_zcd) SC_TYPE (cld, complex_long_double_t, zt_zcld)
SC_TYPE (bool, bool, zt_zbool) SC_TYPE (i8, int8_t, zt_zi8) SC_TYPE (u8, uint8_t, zt_zu8) SC_TYPE (i16, int16_t, zt_zi16) SC_TYPE (u16, uint16_t, zt_zu16)
SC_TYPE (i32, int32_t, zt_zi32) SC_TYPE (u32, uint32_t, zt_zu32) SC_TYPE (i64, int64_t, zt_zi64) SC_TYPE (u64, uint64_t, zt_zu64)
SC_TYPE (i128, mr_int128_t, zt_zi128) SC_TYPE (u128, mr_uint128_t, zt_zu128)
SC_TYPE (ven, ven_t, zt_zven) SC_TYPE (ve8, ve8_t, zt_zve8) SC_TYPE (vs8, vs8_t, zt_zvs8) SC_TYPE (ve64, ve64_t, zt_zve64) SC_TYPE (vbm, vbm_t, zt_zvbm) SC_TYPE (vbz, vbz_t, zt_zvbz)
/* enumerations of powers of two in every width, with and without the sign, and those that are none by one constant */
#define MASK(ID, ...) TYPEDEF_ENUM (ID ## _t, ATTRIBUTES (__attribute__ ((packed))), __VA_ARGS__) RAW_ZT (ID, ID ## _t) SC_TYPE (ID, ID ## _t, zt_z ## ID)
MASK (mu8, (MU8_A, = 1), (MU8_B, = 2), (MU8_C, = 0x10), (MU8_D, = 0x80))
MASK (ms8, (MS8_A, = 1), (MS8_B, = 2), (MS8_C, = 0x20), (MS8_D, = -128))
MASK (mz8, (MZ8_0, = 0), (MZ8_A, = 4), (MZ8_ALIAS, = 4), (MZ8_D, = 8))
MASK (mn8, (MN8_A, = 1), (MN8_B, = 2), (MN8_AB, = 3), (MN8_C, = 0x40))
MASK (mi8, (MI8_A, = 1), (MI8_B, = 2), (MI8_ALL, = -1))
MASK (mu16, (MU16_A, = 1), (MU16_B, = 0x100), (MU16_D, = 0x8000))
MASK (ms16, (MS16_A, = 1), (MS16_B, = 0x100), (MS16_D, = -0x8000))
MASK (mu32, (MU32_A, = 1), (MU32_B, = 0x10000), (MU32_D, = 0x80000000))
MASK (ms32, (MS32_A, = 1), (MS32_B, = 0x10000), (MS32_D, = -0x7fffffff - 1))
MASK (mu64, (MU64_A, = 1), (MU64_B, = 1ULL << 40), (MU64_C, = 1ULL << 32), (MU64_D, = 1ULL << 63))
MASK (ms64, (MS64_A, = 1), (MS64_B, = 1LL << 40), (MS64_C, = 1LL << 31), (MS64_D, = INT64_MIN))
/* a character cannot be in a sized block or behind a pointer: that is a string */
TYPEDEF_STRUCT (sc_char, (char, v), (int, n))
static const zf_t zf_sc_char[] = { ZRAW (sc_char, v), ZRAW (sc_char, n), ZEND };
static const zt_t zt_sc_char = { "sc_char", sizeof (sc_char), zf_sc_char };
Z_OPS (sc_char)
static void set_char (void * o, const void * value) { sc_char * x = o; x->v = *(char*)value; x->n = 7; }

static int control_char; static size_t char_off;
static int fmt, zero_part; /* a complex number with a zero part */

static void
begin (void) { fmt = mc_choose (F_N); zero_part = control_char = 0; }
static void
back (const z_ops_t * ops, const zt_t * zt, void * x)
{
  z_nan_complex = 1; /* a complex number with a NaN in it is a NaN */
  char * before = z_canon (x, zt, NULL), * after;
  void * y = calloc (1, ops->size);
  mr_rarray_t ra;
  mc_note ("%s %s", f_name[fmt], before);
  ra = ops->save (fmt, x);
  mc_assert (ra.data.ptr != NULL, "%s: save failed", f_name[fmt]);
  memset (y, 0x5A, ops->size);
  mr_status_t st = ops->load (fmt, &ra, y);
  if (st != MR_SUCCESS && fmt == F_XML2 && control_char > 0 && control_char < 32)
    {
      /* see below: nothing else is in the way */
      *((char*)x + char_off) = 'x';
      mr_rarray_t xa = ops->save (fmt, x);
      mc_assert (MR_SUCCESS == ops->load (fmt, &xa, y), "%s: load failed: %s", f_name[fmt], z_doc (fmt, &xa));
      mc_fail ("xml2: control or non-ASCII character is lost");
    }
  after = st == MR_SUCCESS ? z_canon (y, zt, NULL) : "";
  if (strcmp (before, after)) mc_note_add (" document: %s", fmt == F_XDR ? "" : z_doc (fmt, &ra));
  mc_assert (st == MR_SUCCESS, "%s: load failed", f_name[fmt]);
  if (strcmp (before, after) && fmt == F_CINIT)
    {
      /* the recorded finding: an expression cannot carry the sign of a zero in one part of a complex number */
      char b[Z_TEXT];
      z_loose = 1;
      strcpy (b, z_canon (x, zt, NULL));
      int same = 0 == strcmp (b, z_canon (y, zt, NULL));
      z_loose = 0;
      if (same && zero_part) mc_fail ("cinit: sign of a zero part of a complex number is lost");
    }
  if (strcmp (before, after) && fmt == F_XML2 && control_char)
    {
      /* the recorded finding: XML has no way to say a control character, or a byte beyond ASCII on its own */
      char * c = (char*)y + char_off;
      if (*c == 0) { *c = control_char; if (0 == strcmp (before, z_canon (y, zt, NULL))) mc_fail ("xml2: control or non-ASCII character is lost"); *c = 0; }
    }
  mc_assert (0 == strcmp (before, after), "%s: different value after save and load: %s", f_name[fmt], after);
  mc_outcome (mc_hash (before, strlen (before), fmt + 8 * (uintptr_t)ops->name[3]));
  free (y);
}

#define RUN(ID, VALUE, T) do { sc_ ## ID * x_ = mem_new (sizeof (sc_ ## ID)); T v_ = VALUE; set_ ## ID (x_, &v_); back (&ops_sc_ ## ID, &zt_sc_ ## ID, x_); } while (0)

static void bytes (void) /* every value of every one-byte type */
{
  begin ();
  int t = mc_choose (4), v = mc_choose (t ? 256 : 2);
  mc_shard ();
  switch (t)
    {
    case 0: RUN (bool, v, bool); break;
    case 1: RUN (i8, v, int8_t); break;
    case 2: RUN (u8, v, uint8_t); break;
    case 3: if ((v < 32 && !strchr ("\t\n\r", v)) || v >= 128) control_char = v; char_off = offsetof (sc_char, v); RUN (char, v, char); break;
    }
}
static void shorts (void) /* every value of every two-byte type */
{
  begin ();
  int t = mc_choose (2);
  int hi = mc_choose (256), lo;
  mc_shard ();
  static const int part[] = { 0, 1, 2, 9, 10, 99, 100, 127, 128, 129, 0x55, 0xaa, 0xe8, 0x0f, 254, 255 };
  lo = mc_thorough ? mc_choose (256) : part[mc_choose (16)];
  if (t) RUN (i16, hi << 8 | lo, int16_t); else RUN (u16, hi << 8 | lo, uint16_t);
}
/* powers of two and of ten and their neighbours, with both signs */
static mr_uint128_t
wide (int bits)
{
  int kind = mc_choose (3), k;
  mr_uint128_t v = 1;
  if (kind == 0) v = (mr_uint128_t)1 << mc_choose (bits);
  else if (kind == 1) for (k = mc_choose (bits * 30103 / 100000 + 1); k; --k) v *= 10;
  else { static const uint64_t pat[] = { 0, 0x5555555555555555ULL, 0xaaaaaaaaaaaaaaaaULL, 0x0123456789abcdefULL, 0xfedcba9876543210ULL }; k = mc_choose (5); v = (mr_uint128_t)pat[k] << 64 | pat[k]; }
  v += (mr_uint128_t)mc_choose (3) - 1;
  if (mc_choose (2)) v = -v;
  return (v);
}
static void integers (void)
{
  begin ();
  int t = mc_choose (6);
  mc_shard ();
  switch (t)
    {
    case 0: RUN (i32, wide (32), int32_t); break;
    case 1: RUN (u32, wide (32), uint32_t); break;
    case 2: RUN (i64, wide (64), int64_t); break;
    case 3: RUN (u64, wide (64), uint64_t); break;
    case 4: RUN (i128, wide (128), mr_int128_t); break;
    case 5: RUN (u128, wide (128), mr_uint128_t); break;
    }
}
static void enums (void)
{
  begin ();
  int t = mc_choose (6), v;
  mc_shard ();
  switch (t)
    {
    case 0: RUN (ven, wide (32), int32_t); break;
    case 1: RUN (ve8, mc_choose (256), uint8_t); break;
    case 2: RUN (vs8, mc_choose (256), uint8_t); break;
    case 3: RUN (ve64, wide (64), uint64_t); break;
    case 4: v = mc_choose (256); RUN (vbm, (mc_choose (2) ? -1 : 1) * v, int); break;
    case 5: RUN (vbz, wide (32), int); break;
    }
}
/* every value of the narrow ones; all sums of the constants of the wide ones with something that has no name */
static uint64_t
sum (int n, const uint64_t * bit)
{
  static const uint64_t rest[] = { 0, 2, 0x80, 0x4000, 1 << 30, 1ULL << 62, -1, (uint32_t)-1, -(1LL << 31) };
  uint64_t v = rest[mc_choose (9)];
  int i;
  for (i = 0; i < n; ++i) if (mc_choose (2)) v ^= bit[i];
  return (v);
}
static void masks (void)
{
  begin ();
  int t = mc_choose (11);
  mc_shard ();
  switch (t)
    {
    case 0: RUN (mu8, mc_choose (256), uint8_t); break;
    case 1: RUN (ms8, mc_choose (256), int8_t); break;
    case 2: RUN (mz8, mc_choose (256), uint8_t); break;
    case 3: RUN (mn8, mc_choose (256), uint8_t); break;
    case 4: RUN (mi8, mc_choose (256), int8_t); break;
    case 5: RUN (mu16, sum (3, (uint64_t[]){ 1, 0x100, 0x8000 }), uint16_t); break;
    case 6: RUN (ms16, sum (3, (uint64_t[]){ 1, 0x100, 0x8000 }), int16_t); break;
    case 7: RUN (mu32, sum (3, (uint64_t[]){ 1, 0x10000, 0x80000000 }), uint32_t); break;
    case 8: RUN (ms32, sum (3, (uint64_t[]){ 1, 0x10000, 0x80000000 }), int32_t); break;
    case 9: RUN (mu64, sum (4, (uint64_t[]){ 1, 1ULL << 32, 1ULL << 40, 1ULL << 63 }), uint64_t); break;
    case 10: RUN (ms64, sum (4, (uint64_t[]){ 1, 1ULL << 31, 1ULL << 40, 1ULL << 63 }), int64_t); break;
    }
}
/* every sign and exponent, with the mantissas at the ends and in between */
static void floats (void)
{
  begin ();
  union { float f; uint32_t u; } v;
  static const uint32_t man[] = { 0, 1, 2, 0x3fffff, 0x400000, 0x400001, 0x555555, 0x2aaaaa, 0x7ffffe, 0x7fffff };
  v.u = mc_choose (256) << 23;
  mc_shard ();
  v.u |= man[mc_choose (10)] | (uint32_t)mc_choose (2) << 31;
  if (v.f != v.f && !(v.u & 0x400000)) mc_skip (); /* signalling */
  RUN (f, v.f, float);
}
static void doubles (void)
{
  begin ();
  union { double d; uint64_t u; } v;
  static const uint64_t man[] = { 0, 1, 0xfffffffffffffULL, 0x8000000000000ULL, 0x5555555555555ULL, 0x8000000000001ULL };
  int e = mc_choose (2048);
  if (!mc_thorough && e % 8 && e > 4 && e < 2044 && (e < 1023 - 70 || e > 1023 + 70)) mc_skip ();
  mc_shard ();
  v.u = (uint64_t)e << 52;
  v.u |= man[mc_choose (6)] | (uint64_t)mc_choose (2) << 63;
  if (v.d != v.d && !(v.u & 0x8000000000000ULL)) mc_skip ();
  RUN (d, v.d, double);
}
static void long_doubles (void)
{
  begin ();
  union { long double d; struct { uint64_t m; uint16_t e; } u; } v;
  static const uint64_t man[] = { 0, 1, 0x7fffffffffffffffULL, 0x4000000000000000ULL, 0x5555555555555555ULL };
  memset (&v, 0, sizeof (v));
  int e = mc_choose (mc_thorough ? 32768 : 600);
  if (!mc_thorough) e = e < 100 ? e : e < 200 ? 32767 - (e - 100) : e < 400 ? 16383 + (e - 300) : (e - 400) * 163;
  mc_shard ();
  v.u.e = e | mc_choose (2) << 15;
  v.u.m = man[mc_choose (5)] | (e ? 1ULL << 63 : 0);
  if (e == 32767 && (v.u.m & 0x7fffffffffffffffULL) && !(v.u.m & 0x4000000000000000ULL)) mc_skip ();
  RUN (ld, v.d, long double);
}
#define CPX(ID, T, S, MAX, MIN, EPS) do { static const T t_[] = { 0.0 ## S, -0.0 ## S, 1.0 ## S, -1.0 ## S, 1.0 ## S / 3, -2.5 ## S, MAX, -MIN, 1.0 ## S + EPS, 1e10 ## S, 100.0 ## S, __builtin_inff (), -__builtin_inff (), __builtin_nanf ("") }; \
    complex T c_; __real__ c_ = t_[mc_choose (14)]; __imag__ c_ = t_[mc_choose (14)]; set_ ## ID (x, &c_); \
    zero_part = __real__ c_ == 0 || __imag__ c_ == 0; } while (0)
static void complexes (void)
{
  begin ();
  int t = mc_choose (3);
  mc_shard ();
  switch (t)
    {
    case 0: { sc_cf * x = mem_new (sizeof (sc_cf)); CPX (cf, float, f, FLT_MAX, FLT_TRUE_MIN, FLT_EPSILON); back (&ops_sc_cf, &zt_sc_cf, x); } break;
    case 1: { sc_cd * x = mem_new (sizeof (sc_cd)); CPX (cd, double, , DBL_MAX, DBL_TRUE_MIN, DBL_EPSILON); back (&ops_sc_cd, &zt_sc_cd, x); } break;
    case 2: { sc_cld * x = mem_new (sizeof (sc_cld)); CPX (cld, long double, L, LDBL_MAX, LDBL_TRUE_MIN, LDBL_EPSILON); back (&ops_sc_cld, &zt_sc_cld, x); } break;
    }
}

/* bit-fields of every width, at positions that move on with the widths before */
#include "bitfields.h"
static void bitfields (void)
{
  static const int n = sizeof (bf_all) / sizeof (bf_all[0]);
  begin ();
  int t = mc_choose (n), members = 0, m, i, w, k;
  mc_shard ();
  while (bf_all[t].width[members]) ++members;
  void * x = mem_new (bf_all[t].ops->size);
  int background = mc_choose (2);
  for (i = 0; i < members; ++i) bf_all[t].set (x, i, background ? -1 : 0);
  m = mc_choose (members);
  w = bf_all[t].width[m];
  mr_uint128_t v, top = (mr_uint128_t)1 << (w - 1);
  if (w <= 5) v = mc_choose (1 << w);
  else switch (k = mc_choose (9))
    {
    case 0: v = 0; break;
    case 1: v = 1; break;
    case 2: v = top; break;
    case 3: v = top - 1; break;
    case 4: v = -(mr_uint128_t)1; break;
    case 5: v = (mr_uint128_t)0x5555555555555555ULL << 64 | 0x5555555555555555ULL; break;
    case 6: v = (mr_uint128_t)0xaaaaaaaaaaaaaaaaULL << 64 | 0xaaaaaaaaaaaaaaaaULL; break;
    case 7: v = top | 1; break;
    default: v = -(mr_uint128_t)2; break;
    }
  bf_all[t].set (x, m, v);
  back (bf_all[t].ops, bf_all[t].zt, x);
}
/* all kinds of members of one structure, one at a time */
static void members (void)
{
  begin ();
  graph_t g = g_values ();
  mc_shard ();
  vs_t * x = g.root;
  zero_part = v_changed >= 15 && v_changed <= 17;
  if (x->c < 32 && x->c && !strchr ("\t\n\r", x->c)) control_char = x->c;
  char_off = offsetof (vs_t, c);
  back (g.ops, g.zt, g.root);
}

static mc_scope_t mc_scopes[] = { { "bytes", bytes }, { "shorts", shorts }, { "integers", integers }, { "enums", enums }, { "masks", masks }, { "floats", floats }, { "doubles", doubles },
  { "long-doubles", long_doubles }, { "complexes", complexes }, { "bit-fields", bitfields }, { "members", members }, { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
