/* C03: sorting leaves an ordered permutation of its input and touches nothing else. */
#include "graphs.h"
#include "values.h"
#include <mr_hsort.h>

/* ---- the generic routine: elements of any size, a key byte and the place they came from ---- */
static size_t el_size;
static char * el_from, * el_to;
static int el_key (const char * p) { return ((unsigned char)p[0]); }
static int
el_cmp (const mr_ptr_t x, const mr_ptr_t y, const void * context)
{
  mc_assert (context == &el_size, "comparison is called with another context");
  ++mc_sh->transitions;
  return (el_key (x.ptr) - el_key (y.ptr));
}
static void
hsort_of (int n, size_t size, const unsigned char * keys)
{
  static int seen[4096];
  int i;
  size_t k;
  char * a = malloc (n * size ? n * size : 1); /* exactly as large as needed: one byte beyond is an error */
  for (i = 0; i < n; ++i)
    {
      char * e = a + i * size;
      e[0] = keys[i];
      for (k = 1; k < size; ++k) e[k] = (k & 1) ? i : (char)((i >> 8) + k);
      seen[i] = 0;
    }
  el_size = size; el_from = a; el_to = a + n * size;
  mr_hsort (a, n, size, el_cmp, &el_size);
  for (i = 0; i < n; ++i)
    {
      char * e = a + i * size;
      mc_assert (i == 0 || el_key (e - size) <= el_key (e), "not in order at index %d of %d", i, n);
      if (size < 2) { ++seen[el_key (e)]; continue; }
      int from = (unsigned char)e[1];
      if (size > 2) from |= (int)(unsigned char)(e[2] - 2) << 8;
      mc_assert (from < n && !seen[from], "element lost or doubled");
      seen[from] = 1;
      mc_assert (el_key (e) == keys[from], "element does not hold its bytes");
      for (k = 1; k < size; ++k) mc_assert (e[k] == ((k & 1) ? (char)from : (char)((from >> 8) + k)), "element does not hold its bytes");
    }
  if (size < 2)
    {
      static int want[256];
      memset (want, 0, sizeof (want));
      int have[256];
      memset (have, 0, sizeof (have));
      for (i = 0; i < n; ++i) { ++want[keys[i]]; ++have[el_key (a + i)]; }
      mc_assert (0 == memcmp (want, have, sizeof (want)), "element lost or doubled");
    }
  free (a);
}
static const size_t el_sizes[] = { 1, 2, 3, 4, 5, 8, 12, 16, 24, 40 };

static void
weak_orders (void)
{
  unsigned char keys[16];
  int n = mc_choose (mc_thorough ? 9 : 8), i, s = mc_choose (10);
  for (i = 0; i < n; ++i)
    {
      keys[i] = 10 + mc_choose (n);
      if (i == 1) mc_shard ();
    }
  mc_note ("%d elements of %zu bytes, keys %s", n, el_sizes[s], mc_quote ((char*)keys, n));
  hsort_of (n, el_sizes[s], keys);
  mc_outcome (mc_hash (keys, n, s));
}
static void
permutations (void)
{
  unsigned char keys[16];
  int n = 7 + mc_choose (mc_thorough ? 5 : 3), i, j, used[16] = { 0 };
  for (i = 0; i < n; ++i)
    {
      int k = mc_choose (n - i);
      for (j = 0; ; ++j) if (!used[j] && k-- == 0) break;
      used[j] = 1;
      keys[i] = j;
      if (i == 2) mc_shard ();
    }
  mc_note ("%d distinct elements, order %s", n, mc_quote ((char*)keys, n));
  hsort_of (n, 8, keys);
  mc_outcome (mc_hash (keys, n, 0));
}
static void
two_keys (void) /* every array of zeros and ones */
{
  unsigned char keys[32];
  int n = 9 + mc_choose (mc_thorough ? 10 : 7), i;
  for (i = 0; i < n; ++i)
    {
      keys[i] = mc_choose (2);
      if (i == 3) mc_shard ();
    }
  mc_note ("%d elements of two kinds %s", n, mc_quote ((char*)keys, n));
  hsort_of (n, 3, keys);
  mc_outcome (mc_hash (keys, n, 0));
}
static void
longer (void) /* every length, in orders with a structure */
{
  static unsigned char keys[4096];
  int n = mc_choose (mc_thorough ? 1200 : 300), kind = mc_choose (12), s = mc_choose (3), i;
  mc_shard ();
  mc_note ("%d elements in order %d", n, kind);
  for (i = 0; i < n; ++i)
    switch (kind)
      {
      case 0: keys[i] = i * 256 / (n + 1); break;
      case 1: keys[i] = 255 - i * 256 / (n + 1); break;
      case 2: keys[i] = i < n / 2 ? i : n - i; break;
      case 3: keys[i] = 7; break;
      case 4: keys[i] = i & 1; break;
      case 5: keys[i] = i * 7; break;
      case 6: keys[i] = i * 131 + i * i; break;
      case 7: keys[i] = i == 0 ? 255 : i * 255 / n; break;
      case 8: keys[i] = i == n - 1 ? 0 : i * 255 / n; break;
      case 9: keys[i] = i / 16; break;
      case 10: keys[i] = i % 16; break;
      case 11: keys[i] = (i & (i >> 1)) ^ i; break;
      }
  hsort_of (n, ((size_t[]){ 2 + (n > 256), 8, 24 })[s], keys);
  mc_outcome (n * 64 + kind * 4 + s);
}

/* ---- all basic types through the public macro ---- */
#define TYPED(NAME, T, LESS, ...)						\
  static int less_ ## NAME (const T x, const T y) { return (LESS); }		\
  static void sort_ ## NAME (int max)						\
  {										\
    static const T v[] = { __VA_ARGS__ };					\
    int n = mc_choose (max + 1), i, k = sizeof (v) / sizeof (v[0]), at[8], used[8] = { 0 }, j; \
    for (i = 0; i < n; ++i) at[i] = mc_choose (k);				\
    mc_shard ();								\
    mc_note (#NAME " at %d of %d: %d %d %d %d %d", n, k, at[0], at[1], at[2], at[3], at[4]); \
    T * a = malloc (n * sizeof (T) + 1);					\
    memset (a, 0, n * sizeof (T));						\
    for (i = 0; i < n; ++i) a[i] = v[at[i]];					\
    mc_assert (MR_SUCCESS == MR_GENERIC_SORT (a, (size_t)n), #NAME ": not sorted at all"); \
    for (i = 0; i < n; ++i)							\
      {										\
	for (j = 0; j < n; ++j) if (!used[j] && 0 == memcmp (&a[i], &v[at[j]], Z_EFF (T))) { used[j] = 1; break; } \
	mc_assert (j < n, #NAME ": element lost or doubled");			\
	mc_assert (i == 0 || !less_ ## NAME (a[i], a[i - 1]), #NAME ": not in order"); \
      }										\
    \
    mc_outcome (mc_hash (at, n * sizeof (at[0]), mc_hash (#NAME, sizeof (#NAME), n))); \
    free (a);									\
  }
#define Z_EFF(T) (sizeof (T) == 16 && __builtin_types_compatible_p (T, long double) ? 10 : sizeof (T))
#define NUM x < y
/* a NaN comes before all numbers, as in the comparison of structures */
#define FLT x != x ? y == y : x < y
#define I128(H) ((mr_int128_t)(H) << 64)
typedef char * str_t;
typedef char ca_t[4];
typedef void (*fn_t) (void);
TYPED (char, char, NUM, 0, 1, -1, 'a', CHAR_MAX, CHAR_MIN)
TYPED (bool, bool, NUM, 0, 1)
TYPED (i8, int8_t, NUM, 0, 1, -1, INT8_MAX, INT8_MIN)
TYPED (u8, uint8_t, NUM, 0, 1, 127, 128, 255)
TYPED (i16, int16_t, NUM, 0, 1, -1, 256, INT16_MAX, INT16_MIN)
TYPED (u16, uint16_t, NUM, 0, 1, 256, 32767, 32768, 65535)
TYPED (i32, int32_t, NUM, 0, 1, -1, 65536, INT32_MAX, INT32_MIN)
TYPED (u32, uint32_t, NUM, 0, 1, 65536, INT32_MAX, 0x80000000u, UINT32_MAX)
TYPED (i64, int64_t, NUM, 0, 1, -1, 1LL << 32, INT64_MAX, INT64_MIN)
TYPED (u64, uint64_t, NUM, 0, 1, 1ULL << 32, INT64_MAX, 1ULL << 63, UINT64_MAX)
TYPED (i128, mr_int128_t, NUM, 0, 1, -1, I128 (1), -I128 (1), I128 (1) - 1)
TYPED (u128, mr_uint128_t, NUM, 0, 1, (mr_uint128_t)1 << 64, (mr_uint128_t)1 << 127, -(mr_uint128_t)1, ((mr_uint128_t)1 << 64) - 1)
TYPED (float, float, FLT, 0, -0.0f, 1, -1, 0.5f, INFINITY, -INFINITY, NAN)
TYPED (double, double, FLT, 0, -0.0, 1, -1, 1e-300, INFINITY, -INFINITY, NAN)
TYPED (ld, long double, FLT, 0, -0.0L, 1, -1, 1e-4000L, INFINITY, -INFINITY, NAN)
TYPED (str, str_t, !y ? 0 : !x ? 1 : strcmp (x, y) < 0, NULL, "", "a", "ab", "b", "\xff")

static void
typed (void)
{
  static void (* const fn[]) (int) = { sort_char, sort_bool, sort_i8, sort_u8, sort_i16, sort_u16, sort_i32, sort_u32, sort_i64, sort_u64, sort_i128, sort_u128,
    sort_float, sort_double, sort_ld, sort_str };
  int t = mc_choose (16);
  fn[t] (t == 1 ? 5 : mc_thorough ? 5 : 4);
}
static void
char_arrays (void)
{
  static const char v[][4] = { "", "a", "ab", "abcd", "b", "\xff", { 'a', 'b', 'c', 'e' } };
  int n = mc_choose (mc_thorough ? 7 : 6), i, j, at[8], used[8] = { 0 };
  for (i = 0; i < n; ++i) at[i] = mc_choose (7);
  mc_shard ();
  mc_note ("char arrays %d: %d %d %d %d %d", n, at[0], at[1], at[2], at[3], at[4]);
  ca_t * a = malloc (n * sizeof (ca_t) + !n);
  for (i = 0; i < n; ++i) memcpy (a[i], v[at[i]], 4);
  mc_assert (MR_SUCCESS == MR_GENERIC_SORT (a, (size_t)n), "char arrays: not sorted at all");
  for (i = 0; i < n; ++i)
    {
      for (j = 0; j < n; ++j) if (!used[j] && 0 == memcmp (a[i], v[at[j]], 4)) { used[j] = 1; break; }
      mc_assert (j < n, "char arrays: element lost or doubled");
      mc_assert (i == 0 || strncmp (a[i - 1], a[i], 4) <= 0, "char arrays: not in order");
    }
  mc_outcome (mc_hash (at, n * sizeof (at[0]), n));
}

/* ---- registered types by name, in the order of the comparison of structures ---- */
TYPEDEF_STRUCT (so_t, (int8_t, k), (char *, s), (double, d), (uint8_t, bf, : 3), (int *, p))
static const zf_t zf_so_t[] = { ZRAW (so_t, k), ZSTR (so_t, s), ZFLT (so_t, d), ZPTR (so_t, p, zt_i32), ZEND };
static const zt_t zt_so_t = { "so_t", sizeof (so_t), zf_so_t };
Z_OPS (so_t)
static void
structs (void)
{
  int one = 1, two = 2, n = mc_choose (mc_thorough ? 5 : 4), i, j, at[8], used[8] = { 0 };
  so_t v[] = { { 0 }, { .k = -1 }, { .k = -1, .s = "a" }, { .k = -1, .s = "b" }, { .d = NAN }, { .d = 1 }, { .d = -1 }, { .bf = 1 }, { .p = &one }, { .p = &two }, { .k = 1, .s = "", .p = &two } };
  for (i = 0; i < n; ++i) at[i] = mc_choose (11);
  mc_shard ();
  so_t * a = malloc (n * sizeof (so_t) + !n);
  mc_note ("structures %d: %d %d %d %d", n, at[0], at[1], at[2], at[3]);
  for (i = 0; i < n; ++i) memcpy (&a[i], &v[at[i]], sizeof (v[0]));
  mc_assert (MR_SUCCESS == MR_GENERIC_SORT (a, n, "so_t"), "structures: not sorted at all");
  for (i = 0; i < n; ++i)
    {
      for (j = 0; j < n; ++j) if (!used[j] && 0 == memcmp (&a[i], &v[at[j]], sizeof (v[0]))) { used[j] = 1; break; }
      mc_assert (j < n, "structures: element lost or doubled");
      for (j = 0; j < i; ++j) mc_assert (ops_so_t.cmp (&a[j], &a[i]) <= 0, "structures: not in order");
    }
  mc_outcome (mc_hash (at, n * sizeof (at[0]), n));
}
static void
big_structs (void) /* linked nodes, and numbers and enumerations by name of their type */
{
  int t = mc_choose (4), n = 1 + mc_choose (4), i, j, at[8], used[8] = { 0 };
  for (i = 0; i < n; ++i) at[i] = mc_choose (4);
  mc_shard ();
  mc_note ("type %d, %d: %d %d %d %d", t, n, at[0], at[1], at[2], at[3]);
  if (t == 0)
    {
      gn_t x[4], * a = malloc (n * sizeof (gn_t));
      memset (x, 0, sizeof (x));
      x[0].v = 1; x[1].v = 1; x[1].p = &x[0]; x[2].v = 1; x[2].p = &x[2]; x[3].v = -1; x[3].q = &x[1]; x[3].s = "z";
      for (i = 0; i < n; ++i) a[i] = x[at[i]];
      mc_assert (MR_SUCCESS == MR_GENERIC_SORT (a, n, "gn_t"), "nodes: not sorted at all");
      for (i = 0; i < n; ++i)
	{
	  for (j = 0; j < n; ++j) if (!used[j] && 0 == memcmp (&a[i], &x[at[j]], sizeof (x[0]))) { used[j] = 1; break; }
	  mc_assert (j < n, "nodes: element lost or doubled");
	  for (j = 0; j < i; ++j) mc_assert (ops_gn_t.cmp (&a[j], &a[i]) <= 0, "nodes: not in order");
	}
    }
  else
    {
      static const int v[] = { 0, -1, 1, INT_MIN };
      static const ven_t e[] = { VEN_A, VEN_NEG, VEN_MIN, (ven_t)77 };
      int * a = malloc (n * sizeof (int));
      for (i = 0; i < n; ++i) a[i] = t == 3 ? (int)e[at[i]] : v[at[i]];
      mc_assert (MR_SUCCESS == MR_GENERIC_SORT (a, n, t == 1 ? "int" : t == 2 ? "int32_t" : "ven_t"), "numbers: not sorted at all");
      for (i = 0; i < n; ++i)
	{
	  for (j = 0; j < n; ++j) if (!used[j] && a[i] == (t == 3 ? (int)e[at[j]] : v[at[j]])) { used[j] = 1; break; }
	  mc_assert (j < n, "numbers: element lost or doubled");
	  mc_assert (i == 0 || a[i - 1] <= a[i], "numbers: not in order");
	}
    }
  mc_outcome (mc_hash (at, n * sizeof (at[0]), n * 4 + t));
}

static mc_scope_t mc_scopes[] = { { "weak-orders", weak_orders }, { "permutations", permutations }, { "two-keys", two_keys }, { "longer", longer }, { "typed", typed },
  { "char-arrays", char_arrays }, { "structs", structs }, { "by-name", big_structs }, { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
