/* C16: a pointer with a size member carries exactly the elements declared. */
#include "zoo.h"

typedef char s3_t[3];
MR_TYPEDEF_DESC_BI (s3_t);
TYPEDEF_ENUM (ez_t, (EZ_A, = -7), (EZ_B, = 1000), EZ_C)
TYPEDEF_STRUCT (re_t, (int8_t, a), (int32_t, b), (char *, t), (struct re_t *, next))
TYPEDEF_UNION (uz_t, (float, f), (int32_t, i))
TYPEDEF_STRUCT (in_t, (short, k), (int16_t *, p, , , { "k" }, "string"))

/* one pointer of every kind; only one of them is in use at a time */
enum { E_I8, E_I16, E_I32, E_I64, E_I128, E_D, E_LD, E_B, E_EN, E_CH, E_STR, E_S3, E_RE, E_PTR, E_IN, E_N };
static const char * const e_name[] = { "int8_t", "int16_t", "int32_t", "int64_t", "int128", "double", "long double", "bool", "enum", "char", "char *", "char array", "struct", "pointer", "sized struct" };
static const int e_size[] = { 1, 2, 4, 8, 16, sizeof (double), sizeof (long double), 1, sizeof (ez_t), 1, sizeof (char*), 3, sizeof (re_t), sizeof (void*), sizeof (in_t) };
#define ELEMENTS(R, RT) (int8_t *, p_i8, , , R, RT), (int16_t *, p_i16, , , R, RT), (int32_t *, p_i32, , , R, RT), (int64_t *, p_i64, , , R, RT), (mr_int128_t *, p_i128, , , R, RT), \
  (double *, p_d, , , R, RT), (long_double_t *, p_ld, , , R, RT), (bool *, p_b, , , R, RT), (ez_t *, p_e, , , R, RT), (char *, p_ch, , , R, RT, .stype.mr_type = MR_TYPE_POINTER), \
  (char **, p_str, , , R, RT), (s3_t *, p_s3, , , R, RT), (re_t *, p_re, , , R, RT), (re_t **, p_ptr, , , R, RT), (in_t *, p_in, , , R, RT)
typedef struct { void * p[E_N]; } els_t;

/* size members and how they are found */
TYPEDEF_ENUM (z32_t, (Z32_0, = 0), (Z32_8, = 8), (Z32_M, = 100000))
TYPEDEF_ENUM (z8_t, ATTRIBUTES (__attribute__ ((packed))), (Z8_0, = 0), (Z8_8, = 8), (Z8_M, = 200))
TYPEDEF_ENUM (z64_t, ATTRIBUTES (__attribute__ ((packed))), (Z64_0, = 0), (Z64_8, = 8), (Z64_M, = 1ULL << 40))
#define ZENUM(N, LOW, HIGH) TYPEDEF_ENUM (zn ## N ## _t, ATTRIBUTES (__attribute__ ((packed))), (ZN ## N ## _LOW, = LOW), (ZN ## N ## _0, = 0), (ZN ## N ## _8, = 8), (ZN ## N ## _M, = HIGH))
ZENUM (8, -1, 100) ZENUM (16, -300, 400) ZENUM (32, -70000, 100000) ZENUM (64, -(1LL << 40), 1LL << 40)
TYPEDEF_ENUM (zu16_t, ATTRIBUTES (__attribute__ ((packed))), (ZU16_0, = 0), (ZU16_8, = 8), (ZU16_M, = 60000))
enum { N_AF, N_BE, O_AF, O_BE, V_AF, S_AR, IN_AN, IN_EL, H_N };
static const char * const h_name[] = { "size before", "size after", "offset of size before", "offset of size after", "size not saved", "array cut to size", "within anonymous union", "in elements of an array" };
#define BYNAME { "n" }, "string"
#define HOLDERS(ID, ...) HOLDERS_ (ID, (__VA_ARGS__))
#define HOLDERS_(ID, N)							\
  TYPEDEF_STRUCT (be_ ## ID, N, ELEMENTS ({ "n" }, "string"), (int, w))	\
  TYPEDEF_STRUCT (af_ ## ID, ELEMENTS ({ "n" }, "string"), (int, w), N)	\
  TYPEDEF_STRUCT (sa_ ## ID, (int16_t, a, [6], , { "n" }, "string"), N, (int, w)) \
  TYPEDEF_STRUCT (ia_ ## ID, N, ANON_UNION (), (float, f), (int16_t *, p, , , { "n" }, "string"), END_ANON_UNION ("w"), (int, w)) \
  TYPEDEF_STRUCT (ea_ ## ID, (af_ ## ID, el, [2]), (int, w))		\
  Z_OPS (be_ ## ID) Z_OPS (af_ ## ID) Z_OPS (sa_ ## ID) Z_OPS (ia_ ## ID) Z_OPS (ea_ ## ID)
#define OHOLDERS(ID, T, M)						\
  TYPEDEF_STRUCT (ob_ ## ID, (T, n), ELEMENTS ({ .offset = offsetof (ob_ ## ID, n) }, "offset"), (int, w)) \
  TYPEDEF_STRUCT (oa_ ## ID, ELEMENTS ({ .offset = offsetof (oa_ ## ID, n) }, "offset"), (T, n), (int, w)) \
  TYPEDEF_STRUCT (vo_ ## ID, ELEMENTS ({ "n" }, "string"), VOID (T, n), (int, w)) \
  Z_OPS (ob_ ## ID) Z_OPS (oa_ ## ID) Z_OPS (vo_ ## ID)
typedef struct { const z_ops_t * ops; int off_e, off_w; void (*put) (void *, long long); long long (*get) (void *); } holder_t;
#define PG(T, D) static void put_ ## T (void * x, long long v) { ((T*)x)->n = v; } static long long get_ ## T (void * x) { return ((long long)(((T*)x)->n)); }
/* the size is behind a pointer */
#define PPG(T, D) static void put_ ## T (void * x, long long v) { ((T*)x)->n = mem_new (sizeof (*((T*)x)->n)); *((T*)x)->n = v; } static long long get_ ## T (void * x) { return (((T*)x)->n ? (long long)*((T*)x)->n : -1); }
#define EPG(T, D) static void put_ ## T (void * x, long long v) { put_ ## D (&((T*)x)->el[1], v); } static long long get_ ## T (void * x) { return (get_ ## D (&((T*)x)->el[1])); }
#define H(T, M) { &ops_ ## T, offsetof (T, M), offsetof (T, w), put_ ## T, get_ ## T }
#define TABLE_(ID) [N_BE] = H (af_ ## ID, p_i8), [N_AF] = H (be_ ## ID, p_i8), [S_AR] = H (sa_ ## ID, a), [IN_AN] = H (ia_ ## ID, p), [IN_EL] = H (ea_ ## ID, el[1].p_i8)
#define TABLE(ID) { TABLE_ (ID) }
#define OTABLE(ID) { TABLE_ (ID), [O_AF] = H (ob_ ## ID, p_i8), [O_BE] = H (oa_ ## ID, p_i8), [V_AF] = H (vo_ ## ID, p_i8) }
#define BITS(ID, ...) HOLDERS (ID, __VA_ARGS__) PG (be_ ## ID, ) PG (af_ ## ID, ) PG (sa_ ## ID, ) PG (ia_ ## ID, ) EPG (ea_ ## ID, af_ ## ID)
#define PLAIN(ID, T) BITS (ID, T, n) OHOLDERS (ID, T, n) PG (ob_ ## ID, ) PG (oa_ ## ID, ) PG (vo_ ## ID, )
#define PTRS(ID, T) HOLDERS (ID, T *, n) PPG (be_ ## ID, ) PPG (af_ ## ID, ) PPG (sa_ ## ID, ) PPG (ia_ ## ID, ) EPG (ea_ ## ID, af_ ## ID)
PLAIN (i8, int8_t) PLAIN (u8, uint8_t) PLAIN (i16, int16_t) PLAIN (u16, uint16_t) PLAIN (i32, int32_t) PLAIN (u32, uint32_t) PLAIN (i64, int64_t) PLAIN (u64, uint64_t)
PLAIN (i128, mr_int128_t) PLAIN (u128, mr_uint128_t) PLAIN (ch, char) PLAIN (bo, bool) PLAIN (e32, z32_t) PLAIN (e8, z8_t) PLAIN (e64, z64_t)
PLAIN (n8, zn8_t) PLAIN (n16, zn16_t) PLAIN (n32, zn32_t) PLAIN (n64, zn64_t) PLAIN (eu16, zu16_t)
BITS (b1, bool, n, : 1) BITS (b5, unsigned, n, : 5) BITS (b7, int, n, : 7) BITS (b40, uint64_t, n, : 40) BITS (be8, z8_t, n, : 8)
PTRS (pi, int) PTRS (pu8, uint8_t) PTRS (pe, z32_t) PTRS (psz, size_t)

enum { K_PLAIN, K_BITS, K_PTR };
typedef struct { const char * name; long long max; int kind; holder_t h[H_N]; } kind_t;
static const kind_t kinds[] = {
  { "int8_t", 127, K_PLAIN, OTABLE (i8) }, { "uint8_t", 255, K_PLAIN, OTABLE (u8) }, { "int16_t", 32767, K_PLAIN, OTABLE (i16) }, { "uint16_t", 65535, K_PLAIN, OTABLE (u16) },
  { "int32_t", 1 << 20, K_PLAIN, OTABLE (i32) }, { "uint32_t", 1 << 20, K_PLAIN, OTABLE (u32) }, { "int64_t", 1 << 20, K_PLAIN, OTABLE (i64) }, { "uint64_t", 1 << 20, K_PLAIN, OTABLE (u64) },
  { "int128", 1 << 20, K_PLAIN, OTABLE (i128) }, { "uint128", 1 << 20, K_PLAIN, OTABLE (u128) }, { "char", 127, K_PLAIN, OTABLE (ch) }, { "bool", 1, K_PLAIN, OTABLE (bo) },
  { "enum", 1 << 20, K_PLAIN, OTABLE (e32) }, { "8-bit enum", 255, K_PLAIN, OTABLE (e8) }, { "64-bit enum", 1 << 20, K_PLAIN, OTABLE (e64) },
  { "signed 8-bit enum", 127, K_PLAIN, OTABLE (n8) }, { "signed 16-bit enum", 32767, K_PLAIN, OTABLE (n16) }, { "signed enum", 1 << 20, K_PLAIN, OTABLE (n32) }, { "signed 64-bit enum", 1 << 20, K_PLAIN, OTABLE (n64) },
  { "16-bit enum", 65535, K_PLAIN, OTABLE (eu16) },
  { "bool : 1", 1, K_BITS, TABLE (b1) }, { "unsigned : 5", 31, K_BITS, TABLE (b5) }, { "int : 7", 63, K_BITS, TABLE (b7) }, { "uint64_t : 40", 1 << 20, K_BITS, TABLE (b40) }, { "8-bit enum : 8", 255, K_BITS, TABLE (be8) },
  { "int *", 1 << 20, K_PTR, TABLE (pi) }, { "uint8_t *", 255, K_PTR, TABLE (pu8) }, { "enum *", 1 << 20, K_PTR, TABLE (pe) }, { "size_t *", 1 << 20, K_PTR, TABLE (psz) },
};
#define N_KINDS (sizeof (kinds) / sizeof (kinds[0]))

static void
fill (int e, void * block, int count, int bytes)
{
  int i, k;
  memset (block, 0, bytes);
  for (i = 0; i < count; ++i)
    switch (e)
      {
      case E_I8: ((int8_t*)block)[i] = i - 2; break;
      case E_I16: ((int16_t*)block)[i] = 300 * i - 2; break;
      case E_I32: ((int32_t*)block)[i] = 70000 * i - 2; break;
      case E_I64: ((int64_t*)block)[i] = 5000000000LL * i - 2; break;
      case E_I128: ((mr_int128_t*)block)[i] = ((mr_int128_t)i << 70) - 2; break;
      case E_D: ((double*)block)[i] = i - 0.5; break;
      case E_LD: ((long double*)block)[i] = i - 0.25L; break;
      case E_B: ((bool*)block)[i] = !(i % 3); break;
      case E_EN: ((ez_t*)block)[i] = (ez_t[]){ EZ_A, EZ_B, EZ_C, 7 }[i % 4]; break;
      case E_CH: ((char*)block)[i] = "a\"0 \n<"[i % 6]; break;
      case E_STR: if (i % 3 != 2) ((char**)block)[i] = mem_str (((const char*[]){ "", "text" })[i & 1]); break;
      case E_S3: memcpy (((s3_t*)block)[i], ((const char*[]){ "abc", "\0\0\0", "d\0\0" })[i % 3], 3); break;
      case E_RE: { re_t * r = (re_t*)block + i; r->a = i; r->b = -i; r->t = i & 1 ? mem_str ("t") : NULL; r->next = i ? (re_t*)block + (i - 1) : NULL; } break;
      case E_PTR: if (i % 3 != 1) { re_t * r = ((re_t**)block)[i] = mem_new (sizeof (re_t)); r->a = i; r->next = i > 2 ? ((re_t**)block)[0] : r; } break;
      case E_IN: { in_t * r = (in_t*)block + i; r->k = (i % 4) * 2; if (r->k) { r->p = mem_new (r->k); for (k = 0; k < i % 4; ++k) r->p[k] = i * 10 + k; } } break;
      }
}
static int
same_text (const char * a, const char * b) { return (a && b ? 0 == strcmp (a, b) : a == b); }
/* -1 if alike, or the number of the first element that differs */
static int
differ (int e, void * x, void * y, int count)
{
  int i, k;
  for (i = 0; i < count; ++i)
    {
      int ok;
      switch (e)
	{
	case E_LD: ok = ((long double*)x)[i] == ((long double*)y)[i]; break;
	case E_STR: ok = same_text (((char**)x)[i], ((char**)y)[i]); break;
	case E_RE:
	  {
	    re_t * a = (re_t*)x + i, * b = (re_t*)y + i;
	    ok = a->a == b->a && a->b == b->b && same_text (a->t, b->t) && (a->next ? b->next == (re_t*)y + (a->next - (re_t*)x) : !b->next);
	  }
	  break;
	case E_PTR:
	  {
	    re_t * a = ((re_t**)x)[i], * b = ((re_t**)y)[i];
	    ok = !a == !b;
	    if (ok && a) ok = a->a == b->a && (b->next == (a->next == a ? b : ((re_t**)y)[0]));
	  }
	  break;
	case E_IN:
	  {
	    in_t * a = (in_t*)x + i, * b = (in_t*)y + i;
	    ok = a->k == b->k && !a->p == !b->p;
	    if (ok && a->p)
	      {
		mem_block_t * m = mem_find (b->p);
		ok = m && m->size >= a->k;
		for (k = 0; ok && k < a->k / 2; ++k) ok = a->p[k] == b->p[k];
	      }
	  }
	  break;
	default: ok = 0 == memcmp ((char*)x + i * e_size[e], (char*)y + i * e_size[e], e_size[e]);
	}
      if (!ok) return (i);
    }
  return (-1);
}

static int fmt;
#define WHO f_name[fmt], h_name[h], kinds[k].name
static void
verify (int k, int h, int e, void * x, void * y, int bytes, int declared, int null, const char * origin)
{
  const holder_t * t = &kinds[k].h[h];
  int size = h == S_AR || h == IN_AN ? 2 : e_size[e], count = bytes / size, i;
  mc_assert (*(int*)((char*)x + t->off_w) == *(int*)((char*)y + t->off_w), "%s, %s, %s%s: another member has changed", WHO, origin);
  long long n = t->get (y);
  if (h == S_AR)
    {
      int16_t * a = (int16_t*)((char*)x + t->off_e), * b = (int16_t*)((char*)y + t->off_e);
      if (count > 6) count = 6;
      for (i = 0; i < 6; ++i) mc_assert (b[i] == (i < count ? a[i] : 0) || (*origin && b[i] == a[i]), "%s, %s, %s%s: element %d of %d is wrong", WHO, origin, i, count);
      mc_assert (n == declared || (n / size == count), "%s, %s, %s%s: size %lld became %lld", WHO, origin, declared, n);
      return;
    }
    {
      void ** p = (void**)((char*)x + t->off_e), ** q = (void**)((char*)y + t->off_e);
      if (h != IN_AN) p += e, q += e;
      if (null || count == 0) { mc_assert (*q == NULL, "%s, %s, %s%s: null pointer, or one without elements, became something else", WHO, origin); return; }
      mc_assert (*q != NULL && *q != *p, "%s, %s, %s%s: %d elements are lost", WHO, origin, count);
      mem_block_t * m = mem_find (*q);
      mc_assert (m != NULL, "%s, %s, %s%s: elements are not in a block of their own", WHO, origin);
      mc_assert (m->size == (size_t)count * size || (*origin && m->size == bytes), "%s, %s, %s%s: %d elements of %d bytes are in a block of %zu", WHO, origin, count, size, m->size);
      mc_assert (n / size == count, "%s, %s, %s%s: %d elements of %d bytes, but the size is %lld", WHO, origin, count, size, n);
      int bad = differ (h == IN_AN ? E_I16 : e, *p, *q, count);
      mc_assert (bad < 0, "%s, %s, %s%s: element %d of %d is wrong", WHO, origin, bad, count);
    }
  if (null && h != V_AF) mc_assert (n == declared || n == 0, "%s, %s, %s%s: size %lld became %lld", WHO, origin, declared, n);
}
static void
build (int k, int h, int e, void * x, int declared, int null)
{
  const holder_t * t = &kinds[k].h[h];
  int size = h == S_AR || h == IN_AN ? 2 : e_size[e], i;
  void ** p = (void**)((char*)x + t->off_e);
  t->put (x, declared);
  *(int*)((char*)x + t->off_w) = h == IN_AN ? 1 : 5;
  if (null && h != S_AR) return;
  switch (h)
    {
    case S_AR: fill (E_I16, p, 6, 12); break;
    case IN_AN: *p = mem_new (declared ? declared : 1); fill (E_I16, *p, declared / 2, declared); break;
    default: p[e] = mem_new (declared ? declared : 1); fill (e, p[e], declared / size, declared); break;
    }
}
static void
sized (int from, int to)
{
  int k = from + mc_choose (to - from), h = mc_choose (H_N), e, count, extra, null;
  const holder_t * t = &kinds[k].h[h];
  if (!t->ops) mc_skip ();
  fmt = mc_choose (F_N);
  mc_shard ();
  e = h == S_AR || h == IN_AN ? E_I16 : mc_choose (E_N);
  count = mc_choose (mc_thorough ? 10 : 5);
  extra = mc_choose (2) ? e_size[e] - 1 : 0; /* sizes that are no multiple */
  if (extra == 0 && e_size[e] == 1) extra = 0;
  null = count ? !mc_choose (4) : 0;
  int declared = count * e_size[e] + extra;
  if (declared > kinds[k].max) mc_skip ();
  if (h == S_AR && null) mc_skip ();
  /* XML 1.0 cannot hold such a character, see C05 */
  if (fmt == F_XML2 && 0 == strcmp (kinds[k].name, "char") && declared && (declared < ' ' || declared > '~')) mc_skip ();
  char * x = mem_new (t->ops->size), * y = mem_new (t->ops->size);
  build (k, h, e, x, declared, null);
  mc_note ("%s, %s %s, %s: %d bytes for %d elements%s", f_name[fmt], h_name[h], kinds[k].name, e_name[e], declared, count, null ? ", null" : "");
  memset (y, 0xA5, t->ops->size);
  mr_rarray_t ra = t->ops->save (fmt, x);
  mc_assert (ra.data.ptr != NULL, "%s, %s, %s: save failed", WHO);
  mr_status_t st = t->ops->load (fmt, &ra, y);
  mc_note_add (" document: %s", z_doc (fmt, &ra));
  mc_assert (st == MR_SUCCESS, "%s, %s, %s: load failed", WHO);
  verify (k, h, e, x, y, declared, declared, null, "");
  if (fmt == 0)
    {
      char * z = mem_new (t->ops->size);
      mc_assert (MR_SUCCESS == t->ops->copy (x, z), "copy failed");
      /* a copy is made as a whole */
      verify (k, h, e, x, z, declared, declared, null, ", copy");
    }
  if (declared == count * e_size[e] && (count || null) && h != V_AF)
    {
      mc_assert (0 == t->ops->cmp (x, y), "%s, %s, %s: what was loaded compares as different", WHO);
      mc_assert (t->ops->hash (x) == t->ops->hash (y), "%s, %s, %s: what was loaded has another hash", WHO);
    }
  t->ops->free (y);
  mc_outcome (mc_hash (h_name[h], strlen (h_name[h]), ((declared * N_KINDS + k) * F_N + fmt) * E_N + e));
  z_drop (&ra);
}
static void plain (void) { sized (0, 8); }
static void wide (void) { sized (8, 20); }
static void bits (void) { sized (20, 25); }
static void indirect (void) { sized (25, N_KINDS); }

/* ---- input in which the size does not agree with the elements: written as one type, read as another ---- */
#define W_BODY(N, S) (int16_t *, p, , , { S }, "string"), (re_t *, q, , , { S }, "string"), (char *, t, , , { S }, "string", .stype.mr_type = MR_TYPE_POINTER)
#define DISAGREE(ID, ...)						\
  TYPEDEF_STRUCT (wb_ ## ID, (__VA_ARGS__), (int, m), W_BODY (n, "m"))	\
  TYPEDEF_STRUCT (rb_ ## ID, (__VA_ARGS__), (int, m), W_BODY (n, "n"))	\
  TYPEDEF_STRUCT (wa_ ## ID, W_BODY (n, "m"), (int, m), (__VA_ARGS__))	\
  TYPEDEF_STRUCT (ra_ ## ID, W_BODY (n, "n"), (int, m), (__VA_ARGS__))	\
  Z_OPS (wb_ ## ID) Z_OPS (rb_ ## ID) Z_OPS (wa_ ## ID) Z_OPS (ra_ ## ID) PG (wb_ ## ID, ) PG (rb_ ## ID, ) PG (wa_ ## ID, ) PG (ra_ ## ID, )
#define D_(W, R) { &ops_ ## W, &ops_ ## R, offsetof (W, p), offsetof (W, m), put_ ## W, get_ ## R, get_ ## W }
#define D(ID, MAX) { #ID, MAX, { D_ (wb_ ## ID, rb_ ## ID), D_ (wa_ ## ID, ra_ ## ID) } }
DISAGREE (i8, int8_t, n) DISAGREE (u16, uint16_t, n) DISAGREE (i32, int32_t, n) DISAGREE (u64, uint64_t, n) DISAGREE (e32, z32_t, n) DISAGREE (b7, int, n, : 7) DISAGREE (u128, mr_uint128_t, n)
DISAGREE (u8, uint8_t, n) DISAGREE (i16, int16_t, n) DISAGREE (u32, uint32_t, n) DISAGREE (i64, int64_t, n) DISAGREE (i128, mr_int128_t, n) DISAGREE (ch, char, n) DISAGREE (bo, bool, n)
DISAGREE (e8, z8_t, n) DISAGREE (e64, z64_t, n) DISAGREE (n8, zn8_t, n) DISAGREE (n16, zn16_t, n) DISAGREE (n32, zn32_t, n) DISAGREE (n64, zn64_t, n) DISAGREE (eu16, zu16_t, n)
DISAGREE (b5, unsigned, n, : 5) DISAGREE (b40, uint64_t, n, : 40) DISAGREE (be8, z8_t, n, : 8)
#undef PG
#define PG PPG
DISAGREE (pi, int *, n) DISAGREE (pu8, uint8_t *, n) DISAGREE (pe, z32_t *, n) DISAGREE (psz, size_t *, n)
#undef PG
#define PG(T, D) static void put_ ## T (void * x, long long v) { ((T*)x)->n = v; } static long long get_ ## T (void * x) { return ((long long)(((T*)x)->n)); }
static const struct { const char * name; long long max; struct { const z_ops_t * w, * r; int off_p, off_m; void (*put) (void *, long long); long long (*get) (void *), (*get_w) (void *); } d[2]; } dis[] = {
  D (i8, 127), D (u16, 65535), D (i32, 0x7fffffff), D (u64, 0x7fffffff), D (e32, 0x7fffffff), D (b7, 63), D (u128, 0x7fffffff), D (pi, 0x7fffffff),
  D (u8, 255), D (i16, 32767), D (u32, 0x7fffffff), D (i64, 0x7fffffff), D (i128, 0x7fffffff), D (ch, 127), D (bo, 1), D (e8, 255), D (e64, 0x7fffffff), D (n8, 127), D (n16, 32767), D (n32, 0x7fffffff), D (n64, 0x7fffffff),
  D (eu16, 65535), D (b5, 31), D (b40, 0x7fffffff), D (be8, 255), D (pu8, 255), D (pe, 0x7fffffff), D (psz, 0x7fffffff)
};
static void
disagree (void)
{
  static const int numbers[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 48, 63, 64, 127, 128, 255, 1000, 65535, 1 << 20, 0x7fffffff, -1, -2, -8, -128, -32768, -0x7fffffff };
  static const int kind[] = { E_I16, E_RE, E_CH };
  int k = mc_choose (sizeof (dis) / sizeof (dis[0])), after = mc_choose (2), w, count, number, i;
  fmt = mc_choose (F_N);
  mc_shard ();
  w = mc_choose (3); count = mc_choose (5); number = numbers[mc_choose (sizeof (numbers) / sizeof (numbers[0]))];
  if (number > dis[k].max || count * e_size[kind[w]] > dis[k].max) mc_skip ();
  typeof (&dis[k].d[after]) d = &dis[k].d[after];
  char * x = mem_new (d->w->size), * y = mem_new (d->r->size), * z = mem_new (d->r->size);
  void ** p = (void**)(x + d->off_p), ** q = (void**)(y + d->off_p);
  int e = kind[w], bytes = count * e_size[e];
  *(int*)(x + d->off_m) = bytes;
  d->put (x, number);
  if (d->get_w (x) != number) mc_skip ();
  if (fmt == F_XML2 && !strcmp (dis[k].name, "ch") && (number < ' ' || number > '~') && number != 0) mc_skip (); /* no such characters in XML */
  if (count) { p[w] = mem_new (bytes); fill (e, p[w], count, bytes); }
  mc_note ("%s, size %s, %s, %s: %d elements, size says %d", f_name[fmt], after ? "after" : "before", dis[k].name, e_name[e], count, number);
  mr_rarray_t ra = d->w->save (fmt, x);
  if (fmt != F_XDR) /* XML has the name of the type */
    { char * r; while ((r = strstr (ra.data.ptr, d->w->name))) memcpy (r, d->r->name, strlen (d->r->name)); }
  memset (y, 0xA5, d->r->size);
  mr_status_t st = d->r->load (fmt, &ra, y);
  mc_note_add (" document: %s", z_doc (fmt, &ra));
  mc_assert (st == MR_SUCCESS, "%s: load failed", f_name[fmt]);
  mc_assert (*(int*)(y + d->off_m) == bytes, "%s: another member has changed", f_name[fmt]);
  if (count == 0) mc_assert (q[w] == NULL, "%s: null pointer became something else", f_name[fmt]);
  else
    {
      mem_block_t * m = mem_find (q[w]);
      mc_assert (m != NULL && m->size == bytes, "%s: elements are not in a block of their size", f_name[fmt]);
      mc_assert (differ (e, p[w], q[w], count) < 0, "%s: elements have changed", f_name[fmt]);
      /* a size behind its pointer may be less in a stream */
      mc_assert (d->get (y) == bytes || (fmt == F_XDR && after && d->get (y) == number && number < bytes && number >= e_size[e]), "%s, size %s: %d elements in %d bytes, but the size is %lld", f_name[fmt], after ? "after" : "before", count, bytes, d->get (y));
    }
  for (i = 0; i < 3; ++i) if (i != w) mc_assert (q[i] == NULL, "%s: null pointer became something else", f_name[fmt]);
  mc_assert (MR_SUCCESS == d->r->copy (y, z), "copy failed");
  mc_assert (0 == d->r->cmp (y, z), "copy compares as different");
  d->r->free (y); d->r->free (z);
  mc_outcome (mc_hash (dis[k].name, strlen (dis[k].name), ((number * 2 + after) * F_N + fmt) * 16 + w * 5 + count));
  z_drop (&ra);
}

/* ---- raw bytes ---- */
#define RAWS(ID, ...)							\
  TYPEDEF_STRUCT (xb_ ## ID, (__VA_ARGS__), (void *, MR_OPAQUE_DATA, , , { "n" }, "string"), (int, w)) \
  TYPEDEF_STRUCT (xa_ ## ID, (int16_t *, MR_OPAQUE_DATA, , , { "n" }, "string"), (int, w), (__VA_ARGS__)) \
  Z_OPS (xb_ ## ID) Z_OPS (xa_ ## ID) PG (xb_ ## ID, ) PG (xa_ ## ID, )
RAWS (i8, int8_t, n) RAWS (i32, int32_t, n) RAWS (u64, uint64_t, n) RAWS (b7, int, n, : 7)
#define X(ID) { &ops_ ## ID, offsetof (ID, MR_OPAQUE_DATA), offsetof (ID, w), put_ ## ID, get_ ## ID }
static const holder_t raws[] = { X (xb_i8), X (xa_i8), X (xb_i32), X (xa_i32), X (xb_u64), X (xa_u64), X (xb_b7), X (xa_b7) };
static void
raw (void)
{
  const holder_t * t = &raws[mc_choose (8)];
  int n = mc_choose (64), i, fill = mc_choose (3), null = n ? !mc_choose (4) : 0;
  char * x = mem_new (t->ops->size), * y = mem_new (t->ops->size), * z = mem_new (t->ops->size);
  void ** p = (void**)(x + t->off_e), ** q = (void**)(y + t->off_e), ** c = (void**)(z + t->off_e);
  mc_note ("%s: %d raw bytes%s", t->ops->name, n, null ? ", null" : "");
  t->put (x, n);
  *(int*)(x + t->off_w) = 5;
  if (!null) { *p = mem_new (n ? n : 1); for (i = 0; i < n; ++i) ((char*)*p)[i] = fill == 0 ? 0 : fill == 1 ? i * 37 : 255; }
  mr_rarray_t ra = t->ops->save (F_XDR, x);
  mc_assert (ra.data.ptr != NULL, "save failed");
  memset (y, 0xA5, t->ops->size);
  mc_assert (MR_SUCCESS == t->ops->load (F_XDR, &ra, y), "load failed");
  mc_assert (*(int*)(y + t->off_w) == 5, "another member has changed");
  mc_assert (t->get (y) == n, "size %d became %lld", n, t->get (y));
  if (n == 0 || null) mc_assert (*q == NULL, "null pointer became something else");
  else
    {
      mem_block_t * m = mem_find (*q);
      mc_assert (m != NULL && m->size == n, "bytes are not in a block of their size");
      mc_assert (0 == memcmp (*p, *q, n), "bytes have changed");
    }
  mc_assert (MR_SUCCESS == t->ops->copy (x, z), "copy failed");
  /* nothing is known about what an untyped pointer without a size points to, so that a copy keeps its value */
  if (n == 0 || null) mc_assert (*c == NULL || (0 == strncmp (t->ops->name, "xb_", 3) && *c == *p), "copy: null pointer became something else");
  else
    {
      mem_block_t * m = mem_find (*c);
      mc_assert (m != NULL && m->size == n && *c != *p, "copy: bytes are not in a block of their size");
      mc_assert (0 == memcmp (*p, *c, n), "copy: bytes have changed");
    }
  t->ops->free (y); t->ops->free (z);
  mc_assert (!mem_find (*q) || *q == NULL, "bytes are not released");
  mc_outcome (mc_hash (t->ops->name, 4, n * 8 + fill * 2 + null));
  z_drop (&ra);
}

static mc_scope_t mc_scopes[] = { { "disagree", disagree }, { "raw", raw }, { "plain", plain }, { "wide", wide }, { "bits", bits }, { "indirect", indirect }, { 0 } };
static void mc_setup (void) { z_setup (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
