/* C25: MR_FPRINT prints every argument of a list in order and returns the number of characters. */
/* what DWARF or clang would tell: names of the types of pointers */
#define MR_OBJ_TYPE(P) _Generic ((P), struct pst_t *: "pst_t", struct pst_t: "pst_t", union pun_t *: "pun_t", default: NULL)
#include "zoo.h"
#include <complex.h>
#include <inttypes.h>
#include <math.h>
#include <float.h>

TYPEDEF_STRUCT (pst_t, (int, i), (char *, s), (struct pst_t *, next), (double, d, [2]))
TYPEDEF_UNION (pun_t, (int, i), (float, f))
TYPEDEF_ENUM (pen_t, (PE_ZERO, = 0), (PE_MINUS, = -5), (PE_SEVEN, = 7), (PE_LAST, = 0x7fffffff))
TYPEDEF_ENUM (pe8_t, ATTRIBUTES (__attribute__ ((packed))), (P8_ONE, = 1), (P8_MAX, = 255))
TYPEDEF_ENUM (ps8_t, ATTRIBUTES (__attribute__ ((packed))), (PS_MINUS, = -1), (PS_MIN, = -128), (PS_MAX, = 127))
TYPEDEF_ENUM (pe64_t, (P64_BIG, = 0x7ffffffffffffffeLL), (P64_LOW, = -0x7ffffffffffffffeLL), (P64_3, = 3))

typedef complex float cf_t; typedef complex double cd_t; typedef complex long double cl_t; typedef __int128 i128_t; typedef unsigned __int128 u128_t;
typedef long double ld_t; typedef char * str_t; typedef const char * cstr_t; typedef unsigned long long ull_t; typedef long long ll_t; typedef unsigned long ul_t; typedef long l_t;
typedef void * ptr_t; typedef const volatile void * cvptr_t;

static char * dec (u128_t u, int neg)
{
  static char b[4][48];
  static int k;
  char * p = b[k = (k + 1) & 3] + 47;
  *p = 0;
  do *--p = "0123456789"[(int)(u % 10)]; while (u /= 10);
  if (neg) *--p = '-';
  return (p);
}
#define CF(R, I) CMPLXF (R, I)
#define CD(R, I) CMPLX (R, I)
#define CL(R, I) CMPLXL (R, I)
/* name, C type, how it is to be printed (FORMAT, ...) of v, values */
#define KINDS(X)																	\
  X (ch, char, ("%c", v), 'a', '\n', '%', '\\', (char)0xff, 1)											\
  X (bo, bool, ("%s", v ? "true" : "false"), true, false)											\
  X (i8, int8_t, ("%d", v), 0, -1, INT8_MIN, INT8_MAX)												\
  X (u8, uint8_t, ("%u", v), 0, 1, 128, UINT8_MAX)												\
  X (i16, int16_t, ("%d", v), 0, -1, INT16_MIN, INT16_MAX)											\
  X (u16, uint16_t, ("%u", v), 0, 32768, UINT16_MAX)												\
  X (i32, int32_t, ("%d", v), 0, -1, INT32_MIN, INT32_MAX)											\
  X (u32, uint32_t, ("%u", v), 0, 0x80000000u, UINT32_MAX)											\
  X (i64, ll_t, ("%lld", v), 0, -1, INT64_MIN, INT64_MAX, 0x100000000LL)										\
  X (u64, ull_t, ("%llu", v), 0, 1ULL << 63, UINT64_MAX)												\
  X (lo, l_t, ("%ld", v), 0, -1, LONG_MIN, LONG_MAX)												\
  X (ul, ul_t, ("%lu", v), 0, ULONG_MAX)														\
  X (i128, i128_t, ("%s", dec (v < 0 ? -(u128_t)v : v, v < 0)), 0, -1, (i128_t)1 << 127, ~((i128_t)1 << 127), (i128_t)1 << 64, -((i128_t)1 << 64), 10, -99)		\
  X (u128, u128_t, ("%s", dec (v, 0)), 0, 9, ~(u128_t)0, (u128_t)1 << 127, (u128_t)1 << 64)							\
  X (fl, float, ("%g", (double)v), 0, -0.0f, 1.5f, FLT_MAX, FLT_MIN, -1e-7f, INFINITY, NAN)							\
  X (dl, double, ("%g", v), 0, -0.0, 0.1, 123456789, DBL_MAX, -DBL_MIN, -INFINITY)									\
  X (lg, ld_t, ("%Lg", v), 0, -0.0L, 0.1L, LDBL_MAX, -LDBL_MIN, INFINITY)										\
  X (cf, cf_t, ("%g%+gI", (double)crealf (v), (double)cimagf (v)), CF (0, 0), CF (1.5f, -2), CF (-1, FLT_MAX), CF (INFINITY, -0.0f))				\
  X (cd, cd_t, ("%g%+gI", creal (v), cimag (v)), CD (0, 0), CD (1.5, -2), CD (-1, DBL_MAX), CD (NAN, 7))						\
  X (cl, cl_t, ("%Lg%+LgI", creall (v), cimagl (v)), CL (0, 0), CL (1.5L, -2), CL (-1, LDBL_MAX))							\
  X (st, str_t, ("%s", v), "", "abc", "100% %s %n", "two\nlines", "\xc3\xa9")									\
  X (cs, cstr_t, ("%s", v), "", "const", "%d")													\
  X (pt, ptr_t, (v ? "%p" : "(null)", v), NULL, (void*)1, (void*)0x7fffffffffff)									\
  X (cv, cvptr_t, (v ? "%p" : "(null)", v), NULL, (void*)16)

#define REMOVE(...) __VA_ARGS__
#define DECLARE(N, T, F, ...)									\
  static const T val_##N[] = { __VA_ARGS__ };							\
  static void exp_##N (char * out, T v) { sprintf_ (out, REMOVE F); }
static void sprintf_ (char * out, const char * f, ...) { va_list a; va_start (a, f); vsprintf (out, f, a); va_end (a); }
KINDS (DECLARE)
#define NVAL(N) ((int)(sizeof (val_##N) / sizeof (val_##N[0])))

static FILE * out_f;
static char * out_text;
static size_t out_size;
static void p_open (void) { out_text = NULL; out_f = open_memstream (&out_text, &out_size); }
static void
p_check (int rv, const char * must)
{
  fclose (out_f);
  char got[6000];
  snprintf (got, sizeof (got), "%s", out_text);
  size_t n = out_size;
  mc_note ("must be %s", mc_quote (must, strlen (must)));
  mc_outcome (mc_hash (must, strlen (must), mc_sh->ch[0]));
  int same = n == strlen (must) && 0 == memcmp (out_text, must, n);
  free (out_text);
  if (!same) mc_fail ("printed %s", mc_quote (got, strlen (got)));
  mc_assert (rv == (int)n, "%zu characters are printed, %d is returned", n, rv);
}

/* one argument, alone and in the middle */
#define ONE(N, T, F, ...)							\
  static void one_##N (void)							\
  {										\
    T v = val_##N[mc_choose (NVAL (N))];					\
    char e[3][6000], must[6000];						\
    int rv;									\
    exp_##N (e[0], v);								\
    p_open ();									\
    if (mc_choose (2)) { rv = MR_FPRINT (out_f, v); strcpy (must, e[0]); }	\
    else { rv = MR_FPRINT (out_f, "<", v, ">", v, 10); sprintf (must, "<%s>%s10", e[0], e[0]); }	\
    p_check (rv, must);								\
  }
KINDS (ONE)
#define NAME_ONE(N, ...) one_##N,
static void (* const ones[]) (void) = { KINDS (NAME_ONE) };
#define NK ((int)(sizeof (ones) / sizeof (ones[0])))
static void one (void) { int k = mc_choose (NK); mc_shard (); ones[k] (); }

/* an evaluation counted: every argument is evaluated once, from left to right */
static int tick;
static int next_tick (void) { return (++tick); }


#define VALUE(N, V) __typeof__ (((val_##N)[0])) const_##V = val_##N[mc_choose (NVAL (N))]; T_##N V = const_##V
#define TYPE_OF(N, T, F, ...) typedef T T_##N;
KINDS (TYPE_OF)
#define PAIR(A, B)								\
  static void pair_##A##_##B (void)						\
  {										\
    VALUE (A, a); VALUE (B, b);							\
    char e[2][6000], must[12100];						\
    exp_##A (e[0], a); exp_##B (e[1], b);					\
    sprintf (must, "%s%s", e[0], e[1]);						\
    p_open ();									\
    int rv = MR_FPRINT (out_f, a, b);						\
    p_check (rv, must);								\
  }
#define QUINT(NAME, A, B, C, D, E)						\
  static void NAME (void)							\
  {										\
    VALUE (A, a); VALUE (B, b); VALUE (C, c); VALUE (D, d); VALUE (E, g);	\
    char e[5][6000], must[32000];						\
    exp_##A (e[0], a); exp_##B (e[1], b); exp_##C (e[2], c); exp_##D (e[3], d); exp_##E (e[4], g);	\
    sprintf (must, "%s %s, %s%s = %s", e[0], e[1], e[2], e[3], e[4]);		\
    p_open ();									\
    int rv = MR_FPRINT (out_f, a, " ", b, ", ", c, d, " = ", g);		\
    p_check (rv, must);								\
  }
#include "print_lists.h"
static void two (void) { int k = mc_choose (NK * NK); mc_shard (); pairs[k] (); }
static void lists (void) { int k = mc_choose ((int)(sizeof (quints) / sizeof (quints[0]))); mc_shard (); quints[k] (); }

/* arguments are expressions: evaluated once, arrays, literals, members, parentheses */
static void
forms (void)
{
  char must[6000], buf[] = "array", full[12] = "twelve";
  struct { char c; signed char sc; unsigned char uc; short h; float f; char t[8]; const char * p; } x = { 'x', -7, 200, -300, 0.25f, "member", "pointed" }, * px = &x;
  int i = 41, rv, k = mc_choose (12);
  mc_shard ();
  tick = 0;
  p_open ();
  switch (k)
    {
    case 0: rv = MR_FPRINT (out_f, "literal"); strcpy (must, "literal"); break;
    case 1: rv = MR_FPRINT (out_f, buf, full); strcpy (must, "arraytwelve"); break;
    case 2: rv = MR_FPRINT (out_f, i + 1, ",", 2.5f * 2, ",", (char)('a' + 1)); strcpy (must, "42,5,b"); break;
    case 3: rv = MR_FPRINT (out_f, x.c, x.sc, x.uc, x.h, x.f, x.t, x.p); strcpy (must, "x-7200-3000.25memberpointed"); break;
    case 4: rv = MR_FPRINT (out_f, px->c, px->sc, px->uc, px->h, px->f, px->t, px->p); strcpy (must, "x-7200-3000.25memberpointed"); break;
    case 5: rv = MR_FPRINT (out_f, next_tick ()); strcpy (must, "1"); mc_assert (tick == 1, "the argument is evaluated %d times", tick); break;
    case 6: rv = MR_FPRINT (out_f, (i), (i + 1)); strcpy (must, "4142"); break;
    case 7: rv = MR_FPRINT (out_f, 'a', 1L, 2LL, 3u, 4ul, 5ull, true, 1 == 2); strcpy (must, "9712345"); strcat (must, "10"); break;
    case 8: rv = MR_FPRINT (out_f, sizeof (x.t), i ? "yes" : "no", !i); strcpy (must, "8yes0"); break;
    case 9: rv = MR_FPRINT (out_f, (const char*)buf, (char*)full, (const volatile char *)x.t); strcpy (must, "arraytwelvemember"); break;
    case 10: rv = MR_FPRINT (out_f, "", "", ""); strcpy (must, ""); break;
    default: rv = MR_FPRINT (out_f, i++, ' ', i++ * 0); sprintf (must, "41%d0", ' '); mc_assert (i == 43, "i is %d", i); break;
    }
  p_check (rv, must);
}
/* names of enumeration constants, numbers for all other values */
static void
enums (void)
{
  static const long long ev[] = { 0, -5, 7, 0x7fffffff, 1, -1, 6, INT32_MIN }, e8[] = { 1, 255, 0, 2, 254 }, s8[] = { -1, -128, 127, 0, 1, -2 }, e64[] = { 3, 0x7ffffffffffffffeLL, -0x7ffffffffffffffeLL, 0, 2, -3 };
  static const char * const en[] = { "PE_ZERO", "PE_MINUS", "PE_SEVEN", "PE_LAST" }, * const n8[] = { "P8_ONE", "P8_MAX" }, * const ns8[] = { "PS_MINUS", "PS_MIN", "PS_MAX" }, * const n64[] = { "P64_3", "P64_BIG", "P64_LOW" };
  char must[100];
  int k = mc_choose (4), rv, i;
  mc_shard ();
  p_open ();
#define ENUM(T, V, NAMES)												\
  i = mc_choose ((int)(sizeof (V) / sizeof (V[0])));									\
  if (i < (int)(sizeof (NAMES) / sizeof (NAMES[0]))) strcpy (must, NAMES[i]); else sprintf (must, "%lld", V[i]);	\
  rv = mr_print_value (out_f, MR_TYPE_DETECT (T), MR_TYPE_NONE, __builtin_classify_type ((T)0), -1, #T, "CINIT", (T)V[i]);
  if (k == 0) { ENUM (pen_t, ev, en) if (i >= 4) { sprintf (must, MR_TYPE_DETECT (pen_t) == MR_TYPE_UINT32 ? "%u" : "%d", (int)ev[i]); } }
  else if (k == 1) { ENUM (pe8_t, e8, n8) }
  else if (k == 2) { ENUM (ps8_t, s8, ns8) }
  else { ENUM (pe64_t, e64, n64) }
  p_check (rv, must);
}
/* objects: (type, pointer), (type, pointer, method), plain pointers and structures */
static pst_t *
make_pst (void)
{
  pst_t * p = mem_new (sizeof (*p));
  p->i = mc_choose (2) ? -7 : 0;
  switch (mc_choose (3)) { case 1: p->s = mem_str ("text\n"); break; case 2: p->s = mem_str (""); break; }
  switch (mc_choose (3)) { case 1: p->next = p; break; case 2: p->next = mem_new (sizeof (*p)); p->next->i = 9; break; }
  p->d[1] = 0.5;
  return (p);
}
static void
objects (void)
{
  char must[6000], addr[40];
  int k = mc_choose (18), rv = 0, i = 3;
  mc_shard ();
  pst_t * p = make_pst (), * none = NULL;
  pun_t * u = mem_new (sizeof (*u));
  char * s = NULL;
  int numbers[3] = { 1, -2, 3 }, * pi = numbers, * no_int = NULL;
  static double numbers_d[2] = { 0.5, -1 };
  double * pd = numbers_d;
  bool flag = true, * pb = &flag;
  const int * pci = numbers;
  u->i = 5;
  p_open ();
  sprintf (addr, "%p", (void*)p);
#define CHOP(S) ({ s = (S); mc_assert (s && *s, "save fails"); s[strlen (s) - 1] = 0; s; })
  switch (k)
    {
    case 0: rv = MR_FPRINT (out_f, "a", (pst_t, p), i); s = MR_SAVE_CINIT (pst_t, p); sprintf (must, "a%s3", s); break;
    case 1: rv = MR_FPRINT (out_f, "a", (pst_t, p, CINIT), i); s = MR_SAVE_CINIT (pst_t, p); sprintf (must, "a%s3", s); break;
    case 2: rv = MR_FPRINT (out_f, (pst_t, p, JSON), i); s = MR_SAVE_JSON (pst_t, p); sprintf (must, "%s3", s); break;
    case 3: rv = MR_FPRINT (out_f, (pst_t, p, SCM), i); s = MR_SAVE_SCM (pst_t, p); sprintf (must, "%s3", s); break;
    case 4: rv = MR_FPRINT (out_f, (pst_t, p, XML1), i); s = MR_SAVE_XML1 (pst_t, p); sprintf (must, "%s3", s); break;
    case 5: rv = MR_FPRINT (out_f, (pst_t, p, XML2), i); s = MR_SAVE_XML2 (pst_t, p); sprintf (must, "%s3", s); break;
    case 6: rv = MR_FPRINT (out_f, (pst_t, p, YAML), i); s = MR_SAVE_YAML (pst_t, p); sprintf (must, "%s3", s); break;
    case 7: rv = MR_FPRINT (out_f, "[", p, "]"); sprintf (must, "[%s (pst_t)%s]", addr, CHOP (MR_SAVE_CINIT (pst_t, p))); break;
    case 8: /* a structure by value: gcc's __builtin_choose_expr makes it a block of one structure; only the content is compared */
      {
	char a[6000];
	int n;
	rv = MR_FPRINT (out_f, "[", *p, "]");
	fflush (out_f);
	s = MR_SAVE_CINIT (pst_t, p);
	const char * q;
	for (n = 0, q = s; *q; ++q) if (!strchr (" \n{}[]", *q)) a[n++] = *q;
	a[n] = 0;
	char b[6000], * r;
	for (n = 0, q = out_text; *q; ++q) if (!strchr (" \n{}[]", *q)) b[n++] = *q;
	b[n] = 0;
	for (q = r = a; *q;) if (!strncmp (q, "/*", 2)) { while (strncmp (q, "*/", 2)) ++q; q += 2; } else *r++ = *q++;
	*r = 0;
	for (q = r = b; *q;) if (!strncmp (q, "/*", 2)) { while (strncmp (q, "*/", 2)) ++q; q += 2; } else *r++ = *q++;
	*r = 0;
	mc_note ("must contain %s", a);
	mc_assert (!strcmp (a, b), "printed %s", b);
	snprintf (must, sizeof (must), "%s", out_text);
	break;
      }
    case 9: rv = MR_FPRINT (out_f, "[", none, "]"); strcpy (must, "[(null)]"); break;
    case 10: rv = MR_FPRINT (out_f, "[", u, "]"); sprintf (must, "[%p (pun_t)%s]", (void*)u, CHOP (MR_SAVE_CINIT (pun_t, u))); break;
    case 11: rv = MR_FPRINT (out_f, pi); sprintf (must, "%p (int32_t)1", (void*)pi); break;
    case 12: rv = MR_FPRINT (out_f, no_int, pci); sprintf (must, "(null)%p (int32_t)1", (void*)pci); break;
    case 13: rv = MR_FPRINT (out_f, pd, ";", pb); sprintf (must, "%p (double)0.5;%p (_Bool)true", (void*)pd, (void*)pb); break;
    case 14: rv = MR_FPRINT (out_f, numbers); sprintf (must, "%p (int32_t[]){\n  1,\n  -2,\n  3\n}", (void*)numbers); break;
    case 15: { str_t t = "word", * pt = &t; rv = MR_FPRINT (out_f, pt, i); sprintf (must, "%p (string_t)\"word\"3", (void*)pt); break; }
    case 16: { char c = 'q', * none_s = NULL; rv = MR_FPRINT (out_f, none_s, c); strcpy (must, "(null)q"); break; }
    default: { ull_t q = 18446744073709551615ULL, * pq = &q; rv = MR_FPRINT (out_f, pq, i); sprintf (must, "%p (uint64_t)18446744073709551615" "3", (void*)pq); break; }
    }
  if (s) MR_FREE (s);
  p_check (rv, must);
}
/* mr_print_value for pointers, with every method */
static void
methods (void)
{
  static const char * const name[] = { "CINIT", "JSON", "SCM", "XML", "XML1", "XML2", "YAML" };
  char must[6000], * s;
  int k = mc_choose (7), rv, whole = mc_choose (2);
  mc_shard ();
  pst_t * p = make_pst ();
  switch (k)
    {
    case 0: s = MR_SAVE_CINIT (pst_t, p); break;
    case 1: s = MR_SAVE_JSON (pst_t, p); break;
    case 2: s = MR_SAVE_SCM (pst_t, p); break;
    case 4: s = MR_SAVE_XML1 (pst_t, p); break;
    case 6: s = MR_SAVE_YAML (pst_t, p); break;
    default: s = MR_SAVE_XML2 (pst_t, p); break;
    }
  mc_assert (s && *s, "save fails");
  if (s[strlen (s) - 1] == '\n') s[strlen (s) - 1] = 0;
  if (whole) strcpy (must, s);
  else sprintf (must, k ? "%p %s%s" : "%p (pst_t)%s%s", (void*)p, k ? "" : s, k ? s : "");
  p_open ();
  rv = mr_print_value (out_f, MR_TYPE_NONE, MR_TYPE_NONE, whole ? MR_RECORD_TYPE_CLASS : MR_POINTER_TYPE_CLASS, -1, "pst_t", (char*)name[k], p);
  p_check (rv, must);
}
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (one), S (two), S (lists), S (forms), S (enums), S (objects), S (methods), { 0 } };
static void
mc_setup (void)
{
  z_setup ();
  pst_t x = { 0 };
  int i;
  char * s[] = { MR_SAVE_CINIT (pst_t, &x), MR_SAVE_JSON (pst_t, &x), MR_SAVE_SCM (pst_t, &x), MR_SAVE_XML1 (pst_t, &x), MR_SAVE_YAML (pst_t, &x) };
  for (i = 0; i < 5; ++i) MR_FREE (s[i]);
  MR_FPRINT (stderr, "");
}
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
