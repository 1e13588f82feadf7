/* C18: constant expressions are evaluated as in C, or refused. An evaluator of its own decides what is right. */
#include "zoo.h"
#include <complex.h>
#include <math.h>

TYPEDEF_ENUM (k18_t, (K_NEG, = -3), (K_ZERO, = 0), (K_ONE, = 1), (K_SIX, = 6), (K_BIG, = 0x7ffffff0))
TYPEDEF_ENUM (w18_t, ATTRIBUTES (__attribute__ ((packed))), (KU_200, = 200), (KU_7, = 7), (I18, = 5), (inform, = 9), (nanny, = 11), (K, = 4), (true_north, = 12))
TYPEDEF_ENUM (q18_t, (KQ_HUGE, = 0x7fffffffffff0000LL), (KQ_LOW, = -0x7fffffffffff0000LL))

TYPEDEF_STRUCT (x18_t, int8_t i8, uint8_t u8, int16_t i16, uint16_t u16, int32_t i32, uint32_t u32, int64_t i64, uint64_t u64, bool b, (k18_t, e), (w18_t, w),
		BITFIELD (int32_t, s5, :5), BITFIELD (uint32_t, u3, :3), float f, double d, long double ld, (complex_long_double_t, c), (complex_double_t, cd))

typedef struct { enum { NONE, INT, FLT, CPX } t; __int128 i; long double f; complex long double c; } v_t;
#define VI(X) ((v_t) { .t = INT, .i = (X) })
#define VF(X) ((v_t) { .t = FLT, .f = (X) })
static v_t
VC (long double re, long double im)
{
  v_t v = { .t = CPX };
  __real__ v.c = re; __imag__ v.c = im;
  return (v);
}
typedef struct { const char * text; v_t v; } lit_t;
static int rounding; /* complex multiplication and division are not exact */
static int off; /* beyond what is specified: more than 128 bits, complex infinities */

static v_t
lift (v_t v, int t)
{
  if (v.t == INT && t == FLT) return (VF (v.i));
  if (v.t == INT && t == CPX) return (VC (v.i, 0));
  if (v.t == FLT && t == CPX) return (VC (v.f, 0));
  return (v);
}
static v_t
apply (char op, v_t a, v_t b)
{
  v_t r = { NONE };
  int t = a.t > b.t ? a.t : b.t;
  if (a.t == NONE || b.t == NONE) return (r);
  if (strchr ("%|&^", op))
    {
      if (t != INT) return (r);
      if (op == '%') return (b.i == 0 ? r : VI (a.i - a.i / b.i * b.i));
      return (VI (op == '|' ? a.i | b.i : op == '&' ? a.i & b.i : a.i ^ b.i));
    }
  a = lift (a, t); b = lift (b, t);
  r.t = t;
  if (t == INT)
    switch (op)
      {
      case '+': if (__builtin_add_overflow (a.i, b.i, &r.i)) off = 1; break;
      case '-': if (__builtin_sub_overflow (a.i, b.i, &r.i)) off = 1; break;
      case '*': if (__builtin_mul_overflow (a.i, b.i, &r.i)) off = 1; break;
      case '/': if (b.i == 0) r.t = NONE; else r.i = a.i / b.i; break;
      }
  else if (t == FLT)
    switch (op)
      {
      case '+': r.f = a.f + b.f; break;
      case '-': r.f = a.f - b.f; break;
      case '*': r.f = a.f * b.f; break;
      case '/': off |= isnan (b.f); if (b.f == 0) r.t = NONE; else r.f = a.f / b.f; break;
      }
  else
    {
      if (!isfinite (creall (a.c)) || !isfinite (cimagl (a.c)) || !isfinite (creall (b.c)) || !isfinite (cimagl (b.c))) off |= strchr ("*/", op) != NULL;
      rounding |= strchr ("*/", op) != NULL;
      switch (op)
	{
	case '+': r.c = a.c + b.c; break;
	case '-': r.c = a.c - b.c; break;
	case '*': r.c = a.c * b.c; break;
	case '/': if (b.c == 0) r.t = NONE; else r.c = a.c / b.c; break;
	}
    }
  return (r);
}
static v_t
negate (v_t a)
{
  if (a.t == INT) a.i = -a.i;
  else if (a.t == FLT) a.f = -a.f;
  else if (a.t == CPX) a.c = -a.c;
  return (a);
}

/* the evaluator: precedence climbing over a sequence of tokens; an operand is a pointer into the table of literals */
typedef struct { char op; const lit_t * lit; } tok_t;
static const tok_t * tp, * te;
static int bad; /* not an expression */
static int void_value;
static int prec (char op) { return (op == '|' ? 1 : op == '^' ? 2 : op == '&' ? 3 : strchr ("+-", op) ? 4 : strchr ("*/%", op) ? 5 : 0); }
static v_t climb (int min);
static v_t
operand (void)
{
  v_t v = { NONE };
  if (tp >= te) { bad = 1; return (v); }
  if (tp->lit) return ((tp++)->lit->v);
  char op = (tp++)->op;
  if (op == '+') return (operand ());
  if (op == '-') return (negate (operand ()));
  if (op != '(') { bad = 1; return (v); }
  v = climb (1);
  if (bad || tp >= te || tp->lit || tp->op != ')') { bad = 1; return (v); }
  ++tp;
  return (v);
}
static v_t
climb (int min)
{
  v_t a = operand ();
  while (!bad && tp < te && !tp->lit && strchr ("+-*/%|&^", tp->op) && prec (tp->op) >= min)
    {
      char op = (tp++)->op;
      v_t b = climb (prec (op) + 1);
      if (bad) break;
      a = apply (op, a, b);
      if (a.t == NONE) void_value = 1;
    }
  return (a);
}
static v_t
evaluate (const tok_t * t, int n)
{
  v_t none = { NONE };
  tp = t; te = t + n; bad = void_value = off = rounding = 0;
  v_t v = climb (1);
  if (tp != te) bad = 1;
  return (bad || void_value ? none : v);
}

static const char * show (v_t v)
{
  static char s[2][200];
  static int k;
  char * p = s[k ^= 1];
  if (v.t == INT) sprintf (p, "int %s%llx:%016llx", v.i < 0 ? "-" : "", (unsigned long long)((v.i < 0 ? -v.i : v.i) >> 64), (unsigned long long)(v.i < 0 ? -v.i : v.i));
  else if (v.t == FLT) sprintf (p, "float %.20Lg", v.f);
  else if (v.t == CPX) sprintf (p, "complex %.20Lg %.20Lg", creall (v.c), cimagl (v.c));
  else sprintf (p, "refused");
  return (p);
}
static int same (long double a, long double b) { return ((isnan (a) && isnan (b)) || a == b || (rounding && fabsl (a - b) <= 1e-17L * fabsl (b))); }
static int same_double (double a, double b) { return ((isnan (a) && isnan (b)) || a == b || (rounding && fabs (a - b) <= 4e-16 * fabs (b))); }
static int same_float (float a, float b) { return ((isnan (a) && isnan (b)) || a == b || (rounding && fabsf (a - b) <= 3e-7f * fabsf (b))); }

/* load the expression into members of every kind and compare */
static void
decide (const char * e, v_t v)
{
  static char doc[6000];
  x18_t x;
  mr_status_t st;
  static const char * const flt = "{ .f = %s, .d = %s, .ld = %s, .c = %s, .cd = %s }";
  static const char * const all = "{ %s, .u8 = %s, .i16 = %s, .u16 = %s, .i32 = %s, .u32 = %s, .i64 = %s, .u64 = %s, %s, .e = %s, .w = %s, .s5 = %s, .u3 = %s, .f = %s, .d = %s, .ld = %s, .c = %s, %s }";
  mc_note ("%s must be %s", mc_quote (e, strlen (e)), show (v));
  if (off) mc_skip ();
  long double re = v.t == INT ? (long double)v.i : v.t == FLT ? v.f : v.t == CPX ? creall (v.c) : 0, im = v.t == CPX ? cimagl (v.c) : 0;
  int integral = v.t == INT || (isfinite (re) && fabsl (re) < 0x1p62L);
  mc_outcome (mc_hash (e, strlen (e), v.t));
  if (v.t == NONE || integral)
    {
      snprintf (doc, sizeof (doc), all, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e);
      memset (&x, 0xA5, sizeof (x));
      st = MR_LOAD_CINIT (x18_t, doc, &x);
      if (v.t == NONE)
	{
	  mc_assert (st != MR_SUCCESS, "an expression that has no value is loaded as %lld", (long long)x.i64);
	  return;
	}
      mc_assert (st == MR_SUCCESS, "refused");
    }
  else
    {
      /* not an integer: no value for the integers */
      static const char * const one[] = { "{ .i64 = %s }", "{ .u8 = %s }", "{ .b = %s }", "{ .e = %s }", "{ .s5 = %s }" };
      int k;
      if (!isfinite (re) || fabsl (re) >= 0x1p127L)
	for (k = 0; k < 5; ++k)
	  {
	    snprintf (doc, sizeof (doc), one[k], e);
	    st = MR_LOAD_CINIT (x18_t, doc, &x);
	    mc_assert (st != MR_SUCCESS, "%s is loaded although there is no such integer", doc);
	  }
      snprintf (doc, sizeof (doc), flt, e, e, e, e, e);
      st = MR_LOAD_CINIT (x18_t, doc, &x);
      mc_assert (st == MR_SUCCESS, "refused");
    }
  mc_assert (same (x.ld, re), "long double is %.20Lg", x.ld);
  mc_assert (same_double (x.d, (double)re), "double is %.20g", x.d);
  mc_assert (same_float (x.f, (float)re), "float is %.20g", x.f);
  mc_assert (same (creall (x.c), re) && same (cimagl (x.c), im), "complex is %.20Lg %.20Lg", creall (x.c), cimagl (x.c));
  mc_assert (same_double (creal (x.cd), (double)re) && same_double (cimag (x.cd), (double)im), "complex double is %.20g %.20g", creal (x.cd), cimag (x.cd));
  if (!integral || rounding) return;
  /* C converts integers modulo the size; what does not fit is not defined for floats */
  __int128 i = v.t == INT ? v.i : (__int128)re;
#define FIT(T, X) if (v.t == INT || (__int128)(T)i == i) mc_assert (X == (T)i, #X " is %lld", (long long)X);
  FIT (int8_t, x.i8) FIT (uint8_t, x.u8) FIT (int16_t, x.i16) FIT (uint16_t, x.u16) FIT (int32_t, x.i32) FIT (uint32_t, x.u32) FIT (int64_t, x.i64) FIT (uint64_t, x.u64)
  FIT (int32_t, (int32_t)x.e) FIT (uint8_t, (uint8_t)x.w)
  if (v.t == INT) mc_assert (x.b == (i != 0), "bool is %d", x.b);
  if (v.t == INT || (i >= -16 && i < 16)) { int s = (int)(i & 31); if (s > 15) s -= 32; mc_assert (x.s5 == s, "signed bit-field is %d, must be %d", x.s5, s); }
  if (v.t == INT || (i >= 0 && i < 8)) mc_assert (x.u3 == (i & 7), "bit-field is %u", x.u3);
}

#define L(T, V) { T, V }
static lit_t lits[32]; /* filled in by the set-up: complex values are not constants everywhere */
static lit_t few[32];
static int nlits, nfew;
static void lit (const char * t, v_t v, int f) { lits[nlits].text = t; lits[nlits++].v = v; if (f) few[nfew++] = lits[nlits - 1]; }
static void
make_literals (void)
{
  lit ("3", VI (3), 1); lit ("0", VI (0), 1); lit ("K_NEG", VI (-3), 1); lit ("2.5", VF (2.5L), 1); lit ("2I", VC (0, 2), 1);
  lit ("017", VI (15), 0); lit ("0x1F", VI (31), 0); lit ("0XaB", VI (0xab), 0); lit ("18446744073709551615", VI ((__int128)UINT64_MAX), 0);
  lit ("K_SIX", VI (6), 0); lit ("KU_200", VI (200), 0); lit ("K_BIG", VI (0x7ffffff0), 0); lit ("KQ_HUGE", VI (0x7fffffffffff0000LL), 0); lit ("KQ_LOW", VI (-0x7fffffffffff0000LL), 0);
  lit ("true", VI (1), 0); lit ("FALSE", VI (0), 0); lit ("1e2", VF (100), 0); lit ("0.1", VF (0.1L), 0); lit ("7.E-1", VF (0.7L), 0); lit ("00", VI (0), 0);
  lit ("I", VC (0, 1), 0); lit ("0.5i", VC (0, 0.5L), 0); lit ("inf", VF (INFINITY), 0); lit ("NaN", VF (NAN), 0); lit ("K", VI (4), 0); lit ("inform", VI (9), 0); lit ("I18", VI (5), 0);
}
static const char ops[] = "+-*/%|&^";

static void
text_of (const tok_t * t, int n, char * e, int spaced)
{
  int i;
  e[0] = 0;
  for (i = 0; i < n; ++i)
    {
      char s[2] = { t[i].op, 0 };
      if (i && (spaced == 1 || (t[i].lit && t[i - 1].lit))) strcat (e, " "); /* two operands in a row must not become one */
      if (spaced == 2 && i % 2) strcat (e, "\n\t/* -1+ */");
      if (spaced != 1 && i && t[i - 1].op == '/' && t[i].op == '*') strcat (e, " "); /* else it starts a comment */
      strcat (e, t[i].lit ? t[i].lit->text : s);
    }
}
/* every sequence of tokens, most of them no expressions at all */
static void
tokens (void)
{
  tok_t t[8] = { { 0 } };
  char e[300];
  int i, n = 1 + mc_choose (mc_thorough ? 6 : 5), w = mc_thorough ? nfew : n == 5 ? 3 : nfew;
  for (i = 0; i < n; ++i)
    {
      int k = mc_choose (10 + w);
      if (k < w) t[i].lit = &few[k];
      else t[i].op = "+-*/%|&^()"[k - w];
      if (i == 1) mc_shard ();
    }
  if (n == 1) mc_shard ();
  text_of (t, n, e, 0);
  decide (e, evaluate (t, n));
}
/* operands and operators in turn, each operand possibly negated */
static void
chain (const lit_t * l, int nl, int n, int with_sign)
{
  tok_t t[20] = { { 0 } };
  char e[600];
  int i, k = 0;
  for (i = 0; i < n; ++i)
    {
      if (with_sign) switch (mc_choose (3)) { case 1: t[k++].op = '-'; break; case 2: t[k++].op = '+'; break; }
      t[k++].lit = &l[mc_choose (nl)];
      if (i + 1 < n) t[k++].op = ops[mc_choose (8)];
      if (i == 0) mc_shard ();
    }
  text_of (t, k, e, mc_choose (3));
  decide (e, evaluate (t, k));
}
static void literals2 (void) { chain (lits, nlits, 2, 1); }
static void literals3 (void) { chain (lits, nlits, 3, 0); }
static void chains (void) { chain (few, mc_thorough ? nfew : 3, mc_thorough ? 5 : 4, 0); }
static void signs (void) { chain (few, mc_thorough ? 4 : 2, 4, 1); }
/* trees with parentheses around any of the inner nodes, a sign before any of them */
static int tree_n;
static void
tree (tok_t * t, int * k, int leaves, const lit_t * l, int nl)
{
  if (leaves == 1) { t[(*k)++].lit = &l[mc_choose (nl)]; return; }
  int left = 1 + mc_choose (leaves - 1);
  int paren = leaves < tree_n ? mc_choose (3) : 1 + mc_choose (2);
  if (leaves == tree_n) mc_shard ();
  if (paren == 2) t[(*k)++].op = '-';
  if (paren) t[(*k)++].op = '(';
  tree (t, k, left, l, nl);
  t[(*k)++].op = ops[mc_choose (8)];
  tree (t, k, leaves - left, l, nl);
  if (paren) t[(*k)++].op = ')';
}
static void
trees (void)
{
  tok_t t[60] = { { 0 } };
  char e[1000];
  int k = 0;
  tree_n = mc_thorough ? 4 : 3;
  tree (t, &k, tree_n, few, nfew);
  text_of (t, k, e, 0);
  decide (e, evaluate (t, k));
}
static void
nested (void)
{
  /* parentheses and signs in any order around one operand */
  tok_t t[20] = { { 0 } };
  char e[300];
  int i, k = 0, open = 0, n = mc_choose (mc_thorough ? 9 : 8);
  for (i = 0; i < n; ++i)
    {
      t[k].op = "(-+"[mc_choose (3)];
      open += t[k++].op == '(';
    }
  t[k++].lit = &lits[mc_choose (nlits)];
  mc_shard ();
  for (i = 0; i < open; ++i) t[k++].op = ')';
  text_of (t, k, e, 0);
  decide (e, evaluate (t, k));
}
/* words that look like numbers: what is a C constant (or the extensions I, inf, nan) has that value, all others are refused */
static int digit (char c) { return (c >= '0' && c <= '9'); }
static v_t
number (const char * s)
{
  v_t none = { NONE };
  const char * p = s;
  __int128 i = 0;
  if (!digit (*s)) return (none);
  if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X'))
    {
      for (p = s + 2; isxdigit ((unsigned char)*p); ++p) i = i * 16 + (digit (*p) ? *p - '0' : (*p | 32) - 'a' + 10);
      return (*p || p == s + 2 ? none : VI (i));
    }
  int octal = s[0] == '0', eight = 0;
  for (p = s; digit (*p); ++p) { i = i * 10 + *p - '0'; eight |= *p > '7'; }
  if (*p == 0)
    {
      if (!octal) return (VI (i));
      if (eight) return (none);
      for (i = 0, p = s; *p; ++p) i = i * 8 + *p - '0';
      return (VI (i));
    }
  if (*p == '.') for (++p; digit (*p); ++p) ;
  if (*p == 'e' || *p == 'E')
    {
      ++p;
      if (*p == '+' || *p == '-') ++p;
      if (!digit (*p)) return (none);
      while (digit (*p)) ++p;
    }
  char * q;
  long double f = strtold (s, &q); /* of a text that is known to be a decimal number */
  if (*p == 0) return (q == p ? VF (f) : none);
  if ((*p == 'i' || *p == 'I') && p[1] == 0) return (VC (0, f));
  return (none);
}
static void
numbers (void)
{
  static const char letter[] = "0178.xeIaF9X-E";
  char s[16] = "";
  int i, n = 1 + mc_choose (mc_thorough ? 6 : 5), w = n < 5 ? 14 : mc_thorough ? 12 : 9;
  for (i = 0; i < n; ++i)
    {
      s[i] = letter[mc_choose (w)];
      if (i == 1) mc_shard ();
    }
  if (n == 1) mc_shard ();
  if (!digit (s[0])) mc_skip ();
  off = rounding = 0;
  v_t v = number (s);
  char * minus = strchr (s, '-');
  if (v.t == NONE && minus && minus == strrchr (s, '-'))
    {
      /* two numbers with a minus in between */
      *minus = 0;
      v_t a = number (s), b = number (minus + 1);
      *minus = '-';
      int k = strcspn (minus + 1, "0123456789");
      if (!strcmp (minus + 1, "I")) b = VC (0, 1);
      else if (k) b.t = NONE;
      v = apply ('-', a, b);
    }
  else if (v.t == NONE && minus) mc_skip ();
  decide (s, v);
}
/* text of any format: names and numbers with bars between them */
static void
masks (void)
{
  static const char * const word[] = { "K_SIX", "0x30", "1", "K_NEG", "010", "true", "KU_200", "NOBODY", "9x", "08", "-2", "K_SI", "K_SIXX" };
  static const long long val[] = { 6, 0x30, 1, -3, 8, 1, 200, 0, 0, 0, -2, 0, 0 };
  static const char * const gap[] = { "|", " | ", "| ", "\t|" };
  static const char * const doc[] = { "{ .i64 = \"%s\", .e = \"%s\", .u8 = \"%s\", .s5 = \"%s\" }", "{ \"i64\" : \"%s\", \"e\" : \"%s\", \"u8\" : \"%s\", \"s5\" : \"%s\" }",
    "((i64 . \"%s\") (e . \"%s\") (u8 . \"%s\") (s5 . \"%s\"))", "<?xml version=\"1.0\"?>\n<x18_t><i64>%s</i64><e>%s</e><u8>%s</u8><s5>%s</s5></x18_t>", "<?xml version=\"1.0\"?>\n<x18_t><i64>%s</i64><e>%s</e><u8>%s</u8><s5>%s</s5></x18_t>",
    "i64: \"%s\"\ne: \"%s\"\nu8: \"%s\"\ns5: \"%s\"\n" };
  char s[200] = "", d[2000];
  int i, n = 1 + mc_choose (mc_thorough ? 4 : 3), none = 0, k, f;
  long long v = 0;
  const char * g = gap[n > 1 ? mc_choose (4) : 0];
  for (i = 0; i < n; ++i)
    {
      k = mc_choose (13);
      v |= val[k];
      none |= (k >= 7 && k <= 9) || k >= 11;
      if (i) strcat (s, g);
      strcat (s, word[k]);
      if (i == 0) mc_shard ();
    }
  f = mc_choose (6);
  mc_note ("format %d: \"%s\" must be %lld%s", f, mc_quote (s, strlen (s)), v, none ? " but is no value" : "");
  snprintf (d, sizeof (d), doc[f], s, s, s, s);
  x18_t x;
  mr_status_t st;
  switch (f)
    {
    case 0: st = MR_LOAD_CINIT (x18_t, d, &x); break;
    case 1: st = MR_LOAD_JSON (x18_t, d, &x); break;
    case 2: st = MR_LOAD_SCM (x18_t, d, &x); break;
    case 3: st = MR_LOAD_XML1 (x18_t, d, &x); break;
    case 4: st = MR_LOAD_XML2 (x18_t, d, &x); break;
    default: st = MR_LOAD_YAML (x18_t, d, &x); break;
    }
  mc_outcome (mc_hash (d, strlen (d), f));
  if (none) { mc_assert (st != MR_SUCCESS, "loaded as %lld", (long long)x.i64); return; }
  mc_assert (st == MR_SUCCESS, "refused");
  mc_assert (x.i64 == v, "int64 is %lld", (long long)x.i64);
  mc_assert ((int)x.e == (int)v, "enum is %d", (int)x.e);
  mc_assert (x.u8 == (uint8_t)v, "uint8 is %d", x.u8);
  int s5 = v & 31; if (s5 > 15) s5 -= 32;
  mc_assert (x.s5 == s5, "bit-field is %d, must be %d", x.s5, s5);
}
/* the places in a document where an expression can be */
TYPEDEF_UNION (u18_t, int16_t h, double dd)
TYPEDEF_STRUCT (p18_t, (int, a, [3]), (int *, p), (int *, d, , , { "n" }, "string"), (ssize_t, n), (u18_t, u), (k18_t *, e), (double *, dp), (int, last))
static void
places (void)
{
  static const char * const doc[] = { "{ .a = { %s, 7, %s } }", "{ .p = { %s } }", "{ .p = (int32_t[]){ %s } }", "{ .d = { %s, %s }, .n = 2 * sizeof_int }", "{ .u = { .h = %s } }", "{ .u = { %s } }",
    "{ .e = { %s } }", "{ .dp = (double[]) { %s } }", "{ .last = (int32_t) %s }", "{ { %s, 7, %s }, .last = %s, }" };
  int place = mc_choose (12), i, k = 0, n = 1 + mc_choose (3);
  tok_t t[20] = { { 0 } };
  char e[200], d[1000], * q;
  static const int pick[] = { 0, 2, 3, 9, 10, 11 };
  for (i = 0; i < n; ++i)
    {
      if (i) t[k++].op = "+*|-/"[mc_choose (5)];
      else if (mc_choose (2)) t[k++].op = '-';
      t[k++].lit = &lits[pick[mc_choose (mc_thorough ? 6 : 4)]];
      if (i == 0) mc_shard ();
    }
  text_of (t, k, e, 1);
  v_t v = evaluate (t, k);
  long long r = v.t == INT ? (long long)v.i : (long long)v.f;
  if (place < 10)
    {
      snprintf (d, sizeof (d), doc[place], e, e, e);
      if ((q = strstr (d, "sizeof_int"))) { *q++ = '4'; while (*q != ' ') *q++ = ' '; }
    }
  else strcpy (d, e);
  mc_note ("%s must be %s", mc_quote (d, strlen (d)), show (v));
  mc_outcome (mc_hash (d, strlen (d), place));
  if (place == 10)
    {
      int x = 0;
      mr_status_t st = MR_LOAD_CINIT (int, d, &x);
      mc_assert ((st == MR_SUCCESS) == (v.t != NONE), "load %s", st == MR_SUCCESS ? "succeeds" : "fails");
      mc_assert (v.t == NONE || x == (int)r, "loaded as %d", x);
      return;
    }
  if (place == 11)
    {
      long double x = 0;
      mr_status_t st = MR_LOAD_CINIT (long double, d, &x);
      mc_assert ((st == MR_SUCCESS) == (v.t != NONE), "load %s", st == MR_SUCCESS ? "succeeds" : "fails");
      mc_assert (v.t == NONE || x == (v.t == INT ? (long double)v.i : v.f), "loaded as %Lg", x);
      return;
    }
  p18_t x;
  mr_status_t st = MR_LOAD_CINIT (p18_t, d, &x);
  mc_assert ((st == MR_SUCCESS) == (v.t != NONE), "load %s", st == MR_SUCCESS ? "succeeds" : "fails");
  if (v.t == NONE) return;
  switch (place)
    {
    case 0: mc_assert (x.a[0] == (int)r && x.a[1] == 7 && x.a[2] == (int)r, "array is %d %d %d", x.a[0], x.a[1], x.a[2]); break;
    case 1: case 2: mc_assert (x.p && *x.p == (int)r, "pointer target is %d", x.p ? *x.p : -1); break;
    case 3: mc_assert (x.d && x.n == 8 && x.d[0] == (int)r && x.d[1] == (int)r, "block of size %zd starts with %d", x.n, x.d ? x.d[0] : -1); break;
    case 4: case 5: mc_assert (x.u.h == (int16_t)r, "union member is %d", x.u.h); break;
    case 6: mc_assert (x.e && (int)*x.e == (int)r, "enum is %d", x.e ? (int)*x.e : -1); break;
    case 7: mc_assert (x.dp && *x.dp == (double)(v.t == INT ? (long double)v.i : v.f), "double is %g", x.dp ? *x.dp : -1); break;
    case 8: mc_assert (x.last == (int)r, "int is %d", x.last); break;
    case 9: mc_assert (x.a[0] == (int)r && x.a[1] == 7 && x.a[2] == (int)r && x.last == (int)r, "array is %d %d %d and %d", x.a[0], x.a[1], x.a[2], x.last); break;
    }
}
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (tokens), S (literals2), S (chains), S (signs), S (trees), S (nested), S (numbers), S (masks), S (places), S (literals3), { 0 } };
static void
mc_setup (void)
{
  z_setup ();
  make_literals ();
  x18_t x;
  MR_LOAD_CINIT (x18_t, "{ .i8 = 1, .e = K_SIX, .w = KU_7 }", &x);
  p18_t p;
  MR_LOAD_CINIT (p18_t, "{ .p = { 1 } }", &p);
  q18_t q;
  MR_LOAD_CINIT (q18_t, "KQ_HUGE", &q);
}
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
