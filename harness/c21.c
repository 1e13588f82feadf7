/* C21: members may be listed in any order, and what is not listed stays zero. */
#include "values.h"

typedef char na_t[4];
TYPEDEF_STRUCT (nemb_t, (int8_t, x), (int16_t, y, [2]), (char *, z))
static const zf_t zf_nemb_t[] = { ZRAW (nemb_t, x), ZRAWA (nemb_t, y), ZSTR (nemb_t, z), ZEND };
static const zt_t zt_nemb_t = { "nemb_t", sizeof (nemb_t), zf_nemb_t };
TYPEDEF_STRUCT (nm_t, (int, a), (unsigned, bu, : 3), (unsigned, bx, : 7), (int, bs, : 5), (uint64_t, bl, : 37), (ve8_t, be, : 8), (bool, bb, : 1), (char *, s), (nemb_t, b), (int16_t, arr, [3]), (ve8_t, e), (vbm_t, bm),
		(int16_t *, p), (int16_t *, d, , , { "n" }, "string"), (int, n), (na_t, ca), (double, f), bool flag, char c, (nemb_t *, q), (mr_int128_t, w), (int8_t, last))
static long long ng_bu (void * o) { return (((nm_t*)o)->bu); }
static long long ng_bx (void * o) { return (((nm_t*)o)->bx); }
static long long ng_bl (void * o) { return (((nm_t*)o)->bl); }
static long long ng_bs (void * o) { return (((nm_t*)o)->bs); }
static long long ng_be (void * o) { return (((nm_t*)o)->be); }
static long long ng_bb (void * o) { return (((nm_t*)o)->bb); }
static const zf_t zf_nm_t[] = { ZRAW (nm_t, a), ZBITS (nm_t, bu, ng_bu), ZBITS (nm_t, bx, ng_bx), ZBITS (nm_t, bs, ng_bs), ZBITS (nm_t, bl, ng_bl), ZBITS (nm_t, be, ng_be), ZBITS (nm_t, bb, ng_bb), ZSTR (nm_t, s), ZSUB (nm_t, b, zt_nemb_t),
  ZRAWA (nm_t, arr), ZRAW (nm_t, e), ZRAW (nm_t, bm), ZPTR (nm_t, p, zt_i16), ZDYN (nm_t, d, zt_i16, n), ZRAW (nm_t, n), ZCA (nm_t, ca), ZFLT (nm_t, f), ZRAW (nm_t, flag), ZRAW (nm_t, c),
  ZPTR (nm_t, q, zt_nemb_t), ZRAW (nm_t, w), ZRAW (nm_t, last), ZEND };
static const zt_t zt_nm_t = { "nm_t", sizeof (nm_t), zf_nm_t };
Z_OPS (nm_t)

/* members in the order of their declaration; n is left to d, which sets it */
enum { NM_A, NM_BU, NM_BX, NM_BS, NM_BL, NM_BE, NM_BB, NM_S, NM_B, NM_ARR, NM_E, NM_BM, NM_P, NM_D, NM_N, NM_CA, NM_F, NM_FLAG, NM_C, NM_Q, NM_W, NM_LAST, NM_COUNT };
static const char * const m_name[] = { "a", "bu", "bx", "bs", "bl", "be", "bb", "s", "b", "arr", "e", "bm", "p", "d", "n", "ca", "f", "flag", "c", "q", "w", "last" };
static int fmt;
static char doc[8192]; static int doc_len;
static void __attribute__ ((format (printf, 1, 2))) put (const char * f, ...)
{
  va_list args; va_start (args, f);
  doc_len += vsnprintf (doc + doc_len, sizeof (doc) - doc_len, f, args);
  va_end (args);
}
/* one value, spelled in each format: numbers and names alike, text, lists */
static void text (const char * t) { put (fmt == F_XML1 || fmt == F_XML2 || fmt == F_YAML ? "%s" : "\"%s\"", t); }
static void name (const char * t) { put (fmt == F_JSON || fmt == F_SCM ? "\"%s\"" : "%s", t); }
static void
list (const char * member, int n, const int * v)
{
  int i;
  put (fmt == F_CINIT ? "{" : fmt == F_SCM ? "(" : fmt == F_JSON || fmt == F_YAML ? "[" : "");
  for (i = 0; i < n; ++i)
    {
      if (fmt == F_XML1 || fmt == F_XML2) put ("<%s>%d</%s>", member, v[i], member);
      else put ("%s%d", i ? (fmt == F_SCM ? " " : ", ") : "", v[i]);
    }
  put (fmt == F_CINIT ? "}" : fmt == F_SCM ? ")" : fmt == F_JSON || fmt == F_YAML ? "]" : "");
}
static void
open_struct (void) { put (fmt == F_CINIT || fmt == F_JSON || fmt == F_YAML ? "{ " : fmt == F_SCM ? "(" : ""); }
static void
close_struct (void) { put (fmt == F_CINIT || fmt == F_JSON || fmt == F_YAML ? " }" : fmt == F_SCM ? ")" : ""); }
static void
begin_member (const char * m, int first)
{
  switch (fmt)
    {
    case F_CINIT: put ("%s.%s = ", first ? "" : ", ", m); break;
    case F_JSON: put ("%s\"%s\" : ", first ? "" : ", ", m); break;
    case F_SCM: put ("%s(%s . ", first ? "" : " ", m); break;
    case F_XML1: case F_XML2: put ("<%s>", m); break;
    case F_YAML: put ("%s%s: ", first ? "" : ", ", m); break;
    }
}
static void
end_member (const char * m)
{
  switch (fmt)
    {
    case F_SCM: put (")"); break;
    case F_XML1: case F_XML2: put ("</%s>", m); break;
    }
}
/* the embedded structure lists its members backwards, and not all of them */
static void
emb (nemb_t * x, int v)
{
  open_struct ();
  if (v != 1) { begin_member ("z", 1); text ("zz"); end_member ("z"); x->z = mem_str ("zz"); }
  if (v != 2) { begin_member ("y", v == 1); list ("y", 2, (int[]){ 300 + v, -7 }); end_member ("y"); x->y[0] = 300 + v; x->y[1] = -7; }
  begin_member ("x", 0); put ("%d", -3); end_member ("x"); x->x = -3;
  close_struct ();
}
/* give member m its v-th value in the object, and in the document */
static void
member (nm_t * x, int m, int v)
{
  switch (m)
    {
    case NM_A: put ("%d", x->a = v ? -5 : 123456); break;
    case NM_BU: put ("%d", x->bu = v ? 2 : 7); break;
    case NM_BS: put ("%d", x->bs = v ? 10 : -1); break;
    case NM_BX: put ("%d", x->bx = v ? 85 : 127); break;
    case NM_BL: x->bl = v ? 1 : 0x1fffffffffULL; put ("%lld", (long long)x->bl); break;
    case NM_BE: x->be = v ? VE8_A : VE8_M; name (v ? "VE8_A" : "VE8_M"); break;
    case NM_BB: x->bb = 1; put ("1"); break;
    case NM_S: x->s = mem_str (v ? "" : "text"); if (v && fmt == F_YAML) put ("''"); else text (v ? "" : "text"); break;
    case NM_B: emb (&x->b, v); break;
    case NM_ARR: { int t[] = { 1, -2, 300 }, i; list ("arr", v ? 2 : 3, t); for (i = 0; i < (v ? 2 : 3); ++i) x->arr[i] = t[i]; } break;
    case NM_E: x->e = v ? 7 : VE8_M; if (v) put ("7"); else name ("VE8_M"); break;
    case NM_BM: x->bm = VBM_B | (v ? 0 : VBM_D); if (v) name ("VBM_B"); else put ("66"); break;
    case NM_P: x->p = mem_new (2); *x->p = v ? 5 : -6; list ("p", 1, (int[]){ *x->p }); break;
    case NM_D: { int t[] = { 4, 0, -1 }, i; x->n = v ? 2 : 6; x->d = mem_new (x->n); for (i = 0; i < x->n / 2; ++i) x->d[i] = t[i]; list ("d", x->n / 2, t); } break;
    case NM_N: put ("%d", x->n); break;
    case NM_CA: strcpy (x->ca, v ? "q" : "xyz"); text (x->ca); break;
    case NM_F: x->f = v ? -0.5 : 1e30; put (v ? "-0.5" : "1e+30"); break;
    case NM_FLAG: x->flag = true; put (v ? (fmt == F_SCM ? "t" : "true") : "1"); break;
    case NM_C: x->c = 'k'; put (fmt == F_CINIT ? "'k'" : fmt == F_JSON ? "\"k\"" : fmt == F_SCM ? "#\\k" : "k"); break;
    case NM_Q:
      x->q = mem_new (sizeof (nemb_t));
      put (fmt == F_CINIT ? "{" : fmt == F_JSON || fmt == F_YAML ? "[" : fmt == F_SCM ? "(" : "<q>");
      emb (x->q, v);
      put (fmt == F_CINIT ? "}" : fmt == F_JSON || fmt == F_YAML ? "]" : fmt == F_SCM ? ")" : "</q>");
      break;
    case NM_W: x->w = v ? -1 : 77; put ("%d", (int)x->w); break;
    case NM_LAST: put ("%d", x->last = v ? 1 : -128); break;
    }
}
static void
begin_doc (void)
{
  doc_len = 0;
  if (fmt == F_XML1 || fmt == F_XML2) put ("<?xml version=\"1.0\"?>\n<nm_t>");
  open_struct ();
}
static mr_status_t
load (nm_t * y)
{
  close_struct ();
  if (fmt == F_XML1 || fmt == F_XML2) put ("</nm_t>\n");
  mc_note ("%s %s", f_name[fmt], doc);
  char * t = strdup (doc);
  mr_rarray_t ra = { .data = { t }, .MR_SIZE = doc_len + 1, .type = "string" };
  memset (y, 0xA5, sizeof (*y));
  mr_status_t st = ops_nm_t.load (fmt, &ra, y);
  mc_assert (0 == memcmp (t, doc, doc_len + 1), "%s: input text was modified", f_name[fmt]);
  free (t);
  return (st);
}
static void
same (nm_t * x, nm_t * y, const char * what)
{
  char * want = z_canon (x, &zt_nm_t, NULL), * got = z_canon (y, &zt_nm_t, NULL);
  mc_assert (0 == strcmp (want, got), "%s: %s: want %s got %s", f_name[fmt], what, want, got);
  mc_outcome (mc_hash (doc, doc_len, fmt));
}

/* NM_N only ever in the company of NM_D, which knows its value */
static int listable (int m) { return (m != NM_N); }
/* ordered selections of up to three (four) members, with two values each */
static void
select_members (int max)
{
  int used = 0, k, n = 0;
  fmt = mc_choose (F_XDR);
  nm_t * x = mem_new (sizeof (nm_t)), * y = malloc (sizeof (nm_t));
  begin_doc ();
  int values = mc_choose (2);
  for (k = 0; k < max; ++k)
    {
      int m = mc_choose (NM_COUNT + 1);
      if (m == NM_COUNT) break;
      if ((used & (1 << m)) || !listable (m)) mc_skip ();
      used |= 1 << m;
      begin_member (m_name[m], n++ == 0);
      member (x, m, (values + k) & 1);
      end_member (m_name[m]);
      if (k == 0) mc_shard ();
    }
  if (k == 0) mc_shard ();
  if (n == 0 && fmt == F_YAML) { free (y); return; } /* an empty mapping is all there is to it, see below */
  mc_assert (MR_SUCCESS == load (y), "%s: load failed", f_name[fmt]);
  same (x, y, "listed members");
  free (y);
}
static void selection (void) { select_members (mc_thorough ? 4 : 3); }
/* all members, in orders that put every pair of members in both orders and every member first and last, with one of them left out or none */
static void
all_members (void)
{
  int order = mc_choose (6), shift = mc_choose (NM_COUNT), out = mc_choose (NM_COUNT + 1), values = mc_choose (4), k, n = 0;
  fmt = mc_choose (F_XDR);
  mc_shard ();
  static const int stride[] = { 1, 21, 3, 19, 7, 13 }; /* units modulo 22 */
  nm_t * x = mem_new (sizeof (nm_t)), * y = malloc (sizeof (nm_t));
  begin_doc ();
  for (k = 0; k < NM_COUNT; ++k)
    {
      int m = (shift + k * stride[order]) % NM_COUNT;
      if (m == out || !listable (m)) continue;
      begin_member (m_name[m], n++ == 0);
      member (x, m, values < 2 ? values : (m + values) & 1);
      end_member (m_name[m]);
    }
  mc_assert (MR_SUCCESS == load (y), "%s: load failed", f_name[fmt]);
  same (x, y, "all members");
  free (y);
}
/* positions: what has no name belongs to the member after the one before it, as in C */
static void
positional (void)
{
  static const int f[] = { F_CINIT, F_SCM, F_JSON };
  fmt = f[mc_choose (2)];
  nm_t * x = mem_new (sizeof (nm_t)), * y = malloc (sizeof (nm_t));
  int at = 0, n = 0, values = mc_choose (2), jumps = mc_choose (3), run, j;
  begin_doc ();
  int used = 0;
  for (j = 0; j <= jumps; ++j)
    {
      if (j)
	{
	  at = mc_choose (NM_COUNT);
	  if ((used & (1 << at)) || !listable (at)) mc_skip ();
	  begin_member (m_name[at], n++ == 0);
	  member (x, at, values);
	  end_member (m_name[at]);
	  used |= 1 << at++;
	}
      for (run = mc_choose (j ? 4 : NM_COUNT + 1); run; --run)
	{
	  if (at >= NM_COUNT || (used & (1 << at))) mc_skip ();
	  if (at == NM_N && !(used & (1 << NM_D))) mc_skip ();
	  if (n++) put (fmt == F_SCM ? " " : ", ");
	  member (x, at, values);
	  used |= 1 << at++;
	}
      if (j == 0) mc_shard ();
    }
  mc_assert (MR_SUCCESS == load (y), "%s: load failed", f_name[fmt]);
  same (x, y, "positions");
  free (y);
}
/* a name the type does not have: refused, or without any influence on the others */
static void
unknown (void)
{
  static const char * const bad[] = { "nosuch", "A", "aa", "x", "lasts", "las", "nm_t", "s1", "_" };
  fmt = mc_choose (F_XDR);
  const char * b = bad[mc_choose (9)];
  int m1 = mc_choose (NM_COUNT), m2 = mc_choose (NM_COUNT), where = mc_choose (3), like = mc_choose (5), n = 0, k;
  if (m1 == m2 || !listable (m1) || !listable (m2)) mc_skip ();
  mc_shard ();
  nm_t * x = mem_new (sizeof (nm_t)), * y = malloc (sizeof (nm_t)), * other = mem_new (sizeof (nm_t));
  begin_doc ();
  for (k = 0; k < 3; ++k)
    {
      int m = k < where ? k ? m2 : m1 : k == where ? -1 : k == 1 ? m1 : m2;
      begin_member (m < 0 ? b : m_name[m], n++ == 0);
      if (m >= 0) member (x, m, 0);
      else member (other, (int[]){ NM_A, NM_S, NM_B, NM_P, NM_BU }[like], 0);
      end_member (m < 0 ? b : m_name[m]);
    }
  size_t live = mem_live ();
  if (MR_SUCCESS == load (y))
    same (x, y, "unknown member");
  else
    mc_assert (mem_live () == live, "%s: refused, but %zu blocks stay allocated", f_name[fmt], mem_live () - live);
  mc_outcome (mc_hash (doc, doc_len, fmt));
  free (y);
}

static mc_scope_t mc_scopes[] = { { "all", all_members }, { "positional", positional }, { "unknown", unknown }, { "selection", selection }, { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
