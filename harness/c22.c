/* C22: arrays of every shape keep each element in its place. */
#include "values.h"

typedef char ca3_t[3];
TYPEDEF_STRUCT (ael_t, (int8_t, x), (int8_t, y, [2]))
static const zf_t zf_ael_t[] = { ZRAW (ael_t, x), ZRAWA (ael_t, y), ZEND };
static const zt_t zt_ael_t = { "ael_t", sizeof (ael_t), zf_ael_t };

static const zf_t zf_acf[] = { { Z_FLT, "v", 0, 4, 2 }, ZEND };
static const zt_t zt_acf = { "complex float", 8, zf_acf };

/* one structure per shape, one array per kind of element, each between two guards */
#define NEL(T, M, E) (sizeof (((T*)0)->M) / sizeof (E))
#define SHAPE(ID, N, ...)						\
  TYPEDEF_STRUCT (sh ## ID, (int16_t, i, __VA_ARGS__), (bool, g1), (bool, b, __VA_ARGS__), (bool, g2), (char, c, __VA_ARGS__), (bool, g3), \
		  (ve8_t, e, __VA_ARGS__), (bool, g4), (char *, s, __VA_ARGS__), (bool, g5), (ael_t, st, __VA_ARGS__), (bool, g6), (double, d, __VA_ARGS__), \
		  (bool, g7), (ca3_t, ca, __VA_ARGS__), (bool, g8), (int16_t *, p, __VA_ARGS__), (bool, g9), (mr_int128_t, w, __VA_ARGS__), (bool, g10), \
		  (vbm_t, bm, __VA_ARGS__), (bool, g11), (complex_float_t, cf, __VA_ARGS__), (bool, g12)) \
  static const zf_t zf_sh ## ID[] = {					\
    { Z_RAW, "i", offsetof (sh ## ID, i), 2, N }, ZRAW (sh ## ID, g1), { Z_RAW, "b", offsetof (sh ## ID, b), 1, N }, ZRAW (sh ## ID, g2), \
    { Z_RAW, "c", offsetof (sh ## ID, c), 1, N }, ZRAW (sh ## ID, g3), { Z_RAW, "e", offsetof (sh ## ID, e), 1, N }, ZRAW (sh ## ID, g4), \
    { Z_STR, "s", offsetof (sh ## ID, s), sizeof (char*), N }, ZRAW (sh ## ID, g5), { Z_SUB, "st", offsetof (sh ## ID, st), sizeof (ael_t), N, &zt_ael_t }, ZRAW (sh ## ID, g6), \
    { Z_FLT, "d", offsetof (sh ## ID, d), 8, N }, ZRAW (sh ## ID, g7), { Z_CA, "ca", offsetof (sh ## ID, ca), 3, N }, ZRAW (sh ## ID, g8), \
    { Z_PTR, "p", offsetof (sh ## ID, p), sizeof (void*), N, &zt_i16 }, ZRAW (sh ## ID, g9), { Z_RAW, "w", offsetof (sh ## ID, w), 16, N }, ZRAW (sh ## ID, g10), \
    { Z_RAW, "bm", offsetof (sh ## ID, bm), 4, N }, ZRAW (sh ## ID, g11), { Z_SUB, "cf", offsetof (sh ## ID, cf), 8, N, &zt_acf }, ZRAW (sh ## ID, g12), ZEND }; \
  static const zt_t zt_sh ## ID = { "sh" #ID, sizeof (sh ## ID), zf_sh ## ID }; \
  Z_OPS (sh ## ID)
SHAPE (1, 1, [1]) SHAPE (2, 2, [2]) SHAPE (5, 5, [5]) SHAPE (12, 2, [1][2]) SHAPE (21, 2, [2][1]) SHAPE (22, 4, [2][2]) SHAPE (23, 6, [2][3]) SHAPE (32, 6, [3][2])
SHAPE (42, 8, [4][2]) SHAPE (111, 1, [1][1][1]) SHAPE (213, 6, [2][1][3]) SHAPE (123, 6, [1][2][3]) SHAPE (312, 6, [3][1][2]) SHAPE (234, 24, [2][3][4]) SHAPE (432, 24, [4][3][2])
SHAPE (1211, 2, [1][2][1][1]) SHAPE (2132, 12, [2][1][3][2]) SHAPE (3213, 18, [3][2][1][3])
#define SH(ID, ...) { &ops_sh ## ID, &zt_sh ## ID, { __VA_ARGS__ } }
static const struct { const z_ops_t * ops; const zt_t * zt; int dim[5]; } shapes[] = { SH (1, 1), SH (2, 2), SH (5, 5), SH (12, 1, 2), SH (21, 2, 1), SH (22, 2, 2), SH (23, 2, 3), SH (32, 3, 2),
  SH (42, 4, 2), SH (111, 1, 1, 1), SH (213, 2, 1, 3), SH (123, 1, 2, 3), SH (312, 3, 1, 2), SH (234, 2, 3, 4), SH (432, 4, 3, 2), SH (1211, 1, 2, 1, 1), SH (2132, 2, 1, 3, 2), SH (3213, 3, 2, 1, 3) };
#define N_SHAPES (sizeof (shapes) / sizeof (shapes[0]))
#define N_KINDS 12
static int fmt;

/* element k of field f gets its v-th non-zero value */
static void
element (char * obj, const zf_t * f, int k, int v)
{
  char * p = obj + f->off + k * f->size;
  int x;
  switch (f->kind)
    {
    case Z_RAW:
      if (0 == strcmp (f->name, "b") || f->name[0] == 'g') *(bool*)p = 1;
      else if (0 == strcmp (f->name, "c")) *p = '!' + v;
      else if (0 == strcmp (f->name, "e")) *p = (unsigned char[]){ VE8_A, VE8_M, 7 }[v % 3];
      else if (f->size == 16) { mr_int128_t w = ((mr_int128_t)(v + 1) << 70) - v; memcpy (p, &w, 16); }
      else if (f->size == 4) { x = 1 + v % 127; memcpy (p, &x, 4); }
      else { x = v & 1 ? -v - 2 : 1000 + v; memcpy (p, &x, f->size); }
      break;
    case Z_FLT:
      *(double*)p = v + 0.5;
      break;
    case Z_STR: { char t[8]; sprintf (t, "t%d", v); *(char**)p = mem_str (t); } break;
    case Z_PTR: *(int16_t**)p = mem_new (sizeof (int16_t)); **(int16_t**)p = 3 + v; break;
    case Z_CA: p[0] = 'A' + v % 26; p[1] = v & 1 ? 'z' : 0; break;
    case Z_SUB:
      if (f->t == &zt_acf) { ((float*)p)[0] = v + 0.5f; ((float*)p)[1] = -v - 0.25f; break; }
      ((ael_t*)p)->x = v + 1; ((ael_t*)p)->y[v & 1] = -v - 1; break;
    }
}

static const zf_t * field (const zt_t * zt, int kind) { return (&zt->f[2 * kind]); }

static void
roundtrip (void)
{
  int s = mc_choose (N_SHAPES), kind = mc_choose (N_KINDS), k, n;
  fmt = mc_choose (F_N);
  const zf_t * f = field (shapes[s].zt, kind);
  n = f->count;
  /* which elements are set: all, or one only, or all but one */
  int pattern = mc_choose (1 + (n > 1 ? 2 * n : 1));
  mc_shard ();
  char * x = mem_new (shapes[s].ops->size);
  if (pattern & 1) for (k = 0; k < N_KINDS; ++k) element (x, field (shapes[s].zt, k) + 1, 0, 1);
  for (k = 0; k < n; ++k)
    if (pattern == 0 || (pattern <= n ? k == pattern - 1 : k != pattern - 1 - n))
      element (x, f, k, k);
  char * before = z_canon (x, shapes[s].zt, NULL);
  mc_note ("%s %s.%s %s", f_name[fmt], shapes[s].ops->name, f->name, before);
  mr_rarray_t ra = shapes[s].ops->save (fmt, x);
  mc_assert (ra.data.ptr != NULL, "%s: save failed", f_name[fmt]);
  char * y = malloc (shapes[s].ops->size);
  memset (y, 0xA5, shapes[s].ops->size);
  mr_status_t st = shapes[s].ops->load (fmt, &ra, y);
  if (st != MR_SUCCESS) mc_note_add (" document: %s", fmt == F_XDR ? "" : z_doc (fmt, &ra));
  mc_assert (st == MR_SUCCESS, "%s: load failed", f_name[fmt]);
  char * after = z_canon (y, shapes[s].zt, NULL);
  if (strcmp (before, after)) mc_note_add (" document: %s", fmt == F_XDR ? "" : z_doc (fmt, &ra));
  mc_assert (0 == strcmp (before, after), "%s: elements changed by save and load: %s", f_name[fmt], after);
  mc_outcome (mc_hash (before, strlen (before), fmt + 8 * s));
  /* the other users of the walk over arrays; they know no formats */
  if (fmt) { free (y); return; }
  char * z = malloc (shapes[s].ops->size);
  mc_assert (MR_SUCCESS == shapes[s].ops->copy (x, z), "copy failed");
  after = z_canon (z, shapes[s].zt, NULL);
  mc_assert (0 == strcmp (before, after), "elements changed by copy: %s", after);
  mc_assert (0 == shapes[s].ops->cmp (x, z), "a copy compares as different");
  mc_assert (shapes[s].ops->hash (x) == shapes[s].ops->hash (z), "a copy has a different hash");
  /* a change of any element is seen by comparison */
  k = pattern <= 1 || mc_thorough ? mc_choose (n) : n - 1;
  char * p = z + f->off + k * f->size;
  if (f->kind == Z_STR) { if (!*(char**)p) *(char**)p = mem_str (""); else *(char**)p = NULL; }
  else if (f->kind == Z_PTR) { if (!*(char**)p) *(char**)p = mem_new (2); else **(char**)p ^= 1; }
  else if (f->kind == Z_CA) p[0] ^= 1;
  else if (f->kind == Z_FLT) *(double*)p += 1;
  else if (f->t == &zt_acf) ((float*)p)[1] += 1;
  else *p ^= 1;
  mc_assert (0 != shapes[s].ops->cmp (x, z) && 0 != shapes[s].ops->cmp (z, x), "a change of element %d of %s is not seen by comparison", k, f->name);
  free (y); free (z);
}

/* ---- documents with fewer and more elements than the array holds ---- */
static char doc[8192]; static int doc_len;
static void __attribute__ ((format (printf, 1, 2))) put (const char * f, ...)
{
  va_list args; va_start (args, f);
  doc_len += vsnprintf (doc + doc_len, sizeof (doc) - doc_len, f, args);
  va_end (args);
}
static int over, next_v, listed;
static void
value (int kind, int v)
{
  switch (kind)
    {
    case 0: put ("%d", 100 + v); break;                                          /* int16_t */
    case 4: put (fmt == F_XML1 || fmt == F_XML2 || fmt == F_YAML ? "t%d" : "\"t%d\"", v); break; /* string */
    case 6: put ("%d.5", v); break;                                              /* double */
    case 7: put (fmt == F_XML1 || fmt == F_XML2 || fmt == F_YAML ? "z%c" : "\"z%c\"", 'a' + v % 26); break;
    }
}
/* what loads where: element index in the array, or -1 */
static struct { int k, v; } expect[256];
static void
level (const int * dim, int kind, int first, int n_below, int depth, int inside)
{
  /* dim[0] elements are expected here; any number up to one more is given */
  int i, have;
  const char * name = field (shapes[0].zt, kind)->name;
  if (dim[0] == 0)
    {
      int v = next_v++;
      if (inside) { expect[listed].k = first; expect[listed++].v = v; }
      value (kind, v);
      return;
    }
  /* the innermost rows after the first take all lengths only where that is cheap */
  have = mc_choose (dim[0] + 2);
  if (have > dim[0]) over = 1;
  n_below /= dim[0];
  switch (fmt)
    {
    case F_CINIT: put ("{"); break;
    case F_JSON: put ("["); break;
    case F_SCM: put ("("); break;
    case F_YAML: put ("["); break;
    }
  for (i = 0; i < have; ++i)
    {
      if (i) switch (fmt) { case F_SCM: put (" "); break; case F_XML1: case F_XML2: break; default: put (", "); }
      if (fmt == F_XML1 || fmt == F_XML2) put ("<%s>", name);
      level (dim + 1, kind, first + i * n_below, n_below, depth + 1, inside && i < dim[0]);
      if (fmt == F_XML1 || fmt == F_XML2) put ("</%s>", name);
    }
  switch (fmt)
    {
    case F_CINIT: put ("}"); break;
    case F_JSON: put ("]"); break;
    case F_SCM: put (")"); break;
    case F_YAML: put ("]"); break;
    }
}
static void
lengths (void)
{
  static const int pick[] = { 0, 1, 2, 3, 4, 5, 6, 7, 10 };
  static const int kinds[] = { 0, 4, 6, 7 };
  int s = pick[mc_choose (mc_thorough ? 9 : 8)], kind = kinds[mc_choose (4)], i;
  fmt = mc_choose (F_XDR);
  const zf_t * f = field (shapes[s].zt, kind), * guard = f + 1;
  const char * root = shapes[s].ops->name;
  doc_len = over = next_v = listed = 0;
  switch (fmt)
    {
    case F_CINIT: put ("{ .%s = ", f->name); break;
    case F_JSON: put ("{ \"%s\" : ", f->name); break;
    case F_SCM: put ("((%s . ", f->name); break;
    case F_XML1: case F_XML2: put ("<?xml version=\"1.0\"?>\n<%s><%s>", root, f->name); break;
    case F_YAML: put ("{ %s: ", f->name); break;
    }
  level (shapes[s].dim, kind, 0, f->count, 0, 1);
  switch (fmt)
    {
    case F_CINIT: put (", .%s = 1 }", guard->name); break;
    case F_JSON: put (", \"%s\" : true }", guard->name); break;
    case F_SCM: put (") (%s . 1))", guard->name); break;
    case F_XML1: case F_XML2: put ("</%s><%s>1</%s></%s>\n", f->name, guard->name, guard->name, root); break;
    case F_YAML: put (", %s: 1 }", guard->name); break;
    }
  mc_shard ();
  mc_note ("%s %s %s", f_name[fmt], root, doc);
  char * x = mem_new (shapes[s].ops->size), * y = malloc (shapes[s].ops->size);
  /* what it has to be */
  for (i = 0; i < listed; ++i)
    {
      char * p = x + f->off + expect[i].k * f->size, t[8];
      int v = expect[i].v;
      switch (kind)
	{
	case 0: *(int16_t*)p = 100 + v; break;
	case 4: sprintf (t, "t%d", v); *(char**)p = mem_str (t); break;
	case 6: *(double*)p = v + 0.5; break;
	case 7: p[0] = 'z'; p[1] = 'a' + v % 26; break;
	}
    }
  x[guard->off] = 1;
  char * text = strdup (doc);
  mr_rarray_t ra = { .data = { text }, .MR_SIZE = doc_len + 1, .type = "string" };
  memset (y, 0, shapes[s].ops->size);
  mr_status_t st = shapes[s].ops->load (fmt, &ra, y);
  if (!over)
    {
      char * want = z_canon (x, shapes[s].zt, NULL);
      mc_assert (st == MR_SUCCESS, "%s: load failed", f_name[fmt]);
      char * got = z_canon (y, shapes[s].zt, NULL);
      mc_assert (0 == strcmp (want, got), "%s: elements not in their places: %s", f_name[fmt], got);
    }
  else
    {
      /* whatever becomes of the surplus, nothing outside the array is touched, and every element in it is one that was listed for it, or zero */
      size_t b;
      for (b = 0; b < shapes[s].ops->size; ++b)
	if ((b < f->off || b >= f->off + f->count * f->size) && b != guard->off)
	  mc_assert (y[b] == 0, "%s: surplus elements changed byte %zu outside of the array at %zu..%zu", f_name[fmt], b, f->off, f->off + f->count * f->size);
      mc_assert (y[guard->off] == 0 || y[guard->off] == 1, "%s: surplus elements changed the next member", f_name[fmt]);
      for (i = 0; i < f->count; ++i)
	{
	  int k, ok;
	  char * p = y + f->off + i * f->size, * q = x + f->off + i * f->size;
	  if (kind == 4) ok = *(char**)p == NULL || (*(char**)q && 0 == strcmp (*(char**)p, *(char**)q));
	  else for (ok = 1, k = 0; k < f->size; ++k) ok &= p[k] == 0;
	  if (kind != 4) ok |= 0 == memcmp (p, q, f->size);
	  mc_assert (ok, "%s: element %d is not what was listed for it", f_name[fmt], i);
	}
    }
  mc_outcome (mc_hash (doc, doc_len, fmt + 8 * s));
  free (y); free (text);
}

/* ---- arrays whose used part is given by a size member ---- */
TYPEDEF_STRUCT (lim_t, (int16_t, a, [5], , { "na" }, "string"), (int, na), (up_t, st, [2], , { "ns" }, "string"), (int8_t, ns), (char *, s, [3], , { .offset = offsetof (lim_t, n64) }, "offset"), (uint64_t, n64), (int, after))
static const zf_t zf_lim_t[] = { { Z_RAW, "a", offsetof (lim_t, a), 2, 5 }, ZRAW (lim_t, na), { Z_SUB, "st", offsetof (lim_t, st), sizeof (up_t), 2, &zt_up_t }, ZRAW (lim_t, ns),
  { Z_STR, "s", offsetof (lim_t, s), sizeof (char*), 3 }, ZRAW (lim_t, n64), ZRAW (lim_t, after), ZEND };
static const zt_t zt_lim_t = { "lim_t", sizeof (lim_t), zf_lim_t };
Z_OPS (lim_t)
static void
limited (void)
{
  fmt = mc_choose (F_N);
  int which = mc_choose (3), i, size;
  lim_t * x = mem_new (sizeof (lim_t)), want, * y = malloc (sizeof (lim_t));
  for (i = 0; i < 5; ++i) x->a[i] = i + 1;
  for (i = 0; i < 2; ++i) { x->st[i].x = 10 + i; x->st[i].y = -i; }
  for (i = 0; i < 3; ++i) { char t[3] = { 's', '0' + i }; x->s[i] = mem_str (t); }
  x->na = 10; x->ns = 16; x->n64 = 24; x->after = 77;
  switch (which)
    {
    case 0: size = mc_choose (15) - 2; x->na = size; break;
    case 1: size = mc_choose (21) - 2; x->ns = size; break;
    case 2: size = mc_choose (28); x->n64 = size; break;
    }
  mc_shard ();
  want = *x;
  for (i = 0; i < 5; ++i) if (x->na < 2 * (i + 1)) want.a[i] = 0;
  for (i = 0; i < 2; ++i) if (x->ns < 8 * (i + 1)) memset (&want.st[i], 0, sizeof (want.st[i]));
  for (i = 0; i < 3; ++i) if (x->n64 < 8 * (i + 1)) want.s[i] = NULL;
  mc_note ("%s %s", f_name[fmt], z_canon (x, &zt_lim_t, NULL));
  mr_rarray_t ra = ops_lim_t.save (fmt, x);
  mc_assert (ra.data.ptr != NULL, "%s: save failed", f_name[fmt]);
  memset (y, 0xA5, sizeof (*y));
  mr_status_t st = ops_lim_t.load (fmt, &ra, y);
  mc_note_add (" document: %s", fmt == F_XDR ? "" : z_doc (fmt, &ra));
  mc_assert (st == MR_SUCCESS, "%s: load failed", f_name[fmt]);
  char * w = z_canon (&want, &zt_lim_t, NULL), * got = z_canon (y, &zt_lim_t, NULL);
  mc_assert (0 == strcmp (w, got), "%s: want %s got %s", f_name[fmt], w, got);
  mc_outcome (mc_hash (w, strlen (w), fmt));
  free (y);
}

static mc_scope_t mc_scopes[] = { { "limited", limited }, { "roundtrip", roundtrip }, { "lengths", lengths }, { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
