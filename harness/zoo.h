/*
  Formats, and an independent description of object graphs.

  The library's own descriptors play no part in the oracle: every harness type has a hand-written zt_t, and the
  canonical text of a graph (values plus the identity of every pointer target) is computed from that.
*/
#ifndef ZOO_H
#define ZOO_H
#include "mem.h"
#include <stddef.h>
#include <math.h>

enum { F_CINIT, F_JSON, F_SCM, F_XML1, F_XML2, F_YAML, F_XDR, F_N };
static const char * const f_name[F_N] = { "cinit", "json", "scm", "xml1", "xml2", "yaml", "xdr" };

typedef struct z_ops_t {
  const char * name;
  size_t size;
  mr_rarray_t (*save) (int fmt, void * obj);
  mr_status_t (*load) (int fmt, mr_rarray_t * ra, void * obj);
  mr_status_t (*copy) (void * src, void * dst);
  mr_status_t (*free) (void * obj);
  mr_hash_value_t (*hash) (void * obj);
  int (*cmp) (void * x, void * y);
  mr_ra_ptrdes_t (*ptrs) (void * obj);
} z_ops_t;

#define Z_OPS(T)							\
  static mr_rarray_t z_save_ ## T (int fmt, void * obj) {		\
    T * x = obj;							\
    switch (fmt) {							\
    case F_CINIT: return (MR_SAVE_CINIT_RA (T, x));			\
    case F_JSON: return (MR_SAVE_JSON_RA (T, x));			\
    case F_SCM: return (MR_SAVE_SCM_RA (T, x));				\
    case F_XML1: return (MR_SAVE_XML1_RA (T, x));			\
    case F_XML2: return (MR_SAVE_XML2_RA (T, x));			\
    case F_YAML: return (MR_SAVE_YAML_RA (T, x));			\
    default: return (MR_SAVE_XDR_RA (T, x));				\
    } }									\
  static mr_status_t z_load_ ## T (int fmt, mr_rarray_t * ra, void * obj) { \
    T * x = obj;							\
    switch (fmt) {							\
    case F_CINIT: return (MR_LOAD_CINIT_RA (T, ra, x));			\
    case F_JSON: return (MR_LOAD_JSON_RA (T, ra, x));			\
    case F_SCM: return (MR_LOAD_SCM_RA (T, ra, x));			\
    case F_XML1: return (MR_LOAD_XML1_RA (T, ra, x));			\
    case F_XML2: return (MR_LOAD_XML2_RA (T, ra, x));			\
    case F_YAML: return (MR_LOAD_YAML_RA (T, ra, x));			\
    default: return (MR_LOAD_XDR_RA (T, ra, x));			\
    } }									\
  static mr_status_t z_copy_ ## T (void * s, void * d) { T * x = s, * y = d; return (MR_COPY_RECURSIVELY (T, x, y)); } \
  static mr_status_t z_free_ ## T (void * s) { T * x = s; return (MR_FREE_RECURSIVELY (T, x)); } \
  static mr_hash_value_t z_hash_ ## T (void * s) { T * x = s; return (MR_HASH_STRUCT (T, x)); } \
  static int z_cmp_ ## T (void * s, void * d) { T * x = s, * y = d; return (MR_CMP_STRUCTS (T, x, y)); } \
  static mr_ra_ptrdes_t z_ptrs_ ## T (void * s) { T * x = s; return (MR_SAVE (T, x)); } \
  static const z_ops_t ops_ ## T = { #T, sizeof (T), z_save_ ## T, z_load_ ## T, z_copy_ ## T, z_free_ ## T, z_hash_ ## T, z_cmp_ ## T, z_ptrs_ ## T };

/* ---- independent description ---- */
enum { Z_RAW = 1, Z_FLT, Z_STR, Z_SUB, Z_PTR, Z_DYN, Z_SEL, Z_BITS, Z_CA, Z_ANY };
typedef struct zt_t zt_t;
typedef struct zf_t {
  int kind;
  const char * name;
  size_t off, size;          /* of one element */
  int count;                 /* elements in an embedded array (0 counts as 1) */
  const zt_t * t;            /* Z_SUB, Z_PTR, Z_DYN; NULL = string pointer targets (char*) */
  size_t size_off, size_w;   /* Z_DYN: the member holding the extent in bytes */
  const zt_t * (*sel) (void * obj); /* Z_SEL: what the union holds, given the enclosing object */
  long long (*get) (void * obj);    /* Z_BITS */
} zf_t;
struct zt_t { const char * name; size_t size; const zf_t * f; int flt; };
#define ZSZ(T, M) sizeof (((T*)0)->M)
#define ZRAW(T, M) { Z_RAW, #M, offsetof (T, M), ZSZ (T, M) }
#define ZRAWA(T, M) { Z_RAW, #M, offsetof (T, M), ZSZ (T, M[0]), ZSZ (T, M) / ZSZ (T, M[0]) }
#define ZFLT(T, M) { Z_FLT, #M, offsetof (T, M), ZSZ (T, M) }
#define ZSTR(T, M) { Z_STR, #M, offsetof (T, M), sizeof (char*), ZSZ (T, M) / sizeof (char*) }
#define ZCA(T, M) { Z_CA, #M, offsetof (T, M), ZSZ (T, M) }
#define ZSUB(T, M, ZT) { Z_SUB, #M, offsetof (T, M), ZT.size, ZSZ (T, M) / ZT.size, &ZT }
#define ZPTR(T, M, ZT) { Z_PTR, #M, offsetof (T, M), sizeof (void*), ZSZ (T, M) / sizeof (void*), &ZT }
#define ZDYN(T, M, ZT, S) { Z_DYN, #M, offsetof (T, M), sizeof (void*), 1, &ZT, offsetof (T, S), ZSZ (T, S) }
#define ZSEL(T, M, FN) { .kind = Z_SEL, .name = #M, .off = offsetof (T, M), .size = ZSZ (T, M), .sel = FN }
#define ZBITS(T, M, FN) { .kind = Z_BITS, .name = #M, .get = FN }
#define ZANY(T, M) { Z_ANY, #M, offsetof (T, M), sizeof (void*), ZSZ (T, M) / sizeof (void*) }
#define ZEND { 0 }

static const zt_t zt_char = { "char", 1 }, zt_i8 = { "i8", 1 }, zt_i16 = { "i16", 2 }, zt_i32 = { "i32", 4 }, zt_i64 = { "i64", 8 }, zt_f64 = { "f64", 8, NULL, 1 };
static const zf_t zf_strp[] = { { Z_STR, "str", 0, sizeof (char*), 1 }, ZEND };
static const zt_t zt_strp = { "string", sizeof (char*), zf_strp };

typedef struct { char * addr; size_t size; const zt_t * t; size_t n; int num; int str; int inside; } z_obj_t;
#define Z_MAX 256
typedef struct { z_obj_t o[Z_MAX]; int n, changed; } z_reach_t;

static unsigned long long z_uint (const void * p, size_t w)
{
  switch (w) {
  case 1: return (*(uint8_t*)p);
  case 2: { uint16_t v; memcpy (&v, p, 2); return (v); }
  case 4: { uint32_t v; memcpy (&v, p, 4); return (v); }
  default: { uint64_t v; memcpy (&v, p, 8); return (v); }
  }
}

static void z_scan (z_reach_t * r, char * obj, const zt_t * t, int scalars);

static void
z_found (z_reach_t * r, char * p, const zt_t * t, size_t n, int str)
{
  int i;
  size_t size = str ? strlen (p) + 1 : t->size * n;
  for (i = 0; i < r->n; ++i)
    if (!str && r->o[i].t == t && p < r->o[i].addr + r->o[i].size && r->o[i].addr < p + size
	&& (p < r->o[i].addr || p + size > r->o[i].addr + r->o[i].size))
      {
	/* sized blocks that overlap are parts of one array */
	char * end = p + size > r->o[i].addr + r->o[i].size ? p + size : r->o[i].addr + r->o[i].size;
	char * addr = p < r->o[i].addr ? p : r->o[i].addr;
	if (i == 0) continue;
	r->o[i] = r->o[--r->n];
	r->changed = 1;
	z_found (r, addr, t, (end - addr) / t->size, 0);
	return;
      }
  for (i = 0; i < r->n; ++i)
    if (r->o[i].str == str && p >= r->o[i].addr && p + size <= r->o[i].addr + r->o[i].size && (!str || p == r->o[i].addr))
      return;
  mc_assert (r->n < Z_MAX, "graph too big");
  r->changed = 1;
  r->o[r->n++] = (z_obj_t) { p, size, t, n, -1, str, 0 };
}

static void
z_scan (z_reach_t * r, char * obj, const zt_t * t, int scalars)
{
  const zf_t * f;
  int i;
  for (f = t->f; f && f->kind; ++f)
    for (i = 0; i < (f->count ? f->count : 1); ++i)
      {
	char * p = obj + f->off + i * f->size;
	char * target;
	switch (f->kind)
	  {
	  case Z_SUB: z_scan (r, p, f->t, scalars); break;
	  case Z_SEL: { const zt_t * s = f->sel (obj); if (s) z_scan (r, p, s, scalars); } break;
	  case Z_STR:
	    memcpy (&target, p, sizeof (target));
	    if (target && scalars) z_found (r, target, NULL, 0, 1);
	    break;
	  case Z_PTR:
	    memcpy (&target, p, sizeof (target));
	    if (target && (f->t->f != NULL || scalars)) z_found (r, target, f->t, 1, 0);
	    break;
	  case Z_DYN:
	    memcpy (&target, p, sizeof (target));
	    if (target && z_uint (obj + f->size_off, f->size_w) >= f->t->size)
	      z_found (r, target, f->t, z_uint (obj + f->size_off, f->size_w) / f->t->size, 0);
	    break;
	  }
      }
}

/* every maximal object reachable from the root (object 0) */
static void
z_reach (z_reach_t * r, void * root, const zt_t * t)
{
  int i, pass, j;
  size_t k;
  r->n = 0;
  z_found (r, root, t, 1, 0);
  for (pass = 0; pass < 2; ++pass)
    do
      {
	r->changed = 0;
	for (i = 0; i < r->n; ++i)
	  if (r->o[i].t && r->o[i].t->f)
	    for (k = 0; k < r->o[i].n; ++k)
	      z_scan (r, r->o[i].addr + k * r->o[i].t->size, r->o[i].t, pass);
      }
    while (r->changed);
  for (i = 0; i < r->n; ++i)
    for (j = 0; j < r->n; ++j)
      if (i != j && !r->o[i].str && !r->o[j].str && !r->o[j].inside
	  && r->o[i].addr >= r->o[j].addr && r->o[i].addr + r->o[i].size <= r->o[j].addr + r->o[j].size
	  && (r->o[i].size < r->o[j].size || i > j))
	r->o[i].inside = 1;
  /* a string that is a char array of the structure, or of a block something else points to */
  for (i = 0; i < r->n; ++i)
    for (j = 0; j < r->n; ++j)
      if (r->o[i].str && !r->o[j].str && r->o[i].addr >= r->o[j].addr && r->o[i].addr + r->o[i].size <= r->o[j].addr + r->o[j].size)
	r->o[i].inside = 1;
}

static z_obj_t *
z_object (z_reach_t * r, char * p, int str)
{
  int i;
  for (i = 0; i < r->n; ++i)
    if (!r->o[i].inside && r->o[i].str == str && (str ? p == r->o[i].addr : (p >= r->o[i].addr && p < r->o[i].addr + r->o[i].size)))
      return (&r->o[i]);
  if (str)
    for (i = 0; i < r->n; ++i)
      if (!r->o[i].inside && !r->o[i].str && p >= r->o[i].addr && p < r->o[i].addr + r->o[i].size)
	return (&r->o[i]);
  return (NULL);
}

#define Z_TEXT 16384
typedef struct { z_reach_t * r; char * out; size_t len; int next; z_obj_t * queue[Z_MAX]; } z_canon_t;
static void __attribute__ ((format (printf, 2, 3)))
z_put (z_canon_t * c, const char * fmt, ...)
{
  va_list args;
  va_start (args, fmt);
  if (c->len < Z_TEXT - 1)
    c->len += vsnprintf (c->out + c->len, Z_TEXT - c->len, fmt, args);
  if (c->len > Z_TEXT - 1) c->len = Z_TEXT - 1;
  va_end (args);
}
static void
z_ref (z_canon_t * c, char * p, int str)
{
  z_obj_t * o;
  if (!p) { z_put (c, "0"); return; }
  o = z_object (c->r, p, str);
  if (!o) { z_put (c, "?"); return; }
  if (o->num < 0) { o->num = c->next; c->queue[c->next++] = o; }
  z_put (c, "&%d", o->num);
  if (p != o->addr) z_put (c, "+%d", (int)(p - o->addr));
}
/* as values of the language: both zeroes are equal, and a complex number with a NaN in it is a NaN */
static int z_loose, z_nan_complex;
static int
z_isnan (char * p, size_t size)
{
  long double v; double d; float f;
  if (size == 4) { memcpy (&f, p, 4); return (f != f); }
  if (size == 8) { memcpy (&d, p, 8); return (d != d); }
  memcpy (&v, p, sizeof (v)); return (v != v);
}
static int
z_iszero (char * p, size_t size)
{
  long double v; double d; float f;
  if (size == 4) { memcpy (&f, p, 4); return (f == 0); }
  if (size == 8) { memcpy (&d, p, 8); return (d == 0); }
  memcpy (&v, p, sizeof (v)); return (v == 0);
}
static void
z_scalar (z_canon_t * c, char * p, size_t size, int flt)
{
  if (flt)
    {
      /* any NaN is as good as any other */
      if (z_isnan (p, size)) { z_put (c, "nan"); return; }
      if (z_loose && z_iszero (p, size)) { z_put (c, "x0"); return; }
      if (size == 16) size = 10;
      z_put (c, "x");
      while (size--) z_put (c, "%02x", (unsigned char)p[size]);
      return;
    }
  switch (size)
    {
    case 1: z_put (c, "%d", *(signed char*)p); break;
    case 2: z_put (c, "%d", (int)(short)z_uint (p, 2)); break;
    case 4: z_put (c, "%d", (int)z_uint (p, 4)); break;
    case 8: z_put (c, "%lld", (long long)z_uint (p, 8)); break;
    default: while (size--) z_put (c, "%02x", (unsigned char)p[size]);
    }
}
static void
z_print (z_canon_t * c, char * obj, const zt_t * t)
{
  const zf_t * f;
  int i, n;
  char * target;
  if (!t->f) { z_scalar (c, obj, t->size, t->flt); return; }
  z_put (c, "{");
  for (f = t->f; f->kind; ++f)
    {
      n = f->count ? f->count : 1;
      z_put (c, "%s%s=", f == t->f ? "" : " ", f->name);
      if (n > 1) z_put (c, "[");
      for (i = 0; i < n; ++i)
	{
	  char * p = obj + f->off + i * f->size;
	  if (i) z_put (c, ",");
	  switch (f->kind)
	    {
	    case Z_RAW: z_scalar (c, p, f->size, 0); break;
	    case Z_FLT:
	      if ((z_loose || z_nan_complex) && n == 2 && (z_isnan (obj + f->off, f->size) || z_isnan (obj + f->off + f->size, f->size))) z_put (c, "nan");
	      else z_scalar (c, p, f->size, 1);
	      break;
	    case Z_CA: z_put (c, "\"%s\"", mc_quote (p, strnlen (p, f->size))); break;
	    case Z_BITS: z_put (c, "%lld", f->get (obj)); break;
	    case Z_SUB: z_print (c, p, f->t); break;
	    case Z_SEL: { const zt_t * s = f->sel (obj); if (s) z_print (c, p, s); else z_put (c, "-"); } break;
	    case Z_STR: memcpy (&target, p, sizeof (target)); z_ref (c, target, 1); break;
	    case Z_PTR: memcpy (&target, p, sizeof (target)); z_ref (c, target, 0); break;
	    case Z_ANY: /* an untyped pointer is worth keeping only when the target is reachable otherwise */
	      memcpy (&target, p, sizeof (target));
	      if (target && z_object (c->r, target, 0)) z_ref (c, target, 0); else z_put (c, target ? "u" : "0");
	      break;
	    case Z_DYN:
	      memcpy (&target, p, sizeof (target));
	      z_put (c, "%llu:", z_uint (obj + f->size_off, f->size_w));
	      if (target && z_uint (obj + f->size_off, f->size_w) >= f->t->size) z_ref (c, target, 0);
	      else z_put (c, "0");
	      break;
	    }
	}
      if (n > 1) z_put (c, "]");
    }
  z_put (c, "}");
}
/* canonical text: equal exactly for isomorphic graphs */
static char *
z_canon (void * root, const zt_t * t, z_reach_t * r)
{
  static char text[4][Z_TEXT];
  static z_reach_t reach;
  static int k;
  static z_canon_t c;
  int i;
  size_t j;
  if (!r) r = &reach;
  c = (z_canon_t) { .r = r, .out = text[k++ & 3] };
  c.out[0] = 0;
  z_reach (r, root, t);
  r->o[0].num = 0; c.queue[c.next++] = z_object (r, root, 0);
  c.queue[0]->num = 0;
  for (i = 0; i < c.next; ++i)
    {
      z_obj_t * o = c.queue[i];
      z_put (&c, "%s#%d:", i ? " " : "", i);
      if (o->str) z_put (&c, "\"%s\"", mc_quote (o->addr, strlen (o->addr)));
      else
	for (j = 0; j < o->n; ++j) { if (j) z_put (&c, ";"); z_print (&c, o->addr + j * o->t->size, o->t); }
    }
  return (c.out);
}

/* every object reachable from a loaded or copied root but the root itself must be a live block, big enough and new */
static char *
z_owned (z_reach_t * r, z_reach_t * src)
{
  static char buf[256];
  int i, j;
  for (i = 0; i < r->n; ++i)
    {
      z_obj_t * o = &r->o[i];
      if (i == 0 || o->inside) continue;
      if (o->addr >= r->o[0].addr && o->addr < r->o[0].addr + r->o[0].size) continue;
      mem_block_t * b = mem_find (o->addr);
      if (!b) { snprintf (buf, sizeof (buf), "%s is not a block of its own", o->str ? "string" : o->t->name); return (buf); }
      if (b->size < o->size) { snprintf (buf, sizeof (buf), "%s needs %zu bytes, block has %zu", o->str ? "string" : o->t->name, o->size, b->size); return (buf); }
      if (src)
	for (j = 0; j < src->n; ++j)
	  if (o->addr < src->o[j].addr + src->o[j].size && src->o[j].addr < o->addr + o->size)
	    { snprintf (buf, sizeof (buf), "%s is shared with the source", o->str ? "string" : o->t->name); return (buf); }
    }
  return (NULL);
}

static void z_drop (mr_rarray_t * ra) { if (ra->data.ptr) MR_FREE (ra->data.ptr); memset (ra, 0, sizeof (*ra)); }
static const char * z_doc (int fmt, const mr_rarray_t * ra)
{
  if (!ra->data.ptr) return ("(nothing)");
  return (mc_quote (ra->data.ptr, ra->MR_SIZE > 400 ? 400 : ra->MR_SIZE));
}

/* run-time set-up shared by the harnesses: one save and load of everything so that lazy tables exist before forks */
static void
z_setup (void)
{
  mem_install ();
  mr_conf_init ();
  xmlInitParser ();
  mc_exec_begin = mem_begin;
  mc_exec_end = mem_purge;
}
static void z_quiet (void * ctx, const char * msg, ...) {}
#endif
