/* Graph-shaped types and an exhaustive generator of their instances, used by the round-trip, copy, free and compare checks. */
#ifndef GRAPHS_H
#define GRAPHS_H
#include "zoo.h"

TYPEDEF_STRUCT (emb_t, (int, a), (struct emb_t *, up))
TYPEDEF_STRUCT (gn_t,
		(int, v),
		(struct gn_t *, p),
		(struct gn_t *, q),
		(int *, ip),
		(char *, s),
		(emb_t, emb),
		(emb_t *, ep))
static const zt_t zt_emb_t, zt_gn_t;
static const zf_t zf_emb_t[] = { ZRAW (emb_t, a), ZPTR (emb_t, up, zt_emb_t), ZEND };
static const zt_t zt_emb_t = { "emb_t", sizeof (emb_t), zf_emb_t };
static const zf_t zf_gn_t[] = { ZRAW (gn_t, v), ZPTR (gn_t, p, zt_gn_t), ZPTR (gn_t, q, zt_gn_t), ZPTR (gn_t, ip, zt_i32), ZSTR (gn_t, s),
  ZSUB (gn_t, emb, zt_emb_t), ZPTR (gn_t, ep, zt_emb_t), ZEND };
static const zt_t zt_gn_t = { "gn_t", sizeof (gn_t), zf_gn_t };
Z_OPS (gn_t)

/* arrays of structures and of pointers, sized blocks, pointers to pointers */
TYPEDEF_STRUCT (el_t, (short, k), (struct el_t *, l))
TYPEDEF_STRUCT (ga_t,
		(el_t, arr, [2]),
		(el_t *, dyn, , , { "dsize" }, "string"),
		(uint32_t, dsize),
		(el_t *, pa, [2]),
		(el_t **, pp),
		(el_t *, one),
		(short *, sp))
static const zt_t zt_el_t;
static const zf_t zf_el_t[] = { ZRAW (el_t, k), ZPTR (el_t, l, zt_el_t), ZEND };
static const zt_t zt_el_t = { "el_t", sizeof (el_t), zf_el_t };
static const zf_t zf_elp[] = { { Z_PTR, "ptr", 0, sizeof (void*), 1, &zt_el_t }, ZEND };
static const zt_t zt_elp = { "el_t *", sizeof (void*), zf_elp };
static const zf_t zf_ga_t[] = { ZSUB (ga_t, arr, zt_el_t), ZDYN (ga_t, dyn, zt_el_t, dsize), ZPTR (ga_t, pa, zt_el_t), ZPTR (ga_t, pp, zt_elp),
  ZPTR (ga_t, one, zt_el_t), ZPTR (ga_t, sp, zt_i16), ZEND };
static const zt_t zt_ga_t = { "ga_t", sizeof (ga_t), zf_ga_t };
Z_OPS (ga_t)

/* strings in every place they can be */
TYPEDEF_STRUCT (gs_t,
		(char *, s1),
		(string_t, s2),
		(char *, as, [2]),
		(char **, ps),
		(char *, ds, , , { "len" }, "string"),
		(int, len))
static const zf_t zf_gs_t[] = { ZSTR (gs_t, s1), ZSTR (gs_t, s2), ZSTR (gs_t, as), ZPTR (gs_t, ps, zt_strp), ZEND };
static const zt_t zt_gs_t = { "gs_t", sizeof (gs_t), zf_gs_t };
Z_OPS (gs_t)

/* sized blocks that overlap each other */
TYPEDEF_STRUCT (sl_t, (int *, a, , , { "na" }, "string"), (int, na), (int *, b, , , { .offset = offsetof (sl_t, nb) }, "offset"), (short, nb),
		(int *, c, , , { "nc" }, "string"), (uint8_t, nc), (int *, one))
static const zf_t zf_sl_t[] = { ZDYN (sl_t, a, zt_i32, na), ZDYN (sl_t, b, zt_i32, nb), ZDYN (sl_t, c, zt_i32, nc), ZPTR (sl_t, one, zt_i32), ZEND };
static const zt_t zt_sl_t = { "sl_t", sizeof (sl_t), zf_sl_t };
Z_OPS (sl_t)
TYPEDEF_STRUCT (ss_t, (el_t *, a, , , { "na" }, "string"), (int, na), (el_t *, b, , , { "nb" }, "string"), (int, nb), (el_t *, one))
static const zf_t zf_ss_t[] = { ZDYN (ss_t, a, zt_el_t, na), ZDYN (ss_t, b, zt_el_t, nb), ZPTR (ss_t, one, zt_el_t), ZEND };
static const zt_t zt_ss_t = { "ss_t", sizeof (ss_t), zf_ss_t };
Z_OPS (ss_t)

/* references come first, what they point to comes last: a member, a string (or none), an element */
TYPEDEF_STRUCT (fw_t, (char **, ps), (int *, pi), (el_t *, pe), (char *, al), (char **, pt), (struct fw_t *, n), (int, i), (el_t, e), (el_t, ee, [2]), (string_t, s), (char *, t))
static const zt_t zt_fw_t;
static const zf_t zf_fw_t[] = { ZPTR (fw_t, ps, zt_strp), ZPTR (fw_t, pi, zt_i32), ZPTR (fw_t, pe, zt_el_t), ZSTR (fw_t, al), ZPTR (fw_t, pt, zt_strp), ZPTR (fw_t, n, zt_fw_t), ZRAW (fw_t, i), ZSUB (fw_t, e, zt_el_t), ZSUB (fw_t, ee, zt_el_t),
  ZSTR (fw_t, s), ZSTR (fw_t, t), ZEND };
static const zt_t zt_fw_t = { "fw_t", sizeof (fw_t), zf_fw_t };
Z_OPS (fw_t)

/* pointers to pointers that share their cell */
TYPEDEF_STRUCT (gc_t, (int *, m), (int **, c1), (int **, c2))
static const zf_t zf_ip[] = { { Z_PTR, "ptr", 0, sizeof (void*), 1, &zt_i32 }, ZEND };
static const zt_t zt_ip = { "int *", sizeof (void*), zf_ip };
static const zf_t zf_gc_t[] = { ZPTR (gc_t, m, zt_i32), ZPTR (gc_t, c1, zt_ip), ZPTR (gc_t, c2, zt_ip), ZEND };
static const zt_t zt_gc_t = { "gc_t", sizeof (gc_t), zf_gc_t };
Z_OPS (gc_t)

/* untyped pointers and pointers whose type is a run-time string */
TYPEDEF_STRUCT (gv_t, (int, v), (struct gv_t *, n), (void *, vp), (mr_ptr_t, mp, , "type"), (char *, type), (emb_t, emb), (emb_t, pair, [2]))
static const zt_t zt_gv_t;
static const zf_t zf_gvp[] = { { Z_PTR, "ptr", 0, sizeof (void*), 1, &zt_gv_t }, ZEND };
static const zt_t zt_gvp = { "gv_t *", sizeof (void*), zf_gvp };
static const zf_t zf_embp[] = { { Z_PTR, "ptr", 0, sizeof (void*), 1, &zt_emb_t }, ZEND };
static const zt_t zt_embp = { "emb_t *", sizeof (void*), zf_embp };
static const zt_t * gv_sel (void * obj)
{
  gv_t * g = obj;
  if (!g->type) return (NULL);
  if (0 == strcmp (g->type, "gv_t")) return (&zt_gvp);
  if (0 == strcmp (g->type, "emb_t")) return (&zt_embp);
  if (0 == strcmp (g->type, "string")) return (&zt_strp);
  if (0 == strcmp (g->type, "int")) return (&zt_ip);
  return (NULL);
}
static const zf_t zf_gv_t[] = { ZRAW (gv_t, v), ZPTR (gv_t, n, zt_gv_t), ZANY (gv_t, vp), ZSEL (gv_t, mp, gv_sel), ZSTR (gv_t, type), ZSUB (gv_t, emb, zt_emb_t), ZSUB (gv_t, pair, zt_emb_t), ZEND };
static const zt_t zt_gv_t = { "gv_t", sizeof (gv_t), zf_gv_t };
Z_OPS (gv_t)

typedef struct graph_t { const z_ops_t * ops; const zt_t * zt; void * root; } graph_t;

/* make the graph on the library's heap; the root is a heap block too */
#define G_MAXNODE 4
static gn_t * g_n[G_MAXNODE];

static graph_t
g_links (int nodes) /* every way to link the nodes by two pointers each */
{
  int i;
  for (i = 0; i < nodes; ++i) { g_n[i] = mem_new (sizeof (gn_t)); g_n[i]->v = i + 1; }
  for (i = 0; i < nodes; ++i)
    {
      int p = mc_choose (nodes + 1), q = mc_choose (nodes + 1);
      g_n[i]->p = p ? g_n[p - 1] : NULL;
      g_n[i]->q = q ? g_n[q - 1] : NULL;
    }
  return ((graph_t) { &ops_gn_t, &zt_gn_t, g_n[0] });
}

static graph_t
g_interior (void) /* two nodes, with pointers to members, embedded structures and shared separate blocks */
{
  gn_t * a = mem_new (sizeof (gn_t)), * b = mem_new (sizeof (gn_t));
  int * hi = mem_new (sizeof (int)), i;
  emb_t * he = mem_new (sizeof (emb_t));
  int * ips[] = { NULL, &a->v, &b->v, &a->emb.a, &b->emb.a, hi, &he->a };
  emb_t * eps[] = { NULL, &a->emb, &b->emb, he };
  a->v = 1; b->v = 2; a->emb.a = 3; b->emb.a = 4; *hi = 5; he->a = 6;
  g_n[0] = a; g_n[1] = b;
  int link = mc_choose (4);
  a->p = link == 1 ? b : link == 2 ? a : NULL;
  a->q = link == 3 ? b : NULL;
  b->p = link == 3 ? a : NULL;
  for (i = 0; i < 2; ++i)
    {
      if (i == 1 && link != 1 && link != 3) break;
      g_n[i]->ip = ips[mc_choose (7)];
      g_n[i]->ep = eps[mc_choose (4)];
    }
  a->emb.up = eps[mc_choose (4)];
  he->up = eps[mc_choose (mc_thorough ? 4 : 2)];
  return ((graph_t) { &ops_gn_t, &zt_gn_t, a });
}

static graph_t
g_arrays (int deep)
{
  ga_t * g = mem_new (sizeof (ga_t));
  int n = mc_choose (3), i;
  el_t * h = mem_new (sizeof (el_t));
  el_t ** hp = mem_new (sizeof (el_t*));
  short * hs = mem_new (sizeof (short));
  g->arr[0].k = 1; g->arr[1].k = 2; h->k = 5; *hs = 6;
  g->dsize = n * sizeof (el_t);
  if (n)
    {
      g->dyn = mem_new (g->dsize);
      for (i = 0; i < n; ++i) g->dyn[i].k = 3 + i;
    }
  el_t * els[6]; int ne = 0;
  els[ne++] = NULL; els[ne++] = &g->arr[0]; els[ne++] = &g->arr[1]; els[ne++] = h;
  for (i = n - 1; i >= 0; --i) els[ne++] = &g->dyn[i];
  g->pa[0] = els[mc_choose (ne)];
  g->pa[1] = els[mc_choose (ne)];
  g->one = els[mc_choose (ne)];
  *hp = els[mc_choose (ne)];
  g->pp = mc_choose (2) ? hp : NULL;
  short * sps[] = { NULL, hs, &g->arr[1].k, &h->k, &g->arr[0].k, n ? &g->dyn[n - 1].k : hs };
  g->sp = sps[mc_choose (deep ? 6 : 4)];
  if (g->pp != hp) if (*hp) mc_skip ();
  int l = mc_choose (deep ? ne : 2);
  g->arr[1].l = deep ? els[l] : (l ? els[ne - 1] : NULL);
  h->l = deep ? (l ? els[ne - l] : NULL) : (l ? &g->arr[0] : NULL);
  if (n) g->dyn[0].l = els[ne - 1];
  return ((graph_t) { &ops_ga_t, &zt_ga_t, g });
}

static graph_t
g_strings (void)
{
  gs_t * g = mem_new (sizeof (gs_t));
  char * a = mem_str ("one"), * b = mem_str ("one"), * e = mem_str ("");
  char * ss[] = { NULL, a, b, e };
  char ** hp = mem_new (sizeof (char*));
  g->s1 = ss[mc_choose (4)];
  g->s2 = ss[mc_choose (4)];
  g->as[0] = ss[mc_choose (4)];
  g->as[1] = ss[mc_choose (4)];
  char ** pps[] = { NULL, &g->s1, &g->s2, &g->as[0], &g->as[1], hp };
  int k = mc_choose (6);
  g->ps = pps[k];
  if (k == 5) *hp = ss[mc_choose (4)];
  return ((graph_t) { &ops_gs_t, &zt_gs_t, g });
}

static graph_t
g_forward (void)
{
  fw_t * g = mem_new (sizeof (*g)), * h = mc_choose (2) ? mem_new (sizeof (*g)) : NULL, * to = h && mc_choose (2) ? h : g;
  char * a = mem_str ("one"), * b = mem_str ("");
  char * ss[] = { NULL, a, b };
  g->n = h;
  if (h) { h->i = 3; h->n = mc_choose (2) ? g : NULL; }
  g->i = 7; g->e.k = 1; g->ee[1].k = -2;
  to->s = ss[mc_choose (3)];
  to->t = ss[mc_choose (3)];
  { char ** t[] = { NULL, &to->s, &to->t, &g->t }; g->ps = t[mc_choose (3 + (to != g))]; g->pt = t[mc_choose (3)]; }
  { int * t[] = { NULL, &to->i }; g->pi = t[mc_choose (2)]; }
  { el_t * t[] = { NULL, &to->e, &to->ee[0], &to->ee[1] }; g->pe = t[mc_choose (4)]; }
  g->al = ss[mc_choose (2)];
  return ((graph_t) { &ops_fw_t, &zt_fw_t, g });
}

static graph_t
g_cells (void)
{
  gc_t * g = mem_new (sizeof (gc_t));
  int ** h1 = mem_new (sizeof (int*)), ** h2 = mem_new (sizeof (int*)), * i1 = mem_new (sizeof (int)), * i2 = mem_new (sizeof (int));
  int * is[] = { NULL, i1, i2 }, ** cs[] = { NULL, h1, h2, &g->m };
  *i1 = 1; *i2 = 2;
  g->m = is[mc_choose (3)];
  g->c1 = cs[mc_choose (4)];
  g->c2 = cs[mc_choose (4)];
  if (g->c1 == h1 || g->c2 == h1) *h1 = is[mc_choose (3)];
  if (g->c1 == h2 || g->c2 == h2) *h2 = is[mc_choose (3)];
  return ((graph_t) { &ops_gc_t, &zt_gc_t, g });
}
static int g_cells_aliased (gc_t * g) { return ((g->c1 && g->c1 == g->c2) || g->c1 == &g->m || g->c2 == &g->m); }

static graph_t
g_slices (int n) /* three slices of one array */
{
  int * buf = mem_new (n * sizeof (int)), i;
  sl_t * g = mem_new (sizeof (sl_t));
  int at[3], len[3];
  for (i = 0; i < n; ++i) buf[i] = 10 + i;
  for (i = 0; i < 3; ++i)
    {
      at[i] = mc_choose (n);
      len[i] = mc_choose (n - at[i] + 1);
      if (len[i] == 0 && at[i]) mc_skip ();
    }
  if (len[0]) { g->a = buf + at[0]; g->na = len[0] * sizeof (int); }
  if (len[1]) { g->b = buf + at[1]; g->nb = len[1] * sizeof (int); }
  if (len[2]) { g->c = buf + at[2]; g->nc = len[2] * sizeof (int); }
  i = mc_choose (n + 1);
  if (i) g->one = &buf[i - 1];
  return ((graph_t) { &ops_sl_t, &zt_sl_t, g });
}

static graph_t
g_struct_slices (int n)
{
  el_t * buf = mem_new (n * sizeof (el_t));
  int i;
  ss_t * g = mem_new (sizeof (ss_t));
  int at[2], len[2];
  for (i = 0; i < n; ++i) buf[i].k = 10 + i;
  for (i = 0; i < 2; ++i)
    {
      at[i] = mc_choose (n);
      len[i] = mc_choose (n - at[i] + 1);
      if (len[i] == 0 && at[i]) mc_skip ();
    }
  if (len[0]) { g->a = buf + at[0]; g->na = len[0] * sizeof (buf[0]); }
  if (len[1]) { g->b = buf + at[1]; g->nb = len[1] * sizeof (buf[0]); }
  i = mc_choose (n + 1);
  if (i) g->one = &buf[i - 1];
  for (i = 0; i < n; ++i)
    {
      int l = mc_choose (3);
      if (l) buf[i].l = &buf[l == 1 ? (i + 1) % n : (i + n - 1) % n];
    }
  return ((graph_t) { &ops_ss_t, &zt_ss_t, g });
}

static graph_t
g_long (void) /* enough nodes for identifiers of several digits, in a few regular topologies */
{
  static const int sizes[] = { 4, 9, 10, 11, 12, 19, 33, 60, 100, 101, 120 };
  gn_t * n[128];
  int k = mc_choose (mc_thorough ? 11 : 9), count = sizes[k], kind = mc_choose (6), i, extra = mc_choose (5);
  for (i = 0; i < count; ++i) { n[i] = mem_new (sizeof (gn_t)); n[i]->v = i - 5; }
  for (i = 0; i < count; ++i)
    {
      n[i]->p = i + 1 < count ? n[i + 1] : NULL;
      switch (kind)
	{
	case 0: if (i + 1 == count) n[i]->p = n[0]; break;
	case 1: n[i]->q = i ? n[i - 1] : NULL; break;
	case 2: n[i]->q = n[0]; break;
	case 3: n[i]->q = n[count - 1]; break;
	case 4: n[i]->q = n[(i * 7 + 3) % count]; break;
	case 5: n[i]->p = 2 * i + 1 < count ? n[2 * i + 1] : NULL; n[i]->q = 2 * i + 2 < count ? n[2 * i + 2] : n[0]; break;
	}
      switch (extra)
	{
	case 1: n[i]->ip = &n[(i * 5 + 1) % count]->v; break;
	case 2: n[i]->ep = &n[(i + count / 2) % count]->emb; break;
	case 3: n[i]->ip = &n[count - 1 - i]->emb.a; break;
	case 4: n[i]->s = i & 1 ? n[i - 1]->s : mem_str (i & 2 ? "ab" : "cd"); break;
	}
    }
  return ((graph_t) { &ops_gn_t, &zt_gn_t, n[0] });
}

static graph_t
g_untyped (void)
{
  gv_t * a = mem_new (sizeof (gv_t)), * b = mem_new (sizeof (gv_t));
  char * s = mem_str ("x"), * t = NULL;
  int * i = mem_new (sizeof (int)), k, two;
  emb_t * he = mem_new (sizeof (emb_t));
  a->v = 1; b->v = 2; *i = 3; he->a = 4; a->emb.a = 5; a->pair[1].a = 6;
  gv_t * ns[] = { NULL, a, b };
  a->n = ns[two = mc_choose (3)];
  void * vs[] = { NULL, a, &a->emb, &a->pair[1], b, &b->emb };
  a->vp = vs[mc_choose (two == 2 ? 6 : 4)];
  k = mc_choose (6);
  switch (k)
    {
    case 0: break;
    case 1: t = "gv_t"; a->mp.ptr = ns[mc_choose (3)]; break;
    case 2: t = "emb_t"; a->mp.ptr = ((void*[]){ NULL, &a->emb, &a->pair[0], &a->pair[1], he })[mc_choose (5)]; break;
    case 3: t = "string"; a->mp.ptr = mc_choose (2) ? s : NULL; break;
    case 4: t = "int"; a->mp.ptr = ((void*[]){ NULL, i, &a->v, &a->emb.a })[mc_choose (4)]; break;
    case 5: t = "string"; a->mp.ptr = NULL; break;
    }
  if (t) a->type = mem_str (t);
  if (two == 2)
    {
      b->n = ns[mc_choose (3)];
      if (k && mc_choose (2)) { b->type = a->type; b->mp = a->mp; }
      b->vp = ((void*[]){ NULL, a, &a->emb })[mc_choose (mc_thorough ? 3 : 2)];
    }
  return ((graph_t) { &ops_gv_t, &zt_gv_t, a });
}

static void (*g_warm_more) (void);
static void
g_warm (void)
{
  /* types are registered and lazily built tables exist from here on */
  gn_t n; ga_t a; gs_t s; int f;
  if (g_warm_more) g_warm_more ();
  memset (&n, 0, sizeof (n)); memset (&a, 0, sizeof (a)); memset (&s, 0, sizeof (s));
  for (f = 0; f < F_N; ++f)
    {
      mr_rarray_t ra = ops_gn_t.save (f, &n);
      gn_t x;
      ops_gn_t.load (f, &ra, &x);
      z_drop (&ra);
    }
}
#endif
