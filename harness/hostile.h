/* Target types for hostile input (texts of C13, streams of C14), and what to expect of what is loaded into them. */
#ifndef HOSTILE_H
#define HOSTILE_H
#include "graphs.h"
#include "values.h"

/* what the target types need: FREE: what was loaded can be freed whatever the text says; NOREF: unless it has references */
enum { FREE, NOREF, LOOSE };
typedef struct { const z_ops_t * ops; int how; const zt_t * zt; } target_t;

TYPEDEF_STRUCT (h1_t, (int, i), (int *, p), (char *, s), (struct h1_t *, n), (int, arr, [2]))
Z_OPS (h1_t)
static const zt_t zt_h1_t;
static const zf_t zf_h1_t[] = { ZRAW (h1_t, i), ZPTR (h1_t, p, zt_i32), ZSTR (h1_t, s), ZPTR (h1_t, n, zt_h1_t), ZRAWA (h1_t, arr), ZEND };
static const zt_t zt_h1_t = { "h1_t", sizeof (h1_t), zf_h1_t };
typedef char hca_t[3];
TYPEDEF_ENUM (hen_t, (HEN_A, = 1), (HEN_B, = 2), (HEN_C, = 4))
TYPEDEF_FUNC (int, hfn_t, (int))
TYPEDEF_STRUCT (h2_t, bool b, char c, (hca_t, ca), double d, complex float z, (hen_t, e), (unsigned, bf, : 3), (hfn_t, fn), (mr_int128_t, w))
Z_OPS (h2_t)
TYPEDEF_STRUCT (h3_t, (h1_t *, pa, [2]), (char *, sa, [2]), (emb_t, em, [2]), (emb_t, one), (int, m, [2][2]))
Z_OPS (h3_t)
static const zf_t zf_h3_t[] = { ZPTR (h3_t, pa, zt_h1_t), ZSTR (h3_t, sa), ZSUB (h3_t, em, zt_emb_t), ZSUB (h3_t, one, zt_emb_t), ZEND };
static const zt_t zt_h3_t = { "h3_t", sizeof (h3_t), zf_h3_t };
TYPEDEF_STRUCT (h4_t, (int, i), ANON_UNION (), (int, x), (char *, s), (int *, p), END_ANON_UNION ("d"), (uv_t, u, , "d"), (string_t, d))
Z_OPS (h4_t)
TYPEDEF_STRUCT (h5_t, (int *, a, , , { "n" }, "string"), (int, n), (el_t *, v, , , { "m" }, "string"), (uint8_t, m), (void *, op, , , { "q" }, "string"), (int, q))
Z_OPS (h5_t)
static const zf_t zf_h5_t[] = { ZDYN (h5_t, a, zt_i32, n), ZDYN (h5_t, v, zt_el_t, m), ZEND };
static const zt_t zt_h5_t = { "h5_t", sizeof (h5_t), zf_h5_t };
/* pointers to char arrays of two sizes, and members of these */
typedef char hc2_t[2];
typedef char hc9_t[9];
MR_TYPEDEF_DESC_BI (hc2_t);
MR_TYPEDEF_DESC_BI (hc9_t);
TYPEDEF_STRUCT (h6_t, (hc2_t, c2), (hc9_t, c9), (hc2_t *, p2), (hc9_t *, p9), (char *, s), (int, m, [3]), (int *, pi), (el_t, e, [2]), (el_t *, pe))
Z_OPS (h6_t)
static const zt_t zt_hc2 = { "hc2", 2 }, zt_hc9 = { "hc9", 9 };
static const zf_t zf_h6_t[] = { ZPTR (h6_t, p2, zt_hc2), ZPTR (h6_t, p9, zt_hc9), ZSTR (h6_t, s), ZRAWA (h6_t, m), ZPTR (h6_t, pi, zt_i32), ZSUB (h6_t, e, zt_el_t), ZPTR (h6_t, pe, zt_el_t), ZEND };
static const zt_t zt_h6_t = { "h6_t", sizeof (h6_t), zf_h6_t };
static const target_t targets[] = { { &ops_h1_t, FREE, &zt_h1_t }, { &ops_h2_t, FREE }, { &ops_h3_t, FREE, &zt_h3_t }, { &ops_h4_t, LOOSE }, { &ops_h5_t, NOREF, &zt_h5_t }, { &ops_gv_t, LOOSE }, { &ops_h6_t, FREE, &zt_h6_t } };
#define NT ((int)(sizeof (targets) / sizeof (targets[0])))

/* more elements than what a pointer is declared for are loaded, but only the first one is reachable through it */
static int
surplus (z_reach_t * r)
{
  int i;
  for (i = 1; i < r->n; ++i)
    if (!r->o[i].str && !r->o[i].inside)
      {
	mem_block_t * b = mem_find (r->o[i].addr);
	if (b && b->size > r->o[i].size) return (1);
	if (!b)
	  for (b = mem_tab; b < mem_tab + (1 << MEM_BITS); ++b)
	    if (b->ptr && r->o[i].addr > (char*)b->ptr && r->o[i].addr + r->o[i].size <= (char*)b->ptr + b->size
		&& (r->o[i].addr - (char*)b->ptr) % r->o[i].size == 0 && b->size % r->o[i].size == 0)
	      return (1);
      }
  return (0);
}

static graph_t
g_rich (int * how)
{
  graph_t g = { .zt = NULL };
  int k = mc_choose (12), i;
  *how = FREE;
  switch (k)
    {
    case 0: case 1: case 2: case 3:
      {
	h1_t * h = mem_new (sizeof (*h)), * n = mem_new (sizeof (*n));
	g.root = (void*)h; g.ops = &ops_h1_t; g.zt = &zt_h1_t;
	h->i = 1; h->arr[0] = 2; h->arr[1] = -3; h->n = n;
	n->i = 7;
	if (k == 1) { h->s = mem_str ("a<\"b"); n->s = h->s; h->p = &h->arr[1]; n->n = h; }
	if (k == 2) { h->p = mem_new (sizeof (int)); *h->p = 5; n->p = h->p; n->s = mem_str (""); n->n = n; }
	if (k == 3) { n->p = &n->i; n->n = mem_new (sizeof (*n)); n->n->n = h; n->n->p = &n->arr[0]; h->p = &n->n->i; h->s = mem_str ("1\n"); }
	break;
      }
    case 4:
      {
	h2_t * h = mem_new (sizeof (*h));
	g.root = (void*)h; g.ops = &ops_h2_t;
	h->b = true; h->c = '\''; strcpy (h->ca, "x"); h->d = -1.5; h->z = 1 - 2 * I; h->e = HEN_A | HEN_C; h->bf = 5; h->fn = v_func_one; h->w = -1;
	break;
      }
    case 5: case 6:
      {
	h3_t * h = mem_new (sizeof (*h));
	g.root = (void*)h; g.ops = &ops_h3_t; g.zt = &zt_h3_t;
	h->pa[0] = mem_new (sizeof (h1_t)); h->pa[1] = k == 5 ? h->pa[0] : NULL;
	h->sa[0] = mem_str ("q"); h->sa[1] = k == 5 ? h->sa[0] : NULL;
	h->em[0].up = &h->em[1]; h->em[1].up = k == 5 ? &h->one : mem_new (sizeof (emb_t)); h->one.up = &h->em[0];
	for (i = 0; i < 4; ++i) h->m[i / 2][i % 2] = i;
	break;
      }
    case 7: case 8:
      {
	h4_t * h = mem_new (sizeof (*h));
	g.root = (void*)h; g.ops = &ops_h4_t; *how = LOOSE;
	h->d = mem_str (k == 7 ? "s" : "p");
	if (k == 7) { h->s = mem_str ("t"); h->u.s = h->s; }
	else { h->p = mem_new (sizeof (int)); uo_t * u = mem_new (sizeof (*u)); h->u.p = u; u->d = UD_I; }
	break;
      }
    case 9:
      {
	h5_t * h = mem_new (sizeof (*h));
	g.root = (void*)h; g.ops = &ops_h5_t; g.zt = &zt_h5_t; *how = NOREF;
	h->n = 8; h->a = mem_new (8); h->m = 2 * sizeof (el_t); h->v = mem_new (h->m); h->v[1].l = &h->v[0]; h->q = 4; h->op = mem_new (4);
	break;
      }
    case 10: case 11:
      {
	h6_t * h = mem_new (sizeof (*h));
	g.root = (void*)h; g.ops = &ops_h6_t; g.zt = &zt_h6_t;
	memcpy (h->c2, "ab", 2); strcpy (h->c9, "cde");
	h->p2 = k == 10 ? &h->c2 : mem_new (sizeof (hc2_t)); h->p9 = k == 10 ? mem_new (sizeof (hc9_t)) : &h->c9; if (k == 10) strcpy (*h->p9, "z"); else (*h->p2)[0] = 122;
	h->s = k == 10 ? NULL : mem_str ("qrs"); h->pi = k == 10 ? &h->m[2] : &h->m[0]; h->pe = k == 10 ? &h->e[0] : &h->e[1]; h->e[1].k = 3; h->e[0].l = &h->e[1];
	break;
      }
    }
  return (g);
}
#endif
