/* C27: objects in a binary stream one after another: each load takes exactly the bytes its save made; short streams are refused. */
#include "graphs.h"
#include "values.h"
#include <rpc/xdr.h>
#include <arpa/inet.h>

/* a scalar, an array of structures and a string as roots */
typedef struct { const char * name; mr_status_t (*save) (XDR *, void *); mr_status_t (*load) (XDR *, void *); } xop_t;
#define X_OPS(T) \
  static mr_status_t xs_##T (XDR * x, void * p) { return (MR_SAVE_XDR (x, T, (T*)p)); } \
  static mr_status_t xl_##T (XDR * x, void * p) { return (MR_LOAD_XDR (T, x, (T*)p)); }
#define X_ITEM(T) { #T, xs_##T, xl_##T },
#define TYPES(X) X (gn_t) X (ga_t) X (gs_t) X (sl_t) X (ss_t) X (gc_t) X (gv_t) X (vs_t) X (uo_t) X (tx_t) X (lb_t) X (zd_t)
TYPES (X_OPS)
static const xop_t xops[] = { TYPES (X_ITEM) };
static const xop_t * x_of (graph_t * g)
{
  int i;
  for (i = 0; ; ++i) if (!strcmp (xops[i].name, g->ops->name)) return (&xops[i]);
}

#define NREP 12
static graph_t
rep (int k)
{
  graph_t g;
  switch (k)
    {
    case 0: { gn_t * n = mem_new (sizeof (*n)); g = (graph_t) { &ops_gn_t, &zt_gn_t, n }; break; }
    case 1: { gn_t * n = mem_new (sizeof (*n)); n->v = -1; n->p = n; n->q = mem_new (sizeof (*n)); n->q->p = n; n->q->ip = &n->v; n->s = mem_str ("odd"); n->q->s = n->s; g = (graph_t) { &ops_gn_t, &zt_gn_t, n }; break; }
    case 2: { gs_t * s = mem_new (sizeof (*s)); s->s1 = mem_str (""); s->as[1] = mem_str ("four"); s->ps = &s->as[1]; g = (graph_t) { &ops_gs_t, &zt_gs_t, s }; break; }
    case 3: { sl_t * s = mem_new (sizeof (*s)); s->a = mem_new (12); s->na = 12; s->b = s->a + 1; s->nb = 8; s->one = s->a + 2; g = (graph_t) { &ops_sl_t, &zt_sl_t, s }; break; }
    case 4: { ga_t * a = mem_new (sizeof (*a)); a->arr[1].k = 5; a->dyn = mem_new (2 * sizeof (el_t)); a->dsize = 2 * sizeof (el_t); a->one = &a->dyn[1]; a->sp = &a->arr[1].k; g = (graph_t) { &ops_ga_t, &zt_ga_t, a }; break; }
    case 5: { gv_t * v = mem_new (sizeof (*v)); v->v = 3; v->type = mem_str ("emb_t"); v->mp.ptr = mem_new (sizeof (emb_t)); v->vp = v->mp.ptr; g = (graph_t) { &ops_gv_t, &zt_gv_t, v }; break; }
    case 6: { vs_t * v = mem_new (sizeof (*v)); v->i8 = -1; v->u64 = 1ULL << 63; v->ld = 0.1L; v->e = VEN_NEG; strcpy (v->ca, "abcd"); v->bf3 = -2; g = (graph_t) { &ops_vs_t, &zt_vs_t, v }; break; }
    case 7: { uo_t * u = mem_new (sizeof (*u)); u->d = UD_P; u->u.p = u; g = (graph_t) { &ops_uo_t, &zt_uo_t, u }; break; }
    case 8: { tx_t * t = mem_new (sizeof (*t)); memcpy (t->a, "abc", 3); t->p = mem_new (3); memcpy (*t->p, "xyz", 3); g = (graph_t) { &ops_tx_t, &zt_tx_t, t }; break; }
    case 9: { lb_t * l = mem_new (sizeof (*l)); strcpy (l->a, "q"); l->s = l->a; l->t = mem_str ("12345"); g = (graph_t) { &ops_lb_t, &zt_lb_t, l }; break; }
    case 10: { zd_t * z = mem_new (sizeof (*z)); z->p8 = mem_new (6); z->n8 = 6; z->p8[2] = -2; z->pstr = mem_new (sizeof (char*)); z->nstr = sizeof (char*); z->pstr[0] = mem_str ("s"); g = (graph_t) { &ops_zd_t, &zt_zd_t, z }; break; }
    default: { gc_t * c = mem_new (sizeof (*c)); c->m = mem_new (sizeof (int)); c->c1 = &c->m; c->c2 = c->c1; g = (graph_t) { &ops_gc_t, &zt_gc_t, c }; break; }
    }
  return (g);
}

/* save the sequence into every kind of stream, load it from every kind, cut it at every place */
static void
sequence (graph_t * g, int n, int dense)
{
  int i, k;
  long end[4] = { 0 }, total, cut;
  static char must[3][Z_TEXT];
  const xop_t * x[3];
  char all[30000];
  char note[1000] = "";
  for (i = 0; i < n; ++i)
    {
      x[i] = x_of (&g[i]);
      snprintf (note + strlen (note), sizeof (note) - strlen (note), "%.300s | ", z_canon (g[i].root, g[i].zt, NULL));
    }
  mc_note ("%s", note);
  /* each alone */
  for (i = 0; i < n; ++i)
    {
      mr_rarray_t ra = g[i].ops->save (F_XDR, g[i].root);
      mc_assert (ra.data.ptr, "object %d is not saved", i);
      if (end[i] + ra.MR_SIZE > (long)sizeof (all)) mc_skip ();
      memcpy (all + end[i], ra.data.ptr, ra.MR_SIZE);
      end[i + 1] = end[i] + ra.MR_SIZE;
      void * back = mem_new (g[i].ops->size);
      mc_assert (MR_SUCCESS == g[i].ops->load (F_XDR, &ra, back), "object %d is not loaded", i);
      strcpy (must[i], z_canon (back, g[i].zt, NULL));
      z_drop (&ra);
    }
  total = end[n];
  /* one growable stream */
  {
    XDR xdrs;
    mr_rarray_t ra = { { 0 } };
    ra.type = "uint8_t";
    mr_xdrra_create (&xdrs, &ra, XDR_ENCODE);
    for (i = 0; i < n; ++i)
      {
	mc_assert (xdr_getpos (&xdrs) == end[i], "growable stream: object %d is saved at %u", i, xdr_getpos (&xdrs));
	mc_assert (MR_SUCCESS == x[i]->save (&xdrs, g[i].root), "growable stream: object %d is not saved", i);
      }
    mc_assert (ra.MR_SIZE == total && xdr_getpos (&xdrs) == total && !memcmp (ra.data.ptr, all, total), "growable stream: other bytes than of the objects alone");
    mr_xdrra_create (&xdrs, &ra, XDR_DECODE);
    for (i = 0; i < n; ++i)
      {
	void * back = mem_new (g[i].ops->size);
	mc_assert (MR_SUCCESS == x[i]->load (&xdrs, back), "growable stream: object %d is not loaded", i);
	mc_assert (xdr_getpos (&xdrs) == end[i + 1], "growable stream: object %d ends at %u, not at %ld", i, xdr_getpos (&xdrs), end[i + 1]);
	mc_assert (!strcmp (must[i], z_canon (back, g[i].zt, NULL)), "growable stream: object %d is %s", i, z_canon (back, g[i].zt, NULL));
      }
    /* any of them again after going back */
    if (n > 1)
      {
	i = n - 1;
	mc_assert (xdr_setpos (&xdrs, end[i]), "no way back");
	void * back = mem_new (g[i].ops->size);
	mc_assert (MR_SUCCESS == x[i]->load (&xdrs, back) && !strcmp (must[i], z_canon (back, g[i].zt, NULL)), "object %d is another one after going back", i);
      }
    xdr_destroy (&xdrs);
    mc_assert (!ra.data.ptr && !ra.MR_SIZE, "destroyed stream keeps its data");
  }
  /* a stream of the C library's FILE */
  {
    char * text = NULL;
    size_t size;
    XDR xdrs;
    FILE * f = open_memstream (&text, &size);
    xdrstdio_create (&xdrs, f, XDR_ENCODE);
    for (i = 0; i < n; ++i) mc_assert (MR_SUCCESS == x[i]->save (&xdrs, g[i].root), "file: object %d is not saved", i);
    fclose (f);
    mc_assert ((long)size == total && !memcmp (text, all, total), "file: other bytes than of the objects alone");
    f = fmemopen (text, size, "r");
    xdrstdio_create (&xdrs, f, XDR_DECODE);
    for (i = 0; i < n; ++i)
      {
	void * back = mem_new (g[i].ops->size);
	mc_assert (MR_SUCCESS == x[i]->load (&xdrs, back), "file: object %d is not loaded", i);
	mc_assert (!strcmp (must[i], z_canon (back, g[i].zt, NULL)), "file: object %d is another one", i);
      }
    fclose (f);
    free (text);
  }
  /* every capacity, and every length, of a memory stream; every length of a growable one */
  for (cut = 0; cut <= total; ++cut)
    if (mc_thorough || dense == 2 || (dense == 1 && (cut & 3) % 3 == 0) || labs (cut - end[1]) < 2 || labs (cut - total) < 5 || cut < 5)
    for (k = 0; k < 3; ++k)
      {
	XDR xdrs;
	mr_rarray_t ra = { .data = { malloc (cut ? cut : 1) }, .MR_SIZE = cut, .alloc_size = cut, .type = "uint8_t" };
	char leak[100];
	if (k) memcpy (ra.data.ptr, all, cut);
	if (k == 0) xdrmem_create (&xdrs, ra.data.ptr, cut, XDR_ENCODE);
	else if (k == 1) xdrmem_create (&xdrs, ra.data.ptr, cut, XDR_DECODE);
	else mr_xdrra_create (&xdrs, &ra, XDR_DECODE);
	for (i = 0; i < n; ++i)
	  {
	    mr_status_t st;
	    int fits = end[i + 1] <= cut, had = mem_leaks (leak, sizeof (leak));
	    char * back = k ? mem_new (g[i].ops->size) : NULL;
	    had += k != 0;
	    if (k) st = x[i]->load (&xdrs, back); else st = x[i]->save (&xdrs, g[i].root);
	    static const char * const what[] = { "saved to", "loaded from", "loaded from growable stream of" };
	    mc_assert ((st == MR_SUCCESS) == fits, "object %d is %s%s %ld bytes of %ld", i, fits ? "not " : "", what[k], cut, total);
	    if (!fits)
	      {
		if (k) mc_assert (mem_leaks (leak, sizeof (leak)) == had, "blocks are lost with %ld bytes of %ld: %s", cut, total, leak);
		break;
	      }
	    mc_assert (xdr_getpos (&xdrs) == end[i + 1], "object %d of %ld bytes ends at %u, not at %ld", i, cut, xdr_getpos (&xdrs), end[i + 1]);
	    if (k && cut == total) mc_assert (!strcmp (must[i], z_canon (back, g[i].zt, NULL)), "object %d is another one", i);
	  }
	if (k == 0) mc_assert (!memcmp (ra.data.ptr, all, end[i]), "other bytes than of the objects alone");
	free (ra.data.ptr);
      }
  mc_outcome (mc_hash (note, strlen (note), n));
}
static void triples (void) { graph_t g[3]; int k[3], i; for (i = 0; i < 3; ++i) { k[i] = mc_choose (NREP); if (i == 1) mc_shard (); } for (i = 0; i < 3; ++i) g[i] = rep (k[i]); sequence (g, 3, 1); }
static void pairs (void) { graph_t g[2]; int k[2], i; for (i = 0; i < 2; ++i) { k[i] = mc_choose (NREP); if (i == 0) mc_shard (); } for (i = 0; i < 2; ++i) g[i] = rep (k[i]); sequence (g, 2, 2); }
/* any object of a family between two others */
/* dense: 2 - cut at every byte, 1 - within and between the units of the stream, 0 - at the ends of the objects; always all in the thorough tier */
#define FAMILY(N, D, G) static void N (void) { graph_t g[2]; g[0] = G; mc_shard (); g[1] = rep (1); sequence (g, 2, D); }
FAMILY (links2, 1, g_links (2)) FAMILY (interior, 0, g_interior ()) FAMILY (arrays, 0, g_arrays (mc_thorough)) FAMILY (strings, 1, g_strings ()) FAMILY (cells, 1, g_cells ())
FAMILY (untyped, 1, g_untyped ()) FAMILY (slices, 1, g_slices (2)) FAMILY (struct_slices, 1, g_struct_slices (mc_thorough ? 3 : 2))
FAMILY (values, 1, g_values ()) FAMILY (unions, 2, g_unions ()) FAMILY (sized, 1, g_sized ()) FAMILY (texts, 2, g_texts ()) FAMILY (labels, 1, g_labels ())

/* the growable stream itself: all histories of its operations against an array of bytes */
static void
stream (void)
{
  unsigned char ref[512];
  long n = 0, pos = 0;
  int k, depth = mc_thorough ? 7 : 6, put = 1 + mc_choose (3);
  XDR xdrs;
  mr_rarray_t ra = { { 0 } };
  char note[500] = "";
  ra.type = "uint8_t";
  mr_xdrra_create (&xdrs, &ra, XDR_ENCODE);
  for (k = 0; k < put; ++k)
    {
      int op = mc_choose (6);
      uint32_t w = 0x80112200u + k, be = htonl (w);
      long l = w;
      char bytes[12] = "abcdefghijk";
      int ok = 1;
      if (k == 0) mc_shard ();
      sprintf (note + strlen (note), " put%d", op);
      mc_note ("%s", note);
      switch (op)
	{
	case 0: ok = XDR_PUTLONG (&xdrs, &l); memcpy (ref + n, &be, 4); n += 4; break;
	case 1: ok = XDR_PUTBYTES (&xdrs, bytes, 1); memcpy (ref + n, bytes, 1); n += 1; break;
	case 2: ok = XDR_PUTBYTES (&xdrs, bytes, 7); memcpy (ref + n, bytes, 7); n += 7; break;
	case 3: ok = xdr_u_int (&xdrs, &w); memcpy (ref + n, &be, 4); n += 4; break;
	case 4: ok = xdr_opaque (&xdrs, bytes, 5); memcpy (ref + n, bytes, 5); memset (ref + n + 5, 0, 3); n += 8; break;
	case 5: { char * s = "five5"; ok = xdr_string (&xdrs, &s, 100); be = htonl (5); memcpy (ref + n, &be, 4); memcpy (ref + n + 4, "five5\0\0", 8); n += 12; break; }
	}
      mc_assert (ok, "refused");
      mc_assert (ra.MR_SIZE == n && xdr_getpos (&xdrs) == n && !memcmp (ra.data.ptr, ref, n), "%ld bytes at %u: %s", (long)ra.MR_SIZE, xdr_getpos (&xdrs), mc_quote (ra.data.ptr, ra.MR_SIZE));
    }
  /* an exact buffer for reading: a byte too many is noticed */
  char * exact = malloc (n);
  memcpy (exact, ref, n);
  MR_FREE (ra.data.ptr);
  ra.data.ptr = exact; ra.alloc_size = n;
  mr_xdrra_create (&xdrs, &ra, XDR_DECODE);
  for (k = 0; k < depth - put; ++k)
    {
      int op = mc_choose (9), ok, must;
      long l = 0, len;
      uint32_t w = 0, be;
      char bytes[32];
      sprintf (note + strlen (note), " get%d", op);
      mc_note ("%s", note);
      memcpy (&be, ref + pos, 4);
      switch (op)
	{
	case 0: ok = XDR_GETLONG (&xdrs, &l); must = n - pos >= 4; if (must) { mc_assert (!ok || (uint32_t)l == ntohl (be), "long is %lx", l); pos += 4; } break;
	case 1: case 2: len = op == 1 ? 1 : 7; ok = XDR_GETBYTES (&xdrs, bytes, len); must = n - pos >= len; if (must) { mc_assert (!ok || !memcmp (bytes, ref + pos, len), "bytes are %s", mc_quote (bytes, len)); pos += len; } break;
	case 3: ok = xdr_u_int (&xdrs, &w); must = n - pos >= 4; if (must) { mc_assert (!ok || w == ntohl (be), "int is %x", w); pos += 4; } break;
	case 4: ok = XDR_SETPOS (&xdrs, 0); must = 1; pos = 0; break;
	case 5: ok = XDR_SETPOS (&xdrs, n); must = 1; pos = n; break;
	case 6: ok = XDR_SETPOS (&xdrs, n + 1 + mc_choose (2) * 1000); must = 0; break;
	case 7: { char * p = (char*)XDR_INLINE (&xdrs, 4); ok = p != NULL; must = n - pos >= 4; if (must) { mc_assert (!ok || !memcmp (p, ref + pos, 4), "inline bytes are other ones"); pos += 4; } break; }
	default: ok = XDR_GETBYTES (&xdrs, bytes, 0); must = 1; break;
	}
      mc_assert (!ok == !must, "%s", ok ? "accepted" : "refused");
      mc_assert (xdr_getpos (&xdrs) == pos, "position is %u, must be %ld", xdr_getpos (&xdrs), pos);
      mc_state (mc_hash (ref, n, pos));
    }
  mc_outcome (mc_hash (note, strlen (note), n));
  free (exact);
}
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (stream), S (pairs), S (triples), S (links2), S (interior), S (arrays), S (strings), S (cells), S (untyped), S (slices), S (struct_slices), S (values), S (unions), S (sized),
  S (texts), S (labels), { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
