/* C04: every small object graph survives save + load in every format up to isomorphism. */
#include "values.h"

static int fmt;

static void
roundtrip (graph_t g)
{
  mc_shard ();
  char * before = z_canon (g.root, g.zt, NULL), * after;
  void * back = calloc (1, g.ops->size);
  mr_rarray_t ra;
  mc_note ("%s %s", f_name[fmt], before);
  ra = g.ops->save (fmt, g.root);
  mc_assert (ra.data.ptr != NULL, "save failed (%s)", f_name[fmt]);
  memset (back, 0xA5, g.ops->size);
  mr_status_t st = g.ops->load (fmt, &ra, back);
  if (st != MR_SUCCESS) mc_note_add (" document: %s", fmt == F_XDR ? "" : z_doc (fmt, &ra));
  mc_assert (st == MR_SUCCESS, "load of saved graph failed (%s)", f_name[fmt]);
  after = z_canon (back, g.zt, NULL);
  if (strcmp (before, after)) mc_note_add (" document: %s", fmt == F_XDR ? "" : z_doc (fmt, &ra));
  if (g.ops == &ops_gc_t && strcmp (before, after) && g_cells_aliased (g.root))
    {
      /* tell the one recorded finding from anything else: all is as it should be but for the sharing of the cell */
      gc_t x = *(gc_t*)g.root, * y = back;
      int * c1 = x.c1 ? *x.c1 : NULL, * c2 = x.c2 ? *x.c2 : NULL;
      if (x.c1) x.c1 = &c1;
      if (x.c2) x.c2 = &c2;
      if (y->c1 != y->c2 && y->c1 != &y->m && y->c2 != &y->m && 0 == strcmp (after, z_canon (&x, g.zt, NULL)))
	mc_fail ("shared pointer cell is duplicated by save and load");
    }
  if (strcmp (before, after) && (g.ops == &ops_sl_t || g.ops == &ops_ss_t))
    {
      /* the other recorded finding: sizes, and only sizes, of pointers that another one continues have grown, up to the end of the whole */
      z_reach_t r;
      const zf_t * f;
      int grown = 0, wrong = 0;
      z_canon (g.root, g.zt, &r);
      for (f = g.zt->f; f->kind; ++f)
	if (f->kind == Z_DYN)
	  {
	    size_t was = z_uint ((char*)g.root + f->size_off, f->size_w), is = z_uint ((char*)back + f->size_off, f->size_w);
	    char * p = *(char**)((char*)g.root + f->off);
	    z_obj_t * o = p ? z_object (&r, p, 0) : NULL;
	    if (is == was) continue;
	    ++grown;
	    if (!o || is < was || p + was >= o->addr + o->size || p + is > o->addr + o->size) wrong = 1;
	    memcpy ((char*)back + f->size_off, (char*)g.root + f->size_off, f->size_w);
	  }
      if (grown && !wrong && 0 == strcmp (before, z_canon (back, g.zt, NULL)))
	mc_fail ("size of a sized pointer that another one continues grows on load");
    }
  mc_assert (0 == strcmp (before, after), "%s: not isomorphic after save and load: got %s", f_name[fmt], after);
  mc_outcome (mc_hash (before, strlen (before), fmt));
  free (back);
}

static void links3 (void) { fmt = mc_choose (F_N); mc_choose (1); roundtrip (({ int p = mc_thorough ? 4 : 3; graph_t g = g_links (p); g; })); }
static void links2 (void) { fmt = mc_choose (F_N); roundtrip (g_links (2)); }
static void interior (void) { fmt = mc_choose (F_N); roundtrip (g_interior ()); }
static void arrays (void) { fmt = mc_choose (F_N); roundtrip (g_arrays (mc_thorough)); }
static void forward (void) { fmt = mc_choose (F_N); roundtrip (g_forward ()); }
static void cells (void) { fmt = mc_choose (F_N); roundtrip (g_cells ()); }
static void untyped (void) { fmt = mc_choose (F_N); roundtrip (g_untyped ()); }
static void slices (void) { fmt = mc_choose (F_N); roundtrip (g_slices (mc_thorough ? 6 : 5)); }
static void struct_slices (void) { fmt = mc_choose (F_N); roundtrip (g_struct_slices (3)); }
static void sized (void) { fmt = mc_choose (F_N); roundtrip (g_sized ()); }
static void unions (void) { fmt = mc_choose (F_N); roundtrip (g_unions ()); }
static void texts (void) { fmt = mc_choose (F_N); roundtrip (g_texts ()); }
static void labels (void) { fmt = mc_choose (F_N); roundtrip (g_labels ()); }
static void many (void) { fmt = mc_choose (F_N); roundtrip (g_long ()); }
static void strings (void) { fmt = mc_choose (F_N); roundtrip (g_strings ()); }

static mc_scope_t mc_scopes[] = { { "links2", links2 }, { "interior", interior }, { "arrays", arrays }, { "strings", strings }, { "texts", texts }, { "labels", labels }, { "sized", sized }, { "unions", unions }, { "forward", forward }, { "cells", cells }, { "untyped", untyped }, { "slices", slices }, { "struct-slices", struct_slices }, { "long", many }, { "links", links3 }, { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
