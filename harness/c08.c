/* C08: a recursive free releases every reachable block exactly once and nothing else. */
#include "graphs.h"
#include "values.h"

static int origin;
static const char * const o_name[] = { "built", "copied", "cinit", "json", "scm", "xml1", "xml2", "yaml", "xdr" };
static void begin (void) { origin = mc_choose (2 + F_N); }

static void
freeing (graph_t g)
{
  static z_reach_t r;
  char desc[128], * root = g.root;
  int had, i, n = 0;
  mc_shard ();
  char * text = z_canon (g.root, g.zt, &r), before[Z_TEXT];
  strcpy (before, text);
  mc_note ("%s %s", o_name[origin], text);
  if (origin == 0)
    {
      /* what the caller built must be in blocks of its own, all reached by their start */
      char * why = z_owned (&r, NULL);
      if (why) mc_skip ();
    }
  else
    {
      int owned_before = mem_leaks (NULL, 0);
      root = malloc (g.ops->size);
      memset (root, 0, g.ops->size);
      if (origin == 1)
	mc_assert (MR_SUCCESS == g.ops->copy (g.root, root), "copy failed");
      else
	{
	  mr_rarray_t ra = g.ops->save (origin - 2, g.root);
	  mc_assert (ra.data.ptr != NULL, "save failed");
	  if (origin == 2 + F_XML2) mc_assert (mem_leaks (NULL, 0) <= owned_before + 1, "saving left a block");
	  mr_status_t st = g.ops->load (origin - 2, &ra, root);
	  mc_assert (st == MR_SUCCESS, "load failed");
	  z_drop (&ra);
	}
      z_canon (root, g.zt, &r);
      mc_assert (z_owned (&r, NULL) == NULL, "not in blocks of its own: %s", z_owned (&r, NULL));
    }
  had = mem_leaks (NULL, 0);
  for (i = 1; i < r.n; ++i)
    if (!r.o[i].inside && mem_find (r.o[i].addr) && !(r.o[i].addr >= r.o[0].addr && r.o[i].addr < r.o[0].addr + r.o[0].size)) ++n;
  if (origin == 0 && g.ops == &ops_gc_t && g_cells_aliased (g.root)) mem_bad_free = "memory behind a shared pointer cell is not released exactly once";
  mc_assert (MR_SUCCESS == g.ops->free (root), "free failed");
  for (i = 1; i < r.n; ++i)
    if (!r.o[i].inside && !(r.o[i].addr >= r.o[0].addr && r.o[i].addr < r.o[0].addr + r.o[0].size))
      mc_assert (!mem_find (r.o[i].addr), "%s: %s of %zu bytes is not released", o_name[origin], r.o[i].str ? "string" : r.o[i].t->name, r.o[i].size);
  int left = mem_leaks (desc, sizeof (desc));
  if (mem_bad_free && left < had - n && !mem_find (root)) mc_fail ("%s", mem_bad_free); /* the cell is the first member of the root */
  mc_assert (left >= had - n, "%s: %d blocks released of %d reachable", o_name[origin], had - left, n);
  mc_assert (left <= had - n, "%s: %d blocks released of %d reachable: %s", o_name[origin], had - left, n, desc);
  if (origin)
    {
      /* the source is intact, and only it is left */
      mc_assert (0 == strcmp (before, z_canon (g.root, g.zt, NULL)), "%s: the source has changed", o_name[origin]);
      free (root);
    }
  mc_outcome (mc_hash (before, strlen (before), origin));
}
/* nothing but the source is left after a copy or load was freed */
static void
balanced (graph_t g)
{
  int had = mem_leaks (NULL, 0);
  char desc[128];
  freeing (g);
  if (origin) mc_assert (mem_leaks (desc, sizeof (desc)) == had, "%s: %d blocks are left after the free: %s", o_name[origin], mem_leaks (desc, sizeof (desc)) - had, desc);
}

static void links (void) { begin (); balanced (g_links (mc_thorough ? 4 : 3)); }
static void links2 (void) { begin (); balanced (g_links (2)); }
static void interior (void) { begin (); balanced (g_interior ()); }
static void arrays (void) { begin (); balanced (g_arrays (mc_thorough)); }
static void forward (void) { begin (); balanced (g_forward ()); }
static void cells (void) { begin (); balanced (g_cells ()); }
static void untyped (void) { begin (); balanced (g_untyped ()); }
static void slices (void) { begin (); balanced (g_slices (mc_thorough ? 4 : 3)); }
static void struct_slices (void) { begin (); balanced (g_struct_slices (3)); }
static void many (void) { begin (); balanced (g_long ()); }
static void strings (void) { begin (); balanced (g_strings ()); }
static void unions (void) { begin (); balanced (g_unions ()); }
static void sized (void) { begin (); balanced (g_sized ()); }
static void texts (void) { begin (); balanced (g_texts ()); }

static void labels (void) { begin (); freeing (g_labels ()); }
static mc_scope_t mc_scopes[] = { { "labels", labels }, { "links2", links2 }, { "interior", interior }, { "arrays", arrays }, { "strings", strings }, { "forward", forward }, { "cells", cells },
  { "untyped", untyped }, { "slices", slices }, { "struct-slices", struct_slices }, { "long", many }, { "links", links },
  { "unions", unions }, { "sized", sized } , { "texts", texts }, { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
