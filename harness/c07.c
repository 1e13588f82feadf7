/* C07: a deep copy is isomorphic to its source, wholly new, large enough, and leaves the source alone. */
#include "graphs.h"
#include "values.h"

static uint64_t
z_bytes (z_reach_t * r)
{
  uint64_t h = 0;
  int i;
  for (i = 0; i < r->n; ++i) h = mc_hash (r->o[i].addr, r->o[i].size, h);
  return (h);
}

static void
copying (graph_t g)
{
  static z_reach_t src, dst;
  char desc[128], * why;
  mc_shard ();
  char * before = z_canon (g.root, g.zt, &src), * after;
  char expected[Z_TEXT];
  uint64_t bytes = z_bytes (&src);
  mc_note ("%s", before);
  strcpy (expected, before);
  int had = mem_leaks (NULL, 0), i, owned = 0;
  char * copy = malloc (g.ops->size); /* not a block of the library */
  memset (copy, 0, g.ops->size);
  mc_assert (MR_SUCCESS == g.ops->copy (g.root, copy), "copy failed");
  mc_assert (bytes == z_bytes (&src) && 0 == strcmp (expected, z_canon (g.root, g.zt, NULL)), "copying changed the source");
  after = z_canon (copy, g.zt, &dst);
  if (g.ops == &ops_gc_t && strcmp (expected, after) && g_cells_aliased (g.root))
    {
      gc_t x = *(gc_t*)g.root, * y = (gc_t*)copy;
      int * c1 = x.c1 ? *x.c1 : NULL, * c2 = x.c2 ? *x.c2 : NULL;
      if (x.c1) x.c1 = &c1;
      if (x.c2) x.c2 = &c2;
      if (y->c1 != y->c2 && y->c1 != &y->m && y->c2 != &y->m && 0 == strcmp (after, z_canon (&x, g.zt, NULL)))
	mc_fail ("shared pointer cell is duplicated by the copy");
    }
  mc_assert (0 == strcmp (expected, after), "copy is not isomorphic: %s", after);
  why = z_owned (&dst, &src);
  mc_assert (why == NULL, "copy does not own its memory: %s", why);
  /* release the source: the copy must not notice */
  for (i = 0; i < src.n; ++i)
    if (!src.o[i].inside)
      {
	mem_block_t * b = mem_find (src.o[i].addr);
	if (b) { memset (b->ptr, 0x5A, b->size); mem_release (b->ptr); --had; }
      }
  mc_assert (0 == strcmp (expected, z_canon (copy, g.zt, &dst)), "copy changes when the source goes away");
  for (i = 0; i < dst.n; ++i)
    if (!dst.o[i].inside && i > 0 && mem_find (dst.o[i].addr)) { mem_release (dst.o[i].addr); ++owned; }
  mc_assert (mem_leaks (desc, sizeof (desc)) == had, "copy left an unreachable block: %s", desc);
  mc_outcome (mc_hash (expected, strlen (expected), (uintptr_t)g.ops->name[1]));
  free (copy);
}

static void links (void) { copying (g_links (mc_thorough ? 4 : 3)); }
static void links2 (void) { copying (g_links (2)); }
static void interior (void) { copying (g_interior ()); }
static void arrays (void) { copying (g_arrays (1)); }
static void forward (void) { copying (g_forward ()); }
static void cells (void) { copying (g_cells ()); }
static void untyped (void) { copying (g_untyped ()); }
static void slices (void) { copying (g_slices (mc_thorough ? 5 : 4)); }
static void struct_slices (void) { copying (g_struct_slices (mc_thorough ? 4 : 3)); }
static void many (void) { copying (g_long ()); }
static void strings (void) { copying (g_strings ()); }
static void values (void) { copying (g_values ()); }
static void unions (void) { copying (g_unions ()); }
static void sized (void) { copying (g_sized ()); }
static void texts (void) { copying (g_texts ()); }

static void labels (void) { copying (g_labels ()); }
static mc_scope_t mc_scopes[] = { { "labels", labels }, { "links2", links2 }, { "interior", interior }, { "arrays", arrays }, { "strings", strings }, { "forward", forward }, { "cells", cells },
  { "untyped", untyped }, { "slices", slices }, { "struct-slices", struct_slices }, { "long", many }, { "links", links },
  { "values", values }, { "unions", unions }, { "sized", sized } , { "texts", texts }, { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
