/* C09: comparing structures is a total order, zero exactly for equal graphs, consistent with the hash, kept by copy, save and load. */
#define MEM_BITS 18
#include "graphs.h"
#include "values.h"

/* all members of one family at once: the order is checked on every pair, against the ranks of a sort */
#define C_MAX 24000
typedef struct { graph_t g; mr_ra_ptrdes_t ptrs; uint64_t canon, unaliased; mr_hash_value_t hash; int rank; } item_t;
static item_t item[C_MAX];
static int items, order[C_MAX], tmp[C_MAX];
static graph_t (*gen) (void);

static void
collect (void)
{
  graph_t g = gen ();
  char * text = z_canon (g.root, g.zt, NULL);
  if (items >= C_MAX) mc_fail ("harness: family too big");
  item[items].g = g;
  item[items].canon = mc_hash (text, strlen (text), 0);
  item[items].ptrs = g.ops->ptrs (g.root);
  if (!item[items].ptrs.ra) mc_fail ("cannot serialize %s", text);
  item[items].hash = g.ops->hash (g.root);
  if (g.ops == &ops_gc_t)
    {
      /* the same with separate cells for all pointers to pointers */
      gc_t x = *(gc_t*)g.root;
      int * c1 = x.c1 ? *x.c1 : NULL, * c2 = x.c2 ? *x.c2 : NULL;
      if (x.c1) x.c1 = &c1;
      if (x.c2) x.c2 = &c2;
      text = z_canon (&x, g.zt, NULL);
      item[items].unaliased = mc_hash (text, strlen (text), 0);
    }
  ++items;
}
static int
cmp (int i, int j) { return (mr_cmp_structs (&item[i].ptrs, &item[j].ptrs)); }

static void
sort (int from, int n)
{
  int h = n / 2, i = from, j = from + h, k = from;
  if (n < 2) return;
  sort (from, h);
  sort (from + h, n - h);
  while (i < from + h || j < from + n)
    tmp[k++] = i >= from + h ? order[j++] : j >= from + n ? order[i++] : cmp (order[j], order[i]) < 0 ? order[j++] : order[i++];
  memcpy (&order[from], &tmp[from], n * sizeof (order[0]));
}

static char *
describe (int i)
{
  char * t = z_canon (item[i].g.root, item[i].g.zt, NULL);
  return (t);
}

static void
all_pairs (graph_t (*g) (void), int chunks)
{
  int i, j, k, chunk = mc_choose (chunks), cells_equal = 0;
  mc_shard ();
  mc_note ("part %d of %d of all pairs", chunk + 1, chunks);
  z_loose = 1;
  gen = g; items = 0;
  mc_sub (collect);
  mr_ra_ptrdes_t probe = item[0].g.ops->ptrs (item[0].g.root);
  mc_assert (probe.ra != NULL, "cannot serialize");
  for (i = 0; i < items; ++i) order[i] = i;
  sort (0, items);
  for (i = k = 0; i < items; ++i)
    {
      if (i && cmp (order[i - 1], order[i]) != 0) ++k;
      item[order[i]].rank = k;
    }
  for (i = chunk; i < items; i += chunks)
    for (j = 0; j < items; ++j)
      {
	int d = cmp (i, j), r = (item[i].rank > item[j].rank) - (item[i].rank < item[j].rank);
	int e = cmp (j, i), only_cells = item[i].canon != item[j].canon && item[i].g.ops == &ops_gc_t && item[i].unaliased == item[j].unaliased;
	d = (d > 0) - (d < 0); e = (e > 0) - (e < 0);
	++mc_sh->evals;
	if (d != -e || (i == j && d) || ((d == 0) != (item[i].canon == item[j].canon) && !only_cells) || d != r || (d == 0 && item[i].hash != item[j].hash))
	  mc_note ("x: %.1500s y: %.1500s", describe (i), describe (j));
	mc_assert (i != j || d == 0, "not reflexive: %d", d);
	mc_assert (d == -e, "not antisymmetric: cmp (x, y) = %d, cmp (y, x) = %d", d, e);
	if (d == 0 && only_cells) ++cells_equal;
	mc_assert (d || item[i].canon == item[j].canon || only_cells, "different structures compare equal");
	mc_assert (!d || item[i].canon != item[j].canon, "equal structures compare as different");
	mc_assert (d == r, "not transitive: no order of all values agrees with cmp (x, y) = %d", d);
	mc_assert (d || item[i].hash == item[j].hash, "equal structures with different hashes %#llx and %#llx", (long long)item[i].hash, (long long)item[j].hash);
	if (j == i || j == (i + 1) % items || j == (i + 7) % items)
	  {
	    /* the same by way of the interface for whole structures, where the two may have different types */
	    if (item[i].g.ops != item[j].g.ops) continue;
	    e = item[i].g.ops->cmp (item[i].g.root, item[j].g.root);
	    if ((e > 0) - (e < 0) != d) mc_note ("x: %.1500s y: %.1500s", describe (i), describe (j));
	    mc_assert ((e > 0) - (e < 0) == d, "comparison depends on how it is called: %d and %d", e, d);
	  }
      }
  mc_assert (0 == cells_equal, "structures that differ only in the sharing of a pointer cell compare equal"); /* the recorded finding; all else is as it should */
  for (i = chunk; i < items; i += chunks) mc_outcome (mc_hash (&item[i].canon, sizeof (item[i].canon), (uintptr_t)item[i].g.ops->name[1]));
}

/* copies and loaded objects compare equal and have the same hash */
static void
kept (graph_t g)
{
  int how = mc_choose (F_N + 1);
  mc_shard ();
  z_loose = 0;
  char * text = z_canon (g.root, g.zt, NULL);
  mc_note ("%s %s", how < F_N ? f_name[how] : "copy", text);
  void * back = calloc (1, g.ops->size);
  mr_hash_value_t h = g.ops->hash (g.root);
  mc_assert (h == g.ops->hash (g.root), "hash is not a function of the structure");
  if (how == F_N)
    mc_assert (MR_SUCCESS == g.ops->copy (g.root, back), "copy failed");
  else
    {
      mr_rarray_t ra = g.ops->save (how, g.root);
      mc_assert (ra.data.ptr != NULL, "save failed");
      mr_status_t st = g.ops->load (how, &ra, back);
      if (st != MR_SUCCESS && how == F_XML2 && g.ops == &ops_vs_t && ((vs_t*)g.root)->c < 32 && ((vs_t*)g.root)->c > 0)
	{
	  /* no other reason than the character: it is what C05 tells about */
	  ((vs_t*)g.root)->c = 'x';
	  mr_rarray_t xa = g.ops->save (how, g.root);
	  mc_assert (MR_SUCCESS == g.ops->load (how, &xa, back), "load failed: %s", z_doc (how, &xa));
	  mc_fail ("structure compares as different after save and load, as a character is lost");
	}
      mc_assert (st == MR_SUCCESS, "load failed: %s", how == F_XDR ? "" : z_doc (how, &ra));
    }
  if (g.ops->cmp (g.root, back) || h != g.ops->hash (back))
    {
      mc_note_add (" after: %.1500s", z_canon (back, g.zt, NULL));
      vs_t * x = g.root, * y = back;
      if (how == F_XML2 && g.ops == &ops_vs_t && y->c == 0 && x->c < 32 && !strchr ("\t\n\r", x->c))
	{
	  y->c = x->c;
	  mc_assert (g.ops->cmp (x, y) || h != g.ops->hash (y), "structure compares as different after save and load, as a character is lost");
	}
      int shared = g.ops == &ops_gc_t && g_cells_aliased (g.root);
      int grown = how < F_XDR && (g.ops == &ops_sl_t || g.ops == &ops_ss_t) && strcmp (text, z_canon (back, g.zt, NULL));
      if (shared || grown)
	{
	  /* nothing new when the object is not isomorphic in the first place: C04 and C07 tell */
	  mc_assert (0 == strcmp (z_canon (g.root, g.zt, NULL), z_canon (back, g.zt, NULL)), "structure compares as different after %s, as it is not isomorphic",
		     how == F_N ? "a copy" : "save and load");
	}
      mc_fail ("%s of a structure %s", how == F_N ? "copy" : "save and load", h != g.ops->hash (back) ? "has a different hash" : "compares as different");
    }
  mc_outcome (mc_hash (text, strlen (text), how + 100));
  free (back);
}

/* every pair in the whole family */
static graph_t f_values (void) { return (g_values ()); }
static graph_t f_links2 (void) { return (g_links (2)); }
static graph_t f_links3 (void) { return (g_links (3)); }
static graph_t f_interior (void) { return (g_interior ()); }
static graph_t f_slices (void) { return (g_slices (mc_thorough ? 4 : 3)); }
static graph_t f_struct_slices (void) { return (g_struct_slices (mc_thorough ? 3 : 2)); }
static graph_t f_arrays (void) { return (g_arrays (0)); }

static void p_values (void) { all_pairs (f_values, 64); }
static void p_unions (void) { all_pairs (g_unions, 8); }
static void p_texts (void) { all_pairs (g_texts, 8); }
static void p_sized (void) { all_pairs (g_sized, 8); }
static void p_links2 (void) { all_pairs (f_links2, 8); }
static void p_links3 (void) { all_pairs (f_links3, 64); }
static void p_interior (void) { all_pairs (f_interior, 64); }
static void p_strings (void) { all_pairs (g_strings, 64); }
static void p_cells (void) { all_pairs (g_cells, 8); }
static void p_untyped (void) { all_pairs (g_untyped, 16); }
static void p_slices (void) { all_pairs (f_slices, 64); }
static void p_struct_slices (void) { all_pairs (f_struct_slices, 64); }
static void p_arrays (void) { if (!mc_thorough) mc_skip (); all_pairs (f_arrays, 64); }

static void k_values (void) { kept (g_values ()); }
static void k_unions (void) { kept (g_unions ()); }
static void k_texts (void) { kept (g_texts ()); }
static void k_sized (void) { kept (g_sized ()); }
static void k_links (void) { kept (g_links (mc_thorough ? 4 : 3)); }
static void k_interior (void) { kept (g_interior ()); }
static void k_strings (void) { kept (g_strings ()); }
static void k_cells (void) { kept (g_cells ()); }
static void k_slices (void) { kept (g_slices (3)); }
static void k_struct_slices (void) { kept (g_struct_slices (3)); }
static void k_arrays (void) { kept (g_arrays (mc_thorough)); }

static mc_scope_t mc_scopes[] = {
  { "values", p_values }, { "unions", p_unions }, { "sized", p_sized }, { "texts", p_texts }, { "links2", p_links2 }, { "links3", p_links3 }, { "interior", p_interior },
  { "strings", p_strings }, { "cells", p_cells }, { "untyped", p_untyped }, { "slices", p_slices }, { "struct-slices", p_struct_slices }, { "arrays", p_arrays },
  { "kept-values", k_values }, { "kept-unions", k_unions }, { "kept-sized", k_sized }, { "kept-texts", k_texts }, { "kept-links", k_links }, { "kept-interior", k_interior },
  { "kept-strings", k_strings }, { "kept-cells", k_cells }, { "kept-slices", k_slices }, { "kept-struct-slices", k_struct_slices }, { "kept-arrays", k_arrays }, { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
