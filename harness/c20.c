/* C20: saving is read-only and repeatable; what was loaded is saved as what it was loaded from. */
#include "graphs.h"
#include "values.h"

static int fmt;
static void begin (void) { fmt = mc_choose (F_N); }

static char snapshot[1 << 16];
static size_t
snap (z_reach_t * r, char * out)
{
  size_t at = 0;
  int i;
  for (i = 0; i < r->n; ++i)
    {
      mem_block_t * b = i ? mem_find (r->o[i].addr) : NULL; /* with all that is in the block */
      size_t size = b && b->size > r->o[i].size ? b->size : r->o[i].size;
      if (at + size > sizeof (snapshot)) break;
      memcpy (out + at, r->o[i].addr, size);
      at += size;
    }
  return (at);
}
static void
saving (graph_t g)
{
  static z_reach_t r;
  static char again[1 << 16];
  mc_shard ();
  char before[Z_TEXT];
  strcpy (before, z_canon (g.root, g.zt, &r));
  size_t size = snap (&r, snapshot);
  mc_note ("%s %s", f_name[fmt], before);
  mr_rarray_t one = g.ops->save (fmt, g.root);
  mc_assert (one.data.ptr != NULL, "%s: save failed", f_name[fmt]);
  snap (&r, again);
  mc_assert (0 == memcmp (again, snapshot, size), "%s: saving has changed the object: %s", f_name[fmt], z_canon (g.root, g.zt, NULL));
  mr_rarray_t two = g.ops->save (fmt, g.root);
  mc_assert (two.data.ptr != NULL && two.MR_SIZE == one.MR_SIZE && 0 == memcmp (one.data.ptr, two.data.ptr, one.MR_SIZE), "%s: saved again differently", f_name[fmt]);
  if (fmt != F_XDR) mc_assert (((char*)one.data.ptr)[one.MR_SIZE - 1] == 0 && strlen (one.data.ptr) + 1 == one.MR_SIZE, "%s: text is not as long as said", f_name[fmt]);
  z_drop (&one);
  if (fmt == 0)
    {
      /* those who walk the object without a format */
      void * copy = malloc (g.ops->size);
      mc_assert (MR_SUCCESS == g.ops->copy (g.root, copy), "copy failed");
      mr_hash_value_t h = g.ops->hash (g.root);
      g.ops->cmp (g.root, copy);
      snap (&r, again);
      mc_assert (0 == memcmp (again, snapshot, size), "copy, hash or comparison has changed the object");
      mc_assert (h == g.ops->hash (g.root), "hashed again differently");
      free (copy);
    }
  char * back = malloc (g.ops->size);
  memset (back, 0xA5, g.ops->size);
  char * text = malloc (two.MR_SIZE);
  memcpy (text, two.data.ptr, two.MR_SIZE);
  mr_rarray_t in = two;
  mr_status_t st = g.ops->load (fmt, &in, back);
  if (st != MR_SUCCESS && fmt == F_XML2) mc_skip (); /* control characters: decided by C05 */
  mc_assert (st == MR_SUCCESS, "%s: load failed", f_name[fmt]);
  mc_assert (0 == memcmp (text, two.data.ptr, two.MR_SIZE), "%s: loading has changed the input", f_name[fmt]);
  mr_rarray_t three = g.ops->save (fmt, back);
  mc_assert (three.data.ptr != NULL, "%s: save of what was loaded failed", f_name[fmt]);
  if (three.MR_SIZE != two.MR_SIZE || memcmp (two.data.ptr, three.data.ptr, two.MR_SIZE))
    {
      int same = 0 == strcmp (before, z_canon (back, g.zt, NULL));
      if (fmt != F_XDR) mc_note_add (" one: %s", z_doc (fmt, &two));
      if (fmt != F_XDR) mc_note_add (" two: %s", z_doc (fmt, &three));
      /* what is lost by a load that C04 or C05 know about shows here as well */
      if (!same) mc_skip ();
      mc_fail ("%s: what was loaded is saved differently", f_name[fmt]);
    }
  mc_outcome (mc_hash (before, strlen (before), fmt));
  free (back); free (text);
}
#define FAMILY(NAME, G) static void NAME (void) { begin (); saving (G); }
FAMILY (links2, g_links (2)) FAMILY (links3, g_links (3)) FAMILY (interior, g_interior ()) FAMILY (arrays, g_arrays (mc_thorough)) FAMILY (strings, g_strings ()) FAMILY (cells, g_cells ())
FAMILY (untyped, g_untyped ()) FAMILY (slices, g_slices (mc_thorough ? 4 : 3)) FAMILY (struct_slices, g_struct_slices (mc_thorough ? 3 : 2)) FAMILY (many, g_long ())
FAMILY (values, g_values ()) FAMILY (unions, g_unions ()) FAMILY (sized, g_sized ()) FAMILY (texts, g_texts ()) FAMILY (labels, g_labels ())
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (links2), S (interior), S (arrays), S (strings), S (cells), S (untyped), S (slices), S (struct_slices), S (many), S (values), S (unions), S (sized), S (texts), S (labels), S (links3), { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
