/* C10: loading survives any allocation failure: it fails cleanly or gives the whole result. */
#include "graphs.h"
#include "values.h"

static int fmt;
static void begin (void) { fmt = mc_choose (F_N); }

static void
loading (graph_t g)
{
  static z_reach_t r;
  static char want[Z_TEXT];
  char desc[128];
  mc_shard ();
  mr_rarray_t ra = g.ops->save (fmt, g.root);
  mc_assert (ra.data.ptr != NULL, "%s: save failed", f_name[fmt]);
  char * text = malloc (ra.MR_SIZE), * back = malloc (g.ops->size);
  memcpy (text, ra.data.ptr, ra.MR_SIZE);
  /* what it is without faults */
  mr_rarray_t in = ra;
  if (MR_SUCCESS != g.ops->load (fmt, &in, back)) { free (text); free (back); mc_skip (); }
  strcpy (want, z_canon (back, g.zt, &r));
  mc_assert (MR_SUCCESS == g.ops->free (back), "%s: free failed", f_name[fmt]);
  int had = mem_leaks (NULL, 0);
  int sticky = mc_choose (2), pos = mc_pos (), at = mc_choose_open ();
  mc_note ("%s %s: request %d %s", f_name[fmt], want, at, sticky ? "and all later ones fail" : "fails");
  memset (back, 0xA5, g.ops->size);
  in = ra;
  mem_arm (at, sticky);
  mr_status_t st = g.ops->load (fmt, &in, back);
  int hit = mem_fault_hit;
  mem_disarm ();
  if (!hit) mc_limit (pos);
  mc_note_add (" document: %s", z_doc (fmt, &ra));
  mc_assert (0 == memcmp (text, ra.data.ptr, ra.MR_SIZE), "%s: the input has changed", f_name[fmt]);
  if (st == MR_SUCCESS)
    {
      char * got = z_canon (back, g.zt, &r);
      mc_assert (0 == strcmp (got, want), "%s: reported success, but the result is not the one without the fault", f_name[fmt]);
    }
  else
    mc_assert (hit, "%s: fails without a fault", f_name[fmt]);
  /* whatever it is can be released */
  mc_assert (MR_SUCCESS == g.ops->free (back), "%s: what is left after a %s load cannot be freed", f_name[fmt], st == MR_SUCCESS ? "successful" : "failed");
  int left = mem_leaks (desc, sizeof (desc));
  mc_assert (left == had, "%s: %s load: %d blocks are lost", f_name[fmt], st == MR_SUCCESS ? "successful" : "failed", left - had);
  /* and the library goes on as if nothing had happened */
  in = ra;
  memset (back, 0xA5, g.ops->size);
  mc_assert (MR_SUCCESS == g.ops->load (fmt, &in, back) && 0 == strcmp (want, z_canon (back, g.zt, &r)), "%s: the next load fails or is wrong", f_name[fmt]);
  mc_outcome (mc_hash (want, strlen (want), (fmt * 2 + sticky) * 100000 + at));
  z_drop (&ra);
  free (text); free (back);
}
#define FAMILY(NAME, G) static void NAME (void) { begin (); loading (G); }
FAMILY (links2, g_links (2)) FAMILY (strings, g_strings ()) FAMILY (cells, g_cells ()) FAMILY (slices, g_slices (mc_thorough ? 3 : 2)) FAMILY (struct_slices, g_struct_slices (2))
FAMILY (untyped, g_untyped ())
/* the large families */
#define DEEP(NAME, G) static void NAME (void) { if (!mc_thorough) mc_skip (); begin (); loading (G); }
DEEP (interior, g_interior ()) DEEP (arrays, g_arrays (0)) DEEP (many, g_long ())
 FAMILY (values, g_values ()) FAMILY (unions, g_unions ()) FAMILY (sized, g_sized ()) FAMILY (texts, g_texts ()) FAMILY (labels, g_labels ())
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (links2), S (strings), S (cells), S (slices), S (struct_slices), S (unions), S (sized), S (texts), S (labels), S (values), S (interior), S (arrays), S (untyped), S (many), { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
