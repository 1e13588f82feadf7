/* C11: saving, copying, comparing, hashing and freeing survive any allocation failure. */
#include "graphs.h"
#include "values.h"

enum { O_COPY = F_N, O_FREE, O_HASH, O_CMP, O_PTRS, O_N };
static int op;
static const char * const o_name[] = { "save cinit", "save json", "save scm", "save xml1", "save xml2", "save yaml", "save xdr", "copy", "free", "hash", "compare", "graph" };
static void begin (void) { op = mc_choose (O_N); }

static char snapshot[1 << 16], again[1 << 16];
static size_t
snap (z_reach_t * r, char * out)
{
  size_t at = 0;
  int i;
  for (i = 0; i < r->n; ++i)
    {
      mem_block_t * b = i ? mem_find (r->o[i].addr) : NULL;
      size_t size = b && b->size > r->o[i].size ? b->size : r->o[i].size;
      if (at + size > sizeof (snapshot)) break;
      memcpy (out + at, r->o[i].addr, size);
      at += size;
    }
  return (at);
}

static void
faulty (graph_t g)
{
  static z_reach_t r, rc;
  static char want[Z_TEXT];
  char desc[128];
  mc_shard ();
  strcpy (want, z_canon (g.root, g.zt, &r));
  int known_cells = g.ops == &ops_gc_t && g_cells_aliased (g.root); /* C04, C07, C08 */
  if (known_cells) mc_skip ();
  if (op == O_FREE && z_owned (&r, NULL)) mc_skip ();
  /* without faults */
  mr_rarray_t ra = { { NULL } };
  mr_hash_value_t hash = 0;
  char * twin = NULL, * copy = malloc (g.ops->size);
  int cmp = 0;
  if (op < F_N) { ra = g.ops->save (op, g.root); mc_assert (ra.data.ptr != NULL, "%s failed", o_name[op]); }
  if (op == O_HASH) hash = g.ops->hash (g.root);
  if (op == O_CMP)
    {
      /* one that is different in its first member as far as that can be told */
      twin = mem_new (g.ops->size);
      mc_assert (MR_SUCCESS == g.ops->copy (g.root, twin), "copy failed");
      cmp = g.ops->cmp (g.root, twin);
      mc_assert (cmp == 0, "a copy is different");
    }
  int had = mem_leaks (NULL, 0), i;
  size_t size = snap (&r, snapshot);
  int sticky = mc_choose (2), pos = mc_pos (), at = mc_choose_open ();
  mc_note ("%s %s: request %d %s", o_name[op], want, at, sticky ? "and all later ones fail" : "fails");
  mem_arm (at, sticky);
  mr_rarray_t out = { { NULL } };
  mr_status_t st = MR_FAILURE;
  mr_hash_value_t h = 0;
  mr_ra_ptrdes_t ptrs = { .ra = NULL };
  int c = 0;
  memset (copy, 0, g.ops->size);
  if (op < F_N) out = g.ops->save (op, g.root);
  else if (op == O_COPY) st = g.ops->copy (g.root, copy);
  else if (op == O_FREE) st = g.ops->free (g.root);
  else if (op == O_HASH) h = g.ops->hash (g.root);
  else if (op == O_CMP) c = g.ops->cmp (g.root, twin);
  else ptrs = g.ops->ptrs (g.root);
  int hit = mem_fault_hit;
  mem_disarm ();
  if (!hit) mc_limit (pos);
  if (op == O_FREE && st == MR_SUCCESS)
    {
      for (i = 1; i < r.n; ++i)
	if (!r.o[i].inside && !(r.o[i].addr >= r.o[0].addr && r.o[i].addr < r.o[0].addr + r.o[0].size))
	  mc_assert (!mem_find (r.o[i].addr), "free: reported success, but a %s is not released", r.o[i].str ? "string" : r.o[i].t->name);
    }
  else
    {
      /* the object is what it was, and where it was */
      for (i = 1; i < r.n; ++i)
	if (!r.o[i].inside && !(r.o[i].addr >= r.o[0].addr && r.o[i].addr < r.o[0].addr + r.o[0].size))
	  mc_assert (mem_find (r.o[i].addr) || op == O_CMP || z_owned (&r, NULL), "%s: a %s of the object was released", o_name[op], r.o[i].str ? "string" : r.o[i].t->name);
      snap (&r, again);
      mc_assert (0 == memcmp (again, snapshot, size), "%s: the object has changed: %s", o_name[op], z_canon (g.root, g.zt, NULL));
    }
  if (op < F_N)
    {
      if (out.data.ptr)
	mc_assert (out.MR_SIZE == ra.MR_SIZE && 0 == memcmp (out.data.ptr, ra.data.ptr, ra.MR_SIZE), "%s: reported success, but the output is another one: %s", o_name[op], z_doc (op, &out));
      else mc_assert (hit, "%s: fails without a fault", o_name[op]);
      z_drop (&out);
    }
  else if (op == O_COPY)
    {
      if (st == MR_SUCCESS)
	{
	  mc_assert (0 == strcmp (want, z_canon (copy, g.zt, &rc)), "copy: reported success, but the copy is another object");
	  mc_assert (MR_SUCCESS == g.ops->free (copy), "copy: cannot be freed");
	}
      else mc_assert (hit, "copy: fails without a fault");
    }
  else if (op == O_FREE) mc_assert (hit || st == MR_SUCCESS, "free: fails without a fault");
  else if (op == O_HASH) mc_assert (h == hash || (hit && h == 0), "hash: neither the hash nor zero");
  else if (op == O_CMP) mc_assert (c == cmp, "compare: result is %d", c);
  else
    {
      mc_assert (hit || ptrs.ra, "graph: fails without a fault");
      if (ptrs.ra) MR_FREE (ptrs.ra);
    }
  int left = mem_leaks (desc, sizeof (desc));
  if (op != O_FREE) mc_assert (left == had, "%s: %d blocks are lost", o_name[op], left - had);
  else if (st != MR_SUCCESS) mc_assert (left == had, "free: failed, but %d blocks were lost or released", left - had);
  mc_outcome (mc_hash (want, strlen (want), (op * 2 + sticky) * 100000 + at));
  z_drop (&ra);
  free (copy);
}
#define FAMILY(NAME, G) static void NAME (void) { begin (); faulty (G); }
FAMILY (links2, g_links (2)) FAMILY (strings, g_strings ()) FAMILY (cells, g_cells ()) FAMILY (slices, g_slices (mc_thorough ? 3 : 2)) FAMILY (struct_slices, g_struct_slices (2))
FAMILY (values, g_values ()) FAMILY (unions, g_unions ()) FAMILY (sized, g_sized ()) FAMILY (texts, g_texts ()) FAMILY (labels, g_labels ()) FAMILY (untyped, g_untyped ())
/* the large families */
#define DEEP(NAME, G) static void NAME (void) { if (!mc_thorough) mc_skip (); begin (); faulty (G); }
DEEP (interior, g_interior ()) DEEP (arrays, g_arrays (0)) DEEP (many, g_long ())
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (links2), S (strings), S (cells), S (slices), S (struct_slices), S (unions), S (sized), S (texts), S (labels), S (values), S (untyped), S (interior), S (arrays), S (many), { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
