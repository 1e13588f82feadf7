/* C23: histories of appends to growable buffers against a plain array. */
#include "zoo.h"
#include <mr_stringify.h>
#include <mr_load.h>

#define MAX 4096
static unsigned char ref[MAX];
static long ref_n, ref_alloc;
static char fill[MAX];

static void
same (mr_rarray_t * ra, const char * op)
{
  mc_assert (ra->MR_SIZE == ref_n, "%s: size is %ld, must be %ld", op, (long)ra->MR_SIZE, ref_n);
  mc_assert (ra->alloc_size >= ra->MR_SIZE, "%s: %ld bytes are allocated for %ld", op, (long)ra->alloc_size, (long)ra->MR_SIZE);
  if (!ra->data.ptr) { mc_assert (!ref_n && !ra->alloc_size, "%s: no data", op); return; }
  mem_block_t * b = mem_find (ra->data.ptr);
  mc_assert (b != NULL, "%s: data is no block", op);
  mc_assert ((long)b->size >= ra->alloc_size, "%s: block of %zu bytes, alloc_size is %ld", op, b->size, (long)ra->alloc_size);
  mc_assert (0 == memcmp (ra->data.ptr, ref, ref_n), "%s: content is %s", op, mc_quote (ra->data.ptr, ref_n > 200 ? 200 : ref_n));
  mc_state (mc_hash (ref, ref_n, mc_hash (&ra->alloc_size, sizeof (ra->alloc_size), ref_n)));
}
static int depth;
/* lengths around every threshold */
static long
length (mr_rarray_t * ra)
{
  long room = ra->alloc_size - ra->MR_SIZE, l[] = { 0, 1, 2, room - 1, room, room + 1, ra->alloc_size + 1, 2 * ra->alloc_size + room + 3 }, n = l[mc_choose (8)];
  int i;
  if (n < 0) mc_skip ();
  for (i = 0; i < 8; ++i) if (l[i] == n) break;
  if (ref_n + n >= MAX - 8) mc_skip ();
  return (n);
}
static void
pattern (int n)
{
  static const char letter[] = "abcdefghijklmnopqrstuvwxyz%d%s\\\n0123456789";
  int i, seed = ref_n * 7 + n;
  for (i = 0; i < n; ++i) fill[i] = letter[(seed + i * 11) % (sizeof (letter) - 1)];
  fill[n] = 0;
}
static void text_append (const char * s, long n) { memcpy (ref + ref_n - 1, s, n); ref_n += n; ref[ref_n - 1] = 0; }
/* text: always terminated by one zero that counts */
static void
text (void)
{
  mr_rarray_t ra = { .data = { mr_strdup ("") }, .MR_SIZE = 1, .alloc_size = 1 };
  char note[300] = "";
  int k, rv;
  long n;
  ref[0] = 0; ref_n = 1;
  if (mc_choose (2)) { MR_FREE (ra.data.ptr); ra.data.ptr = mr_strdup ("start"); ra.MR_SIZE = ra.alloc_size = ref_n = 6; memcpy (ref, "start", 6); }
  for (k = 0; k < depth; ++k)
    {
      int op = mc_choose (7);
      if (k == 0) mc_shard ();
      switch (op)
	{
	case 0: n = length (&ra); pattern (n); sprintf (note + strlen (note), " printf %%s %ld", n); rv = mr_ra_printf (&ra, "%s", fill); text_append (fill, n); break;
	case 1: n = 1; sprintf (note + strlen (note), " char x"); rv = mr_ra_append_char (&ra, 'x'); text_append ("x", 1); break;
	case 2: n = length (&ra); pattern (n); sprintf (note + strlen (note), " string %ld", n); rv = mr_ra_append_string (&ra, fill); text_append (fill, n); break;
	case 3: n = 0; sprintf (note + strlen (note), " printf \"\""); { static const char * const empty = ""; rv = mr_ra_printf (&ra, "%s", empty); } break;
	case 4:
	  {
	    char s[100];
	    sprintf (note + strlen (note), " printf mixed");
	    n = sprintf (s, "%d-%5s|%-4c%%%lx%.2f", -k, "ab", 'q', 0xfeedL, 1.25);
	    rv = mr_ra_printf (&ra, "%d-%5s|%-4c%%%lx%.2f", -k, "ab", 'q', 0xfeedL, 1.25);
	    text_append (s, n);
	    break;
	  }
	case 5: n = 1; sprintf (note + strlen (note), " char \\xff"); rv = mr_ra_append_char (&ra, '\xff'); text_append ("\xff", 1); break;
	default: n = 0; sprintf (note + strlen (note), " block -1"); { void * p = mr_rarray_append (&ra, -1); mc_note ("%s", note); mc_assert (p == NULL, "a negative growth gives a block"); } rv = 0; break;
	}
      mc_note ("text:%s", note);
      mc_assert (rv == n, "returned %d", rv);
      same (&ra, note);
    }
  mc_outcome (mc_hash (note, strlen (note), ref_n));
  MR_FREE (ra.data.ptr);
}
/* blocks: raw growth, elements of several sizes */
static void
blocks (void)
{
  mr_rarray_t ra = { { 0 } };
  char note[300] = "";
  int k;
  ref_n = 0;
  for (k = 0; k < depth; ++k)
    {
      long sizes[] = { 1, 4, sizeof (mr_ptrdes_t) }, n;
      int op = mc_choose (5);
      if (k == 0) mc_shard ();
      char * p, * old = ra.data.ptr;
      long before = ra.MR_SIZE, before_alloc = ra.alloc_size;
      if (op < 3) n = sizes[op]; else if (op == 3) n = length (&ra); else n = mc_choose (2) ? -1 : LONG_MIN;
      sprintf (note + strlen (note), " %ld", n);
      mc_note ("blocks:%s", note);
      if (mc_choose (2)) p = mr_rarray_append (&ra, n);
      else p = mr_rarray_allocate_element (&ra.data.ptr, &ra.MR_SIZE, &ra.alloc_size, n);
      if (n < 0)
	{
	  mc_assert (p == NULL && ra.data.ptr == old && ra.MR_SIZE == before && ra.alloc_size == before_alloc, "a negative growth changes the array");
	  continue;
	}
      mc_assert (ra.MR_SIZE == before + n, "size grows from %ld to %ld", before, (long)ra.MR_SIZE);
      if (n)
	{
	  mc_assert (p == (char*)ra.data.ptr + before, "the new block is not at the end");
	  pattern (n);
	  memcpy (p, fill, n);
	  memcpy (ref + ref_n, fill, n);
	  ref_n += n;
	}
      same (&ra, note);
    }
  mc_outcome (mc_hash (note, strlen (note), ref_n));
  if (ra.data.ptr) MR_FREE (ra.data.ptr);
}
/* no memory: the text is given up as a whole, a block keeps what it has */
static void
faults (void)
{
  mr_rarray_t ra = { .data = { mr_strdup ("") }, .MR_SIZE = 1, .alloc_size = 1 };
  char note[300] = "";
  int k, rv = 0, fault = mc_choose (depth + 1), dead = 0;
  long n;
  mc_shard ();
  ref[0] = 0; ref_n = 1;
  mem_arm (fault, mc_choose (2));
  for (k = 0; k < depth; ++k)
    {
      int op = mc_choose (4);
      long alloc = ra.alloc_size, size = ra.MR_SIZE;
      void * old = ra.data.ptr, * p = NULL;
      if (dead) { n = 2; strcpy (fill, "ab"); } else { n = op == 1 ? 1 : length (&ra); pattern (n); }
      sprintf (note + strlen (note), " %d:%ld", op, n);
      mc_note ("faults: %d:%s", fault, note);
      mem_fault_hit = 0;
      switch (op)
	{
	case 0: rv = mr_ra_printf (&ra, "%s", fill); break;
	case 1: n = 1; fill[0] = 'y'; rv = mr_ra_append_char (&ra, 'y'); break;
	case 2: rv = mr_ra_append_string (&ra, fill); break;
	default: p = mr_rarray_append (&ra, n); break;
	}
      int hit = mem_fault_hit;
      if (op == 3)
	{
	  if (hit)
	    {
	      mc_assert (!p, "a block of %ld bytes without memory", n);
	      mc_assert (ra.data.ptr == old && ra.MR_SIZE == size && ra.alloc_size == alloc, "the failed growth changes the array");
	    }
	  else if (n > 0)
	    {
	      mc_assert (p, "no block although there is memory");
	      memcpy (p, fill, n);
	      if (dead) { MR_FREE (ra.data.ptr); memset (&ra, 0, sizeof (ra)); } /* not a text any more */
	      else { p = (char*)ra.data.ptr + ref_n; memcpy (ref + ref_n, fill, n); ref_n += n; ref[ref_n - 1] = 0; ((char*)ra.data.ptr)[ref_n - 1] = 0; }
	    }
	}
      else if (hit || dead)
	{
	  mc_assert (rv == -1, "returned %d without memory", rv);
	  mc_assert (!ra.data.ptr && !ra.MR_SIZE && !ra.alloc_size, "a failed append leaves the buffer");
	  mc_assert (!old || dead || !mem_find (old), "the buffer is lost");
	  dead = 1; ref_n = 0;
	}
      else
	{
	  mc_assert (rv == n, "returned %d", rv);
	  text_append (fill, n);
	}
      if (!dead) same (&ra, note);
    }
  mem_disarm ();
  mc_outcome (mc_hash (note, strlen (note), fault));
  if (ra.data.ptr) MR_FREE (ra.data.ptr);
  char leak[200]; mc_assert (mem_leaks (leak, sizeof (leak)) == 0, "leak: %s", leak);
}
/* lists of descriptors: indexes, zeroed elements, chains of children in the order of addition */
static void
lists (void)
{
  mr_ra_ptrdes_t ptrs = { .ptrdes_type = MR_PD_LOAD };
  int n = mc_thorough ? 9 : 8, i, j, base = 0, parent[16], root = mr_add_ptr_to_list (&ptrs);
  mc_assert (root == 0, "the first index is %d", root);
  char note[100] = "";
  parent[0] = -1;
  for (i = 1; i <= n; ++i)
    {
      int idx = mr_add_ptr_to_list (&ptrs);
      static const mr_ptrdes_t zero;
      mc_assert (idx == i, "index %d, must be %d", idx, i);
      mc_assert (!memcmp (&ptrs.ra[idx], &zero, sizeof (zero)), "the new descriptor is not zeroed");
      memset (&ptrs.ra[idx].load_params, 0x5a, sizeof (ptrs.ra[idx].load_params));
      parent[i] = mc_choose (i);
      /* trees grow depth first, in several places one after another: below the last node or its parents up to where the branch was begun, or below a node without children */
      for (j = i - 1; j != base && j != parent[i]; j = parent[j]) ;
      if (j != parent[i])
	{
	  for (j = 1; j < i; ++j) if (parent[j] == parent[i]) mc_skip ();
	  base = parent[i];
	}
      sprintf (note + strlen (note), " %d", parent[i]);
      mr_add_child (&ptrs, parent[i], idx);
      if (i == 3) mc_shard ();
      mc_note ("parents:%s", note);
      for (j = 1; j <= i; ++j)
	{
	  /* children of j in order */
	  int c = ptrs.ra[j].first_child, m, last = 0;
	  for (m = 1; m <= i; ++m)
	    if (parent[m] == j)
	      {
		mc_assert (c == m, "child %d of %d, must be %d", c, j, m);
		mc_assert ((int)ptrs.ra[m].parent == j, "parent of %d is %d", m, (int)ptrs.ra[m].parent);
		last = m;
		c = ptrs.ra[c].next;
	      }
	  mc_assert (c == 0, "%d has a further child %d", j, c);
	  for (m = i; m != base && m != j; m = parent[m]) ;
	  if (i == n && m == j && j) mc_assert ((int)mr_last_child_for_parent (&ptrs, j) == last, "last child of %d must be %d", j, last);
	}
    }
  mc_outcome (mc_hash (note, strlen (note), 1));
  MR_FREE (ptrs.ra);
}
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (text), S (blocks), S (faults), S (lists), { 0 } };
static void mc_setup (void) { z_setup (); depth = mc_thorough ? 5 : 4; }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
