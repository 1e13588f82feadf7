/* C12: collections survive a failed allocation in any operation of any history. */
#define C01_LIB
#include "c01.c"

/* blocks the collection is entitled to */
static int
ic_blocks (void)
{
  switch (ic.ic_type)
    {
    case MR_IC_UNSORTED_ARRAY: return (0); /* the caller's array */
    case MR_IC_SORTED_ARRAY: return (ic.rarray.ra != NULL);
    case MR_IC_HASH: return (ic.hash.hash_table != NULL);
    case MR_IC_STATIC_ARRAY: return (0);
    default: return (ic.tree.pool != NULL);
    }
}

static void
sound (const char * what)
{
  char leak[256];
  observe ();
  int n = mem_leaks (leak, sizeof (leak));
  mc_assert (n == ic_blocks (), "%s: %d blocks are live where the collection has %d: %s", what, n, ic_blocks (), leak);
  if (ic.ic_type == MR_IC_RBTREE) mc_assert (mr_rbtree_is_valid (&ic.rb, key_cmp, NULL), "%s: the red-black tree is broken", what);
  if (ic.ic_type == MR_IC_AVLTREE) mc_assert (mr_avltree_is_valid (&ic.avl, key_cmp, NULL), "%s: the AVL tree is broken", what);
}

static intptr_t before[MAXCLASS];
static int fresh[MAXCLASS];
static mr_status_t
visit_after_index (mr_ptr_t key, const void * context)
{
  int c = CLASS (key.intptr);
  mc_assert (c >= 0 && c < MAXCLASS && model[c] == -1, "failed index: foreign or repeated element");
  mc_assert (before[c] == key.intptr || fresh[c], "failed index: an element that was neither in the collection nor in the array");
  model[c] = key.intptr;
  ++model_count;
  return (MR_SUCCESS);
}

#define MODES 4 /* no fault, first, second request fails, all fail */
static void arm (int mode) { mode == 0 ? mem_disarm () : mem_arm (mode == 2 ? 1 : 0, mode == 3); mem_fault_hit = 0; }
static const char * const mode_name[] = { "", "!1", "!2", "!!" };

/* 0: the fault is not reached */
static int
faulty (int what, intptr_t k, const intptr_t * keys, int n, int mode)
{
  int i, c = CLASS (k);
  if (what == 0)
    {
      arm (mode);
      mr_ptr_t * r = mr_ic_add (&ic, K (k));
      int hit = mem_fault_hit;
      mem_disarm ();
      if (mode && !hit) return (0);
      if (r)
	{
	  if (model[c] == -1) { model[c] = k; ++model_count; }
	  mc_assert (r->intptr == model[c], "add: returns another element than the stored one");
	}
      else mc_assert (hit, "add: fails without a fault");
      sound ("add");
    }
  else if (what == 1)
    {
      arm (mode);
      mr_status_t s = mr_ic_del (&ic, K (k));
      int hit = mem_fault_hit;
      mem_disarm ();
      if (mode && !hit) return (0);
      if (s == MR_SUCCESS)
	{
	  mc_assert (model[c] != -1, "del: success for an absent element");
	  model[c] = -1; --model_count;
	}
      else mc_assert (hit || model[c] == -1, "del: fails without a fault");
      sound ("del");
    }
  else
    {
      mr_ptr_t * arr = kind == 0 ? user_array : calloc (n + 1, sizeof (*arr));
      for (i = 0; i < n; ++i) arr[i].intptr = keys[i];
      memcpy (before, model, sizeof (before));
      memset (fresh, 0, sizeof (fresh));
      for (i = 0; i < n; ++i) fresh[CLASS (keys[i])] = 1;
      arm (mode);
      mr_status_t s = mr_ic_index (&ic, arr, n * sizeof (arr[0]));
      int hit = mem_fault_hit;
      mem_disarm ();
      for (i = 0; i < n; ++i) mc_assert (arr[i].intptr == keys[i], "index: changes the caller's array");
      if (kind != 0) free (arr);
      if (mode && !hit) return (0);
      for (i = 0; i < MAXCLASS; ++i) model[i] = -1;
      model_count = 0;
      if (s == MR_SUCCESS)
	{
	  for (i = 0; i < n; ++i)
	    if (model[CLASS (keys[i])] == -1) { model[CLASS (keys[i])] = keys[i]; ++model_count; }
	}
      else
	{
	  /* an index replaces all elements, so what is left after a failure is not said, as long as it is a set of known ones */
	  mc_assert (hit, "index: fails without a fault");
	  mc_assert (MR_SUCCESS == mr_ic_foreach (&ic, (mr_visit_fn_t)visit_after_index, NULL), "foreach: fails");
	}
      sound ("index");
    }
  return (1);
}

static int
f_apply (int op)
{
  int mode = op % MODES, c;
  op /= MODES;
  if (op < 2 * nclasses)
    {
      c = op / 2;
      mc_note_add (" %s%s %d", op & 1 ? "del" : "add", mode_name[mode], c);
      return (faulty (op & 1, KEY (c, 0), NULL, 0, mode));
    }
  op -= 2 * nclasses;
  if (op < NSETS)
    {
      intptr_t keys[16];
      int i, n = small_sets[op][0];
      for (i = 0; i < n; ++i)
	{
	  if (small_sets[op][i + 1] >= nclasses) return (0);
	  keys[i] = KEY (small_sets[op][i + 1], 0);
	}
      mc_note_add (" index%s#%d", mode_name[mode], op);
      return (faulty (2, 0, keys, n, mode));
    }
  if (mode) return (0);
  mc_note_add (" free");
  mr_ic_free (&ic);
  int i;
  for (i = 0; i < MAXCLASS; ++i) model[i] = -1;
  model_count = 0;
  sound ("free");
  mc_assert (mem_leaks (NULL, 0) == 0, "free: leaves blocks behind");
  return (1);
}

static void
run_faults (void)
{
  kind = mc_choose (6);
  hash_mode = kind == 2 ? mc_choose (5) : 0;
  cmp_mode = 0;
  mc_shard ();
  nclasses = mc_thorough ? (kind >= 4 ? 5 : kind == 2 ? 7 : 6) : kind == 2 || kind >= 4 ? 4 : 5;
  mc_bfs_t m = { .nops = MODES * (2 * nclasses + NSETS + 1), .maxdepth = mc_thorough ? 40 : 30, .maxstates = mc_thorough ? 400000 : 60000,
    .reset = bfs_reset, .apply = f_apply, .canon = ic_canon, .done = ic_done };
  mc_bfs (&m);
}

/* n insertions of which each one's each request fails once or for a while, then goes on; every order of a few */
static void
run_growing (void)
{
  int n, i, order, failing, mode, again;
  kind = mc_choose (6);
  hash_mode = kind == 2 ? mc_choose (6) : 0;
  cmp_mode = 0;
  n = 1 + mc_choose (mc_thorough ? 60 : 40);
  order = mc_choose (4);
  if (order == 3 && n % 5 == 0) mc_skip ();
  mc_shard ();
  failing = mc_choose (n);
  mode = 1 + mc_choose (MODES - 1);
  again = mc_choose (4); /* then: try again, delete something, index everything under a fault, stop */
  nclasses = n + 1 < MAXCLASS ? n + 1 : MAXCLASS;
  ic_reset ();
  mc_note ("%s, hash %d: %d keys, order %d, number %d fails (%s), then %d;", kind_name[kind], hash_mode, n, order, failing, mode_name[mode], again);
  intptr_t keys[64];
  for (i = 0; i < n; ++i)
    {
      int c = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i & 1 ? n - 1 - i / 2 : i / 2) : (i * 5 + 3) % n;
      keys[i] = KEY (c, i & 1);
    }
  for (i = 0; i < n; ++i)
    {
      if (i != failing) { op_add (keys[i]); continue; }
      if (!faulty (0, keys[i], NULL, 0, mode)) mc_skip ();
      if (again == 0) op_add (keys[i]);
      else if (again == 1 && i) { op_del (keys[i / 2]); op_add (keys[i]); }
      else if (again == 2)
	{
	  faulty (2, 0, keys, n, mode);
	  op_add (keys[i]);
	}
    }
  sound ("afterwards");
  for (i = 0; i < n; i += 2) if (model[CLASS (keys[i])] != -1) op_del (keys[i]);
  sound ("deletion");
  ++mc_sh->transitions;
  mc_outcome (mc_hash (mc_sh->note, strlen (mc_sh->note), 0));
  mr_ic_free (&ic);
  mc_assert (mem_leaks (NULL, 0) == 0, "free: leaves blocks behind");
}

static mc_scope_t mc_scopes[] = { { "faults", run_faults }, { "growing", run_growing }, { 0 } };
static void mc_setup (void) { mem_install (); mr_conf_init (); mc_exec_end = mem_purge; mc_exec_begin = mem_begin; }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
