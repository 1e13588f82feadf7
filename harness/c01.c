/* C01: every kind of indexed collection is a set, for every operation history. */
#include "mem.h"
#include "bfs.h"
#include <mr_ic.h>

/* A key is an integer: (class << 4) | variant. Keys of one class are equal. Class 0 variant 0 is the null key. */
#define KEY(C, V) (((C) << 4) | (V))
#define CLASS(K) ((int)((K) >> 4))
#define MAXCLASS 64

static int hash_mode, cmp_mode;
static int kind;
static mr_ic_t ic;
static intptr_t model[MAXCLASS]; /* stored key of the class, or -1 */
static int model_count, nclasses, wrapped; /* wrapped: collection still sits on the caller's array */

static int
key_cmp (const mr_ptr_t x, const mr_ptr_t y, const void * context)
{
  int cx = CLASS (x.intptr), cy = CLASS (y.intptr);
  if (cmp_mode) { cx = (cx * 7) % 64; cy = (cy * 7) % 64; return (cx - cy) * 1000; }
  return ((cx > cy) - (cx < cy));
}

static mr_hash_value_t
key_hash (const mr_ptr_t x, const void * context)
{
  int c = CLASS (x.intptr);
  switch (hash_mode)
    {
    case 0: return (c);              /* spread */
    case 1: return (5);              /* all collide */
    case 2: return (c % 3);          /* three chains */
    case 3: return (8 + 9 * 29 * c); /* the last bucket of the first two table sizes: every chain wraps around */
    case 4: return (7 + c);          /* dense, wrapping */
    default: return (0xFFFFFFFFu - c);
    }
}

static const mr_ic_type_t kinds[] = { MR_IC_UNSORTED_ARRAY, MR_IC_SORTED_ARRAY, MR_IC_HASH, MR_IC_STATIC_ARRAY, MR_IC_RBTREE, MR_IC_AVLTREE };
static const char * kind_name[] = { "unsorted array", "sorted array", "hash", "static array", "red-black tree", "AVL tree" };

static mr_ptr_t user_array[64]; /* what the unsorted array wraps */

static int seen[MAXCLASS], seen_total;
static mr_status_t
visit (mr_ptr_t key, const void * context)
{
  int c = CLASS (key.intptr);
  mc_assert (c >= 0 && c < MAXCLASS, "foreach: visits a foreign element");
  mc_assert (model[c] != -1, "foreach: visits a deleted element, class %d", c);
  mc_assert (model[c] == key.intptr, "foreach: visits another key than stored for class %d", c);
  mc_assert (!seen[c], "foreach: visits class %d twice", c);
  seen[c] = 1;
  ++seen_total;
  return (MR_SUCCESS);
}
static int stop_after;
static mr_status_t visit_stop (mr_ptr_t key, const void * context) { return (--stop_after >= 0 ? MR_SUCCESS : MR_FAILURE); }

static mr_ptr_t K (intptr_t k) { mr_ptr_t p; p.intptr = k; return (p); }

static void
observe (void)
{
  int c, n = 0;
  for (c = 0; c < nclasses; ++c)
    {
      mr_ptr_t * f = mr_ic_find (&ic, K (KEY (c, 0)));
      mr_ptr_t * g = mr_ic_find (&ic, K (KEY (c, 2)));
      if (model[c] == -1)
	mc_assert (!f && !g, "find: class %d found though absent", c);
      else
	{
	  ++n;
	  mc_assert (f && g, "find: class %d not found", c);
	  mc_assert (f->intptr == model[c] && g->intptr == model[c], "find: class %d yields another element than the stored one", c);
	}
    }
  memset (seen, 0, sizeof (seen));
  seen_total = 0;
  mc_assert (MR_SUCCESS == mr_ic_foreach (&ic, (mr_visit_fn_t)visit, NULL), "foreach: fails");
  mc_assert (seen_total == n, "foreach: visits %d of %d elements", seen_total, n);
  mc_assert ((int)ic.items_count == n, "count: %d elements reported, %d stored", (int)ic.items_count, n);
  if (n > 0)
    {
      stop_after = n - 1;
      mc_assert (MR_SUCCESS != mr_ic_foreach (&ic, (mr_visit_fn_t)visit_stop, NULL), "foreach: ignores a failing visitor");
    }
}

static void
op_add (intptr_t k)
{
  int c = CLASS (k);
  mr_ptr_t * r = mr_ic_add (&ic, K (k));
  mc_assert (r, "add: fails");
  if (model[c] == -1) { model[c] = k; ++model_count; }
  mc_assert (r->intptr == model[c], "add: returns another element than the stored one");
}

static void
op_del (intptr_t k)
{
  int c = CLASS (k);
  mr_status_t s = mr_ic_del (&ic, K (k));
  mc_assert ((s == MR_SUCCESS) == (model[c] != -1), "del: %s of %s element", s == MR_SUCCESS ? "success" : "failure", model[c] != -1 ? "a present" : "an absent");
  if (model[c] != -1) { model[c] = -1; --model_count; }
}

/* bulk index: classes of mask; dup bit adds a second, equal, key in front or behind */
static void
op_index (const intptr_t * keys, int n)
{
  int i;
  mr_ptr_t * arr = kind == 0 ? user_array : calloc (n + 1, sizeof (*arr)); /* exact bounds for the sanitizer */
  mr_ptr_t copy[64];
  for (i = 0; i < n; ++i) arr[i].intptr = copy[i].intptr = keys[i];
  mc_assert (MR_SUCCESS == mr_ic_index (&ic, arr, n * sizeof (arr[0])), "index: fails");
  for (i = 0; i < n; ++i) mc_assert (arr[i].intptr == copy[i].intptr, "index: changes the caller's array");
  if (kind != 0) free (arr);
  for (i = 0; i < MAXCLASS; ++i) model[i] = -1;
  model_count = 0;
  for (i = 0; i < n; ++i)
    if (model[CLASS (keys[i])] == -1) { model[CLASS (keys[i])] = keys[i]; ++model_count; }
  /* which of several equal elements is kept by a bulk index is not specified beyond being one of them */
  for (i = 0; i < n; ++i)
    {
      mr_ptr_t * f = mr_ic_find (&ic, K (keys[i]));
      if (f && CLASS (f->intptr) == CLASS (keys[i]))
	{
	  int j;
	  for (j = 0; j < n; ++j) if (keys[j] == f->intptr) model[CLASS (keys[i])] = f->intptr;
	}
    }
}

static void
ic_reset (void)
{
  int i;
  mem_begin ();
  for (i = 0; i < MAXCLASS; ++i) model[i] = -1;
  model_count = 0;
  memset (&ic, 0x5A, sizeof (ic));
  mc_assert (MR_SUCCESS == mr_ic_new (&ic, key_hash, key_cmp, "int", kinds[kind], NULL), "new: fails");
}

static void
ic_done (void)
{
  mem_purge ();
}

static uint64_t
ic_canon (void)
{
  uint64_t h = mc_hash (&ic.ic_type, sizeof (ic.ic_type), kind * 7919 + hash_mode * 31 + cmp_mode);
  h = mc_hash (&ic.items_count, sizeof (ic.items_count), h);
  switch (ic.ic_type)
    {
    case MR_IC_UNSORTED_ARRAY:
    case MR_IC_SORTED_ARRAY:
      h = mc_hash (&ic.rarray.size, sizeof (ic.rarray.size), h);
      h = mc_hash (&ic.rarray.alloc_size, sizeof (ic.rarray.alloc_size), h);
      if (ic.rarray.ra) h = mc_hash (ic.rarray.ra, ic.rarray.size, h);
      break;
    case MR_IC_HASH:
      h ^= ic.hash.size * 2 + ic.hash.zero_key;
      if (ic.hash.hash_table) h = mc_hash (ic.hash.hash_table, ic.hash.size, h);
      break;
    case MR_IC_STATIC_ARRAY:
      h = mc_hash (&ic.static_array, sizeof (ic.static_array), h);
      break;
    default:
      h = mc_hash (&ic.tree.size, sizeof (ic.tree.size), h);
      h = mc_hash (&ic.tree.alloc_size, sizeof (ic.tree.alloc_size), h);
      if (ic.tree.pool) h = mc_hash (ic.tree.pool, ic.tree.size, h);
    }
  return (h);
}

/* operations: for each class add v0, add v1, del v1; index of several subsets; free */
static const int small_sets[][6] = { {0}, {1, 0}, {2, 3, 1}, {3, 0, 1, 2}, {5, 0, 1, 2, 3, 4}, {4, 4, 3, 2, 1} };
#define NSETS ((int)(sizeof (small_sets) / sizeof (small_sets[0])))

static char opdesc[64];
static int
ic_apply (int op)
{
  int nk = 3 * nclasses;
  if (op < nk)
    {
      int c = op / 3;
      switch (op % 3)
	{
	case 0: mc_note_add (" add %d.0", c); op_add (KEY (c, 0)); break;
	case 1: mc_note_add (" add %d.1", c); op_add (KEY (c, 1)); break;
	case 2: mc_note_add (" del %d", c); op_del (KEY (c, 1)); break;
	}
    }
  else if (op < nk + 2 * NSETS)
    {
      int s = (op - nk) / 2, dup = (op - nk) & 1, n = 0, i;
      intptr_t keys[16];
      if (dup && (kind == 0 || small_sets[s][0] == 0)) return (0); /* the wrapped array itself is not deduplicated */
      for (i = 1; i <= small_sets[s][0]; ++i)
	{
	  if (small_sets[s][i] >= nclasses) return (0);
	  keys[n++] = KEY (small_sets[s][i], 0);
	}
      if (dup)
	for (i = 1; i <= small_sets[s][0]; ++i)
	  {
	    memmove (&keys[1], &keys[0], n * sizeof (keys[0]));
	    keys[0] = KEY (small_sets[s][i], i & 1);
	    ++n;
	  }
      mc_note_add (" index#%d%s", s, dup ? "dup" : "");
      op_index (keys, n);
    }
  else
    {
      int i;
      mc_note_add (" free");
      mr_ic_free (&ic);
      char leak[256];
      mc_assert (0 == mem_leaks (leak, sizeof (leak)), "free: leaves blocks behind: %s", leak);
      for (i = 0; i < MAXCLASS; ++i) model[i] = -1;
      model_count = 0;
    }
  observe ();
  return (1);
}

static void bfs_reset (void) { mc_note ("%s, hash %d, cmp %d:", kind_name[kind], hash_mode, cmp_mode); ic_reset (); }

static void
run_bfs (void)
{
  kind = mc_choose (6);
  hash_mode = kind == 2 ? mc_choose (5) : 0;
  cmp_mode = kind != 2 && kind != 3 ? mc_choose (2) : 0;
  mc_shard ();
  nclasses = mc_thorough ? (kind >= 4 ? 5 : kind == 2 ? 7 : 6) : kind == 2 || kind >= 4 ? 4 : 5;
  mc_bfs_t m = { .nops = 3 * nclasses + 2 * NSETS + 1, .maxdepth = mc_thorough ? 40 : 30, .maxstates = mc_thorough ? 400000 : 60000,
    .reset = bfs_reset, .apply = ic_apply, .canon = ic_canon, .done = ic_done };
  mc_bfs (&m);
}

/* grown collections: insert (or bulk index) n keys in some order, then every short sequence of operations */
static void
run_grown (void)
{
  int n, i, order, ops, depth, bulk, dels;
  kind = mc_choose (6);
  hash_mode = kind == 2 ? mc_choose (6) : 0;
  cmp_mode = 0;
  n = mc_choose (mc_thorough ? 41 : 25);
  order = mc_choose (4);
  bulk = mc_choose (2);
  mc_shard ();
  nclasses = n + 2;
  dels = n == 0 ? 0 : mc_choose (n + 1); /* delete this many, from the front or the back, before the sequence */
  ic_reset ();
  mc_note ("%s, hash %d: %s %d keys, order %d, delete %d;", kind_name[kind], hash_mode, bulk ? "index" : "insert", n, order, dels);
  intptr_t keys[64];
  for (i = 0; i < n; ++i)
    {
      int c = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i & 1 ? n - 1 - i / 2 : i / 2) : (i * 5 + 3) % n;
      keys[i] = KEY (c, i & 1);
    }
  if (order == 3 && n % 5 == 0) mc_skip ();
  if (bulk)
    op_index (keys, n);
  else
    for (i = 0; i < n; ++i) op_add (keys[i]);
  observe ();
  for (i = 0; i < dels; ++i)
    {
      op_del (keys[i]);
      if (n <= 12 || i + 3 >= dels) observe ();
    }
  ops = mc_thorough ? (n <= 20 ? 2 : 1) : (n <= 8 ? 2 : 1);
  for (depth = 0; depth < ops; ++depth)
    {
      int op = mc_choose (2 * nclasses + 1);
      if (op == 2 * nclasses) { mc_note_add (" free"); mr_ic_free (&ic); for (i = 0; i < MAXCLASS; ++i) model[i] = -1; }
      else if (op & 1) { mc_note_add (" add %d", op / 2); op_add (KEY (op / 2, 2)); }
      else { mc_note_add (" del %d", op / 2); op_del (KEY (op / 2, 0)); }
      observe ();
    }
  ++mc_sh->transitions;
  mc_outcome (ic_canon ());
  mr_ic_free (&ic);
  char leak[256];
  mc_assert (0 == mem_leaks (leak, sizeof (leak)), "free: leaves blocks behind: %s", leak);
}

/* collections over a registered key type, with the library's own comparison and hash */
TYPEDEF_STRUCT (c01_key_t, (int, x), (char *, s))
static void
run_generic (void)
{
  static const char * strs[] = { "a", "b", NULL };
  c01_key_t keys[6];
  int i, n = 6, d, present[6] = { 0 }, kindg = mc_choose (6);
  kind = kindg;
  mc_shard ();
  mem_begin ();
  mc_note ("%s with generic compare:", kind_name[kind]);
  for (i = 0; i < n; ++i) { keys[i].x = i / 3; keys[i].s = (char*)strs[i % 3]; }
  mr_ic_t g;
  mc_assert (MR_SUCCESS == mr_ic_new (&g, NULL, NULL, "c01_key_t", kinds[kind], NULL), "new: fails for a registered key type");
  int depth = mc_thorough ? 5 : 4;
  for (d = 0; d < depth; ++d)
    {
      int op = mc_choose (2 * n);
      c01_key_t probe = keys[op / 2];
      char buf[8]; if (probe.s) { strcpy (buf, probe.s); probe.s = buf; } /* equal value, other address */
      mc_note_add (" %s %d", op & 1 ? "add" : "del", op / 2);
      if (op & 1)
	{
	  mr_ptr_t * r = mr_ic_add (&g, &keys[op / 2]);
	  mc_assert (r && r->ptr == &keys[op / 2], "add: wrong element");
	  present[op / 2] = 1;
	}
      else
	{
	  mr_status_t s = mr_ic_del (&g, &probe);
	  mc_assert ((MR_SUCCESS == s) == present[op / 2], "del: wrong status");
	  present[op / 2] = 0;
	}
      int cnt = 0;
      for (i = 0; i < n; ++i)
	{
	  probe = keys[i];
	  if (probe.s) { strcpy (buf, probe.s); probe.s = buf; }
	  mr_ptr_t * f = mr_ic_find (&g, &probe);
	  mc_assert (present[i] ? (f && f->ptr == &keys[i]) : !f, "find: wrong answer");
	  cnt += present[i];
	}
      mc_assert ((int)g.items_count == cnt, "count: wrong");
    }
  ++mc_sh->transitions;
  mr_ic_free (&g);
  char leak[256];
  mc_assert (0 == mem_leaks (leak, sizeof (leak)), "leak: %s", leak);
}

#ifndef C01_LIB
static mc_scope_t mc_scopes[] = { { "histories", run_bfs }, { "grown", run_grown }, { "generic", run_generic }, { 0 } };
static void mc_setup (void) { mem_install (); mr_conf_init (); mc_exec_end = mem_purge; mc_exec_begin = mem_begin; }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
#endif
