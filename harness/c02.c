/* C02: both balanced trees stay ordered, balanced and traversable in every reachable state. */
#include "mem.h"
#include "bfs.h"
#include <mr_btree.h>

static mr_tree_t tree;
static int avl, nkeys, abstract_pool;
static int present[128];

static mr_ptr_t K (intptr_t k) { mr_ptr_t p; p.intptr = k; return (p); }
static int key_cmp (const mr_ptr_t x, const mr_ptr_t y, const void * context) { return ((x.intptr > y.intptr) - (x.intptr < y.intptr)); }

/* ---- independent validity check ---- */
static int v_bad, v_count;
static intptr_t v_prev;
static unsigned v_nodes;
static unsigned char v_seen[256];
static int
v_rec (mr_tree_t * t, unsigned idx, int depth)
{
  int l, r;
  if (idx == 0) return (avl ? 0 : 1);
  if (idx >= v_nodes || depth > 60 || v_seen[idx]) { v_bad = 1; return (0); }
  v_seen[idx] = 1;
  mr_tree_node_t * n = &t->pool[idx];
  l = v_rec (t, n->next[MR_LEFT].idx, depth + 1);
  if (v_bad) return (0);
  if (v_count++ && key_cmp (K (v_prev), n->key, NULL) >= 0) v_bad = 1;
  v_prev = n->key.intptr;
  r = v_rec (t, n->next[MR_RIGHT].idx, depth + 1);
  if (v_bad) return (0);
  if (avl)
    {
      if (l - r > 1 || r - l > 1) v_bad = 1;
      if (n->avl.balanced != (l == r)) v_bad = 1;
      if (l != r && n->avl.longer != (r > l ? MR_RIGHT : MR_LEFT)) v_bad = 1;
      return (1 + (l > r ? l : r));
    }
  if (l != r) v_bad = 1;
  if (n->rb.red && ((n->next[MR_LEFT].idx && t->pool[n->next[MR_LEFT].idx].rb.red) || (n->next[MR_RIGHT].idx && t->pool[n->next[MR_RIGHT].idx].rb.red)))
    v_bad = 1;
  return (l + !n->rb.red);
}
static int
v_valid (mr_tree_t * t, int * count)
{
  unsigned i;
  if (t->size <= 0) { *count = 0; return (1); }
  v_nodes = t->size / sizeof (t->pool[0]);
  v_bad = v_count = 0;
  memset (v_seen, 0, sizeof (v_seen));
  for (i = 0; i < v_nodes; ++i)
    if (t->pool[i].next[0].idx >= v_nodes || t->pool[i].next[1].idx >= v_nodes) return (0);
  v_rec (t, t->pool->root.idx, 0);
  if (!v_bad && !avl && t->pool->root.idx && t->pool[t->pool->root.idx].rb.red) v_bad = 1;
  if (!v_bad) for (i = 1; i < v_nodes; ++i) if (!v_seen[i]) v_bad = 1;
  *count = v_count;
  return (!v_bad);
}
static int lib_valid (mr_tree_t * t) { return (avl ? mr_avltree_is_valid (t, key_cmp, NULL) : mr_rbtree_is_valid (t, key_cmp, NULL)); }

static int w_n, w_keys[128];
static mr_status_t walk_visit (mr_ptr_t key, const void * context) { mc_assert (w_n < 128, "walk: runs away"); w_keys[w_n++] = key.intptr; return (MR_SUCCESS); }

static intptr_t at (mr_tree_traverse_t * t)
{
  int n = t->size / sizeof (t->path[0]);
  if (n <= 1) return (-1);
  return (tree.pool[t->path[n - 1].idx].key.intptr);
}

static void
observe (void)
{
  int i, j, n = 0, cnt, sorted[128];
  for (i = 0; i < nkeys; ++i) if (present[i]) sorted[n++] = i;
  mc_assert (v_valid (&tree, &cnt), "balance: tree breaks the %s rules", avl ? "AVL" : "red-black");
  mc_assert (cnt == n, "content: tree links %d of %d elements", cnt, n);
  mc_assert (lib_valid (&tree), "self-check: rejects a valid tree");
  w_n = 0;
  mc_assert (MR_SUCCESS == mr_tree_walk (&tree, (mr_visit_fn_t)walk_visit, NULL), "walk: fails");
  mc_assert (w_n == n, "walk: visits %d of %d elements", w_n, n);
  for (i = 0; i < n; ++i) mc_assert (w_keys[i] == sorted[i], "walk: out of order");
  for (i = 0; i < nkeys; ++i)
    {
      mr_tree_traverse_t t;
      int dir, pos, lower = 0;
      memset (&t, 0x77, sizeof (t));
      mr_tree_find (K (i), &tree, key_cmp, NULL, &t);
      mc_assert (t.equal == present[i], "find: wrong answer");
      if (present[i]) mc_assert (at (&t) == i, "find: ends at another element");
      for (j = 0; j < n; ++j) lower += sorted[j] < i;
      for (dir = 0; dir < 2; ++dir)
	{
	  mr_tree_traverse_t s = t;
	  /* neighbours in this direction, one after another, until the end */
	  if (dir == MR_RIGHT) for (pos = lower + present[i]; pos < n; ++pos)
	    { mr_tree_next (&tree, &s, MR_RIGHT); mc_assert (at (&s) == sorted[pos], "next: forwards from %s element goes wrong", present[i] ? "an" : "a missing"); }
	  else for (pos = lower - 1; pos >= 0; --pos)
	    { mr_tree_next (&tree, &s, MR_LEFT); mc_assert (at (&s) == sorted[pos], "next: backwards from %s element goes wrong", present[i] ? "an" : "a missing"); }
	  mr_tree_next (&tree, &s, dir);
	  mc_assert (at (&s) == -1, "next: does not end at the %s element", dir == MR_RIGHT ? "last" : "first");
	  /* there and back again */
	  s = t;
	  if (present[i] && (dir == MR_RIGHT ? lower + 1 < n : lower > 0))
	    {
	      mr_tree_next (&tree, &s, dir);
	      mr_tree_next (&tree, &s, dir ^ 1);
	      mc_assert (at (&s) == i, "next: forth and back does not return");
	    }
	}
    }
}

static void
do_add (int k)
{
  mr_ptr_t * r = avl ? mr_avltree_add (K (k), &tree, key_cmp, NULL) : mr_rbtree_add (K (k), &tree, key_cmp, NULL);
  mc_assert (r && r->intptr == k, "add: returns the wrong element");
  present[k] = 1;
}
static void
do_del (int k)
{
  mr_status_t s = avl ? mr_avltree_del (K (k), &tree, key_cmp, NULL) : mr_rbtree_del (K (k), &tree, key_cmp, NULL);
  mc_assert ((s == MR_SUCCESS) == present[k], "del: wrong status");
  present[k] = 0;
}

static void reset (void)
{
  mem_begin ();
  memset (present, 0, sizeof (present));
  mr_tree_init (&tree);
  mc_note ("%s, %d keys:", avl ? "AVL" : "RB", nkeys);
}
static void done (void) { mem_purge (); }
static int
apply (int op)
{
  if (op & 1) { mc_note_add (" del %d", op / 2); do_del (op / 2); }
  else { mc_note_add (" add %d", op / 2); do_add (op / 2); }
  observe ();
  return (1);
}
static uint64_t
canon_rec (unsigned idx, uint64_t h)
{
  if (idx == 0) return (mc_hash ("", 1, h));
  struct { intptr_t k; int a, b; } x = { tree.pool[idx].key.intptr, tree.pool[idx].next[0].bit, tree.pool[idx].next[1].bit };
  h = mc_hash (&x, sizeof (x), h);
  h = canon_rec (tree.pool[idx].next[0].idx, h);
  return (canon_rec (tree.pool[idx].next[1].idx, h ^ 0x1234));
}
static uint64_t
canon (void)
{
  uint64_t h = avl + 2 * nkeys + 1000 * abstract_pool;
  if (tree.size <= 0) return (h);
  if (abstract_pool) return (canon_rec (tree.pool->root.idx, h));
  return (mc_hash (tree.pool, tree.size, h));
}

/* every reachable tree including the placement of nodes in the pool */
static void
run_pool (void)
{
  avl = mc_choose (2);
  nkeys = 2 + mc_choose (mc_thorough ? 6 : 5);
  mc_shard ();
  abstract_pool = 0;
  mc_bfs_t m = { .nops = 2 * nkeys, .maxdepth = 60, .maxstates = mc_thorough ? 1500000 : 150000, .reset = reset, .apply = apply, .canon = canon, .done = done };
  mc_bfs (&m);
}
/* every reachable shape, colouring and key set, whatever the placement */
static void
run_shapes (void)
{
  avl = mc_choose (2);
  nkeys = 7 + mc_choose (mc_thorough ? 5 : 3);
  mc_shard ();
  abstract_pool = 1;
  mc_bfs_t m = { .nops = 2 * nkeys, .maxdepth = 60, .maxstates = mc_thorough ? 400000 : 60000, .reset = reset, .apply = apply, .canon = canon, .done = done };
  mc_bfs (&m);
}
/* larger trees: structured insertion orders, then delete any element and the following ones */
static int order_key (int order, int i, int n)
{
  switch (order)
    {
    case 0: return (i);
    case 1: return (n - 1 - i);
    case 2: return (i & 1 ? n - 1 - i / 2 : i / 2);
    case 3: return ((i * 7 + 3) % n);
    default: return ((i * 11 + n / 2) % n);
    }
}
static void
run_large (void)
{
  int n, i, order, first, step;
  avl = mc_choose (2);
  n = 1 + mc_choose (mc_thorough ? 96 : 48);
  order = mc_choose (5);
  mc_shard ();
  if ((order == 3 && n % 7 == 0) || (order == 4 && n % 11 == 0)) mc_skip ();
  first = mc_choose (n);
  step = mc_choose (4);
  nkeys = n;
  reset ();
  mc_note_add (" order %d, delete from %d, step %d", order, first, step);
  for (i = 0; i < n; ++i) { do_add (order_key (order, i, n)); if (first == 0 && step == 0) observe (); }
  observe ();
  static const int steps[] = { 1, -1, 5, 13 };
  for (i = 0; i < (n < 14 ? n : 14); ++i)
    {
      int k = ((first + steps[step] * i) % n + n) % n;
      do_del (k);
      if (n <= 24 || i < 6) observe ();
      ++mc_sh->transitions;
    }
  mc_state (canon ());
  ++mc_sh->traces;
  mr_tree_free (&tree);
}
/* the built-in self-check against the independent one, on every one-place corruption of every reachable shape */
static unsigned long corruptions, rejected;
static int
apply_corrupt (int op)
{
  if (op & 1) do_del (op / 2); else do_add (op / 2);
  mc_note_add (" %s %d", op & 1 ? "del" : "add", op / 2);
  unsigned n = tree.size / sizeof (tree.pool[0]), i, k;
  mr_tree_node_t save[16], * pool = tree.pool;
  FILE * err = stderr;
  static FILE * null;
  if (!null) null = fopen ("/dev/null", "w");
  memcpy (save, pool, n * sizeof (pool[0]));
  for (i = 1; i < n; ++i)
    for (k = 0; k < 8 + n; ++k)
      {
	int cnt, mine, theirs;
	switch (k)
	  {
	  case 0: if (avl) pool[i].avl.balanced ^= 1; else pool[i].rb.red ^= 1; break;
	  case 1: if (!avl || pool[i].avl.balanced) continue; pool[i].avl.longer ^= 1; break;
	  case 2: if (!pool[i].next[0].idx) continue; pool[i].next[0].idx = 0; break;
	  case 3: if (!pool[i].next[1].idx) continue; pool[i].next[1].idx = 0; break;
	  case 4: pool[i].next[0].idx = n; break;
	  case 5: pool[i].next[1].idx = n; break;
	  case 6: pool[i].key.intptr += 100; break;
	  case 7: pool[i].key.intptr -= 100; break;
	  default:
	    {
	      unsigned j = k - 8;
	      if (j == 0 || j == i) continue;
	      mr_ptr_t t = pool[i].key; pool[i].key = pool[j].key; pool[j].key = t; break;
	    }
	  }
	mine = v_valid (&tree, &cnt);
	stderr = null;
	theirs = lib_valid (&tree);
	stderr = err;
	memcpy (pool, save, n * sizeof (pool[0]));
	mc_assert (mine == theirs, "self-check: %s a tree with corruption %u of node %u, which is %s", theirs ? "accepts" : "rejects", k, i, mine ? "valid" : "invalid");
      }
  return (1);
}
static void
run_corrupt (void)
{
  avl = mc_choose (2);
  nkeys = 3 + mc_choose (mc_thorough ? 5 : 4);
  mc_shard ();
  abstract_pool = 1;
  mc_bfs_t m = { .nops = 2 * nkeys, .maxdepth = 60, .maxstates = 100000, .reset = reset, .apply = apply_corrupt, .canon = canon, .done = done };
  mc_bfs (&m);
}
static mc_scope_t mc_scopes[] = { { "pool-placements", run_pool }, { "shapes", run_shapes }, { "large", run_large }, { "self-check", run_corrupt }, { 0 } };
static void mc_setup (void) { mem_install (); mr_conf_init (); mc_exec_end = mem_purge; mc_exec_begin = mem_begin; }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
