/* C26: references of hand-written documents lead to the node they name, wherever that is. */
#include "zoo.h"

struct rn_t;
typedef char rc_t[4];
MR_TYPEDEF_DESC_BI (rc_t);
TYPEDEF_STRUCT (rm_t, int k, (struct rn_t *, up))
TYPEDEF_STRUCT (rn_t, int v, (struct rn_t *, p), (struct rn_t *, q), (int *, ip), string_t s, string_t t, (rm_t, m), (rm_t *, mp), (int, a, [2]), (rc_t, c), (rc_t *, cp), (rm_t, ma, [2]))
Z_OPS (rn_t)

/* ---- a document ---- */
enum { T_INT, T_RN, T_RM, T_STR, T_CA, T_PTR, T_AINT, T_ARM };
typedef struct {
  const char * name; /* of a member; that of the pointer or the array otherwise */
  int type, to;      /* what it is, and what a pointer points to */
  int parent, kids, element;
  long off;          /* in the parent */
  int null;          /* pointer without content */
  int text;
  int ref, content;  /* index of the node referred to, or UNDEF */
  int id;
} node_t;
#define NONE (-1)
#define UNDEF 999
#define MAXN 100
static node_t nd[MAXN];
static int nn;
static int add (int parent, const char * name, int type, int to, long off, int element)
{
  nd[nn] = (node_t) { .name = name, .type = type, .to = to, .parent = parent, .off = off, .element = element, .ref = NONE };
  if (parent != NONE) ++nd[parent].kids;
  return (nn++);
}
enum { SH_P = 1, SH_Q = 2, SH_IP = 4, SH_MP = 8, SH_CP = 16, SH_S = 32, SH_T = 64, SH_UP = 128 };
static void add_rn (int self, int shape, int inner);
static void add_rm (int self, int shape, int inner)
{
  int x;
  add (self, "k", T_INT, 0, offsetof (rm_t, k), 0);
  x = add (self, "up", T_PTR, T_RN, offsetof (rm_t, up), 0);
  nd[x].null = !(shape & SH_UP);
  if (!nd[x].null) add_rn (add (x, "up", T_RN, 0, 0, 1), inner, 0);
}
static void add_rn (int self, int shape, int inner)
{
  int x;
  add (self, "v", T_INT, 0, offsetof (rn_t, v), 0);
  x = add (self, "p", T_PTR, T_RN, offsetof (rn_t, p), 0);
  nd[x].null = !(shape & SH_P);
  if (!nd[x].null) add_rn (add (x, "p", T_RN, 0, 0, 1), inner, 0);
  x = add (self, "q", T_PTR, T_RN, offsetof (rn_t, q), 0);
  nd[x].null = !(shape & SH_Q);
  if (!nd[x].null) add_rn (add (x, "q", T_RN, 0, 0, 1), inner, 0);
  x = add (self, "ip", T_PTR, T_INT, offsetof (rn_t, ip), 0);
  nd[x].null = !(shape & SH_IP);
  if (!nd[x].null) add (x, "ip", T_INT, 0, 0, 1);
  x = add (self, "s", T_STR, T_CA, offsetof (rn_t, s), 0);
  nd[x].null = !(shape & SH_S);
  x = add (self, "t", T_STR, T_CA, offsetof (rn_t, t), 0);
  nd[x].null = !(shape & SH_T);
  add_rm (add (self, "m", T_RM, 0, offsetof (rn_t, m), 0), shape & SH_UP, 0);
  x = add (self, "mp", T_PTR, T_RM, offsetof (rn_t, mp), 0);
  nd[x].null = !(shape & SH_MP);
  if (!nd[x].null) add_rm (add (x, "mp", T_RM, 0, 0, 1), 0, 0);
  x = add (self, "a", T_AINT, 0, offsetof (rn_t, a), 0);
  add (x, "a", T_INT, 0, 0, 1);
  add (x, "a", T_INT, 0, sizeof (int), 1);
  add (self, "c", T_CA, 0, offsetof (rn_t, c), 0);
  x = add (self, "cp", T_PTR, T_CA, offsetof (rn_t, cp), 0);
  nd[x].null = !(shape & SH_CP);
  if (!nd[x].null) add (x, "cp", T_CA, 0, 0, 1);
  x = add (self, "ma", T_ARM, 0, offsetof (rn_t, ma), 0);
  add_rm (add (x, "ma", T_RM, 0, 0, 1), 0, 0);
  add_rm (add (x, "ma", T_RM, 0, sizeof (rm_t), 1), 0, 0);
}
static void document (int shape, int inner) { nn = 0; add_rn (add (NONE, "rn_t", T_RN, 0, 0, 1), shape, inner); }
static int is_slot (int i) { return ((nd[i].type == T_PTR || nd[i].type == T_STR) && nd[i].null && nd[i].ref == NONE); }

/* ---- its texts ---- */
static char doc[30000];
static int dn;
#define P(...) (dn += snprintf (doc + dn, sizeof (doc) - dn, __VA_ARGS__))
static long id_of (int x) { return (x == UNDEF ? 90001 : nd[x].id); }
static const char * ctype (int t) { static const char * const n[] = { "int32_t", "rn_t", "rm_t", "", "rc_t" }; return (n[t]); }
static int is_tree (int i) { return (nd[i].type == T_RN || nd[i].type == T_RM || nd[i].type == T_AINT || nd[i].type == T_ARM || (nd[i].type == T_PTR && !nd[i].null)); }
static void scalar (int i, int quote)
{
  if (nd[i].type == T_INT) P ("%d", 100 + i);
  else if (nd[i].type == T_CA) P (quote ? "\"x%d\"" : "x%d", i);
  else P (quote ? "\"text%d\"" : "text%d", i);
}
static void
text (int f, int i)
{
  node_t * n = &nd[i];
  int k, first = 1, has_scalar = !is_tree (i) && !n->null;
#define KIDS(BEFORE) for (k = i + 1; k < nn; ++k) if (nd[k].parent == i) { if (!first) { BEFORE; } first = 0; text (f, k); }
  switch (f)
    {
    case F_CINIT:
      if (!n->element) P (".%s = ", n->name);
      if (n->id) P ("/* ref_idx = %d */ ", n->id);
      if (n->ref != NONE) P ("/* %s = %ld */ ", n->content ? "ref_content" : "ref", id_of (n->ref));
      if (n->null) P ("NULL");
      else if (has_scalar) scalar (i, 1);
      else { if (n->type == T_PTR) P ("(%s[])", ctype (n->to)); P ("{ "); KIDS (P (", ")); P (" }"); }
      break;
    case F_JSON:
      if (!n->element) P ("\"%s\": ", n->name);
      if (n->ref != NONE) P ("%s%ld", n->content ? "-" : "", n->ref == UNDEF ? 90001L : n->ref + 1);
      else if (n->null) P ("null");
      else if (has_scalar) scalar (i, 1);
      else { int obj = n->type == T_RN || n->type == T_RM; P (obj ? "{" : "["); KIDS (P (", ")); P (obj ? "}" : "]"); }
      break;
    case F_SCM:
      if (n->id) P ("\n;(ref_idx . %d)\n", n->id);
      if (n->ref != NONE) P ("\n;(%s . %ld)\n", n->content ? "ref_content" : "ref", id_of (n->ref));
      if (!n->element) P ("(%s . ", n->name);
      if (n->null) P ("nil");
      else if (has_scalar) scalar (i, 1);
      else { P ("("); KIDS (P (" ")); P (")"); }
      if (!n->element) P (")");
      break;
    case F_XML1: case F_XML2:
      if (i == 0) P ("<?xml version=\"1.0\"?>\n");
      P ("<%s", n->name);
      if (n->id) P (" ref_idx=\"%d\"", n->id);
      if (n->ref != NONE) P (" %s=\"%ld\"", n->content ? "ref_content" : "ref", id_of (n->ref));
      else if (n->null) P (" isnull=\"true\"");
      P (">");
      if (has_scalar) scalar (i, 0); else if (!n->null) KIDS (P ("\n"));
      P ("</%s>", n->name);
      break;
    case F_YAML:
      if (!n->element) P ("%s: ", n->name);
      if (n->null)
	{
	  if (n->id) mc_skip (); /* cannot be written */
	  if (n->ref != NONE) { if (n->content) P ("*ref_content_%ld ", id_of (n->ref)); else P ("*ref_idx_%ld ", id_of (n->ref)); } else P ("*isnull ");
	  break;
	}
      if (n->id) P ("&ref_idx_%d ", n->id);
      if (has_scalar) scalar (i, 0);
      else { int obj = n->type == T_RN || n->type == T_RM; P (obj ? "{" : "["); KIDS (P (", ")); P (obj ? "}" : "]"); }
      break;
    }
}

/* ---- the oracle ---- */
/* may a reference of node i lead there? */
static int string_of (int x, int depth, int * node);
static int
typed (int i)
{
  node_t * n = &nd[i], * r;
  if (n->ref == UNDEF) return (0);
  r = &nd[n->ref];
  if (n->content) return (r->type == T_STR && n->to == T_CA);
  if (n->to == T_INT) return (r->type == T_INT || r->type == T_AINT);
  if (n->to == T_RM) return (r->type == T_RM || r->type == T_ARM);
  return (r->type == n->to);
}
static char * at[MAXN];
static int done[MAXN];
static void * value_of (int i, int depth);
/* address of a node in the object loaded */
static char *
addr (int i)
{
  node_t * n = &nd[i];
  if (done[i]) return (at[i]);
  char * p = addr (n->parent);
  if (nd[n->parent].type == T_PTR) { p = *(char**)p; if (!p) mc_fail ("node %d (%s) is not there", i, n->name); }
  done[i] = 1;
  return (at[i] = p + n->off);
}
static void *
value_of (int i, int depth)
{
  node_t * n = &nd[i];
  if (!n->null) return (*(void**)addr (i));
  if (n->ref == NONE || !typed (i) || depth > MAXN) return (NULL);
  if (!n->content) return (addr (n->ref));
  return (value_of (n->ref, depth + 1));
}
static void
check (int f)
{
  int i, all = 1, chain = 0;
  dn = 0;
  text (f, 0);
  mc_note ("%s: %s", f_name[f], doc);
  mr_rarray_t ra = { .data = { doc }, .MR_SIZE = dn + 1, .alloc_size = sizeof (doc), .type = "string_t" };
  rn_t * obj = mem_new (sizeof (*obj));
  char * keep = mem_new (dn + 1), leak[200];
  memcpy (keep, doc, dn + 1);
  ra.data.ptr = keep;
  mr_status_t st = ops_rn_t.load (f, &ra, obj);
  for (i = 0; i < nn; ++i) if (nd[i].ref != NONE && !typed (i)) all = 0;
  if (st != MR_SUCCESS) { mc_assert (!all, "refused"); mc_assert (mem_leaks (leak, sizeof (leak)) == 2, "refused, and blocks are lost: %s", leak); mc_outcome (mc_hash (doc, dn, 1)); return; }
  memset (done, 0, sizeof (done));
  at[0] = (char*)obj; done[0] = 1;
  for (i = 1; i < nn; ++i)
    {
      node_t * n = &nd[i];
      char * a = addr (i);
      if (n->type == T_INT) mc_assert (*(int*)a == 100 + i, "node %d (%s) is %d", i + 1, n->name, *(int*)a);
      else if (n->type == T_CA) { char t[10]; sprintf (t, "x%d", i); mc_assert (!strcmp (a, t), "node %d (%s) is %s", i + 1, n->name, mc_quote (a, 4)); }
      else if (n->type == T_STR || n->type == T_PTR)
	{
	  char * v = *(char**)a, * must = value_of (i, 0);
	  if (n->null)
	    {
	      if (v != must)
		{
		  int k;
		  const char * where = "elsewhere";
		  static char buf[100];
		  for (k = 0; k < nn; ++k) if (done[k] && v == at[k]) { sprintf (buf, "node %d", k + 1); where = buf; break; }
		  mc_fail ("node %d (%s) %s %s", i + 1, n->name, v ? "leads to" : must ? "leads nowhere" : "", v ? where : "");
		}
	    }
	  else if (n->type == T_STR) { char t[20]; sprintf (t, "text%d", i); mc_assert (v && !strcmp (v, t), "node %d (%s) is %s", i + 1, n->name, v ? mc_quote (v, strlen (v)) : "null"); }
	  else mc_assert (v && mem_find (v) && (char*)mem_find (v)->ptr == v, "node %d (%s) has no block of its own", i + 1, n->name);
	}
    }
  ops_rn_t.free (obj);
  mc_assert (mem_leaks (leak, sizeof (leak)) == 2, "blocks are lost when freed: %s", leak);
  mc_outcome (mc_hash (doc, dn, 0));
}
/* numbers of the nodes referred to */
static void
number (int scheme)
{
  int i, k = 0, used[MAXN] = { 0 };
  for (i = 0; i < nn; ++i) nd[i].id = 0;
  for (i = 0; i < nn; ++i) if (nd[i].ref != NONE && nd[i].ref != UNDEF) used[nd[i].ref] = 1;
  for (i = 0; i < nn; ++i) if (used[i]) { ++k; nd[i].id = scheme == 0 ? k : scheme == 1 ? 50 - k : 1000 * (1 + k % 3) + 60 - k; }
}
static int slots (int * s) { int i, n = 0; for (i = 0; i < nn; ++i) if (is_slot (i)) s[n++] = i; return (n); }
/* one reference of any kind, from anywhere to anywhere */
static void
one (void)
{
  static const int shapes[] = { 0, SH_P, SH_P | SH_Q, SH_IP | SH_MP | SH_S, SH_P | SH_MP | SH_CP | SH_T, SH_Q | SH_IP | SH_S | SH_T, SH_UP | SH_S, 127 };
  int sh = mc_choose (8), in = mc_choose (2), s[MAXN], f = mc_choose (F_XDR), n, x, r;
  document (shapes[sh], in ? SH_IP | SH_MP | SH_S | SH_CP : 0);
  n = slots (s);
  x = s[mc_choose (n)];
  mc_shard ();
  r = mc_choose (nn + 1);
  nd[x].ref = r == nn ? UNDEF : r;
  nd[x].content = mc_choose (2);
  number (mc_choose (f == F_JSON ? 1 : 3));
  check (f);
}
/* what a reference of x may lead to, and one that it may not, and one undefined */
static int
targets (int x, int (*t)[2])
{
  int i, n = 0, bad = 0;
  for (i = 0; i < nn; ++i)
    {
      nd[x].ref = i;
      for (nd[x].content = 0; nd[x].content < 2; ++nd[x].content)
	if (typed (x)) { t[n][0] = i; t[n++][1] = nd[x].content; }
      if (!bad && nd[i].type == T_PTR) { bad = 1; t[n][0] = i; t[n++][1] = 0; }
    }
  t[n][0] = UNDEF; t[n++][1] = 0;
  nd[x].ref = NONE;
  nd[x].content = 0;
  return (n);
}
static void refer (int x) { int t[2 * MAXN][2], n = targets (x, t), k = mc_choose (n); nd[x].ref = t[k][0]; nd[x].content = t[k][1]; }
static void
two (void)
{
  static const int shapes[] = { SH_P | SH_S, SH_Q | SH_IP | SH_T | SH_CP, SH_UP | SH_MP, SH_P | SH_Q };
  int f = mc_choose (F_XDR), sh = mc_choose (mc_thorough ? 4 : 3), s[MAXN], n, x, y;
  document (shapes[sh], 0);
  n = slots (s);
  x = mc_choose (n - 1); y = x + 1 + mc_choose (n - 1 - x);
  mc_shard ();
  refer (s[x]); refer (s[y]);
  number (mc_choose (f == F_JSON ? 1 : 2));
  check (f);
}
/* references to and from text, chains of them too */
static void
texts (void)
{
  int f = mc_choose (F_XDR), sh = mc_choose (4), s[MAXN], n, i, k = 0, left = mc_thorough ? 6 : 5;
  document (SH_P | (sh & 1 ? SH_S : 0) | (sh & 2 ? SH_CP : 0), SH_T);
  n = slots (s);
  for (i = 0; i < n; ++i) if (nd[s[i]].to == T_CA && left) { --left; refer (s[i]); if (++k == 2) mc_shard (); }
  number (mc_choose (f == F_JSON ? 1 : 2));
  check (f);
}
/* several references at a time */
static void
many (void)
{
  int f = mc_choose (F_XDR), sh = mc_choose (2), s[MAXN], n, i, k = 0, left = mc_thorough ? 6 : 5;
  document (sh ? SH_Q | SH_UP : SH_P | SH_MP, sh ? SH_P : 0);
  n = slots (s);
  for (i = 0; i < n; ++i) if ((nd[s[i]].to == T_RN || nd[s[i]].to == T_RM) && left) { --left; refer (s[i]); if (++k == 2) mc_shard (); }
  number (mc_choose (f == F_JSON ? 1 : 2));
  check (f);
}
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (one), S (two), S (texts), S (many), { 0 } };
static void mc_setup (void) { z_setup (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
