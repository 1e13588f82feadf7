/* C19: first use by several threads at the same time, in every interleaving up to a number of preemptions. */
#include "mc.h"
#include "sched.h"

extern char ops_out[4][8192];
extern int ops_len[4];
extern struct { const char * name; void (*fn) (void); } ops[];
extern void ops_message (const char * file, const char * fn, int line, mr_log_level_t level, mr_message_id_t id, va_list args);
int sc_self (void) { return (sc_on ? sc_cur : SC_T); }

static int nops;

/* ---- decisions ---- */
static int SHARDS = 1; /* the first decision is split by remainders, so that workers share it */
static int left, pos_open = -1, until, in_search, first, residue;
/* the thread that runs from here on is preempted after a number of points found out as it goes; at the last it is not */
static void
sc_go (int to)
{
  if (pos_open >= 0) mc_limit (pos_open);
  pos_open = -1;
  if (!in_search || !left) return;
  pos_open = mc_pos ();
  until = mc_choose_open ();
  if (first) { until = residue + SHARDS * until; first = 0; }
}
static int
sc_preempt (int t)
{
  if (pos_open < 0 || until-- > 0) return (0);
  --left;
  pos_open = -1;
  return (1);
}
static int sc_next (const int * ready, int n) { return (in_search ? mc_choose (n) : 0); }
static void
sc_fail (const char * fmt, ...)
{
  static char desc[MC_NOTE];
  va_list args;
  va_start (args, fmt);
  vsnprintf (desc, sizeof (desc), fmt, args);
  va_end (args);
  sc_on = 0;
  mc_fail ("%s", desc);
}
/* ---- one execution ---- */
static int todo[SC_T];
static void thread (int t) { if (todo[t] >= 0) ops[todo[t]].fn (); }
static void
execute (int n)
{
  static void (*fn[SC_T]) (int) = { thread, thread, thread };
  sc_restore ();
  pos_open = -1;
  sc_run (n, fn);
  if (pos_open >= 0) mc_limit (pos_open);
  pos_open = -1;
}
/* what every operation says in a program of its own, as each of the threads */
static char (*alone)[SC_T][8192];
static void
references (void)
{
  static int i, t;
  jmp_buf keep;
  sc_snapshot ();
  for (nops = 0; ops[nops].name; ++nops);
  alone = calloc (nops, sizeof (*alone));
  in_search = 0;
  memcpy (keep, mc_jmp, sizeof (keep));
  for (i = 0; i < nops; ++i)
    for (t = 0; t < 3; ++t)
      {
	todo[0] = todo[1] = todo[2] = -1;
	todo[t] = i;
	if (setjmp (mc_jmp)) { snprintf (alone[i][t], sizeof (alone[i][t]), "FAILED: %s", mc_fail_desc); continue; }
	execute (t + 1);
	memcpy (alone[i][t], ops_out[t], sizeof (alone[i][t]));
	if (getenv ("C19_SHOW")) dprintf (open (getenv ("C19_SHOW"), O_WRONLY | O_APPEND | O_CREAT, 0600), "%s: %s\n  points %d live %ld\n", ops[i].name, alone[i][t], sc_points, sc_live);
      }
  memcpy (mc_jmp, keep, sizeof (keep));
}
static void
warm (void)
{
  mr_get_td_by_name ("ot_t");
  references ();
}
static void
explore (int n, int bound)
{
  static int last[SC_T] = { -1 };
  static long live[2];
  int i;
  char note[200] = "";
  in_search = 0;
  pos_open = -1;
  for (i = 0; i < n; ++i) sprintf (note + strlen (note), "%s%s", i ? " | " : "", ops[todo[i]].name);
  mc_note ("%s", note);
  for (i = 0; i < n; ++i) if (!strncmp (alone[todo[i]][i], "FAILED: ", 8)) mc_fail ("%s alone: %s", ops[todo[i]].name, alone[todo[i]][i] + 8);
  residue = mc_choose (SHARDS);
  mc_shard ();
  if (memcmp (last, todo, n * sizeof (todo[0])))
    {
      /* one after the other, in both orders */
      int t[SC_T];
      memcpy (t, todo, sizeof (t));
      execute (n); live[0] = sc_live;
      for (i = 0; i < n; ++i) todo[i] = t[n - 1 - i];
      execute (n); live[1] = sc_live;
      memcpy (todo, t, sizeof (t));
      memcpy (last, todo, n * sizeof (todo[0]));
    }
  left = bound; first = 1; in_search = 1;
  execute (n);
  in_search = 0;
  mc_note ("%s, %d points, %d switches", note, sc_points, sc_switches);
  for (i = 0; i < n; ++i) if (strcmp (ops_out[i], alone[todo[i]][i]))
    {
      int k;
      for (k = 0; ops_out[i][k] == alone[todo[i]][i][k]; ++k);
      k = k > 20 ? k - 20 : 0;
      mc_fail ("%s says %.60s instead of %.60s", ops[todo[i]].name, ops_out[i] + k, alone[todo[i]][i] + k);
    }
  mc_assert (sc_live == live[0] || sc_live == live[1], "%ld blocks are kept instead of %ld", sc_live, live[0]);
  mc_sh->transitions += sc_points;
  mc_outcome (mc_hash (note, strlen (note), mc_hash (mc_sh->ch, mc_sh->pos * sizeof (mc_sh->ch[0]), 0)));
}
static void
pairs (int bound)
{
  todo[0] = mc_choose (nops);
  todo[1] = todo[0] + mc_choose (nops - todo[0]);
  explore (2, bound);
}
static int
named (const char * name)
{
  int i;
  for (i = 0; i < nops && strcmp (ops[i].name, name); ++i);
  return (i);
}
static void
triples (int bound)
{
  static const char * some[] = { "types", "save_JSON", "load_CINIT", "functions", "value", "load_XML1", "collection", "hash" };
  int n = mc_thorough ? 8 : 5, a = mc_choose (n), b = a + mc_choose (n - a), c = b + mc_choose (n - b);
  todo[0] = named (some[a]); todo[1] = named (some[b]); todo[2] = named (some[c]);
  explore (3, bound);
}
/* the bare first call, in two and three threads, with many preemptions */
static void
deep (int two, int three)
{
  static const char * some[] = { "hash", "message", "load_JSON", "load_SCM", "load_XML1", "load_CINIT", "functions" };
  int n = 2 + mc_choose (2), i, k = mc_choose (7);
  for (i = 0; i < n; ++i) todo[i] = named (some[k]);
  SHARDS = 8;
  explore (n, n == 2 ? two : three);
  SHARDS = 1;
}
static void cold_deep (void) { mc_thorough ? deep (4, 2) : deep (2, 1); }
static void hot_deep (void) { mc_thorough ? deep (4, 2) : deep (3, 1); }
static void cold (void) { pairs (mc_thorough ? 2 : 1); }
static void cold3 (void) { triples (mc_thorough ? 2 : 1); }
static void hot (void) { pairs (mc_thorough ? 2 : 1); }
static void hot3 (void) { triples (mc_thorough ? 2 : 1); }
static mc_scope_t mc_scopes[] = { { "cold", cold, references }, { "cold3", cold3, references }, { "cold_deep", cold_deep, references }, { "warm", hot, warm }, { "warm3", hot3, warm }, { "warm_deep", hot_deep, warm }, { 0 } };
static void mc_setup (void) { sc_setup (); mr_conf.msg_handler = ops_message; }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
