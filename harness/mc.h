/*
  Exhaustive choice-sequence explorer for in-process harnesses.

  A scope is a function that asks mc_choose (n) for every nondeterministic decision. The explorer runs it once for
  every possible sequence of answers (depth first, odometer order), spreading the sequences over forked workers.
  The sequence being executed lives in shared memory, so when a worker crashes or hangs the parent knows exactly
  which execution did it, replays that one alone to confirm it, and lets the worker carry on with the next one.
*/
#ifndef MC_H
#define MC_H

#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <errno.h>
#include <time.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
extern size_t __sanitizer_get_current_allocated_bytes (void) __attribute__ ((weak));
#include <metaresc.h>

typedef struct mc_scope_t { const char * name; void (*run) (void); void (*init) (void); int single; } mc_scope_t;

static int mc_thorough; /* tier */

static int mc_choose (int n);                    /* a decision with n >= 1 alternatives: 0 .. n - 1 */
static int mc_choose_open (void);                /* a decision with a number of alternatives to be found out */
static void mc_limit (int pos);                  /* no further alternative after the current one at choice pos */
static int mc_pos (void);                        /* position of the next choice */
static void mc_shard (void);                     /* the choices up to here say which worker runs this execution */
static void mc_skip (void) __attribute__ ((noreturn)); /* not a case: abandon without counting */
static void mc_fail (const char * fmt, ...) __attribute__ ((noreturn, format (printf, 1, 2)));
static void mc_note (const char * fmt, ...) __attribute__ ((format (printf, 1, 2))); /* describe the current case */
static int mc_outcome (uint64_t hash);           /* record a distinct non-trivial case; 1 when it is new */
static int mc_state (uint64_t hash);             /* record a distinct state; 1 when it is new */
static uint64_t mc_hash (const void * data, size_t size, uint64_t seed);
#define mc_assert(COND, ...) do { if (!(COND)) mc_fail (__VA_ARGS__); } while (0)

#define MC_MAXCH 8192
#define MC_NOTE 4096
#define MC_MAXVIOL 6
#define MC_SETBITS 22

typedef struct {
  int scope;
  int nch;
  char desc[MC_NOTE];
  char note[MC_NOTE];
  int ch[MC_MAXCH];
} mc_viol_t;

typedef struct {
  volatile int pos, depth, running, finished, changed_from;
  int ch[MC_MAXCH], w[MC_MAXCH];
  long shard_counter;
  volatile unsigned long execs, evals;
  unsigned long transitions, traces, maxdepth;
  int capped;
  char note[MC_NOTE];
  char sample[MC_NOTE];
  unsigned long nsample;
  int nviol;
  mc_viol_t viol[MC_MAXVIOL];
  unsigned long known;
} mc_shared_t;

typedef struct { volatile uint64_t slot[1 << MC_SETBITS]; volatile unsigned long count; volatile int full; } mc_set_t;

static mc_shared_t * mc_sh;      /* of this worker */
static mc_set_t * mc_outcomes, * mc_states;
static int mc_me, mc_nshards;
static jmp_buf mc_jmp;
static const char * mc_known[64];
static int mc_nknown;
static char mc_samples[3][MC_NOTE];
static int mc_in_replay;
static char mc_replay_desc[MC_NOTE];
static int mc_inject_abort;

static uint64_t
mc_hash (const void * data, size_t size, uint64_t h)
{
  const unsigned char * p = data;
  h ^= 0xcbf29ce484222325ULL;
  while (size--)
    h = (h ^ *p++) * 0x100000001b3ULL;
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
  return (h);
}

static int
mc_set_add (mc_set_t * set, uint64_t h)
{
  uint64_t i;
  if (h == 0) h = 1;
  if (set->full) return (0);
  for (i = h;; ++i)
    {
      volatile uint64_t * s = &set->slot[i & ((1 << MC_SETBITS) - 1)];
      uint64_t v = *s;
      if (v == h) return (0);
      if (v == 0)
	{
	  if (__sync_bool_compare_and_swap (s, 0, h))
	    {
	      if (__sync_add_and_fetch (&set->count, 1) > (1 << MC_SETBITS) / 10 * 9)
		set->full = 1;
	      return (1);
	    }
	  if (*s == h) return (0);
	}
    }
}

static int mc_outcome (uint64_t h) { return (mc_set_add (mc_outcomes, h)); }
static int mc_state (uint64_t h) { return (mc_set_add (mc_states, h)); }
static int mc_pos (void) { return (mc_sh->pos); }

static void
mc_die (const char * msg)
{
  fprintf (stderr, "MC-INTERNAL: %s\n", msg);
  _exit (99);
}

/* a nested exploration within one execution: fn is called once for every sequence of its own decisions */
#define MC_SUBCH 256
static struct { int on, pos, depth, ch[MC_SUBCH], w[MC_SUBCH]; jmp_buf jmp; } mc_sub_;

static void
mc_sub (void (*fn) (void))
{
  int p;
  if (mc_sub_.on) mc_die ("nested exploration within a nested one");
  mc_sub_.on = 1;
  mc_sub_.depth = 0;
  do
    {
      mc_sub_.pos = 0;
      if (0 == setjmp (mc_sub_.jmp)) fn ();
      mc_sub_.depth = mc_sub_.pos;
      for (p = mc_sub_.depth - 1; p >= 0 && mc_sub_.ch[p] + 1 >= mc_sub_.w[p]; --p);
      if (p >= 0) { ++mc_sub_.ch[p]; mc_sub_.depth = p + 1; }
    }
  while (p >= 0);
  mc_sub_.on = 0;
}

static int
mc_choose (int n)
{
  int p = mc_sh->pos;
  if (mc_sub_.on)
    {
      p = mc_sub_.pos++;
      if (n <= 0) longjmp (mc_sub_.jmp, 1);
      if (p >= MC_SUBCH) mc_die ("too many choices in a nested exploration");
      if (p >= mc_sub_.depth) { mc_sub_.ch[p] = 0; mc_sub_.depth = p + 1; }
      mc_sub_.w[p] = n;
      return (mc_sub_.ch[p]);
    }
  if (n <= 0) mc_skip ();
  if (p >= MC_MAXCH - 1) mc_die ("too many choices");
  if (p < mc_sh->depth)
    {
      if (mc_sh->w[p] != n && !mc_in_replay)
	{
	  if (mc_sh->w[p] == 0) mc_sh->w[p] = n; else mc_die ("choice width differs while replaying a prefix");
	}
      if (mc_sh->ch[p] >= n) mc_die ("choice out of range");
    }
  else
    {
      mc_sh->ch[p] = 0;
      mc_sh->w[p] = n;
      mc_sh->depth = p + 1;
    }
  mc_sh->pos = p + 1;
  return (mc_sh->ch[p]);
}

static int mc_choose_open (void)
{
  int p = mc_sh->pos;
  if (p < mc_sh->depth && mc_sh->w[p] != INT_MAX)
    {
      /* already limited on the previous run */
      mc_sh->pos = p + 1;
      return (mc_sh->ch[p]);
    }
  return (mc_choose (INT_MAX));
}

static void mc_limit (int pos) { mc_sh->w[pos] = mc_sh->ch[pos] + 1; }

static void mc_skip (void) { if (mc_sub_.on) longjmp (mc_sub_.jmp, 1); longjmp (mc_jmp, 2); }

static void
mc_shard (void)
{
  if (mc_in_replay || mc_nshards <= 1) return;
  if (mc_sh->changed_from < mc_sh->pos) /* a prefix not seen before */
    ++mc_sh->shard_counter;
  mc_sh->changed_from = INT_MAX;
  if (mc_sh->shard_counter % mc_nshards != mc_me)
    {
      mc_sh->depth = mc_sh->pos; /* nothing below this prefix is ours */
      longjmp (mc_jmp, 3);
    }
}

static void
mc_note (const char * fmt, ...)
{
  va_list args;
  va_start (args, fmt);
  vsnprintf (mc_sh->note, sizeof (mc_sh->note), fmt, args);
  va_end (args);
}

static void
mc_note_add (const char * fmt, ...)
{
  va_list args;
  size_t len = strlen (mc_sh->note);
  va_start (args, fmt);
  vsnprintf (mc_sh->note + len, sizeof (mc_sh->note) - len, fmt, args);
  va_end (args);
}

static char mc_fail_desc[MC_NOTE];

static void
mc_fail (const char * fmt, ...)
{
  va_list args;
  va_start (args, fmt);
  vsnprintf (mc_fail_desc, sizeof (mc_fail_desc), fmt, args);
  va_end (args);
  mc_sub_.on = 0;
  longjmp (mc_jmp, 1);
}

/* ---------------------------------------------------------------------------------------------------------------- */

static mc_scope_t mc_scopes[];
static int mc_scope;

/* print arbitrary bytes as a C string literal body */
static char *
mc_quote (const char * s, size_t n)
{
  static char buf[8][2048];
  static int k;
  char * b = buf[k++ & 7], * o = b;
  size_t i;
  for (i = 0; i < n && o < b + 2000; ++i)
    {
      unsigned char c = s[i];
      if (c == '"' || c == '\\') { *o++ = '\\'; *o++ = c; }
      else if (c >= 32 && c < 127) *o++ = c;
      else o += sprintf (o, "\\x%02x", c);
    }
  *o = 0;
  return (b);
}

static int
mc_is_known (const char * desc, const char * note)
{
  char buf[2 * MC_NOTE + 64];
  int i;
  snprintf (buf, sizeof (buf), "%s: %s | %s", mc_scopes[mc_scope].name, desc, note);
  for (i = 0; i < mc_nknown; ++i)
    if (0 == fnmatch (mc_known[i], buf, 0))
      return (i + 1);
  return (0);
}

static void
mc_record (mc_shared_t * sh, const char * desc)
{
  int i;
  int known = mc_is_known (desc, sh->note);
  if (known)
    {
      sh->known |= 1UL << (known - 1);
      return;
    }
  if (sh->nviol >= MC_MAXVIOL) return;
  /* one per kind of failure and worker is enough, but keep the cap for different ones */
  for (i = 0; i < sh->nviol; ++i)
    if (0 == strncmp (sh->viol[i].desc, desc, 40))
      {
	++sh->viol[i].scope; /* unused counter */
	return;
      }
  mc_viol_t * v = &sh->viol[sh->nviol++];
  v->scope = mc_scope;
  v->nch = sh->depth < sh->pos ? sh->depth : sh->pos;
  memcpy (v->ch, sh->ch, sizeof (v->ch[0]) * v->nch);
  snprintf (v->desc, sizeof (v->desc), "%s", desc);
  snprintf (v->note, sizeof (v->note), "%s", sh->note);
}

/* next sequence in odometer order; 0 when there is none */
static int
mc_advance (mc_shared_t * sh)
{
  int p = sh->depth - 1;
  while (p >= 0 && (sh->w[p] == 0 || sh->ch[p] + 1 >= sh->w[p]))
    --p;
  if (p < 0) return (0);
  ++sh->ch[p];
  sh->depth = p + 1;
  if (p < sh->changed_from) sh->changed_from = p;
  return (1);
}

static double
mc_now (void)
{
  struct timespec ts;
  clock_gettime (CLOCK_MONOTONIC, &ts);
  return (ts.tv_sec + ts.tv_nsec * 1e-9);
}

static double mc_deadline;
static void (*mc_exec_begin) (void), (*mc_exec_end) (void);

/* runs the current sequence once; 0 = passed, 1 = failed, 2 = skipped, 3 = not ours */
static int
mc_once (void)
{
  int rc;
  mc_sh->pos = 0;
  mc_sh->note[0] = 0;
  rc = setjmp (mc_jmp);
  if (rc == 0)
    {
      mc_sh->running = 1;
      if (mc_exec_begin) mc_exec_begin ();
      mc_scopes[mc_scope].run ();
    }
  if (mc_exec_end) mc_exec_end ();
  mc_sh->running = 0;
  return (rc);
}

static void
mc_worker (void)
{
  unsigned n = 0;
  if (mc_scopes[mc_scope].init) mc_scopes[mc_scope].init ();
  for (;;)
    {
      int rc = mc_once ();
      if (mc_sh->pos > mc_sh->maxdepth) mc_sh->maxdepth = mc_sh->pos;
      if (rc < 2)
	{
	  /* keep a few cases for the evidence: the 1st, 10th, 100th ... of this worker */
	  if (++mc_sh->execs >= mc_sh->nsample && mc_sh->note[0])
	    {
	      mc_sh->nsample = mc_sh->execs * 10;
	      memcpy (mc_sh->sample, mc_sh->note, sizeof (mc_sh->sample));
	    }
	}
      if (rc == 1)
	{
	  mc_record (mc_sh, mc_fail_desc);
	  if (mc_sh->nviol >= MC_MAXVIOL) { mc_sh->capped = 2; break; }
	}
      if (rc != 3 && mc_sh->depth > mc_sh->pos)
	mc_sh->depth = mc_sh->pos;
      if (!mc_advance (mc_sh)) break;
      if ((++n & 15) == 0 && mc_now () > mc_deadline) { mc_sh->capped = 1; break; }
    }
  mc_sh->finished = 1;
  fflush (NULL);
  _exit (0);
}

static void
mc_redirect (const char * file)
{
  int fd = open (file, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { dup2 (fd, 2); close (fd); }
}

static void
mc_crash_desc (const char * file, int status, char * desc, size_t size)
{
  FILE * f = fopen (file, "r");
  char line[1024], frame[256] = "";
  snprintf (desc, size, "abnormal end (status %#x)", status);
  if (!f) return;
  while (fgets (line, sizeof (line), f))
    {
      char * p;
      if ((p = strstr (line, "SUMMARY: ")))
	{
	  p[strcspn (p, "\n")] = 0;
	  /* drop line numbers and directories: keep kind of error and function */
	  char kind[128] = "", * in = strstr (p, " in ");
	  sscanf (p, "SUMMARY: AddressSanitizer: %127s", kind);
	  snprintf (desc, size, "memory error: %s%s", kind, in ? in : "");
	}
      if ((p = strstr (line, "MC-INTERNAL")) || (p = strstr (line, "MC-ABORT")))
	{
	  p[strcspn (p, "\n")] = 0;
	  snprintf (desc, size, "%s", p);
	}
      if (0 == frame[0] && (p = strstr (line, " in ")) && strstr (line, "#") && strstr (line, "/src/"))
	sscanf (p, " in %255s", frame);
    }
  fclose (f);
}

static double
mc_cpu (pid_t pid)
{
  clockid_t c;
  struct timespec ts;
  if (clock_getcpuclockid (pid, &c) || clock_gettime (c, &ts)) return (0);
  return (ts.tv_sec + ts.tv_nsec * 1e-9);
}

/* run one given sequence in a fresh process; 0 = passes, 1 = fails (desc filled), 2 = skipped */
static int
mc_replay_one (const mc_viol_t * v, char * desc, size_t size, const char * file, double cpu_limit)
{
  pid_t pid;
  int status;
  mc_shared_t * sh = mmap (NULL, sizeof (*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->depth = v->nch;
  memcpy (sh->ch, v->ch, sizeof (v->ch[0]) * v->nch);
  fflush (NULL);
  pid = fork ();
  if (pid == 0)
    {
      mc_redirect (file);
      mc_sh = sh;
      mc_in_replay = 1;
      if (mc_scopes[mc_scope].init) mc_scopes[mc_scope].init ();
      int rc = mc_once ();
      if (rc == 1)
	snprintf (sh->viol[0].desc, sizeof (sh->viol[0].desc), "%s", mc_fail_desc);
      fprintf (stderr, "CASE: %s\nRESULT: %s\n", sh->note, rc == 1 ? mc_fail_desc : rc == 0 ? "ok" : "skipped");
      fflush (NULL);
      _exit (rc);
    }
  for (;;)
    {
      pid_t r = waitpid (pid, &status, WNOHANG);
      if (r == pid) break;
      if (mc_cpu (pid) > cpu_limit)
	{
	  kill (pid, SIGKILL);
	  waitpid (pid, &status, 0);
	  snprintf (desc, size, "hang: no result after %g s of processor time", cpu_limit);
	  FILE * f = fopen (file, "a");
	  if (f) { fprintf (f, "CASE: %s\nRESULT: %s\n", sh->note, desc); fclose (f); }
	  munmap (sh, sizeof (*sh));
	  return (1);
	}
      usleep (2000);
    }
  int rc;
  if (WIFEXITED (status) && WEXITSTATUS (status) == 0) rc = 0;
  else if (WIFEXITED (status) && WEXITSTATUS (status) == 1) { rc = 1; snprintf (desc, size, "%s", sh->viol[0].desc); }
  else if (WIFEXITED (status) && (WEXITSTATUS (status) == 2 || WEXITSTATUS (status) == 3)) rc = 2;
  else
    {
      rc = 1;
      mc_crash_desc (file, status, desc, size);
      FILE * f = fopen (file, "a");
      if (f) { fprintf (f, "CASE: %s\nRESULT: %s\n", sh->note, desc); fclose (f); }
    }
  munmap (sh, sizeof (*sh));
  return (rc);
}

static void
mc_json_str (FILE * f, const char * s)
{
  fputc ('"', f);
  for (; *s; ++s)
    if (*s == '"' || *s == '\\') fprintf (f, "\\%c", *s);
    else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) fprintf (f, "\\u%04x", (unsigned char)*s);
    else fputc (*s, f);
  fputc ('"', f);
}

static void mc_setup (void); /* provided by the harness: before any fork */

#define MC_HANG_CPU 30.0

static int
mc_main (int argc, char * argv[])
{
  const char * logdir = "/tmp", * only = NULL, * replay = NULL;
  double budget = 600;
  int i, s, nworkers = 8;
  long deaths = 0;

  for (i = 1; i < argc; ++i)
    {
      if (!strcmp (argv[i], "--thorough")) mc_thorough = 1;
      else if (!strcmp (argv[i], "--workers")) nworkers = atoi (argv[++i]);
      else if (!strcmp (argv[i], "--log")) logdir = argv[++i];
      else if (!strcmp (argv[i], "--scope")) only = argv[++i];
      else if (!strcmp (argv[i], "--budget")) budget = atof (argv[++i]);
      else if (!strcmp (argv[i], "--replay")) replay = argv[++i];
      else if (!strcmp (argv[i], "--known")) { if (mc_nknown < 64) mc_known[mc_nknown++] = argv[i + 1]; ++i; }
    }
  mc_outcomes = mmap (NULL, sizeof (mc_set_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mc_states = mmap (NULL, sizeof (mc_set_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mc_setup ();

  if (replay)
    {
      static mc_viol_t v;
      char desc[MC_NOTE] = "", file[4096];
      for (s = 0; mc_scopes[s].name; ++s) if (only && !strcmp (only, mc_scopes[s].name)) mc_scope = s;
      for (const char * p = replay; *p; )
	{
	  v.ch[v.nch++] = strtol (p, (char**)&p, 10);
	  if (*p == ',') ++p;
	}
      snprintf (file, sizeof (file), "%s/replay.%d", logdir, getpid ());
      int rc = mc_replay_one (&v, desc, sizeof (desc), file, 60);
      FILE * f = fopen (file, "r");
      char line[4096];
      while (f && fgets (line, sizeof (line), f)) fputs (line, stdout);
      if (f) fclose (f);
      unlink (file);
      return (rc == 1);
    }

  printf ("{\"scopes\": [");
  int nscopes = 0;
  double end = mc_now () + budget;
  int total = 0, left;
  for (s = 0; mc_scopes[s].name; ++s) if (!only || !fnmatch (only, mc_scopes[s].name, 0)) ++total;
  left = total;
  for (s = 0; mc_scopes[s].name; ++s)
    {
      if (only && fnmatch (only, mc_scopes[s].name, 0)) continue;
      mc_scope = s;
      mc_nshards = mc_scopes[s].single ? 1 : nworkers;
      double start = mc_now ();
      /* no scope may starve the ones after it */
      mc_deadline = start + (end - start) / left * (left > 1 ? 1.7 : 1.0);
      --left;
      unsigned long outcomes0 = mc_outcomes->count, states0 = mc_states->count;
      mc_shared_t * sh = mmap (NULL, sizeof (*sh) * mc_nshards, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pid_t pid[64];
      double cpu[64];
      unsigned long seen[64];
      char file[64][512];
      int alive = 0, kills = 0;
      fflush (NULL);
      for (i = 0; i < mc_nshards; ++i)
	{
	  snprintf (file[i], sizeof (file[i]), "%s/%d.%d.%d", logdir, getpid (), s, i);
	  sh[i].changed_from = 0;
	  sh[i].shard_counter = -1;
	  if (0 == (pid[i] = fork ()))
	    {
	      mc_redirect (file[i]);
	      mc_me = i;
	      mc_sh = &sh[i];
	      mc_worker ();
	    }
	  cpu[i] = 0; seen[i] = -1UL;
	  ++alive;
	}
      while (alive)
	{
	  int progress = 0;
	  for (i = 0; i < mc_nshards; ++i)
	    {
	      int status, hang = 0;
	      if (!pid[i]) continue;
	      pid_t r = waitpid (pid[i], &status, WNOHANG);
	      if (r == 0)
		{
		  double c = mc_cpu (pid[i]);
		  unsigned long e = sh[i].execs + sh[i].evals + sh[i].shard_counter;
		  if (e != seen[i]) { seen[i] = e; cpu[i] = c; continue; }
		  else if (c - cpu[i] > MC_HANG_CPU && sh[i].running)
		    {
		      kill (pid[i], SIGKILL);
		      waitpid (pid[i], &status, 0);
		      hang = 1;
		    }
		  else
		    continue;
		}
	      progress = 1;
	      if (sh[i].finished) { pid[i] = 0; --alive; unlink (file[i]); continue; }
	      /* died: the sequence in shared memory is the culprit */
	      ++deaths; ++kills;
	      char desc[MC_NOTE];
	      mc_sh = &sh[i];
	      ++sh[i].execs;
	      if (hang) snprintf (desc, sizeof (desc), "hang");
	      else mc_crash_desc (file[i], status, desc, sizeof (desc));
	      mc_record (&sh[i], desc);
	      if (sh[i].depth > sh[i].pos) sh[i].depth = sh[i].pos;
	      if (mc_scopes[s].single || sh[i].nviol >= MC_MAXVIOL || kills > 400 || !mc_advance (&sh[i]) || mc_now () > mc_deadline)
		{
		  if (sh[i].nviol >= MC_MAXVIOL || kills > 400 || mc_scopes[s].single) sh[i].capped = 2;
		  pid[i] = 0; --alive; unlink (file[i]);
		  continue;
		}
	      sh[i].running = 0;
	      fflush (NULL);
	      if (0 == (pid[i] = fork ()))
		{
		  mc_redirect (file[i]);
		  mc_me = i;
		  mc_sh = &sh[i];
		  mc_worker ();
		}
	      cpu[i] = 0; seen[i] = -1UL;
	    }
	  if (!progress) usleep (5000);
	}
      /* confirm every violation by a replay in a fresh process */
      unsigned long execs = 0, evals = 0, trans = 0, traces = 0, maxdepth = 0, known = 0;
      int capped = 0;
      printf ("%s\n {\"name\": \"%s\", \"violations\": [", nscopes++ ? "," : "", mc_scopes[s].name);
      int nv = 0, unconfirmed = 0;
      char done[32][48];
      int ndone = 0;
      for (i = 0; i < mc_nshards; ++i)
	{
	  execs += sh[i].execs; evals += sh[i].evals; trans += sh[i].transitions; traces += sh[i].traces; known |= sh[i].known;
	  if (sh[i].maxdepth > maxdepth) maxdepth = sh[i].maxdepth;
	  if (sh[i].capped > capped) capped = sh[i].capped;
	  for (int j = 0; j < sh[i].nviol; ++j)
	    {
	      mc_viol_t * v = &sh[i].viol[j];
	      char desc[MC_NOTE] = "", log[600];
	      int k;
	      for (k = 0; k < ndone; ++k) if (!strncmp (done[k], v->desc, 40)) break;
	      if (k < ndone || nv >= 8) continue;
	      snprintf (log, sizeof (log), "%s/viol.%d.%d.%d.%d", logdir, getpid (), s, i, j);
	      int rc = mc_replay_one (v, desc, sizeof (desc), log, strncmp (v->desc, "hang", 4) ? 120 : 2 * MC_HANG_CPU);
	      mc_sh = &sh[i];
	      if (rc != 1) { ++unconfirmed; fprintf (stderr, "UNCONFIRMED: %s: %s | %s\n", mc_scopes[s].name, v->desc, v->note); continue; }
	      if (mc_is_known (desc, v->note)) { known |= 1UL << (mc_is_known (desc, v->note) - 1); continue; }
	      if (ndone < 32) snprintf (done[ndone++], 48, "%.40s", v->desc);
	      printf ("%s\n  {\"desc\": ", nv++ ? "," : ""); mc_json_str (stdout, desc);
	      printf (", \"note\": "); mc_json_str (stdout, v->note);
	      printf (", \"log\": \"%s\", \"choices\": \"", log);
	      for (k = 0; k < v->nch; ++k) printf ("%s%d", k ? "," : "", v->ch[k]);
	      printf ("\"}");
	    }
	}
      printf ("], \"executions\": %lu, \"evaluations\": %lu, \"outcomes\": %lu, \"states\": %lu, \"transitions\": %lu, \"traces\": %lu, "
	      "\"max_choices\": %lu, \"capped\": %d, \"unconfirmed\": %d, \"known\": %lu, \"set_full\": %d, \"wall_s\": %.2f, \"samples\": [",
	      execs, evals, mc_outcomes->count - outcomes0, mc_states->count - states0, trans, traces,
	      maxdepth, capped, unconfirmed, known, mc_outcomes->full || mc_states->full, mc_now () - start);
      int ns = 0;
      for (i = 0; i < mc_nshards && ns < 2; i += 3)
	if (sh[i].sample[0])
	  {
	    printf ("%s", ns++ ? ", " : "");
	    mc_json_str (stdout, sh[i].sample);
	  }
      printf ("]}");
      fflush (stdout);
      munmap (sh, sizeof (*sh) * mc_nshards);
    }
  printf ("\n], \"worker_deaths\": %ld}\n", deaths);
  return (0);
}

#endif /* MC_H */
