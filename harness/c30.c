/* C30: a pointer to a function comes back as a pointer to the same function. */
#include "graphs.h"
#include "values.h"
#include "funcs.h"

extern const char * mr_serialize_func (void * func);
TYPEDEF_STRUCT (fh_t,
		(int, before),
		(int, fp, (int)),
		(vfn_t, fn),
		(vfn_t, arr, [2]),
		(vfn_t *, one),
		(vfn_t *, dyn, , , { .offset = offsetof (fh_t, ndyn) }, "offset"),
		(ssize_t, ndyn),
		(int, after))
Z_OPS (fh_t)
Z_OPS (vfn_t)

/* the memory of names lives as long as the process: what depends on it runs in a process of its own, where it is empty */
static char * said;
static void
isolated (void (*f) (void *), void * arg)
{
  int status;
  if (!said) said = mmap (NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  said[0] = 0;
  fflush (NULL);
  pid_t pid = fork ();
  if (0 == pid)
    {
      alarm (20);
      if (0 == setjmp (mc_jmp)) { f (arg); _exit (0); }
      snprintf (said, 4000, "%s", mc_fail_desc);
      _exit (1);
    }
  waitpid (pid, &status, 0);
  if (!WIFEXITED (status) || WEXITSTATUS (status) != 0)
    mc_fail ("%s", said[0] ? said : "the process dies");
}

/* names that C-initializer input takes for numbers: known findings name them one by one */
static const char * like_number;
static void
named (const char * name)
{
  static const char * const num[] = { "nan", "NaN", "NAN", "inf", "INF", "infinity", "INFINITY", "I", "i" };
  unsigned i;
  like_number = NULL;
  for (i = 0; i < sizeof (num) / sizeof (num[0]); ++i) if (!strcmp (name, num[i])) like_number = num[i];
}
static int hidden_one (int x) { return (x + 40); }
static int hidden_two (int x) { return (x + 41); }

#define PLACES 7
static fh_t *
holder (void)
{
  fh_t * x = mem_new (sizeof (*x));
  x->before = 11; x->after = -12;
  return (x);
}
static void
put (fh_t * x, int place, vfn_t f)
{
  switch (place)
    {
    case 0: x->fp = f; break;
    case 1: x->fn = f; break;
    case 2: x->arr[0] = f; break;
    case 3: x->arr[1] = f; break;
    case 4: x->one = mem_new (sizeof (vfn_t)); *x->one = f; break;
    case 5: x->dyn = mem_new (3 * sizeof (vfn_t)); x->ndyn = 3 * sizeof (vfn_t); x->dyn[0] = f; x->dyn[2] = f; break;
    default: x->fp = x->fn = x->arr[0] = x->arr[1] = f; break;
    }
}
static void
same (fh_t * x, fh_t * y, const char * how)
{
  int i;
  mc_assert (y->before == x->before && y->after == x->after, "%s: a neighbour has changed", how);
#define SAME(M) mc_assert (y->M == x->M, "%s: %s is %p, must be %p", how, #M, y->M, x->M)
  SAME (fp); SAME (fn); SAME (arr[0]); SAME (arr[1]);
  mc_assert (!x->one == !y->one && x->ndyn == y->ndyn && !x->dyn == !y->dyn, "%s: a pointer is lost", how);
  if (x->one) SAME (one[0]);
  for (i = 0; i < (int)(x->ndyn / sizeof (vfn_t)); ++i) SAME (dyn[i]);
}
static void
through (int fmt, fh_t * x)
{
  fh_t * y = mem_new (sizeof (*y));
  if (fmt == F_N)
    {
      mc_assert (MR_SUCCESS == ops_fh_t.copy (x, y), "copy failed");
      same (x, y, "copy");
      mc_assert (0 == ops_fh_t.cmp (x, y) && ops_fh_t.hash (x) == ops_fh_t.hash (y), "the copy is another object");
    }
  else
    {
      memset (y, 0xA5, sizeof (*y));
      mr_rarray_t ra = ops_fh_t.save (fmt, x);
      mc_assert (ra.data.ptr != NULL, "%s: save failed", f_name[fmt]);
      char * text = fmt == F_XDR ? NULL : strdup (ra.data.ptr);
      mr_status_t st = ops_fh_t.load (fmt, &ra, y);
      if (like_number && fmt == F_CINIT) mc_assert (st == MR_SUCCESS && x->fp == y->fp && x->fn == y->fn && x->arr[0] == y->arr[0] && x->arr[1] == y->arr[1], "cinit: a function with the name %s is taken for a number", like_number);
      mc_assert (st == MR_SUCCESS, "%s: load failed: %s", f_name[fmt], text ? text : "");
      same (x, y, f_name[fmt]);
      mc_outcome (mc_hash (text ? text : (char*)x, text ? strlen (text) : sizeof (*x), fmt));
      free (text);
      z_drop (&ra);
    }
  mc_assert (MR_SUCCESS == ops_fh_t.free (y), "free failed");
}
/* functions with a name, at every place */
static void
names (void)
{
  int k = mc_choose (MCF_N), place = mc_choose (PLACES), fmt = mc_choose (F_N + 1);
  mr_conf.cache_func_resolve = mc_choose (2);
  mc_shard ();
  mc_note ("%s %.80s (%zu characters), at place %d", fmt == F_N ? "copy" : f_name[fmt], mcf_name[k], strlen (mcf_name[k]), place);
  fh_t * x = holder ();
  named (mcf_name[k]);
  put (x, place, (vfn_t)mcf[k]);
  through (fmt, x);
}
/* the function itself is the object */
static void
roots (void)
{
  int k = mc_choose (MCF_N + 4), fmt = mc_choose (F_N);
  mr_conf.cache_func_resolve = mc_choose (2);
  mc_shard ();
  vfn_t f = k < MCF_N ? (vfn_t)mcf[k] : k == MCF_N ? NULL : k == MCF_N + 1 ? hidden_one : k == MCF_N + 2 ? (vfn_t)abs : (vfn_t)((char*)hidden_one + 1), g = (vfn_t)-1;
  mc_note ("%s %.80s %p", f_name[fmt], k < MCF_N ? mcf_name[k] : "", f);
  mr_rarray_t ra = ops_vfn_t.save (fmt, &f);
  mc_assert (ra.data.ptr != NULL, "%s: save failed", f_name[fmt]);
  mr_status_t st = ops_vfn_t.load (fmt, &ra, &g);
  named (k < MCF_N ? mcf_name[k] : "");
  if (like_number && fmt == F_CINIT) mc_assert (st == MR_SUCCESS && g == f, "cinit: a function with the name %s is taken for a number", like_number);
  mc_assert (st == MR_SUCCESS, "%s: load failed", f_name[fmt]);
  mc_assert (g == f, "%s: %p, must be %p", f_name[fmt], g, f);
  z_drop (&ra);
  mc_outcome (mc_hash (&f, sizeof (f), fmt));
}
typedef struct { int fmt, again; fh_t * x; } crowd_t;
static void
crowd (void * arg)
{
  crowd_t * c = arg;
  through (c->fmt, c->x);
  if (c->again == 2) mr_conf.cache_func_resolve ^= 1;
  if (c->again) through (c->fmt, c->x);
}
/* many different ones in one object, in an order, with the memory of names in any state */
static void
crowds (void)
{
  static const int sizes[] = { 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 100, MCF_N };
  int n = sizes[mc_choose (15)], order = mc_choose (4), fmt = mc_choose (F_N), again = mc_choose (3), i;
  mr_conf.cache_func_resolve = mc_choose (2);
  mc_shard ();
  mc_note ("%s %d functions in order %d", f_name[fmt], n, order);
  fh_t * x = holder ();
  x->dyn = mem_new (n * sizeof (vfn_t)); x->ndyn = n * sizeof (vfn_t);
  for (i = 0; i < n; ++i)
    {
      int k = order == 0 ? i : order == 1 ? MCF_N - 1 - i : order == 2 ? i * 37 % MCF_N : i / 2;
      named (mcf_name[k]);
      x->dyn[i] = (order == 2 && i % 5 == 4) || (fmt == F_CINIT && like_number) ? hidden_one : (vfn_t)mcf[k];
    }
  like_number = NULL;
  crowd_t c = { fmt, again, x };
  isolated (crowd, &c);
  mc_outcome (mc_hash (x->dyn, x->ndyn, fmt * 8 + again));
}
/* every sequence of questions about four functions to the memory of names, switched on and off in between */
static int asked[16], n_asked;
static void
ask (void * arg)
{
  static const vfn_t f[] = { (vfn_t)mcf_3, hidden_one, (vfn_t)mcf_70, (vfn_t)NULL };
  int i;
  for (i = 0; i < n_asked; ++i)
    {
      int k = asked[i] & 3;
      mr_conf.cache_func_resolve = asked[i] >> 2;
      const char * want = k == 0 ? mcf_name[3] : k == 2 ? mcf_name[70] : NULL;
      const char * got = mr_serialize_func (f[k]);
      mc_assert (!want == !got && (!want || !strcmp (want, got)), "after %d questions the name is %s, must be %s", i, got ? got : "none", want ? want : "none");
    }
}
static void
memory (void)
{
  char note[200] = "";
  int i;
  n_asked = mc_thorough ? 5 : 4;
  for (i = 0; i < n_asked; ++i)
    {
      asked[i] = mc_choose (8);
      sprintf (note + strlen (note), " %d%s", asked[i] & 3, asked[i] >> 2 ? "" : "-");
      if (i == 1) mc_shard ();
    }
  mc_note ("%s", note);
  isolated (ask, NULL);
  mc_outcome (mc_hash (note, strlen (note), 0));
}
/* the others: all functions are remembered beforehand */
static const uintptr_t odd[] = { 0, 1, 9, 10, 077, 0777777, 0x7fffffffUL, 0x80000000UL, 0xffffffffUL, 0x100000000UL, INTPTR_MAX, (uintptr_t)INTPTR_MAX + 1, UINTPTR_MAX, UINTPTR_MAX - 1, 0xabcdef, 0xe1, 0x1e5, 0xdeadbeef };
#define N_ADDR (128 + (int)(sizeof (odd) / sizeof (odd[0])) + 5)
static uintptr_t
address (int k)
{
  if (k < 64) return (1UL << k);
  if (k < 128) return (~0UL >> (k - 64));
  k -= 128;
  if (k < (int)(sizeof (odd) / sizeof (odd[0]))) return (odd[k]);
  switch (k - (int)(sizeof (odd) / sizeof (odd[0])))
    {
    case 0: return ((uintptr_t)hidden_one);
    case 1: return ((uintptr_t)hidden_two);
    case 2: return ((uintptr_t)hidden_one + 1);
    case 3: return ((uintptr_t)abs);
    default: return ((uintptr_t)mcf[3] + 1);
    }
}
/* what has no name goes by its address: local functions, addresses inside of functions, numbers */
static void
addresses (void)
{
  int k = mc_choose (N_ADDR), place = mc_choose (PLACES), fmt = mc_choose (F_N + 1);
  mr_conf.cache_func_resolve = mc_choose (2);
  mc_shard ();
  uintptr_t v = address (k);
  mc_note ("%s address %#lx, at place %d", fmt == F_N ? "copy" : f_name[fmt], v, place);
  fh_t * x = holder ();
  named ("");
  put (x, place, (vfn_t)v);
  through (fmt, x);
}
static void
warm (void)
{
  int i;
  mr_conf.cache_func_resolve = true;
  for (i = 0; i < MCF_N; ++i) mr_serialize_func (mcf[i]);
  for (i = 0; i < N_ADDR; ++i) mr_serialize_func ((void*)address (i));
}
#define S(N) { #N, N }
#define W(N) { #N, N, warm }
static mc_scope_t mc_scopes[] = { W (names), W (roots), W (addresses), S (crowds), S (memory), { 0 } };
static void mc_setup (void) { z_setup (); fh_t x; memset (&x, 0, sizeof (x)); x.fp = v_func_one; mr_rarray_t ra = ops_fh_t.save (F_CINIT, &x); z_drop (&ra); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
