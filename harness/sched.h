/*
  Threads of the program under test as coroutines of one process, switched only where this file says so.

  The library is compiled for the thread sanitizer but linked with the functions below, so that every access to memory
  reports here. A switch may happen at every operation on shared state that can order threads (atomics, volatile accesses,
  mutexes, once-controls, yields); every other access is checked by vector clocks to be ordered with all conflicting ones.
  When no execution has an unordered conflict, switching at the ordering operations alone covers all interleavings
  (the rest of the accesses commute). A write that leaves the value as it is conflicts with nothing.
*/
#ifndef SCHED_H
#define SCHED_H
#include <ucontext.h>
#include <dlfcn.h>
#include <sched.h>

/* the harness itself calls the C library directly */
#define REAL(T, NAME, ARGS) extern T __real_##NAME ARGS;
REAL (void *, memset, (void *, int, size_t)) REAL (void *, memcpy, (void *, const void *, size_t)) REAL (void *, memmove, (void *, const void *, size_t))
REAL (int, memcmp, (const void *, const void *, size_t)) REAL (size_t, strlen, (const char *)) REAL (int, strcmp, (const char *, const char *))
REAL (int, strncmp, (const char *, const char *, size_t)) REAL (char *, strcpy, (char *, const char *)) REAL (char *, strchr, (const char *, int))
#define memset __real_memset
#define memcpy __real_memcpy
#define memmove __real_memmove
#define memcmp __real_memcmp
#define strlen __real_strlen
#define strcmp __real_strcmp
#define strncmp __real_strncmp
#define strcpy __real_strcpy
#define strchr __real_strchr

#define SC_T 3
#define SC_STACK (1 << 20)
#define SC_ARENA (6 << 20)
enum { SC_READY, SC_DONE };

typedef struct {
  int state, spin;      /* SC_*, waits for a change of spin_addr */
  uintptr_t spin_addr;
  uint64_t spin_value;
  int spin_count;
  unsigned long steps;
  uint32_t vc[SC_T], fence[SC_T], pend[SC_T];
  ucontext_t ctx;
  char * stack;
  void (*fn) (int);
} sc_thread_t;
static sc_thread_t sc_t[SC_T];
static int sc_n, sc_cur = -1, sc_on, sc_points, sc_preempted, sc_switches;
static ucontext_t sc_main;
static char * sc_stacks;
static uint32_t sc_no[SC_T];

/* what the explorer decides: 1 = the running thread is preempted at this point */
static int sc_preempt (int t);
static int sc_next (const int * ready, int n);  /* which of the ready threads goes on */
static void sc_go (int to);                      /* told whenever a thread starts or goes on */
static void sc_fail (const char * fmt, ...) __attribute__ ((noreturn, format (printf, 1, 2)));

/* ---- shadow of the static data of the program and of the arenas ---- */
typedef struct { uint16_t w[SC_T], r[SC_T]; uint8_t written, freed; } sc_byte_t;
/* who did the last access to these eight bytes, and which of them: the same access again by the same thread, with nothing in between, tells nothing new */
typedef struct { uint32_t r, w; uint8_t rm, wm; } sc_gran_t;
typedef struct { uintptr_t from, to; sc_byte_t * s; sc_gran_t * g; } sc_range_t;
static sc_range_t sc_range[4];
static int sc_nrange;
extern char sc_data_from[], sc_bss_from[], _edata, _end;
static void
sc_add_range (void * from, size_t size)
{
  sc_range_t * r = &sc_range[sc_nrange++];
  r->from = (uintptr_t)from;
  r->to = r->from + size;
  r->from &= ~(uintptr_t)7;
  size = r->to - r->from;
  r->g = mmap (NULL, (size / 8 + 2) * sizeof (*r->g), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  r->s = mmap (NULL, size * sizeof (*r->s), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static inline sc_range_t *
sc_where (uintptr_t a)
{
  int i;
  for (i = 0; i < sc_nrange; ++i) if (a >= sc_range[i].from && a < sc_range[i].to) return (&sc_range[i]);
  return (NULL);
}
static sc_byte_t * sc_shadow (uintptr_t a) { sc_range_t * r = sc_where (a); return (r ? &r->s[a - r->from] : NULL); }
/* ---- allocations: every thread has its own arena, nothing is used again ---- */
typedef struct { size_t size; unsigned magic, live; } sc_block_t;
static char * sc_arena;
static size_t sc_used[SC_T + 1];
static long sc_live, sc_live_bytes;
#define SC_MAGIC 0x5ca11ed
static void *
sc_alloc (size_t size)
{
  int t = sc_on ? sc_cur : SC_T;
  size_t need = (size + 32 + 15) & ~(size_t)15;
  sc_block_t * b = (void*)(sc_arena + (size_t)t * SC_ARENA + sc_used[t]);
  if (sc_used[t] + need > SC_ARENA) return (NULL);
  sc_used[t] += need;
  b->size = size; b->magic = SC_MAGIC; b->live = 1;
  ++sc_live; sc_live_bytes += size;
  return (b + 1);
}
static void
sc_free (void * p)
{
  sc_block_t * b = (sc_block_t*)p - 1;
  size_t i;
  if (!p) return;
  if ((char*)p < sc_arena || (char*)p >= sc_arena + (SC_T + 1) * (size_t)SC_ARENA || b->magic != SC_MAGIC) sc_fail ("release of something that was never allocated");
  if (!b->live) sc_fail ("released twice");
  b->live = 0;
  --sc_live; sc_live_bytes -= b->size;
  sc_range_t * r = sc_where ((uintptr_t)p);
  sc_byte_t * s = &r->s[(uintptr_t)p - r->from];
  for (i = 0; i < b->size; ++i) s[i].freed = 1;
  memset (&r->g[((uintptr_t)p - r->from) / 8], 0, (b->size / 8 + 1) * sizeof (*r->g));
}
static void * sc_m_calloc (const char * f, const char * fn, int l, size_t n, size_t s) { return (sc_alloc (n * s)); /* fresh memory is zero */ }
static void sc_m_free (const char * f, const char * fn, int l, void * p) { sc_free (p); }
static void *
sc_m_realloc (const char * f, const char * fn, int l, void * p, size_t s)
{
  void * q = sc_alloc (s);
  if (p && q) { sc_block_t * b = (sc_block_t*)p - 1; memcpy (q, p, b->size < s ? b->size : s); sc_free (p); }
  return (q);
}

/* ---- who is where ---- */
static const char *
sc_name (uintptr_t a)
{
  static char buf[200];
  Dl_info info;
  if ((char*)a >= sc_arena && (char*)a < sc_arena + (SC_T + 1) * (size_t)SC_ARENA) return ("a block");
  memset (&info, 0, sizeof (info));
  if (dladdr ((void*)a, &info) && info.dli_sname) snprintf (buf, sizeof (buf), "%s+%ld", info.dli_sname, (long)(a - (uintptr_t)info.dli_saddr));
  else snprintf (buf, sizeof (buf), "static data");
  return (buf);
}

/* ---- switching ---- */
static void
sc_switch (int to)
{
  int from = sc_cur;
  if (to == from) return;
  ++sc_switches;
  sc_cur = to;
  sc_t[to].spin = 0;
  sc_go (to);
  if (swapcontext (&sc_t[from].ctx, &sc_t[to].ctx)) abort ();
}
static int
sc_others (int * ready)
{
  int i, n = 0;
  for (i = 0; i < sc_n; ++i) if (i != sc_cur && sc_t[i].state == SC_READY && !sc_t[i].spin) ready[n++] = i;
  return (n);
}
static void sc_wake (void) { int i; for (i = 0; i < sc_n; ++i) if (i != sc_cur) sc_t[i].spin = 0; }
/* the running thread can't go on before another one did something */
static void
sc_yield (void)
{
  int ready[SC_T], n = sc_others (ready), i;
  if (!n)
    {
      for (i = 0; i < sc_n; ++i) if (i != sc_cur && sc_t[i].state == SC_READY) ready[n++] = i;
      if (!n)
	{
	  if (sc_t[sc_cur].steps > 60000000) sc_fail ("thread %d waits for ever", sc_cur);
	  return;
	}
      for (i = 0; i < n; ++i) sc_t[ready[i]].spin = 0;
    }
  sc_t[sc_cur].spin = 1;
  sc_switch (ready[n > 1 ? sc_next (ready, n) : 0]);
}
/* a place where the running thread may be preempted */
static void
sc_point (void)
{
  int ready[SC_T], n;
  if (!sc_on) return;
  ++sc_points;
  n = sc_others (ready);
  if (n && sc_preempt (sc_cur)) { ++sc_preempted; sc_switch (ready[n > 1 ? sc_next (ready, n) : 0]); }
}
/* ---- accesses ---- */
static void
sc_step (void)
{
  sc_thread_t * t = &sc_t[sc_cur];
  if (++t->steps % 4000000 == 0)
    {
      int i, all = 1;
      for (i = 0; i < sc_n; ++i) if (sc_t[i].state == SC_READY && sc_t[i].steps < 40000000) all = 0;
      if (all || t->steps > 200000000) sc_fail ("threads do not come to an end");
      sc_yield ();
    }
}
static inline int sc_mine (uintptr_t a) { return (a >= (uintptr_t)sc_t[sc_cur].stack && a < (uintptr_t)sc_t[sc_cur].stack + SC_STACK); }
static void
sc_check (sc_byte_t * s, uintptr_t a, int write)
{
  int i, ok = !s->written, who = 0;
  sc_thread_t * t = &sc_t[sc_cur];
  if (s->freed) sc_fail ("thread %d %s memory that was released", sc_cur, write ? "writes to" : "reads");
  for (i = 0; i < sc_n; ++i) if (s->w[i]) { if (s->w[i] <= t->vc[i]) ok = 1; else who = i; }
  if (!ok) sc_fail ("%s is %s by thread %d, unordered with the write of it by thread %d", sc_name (a), write ? "written" : "read", sc_cur, who);
  if (write)
    for (i = 0; i < sc_n; ++i) if (s->r[i] > t->vc[i] && i != sc_cur)
      sc_fail ("%s is written by thread %d, unordered with the read of it by thread %d", sc_name (a), sc_cur, i);
}
static inline uint32_t sc_epoch (void) { return ((uint32_t)(sc_cur + 1) << 24 | sc_t[sc_cur].vc[sc_cur]); }
static void
sc_read (uintptr_t a, size_t size)
{
  sc_range_t * r;
  if (!sc_on) return;
  sc_t[sc_cur].spin_count = 0;
  sc_step ();
  if (sc_mine (a) || !(r = sc_where (a))) return;
  while (size)
    {
      size_t off = a - r->from, n = 8 - off % 8, i;
      if (n > size) n = size;
      sc_gran_t * g = &r->g[off / 8];
      uint8_t m = ((1 << n) - 1) << off % 8;
      if (!(g->r == sc_epoch () && (g->rm & m) == m))
	{
	  sc_byte_t * s = &r->s[off];
	  for (i = 0; i < n; ++i, ++s) { if (s->written || s->freed) sc_check (s, a + i, 0); s->r[sc_cur] = sc_t[sc_cur].vc[sc_cur]; }
	  if (g->r == sc_epoch ()) g->rm |= m; else { g->r = sc_epoch (); g->rm = m; }
	  if (g->w != sc_epoch ()) g->w = 0;
	}
      a += n; size -= n;
    }
}
/* The value to be written is known only after the write: it is compared at the next event of the thread. */
static struct { uintptr_t a; size_t size; unsigned char old[64]; } sc_pending[SC_T];
static void
sc_settle (int t)
{
  uintptr_t a = sc_pending[t].a;
  size_t size = sc_pending[t].size, i;
  unsigned char * old = sc_pending[t].old;
  if (!a) return;
  sc_pending[t].a = 0;
  sc_range_t * r = sc_where (a);
  while (size)
    {
      size_t off = a - r->from, n = 8 - off % 8;
      if (n > size) n = size;
      sc_gran_t * g = &r->g[off / 8];
      uint8_t m = ((1 << n) - 1) << off % 8;
      if (!(g->w == sc_epoch () && (g->wm & m) == m && (!g->r || g->r == sc_epoch ())))
	{
	  sc_byte_t * s = &r->s[off];
	  for (i = 0; i < n; ++i, ++s)
	    if (((unsigned char*)a)[i] != old[i])
	      {
		sc_check (s, a + i, 1);
		memset (s->w, 0, sizeof (s->w));
		s->w[t] = sc_t[t].vc[t];
		s->written = 1;
	      }
	    else if (s->written) s->w[t] = sc_t[t].vc[t]; /* one more who wrote this value */
	    else m &= ~(1 << (off % 8 + i));
	  if (g->w == sc_epoch ()) g->wm |= m; else { g->w = sc_epoch (); g->wm = m; }
	  if (g->r != sc_epoch ()) g->r = 0;
	}
      a += n; old += n; size -= n;
    }
}
static void
sc_write (uintptr_t a, size_t size)
{
  sc_range_t * r;
  if (!sc_on) return;
  sc_settle (sc_cur);
  sc_t[sc_cur].spin_count = 0;
  sc_step ();
  if (sc_mine (a) || !(r = sc_where (a))) return;
  if (size <= 64)
    {
      if (r->s[a - r->from].freed) sc_check (&r->s[a - r->from], a, 1);
      sc_pending[sc_cur].a = a; sc_pending[sc_cur].size = size;
      memcpy (sc_pending[sc_cur].old, (void*)a, size);
      return;
    }
  /* a long range is taken for a change as a whole */
  sc_byte_t * s = &r->s[a - r->from];
  memset (&r->g[(a - r->from) / 8], 0, (size / 8 + 2) * sizeof (*r->g));
  for (; size; --size, ++a, ++s)
    {
      sc_check (s, a, 1);
      memset (s->w, 0, sizeof (s->w)); s->w[sc_cur] = sc_t[sc_cur].vc[sc_cur]; s->written = 1;
    }
}
/* ---- operations that order threads ---- */
#define SC_SYNC 4096
static struct { uintptr_t a; uint32_t l[SC_T]; } sc_sync[SC_SYNC];
static uint32_t *
sc_l (uintptr_t a)
{
  unsigned i;
  for (i = (a >> 2) % SC_SYNC; sc_sync[i].a && sc_sync[i].a != a; i = (i + 1) % SC_SYNC);
  sc_sync[i].a = a;
  return (sc_sync[i].l);
}
static void sc_join (uint32_t * to, const uint32_t * from) { int i; for (i = 0; i < SC_T; ++i) if (from[i] > to[i]) to[i] = from[i]; }
enum { RLX, CONSUME, ACQ, REL, ACQREL, SEQ };
#define IS_ACQ(MO) ((MO) == CONSUME || (MO) == ACQ || (MO) == ACQREL || (MO) == SEQ)
#define IS_REL(MO) ((MO) == REL || (MO) == ACQREL || (MO) == SEQ)
static void
sc_before (uintptr_t a)
{
  if (!sc_on) return;
  sc_settle (sc_cur);
  sc_step ();
  sc_byte_t * s = sc_shadow (a);
  if (s && s->freed) sc_check (s, a, 0);
  if (!sc_mine (a)) sc_point ();
}
static void
sc_loaded (uintptr_t a, uint64_t value, int mo)
{
  sc_thread_t * t;
  if (!sc_on) return;
  t = &sc_t[sc_cur];
  sc_join (IS_ACQ (mo) ? t->vc : t->pend, sc_l (a));
  if (t->spin_addr == a && t->spin_value == value && t->spin_count) { if (++t->spin_count >= 3) { t->spin_count = 0; sc_yield (); } }
  else { t->spin_addr = a; t->spin_value = value; t->spin_count = 1; }
}
static void
sc_stored (uintptr_t a, int mo, int rmw, int changed)
{
  sc_thread_t * t;
  if (!sc_on) return;
  t = &sc_t[sc_cur];
  uint32_t * l = sc_l (a);
  if (!rmw) memset (l, 0, SC_T * sizeof (*l));
  sc_join (l, IS_REL (mo) ? t->vc : t->fence);
  if (IS_REL (mo)) ++t->vc[sc_cur];
  if (changed) { t->spin_count = 0; sc_wake (); }
}
static void
sc_fence (int mo)
{
  sc_thread_t * t;
  if (!sc_on) return;
  sc_settle (sc_cur);
  t = &sc_t[sc_cur];
  sc_point ();
  if (IS_ACQ (mo)) sc_join (t->vc, t->pend);
  if (IS_REL (mo)) { memcpy (t->fence, t->vc, sizeof (t->fence)); ++t->vc[sc_cur]; }
}
/* ---- what the compiler calls ---- */
void __tsan_init (void) { }
void __tsan_func_entry (void * pc) { if (sc_on) { sc_settle (sc_cur); sc_t[sc_cur].spin_count = 0; } }
void __tsan_func_exit (void) { if (sc_on) { sc_settle (sc_cur); sc_t[sc_cur].spin_count = 0; } }
#define SC_ACCESS(N)							\
  void __tsan_read##N (void * a) { if (sc_on) { sc_settle (sc_cur); sc_read ((uintptr_t)a, N); } } \
  void __tsan_write##N (void * a) { sc_write ((uintptr_t)a, N); }	\
  void __tsan_unaligned_read##N (void * a) { __tsan_read##N (a); }	\
  void __tsan_unaligned_write##N (void * a) { __tsan_write##N (a); }	\
  void __tsan_read_write##N (void * a) { __tsan_read##N (a); __tsan_write##N (a); }
SC_ACCESS (1) SC_ACCESS (2) SC_ACCESS (4) SC_ACCESS (8) SC_ACCESS (16)
void __tsan_read_range (void * a, size_t n) { if (sc_on) { sc_settle (sc_cur); sc_read ((uintptr_t)a, n); } }
void __tsan_write_range (void * a, size_t n) { sc_write ((uintptr_t)a, n); }
#define SC_VOLATILE(N, T)						\
  void __tsan_volatile_read##N (void * a) { sc_before ((uintptr_t)a); sc_loaded ((uintptr_t)a, *(T*)a, RLX); } \
  void __tsan_volatile_write##N (void * a) { sc_before ((uintptr_t)a); sc_stored ((uintptr_t)a, RLX, 0, 1); } \
  void __tsan_unaligned_volatile_read##N (void * a) { __tsan_volatile_read##N (a); } \
  void __tsan_unaligned_volatile_write##N (void * a) { __tsan_volatile_write##N (a); }
SC_VOLATILE (1, uint8_t) SC_VOLATILE (2, uint16_t) SC_VOLATILE (4, uint32_t) SC_VOLATILE (8, uint64_t) SC_VOLATILE (16, uint64_t)
#define SC_MO(MO) ((MO) & 0x7fff)
#define SC_RMW(N, T, NAME, EXPR)					\
  T __tsan_atomic##N##_##NAME (volatile T * a, T v, int mo)		\
  {									\
    T old, new_;							\
    sc_before ((uintptr_t)a);						\
    old = *a; new_ = (EXPR);						\
    *a = new_;								\
    if (new_ != old) { if (sc_on && IS_ACQ (SC_MO (mo))) sc_join (sc_t[sc_cur].vc, sc_l ((uintptr_t)a)); }	\
    else sc_loaded ((uintptr_t)a, old, SC_MO (mo));			\
    sc_stored ((uintptr_t)a, SC_MO (mo), 1, new_ != old);		\
    return (old);							\
  }
#define SC_ATOMIC(N, T)							\
  T __tsan_atomic##N##_load (const volatile T * a, int mo)		\
  { T v; sc_before ((uintptr_t)a); v = *a; sc_loaded ((uintptr_t)a, v, SC_MO (mo)); return (v); } \
  void __tsan_atomic##N##_store (volatile T * a, T v, int mo)		\
  { T old; sc_before ((uintptr_t)a); old = *a; *a = v; sc_stored ((uintptr_t)a, SC_MO (mo), 0, old != v); } \
  SC_RMW (N, T, exchange, v) SC_RMW (N, T, fetch_add, old + v) SC_RMW (N, T, fetch_sub, old - v) SC_RMW (N, T, fetch_and, old & v) \
  SC_RMW (N, T, fetch_or, old | v) SC_RMW (N, T, fetch_xor, old ^ v) SC_RMW (N, T, fetch_nand, ~(old & v)) \
  int __tsan_atomic##N##_compare_exchange_strong (volatile T * a, T * c, T v, int mo, int fmo) \
  {									\
    T old;								\
    sc_before ((uintptr_t)a);						\
    old = *a;								\
    if (old != *c) { sc_loaded ((uintptr_t)a, old, SC_MO (fmo)); *c = old; return (0); } \
    if (sc_on && IS_ACQ (SC_MO (mo))) sc_join (sc_t[sc_cur].vc, sc_l ((uintptr_t)a)); \
    *a = v;								\
    sc_stored ((uintptr_t)a, SC_MO (mo), 1, old != v);			\
    return (1);								\
  }									\
  int __tsan_atomic##N##_compare_exchange_weak (volatile T * a, T * c, T v, int mo, int fmo) { return (__tsan_atomic##N##_compare_exchange_strong (a, c, v, mo, fmo)); } \
  T __tsan_atomic##N##_compare_exchange_val (volatile T * a, T c, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong (a, &c, v, mo, fmo); return (c); }
SC_ATOMIC (8, uint8_t) SC_ATOMIC (16, uint16_t) SC_ATOMIC (32, uint32_t) SC_ATOMIC (64, uint64_t) SC_ATOMIC (128, unsigned __int128)
void __tsan_atomic_thread_fence (int mo) { sc_fence (SC_MO (mo)); }
void __tsan_atomic_signal_fence (int mo) { }
/* ---- the C library ---- */
#define SC_IN(P, N) do { if (sc_on) { sc_settle (sc_cur); sc_read ((uintptr_t)(P), (N)); } } while (0)
#define SC_OUT(P, N) do { if (sc_on) { sc_write ((uintptr_t)(P), (N)); } } while (0)
void * __wrap_memset (void * p, int c, size_t n)
{
  size_t i, k;
  if (!sc_on) return (memset (p, c, n));
  for (i = 0; i < n; i += k) { k = n - i < 32 ? n - i : 32; sc_write ((uintptr_t)p + i, k); memset ((char*)p + i, c, k); }
  sc_settle (sc_cur);
  return (p);
}
static void *
sc_copy (void * d, const void * s, size_t n)
{
  size_t i, k;
  if (!sc_on) return (memmove (d, s, n));
  SC_IN (s, n);
  if ((uintptr_t)d - (uintptr_t)s < n) { SC_OUT (d, n); return (memmove (d, s, n)); }
  for (i = 0; i < n; i += k) { k = n - i < 32 ? n - i : 32; sc_write ((uintptr_t)d + i, k); memmove ((char*)d + i, (char*)s + i, k); }
  sc_settle (sc_cur);
  return (d);
}
void * __wrap_memcpy (void * d, const void * s, size_t n) { return (sc_copy (d, s, n)); }
void * __wrap_memmove (void * d, const void * s, size_t n) { return (sc_copy (d, s, n)); }
size_t __wrap_strlen (const char * s) { size_t n = strlen (s); SC_IN (s, n + 1); return (n); }
int __wrap_strcmp (const char * a, const char * b) { size_t i; for (i = 0; a[i] && a[i] == b[i]; ++i); SC_IN (a, i + 1); SC_IN (b, i + 1); return (strcmp (a, b)); }
int __wrap_strncmp (const char * a, const char * b, size_t n) { size_t i; for (i = 0; i < n && a[i] && a[i] == b[i]; ++i); if (i < n) ++i; SC_IN (a, i); SC_IN (b, i); return (strncmp (a, b, n)); }
int __wrap_memcmp (const void * a, const void * b, size_t n) { SC_IN (a, n); SC_IN (b, n); return (memcmp (a, b, n)); }
char * __wrap_strcpy (char * d, const char * s) { sc_copy (d, s, strlen (s) + 1); return (d); }
char * __wrap_strchr (const char * s, int c) { SC_IN (s, strlen (s) + 1); return (strchr (s, c)); }
/* mutexes and the like: the lock word is the harness's, under the address of the user's object */
static struct { void * m; int held, owner; } sc_mutex[256];
static int
sc_m (void * m)
{
  int i;
  for (i = 0; i < 255 && sc_mutex[i].m && sc_mutex[i].m != m; ++i);
  sc_mutex[i].m = m;
  return (i);
}
static int
sc_lock (void * m, int try)
{
  int i = sc_m (m);
  if (!sc_on) { sc_mutex[i].held = 1; return (0); }
  sc_before ((uintptr_t)m);
  while (sc_mutex[i].held)
    {
      if (try) { sc_loaded ((uintptr_t)m, 1, RLX); return (EBUSY); }
      if (++sc_t[sc_cur].steps > 60000000) sc_fail ("thread %d waits for a lock for ever", sc_cur);
      sc_t[sc_cur].steps += 100000;
      sc_yield ();
    }
  sc_mutex[i].held = 1;
  sc_mutex[i].owner = sc_cur;
  sc_join (sc_t[sc_cur].vc, sc_l ((uintptr_t)m));
  return (0);
}
static int
sc_unlock (void * m)
{
  int i = sc_m (m);
  if (sc_on) { sc_before ((uintptr_t)m); sc_stored ((uintptr_t)m, REL, 1, 1); }
  sc_mutex[i].held = 0;
  return (0);
}
int __wrap_pthread_mutex_lock (void * m) { return (sc_lock (m, 0)); }
int __wrap_pthread_mutex_trylock (void * m) { return (sc_lock (m, 1)); }
int __wrap_pthread_mutex_unlock (void * m) { return (sc_unlock (m)); }
int __wrap_pthread_spin_lock (void * m) { return (sc_lock (m, 0)); }
int __wrap_pthread_spin_trylock (void * m) { return (sc_lock (m, 1)); }
int __wrap_pthread_spin_unlock (void * m) { return (sc_unlock (m)); }
int __wrap_pthread_rwlock_rdlock (void * m) { return (sc_lock (m, 0)); }
int __wrap_pthread_rwlock_wrlock (void * m) { return (sc_lock (m, 0)); }
int __wrap_pthread_rwlock_unlock (void * m) { return (sc_unlock (m)); }
int __wrap_mtx_lock (void * m) { return (sc_lock (m, 0)); }
int __wrap_mtx_unlock (void * m) { return (sc_unlock (m)); }
static void
sc_once (int * flag, void (*fn) (void))
{
  if (!sc_on) { if (*flag != 2) { *flag = 2; fn (); } return; }
  sc_before ((uintptr_t)flag);
  if (*flag == 0) { *flag = 1; fn (); sc_before ((uintptr_t)flag); *flag = 2; sc_stored ((uintptr_t)flag, REL, 1, 1); }
  while (*flag != 2) { sc_t[sc_cur].steps += 100000; if (sc_t[sc_cur].steps > 60000000) sc_fail ("thread %d waits for a once-control for ever", sc_cur); sc_yield (); }
  sc_join (sc_t[sc_cur].vc, sc_l ((uintptr_t)flag));
}
int __wrap_pthread_once (int * flag, void (*fn) (void)) { sc_once (flag, fn); return (0); }
void __wrap_call_once (int * flag, void (*fn) (void)) { sc_once (flag, fn); }
static void sc_pause (void) { if (sc_on) { sc_settle (sc_cur); sc_step (); sc_t[sc_cur].steps += 1000; sc_yield (); } }
int __wrap_sched_yield (void) { sc_pause (); return (0); }
int __wrap_pthread_yield (void) { sc_pause (); return (0); }
void __wrap_thrd_yield (void) { sc_pause (); }
extern int __real_usleep (unsigned);
int __wrap_usleep (unsigned n) { if (!sc_on) return (__real_usleep (n)); sc_pause (); return (0); }
int __wrap_nanosleep (const void * a, void * b) { sc_pause (); return (0); }
/* a thread of its own is that of the coroutine */
unsigned long __wrap_pthread_self (void) { return (sc_on ? 1000 + sc_cur : 999); }

/* ---- running ---- */
static void
sc_entry (int i)
{
  int ready[SC_T], n;
  sc_t[i].fn (i);
  sc_settle (i);
  sc_t[i].state = SC_DONE;
  n = sc_others (ready);
  if (!n)
    {
      for (i = 0; i < sc_n; ++i) if (sc_t[i].state == SC_READY) ready[n++] = i;
      if (!n) { sc_on = 0; setcontext (&sc_main); }
    }
  sc_cur = ready[n > 1 ? sc_next (ready, n) : 0];
  sc_t[sc_cur].spin = 0;
  sc_go (sc_cur);
  setcontext (&sc_t[sc_cur].ctx);
}
static void
sc_setup (void)
{
  sc_stacks = mmap (NULL, SC_T * SC_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sc_arena = mmap (NULL, (SC_T + 1) * (size_t)SC_ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sc_add_range (sc_data_from, &_edata - sc_data_from);
  sc_add_range (sc_bss_from, &_end - sc_bss_from);
  sc_add_range (sc_arena, (SC_T + 1) * (size_t)SC_ARENA);
  mr_conf.mr_mem.calloc = (void*)sc_m_calloc;
  mr_conf.mr_mem.realloc = (void*)sc_m_realloc;
  mr_conf.mr_mem.free = (void*)sc_m_free;
}
/* every execution starts from here */
static struct { char * data, * bss, * arena; size_t used; long live, live_bytes; } sc_snap;
static void
sc_snapshot (void)
{
  sc_snap.data = memcpy (malloc (&_edata - sc_data_from), sc_data_from, &_edata - sc_data_from);
  sc_snap.bss = memcpy (malloc (&_end - sc_bss_from), sc_bss_from, &_end - sc_bss_from);
  sc_snap.used = sc_used[SC_T];
  sc_snap.arena = memcpy (malloc (sc_snap.used + 1), sc_arena + SC_T * (size_t)SC_ARENA, sc_snap.used);
  sc_snap.live = sc_live; sc_snap.live_bytes = sc_live_bytes;
}
static void
sc_restore (void)
{
  int i, t;
  memcpy (sc_data_from, sc_snap.data, &_edata - sc_data_from);
  memcpy (sc_bss_from, sc_snap.bss, &_end - sc_bss_from);
  memcpy (sc_arena + SC_T * (size_t)SC_ARENA, sc_snap.arena, sc_snap.used);
  sc_used[SC_T] = sc_snap.used;
  for (t = 0; t < SC_T; ++t) memset (sc_arena + t * (size_t)SC_ARENA, 0, sc_used[t]);
  for (i = 0; i < sc_nrange; ++i)
    if (sc_range[i].from != (uintptr_t)sc_arena)
      {
	memset (sc_range[i].s, 0, (sc_range[i].to - sc_range[i].from) * sizeof (sc_byte_t));
	memset (sc_range[i].g, 0, (sc_range[i].to - sc_range[i].from + 7) / 8 * sizeof (sc_gran_t));
      }
    else
      for (t = 0; t <= SC_T; ++t)
	{
	  memset (sc_range[i].s + t * (size_t)SC_ARENA, 0, sc_used[t] * sizeof (sc_byte_t));
	  memset (sc_range[i].g + t * (size_t)SC_ARENA / 8, 0, sc_used[t] / 8 * sizeof (sc_gran_t));
	}
  memset (sc_used, 0, SC_T * sizeof (sc_used[0]));
  memset (sc_t, 0, sizeof (sc_t));
  memset (sc_sync, 0, sizeof (sc_sync));
  memset (sc_mutex, 0, sizeof (sc_mutex));
  memset (sc_pending, 0, sizeof (sc_pending));
  sc_live = sc_snap.live; sc_live_bytes = sc_snap.live_bytes;
  sc_points = sc_preempted = sc_switches = sc_on = 0;
  sc_cur = -1;
}
static void
sc_run (int n, void (**fn) (int))
{
  int i, ready[SC_T];
  for (i = 0; i < n; ++i)
    {
      sc_t[i].state = SC_READY;
      sc_t[i].fn = fn[i];
      sc_t[i].vc[i] = 1;
      sc_t[i].stack = sc_stacks + (size_t)i * SC_STACK;
      getcontext (&sc_t[i].ctx);
      sc_t[i].ctx.uc_stack.ss_sp = sc_t[i].stack;
      sc_t[i].ctx.uc_stack.ss_size = SC_STACK;
      sc_t[i].ctx.uc_link = NULL;
      makecontext (&sc_t[i].ctx, (void (*) (void))sc_entry, 1, i);
      ready[i] = i;
    }
  sc_n = n;
  i = n > 1 ? sc_next (ready, n) : 0;
  sc_cur = i;
  sc_go (i);
  sc_on = 1;
  swapcontext (&sc_main, &sc_t[i].ctx);
  sc_on = 0;
}
#endif
