/* Ledger of the library's heap blocks, with fault injection, behind the library's own memory hooks. */
#ifndef MEM_H
#define MEM_H
#include "mc.h"
#undef mem_free
#undef mem_alloc

typedef struct { void * ptr; size_t size; unsigned epoch; unsigned mark; const char * where; int line; } mem_block_t;

#ifndef MEM_BITS
#define MEM_BITS 15
#endif
static mem_block_t mem_tab[1 << MEM_BITS];
static unsigned mem_epoch = 1, mem_used;
static long mem_calls;            /* allocation requests since mem_arm */
static long mem_fault_at = -1;    /* fail this one ... */
static int mem_fault_sticky;      /* ... and all later ones */
static int mem_fault_hit;
static size_t mem_live_bytes;
static char mem_error[512];
static size_t mem_limit = (size_t)1 << 28;
static const char * mem_bad_free; /* what to report instead of an abort */

/* what was allocated since mem_begin, so that nobody has to scan the whole table */
#define MEM_LOG 65536
static void * mem_log[MEM_LOG];
static unsigned mem_nlog;

static inline unsigned mem_slot (void * p) { uint64_t h = (uintptr_t)p * 0x9E3779B97F4A7C15ULL; return (h >> (64 - MEM_BITS)); }

static mem_block_t *
mem_find (void * p)
{
  unsigned i = mem_slot (p);
  for (; mem_tab[i].ptr; i = (i + 1) & ((1 << MEM_BITS) - 1))
    if (mem_tab[i].ptr == p) return (&mem_tab[i]);
  return (NULL);
}

static void
mem_insert (void * p, size_t size, const char * where, int line)
{
  unsigned i = mem_slot (p);
  if (mem_used > (1 << MEM_BITS) * 3 / 4) { fprintf (stderr, "MC-INTERNAL: ledger full\n"); _exit (99); }
  while (mem_tab[i].ptr) i = (i + 1) & ((1 << MEM_BITS) - 1);
  mem_tab[i] = (mem_block_t) { p, size, mem_epoch, 0, where, line };
  ++mem_used;
  mem_live_bytes += size;
  if (mem_nlog < MEM_LOG) mem_log[mem_nlog] = p;
  ++mem_nlog;
}

static void
mem_remove (mem_block_t * b)
{
  unsigned i = b - mem_tab, j = i, k;
  mem_live_bytes -= b->size;
  --mem_used;
  for (;;)
    {
      mem_tab[i].ptr = NULL;
      do
	{
	  j = (j + 1) & ((1 << MEM_BITS) - 1);
	  if (!mem_tab[j].ptr) return;
	  k = mem_slot (mem_tab[j].ptr);
	}
      while (i <= j ? (i < k && k <= j) : (i < k || k <= j));
      mem_tab[i] = mem_tab[j];
      i = j;
    }
}

static int
mem_fault (size_t size)
{
  long n = mem_calls++;
  if (mem_fault_at >= 0 && (n == mem_fault_at || (mem_fault_sticky && n > mem_fault_at)))
    {
      mem_fault_hit = 1;
      return (1);
    }
  if (mem_live_bytes + size > mem_limit) return (1); /* the machine is not infinite */
  return (0);
}

static void *
mem_calloc (const char * file, const char * func, int line, size_t count, size_t size)
{
  if (mem_fault (count * size)) return (NULL);
  void * p = calloc (count, size);
  if (p) mem_insert (p, count * size, func, line);
  return (p);
}

static void *
mem_realloc (const char * file, const char * func, int line, void * ptr, size_t size)
{
  mem_block_t * b = ptr ? mem_find (ptr) : NULL;
  if (mem_fault (size)) return (NULL);
  if (ptr && !b)
    {
      fprintf (stderr, "MC-ABORT: reallocation of a block the library does not own in %s:%d\n", func, line);
      _exit (98);
    }
  /* always move: stale pointers must not survive by luck */
  void * p = malloc (size);
  if (!p) return (NULL);
  memset (p, 0xA5, size);
  if (ptr)
    {
      unsigned epoch = b->epoch;
      memcpy (p, ptr, b->size < size ? b->size : size);
      mem_remove (b);
      free (ptr);
      mem_insert (p, size, func, line);
      mem_find (p)->epoch = epoch;
    }
  else
    mem_insert (p, size, func, line);
  return (p);
}

static void
mem_free (const char * file, const char * func, int line, void * ptr)
{
  mem_block_t * b;
  if (!ptr) return;
  b = mem_find (ptr);
  if (!b)
    {
      if (mem_bad_free) mc_fail ("%s", mem_bad_free);
      fprintf (stderr, "MC-ABORT: free of a pointer that is not a live block in %s\n", func);
      _exit (98);
    }
  mem_remove (b);
  free (ptr);
}

/* blocks owned by the harness but handed to the library to free */
static void * mem_new (size_t size)
{
  void * p = calloc (1, size ? size : 1);
  mem_insert (p, size ? size : 1, "harness", 0);
  return (p);
}
static void mem_release (void * p) { mem_free ("", "harness", 0, p); }
static char * mem_str (const char * s) { char * p = mem_new (strlen (s) + 1); strcpy (p, s); return (p); }

static void mem_arm (long fault_at, int sticky) { mem_calls = 0; mem_fault_at = fault_at; mem_fault_sticky = sticky; mem_fault_hit = 0; }
static void mem_disarm (void) { mem_fault_at = -1; }

static void mem_begin (void) { ++mem_epoch; mem_nlog = 0; mem_bad_free = NULL; mem_disarm (); }

/* number of live blocks allocated since mem_begin; describes the first */
static int
mem_leaks (char * desc, size_t size)
{
  unsigned i, n = 0;
  if (desc) desc[0] = 0;
  if (mem_nlog > MEM_LOG)
    {
      for (i = 0; i < (1 << MEM_BITS); ++i)
	if (mem_tab[i].ptr && mem_tab[i].epoch == mem_epoch)
	  if (n++ == 0 && desc)
	    snprintf (desc, size, "%zu bytes allocated in %s", mem_tab[i].size, mem_tab[i].where);
      return (n);
    }
  for (i = 0; i < mem_nlog; ++i)
    {
      mem_block_t * b = mem_find (mem_log[i]);
      if (b && b->epoch == mem_epoch && b->mark != mem_epoch)
	{
	  /* an address may have been logged more than once */
	  if (n++ == 0 && desc)
	    snprintf (desc, size, "%zu bytes allocated in %s", b->size, b->where);
	  b->mark = mem_epoch;
	}
    }
  for (i = 0; i < mem_nlog; ++i)
    {
      mem_block_t * b = mem_find (mem_log[i]);
      if (b) b->mark = 0;
    }
  return (n);
}
static unsigned mem_live (void) { return (mem_used); }

/* release everything left of this execution, so that a reported leak does not disturb the next one */
static void
mem_purge (void)
{
  unsigned i;
  if (mem_nlog <= MEM_LOG)
    {
      for (i = 0; i < mem_nlog; ++i)
	{
	  mem_block_t * b = mem_find (mem_log[i]);
	  if (b && b->epoch == mem_epoch)
	    {
	      mem_remove (b);
	      free (mem_log[i]);
	    }
	}
      mem_nlog = 0;
      return;
    }
  for (i = 0; i < (1 << MEM_BITS); ++i)
    while (mem_tab[i].ptr && mem_tab[i].epoch == mem_epoch)
      {
	void * p = mem_tab[i].ptr;
	mem_remove (&mem_tab[i]);
	free (p);
      }
}

static void mem_msg (const char * file, const char * func, int line, mr_log_level_t level, mr_message_id_t id, va_list args);
static int mem_last_msg;
static unsigned long mem_msgs;
static void
mem_msg (const char * file, const char * func, int line, mr_log_level_t level, mr_message_id_t id, va_list args)
{
  mem_last_msg = id; ++mem_msgs;
}

static void
mem_install (void)
{
  mr_conf.mr_mem.calloc = mem_calloc;
  mr_conf.mr_mem.realloc = mem_realloc;
  mr_conf.mr_mem.free = mem_free;
  mr_conf.msg_handler = mem_msg;
}

#endif
