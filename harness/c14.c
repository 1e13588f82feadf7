/* C14: no binary stream makes the XDR loader crash, hang, leak or overflow. */
#include "hostile.h"
#include <sanitizer/asan_interface.h>
#include <rpc/xdr.h>
#include <arpa/inet.h>

static char what[2000];
static void
show (const char * how, const z_ops_t * ops, const char * s, size_t n)
{
  size_t i, at = sprintf (what, "%s %s:", how, ops->name);
  for (i = 0; i < n && at + 12 < sizeof (what); ++i)
    at += sprintf (what + at, i & 3 ? "%02x" : " %02x", (unsigned char)s[i]);
  mc_note ("%s", what);
}

/* some word of the stream may be the flags of a reference */
static int
has_ref (const char * s, size_t n)
{
  size_t i;
  for (i = 0; i + 4 <= n; i += 4)
    if (s[i + 3] & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) return (1);
  return (0);
}

/* what must hold of anything that was loaded, or refused */
static void
judge (mr_status_t st, char * obj, const z_ops_t * ops, int how, const zt_t * zt, int had, const char * s, size_t n)
{
  static z_reach_t r;
  char leak[256];
  if (st != MR_SUCCESS)
    {
      int left = mem_leaks (leak, sizeof (leak));
      mc_assert (left == had, "refused, but %d blocks are lost", left - had);
    }
  else if (how == FREE || (how == NOREF && !has_ref (s, n)))
    {
      if (zt)
	{
	  z_reach (&r, obj, zt);
	  if (surplus (&r)) return;
	  char * why = z_owned (&r, NULL);
	  mc_assert (!why, "what was loaded is not of the declared type: %s", why);
	}
      mc_assert (MR_SUCCESS == ops->free (obj), "what was loaded cannot be freed");
      int left = mem_leaks (leak, sizeof (leak));
      mc_assert (left == had, "accepted, but %d blocks cannot be freed", left - had);
    }
  if (st == MR_SUCCESS) mc_outcome (mc_hash (s, n, ops->name[1]));
}

static mr_status_t
load (const char * s, size_t n, const z_ops_t * ops, int how, const zt_t * zt)
{
  char * exact = malloc (n + 1); /* the loader must not look at the last byte */
  memcpy (exact, s, n);
  __asan_poison_memory_region (exact + n, 1);
  mr_rarray_t ra = { .data = { exact }, .MR_SIZE = n, .alloc_size = n, .type = "uint8_t" };
  char * obj = mem_new (ops->size);
  memset (obj, 0xA5, ops->size);
  int had = mem_leaks (NULL, 0);
  mr_status_t st = ops->load (F_XDR, &ra, obj);
  __asan_unpoison_memory_region (exact + n, 1);
  free (exact);
  judge (st, obj, ops, how, zt, had, s, n);
  mem_release (obj);
  return (st);
}

/* ---- all edits of streams the library wrote ---- */
static const uint32_t words[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 24, 32, 255, 0x00610000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0x20000000, 0x40000001 };
#define NW ((int)(sizeof (words) / sizeof (words[0])))
static uint32_t
another (uint32_t was)
{
  int k = mc_choose (NW + 4);
  uint32_t w = k < NW ? words[k] : k == NW ? was + 1 : k == NW + 1 ? was - 1 : k == NW + 2 ? was * 2 : was + 4;
  if (w == was) mc_skip ();
  return (w);
}
static void put (char * s, size_t i, uint32_t w) { w = htonl (w); memcpy (s + 4 * i, &w, 4); }
static uint32_t get (char * s, size_t i) { uint32_t w; memcpy (&w, s + 4 * i, 4); return (ntohl (w)); }

static int pairs = 30; /* words in a stream of which two are changed */
static void
edits (graph_t g, int how, const zt_t * zt)
{
  static char doc[1 << 14], out[1 << 15];
  int n, i, j, m;
  mc_shard ();
  mr_rarray_t ra = g.ops->save (F_XDR, g.root);
  if (!ra.data.ptr || ra.MR_SIZE > sizeof (doc)) mc_skip ();
  n = ra.MR_SIZE;
  memcpy (doc, ra.data.ptr, n);
  z_drop (&ra);
  memcpy (out, doc, n);
  m = n;
  mc_assert (n % 4 == 0, "a stream of %d bytes", n);
  int nw = n / 4;
  switch (mc_choose (7))
    {
    case 0: /* cut off */
      m = mc_choose (n + 1);
      break;
    case 1: /* a word is another one */
      i = mc_choose (nw); put (out, i, another (get (doc, i)));
      break;
    case 2: /* words are lost */
      i = mc_choose (nw); j = 1 + mc_choose (nw - i > 6 ? 6 : nw - i);
      memmove (out + 4 * i, out + 4 * (i + j), n - 4 * (i + j)); m = n - 4 * j;
      break;
    case 3: /* words come twice */
      i = mc_choose (nw); j = 1 + mc_choose (nw - i > 6 ? 6 : nw - i);
      memmove (out + 4 * (i + j), out + 4 * i, n - 4 * i); m = n + 4 * j;
      break;
    case 4: /* a word too many */
      i = mc_choose (nw + 1); memmove (out + 4 * (i + 1), out + 4 * i, n - 4 * i); m = n + 4; put (out, i, words[mc_choose (NW)]);
      break;
    case 5: /* a byte is another one */
      i = mc_choose (n); out[i] = "\0\1\2\10\20\200\377a"[mc_choose (8)];
      break;
    case 6: /* two words are other ones */
      if (nw > (mc_thorough ? 60 : pairs)) mc_skip ();
      i = mc_choose (nw); j = mc_choose (i + 1);
      if (i == j) mc_skip ();
      put (out, j, another (get (doc, j)));
      put (out, i, another (get (doc, i)));
      break;
    }
  show ("edit", g.ops, out, m);
  mr_status_t st = load (out, m, g.ops, how, zt);
  if (st == MR_SUCCESS && m < n && 0 == memcmp (out, doc, m)) mc_fail ("a stream that was cut off is accepted");
}

static void rich (void) { int how; graph_t g = g_rich (&how); edits (g, how, g.zt); }
#define FAMILY(NAME, G, HOW) static void NAME (void) { graph_t g = G; edits (g, HOW, g.zt); }
#define DEEP(NAME, G, HOW) static void NAME (void) { if (!mc_thorough) mc_skip (); graph_t g = G; edits (g, HOW, g.zt); }
FAMILY (links, g_links (1), NOREF) FAMILY (unions, g_unions (), LOOSE) FAMILY (texts, g_texts (), NOREF) FAMILY (labels, (mc_thorough ? (void)0 : mc_skip (), g_labels ()), NOREF) 
static void sized (void) { graph_t g = g_sized (); pairs = 16; edits (g, NOREF, g.zt); }
DEEP (strings, g_strings (), NOREF) DEEP (struct_slices, g_struct_slices (2), NOREF) DEEP (arrays, g_arrays (0), NOREF) DEEP (values, g_values (), FREE) DEEP (untyped, g_untyped (), LOOSE)

/* ---- all streams over an alphabet of words, made up while the loader reads them ---- */
static char made[4096];
static size_t nmade;
static int budget, silent, short_of, first;
static const uint32_t free_words[] = { 0, 1, 2, 4, 8, 12, 16, 3, 24, 0x6100, 0xffffffff, 0x80000000 };
static const uint32_t rest_words[] = { 0, 1 };

static uint32_t
next_word (void)
{
  if (budget > 0)
    {
      --budget;
      if (first >= 0) { int k = first; first = -1; return (free_words[k]); }
      return (free_words[mc_choose (sizeof (free_words) / sizeof (free_words[0]))]);
    }
  return (rest_words[silent]);
}
static bool_t
s_getlong (XDR * x, long * lp)
{
  if (short_of || nmade + 4 > 400) return (FALSE);
  if (budget > 0 && first < 0 && mc_choose (2)) { short_of = 1; return (FALSE); }
  uint32_t w = next_word ();
  put (made, nmade / 4, w);
  nmade += 4;
  *(int32_t*)lp = w;
  return (TRUE);
}
static bool_t
s_getbytes (XDR * x, caddr_t addr, u_int len)
{
  u_int i;
  if (short_of || nmade + len > 400) return (FALSE);
  int k = budget > 0 && len ? mc_choose (6) : 0;
  for (i = 0; i < len; ++i)
    addr[i] = made[nmade++] = "\0axspd"[k];
  return (TRUE);
}
static u_int s_getpostn (const XDR * x) { return (nmade); }
static bool_t s_setpostn (XDR * x, u_int pos) { return (FALSE); }
static int32_t * s_inline (XDR * x, u_int len) { return (NULL); }
static void s_destroy (XDR * x) { }

#define AS(N, T) case N: return (MR_LOAD_XDR (T, x, (T*)obj));
static mr_status_t
xdr_load_as (int ti, XDR * x, void * obj)
{
  switch (ti)
    {
      AS (0, h1_t) AS (1, h2_t) AS (2, h3_t) AS (3, h4_t) AS (4, h5_t) AS (5, gv_t) AS (6, h6_t)
    }
  return (MR_FAILURE);
}

static void
streams (void)
{
  static struct xdr_ops ops = { .x_getlong = (void*)s_getlong, .x_getbytes = (void*)s_getbytes, .x_getpostn = (void*)s_getpostn, .x_setpostn = (void*)s_setpostn, .x_inline = (void*)s_inline, .x_destroy = (void*)s_destroy };
  int ti = mc_choose (NT);
  silent = mc_choose (2);
  first = mc_choose (sizeof (free_words) / sizeof (free_words[0]));
  XDR x = { .x_op = XDR_DECODE, .x_ops = (void*)&ops };
  const target_t * t = &targets[ti];
  nmade = short_of = 0;
  budget = mc_thorough ? 6 : 4;
  char * obj = mem_new (t->ops->size);
  memset (obj, 0xA5, t->ops->size);
  int had = mem_leaks (NULL, 0);
  mc_shard ();
  mr_status_t st = xdr_load_as (ti, &x, obj);
  show ("stream", t->ops, made, nmade);
  judge (st, obj, t->ops, t->how, t->zt, had, made, nmade);
  mem_release (obj);
  /* the same from a buffer of just this size */
  mr_status_t again = load (made, nmade, t->ops, t->how, t->zt);
  mc_assert (again == st, "%s from a buffer of what was read before", again == MR_SUCCESS ? "accepted" : "refused");
}

#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (rich), S (streams), S (links), S (unions), S (texts), S (sized), S (labels), S (strings), S (struct_slices), S (arrays), S (values), S (untyped), { 0 } };
static void mc_setup (void)
{
  z_setup ();
  g_warm ();
  mem_limit = 1 << 20;
}
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
