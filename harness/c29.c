/* C29: XML documents are read from a stream one after another, each whole and exact. */
#include "graphs.h"
#include "values.h"

static char stream_buf[1 << 22];
static const char * const sep_name[] = { "nothing", "a line feed", "white space" };
static const char * const sep_text[] = { "", "\n", " \r\n\t " };
static FILE *
open_stream (const char * text, size_t size)
{
  static FILE * fd;
  if (fd) fclose (fd);
  /* nothing is read ahead: the position is where the reader has stopped, and only what is there can be read */
  fd = fmemopen ((void*)text, size, "r");
  if (!fd) { fprintf (stderr, "MC-INTERNAL: fmemopen\n"); _exit (99); }
  return (fd);
}
/* where a document ends: the last character that is not white space */
static size_t trimmed (const char * s, size_t n) { while (n && isspace ((unsigned char)s[n - 1])) --n; return (n); }
static char *
doc_of (graph_t g, int fmt, size_t * size)
{
  mr_rarray_t ra = g.ops->save (fmt, g.root);
  mc_assert (ra.data.ptr != NULL, "%s: save failed", f_name[fmt]);
  *size = strlen (ra.data.ptr);
  char * text = malloc (*size + 1);
  memcpy (text, ra.data.ptr, *size + 1);
  z_drop (&ra);
  return (text);
}
/* what was written; white space around it is nobody's */
static void
delivered (char * got, const char * doc, size_t size, const char * who)
{
  mc_assert (got != NULL, "%s document is not delivered", who);
  char * at = got;
  while (isspace ((unsigned char)*at)) ++at;
  size = trimmed (doc, size);
  mc_assert (strlen (at) == size && 0 == memcmp (at, doc, size), "%s document is delivered as %s", who, mc_quote (got, strlen (got)));
}
static void
loads (graph_t g, int fmt, char * got, const char * want, const char * who)
{
  char * back = malloc (g.ops->size);
  memset (back, 0xA5, g.ops->size);
  mr_rarray_t in = { .data = { got }, .alloc_size = strlen (got) + 1, .type = "string" };
  in.MR_SIZE = in.alloc_size;
  mr_status_t st = g.ops->load (fmt, &in, back);
  mc_assert (st == MR_SUCCESS, "%s document as delivered cannot be loaded: %s", who, mc_quote (got, strlen (got)));
  mc_assert (0 == strcmp (want, z_canon (back, g.zt, NULL)), "%s document as delivered is loaded as %s", who, z_canon (back, g.zt, NULL));
  mc_assert (MR_SUCCESS == g.ops->free (back), "free failed");
  free (back);
}
static void
docs (graph_t g, int cuts)
{
  int fmt = mc_choose (2) ? F_XML2 : F_XML1, sep = mc_choose (3), cut;
  size_t size, at;
  char want[Z_TEXT], desc[128];
  mc_shard ();
  strcpy (want, z_canon (g.root, g.zt, NULL));
  mc_note ("%s %s, then %s", f_name[fmt], want, sep_name[sep]);
  char * doc = doc_of (g, fmt, &size);
  /* what this format cannot carry is decided by C04 and C05 */
  {
    char * back = malloc (g.ops->size), * copy = strdup (doc);
    mr_rarray_t in = { .data = { copy }, .alloc_size = size + 1, .type = "string" };
    in.MR_SIZE = size + 1;
    int ok = MR_SUCCESS == g.ops->load (fmt, &in, back) && 0 == strcmp (want, z_canon (back, g.zt, NULL));
    if (!ok) { mc_skip (); }
    g.ops->free (back);
    free (back); free (copy);
  }
  size_t n = trimmed (doc, size), m = strlen (sep_text[sep]);
  if ((n + m) * 3 > sizeof (stream_buf)) { fprintf (stderr, "MC-INTERNAL: document of %zu bytes\n", n); _exit (99); }
  int had = mem_leaks (NULL, 0), i;
  for (i = 0, at = 0; i < 3; ++i)
    {
      memcpy (stream_buf + at, doc, n); at += n;
      memcpy (stream_buf + at, sep_text[sep], m); at += m;
    }
  FILE * fd = open_stream (stream_buf, at);
  for (i = 0; i < 3; ++i)
    {
      static const char * const who[] = { "first", "second", "third" };
      char * got = mr_read_xml_doc (fd);
      delivered (got, doc, n, who[i]);
      mc_assert (ftell (fd) == (long)(i * (n + m) + n), "after the %s document the stream is at %ld, must be at %zu", who[i], ftell (fd), i * (n + m) + n);
      loads (g, fmt, got, want, who[i]);
      MR_FREE (got);
    }
  mc_assert (mr_read_xml_doc (fd) == NULL, "a document beyond the last one");
  int left = mem_leaks (desc, sizeof (desc));
  mc_assert (left == had, "%d blocks are lost", left - had);
  mc_outcome (mc_hash (doc, n, fmt * 8 + sep));
  /* cut at any byte */
  for (cut = 1; cuts && cut < (int)n; ++cut)
    {
      mc_note ("%s %s cut after %d bytes", f_name[fmt], want, cut);
      fd = open_stream (doc, cut);
      char * got = mr_read_xml_doc (fd);
      mc_assert (got == NULL, "a document that is cut is delivered as %s", mc_quote (got, strlen (got)));
      left = mem_leaks (desc, sizeof (desc));
      mc_assert (left == had, "%d blocks are lost", left - had);
      mc_state (mc_hash (doc, cut, n));
    }
  free (doc);
}
/* an element of every length around those where the buffer grows, with a failure at every request */
static void
lengths (void)
{
  static char text[1 << 17];
  static const char head[] = "<?xml version=\"1.0\"?>\n<a>", tail[] = "</a>";
  int shape = mc_choose (3), len, pos, at;
  char desc[128];
  if (mc_thorough) len = sizeof (head) + 10 + mc_choose (34000);
  else len = (2048 << mc_choose (5)) - 9 + mc_choose (18);
  mc_shard ();
  pos = mc_pos (); at = mc_choose_open ();
  mc_note ("%d characters, request %d fails", len, at);
  int h = strlen (head), t = strlen (tail), i;
  memcpy (text, head, h);
  memcpy (text + len - t, tail, t);
  for (i = h; i < len - t; ++i) text[i] = shape == 0 ? 'x' : shape == 1 ? " \n"[i & 1] : 'x';
  if (shape == 2) for (i = h; i + 4 <= len - t; i += 4) memcpy (text + i, "<b/>", 4);
  memcpy (text + len, "<?xml", 5);
  FILE * fd = open_stream (text, len + 5);
  int had = mem_leaks (NULL, 0);
  mem_arm (at, 0);
  char * got = mr_read_xml_doc (fd);
  int hit = mem_fault_hit;
  mem_disarm ();
  if (!hit) mc_limit (pos);
  if (got)
    {
      mc_assert (!hit, "delivered in spite of a failure");
      mc_assert (strlen (got) == (size_t)len && 0 == memcmp (got, text, len), "delivered is something else, of %zu characters", strlen (got));
      mc_assert (ftell (fd) == len, "the stream is at %ld", ftell (fd));
      MR_FREE (got);
    }
  else
    mc_assert (hit, "not delivered without a failure");
  int left = mem_leaks (desc, sizeof (desc));
  mc_assert (left == had, "%d blocks are lost", left - had);
  mc_outcome (mc_hash (text, len, at * 4 + shape));
}
/* every tree of elements up to a size, in all spellings of its tags */
static int budget;
static void
element (int depth)
{
  static const char * const empty[] = { "<a/>", "<bc />", "<a\n/>", "<a k=\"v/\"/>", "<a></a>", "<a k='/'></a >" };
  static const char * const open[] = { "<a>", "<bc k=\"v\">", "< a >" };
  static const char * const text[] = { "", "t/", " ? / ", "&gt;/" };
  --budget;
  if (depth == 0 || budget <= 0 || mc_choose (2) == 0) { strcat (stream_buf, empty[mc_choose (6)]); return; }
  strcat (stream_buf, open[mc_choose (3)]);
  strcat (stream_buf, text[mc_choose (4)]);
  do element (depth - 1); while (budget > 0 && mc_choose (2));
  strcat (stream_buf, text[mc_choose (3)]);
  strcat (stream_buf, "</a>");
}
static void
trees (void)
{
  static const char * const head[] = { "<?xml version=\"1.0\"?>", "<?xml?>\n", " \n<?x y?>" };
  char desc[128];
  budget = mc_thorough ? 5 : 3;
  strcpy (stream_buf, head[mc_choose (3)]);
  element (mc_thorough ? 4 : 3);
  size_t n = strlen (stream_buf);
  mc_note ("%s", stream_buf);
  strcat (stream_buf, "<next");
  FILE * fd = open_stream (stream_buf, n + 5);
  int had = mem_leaks (NULL, 0);
  char * got = mr_read_xml_doc (fd);
  mc_assert (got != NULL, "not delivered");
  delivered (got, stream_buf + strspn (stream_buf, " \n"), n - strspn (stream_buf, " \n"), "the");
  mc_assert (ftell (fd) == (long)n, "the stream is at %ld, must be at %zu", ftell (fd), n);
  MR_FREE (got);
  mc_assert (mem_leaks (desc, sizeof (desc)) == had, "blocks are lost");
  mc_outcome (mc_hash (stream_buf, n, 0));
}
/* anything at all: what is delivered is what was there, and what is refused leaves nothing behind */
static void
junk (void)
{
  static const char alphabet[] = { '<', '>', '/', '?', 'a', ' ', 0, (char)0xFF };
  char text[16], desc[128];
  int max = mc_thorough ? 7 : 6, n = 1 + mc_choose (max), i;
  for (i = 0; i < n; ++i) text[i] = alphabet[mc_choose (sizeof (alphabet))];
  mc_note ("%s", mc_quote (text, n));
  FILE * fd = open_stream (text, n);
  int had = mem_leaks (NULL, 0);
  char * got = mr_read_xml_doc (fd);
  long at = ftell (fd);
  if (got)
    {
      int d = 0;
      int from = 0;
      while (isspace ((unsigned char)text[from]) && !isspace ((unsigned char)*got)) ++from;
      mc_assert (at <= n && strlen (got) == (size_t)at - from && 0 == memcmp (got, text + from, at - from), "delivered is %s, the stream is at %ld", mc_quote (got, strlen (got)), at);
      at -= from;
      /* not without two elements, each from < to > */
      mc_assert (at >= 4 && got[at - 1] == '>', "delivered is %s", got);
      for (i = 0; i < at; ++i) d += got[i] == '<';
      mc_assert (d >= 2, "delivered is %s", got);
      for (i = 0; isspace ((unsigned char)got[i]); ++i);
      mc_assert (got[i] == '<', "delivered is %s", got);
      MR_FREE (got);
    }
  mc_assert (mem_leaks (desc, sizeof (desc)) == had, "blocks are lost");
  mc_outcome (mc_hash (text, n, at));
}
#define FAMILY(NAME, G) static void NAME (void) { docs (G, 1); }
/* the large families: cut in the thorough run only */
#define LARGE(NAME, G) static void NAME (void) { docs (G, mc_thorough); }
FAMILY (links2, g_links (2)) LARGE (interior, g_interior ()) LARGE (arrays, g_arrays (mc_thorough)) LARGE (strings, g_strings ()) FAMILY (cells, g_cells ())
LARGE (untyped, g_untyped ()) FAMILY (slices, g_slices (mc_thorough ? 4 : 2)) FAMILY (struct_slices, g_struct_slices (2)) LARGE (many, g_long ())
LARGE (values, g_values ()) FAMILY (unions, g_unions ()) FAMILY (sized, g_sized ()) FAMILY (texts, g_texts ()) LARGE (labels, g_labels ())
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (lengths), S (trees), S (junk), S (links2), S (interior), S (arrays), S (strings), S (cells), S (untyped), S (slices), S (struct_slices), S (many), S (values), S (unions), S (sized),
  S (texts), S (labels), { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
