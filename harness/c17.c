/* C17: each XML reader loads what either XML writer wrote, to the same object. */
#include "graphs.h"
#include "values.h"

static void
crosswise (graph_t g)
{
  mc_shard ();
  char before[Z_TEXT], got[4][Z_TEXT];
  strcpy (before, z_canon (g.root, g.zt, NULL));
  mc_note ("%s", before);
  int w, r, k, lossy = 0;
  for (w = 0; w < 2; ++w)
    {
      mr_rarray_t ra = g.ops->save (F_XML1 + w, g.root);
      mc_assert (ra.data.ptr != NULL, "xml%d: save failed", w + 1);
      /* a control character cannot be said in XML 1.0; see C05 */
      for (k = 0; k + 1 < ra.MR_SIZE; ++k)
	{
	  unsigned char c = ((char*)ra.data.ptr)[k];
	  if (c >= 128 || (c < 32 && c != '\t' && c != '\n')) lossy = 1;
	}
      char * esc = ra.data.ptr;
      while ((esc = strstr (esc, "&#x"))) { unsigned c = strtoul (esc + 3, &esc, 16); if (c >= 128 || (c < 32 && c != 9 && c != 10 && c != 13)) lossy = 1; }
      for (r = 0; r < 2; ++r)
	{
	  char * back = malloc (g.ops->size);
	  memset (back, 0xA5, g.ops->size);
	  mr_status_t st = g.ops->load (F_XML1 + r, &ra, back);
	  if (st != MR_SUCCESS && lossy) mc_skip ();
	  if (st != MR_SUCCESS) mc_note_add (" document: %s", z_doc (F_XML1, &ra));
	  mc_assert (st == MR_SUCCESS, "xml%d does not load what xml%d wrote", r + 1, w + 1);
	  strcpy (got[2 * w + r], z_canon (back, g.zt, NULL));
	  free (back);
	}
      z_drop (&ra);
    }
  if (lossy) mc_skip ();
  for (k = 1; k < 4; ++k)
    if (strcmp (got[0], got[k]))
      {
	mc_note_add (" got %s", got[0]);
	mc_fail ("xml%d loads what xml%d wrote as another object: %s", (k & 1) + 1, (k >> 1) + 1, got[k]);
      }
  /* what every format loses, is decided elsewhere */
  if (strcmp (before, got[0]))
    {
      char * back = malloc (g.ops->size);
      mr_rarray_t ra = g.ops->save (F_JSON, g.root);
      mc_assert (MR_SUCCESS == g.ops->load (F_JSON, &ra, back), "json: load failed");
      mc_assert (0 == strcmp (got[0], z_canon (back, g.zt, NULL)), "both change the object: %s", got[0]);
      free (back);
    }
  mc_outcome (mc_hash (before, strlen (before), 0));
}
/* text: all words over characters with a meaning in XML */
TYPEDEF_STRUCT (xt_t, (char *, s), char c, (vca_t, ca), (char *, a, [2]))
static const zf_t zf_xt_t[] = { ZSTR (xt_t, s), ZRAW (xt_t, c), ZCA (xt_t, ca), ZSTR (xt_t, a), ZEND };
static const zt_t zt_xt_t = { "xt_t", sizeof (xt_t), zf_xt_t };
Z_OPS (xt_t)
static graph_t
g_text (void)
{
  static const char * const letter[] = { "", "<", ">", "&", "\"", "'", ";", "#", " ", "\n", "\t", "a", "0", "]", "[", "!", "-", "/", "\r", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "amp", "x41", "CDATA", "\\" };
  char t[64] = "";
  int i, n = mc_thorough ? 4 : 3;
  for (i = 0; i < n; ++i) strcat (t, letter[mc_choose (26)]);
  xt_t * x = mem_new (sizeof (xt_t));
  x->s = mem_str (t);
  x->c = "x<&\"' 0\n"[strlen (t) % 8];
  for (i = 0; i < 5 && t[i] && !(t[i] & 128); ++i) x->ca[i] = t[i];
  x->a[1] = mem_str (t);
  return ((graph_t) { &ops_xt_t, &zt_xt_t, x });
}
static graph_t
g_unicode (void)
{
  /* sixteen characters of UTF-8 at a time */
  int block = mc_choose (mc_thorough ? 0x110000 / 16 : 0x10000 / 16), i;
  char t[80], * p = t;
  for (i = 0; i < 16; ++i)
    {
      unsigned c = block * 16 + i;
      if ((c < 32 && c != 9 && c != 10 && c != 13) || (c >= 0xd800 && c < 0xe000) || c == 0xfffe || c == 0xffff) continue;
      if (c < 0x80) *p++ = c;
      else if (c < 0x800) { *p++ = 0xc0 | c >> 6; *p++ = 0x80 | (c & 63); }
      else if (c < 0x10000) { *p++ = 0xe0 | c >> 12; *p++ = 0x80 | (c >> 6 & 63); *p++ = 0x80 | (c & 63); }
      else { *p++ = 0xf0 | c >> 18; *p++ = 0x80 | (c >> 12 & 63); *p++ = 0x80 | (c >> 6 & 63); *p++ = 0x80 | (c & 63); }
    }
  *p = 0;
  xt_t * x = mem_new (sizeof (xt_t));
  x->s = mem_str (t); x->c = 'x';
  return ((graph_t) { &ops_xt_t, &zt_xt_t, x });
}
#define FAMILY(NAME, G) static void NAME (void) { crosswise (G); }
FAMILY (links2, g_links (2)) FAMILY (links3, g_links (3)) FAMILY (interior, g_interior ()) FAMILY (arrays, g_arrays (mc_thorough)) FAMILY (strings, g_strings ()) FAMILY (cells, g_cells ())
FAMILY (untyped, g_untyped ()) FAMILY (slices, g_slices (mc_thorough ? 4 : 3)) FAMILY (struct_slices, g_struct_slices (mc_thorough ? 3 : 2)) FAMILY (many, g_long ())
FAMILY (values, g_values ()) FAMILY (unions, g_unions ()) FAMILY (sized, g_sized ()) FAMILY (texts, g_texts ()) FAMILY (labels, g_labels ()) FAMILY (text, g_text ()) FAMILY (unicode, g_unicode ())
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (links2), S (interior), S (arrays), S (strings), S (cells), S (untyped), S (slices), S (struct_slices), S (many), S (values), S (unions), S (sized), S (texts), S (labels), S (text), S (unicode), S (links3), { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
