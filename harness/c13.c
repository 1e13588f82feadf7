/* C13: no text makes a loader crash, hang, leak or touch foreign memory. */
#include "hostile.h"

static int
has_ref (const char * text, size_t n)
{
  return (memmem (text, n, "ref", 3) || memmem (text, n, "*", 1));
}

static char shown[1800];
static void
try (int fmt, const char * text, size_t n, const z_ops_t * ops, int how, const zt_t * zt)
{
  static z_reach_t r;
  char leak[256];
  char * exact = malloc (n + 1);
  memcpy (exact, text, n);
  exact[n] = 0;
  mr_rarray_t ra = { .data = { exact }, .MR_SIZE = n + 1, .alloc_size = n + 1, .type = "string" };
  size_t i, at = 0;
  for (i = 0; i < n && at + 8 < sizeof (shown); ++i)
    {
      unsigned char c = text[i];
      if (c < 32 || c > 126) at += sprintf (shown + at, "\\x%02x", c); else shown[at++] = c;
    }
  shown[at] = 0;
  mc_note ("%s %s: %s", f_name[fmt], ops->name, shown);
  char * obj = mem_new (ops->size);
  memset (obj, 0xA5, ops->size);
  int had = mem_leaks (NULL, 0);
  mr_status_t st = ops->load (fmt, &ra, obj);
  free (exact);
  if (st != MR_SUCCESS)
    {
      int left = mem_leaks (leak, sizeof (leak));
      mc_assert (left == had, "%s: refused, but %d blocks are lost", f_name[fmt], left - had);
    }
  else if (how == FREE || (how == NOREF && !has_ref (text, n)))
    {
      if (zt)
	{
	  z_reach (&r, obj, zt);
	  if (surplus (&r)) return;
	  char * why = z_owned (&r, NULL);
	  mc_assert (!why, "%s: what was loaded is not of the declared type: %s", f_name[fmt], why);
	}
      if (ops == &ops_gc_t && g_cells_aliased ((void*)obj)) mem_bad_free = "memory behind a shared pointer cell is not released exactly once";
      mc_assert (MR_SUCCESS == ops->free (obj), "%s: what was loaded cannot be freed", f_name[fmt]);
      int left = mem_leaks (leak, sizeof (leak));
      if (mem_bad_free && left != had) mc_fail ("%s", mem_bad_free);
      mem_bad_free = NULL;
      mc_assert (left == had, "%s: accepted, but %d blocks cannot be freed", f_name[fmt], left - had);
    }
  mem_release (obj);
  if (st == MR_SUCCESS) mc_outcome (mc_hash (text, n, fmt * 64 + ops->name[1]));
}

/* ---- all sequences of tokens ---- */
static const char * const cinit_tok[] = { "{", "}", ",", ".i = ", ".p = ", ".s = ", "(int[])", "/* ref = 1 */", "/* ref_idx = 2 */", "\"\"", "NULL", "-1", "'a'", "f", "1.5", "+", "I", ".x", "(", ")", NULL };
static const char * const json_tok[] = { "{", "}", "[", "]", ",", "\"i\" : ", "\"n\" : ", "\"s\" : ", "\"ref\" : 1", "\"ref_idx\" : 2", "\"x\"", "null", "-1", "true", "1.5", "\"isnull\" : true", "\"ref_content\" : 2", NULL };
static const char * const scm_tok[] = { "(", ")", "`(", ",", " . ", "(i . ", "(p . ", "\"x\"", " i ", " #f ", " -1 ", " 1.5 ", "#\\a", "#;(ref 1)", "#;(ref_idx 2)", "(n ", "'", "+i", NULL };
static const char * const xml_tok[] = { "<h1_t>", "</h1_t>", "<i>", "</i>", "<p ref=\"1\">", "<p>", "</p>", "<n>", "</n>", "<n ref_idx=\"2\"/>", "1", "&lt;", "<s>", "</s>", "<!-- -->", "<a b=\"c\">", "</a>", "<?xml version=\"1.0\"?>", NULL };
static const char * const yaml_tok[] = { "i: ", "p: ", "n: ", "s: ", "- ", "\n", "\n  ", "1", "&ref_idx_2 ", "*ref_idx_2", "*ref_1", "{", "}", "[", "]", ",", "\"x\"", "!!int ", "~", "---", "|\n", NULL };
static const char * const * const toks[] = { cinit_tok, json_tok, scm_tok, xml_tok, xml_tok, yaml_tok };
static const char * const frame[][2] = { { "{ .n = (h1_t[]){ ", " }, .i = 1 }" }, { "{ \"n\" : [", "], \"i\" : 1 }" }, { "((n (", ")) (i . 1))" }, { "<h1_t><n><n>", "</n></n></h1_t>" }, { "<h1_t><n><n>", "</n></n></h1_t>" }, { "n:\n  - i: 5\n    p: ", "\ni: 1" } };

static void
sequences (void)
{
  int fmt = mc_choose (6), ti = mc_choose (NT), fr = mc_choose (2), n = 0, k, len;
  const char * const * tok = toks[fmt];
  while (tok[n]) ++n;
  len = mc_choose (mc_thorough ? 6 : 5);
  if ((fr || ti) && len > 3 + mc_thorough) mc_skip ();
  if (fmt == F_XML2 && len > 3 + mc_thorough) mc_skip ();
  char text[512] = "";
  if (fr) strcat (text, frame[fmt][0]);
  for (k = 0; k < len; ++k)
    {
      int c = mc_choose (n);
      if (k == 0) mc_shard ();
      strcat (text, tok[c]);
    }
  if (fr) strcat (text, frame[fmt][1]);
  /* the root of XML is named after the type */
  char * r;
  if (ti && (fmt == F_XML1 || fmt == F_XML2)) while ((r = strstr (text, "h1_t"))) memcpy (r, targets[ti].ops->name, 4);
  try (fmt, text, strlen (text), targets[ti].ops, targets[ti].how, targets[ti].zt);
}

/* ---- all edits of documents the library wrote ---- */
static const char special[] = "\0\n \"'\\{}[]()<>&;:,.*/#-+|!0ae=\x80\xff";
#define NSPECIAL ((int)sizeof (special) - 1)
static const char * const number[] = { "0", "1", "2", "3", "4", "5", "9", "-1", "-2", "100", "65536", "4294967295", "2147483648", "99999999999999999999", "1e999", "0x", "", "x", "\"\"" };
#define NNUMBER ((int)(sizeof (number) / sizeof (number[0])))

static int
word (int c) { return ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '-' || c == '.'); }
static int tb[1024], te[1024], ntok;
static void
tokenize (const char * s, int n)
{
  int i = 0;
  for (ntok = 0; i < n && ntok < 1024; )
    {
      int b = i;
      if (s[i] == ' ' || s[i] == '\n') { ++i; continue; }
      if (s[i] == '"') { for (++i; i < n && s[i] != '"'; ++i); ++i; if (i > n) i = n; }
      else if (word (s[i])) while (i < n && word (s[i])) ++i;
      else ++i;
      tb[ntok] = b;
      te[ntok++] = i;
    }
}

static void
edits (graph_t g, int how, const zt_t * zt)
{
  static char doc[1 << 16], out[1 << 17];
  int fmt = mc_choose (6), n, i, j, m = 0;
  mc_shard ();
  mr_rarray_t ra = g.ops->save (fmt, g.root);
  if (!ra.data.ptr) mc_skip ();
  n = ra.MR_SIZE - 1;
  if (n > 30000) mc_skip ();
  memcpy (doc, ra.data.ptr, n + 1);
  z_drop (&ra);
  tokenize (doc, n);
#define PUT(B, E) do { memcpy (out + m, doc + (B), (E) - (B)); m += (E) - (B); } while (0)
#define STR(S) do { strcpy (out + m, S); m += strlen (S); } while (0)
  switch (mc_choose (9))
    {
    case 0: /* cut off */
      i = mc_choose (n + 1); PUT (0, i);
      break;
    case 1: /* a byte is lost */
      i = mc_choose (n); PUT (0, i); PUT (i + 1, n);
      break;
    case 2: /* a byte is another one */
      i = mc_choose (n); PUT (0, i); out[m++] = special[mc_choose (NSPECIAL)]; PUT (i + 1, n);
      break;
    case 3: /* a byte too many */
      i = mc_choose (n + 1); PUT (0, i); out[m++] = special[mc_choose (NSPECIAL)]; PUT (i, n);
      break;
    case 4: /* a run of tokens is lost */
      if (!ntok) mc_skip ();
      i = mc_choose (ntok); j = i + mc_choose (ntok - i);
      if (!mc_thorough && j - i > 24) mc_skip ();
      PUT (0, tb[i]); PUT (te[j], n);
      break;
    case 5: /* a run of tokens comes twice */
      if (!ntok) mc_skip ();
      i = mc_choose (ntok); j = i + mc_choose (ntok - i);
      if (!mc_thorough && j - i > 24) mc_skip ();
      PUT (0, te[j]); PUT (tb[i], n);
      break;
    case 6: /* a token is another one of this document */
      if (!ntok) mc_skip ();
      i = mc_choose (ntok); j = mc_choose (ntok);
      if (i == j) mc_skip ();
      PUT (0, tb[i]); PUT (tb[j], te[j]); PUT (te[i], n);
      break;
    case 7: /* a token is a number, or nearly */
      if (!ntok) mc_skip ();
      i = mc_choose (ntok); j = mc_choose (NNUMBER);
      PUT (0, tb[i]); STR (number[j]); PUT (te[i], n);
      break;
    case 8: /* two neighbours change places */
      if (ntok < 2) mc_skip ();
      i = mc_choose (ntok - 1);
      PUT (0, tb[i]); PUT (tb[i + 1], te[i + 1]); PUT (te[i], tb[i + 1]); PUT (tb[i], te[i]); PUT (te[i + 1], n);
      break;
    }
  try (fmt, out, m, g.ops, how, zt);
}

static void rich (void) { int how; graph_t g = g_rich (&how); edits (g, how, g.zt); }
#define FAMILY(NAME, G, HOW) static void NAME (void) { graph_t g = G; edits (g, HOW, g.zt); }
FAMILY (links, g_links (1), NOREF) FAMILY (unions, g_unions (), LOOSE) FAMILY (texts, g_texts (), NOREF)
#define DEEP(NAME, G, HOW) static void NAME (void) { if (!mc_thorough) mc_skip (); graph_t g = G; edits (g, HOW, g.zt); }
DEEP (strings, g_strings (), NOREF) DEEP (cells, g_cells (), NOREF) DEEP (struct_slices, g_struct_slices (2), NOREF) DEEP (sized, g_sized (), NOREF) DEEP (values, g_values (), FREE)

/* ---- nesting far beyond any sane depth ---- */
static void
nesting (void)
{
  static const char * const open[6][5] = {
    { "{", "(int[]){", "{ .n = (h1_t[]){{", "(", "-" }, { "{", "[", "{ \"n\" : [{", "{ \"n\" : ", "[[" },
    { "(", "`(", "((n ((", "((n (", "'(" }, { "<h1_t>", "<n>", "<h1_t><n><n>", "<h1_t", "<a b=\"" }, { "<h1_t>", "<n>", "<h1_t><n><n>", "<h1_t", "<a b=\"" }, { "[", "{", "- ", "n: [", "? " } };
  static const char * const close[6][5] = {
    { "}", "}", "}}}", ")", "" }, { "}", "]", "}]}", "}", "]]" }, { ")", ")", "))))", ")))", ")" }, { "</h1_t>", "</n>", "</n></n></h1_t>", ">", "\">" }, { "</h1_t>", "</n>", "</n></n></h1_t>", ">", "\">" }, { "]", "}", "", "]", "" } };
  static const int depths[] = { 10, 100, 1000, 3000, 20000, 100000 };
  int fmt = mc_choose (6), k = mc_choose (5), d = mc_choose (mc_thorough ? 6 : 5), closed = mc_choose (3), i, ti = mc_choose (3);
  mc_shard ();
  char * text = malloc (depths[d] * 40 + 100), * p = text;
  if (fmt == F_XML1 || fmt == F_XML2) if (k > 0) p = stpcpy (p, "<h1_t>");
  for (i = 0; i < depths[d]; ++i) p = stpcpy (p, open[fmt][k]);
  if (closed == 2) p = stpcpy (p, "1");
  if (closed) for (i = 0; i < depths[d]; ++i) p = stpcpy (p, close[fmt][k]);
  if (closed) if (fmt == F_XML1 || fmt == F_XML2) if (k > 0) p = stpcpy (p, "</h1_t>");
  try (fmt, text, p - text, targets[ti].ops, targets[ti].how, NULL);
  free (text);
}

#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (sequences), S (rich), S (links), S (unions), S (texts), S (nesting), S (strings), S (cells), S (struct_slices), S (sized), S (values), { 0 } };
static void mc_setup (void)
{
  z_setup ();
  g_warm ();
  xmlSetGenericErrorFunc (NULL, z_quiet);
}
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
