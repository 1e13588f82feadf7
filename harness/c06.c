/* C06: text comes back byte for byte. */
#include "values.h"

typedef char tca4_t[4];
TYPEDEF_STRUCT (tt_t, (char *, s), (tca4_t, ca), (char *, a, [2]), (char **, v, , , { "n" }, "string"), (int, n), (char *, null), (int, after))
static int fmt;

/* what each format is able to hold: XML 1.0 and YAML documents are Unicode text */
static int
utf8 (const unsigned char * p, size_t len, int xml)
{
  const unsigned char * end = p + len;
  while (p < end)
    {
      unsigned c = *p++, n = 0, min = 0;
      if (c >= 0xf0) { n = 3; min = 0x10000; if (c > 0xf4) return (0); c &= 7; }
      else if (c >= 0xe0) { n = 2; min = 0x800; c &= 15; }
      else if (c >= 0xc2) { n = 1; min = 0x80; c &= 31; }
      else if (c >= 0x80) return (0);
      while (n--) { if (p == end || (*p & 0xc0) != 0x80) return (0); c = c << 6 | (*p++ & 63); }
      if (c < min || c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) return (0);
      if (xml && c < 32 && c != 9 && c != 10 && c != 13) return (0);
      if (xml && (c == 0xfffe || c == 0xffff)) return (0);
    }
  return (1);
}
static int
holds (int f, const char * t, size_t len)
{
  return (f == F_XML2 ? utf8 ((void*)t, len, 1) : f == F_YAML ? utf8 ((void*)t, len, 0) : 1);
}
Z_OPS (tt_t)

static int same (const char * x, const char * y) { return (x && y ? 0 == strcmp (x, y) : x == y); }
static void
check (const char * t, size_t len)
{
  tt_t x, y;
  memset (&x, 0, sizeof (x));
  if (!holds (fmt, t, len)) return;
  mc_note ("%s \"%s\"", f_name[fmt], mc_quote (t, len));
  ++mc_sh->evals;
  x.s = mem_str (t);
  strncpy (x.ca, t, sizeof (x.ca)); /* to the last element, without a terminator */
  x.a[0] = mem_str (""); x.a[1] = mem_str (t);
  x.v = mem_new (x.n = 2 * sizeof (char*));
  x.v[0] = mem_str (t); x.after = 5;
  if (len > 4 && !holds (fmt, t, 4)) x.ca[0] = 0;
  mr_rarray_t ra = ops_tt_t.save (fmt, &x);
  if (!ra.data.ptr) mc_fail ("%s: text is not saved", f_name[fmt]);
  memset (&y, 0xA5, sizeof (y));
  mr_status_t st = ops_tt_t.load (fmt, &ra, &y);
  if (st != MR_SUCCESS) { mc_note_add (" document: %s", z_doc (fmt, &ra)); mc_fail ("%s: document with the text is not loaded", f_name[fmt]); }
#define SAME(E, WHAT) if (!(E)) { mc_note_add (" document: %s", z_doc (fmt, &ra)); mc_fail ("%s: %s differs", f_name[fmt], WHAT); }
  SAME (same (x.s, y.s), "string");
  SAME (0 == strncmp (x.ca, y.ca, sizeof (x.ca)), "character array");
  SAME (same (x.a[0], y.a[0]), "empty string");
  SAME (same (x.a[1], y.a[1]), "string in an array");
  SAME (y.n == x.n && y.v && same (x.v[0], y.v[0]), "string in a sized block");
  SAME (y.v[1] == NULL, "null string in a sized block");
  SAME (y.null == NULL, "null string");
  SAME (y.after == 5, "member after the text");
  mc_outcome (mc_hash (t, len, fmt));
  z_drop (&ra);
  mem_purge ();
}

/* every pair of bytes */
static void
pairs (void)
{
  char t[3] = { 0 };
  int c;
  fmt = mc_choose (F_N);
  t[0] = 1 + mc_choose (255);
  mc_shard ();
  check (t, 1);
  for (c = 1; c < 256; ++c) { t[1] = c; check (t, 2); }
}
/* all words over the characters that mean something to one format or another */
static const char special[] = "\"'\\<>&;#% \n\t\r017fxnu{}()[],:-*|~@!?=/.A\xc3\xa9\x80\x7f\x01";
static void
words3 (void)
{
  char t[4] = { 0 };
  int i, n = sizeof (special) - 1;
  fmt = mc_choose (F_N);
  t[0] = special[mc_choose (n)];
  t[1] = special[mc_choose (n)];
  mc_shard ();
  for (i = 0; i < n; ++i) { t[2] = special[i]; check (t, 3); }
}
static void
words (void)
{
  static const char * const alphabet[] = { "\"\\x1 \n", "<&;#]>", " -:#a\n", "\\0u\"'7", "|;x)\\\"", "\xc3\xa9\xe2\x82\xac\"", "\r\n\t a\\", "*?~!&%" };
  char t[9] = { 0 };
  const char * a = alphabet[mc_choose (8)];
  int i, k, n = strlen (a), len = mc_thorough ? 6 : 5;
  fmt = mc_choose (F_N);
  for (i = 0; i < len - 2; ++i) t[i] = a[mc_choose (n)];
  mc_shard ();
  for (i = 0; i < n; ++i) for (k = 0; k < n; ++k) { t[len - 2] = a[i]; t[len - 1] = a[k]; check (t, len); }
  for (i = 0; i < n; ++i) { t[len - 2] = a[i]; t[len - 1] = 0; check (t, len - 1); }
}
/* words that mean something else */
static const char * const reserved[] = { "", " ", "  ", "null", "NULL", "Null", "nil", "~", "true", "false", "t", "0", "-1", "0x10", "1e5", ".5", ".inf", "nan", ".nan", "yes", "no", "- a", "-", "--", "---", "--- a", "...", "?", "? a", ":", ": a", "a:",
  "a: b", "a : b", "#", "#a", "a #b", "a#b", "&a", "*a", "!a", "!!str a", "%", "%YAML 1.1", "@", "`", "|", "|\n a", ">", "> a", "[", "]", "[]", "{", "}", "{}", ",", "a,b", "[a, b]", "{a: b}", "'", "''", "\"", "\"\"", "\"a\"", "'a'", "\\", "\\\\", "\\n",
  "\\x41", "\\101", "\\u0041", "\\0", "&amp;", "&lt;", "&#65;", "&#x41;", "&", "&;", "&amp", "<![CDATA[a]]>", "]]>", "<!-- a -->", "<a>", "</a>", "<a/>", "<?xml?>", "<tt_t>", "//", "// a", "/* a */", "/*", "*/", "; a", "#| a |#", "#\\x", "#;", "(a . b)", "()",
  "\n", "\n\n", "\n a", "a\n", "a\nb", "a\n\nb", "a\n b\n", " a", "a ", " a ", "\ta", "a\t", "\r", "\r\n", "a\r\nb", "\xc2\x85", "\xe2\x80\xa8", "\xef\xbb\xbf", "\xef\xbb\xbf""a", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbd", "\xc2\x80", "\xdf\xbf", "\x7f",
  "a\\", "a\\\n", "a\\\nb", "%s", "%n", "%%", "$a", "`a`", "a\x01""1", "\x01""f", "\x1b""b", "\x07""7", "\x7f""0", "abcd", "abcde", "<<: a", "=", "1:2", "12:30:45", "2001-01-01", "0o7", "1_000", "+1", ".", "..", "a.b" };
#define N_RESERVED (sizeof (reserved) / sizeof (reserved[0]))
static void
reserved_words (void)
{
  char t[64];
  int i = mc_choose (N_RESERVED), k;
  fmt = mc_choose (F_N);
  mc_shard ();
  check (reserved[i], strlen (reserved[i]));
  for (k = 0; k < N_RESERVED; ++k)
    {
      sprintf (t, "%s%s", reserved[i], reserved[k]);
      check (t, strlen (t));
      sprintf (t, "%s%s%s", reserved[k], reserved[i], reserved[k]);
      check (t, strlen (t));
    }
}
/* long texts: every length around the powers of two where buffers grow, of one character, with one other character at the start, middle or end */
static void
lengths (void)
{
  static const char fill[] = "a\" \\\n&<\x01\xff\t'";
  static char t[20001];
  int base = mc_choose (mc_thorough ? 14 : 9), f = mc_choose (sizeof (fill) - 1), o = mc_choose (sizeof (fill) - 1), at = mc_choose (4), d;
  fmt = mc_choose (F_N);
  mc_shard ();
  for (d = -2; d <= 2; ++d)
    {
      int len = (1 << base) + d;
      if (len <= 0) continue;
      memset (t, fill[f], len);
      t[len] = 0;
      t[at == 0 ? 0 : at == 1 ? len / 2 : at == 2 ? len - 1 : len > 72 ? 72 : len - 1] = fill[o];
      check (t, len);
    }
}
/* all characters of the plane in UTF-8, ten to a text */
static void
unicode (void)
{
  int block = mc_choose (mc_thorough ? 0x110000 / 64 : 0x10000 / 64 + 64), i;
  char t[8];
  fmt = mc_choose (F_N);
  mc_shard ();
  for (i = 0; i < 64; ++i)
    {
      unsigned c = block * 64 + i;
      if (!mc_thorough && block >= 0x10000 / 64) c = 0x10000 + (block - 0x10000 / 64) * 64 * 256 + i;
      if (c == 0) continue;
      if (c < 0x80) sprintf (t, "%c", c);
      else if (c < 0x800) sprintf (t, "%c%c", 0xc0 | c >> 6, 0x80 | (c & 63));
      else if (c < 0x10000) sprintf (t, "%c%c%c", 0xe0 | c >> 12, 0x80 | (c >> 6 & 63), 0x80 | (c & 63));
      else sprintf (t, "%c%c%c%c", 0xf0 | c >> 18, 0x80 | (c >> 12 & 63), 0x80 | (c >> 6 & 63), 0x80 | (c & 63));
      check (t, strlen (t));
    }
}

static mc_scope_t mc_scopes[] = { { "reserved", reserved_words }, { "pairs", pairs }, { "words3", words3 }, { "words", words }, { "lengths", lengths }, { "unicode", unicode }, { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
