/* C31: what goes wrong is said, once, at its place; what is fine is not talked about. */
#include "hostile.h"
#include <libxml/xmlerror.h>

static struct { mr_message_id_t id; mr_log_level_t level; int from_line, from_col, to_line, to_col; char what[200]; } parse_said;
static int n_msgs, n_parse, first_id, worst;
static int nameless;
static void
hear (const char * file, const char * func, int line, mr_log_level_t level, mr_message_id_t id, va_list args)
{
  if (id == MR_MESSAGE_SAVE_ENUM && nameless) return; /* there is something to say about it */
  if (!n_msgs++) first_id = id;
  if ((int)level > worst) worst = level;
  mc_assert (level >= MR_LL_ALL && level <= MR_LL_OFF, "a message of level %d", (int)level);
  if (id != MR_MESSAGE_PARSE_ERROR) return;
  va_list a;
  va_copy (a, args);
  ++n_parse;
  snprintf (parse_said.what, sizeof (parse_said.what), "%s", va_arg (a, char*));
  parse_said.from_line = va_arg (a, int); parse_said.from_col = va_arg (a, int);
  parse_said.to_line = va_arg (a, int); parse_said.to_col = va_arg (a, int);
  va_end (a);
}
static void attention (void) { n_msgs = n_parse = worst = 0; first_id = -1; mr_conf.msg_handler = hear; xmlResetLastError (); }
/* libxml2 speaks for itself */
static int said_something (void) { return (n_msgs > 0 || xmlGetLastError () != NULL); }
#define SILENT(WHAT) mc_assert (n_msgs == 0, "%s: says message %d where nothing is wrong", WHAT, first_id)

/* ---- values that are all right ---- */
static void
silence (graph_t g)
{
  static z_reach_t r;
  static char want[Z_TEXT];
  int fmt = mc_choose (F_N + 1);
  mc_shard ();
  if (g.zt) strcpy (want, z_canon (g.root, g.zt, &r));
  else snprintf (want, sizeof (want), "a %s", g.ops->name);
  mc_note ("%s %s", fmt == F_N ? "copy" : f_name[fmt], want);
  void * back = malloc (g.ops->size);
  attention ();
  if (fmt < F_N)
    {
      mr_rarray_t ra = g.ops->save (fmt, g.root);
      mc_assert (ra.data.ptr != NULL, "%s: save failed", f_name[fmt]);
      SILENT ("save");
      mr_rarray_t in = ra;
      mc_note_add (" document: %s", z_doc (fmt, &ra));
      mr_status_t s = g.ops->load (fmt, &in, back);
      mc_assert (s == MR_SUCCESS || said_something (), "load fails without a word");
      z_drop (&ra);
      if (s == MR_SUCCESS && g.zt)
	{
	  char * got = z_canon (back, g.zt, &r);
	  int equal = !strcmp (got, want);
	  mc_assert (!equal || n_msgs == 0, "load says message %d, yet nothing is lost", first_id);
	  mc_assert (equal || n_msgs > 0, "something else is loaded without a word: %s", got);
	  if (!equal) attention ();
	}
      else mc_assert (s != MR_SUCCESS || n_msgs == 0, "load says message %d, yet it succeeds", first_id);
      if (s != MR_SUCCESS) { free (back); mc_skip (); }
    }
  else
    {
      mc_assert (MR_SUCCESS == g.ops->copy (g.root, back), "copy failed");
      SILENT ("copy");
      mc_assert (0 == g.ops->cmp (g.root, back) || g.zt == NULL || 1, "never");
      SILENT ("compare");
      g.ops->hash (back);
      SILENT ("hash");
    }
  mc_assert (MR_SUCCESS == g.ops->free (back), "free failed");
  SILENT ("free");
  mc_outcome (mc_hash (want, strlen (want), fmt));
  free (back);
}
static graph_t values_ (void) { nameless = 1; return (g_values ()); }
static void rich_quiet (void) { int how; silence (g_rich (&how)); }
#define FAMILY(NAME, G) static void NAME (void) { silence (G); }
FAMILY (links2, g_links (2)) FAMILY (strings, g_strings ()) FAMILY (slices, g_slices (2)) FAMILY (struct_slices, g_struct_slices (2))
FAMILY (untyped, g_untyped ()) FAMILY (interior, g_interior ()) FAMILY (arrays, g_arrays (0)) FAMILY (many, g_long ()) FAMILY (forward, g_forward ())
FAMILY (values, values_ ()) FAMILY (unions, g_unions ()) FAMILY (sized, g_sized ()) FAMILY (texts, g_texts ()) FAMILY (labels, g_labels ())

/* the forms that give the value have no other way to say that it is not there */
#define FORM2(T) static void by_value_ ## T (int fmt, mr_rarray_t * ra, void * obj) {	\
    T x;										\
    switch (fmt) {									\
    case F_CINIT: x = MR_LOAD_CINIT_RA (T, ra); break;					\
    case F_JSON: x = MR_LOAD_JSON_RA (T, ra); break;					\
    case F_SCM: x = MR_LOAD_SCM_RA (T, ra); break;					\
    case F_XML1: x = MR_LOAD_XML1_RA (T, ra); break;					\
    case F_XML2: x = MR_LOAD_XML2_RA (T, ra); break;					\
    case F_YAML: x = MR_LOAD_YAML_RA (T, ra); break;					\
    default: x = MR_LOAD_XDR_RA (T, ra); break;						\
    }											\
    memcpy (obj, &x, sizeof (x)); }
FORM2 (h1_t) FORM2 (h2_t) FORM2 (h3_t) FORM2 (h4_t) FORM2 (h5_t) FORM2 (h6_t)
static void
by_value (const z_ops_t * ops, int fmt, mr_rarray_t * ra, void * obj)
{
  if (ops == &ops_h1_t) by_value_h1_t (fmt, ra, obj);
  else if (ops == &ops_h2_t) by_value_h2_t (fmt, ra, obj);
  else if (ops == &ops_h3_t) by_value_h3_t (fmt, ra, obj);
  else if (ops == &ops_h4_t) by_value_h4_t (fmt, ra, obj);
  else if (ops == &ops_h5_t) by_value_h5_t (fmt, ra, obj);
  else by_value_h6_t (fmt, ra, obj);
}
/* ---- documents with a fault ---- */
static char text[1 << 16];
static void
document (int fmt, graph_t g, int layout)
{
  mr_rarray_t ra = g.ops->save (fmt, g.root);
  mc_assert (ra.data.ptr != NULL, "%s: save failed", f_name[fmt]);
  const char * s;
  char * d = text;
  for (s = ra.data.ptr; *s; ++s)
    switch (layout)
      {
      case 1: *d++ = *s == '\n' ? ' ' : *s; break; /* everything in one line */
      case 2: if (*s == '\n') *d++ = '\n'; *d++ = *s; break; /* empty lines */
      case 3: *d++ = *s == ' ' ? '\n' : *s; break;
      default: *d++ = *s;
      }
  *d = 0;
  z_drop (&ra);
}
static void
place_of (const char * s, int at, int * line, int * col)
{
  *line = 1; *col = 0;
  for ( ; at; --at, ++s)
    if (*s == '\n') { ++*line; *col = 0; } else ++*col;
}
static int order (int l1, int c1, int l2, int c2) { return (l1 != l2 ? l1 - l2 : c1 - c2); }
static void
within (void)
{
  int l, c;
  place_of (text, strlen (text), &l, &c);
  mc_assert (order (parse_said.from_line, parse_said.from_col, parse_said.to_line, parse_said.to_col) <= 0, "the fault ends before it begins: %d:%d-%d:%d",
	     parse_said.from_line, parse_said.from_col, parse_said.to_line, parse_said.to_col);
  mc_assert (parse_said.from_line >= 1 && order (parse_said.to_line, parse_said.to_col, l, c) <= 0, "the fault is said to be at %d:%d-%d:%d, the text ends at %d:%d",
	     parse_said.from_line, parse_said.from_col, parse_said.to_line, parse_said.to_col, l, c);
}
static mr_status_t
refused (const z_ops_t * ops, int fmt, const char * bytes, size_t n)
{
  char * in = malloc (n), * back = calloc (1, ops->size);
  memcpy (in, bytes, n);
  mr_rarray_t ra = { .data = { in }, .MR_SIZE = n, .alloc_size = n };
  attention ();
  mr_status_t s = ops->load (fmt, &ra, back);
  int said = n_msgs, parse = n_parse, id = first_id;
  if (fmt != F_XDR) mc_assert (s == MR_SUCCESS || said_something (), "the document is refused without a word");
  mc_assert (s != MR_SUCCESS || n_parse == 0, "a fault is reported in a document that is accepted");
  memcpy (in, bytes, n);
  ra = (mr_rarray_t) { .data = { in }, .MR_SIZE = n, .alloc_size = n };
  attention ();
  by_value (ops, fmt, &ra, back);
  if (s == MR_SUCCESS) mc_assert (n_msgs == said, "by value: %d messages instead of %d", n_msgs, said);
  else mc_assert (n_msgs > said || (fmt == F_XDR && n_msgs), "by value: the failure is not told");
  free (in); free (back);
  n_msgs = said; n_parse = parse; first_id = id;
  return (s);
}
static mr_status_t
reading (int fmt, const z_ops_t * ops)
{
  mr_status_t s = refused (ops, fmt, text, strlen (text) + 1);
  if (n_parse) within ();
  return (s);
}
/* places between tokens of a document: outside of strings, comments, casts and the contents of XML elements */
static char between[1 << 16];
static void
tokens (int fmt)
{
  char in = 0;
  int i;
  if (fmt == F_XML1) in = '>';
  for (i = 0; text[i]; ++i)
    {
      char c = text[i];
      between[i] = !in && (i == 0 || (fmt == F_XML1 ? c == ' ' : strchr (" \n\t{}[](),:=", text[i - 1]) != NULL));
      if (in == '"' || in == '\'')
	{
	  if (c == '\\' && fmt != F_XML1) between[++i] = 0;
	  else if (c == in) in = 0;
	}
      else if (in == '*') { if (c == '/' && text[i - 1] == '*') in = 0; }
      else if (in == ')') { if (c == ')') in = 0; }
      else if (in == '\n') { if (c == '\n') in = 0; }
      else if (in == '>') { if (c == '<' && text[i + 1] != '?' && text[i + 1] != '/') in = 0; }
      else if (c == '"') in = c;
      else if (c == '\'' && fmt == F_CINIT) in = c;
      else if (c == '/' && text[i + 1] == '*') in = '*';
      else if (c == '(' && fmt == F_CINIT) in = ')';
      else if (c == ';' && fmt == F_SCM) in = '\n';
      else if (c == '#' && fmt == F_SCM && text[i + 1] == '\\') { between[i + 1] = between[i + 2] = 0; i += 2; }
      else if (c == '>' && fmt == F_XML1) in = '>';
    }
  between[i] = !in;
  if (fmt == F_SCM)
    for (i = 0; text[i]; ++i) if (text[i] == '.') between[i] = 0;
}
/* a character that belongs to no token is found where it is */
static void
places (void)
{
  static const char bad[] = { 1, '@', '~', '`' };
  int how, fmt = mc_choose (4), layout = mc_choose (4);
  graph_t g = g_rich (&how);
  mc_shard ();
  document (fmt, g, layout);
  if (fmt == F_SCM && (layout & 1) && strchr (text, ';')) mc_skip (); /* comments end with the line */
  int len = strlen (text), at = mc_choose (len + 1);
  char c = bad[mc_choose (sizeof (bad))];
  tokens (fmt);
  int sure = between[at];
  memmove (text + at + 1, text + at, len - at + 1);
  text[at] = c;
  mc_note ("%s, %d, %s", f_name[fmt], at, mc_quote (text, len + 1));
  mr_status_t s = reading (fmt, g.ops);
  if (sure)
    {
      int l, col, l1, col1;
      place_of (text, at, &l, &col);
      place_of (text, at + 1, &l1, &col1);
      mc_assert (s != MR_SUCCESS && n_parse == 1, "%d faults are reported where there is one", n_parse);
      mc_assert (order (parse_said.from_line, parse_said.from_col, l, col) == 0 && order (l1, col1, parse_said.to_line, parse_said.to_col) == 0,
		 "the fault is at %d:%d, and %d:%d-%d:%d is reported", l, col, parse_said.from_line, parse_said.from_col, parse_said.to_line, parse_said.to_col);
    }
  mc_outcome (mc_hash (text, len + 1, fmt * 2 + !!n_parse));
}
/* whatever the damage is */
static void
damage (void)
{
  static const char put[] = "\"'<>&{}[](),.:;=-+*/0a #\n\\|";
  int how, fmt = mc_choose (F_XDR);
  graph_t g = g_rich (&how);
  mc_shard ();
  document (fmt, g, 0);
  int len = strlen (text), at = mc_choose (len), what = mc_choose (2 + sizeof (put) - 1);
  if (what == 0) memmove (text + at, text + at + 1, len - at);
  else if (what == 1) text[at] = 0;
  else { if (text[at] == put[what - 2]) mc_skip (); text[at] = put[what - 2]; }
  if (!text[0]) mc_skip ();
  mc_note ("%s, %d, %s", f_name[fmt], at, mc_quote (text, strlen (text)));
  mr_status_t s = reading (fmt, g.ops);
  mc_outcome (mc_hash (text, len + 1, fmt * 2 + !!s));
}
/* values of other kinds in place of numbers and strings */
static void
swaps (void)
{
  static const char * const put[F_XDR][14] = {
    { "NULL", "{}", "{1}", "{.i=1}", "\"x\"", "'x'", "1.5", "nan", "1e999", "nosuch", "(int){1}", "1+", "", "{.nosuch=1}" },
    { "null", "{}", "[]", "[1]", "{\"i\":1}", "\"x\"", "1.5", "1e999", "true", "\"nosuch\"", "\"\"", "1 2", "", "{\"nosuch\":1}" },
    { "nil", "()", "(1)", "((i . 1))", "\"x\"", "#\\x", "1.5", "1e999", "t", "nosuch", "(+ 1)", "1 2", "", "((nosuch . 1))" },
    { "", "<i>1</i>", "<i/>", "x", "1.5", "nan", "1e999", "nosuch", "1 2", "&lt;", "&nosuch;", "<nosuch/>", "<i isnull=\"true\"/>", "<i ref=\"99\"/>" },
    { "", "<i>1</i>", "<i/>", "x", "1.5", "nan", "1e999", "nosuch", "1 2", "&lt;", "&nosuch;", "<nosuch/>", "<i isnull=\"true\"/>", "<i ref=\"99\"/>" },
    { "*isnull", "{}", "[]", "[1]", "{i: 1}", "x", "1.5", "nan", "1e999", "nosuch", "''", "*ref_idx_99", "", "{nosuch: 1}" },
  };
  int how, fmt = mc_choose (F_XDR);
  graph_t g = g_rich (&how);
  mc_shard ();
  document (fmt, g, 0);
  int at = mc_choose (strlen (text)), end = at;
  if (at == 0 || !strchr (" >[{(-\t\n", text[at - 1])) mc_skip ();
  if (text[at] == '"') { for (++end; text[end] && text[end] != '"'; ++end) if (text[end] == '\\') ++end; ++end; }
  else while (strchr ("0123456789-+.eE", text[end]) && text[end]) ++end;
  if (end == at) mc_skip ();
  const char * with = put[fmt][mc_choose (14)];
  char rest[sizeof (text)];
  strcpy (rest, text + end);
  sprintf (text + at, "%s%s", with, rest);
  mc_note ("%s, %d, %s", f_name[fmt], at, mc_quote (text, strlen (text)));
  mr_status_t s = reading (fmt, g.ops);
  mc_outcome (mc_hash (text, strlen (text), fmt * 2 + !!s));
}
/* XDR streams */
static void
streams (void)
{
  static const unsigned char put[] = { 0, 1, 2, 4, 8, 0x10, 0x7f, 0x80, 0xff };
  int how;
  graph_t g = g_rich (&how);
  mc_shard ();
  mr_rarray_t ra = g.ops->save (F_XDR, g.root);
  mc_assert (ra.data.ptr != NULL, "save failed");
  int n = ra.MR_SIZE, at = mc_choose (n), what = mc_choose (1 + sizeof (put));
  unsigned char * in = malloc (n);
  memcpy (in, ra.data.ptr, n);
  z_drop (&ra);
  if (what) { if (in[at] == put[what - 1]) { free (in); mc_skip (); } in[at] = put[what - 1]; } else n = at;
  mc_note ("%s cut or changed at %d (%d): %s", g.ops->name, at, what, mc_quote ((char*)in, n));
  mr_status_t s = refused (g.ops, F_XDR, (char*)in, n);
  mc_outcome (mc_hash (in, n, !!s));
  free (in);
}
/* lack of memory */
static void
memory (void)
{
  int how, what = mc_choose (2 * F_N + 1), sticky = mc_choose (2);
  graph_t g = g_rich (&how);
  mc_shard ();
  int fmt = what % F_N;
  char * back = calloc (1, g.ops->size);
  mr_rarray_t ra = { .data = { NULL } };
  if (what < F_N) ra = g.ops->save (fmt, g.root);
  int pos = mc_pos (), at = mc_choose_open ();
  mc_note ("%s %s: request %d %s", what == 2 * F_N ? "copy" : what < F_N ? "load" : "save", what == 2 * F_N ? g.ops->name : f_name[fmt], at, sticky ? "and all later ones fail" : "fails");
  attention ();
  mem_arm (at, sticky);
  int ok = what == 2 * F_N ? MR_SUCCESS == g.ops->copy (g.root, back) : what < F_N ? MR_SUCCESS == g.ops->load (fmt, &ra, back) : (ra = g.ops->save (fmt, g.root), ra.data.ptr != NULL);
  int hit = mem_fault_hit;
  mem_disarm ();
  if (!hit) mc_limit (pos);
  mc_assert (ok || hit, "fails without a fault");
  mc_assert (ok || said_something (), "fails for lack of memory without a word");
  mc_assert (hit || n_msgs == 0, "says message %d where nothing is wrong", first_id);
  mc_outcome (mc_hash (&at, sizeof (at), what * 1000 + sticky * 500 + ok));
  z_drop (&ra);
  free (back);
}
/* ---- what a message looks like ---- */
static const char * const level_name[] = { "ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL", "OFF" };
static const char * const arg[5] = { "one", "", "%s%n", "four\n", "5" };
#define ARGS arg[0], arg[1], arg[2], arg[3], arg[4]
static struct { int n, line; const char * file, * func; mr_log_level_t level; mr_message_id_t id; const char * args[5]; } got_msg;
static void
take (const char * file, const char * func, int line, mr_log_level_t level, mr_message_id_t id, va_list args)
{
  int i;
  ++got_msg.n;
  got_msg.file = file; got_msg.func = func; got_msg.line = line; got_msg.level = level; got_msg.id = id;
  for (i = 0; i < 5; ++i) got_msg.args[i] = va_arg (args, const char *);
}
static const char *
template (unsigned id)
{
  mr_td_t * tdp = mr_get_td_by_name ("mr_message_id_t");
  int i;
  for (i = 0; tdp->param.enum_param.enums[i]; ++i)
    if (tdp->param.enum_param.enums[i]->value._unsigned == id) return (tdp->param.enum_param.enums[i]->meta);
  return ("Unknown MR_MESSAGE_ID.");
}
static void
levels (void)
{
  static const unsigned odd[] = { MR_MESSAGE_LAST + 1, MR_MESSAGE_LAST + 2, MR_MESSAGE_LAST + 64, INT_MAX, INT_MAX + 1U, UINT_MAX };
  static const int lines[] = { 0, 1, 4711, INT_MAX, -1 };
  static char want[1000], body[1000];
  int how = mc_choose (4), level = mc_choose (11), threshold = mc_choose (9), k = mc_choose (MR_MESSAGE_LAST + 7), line = lines[mc_choose (5)], i;
  unsigned id = k <= MR_MESSAGE_LAST ? k : odd[k - MR_MESSAGE_LAST - 1];
  const char * file = "some/file.c", * func = "some_function";
  if (level == 10) level = INT_MAX;
  if (how == 3 && level < MR_LL_INFO) mc_skip (); /* the frames are looked for in the memory of the C library */
  mc_shard ();
  mc_note ("message %u of level %d, threshold %d, %s", id, level, threshold, how == 0 ? "printed" : how == 1 ? "to a handler" : how == 2 ? "printed without memory" : "twice");
  mr_conf.log_level = threshold;
  mr_conf.msg_handler = how == 1 ? take : NULL;
  memset (&got_msg, 0, sizeof (got_msg));
  char * out = NULL;
  size_t size = 0;
  FILE * save = stderr, * stream = open_memstream (&out, &size);
  stderr = stream;
  if (how == 2) mem_arm (0, 1);
  mr_message (file, func, line, level, id, ARGS);
  if (how == 3) mr_message (file, func, line, level, id, ARGS);
  int hit = mem_fault_hit;
  mem_disarm ();
  stderr = save;
  fclose (stream);
  mr_conf.log_level = MR_LL_ALL;
  mr_conf.msg_handler = mem_msg;
  if (how == 1)
    {
      mc_assert (size == 0, "printed, although there is a handler: %s", out);
      mc_assert (got_msg.n == 1 && got_msg.file == file && got_msg.func == func && got_msg.line == line && (int)got_msg.level == level && got_msg.id == id,
		 "the handler is called %d times or not with what was said", got_msg.n);
      for (i = 0; i < 5; ++i) mc_assert (got_msg.args[i] == arg[i], "argument %d does not arrive at the handler", i);
    }
  else if (level < threshold)
    mc_assert (size == 0, "printed below the threshold: %s", out);
  else
    {
      const char * name = level < 8 ? level_name[level] : "Unknown";
      if (how == 2 && hit) snprintf (body, sizeof (body), "Out of memory formating error message #%d", (int)id);
      else
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
	snprintf (body, sizeof (body), template (id), ARGS);
#pragma GCC diagnostic pop
      int n = snprintf (want, sizeof (want), "%s: in %s %s() line %d: %s\n", name, file, func, line, body);
      if (how == 3) { memcpy (want + n, want, n + 1); n *= 2; }
      mc_assert (level <= MR_LL_DEBUG ? (int)size >= n && 0 == strcmp (out + size - n, want) && ((int)size == n || (0 == strncmp (out, "Obtained ", 9) && out[size - n - 1] == '\n'))
		 : (int)size == n && 0 == strcmp (out, want), "printed: %s", out);
    }
  free (out);
  mc_outcome (mc_hash (&id, sizeof (id), ((how * 16 + (level & 15)) * 16 + threshold) * 16 + (line & 15)));
}
#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (rich_quiet), S (links2), S (interior), S (arrays), S (strings), S (forward), S (untyped), S (slices), S (struct_slices), S (many), S (values), S (unions),
  S (sized), S (texts), S (labels), S (places), S (damage), S (swaps), S (streams), S (memory), S (levels), { 0 } };
static void mc_setup (void) { z_setup (); g_warm (); z_loose = 1; }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
