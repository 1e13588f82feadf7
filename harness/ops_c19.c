/* What the threads of C19 do. This file is instrumented like the library: the macros put part of the library here. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <complex.h>
#include <metaresc.h>
#include <mr_ic.h>
#include <mr_stringify.h>

TYPEDEF_ENUM (oc_t, (OC_RED, = 1), (OC_A_NAME_THAT_IS_LONGER_THAN_ANY_OTHER_ONE_IN_THE_PROGRAM, = 2), (OC_BLUE, = 4))
TYPEDEF_STRUCT (oi_t, int k, (double, d), string_t s)
TYPEDEF_UNION (ou_t, int i, (float, f))
struct ot_t;
TYPEDEF_STRUCT (ot_t,
		int v,
		(oc_t, e),
		string_t s,
		(char, c),
		BITFIELD (unsigned int, b, : 5),
		(char, name, [8]),
		(oi_t, in),
		(oi_t *, ip),
		(struct ot_t *, self),
		(struct ot_t *, next),
		(int, a, [3]),
		(int *, dyn, , , { "dyn_size" }, "string"),
		(mr_size_t, dyn_size),
		(ou_t, u, , , { "which" }, "string"),
		(int, which),
		(mr_compar_fn_t, fn),
		ANON_UNION (un), (int, x), (long, y), END_ANON_UNION ("xy"),
		(string_t, xy),
		(mr_int128_t, big), (mr_uint128_t, ubig), complex double z, (long double, ld), bool flag, (char, ca, [3]), (void *, opaque))
extern int sc_self (void);
extern void sc_harness_free (void *);
char ops_out[4][8192];
int ops_len[4];
static void
out (const char * fmt, ...)
{
  va_list args;
  int t = sc_self ();
  va_start (args, fmt);
  ops_len[t] += vsnprintf (ops_out[t] + ops_len[t], sizeof (ops_out[t]) - ops_len[t], fmt, args);
  va_end (args);
}
void
ops_message (const char * file, const char * fn, int line, mr_log_level_t level, mr_message_id_t id, va_list args)
{
  char * m = mr_message_format (id, args);
  out ("[%d %s]", (int)id, m ? m : "?");
  if (m) MR_FREE (m);
}
int ops_cmp (const mr_ptr_t x, const mr_ptr_t y, const void * c) { return (0); }
int ops_cmp2 (const mr_ptr_t x, const mr_ptr_t y, const void * c) { return (1); }
static void
make (ot_t * x, oi_t * ip, int * dyn)
{
  memset (x, 0, sizeof (*x));
  /* every thread has values of its own, so that no buffer shared by them stays unnoticed */
  static char * text[] = { "a\"\n\t<&>'\\b", "b\001'\n<&\">\t", ">q&\r\"c\"\002" };
  int t = sc_self () % 3;
  x->v = -7 - 1000 * t; x->e = t ? t == 1 ? OC_RED : 77 : OC_A_NAME_THAT_IS_LONGER_THAN_ANY_OTHER_ONE_IN_THE_PROGRAM; x->s = text[t]; x->c = "\n\001"[t & 1]; x->b = 19 + t;
  strcpy (x->name, "na\tme"); x->name[1] += t; x->in.k = 3 + 100 * t; x->in.d = 0.5 + t; x->in.s = t ? "xy\t" : "\r\"in\""; x->ip = ip; ip->k = 4 - t; ip->d = -1e10 / (1 + t); ip->s = NULL;
  x->self = x; x->next = NULL; x->a[0] = 1 + t; x->a[1] = 1 + t; x->a[2] = 1 + t; x->dyn = dyn; dyn[0] = 5 + t; dyn[1] = 6 + t; x->dyn_size = 2 * sizeof (dyn[0]);
  x->u.f = 2.5 + t; x->which = 1; x->fn = t == 1 ? (mr_compar_fn_t)ops_cmp2 : (mr_compar_fn_t)ops_cmp; x->y = 99 + t; x->xy = t ? "z" : "y";
  x->big = ((mr_int128_t)-1 - t) << 70; x->ubig = ((mr_uint128_t)3 + t) << 90; x->z = 1.5 + t - 2.5 * I; x->ld = 1e100L * (1 + t); x->flag = t == 1; x->ca[0] = 'a' + t; x->ca[1] = '"'; x->ca[2] = '\t'; x->opaque = NULL;
}
static void
show (ot_t * x)
{
  unsigned i;
  out ("v=%d e=%d s=%s c=%d b=%d n=%.8s in=%d,%g,%s", x->v, (int)x->e, x->s ? x->s : "NULL", x->c, (int)x->b, x->name, x->in.k, x->in.d, x->in.s ? x->in.s : "NULL");
  if (x->ip) out (" ip=%d,%g,%s", x->ip->k, x->ip->d, x->ip->s ? x->ip->s : "NULL");
  out (" self=%d a=%d,%d,%d dyn=%d", x->self == x, x->a[0], x->a[1], x->a[2], (int)x->dyn_size);
  if (x->dyn) for (i = 0; i < x->dyn_size / sizeof (x->dyn[0]); ++i) out (",%d", x->dyn[i]);
  out (" u=%g w=%d fn=%d y=%ld xy=%s big=%d ubig=%d z=%g ld=%Lg flag=%d ca=%.3s;", x->u.f, x->which, x->fn == ops_cmp ? 1 : x->fn == ops_cmp2 ? 2 : 0, x->y, x->xy ? x->xy : "NULL",
       (int)(x->big >> 70), (int)(x->ubig >> 90), creal (x->z) - cimag (x->z), x->ld, x->flag, x->ca);
}
static void
bytes (mr_rarray_t * ra)
{
  unsigned i, h = 0;
  for (i = 0; i < ra->MR_SIZE; ++i) h = h * 31 + ((unsigned char*)ra->data.ptr)[i];
  out ("%d bytes %08x;", (int)ra->MR_SIZE, h);
}
/* a text with values of the thread's own in place of @ */
static void
own (char * t, const char * text)
{
  while ((*t = *text++)) { if (*t == '@') *t = '1' + sc_self () % 3; ++t; }
}
#define SAVE(M) static void save_##M (void) { ot_t x; oi_t ip; int dyn[2]; make (&x, &ip, dyn); char * s = MR_SAVE_##M (ot_t, &x); out ("%s", s ? s : "NULL"); if (s) MR_FREE (s); }
SAVE (CINIT) SAVE (JSON) SAVE (SCM) SAVE (XML1) SAVE (YAML)
static void save_XML2 (void) { ot_t x; oi_t ip; int dyn[2]; make (&x, &ip, dyn); mr_rarray_t ra = MR_SAVE_XML2_RA (ot_t, &x); out ("%s", ra.data.string); if (ra.data.ptr) MR_FREE (ra.data.ptr); }
static void save_XDR (void) { ot_t x; oi_t ip; int dyn[2]; make (&x, &ip, dyn); mr_rarray_t ra = MR_SAVE_XDR_RA (ot_t, &x); bytes (&ra); if (ra.data.ptr) MR_FREE (ra.data.ptr); }
#define LOAD(M, TEXT) static void load_##M (void) { ot_t x; char t[1000]; own (t, TEXT); mr_status_t st = MR_LOAD_##M (ot_t, t, &x); out ("%d ", st); if (MR_SUCCESS == st) { show (&x); MR_FREE_RECURSIVELY (ot_t, &x); } }
LOAD (CINIT, "{ .v = 2 * (3 + @), .e = OC_A_NAME_THAT_IS_LONGER_THAN_ANY_OTHER_ONE_IN_THE_PROGRAM | OC_RED, .s = \"q@\\\"w\\n\\t\\10@e\", .c = '\\n', .b = 3, .name = \"x\\t@\", .in = { .k = 8@, .s = \"\\r\\\\\" }, .ip = (oi_t[]){ { 1, @.5, \"z\\n\" } }, .a = { 1, @, 3 }, .dyn = (int32_t[]){ 4, @, 6 }, .fn = ops_cmp, .u = { .f = @.5 }, .which = 1 }")
LOAD (JSON, "{ \"v\" : -1@, \"e\" : \"OC_A_NAME_THAT_IS_LONGER_THAN_ANY_OTHER_ONE_IN_THE_PROGRAM\", \"s\" : \"q@\\\"w\\n\\t\\u004@e\", \"c\" : \"\\n\", \"name\" : \"x\\t@\", \"in\" : { \"k\" : 8@, \"s\" : \"\\r\\\\\" }, \"ip\" : [ { \"k\" : 1, \"s\" : \"z\\n\" } ], \"a\" : [ 1, @, 3 ] }")
LOAD (SCM, "((v . -1@) (e . \"OC_A_NAME_THAT_IS_LONGER_THAN_ANY_OTHER_ONE_IN_THE_PROGRAM\") (s . \"q@\\\"w\\n\\t\\x4@;e\") (c . #\\x0a) (name . \"x\\t@\") (in . ((k . 8@) (s . \"\\r\\\\\"))) (a . (1 @ 3)))")
LOAD (XML1, "<?xml version=\"1.0\"?><ot_t><v>-1@</v><e>OC_A_NAME_THAT_IS_LONGER_THAN_ANY_OTHER_ONE_IN_THE_PROGRAM</e><s>q@&quot;w&#10;&lt;&amp;&gt;&#x4@;e</s><c>&#10;</c><name>x&gt;@</name><in><k>8@</k><s>&lt;r&gt;</s></in><ip><k>1</k><s>&amp;</s></ip><a><a>1</a><a>@</a><a>3</a></a></ot_t>")
LOAD (XML2, "<?xml version=\"1.0\"?><ot_t><v>-1@</v><e>OC_A_NAME_THAT_IS_LONGER_THAN_ANY_OTHER_ONE_IN_THE_PROGRAM</e><s>q@&quot;w&#10;&lt;&amp;&gt;&#x4@;e</s><c>&#10;</c><name>x&gt;@</name><in><k>8@</k><s>&lt;r&gt;</s></in><ip><k>1</k><s>&amp;</s></ip><a><a>1</a><a>@</a><a>3</a></a></ot_t>")
LOAD (YAML, "v: -1@\ne: OC_A_NAME_THAT_IS_LONGER_THAN_ANY_OTHER_ONE_IN_THE_PROGRAM\ns: \"q@\\\"w\\n\\te\"\nname: \"x\\t@\"\nin:\n  k: 8@\n  s: \"\\r\"\na: [ 1, @, 3 ]\n")
static void
trip_XDR (void)
{
  ot_t x, y; oi_t ip; int dyn[2];
  make (&x, &ip, dyn);
  mr_rarray_t ra = MR_SAVE_XDR_RA (ot_t, &x);
  mr_status_t st = MR_LOAD_XDR_RA (ot_t, &ra, &y);
  out ("%d ", st);
  if (MR_SUCCESS == st) { show (&y); MR_FREE_RECURSIVELY (ot_t, &y); }
  if (ra.data.ptr) MR_FREE (ra.data.ptr);
}
#define TRIP(M) static void trip_##M (void) { ot_t x, y; oi_t ip; int dyn[2]; make (&x, &ip, dyn); char * s = MR_SAVE_##M (ot_t, &x); mr_status_t st = MR_LOAD_##M (ot_t, s, &y); out ("%d ", st); if (MR_SUCCESS == st) { show (&y); MR_FREE_RECURSIVELY (ot_t, &y); } if (s) MR_FREE (s); }
TRIP (CINIT) TRIP (JSON) TRIP (SCM) TRIP (XML1) TRIP (YAML)
static void
types (void)
{
  static const char * names[] = { "ot_t", "oi_t", "ou_t", "oc_t", "int", "mr_td_t", "string_t", "no_such_type" };
  unsigned i, k;
  for (i = 0; i < sizeof (names) / sizeof (names[0]); ++i)
    {
      mr_td_t * td = mr_get_td_by_name ((char*)names[i]);
      out ("%s:", names[i]);
      if (!td) { out ("none;"); continue; }
      out ("%d %d ", td->mr_type, (int)td->size);
      if (td->mr_type == MR_TYPE_STRUCT || td->mr_type == MR_TYPE_UNION)
	for (k = 0; k < td->param.struct_param.fields_size / sizeof (td->param.struct_param.fields[0]); ++k)
	  {
	    mr_fd_t * fd = td->param.struct_param.fields[k];
	    mr_fd_t * found = mr_get_fd_by_name (td, fd->name.str);
	    out ("%s %d %d %d%s,", fd->name.str, fd->stype.mr_type, fd->stype.mr_type_aux, (int)fd->offset, found == fd ? "" : "?");
	  }
      if (td->mr_type == MR_TYPE_ENUM)
	for (k = 0; k < td->param.enum_param.enums_size / sizeof (td->param.enum_param.enums[0]); ++k)
	  {
	    mr_ed_t * ed = td->param.enum_param.enums[k];
	    out ("%s %d%s,", ed->name.str, (int)ed->value._unsigned, mr_get_enum_by_name (ed->name.str) == ed ? "" : "?");
	  }
    }
}
static void
graph (void)
{
  ot_t x, y; oi_t ip; int dyn[2];
  make (&x, &ip, dyn);
  mr_status_t st = MR_COPY_RECURSIVELY (ot_t, &x, &y);
  out ("%d ", st);
  if (st != MR_SUCCESS) return;
  show (&y);
  out ("cmp %d %d ", MR_CMP_STRUCTS (ot_t, &x, &y), MR_HASH_STRUCT (ot_t, &x) == MR_HASH_STRUCT (ot_t, &y));
  y.a[2] = 2;
  out ("cmp %d", MR_CMP_STRUCTS (ot_t, &x, &y));
  out (" free %d", MR_FREE_RECURSIVELY (ot_t, &y));
}
static void
hash (void)
{
  ot_t x; oi_t ip; int dyn[2];
  make (&x, &ip, dyn);
  x.fn = NULL;
  out ("%d", (int)(MR_HASH_STRUCT (ot_t, &x) != 0));
}
static void
refuse (void)
{
  oi_t x;
  mr_status_t st = MR_LOAD_CINIT (oi_t, "{ .k = OC_NONE, .s = \"x\" }", &x);
  out ("%d ", st);
  st = MR_LOAD_JSON (oi_t, "{ \"zz\" : 1 }", &x);
  out ("%d ", st);
  st = MR_LOAD_XML1 (oi_t, "<?xml version=\"1.0\"?><oi_t><k>&unknown;</k></oi_t>", &x);
  out ("%d ", st);
  if (st == MR_SUCCESS) MR_FREE_RECURSIVELY (oi_t, &x);
}
static void
functions (void)
{
  void * f[] = { ops_cmp, ops_cmp2, ops_message, ops_cmp, mr_conf_init, ops_cmp2 };
  unsigned i;
  for (i = 0; i < sizeof (f) / sizeof (f[0]); ++i)
    {
      const char * s = mr_serialize_func (f[i]);
      out ("%s ", s ? s : "NULL");
    }
}
static void
print (void)
{
  char * t = NULL;
  size_t n = 0;
  FILE * f = open_memstream (&t, &n);
  oi_t x = { 5 + sc_self () % 3, 1.5 + sc_self () % 3, "q" };
  MR_FPRINT (f, "x ", 1 + sc_self () % 3, ' ', (oi_t, &x), " ", (oc_t)OC_BLUE, 2.5 + sc_self () % 3, 'c');
  fclose (f);
  out ("%s", t);
  free (t);
}
static void
collection (void)
{
  static const mr_ic_type_t kind[] = { MR_IC_HASH, MR_IC_RBTREE, MR_IC_AVLTREE, MR_IC_SORTED_ARRAY, MR_IC_UNSORTED_ARRAY };
  unsigned i, k;
  for (i = 0; i < sizeof (kind) / sizeof (kind[0]); ++i)
    {
      mr_ic_t ic;
      out ("%d", mr_ic_new (&ic, NULL, NULL, "oi_t", kind[i], NULL));
      oi_t key[8];
      memset (key, 0, sizeof (key));
      for (k = 0; k < 8; ++k) { key[k].k = k * (5 + sc_self () % 3) % 7; key[k].s = "text"; mr_ic_add (&ic, &key[k]); }
      out (" %d", (int)ic.items_count);
      for (k = 0; k < 9; ++k) { oi_t x = { k, 0, "text" }; out ("%d", mr_ic_find (&ic, &x) != NULL); }
      mr_ic_free (&ic);
    }
}
/* expressions with names of constants */
static void
value (void)
{
  int x = 0;
  mr_status_t st = MR_LOAD_CINIT (int, "OC_RED + OC_BLUE * 2", &x);
  out ("%d %d ", st, x);
  char t[60];
  own (t, "@@ * OC_RED - (@ + 2.5 / @)");
  st = MR_LOAD_CINIT (int, t, &x);
  out ("%d %d ", st, x);
  st = MR_LOAD_CINIT (int, "OC_A_NAME_THAT_IS_LONGER_THAN_ANY_OTHER_ONE_IN_THE_PROGRAM", &x);
  out ("%d %d", st, x);
}
/* nothing but the formatting of a message */
static void format (mr_message_id_t id, ...) { va_list args; va_start (args, id); ops_message ("", "", 0, MR_LL_ERROR, id, args); va_end (args); }
static void message (void) { mr_conf_init (); format (MR_MESSAGE_OUT_OF_MEMORY); format (MR_MESSAGE_UNKNOWN_ENUM, sc_self () % 3 ? "other" : "one"); }
/* look-ups, comparison and release as the very first calls */
static void
constants (void)
{
  mr_ed_t * red = mr_get_enum_by_name ("OC_RED"), * none = mr_get_enum_by_name ("OC_NOTHING");
  out ("%d %d", red ? (int)red->value._unsigned : -1, none != NULL);
}
static void
members (void)
{
  mr_fd_t * fd = mr_get_any_fd_by_name ("dyn_size", NULL);
  out ("%s", fd ? fd->name.str : "NULL");
}
static void
compare (void)
{
  oi_t x = { 1, 2, "q" }, y = { 1, 2, sc_self () == 1 ? "a" : "r" };
  int r = MR_CMP_STRUCTS (oi_t, &x, &y);
  out ("%d", (r > 0) - (r < 0));
}
static void
release (void)
{
  oi_t x = { 1, 2, mr_strdup ("text") };
  out ("%d", MR_FREE_RECURSIVELY (oi_t, &x));
}
#define O(N) { #N, N }
struct { const char * name; void (*fn) (void); } ops[] = {
  O (types), O (save_CINIT), O (save_JSON), O (save_SCM), O (save_XML1), O (save_XML2), O (save_YAML), O (save_XDR),
  O (load_CINIT), O (load_JSON), O (load_SCM), O (load_XML1), O (load_XML2), O (load_YAML),
  O (trip_CINIT), O (trip_JSON), O (trip_SCM), O (trip_XML1), O (trip_YAML), O (trip_XDR),
  O (graph), O (hash), O (refuse), O (functions), O (print), O (collection), O (value), O (message),
  O (constants), O (members), O (compare), O (release), { 0 }
};
