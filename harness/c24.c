/* C24: look-ups of types, members and enumeration constants find what was declared and nothing else. */
#include "zoo.h"

/* ---- declared through the macros ---- */
TYPEDEF_ENUM (lk_e8_t, ATTRIBUTES (__attribute__ ((packed))), (LK8_A, = 0), (LK8_B, = 1), (LK8_Z, = 255))
TYPEDEF_ENUM (lk_n8_t, ATTRIBUTES (__attribute__ ((packed))), (LKN8_A, = -128), (LKN8_B, = -1), (LKN8_Z, = 127))
TYPEDEF_ENUM (lk_e32_t, (LK32_C, = 3), (LK32_A, = 1), (LK32_B, = -2), (LK32_ALIAS, = 1), LK32_TWO, (LK32_MIN, = INT32_MIN))
TYPEDEF_ENUM (lk_e64_t, (LK64_BIG, = 1ULL << 63), (LK64_TWO32, = 1ULL << 32), (LK64_ONE, = 1), (LK64_LOW, = 0xffffffff), (LK64_MAX, = UINT64_MAX))
TYPEDEF_ENUM (lk_one_t, LK_ONLY)
TYPEDEF_STRUCT (lk_in_t, (int, k), (char, c), (int, K))
TYPEDEF_UNION (lk_u_t, (int, ui), (double, ud), (lk_in_t, us))
TYPEDEF_FUNC (int, lk_fn_t, (int))
TYPEDEF_STRUCT (lk_none_t)
TYPEDEF_STRUCT (lk_all_t,
  int8_t i8, (int16_t, i16), uint32_t u32, (int64_t, i64, , "text"), bool b, char c, float f, double d, (long double, ld), (complex float, cf),
  (char, ca, [7]), (int, arr, [3][2]), string_t s, (lk_in_t, in), (lk_in_t *, pin), (lk_u_t, u), (lk_e8_t, e8), (lk_e32_t, e32), (lk_e64_t *, pe64),
  BITFIELD (int, b1, :3), BITFIELD (unsigned, b2, :29), BITFIELD (lk_e8_t, b3, :2), VOID (int, v, [2]), (struct lk_all_t *, self), (int *, pi),
  (lk_in_t, ina, [2]), (lk_fn_t *, fn), int last)
TYPEDEF_STRUCT (lk_anon_t, int before,
  ANON_UNION (), (int, au1), (double, au2), END_ANON_UNION (""), int between,
  ANON_UNION (named), (char, nu1), (long, nu2), ANON_UNION (), (short, deep1), (long long, deep2), END_ANON_UNION (""), END_ANON_UNION (""), char after)

typedef struct { const char * type, * name; size_t off, size; mr_type_t mr_type, aux; } member_t;
#define M(T, F, MT, AUX) { #T, #F, offsetof (T, F), ZSZ (T, F), MR_TYPE_ ## MT, MR_TYPE_ ## AUX }
#define ANY (-1)
static const member_t members[] = {
  M (lk_in_t, k, INT32, NONE), M (lk_in_t, c, CHAR, NONE), M (lk_in_t, K, INT32, NONE),
  M (lk_u_t, ui, INT32, NONE), M (lk_u_t, ud, DOUBLE, NONE), M (lk_u_t, us, STRUCT, NONE),
  M (lk_all_t, i8, INT8, NONE), M (lk_all_t, i16, INT16, NONE), M (lk_all_t, u32, UINT32, NONE), M (lk_all_t, i64, INT64, NONE), M (lk_all_t, b, BOOL, NONE), M (lk_all_t, c, CHAR, NONE),
  M (lk_all_t, f, FLOAT, NONE), M (lk_all_t, d, DOUBLE, NONE), M (lk_all_t, ld, LONG_DOUBLE, NONE), M (lk_all_t, cf, COMPLEX_FLOAT, NONE), M (lk_all_t, ca, ARRAY, CHAR),
  M (lk_all_t, arr, ARRAY, INT32), M (lk_all_t, s, STRING, NONE), M (lk_all_t, in, STRUCT, NONE), M (lk_all_t, pin, POINTER, STRUCT), M (lk_all_t, u, UNION, NONE),
  M (lk_all_t, e8, ENUM, NONE), M (lk_all_t, e32, ENUM, NONE), M (lk_all_t, pe64, POINTER, ENUM), M (lk_all_t, self, POINTER, STRUCT), M (lk_all_t, pi, POINTER, INT32), M (lk_all_t, ina, ARRAY, STRUCT),
  M (lk_all_t, fn, POINTER, FUNC_TYPE), M (lk_all_t, last, INT32, NONE), { "lk_all_t", "v", offsetof (lk_all_t, v), ANY, MR_TYPE_VOID, MR_TYPE_NONE },
  { "lk_all_t", "b1", ANY, ANY, MR_TYPE_BITFIELD, MR_TYPE_INT32 }, { "lk_all_t", "b2", ANY, ANY, MR_TYPE_BITFIELD, MR_TYPE_UINT32 }, { "lk_all_t", "b3", ANY, ANY, MR_TYPE_BITFIELD, MR_TYPE_ENUM },
  M (lk_anon_t, before, INT32, NONE), M (lk_anon_t, between, INT32, NONE), M (lk_anon_t, after, CHAR, NONE),
  { "lk_anon_t", "named", offsetof (lk_anon_t, nu1), ANY, MR_TYPE_NAMED_ANON_UNION, MR_TYPE_NONE },
};
static const struct { const char * name; mr_type_t mr_type; size_t size; } types[] = {
#define T(N, MT) { #N, MR_TYPE_ ## MT, sizeof (N) }
  T (lk_e8_t, ENUM), T (lk_n8_t, ENUM), T (lk_e32_t, ENUM), T (lk_e64_t, ENUM), T (lk_one_t, ENUM), T (lk_in_t, STRUCT), T (lk_u_t, UNION), T (lk_fn_t, FUNC_TYPE), T (lk_none_t, STRUCT), T (lk_all_t, STRUCT),
  T (lk_anon_t, STRUCT), T (char, CHAR), T (bool, BOOL), T (string_t, STRING), T (int8_t, INT8), T (uint8_t, UINT8), T (int16_t, INT16), T (uint16_t, UINT16), T (int32_t, INT32), T (uint32_t, UINT32),
  T (int64_t, INT64), T (uint64_t, UINT64), T (float, FLOAT), T (double, DOUBLE), T (long_double_t, LONG_DOUBLE), T (complex_float_t, COMPLEX_FLOAT), T (complex_double_t, COMPLEX_DOUBLE),
  T (complex_long_double_t, COMPLEX_LONG_DOUBLE), T (mr_ptr_t, UNION), T (int, INT32), T (short, INT16), T (unsigned, UINT32), T (size_t, UINT64), T (ssize_t, INT64), T (intptr_t, INT64), T (uintptr_t, UINT64)
};
#define E(T, N) { #T, #N, N }
static const struct { const char * type, * name; mr_enum_value_type_t value; } consts[] = {
  E (lk_e8_t, LK8_A), E (lk_e8_t, LK8_B), E (lk_e8_t, LK8_Z), E (lk_n8_t, LKN8_A), E (lk_n8_t, LKN8_B), E (lk_n8_t, LKN8_Z), E (lk_e32_t, LK32_C), E (lk_e32_t, LK32_A), E (lk_e32_t, LK32_B), E (lk_e32_t, LK32_ALIAS),
  E (lk_e32_t, LK32_TWO), E (lk_e32_t, LK32_MIN), E (lk_e64_t, LK64_BIG), E (lk_e64_t, LK64_TWO32), E (lk_e64_t, LK64_ONE), E (lk_e64_t, LK64_LOW), E (lk_e64_t, LK64_MAX), E (lk_one_t, LK_ONLY)
};

/* ---- declared at run time: the descriptor macros produce the like for sets of names that would be too many to write ---- */
TYPEDEF_STRUCT (lk_tpl_t, int m)
TYPEDEF_ENUM (lk_etpl_t, LK_TPL)

#define NPOOL 12
static const char * const pool[NPOOL] = { "a", "aa", "ab", "a_", "A", "afuk6" /* same hash as the next one */, "a5uk65", "av6w5", "ad6w56", "abcdefgh", "abcdefghi", "aaaa" };
static char *
keep (const char * fmt, ...)
{
  static char * mem, * end;
  va_list args;
  int n;
  if (end - mem < 200) { mem = calloc (1, 1 << 16); end = mem + (1 << 16); }
  va_start (args, fmt);
  n = vsnprintf (mem, 200, fmt, args);
  va_end (args);
  mem += n + 1;
  return (mem - n - 1);
}
static void * room (size_t size) { return (calloc (1, size)); }
static void
dyn_struct (const char * type, int n, char ** name, size_t * off)
{
  static mr_td_t * tpl;
  mr_td_t * td = room (sizeof (*td)), * i;
  int k;
  if (!tpl) for (i = mr_conf.td_list; i; i = i->next) if (!strcmp (i->type.str, "lk_tpl_t")) tpl = i;
  *td = *tpl;
  td->next = NULL;
  td->type.str = (char*)type;
  td->param.struct_param.fields = room ((n + 1) * sizeof (mr_fd_t*));
  for (k = 0; k < n; ++k)
    {
      mr_fd_t * fd = td->param.struct_param.fields[k] = room (sizeof (*fd));
      *fd = *tpl->param.struct_param.fields[0];
      fd->name.str = name[k];
      fd->offset = off[k];
    }
  td->size = 4 * (n ? n : 1);
  mr_add_type (td);
}
static void
dyn_enum (const char * type, mr_type_t mr_type, int size, int n, char ** name, mr_enum_value_type_t * value)
{
  static mr_td_t * tpl;
  mr_td_t * td = room (sizeof (*td)), * i;
  int k;
  if (!tpl) for (i = mr_conf.td_list; i; i = i->next) if (!strcmp (i->type.str, "lk_etpl_t")) tpl = i;
  *td = *tpl;
  td->next = NULL;
  td->type.str = (char*)type;
  td->size = size;
  td->param.enum_param.mr_type_effective = mr_type;
  td->param.enum_param.enums = room ((n + 1) * sizeof (mr_ed_t*));
  for (k = 0; k < n; ++k)
    {
      mr_ed_t * ed = td->param.enum_param.enums[k] = room (sizeof (*ed));
      *ed = *tpl->param.enum_param.enums[0];
      ed->name.str = name[k];
      ed->value._unsigned = value[k];
    }
  mr_add_type (td);
}

static int npool (void) { return (NPOOL); }
#define NSIZE 70
static int nth_perm (int idx, int n, int * out)
{
  int used = 0, i, j, k, f = 1;
  for (i = 2; i < n; ++i) f *= i;
  for (i = 0; i < n; ++i)
    {
      k = idx / f; idx %= f; if (n - 1 - i) f /= n - 1 - i;
      for (j = 0; j < n; ++j) if (!(used >> j & 1) && 0 == k--) break;
      used |= 1 << j; out[i] = j;
    }
  return (0);
}
/* pools of values of enumerations */
static const struct { const char * name; mr_type_t mr_type; int size; int n; mr_enum_value_type_t v[10]; } epool[] = {
  { "i32", MR_TYPE_INT32, 4, 10, { 0, 1, 2, 3, -1, 127, 0x7fffffff, (mr_enum_value_type_t)INT32_MIN, 65536, -128 } },
  { "u32", MR_TYPE_UINT32, 4, 6, { 0, 1, 0x80000000, 0xffffffff, 255, 2 } },
  { "i8", MR_TYPE_INT8, 1, 6, { 0, 1, 127, (mr_enum_value_type_t)-128, -1, 2 } },
  { "u8", MR_TYPE_UINT8, 1, 6, { 0, 1, 127, 128, 255, 2 } },
  { "i16", MR_TYPE_INT16, 2, 6, { 0, 1, 32767, (mr_enum_value_type_t)-32768, -1, 256 } },
  { "u64", MR_TYPE_UINT64, 8, 7, { 0, 1, 1ULL << 63, UINT64_MAX, 0xffffffff, 1ULL << 32, 2 } },
  { "i64", MR_TYPE_INT64, 8, 7, { 0, 1, (mr_enum_value_type_t)INT64_MIN, -1, INT64_MAX, (mr_enum_value_type_t)-(1LL << 32), 2 } },
};
#define NEPOOL (int)(sizeof (epool) / sizeof (epool[0]))

static int off_of (int k, int n, int order) { return (4 * (order ? n - 1 - k : k)); }
static void
declare (void)
{
  int s, k, n, p;
  char * name[128];
  size_t off[128];
  mr_enum_value_type_t v[16];
  /* every set of names of the pool, declared upwards or downwards */
  for (s = 0; s < 1 << npool (); ++s)
    {
      for (n = k = 0; k < npool (); ++k) if (s >> k & 1) name[n++] = (char*)pool[k];
      int order = __builtin_parity (s);
      for (k = 0; k < n; ++k) off[k] = off_of (k, n, order);
      dyn_struct (keep ("set_%x", s), n, name, off);
    }
  /* any number of members */
  for (n = 0; n <= NSIZE; ++n)
    {
      for (k = 0; k < n; ++k) { name[k] = keep ("f%d", (k * 37 + 11) % 1000); off[k] = 4 * k; }
      dyn_struct (keep ("size_%d", n), n, name, off);
    }
  /* any order of description */
  for (s = 0; s < 120; ++s)
    {
      int perm[5];
      nth_perm (s, 5, perm);
      for (k = 0; k < 5; ++k) { name[k] = (char*)pool[perm[k] + 3]; off[k] = 4 * perm[k]; }
      dyn_struct (keep ("perm_%d", s), 5, name, off);
    }
  for (p = 0; p < NEPOOL; ++p)
    for (s = 1; s < 1 << epool[p].n; ++s)
      {
	for (n = k = 0; k < epool[p].n; ++k)
	  {
	    int j = (s & 1) ? k : epool[p].n - 1 - k;
	    if (s >> j & 1) { name[n] = keep ("EC_%s_%x_%d", epool[p].name, s, j); v[n++] = epool[p].v[j]; }
	  }
	dyn_enum (keep ("en_%s_%x", epool[p].name, s), epool[p].mr_type, epool[p].size, n, name, v);
      }
}

/* ---- oracle: all names declared ---- */
static mr_td_t * td_find (const char * name, int * count)
{
  mr_td_t * td, * found = NULL;
  for (td = mr_conf.td_list; td; td = td->next) if (!strcmp (td->type.str, name)) { if (!found) found = td; if (count) ++*count; }
  return (found);
}
typedef struct { const char * str; const void * what; } word_t;
static word_t * words[3];
static int nwords[3];
static int word_cmp (const void * a, const void * b) { return (strcmp (((const word_t*)a)->str, ((const word_t*)b)->str)); }
static const void * word (int k, const char * s) { word_t w = { s }, * f = bsearch (&w, words[k], nwords[k], sizeof (w), word_cmp); return (f ? f->what : NULL); }
static void
all_names (void)
{
  mr_td_t * td;
  int i;
  words[0] = calloc (20000, sizeof (word_t)); words[1] = calloc (200000, sizeof (word_t)); words[2] = calloc (1, sizeof (word_t));
  for (td = mr_conf.td_list; td; td = td->next)
    {
      words[0][nwords[0]++] = (word_t) { td->type.str, td };
      if (td->mr_type == MR_TYPE_ENUM)
	for (i = 0; td->param.enum_param.enums[i]; ++i) words[1][nwords[1]++] = (word_t) { td->param.enum_param.enums[i]->name.str, td->param.enum_param.enums[i] };
    }
  qsort (words[0], nwords[0], sizeof (word_t), word_cmp);
  qsort (words[1], nwords[1], sizeof (word_t), word_cmp);
}
/* all texts one edit away: fn (text) */
static const char letters[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ *[";
static void
edits (const char * s, void (*fn) (char * text, void * arg), void * arg)
{
  char t[300];
  int n = strlen (s), i, c;
  if (n > 200) return;
  strcpy (t, s); fn (t, arg);
  for (i = 0; i <= n; ++i)
    {
      for (c = 0; letters[c]; ++c)
	{
	  if (i < n) { strcpy (t, s); t[i] = letters[c]; fn (t, arg); }
	  sprintf (t, "%.*s%c%s", i, s, letters[c], s + i); fn (t, arg);
	}
      if (i < n) { sprintf (t, "%.*s%s", i, s, s + i + 1); fn (t, arg); }
      sprintf (t, "%.*s", i, s); fn (t, arg);
      strcpy (t, s + i); fn (t, arg);
      if (i + 1 < n) { strcpy (t, s); t[i] = s[i + 1]; t[i + 1] = s[i]; fn (t, arg); }
    }
}

/* types */
static void
try_type (char * text, void * arg)
{
  mr_td_t * td = mr_get_td_by_name (text);
  ++mc_sh->evals;
  if (!word (0, text)) { mc_assert (!td, "type %s is found: %s", mc_quote (text, strlen (text)), td->type.str); return; }
  mc_assert (td, "type %s is not found", text);
  mc_assert (!strcmp (td->type.str, text), "type %s found instead of %s", td->type.str, text);
}
static void
type_names (void)
{
  int i = mc_choose (nwords[0]);
  mc_shard ();
  const char * s = words[0][i].str;
  mc_note ("%s", s);
  edits (s, try_type, NULL);
  mc_outcome (mc_hash (s, strlen (s), 0));
}
static void
type_contents (void)
{
  int i = mc_choose (sizeof (types) / sizeof (types[0]));
  mc_shard ();
  mr_td_t * td = mr_get_td_by_name ((char*)types[i].name);
  mc_note ("%s", types[i].name);
  mc_assert (td, "not found");
  mc_assert (td->mr_type == types[i].mr_type, "kind is %d, must be %d", td->mr_type, types[i].mr_type);
  mc_assert (td->size == types[i].size, "size is %d, must be %d", (int)td->size, (int)types[i].size);
  mc_outcome (mc_hash (__func__, strlen (__func__), i));
}
/* members */
typedef struct { mr_td_t * td; int n; const char * name[128]; size_t off[128]; } decl_t;
static void
try_member (char * text, void * arg)
{
  decl_t * d = arg;
  int i;
  mr_fd_t * fd = mr_get_fd_by_name (d->td, text);
  ++mc_sh->evals;
  for (i = 0; i < d->n; ++i) if (!strcmp (text, d->name[i])) break;
  if (i == d->n) { mc_assert (!fd, "%s has a member %s", d->td->type.str, mc_quote (text, strlen (text))); return; }
  mc_assert (fd, "%s has no member %s", d->td->type.str, text);
  mc_assert (!strcmp (fd->name.str, text), "%s found instead of %s", fd->name.str, text);
  if (d->off[i] != (size_t)ANY) mc_assert (fd->offset == d->off[i], "offset of %s is %d, must be %d", text, (int)fd->offset, (int)d->off[i]);
  if (fd->stype.tdp)
    {
      mr_fd_t * any = mr_get_any_fd_by_name (text, fd->stype.tdp);
      mc_assert (any && !strcmp (any->name.str, text) && any->stype.tdp == fd->stype.tdp, "no member %s of type %s", text, fd->stype.tdp->type.str);
    }
}
static void
pool_members (decl_t * d)
{
  int i;
  for (i = 0; i < d->n; ++i) edits (d->name[i], try_member, d);
  for (i = 0; i < NPOOL; ++i) try_member (strcpy ((char[20]){0}, pool[i]), d);
  try_member ((char[1]){ 0 }, d);
  /* all short words of some of the letters */
  static const char few[] = "ab_A";
  int len, depth = mc_thorough ? 6 : 4;
  for (len = 1; len <= depth; ++len)
    for (i = 0; i < 1 << 2 * len; ++i)
      {
	char t[10] = "";
	int k;
	for (k = 0; k < len; ++k) t[k] = few[i >> 2 * k & 3];
	try_member (t, d);
      }
  mc_assert (d->td->param.struct_param.fields_size == d->n * sizeof (mr_fd_t*), "another number of members");
  /* in order of their places */
  for (i = 1; i < d->n; ++i) mc_assert (d->td->param.struct_param.fields[i]->offset > d->td->param.struct_param.fields[i - 1]->offset, "members are not in order");
  mc_outcome (mc_hash (&d->td, sizeof (d->td), 0));
}
static void
member_sets (void)
{
  decl_t d = { NULL };
  char type[30];
  int s = mc_choose (1 << npool ()), k;
  mc_shard ();
  sprintf (type, "set_%x", s);
  mc_note ("%s", type);
  d.td = mr_get_td_by_name (type);
  mc_assert (d.td, "type is not found");
  for (k = 0; k < npool (); ++k) if (s >> k & 1) d.name[d.n++] = pool[k];
  int order = __builtin_parity (s);
  for (k = 0; k < d.n; ++k) d.off[k] = off_of (k, d.n, order);
  pool_members (&d);
}
static void
member_numbers (void)
{
  decl_t d = { NULL };
  char type[30], name[NSIZE][10];
  int k;
  d.n = mc_choose (NSIZE + 1);
  mc_shard ();
  sprintf (type, "size_%d", d.n);
  mc_note ("%s", type);
  d.td = mr_get_td_by_name (type);
  mc_assert (d.td, "type is not found");
  for (k = 0; k < d.n; ++k) { sprintf (name[k], "f%d", (k * 37 + 11) % 1000); d.name[k] = name[k]; d.off[k] = 4 * k; }
  pool_members (&d);
  for (k = 0; k < 1000; ++k) { char t[10]; sprintf (t, "f%d", k); try_member (t, &d); }
}
static void
member_orders (void)
{
  decl_t d = { NULL };
  char type[30];
  int s = mc_choose (120), perm[5], k;
  mc_shard ();
  sprintf (type, "perm_%d", s);
  mc_note ("%s", type);
  d.td = mr_get_td_by_name (type);
  mc_assert (d.td, "type is not found");
  d.n = 5;
  nth_perm (s, 5, perm);
  for (k = 0; k < 5; ++k) { d.name[k] = pool[perm[k] + 3]; d.off[k] = 4 * perm[k]; }
  pool_members (&d);
}
static void
macro_members (void)
{
  decl_t d = { NULL };
  int i = mc_choose (sizeof (members) / sizeof (members[0])), k;
  const member_t * m = &members[i];
  mc_shard ();
  mc_note ("%s.%s", m->type, m->name);
  d.td = mr_get_td_by_name ((char*)m->type);
  mc_assert (d.td, "type is not found");
  for (k = 0; k < sizeof (members) / sizeof (members[0]); ++k) if (!strcmp (members[k].type, m->type)) { d.name[d.n] = members[k].name; d.off[d.n++] = members[k].off; }
  mr_fd_t * fd = mr_get_fd_by_name (d.td, (char*)m->name);
  mc_assert (fd, "not found");
  mc_assert (fd->stype.mr_type == m->mr_type, "kind is %d, must be %d", fd->stype.mr_type, m->mr_type);
  if (m->aux != MR_TYPE_NONE) mc_assert (fd->stype.mr_type_aux == m->aux, "inner kind is %d, must be %d", fd->stype.mr_type_aux, m->aux);
  if (m->size != (size_t)ANY) mc_assert (fd->stype.size == m->size, "size is %d, must be %d", (int)fd->stype.size, (int)m->size);
  edits (m->name, try_member, &d);
  for (k = 0; k < sizeof (members) / sizeof (members[0]); ++k) try_member (strcpy ((char[40]){0}, members[k].name), &d);
  mc_outcome (mc_hash (__func__, strlen (__func__), i));
}
static void
anon_members (void)
{
  /* the unnamed union is a member of its own */
  int i;
  mr_td_t * td = mr_get_td_by_name ("lk_anon_t");
  mc_choose (1);
  mr_fd_t * un = td->param.struct_param.fields[1], * na = mr_get_fd_by_name (td, "named"), * de = NULL, * f;
  mc_assert (td->param.struct_param.fields_size == 5 * sizeof (mr_fd_t*), "there are %d members", (int)(td->param.struct_param.fields_size / sizeof (mr_fd_t*)));
  mc_assert (un->stype.mr_type == MR_TYPE_ANON_UNION && un->offset == offsetof (lk_anon_t, au1) && un->stype.tdp && un->stype.tdp->size == sizeof (double), "unnamed union is not described");
  mc_assert (un == mr_get_fd_by_name (td, un->name.str), "unnamed union is not found by its name");
  mc_assert (un->stype.tdp == mr_get_td_by_name (un->stype.tdp->type.str), "type of unnamed union is not found by its name");
  mc_assert ((f = mr_get_fd_by_name (un->stype.tdp, "au1")) && f->offset == 0 && f->stype.mr_type == MR_TYPE_INT32, "au1");
  mc_assert ((f = mr_get_fd_by_name (un->stype.tdp, "au2")) && f->offset == 0 && f->stype.mr_type == MR_TYPE_DOUBLE, "au2");
  mc_assert (!mr_get_fd_by_name (un->stype.tdp, "nu1") && !mr_get_fd_by_name (un->stype.tdp, "deep1") && !mr_get_fd_by_name (un->stype.tdp, "between"), "members of others");
  mc_assert (na && na->stype.tdp && na->stype.tdp->size == 8 && na->stype.tdp == mr_get_td_by_name (na->stype.tdp->type.str) && na->stype.tdp != un->stype.tdp, "named union is not described");
  mc_assert ((f = mr_get_fd_by_name (na->stype.tdp, "nu1")) && f->offset == 0 && f->stype.mr_type == MR_TYPE_CHAR, "nu1");
  mc_assert ((f = mr_get_fd_by_name (na->stype.tdp, "nu2")) && f->offset == 0 && f->stype.mr_type == MR_TYPE_INT64, "nu2");
  mc_assert (!mr_get_fd_by_name (na->stype.tdp, "au1") && !mr_get_fd_by_name (na->stype.tdp, "deep1"), "members of others");
  for (i = 0; (f = na->stype.tdp->param.struct_param.fields[i]); ++i) if (f->stype.mr_type == MR_TYPE_ANON_UNION) de = f;
  mc_outcome (1);
  mc_assert (de && de->stype.tdp && de->offset == 0, "inner union is not described");
  mc_assert ((f = mr_get_fd_by_name (de->stype.tdp, "deep1")) && f->offset == 0 && f->stype.mr_type == MR_TYPE_INT16, "deep1");
  mc_assert ((f = mr_get_fd_by_name (de->stype.tdp, "deep2")) && f->offset == 0 && f->stype.mr_type == MR_TYPE_INT64, "deep2");
}

/* constants */
static void
try_const (char * text, void * arg)
{
  mr_ed_t * ed = mr_get_enum_by_name (text);
  ++mc_sh->evals;
  if (!word (1, text)) { mc_assert (!ed, "constant %s is found: %s", mc_quote (text, strlen (text)), ed->name.str); return; }
  mc_assert (ed, "constant %s is not found", text);
  mc_assert (!strcmp (ed->name.str, text), "constant %s found instead of %s", ed->name.str, text);
}
static void
const_names (void)
{
  int i = mc_choose (nwords[1]);
  mc_shard ();
  const char * s = words[1][i].str;
  mc_note ("%s", s);
  edits (s, try_const, NULL);
  mc_outcome (mc_hash (s, strlen (s), 0));
}
static void
try_value (mr_td_t * td, mr_enum_value_type_t x, const mr_enum_value_type_t * v, char (*name)[40], int n)
{
  int k, any = 0;
  mr_ed_t * ed = mr_get_enum_by_value (td, x);
  for (k = 0; k < n; ++k) if (v[k] == x) { any = 1; if (ed && !strcmp (ed->name.str, name[k])) break; }
  ++mc_sh->evals;
  if (!any) { mc_assert (!ed, "value %llx is %s", (long long)x, ed->name.str); return; }
  mc_assert (ed, "value %llx is not found", (long long)x);
  mc_assert (k < n && ed->value._unsigned == x, "value %llx is %s of %llx", (long long)x, ed->name.str, (long long)ed->value._unsigned);
}
static void
try_values (mr_td_t * td, const mr_enum_value_type_t * v, char (*name)[40], int n)
{
  int p, k, i;
  for (p = 0; p < NEPOOL; ++p)
    for (k = 0; k < epool[p].n; ++k)
      for (i = -2; i <= 2; ++i)
	{
	  mr_enum_value_type_t x = epool[p].v[k] + i;
	  try_value (td, x, v, name, n);
	  try_value (td, x & 0xff, v, name, n);
	  try_value (td, x & 0xffff, v, name, n);
	  try_value (td, x & 0xffffffff, v, name, n);
	  try_value (td, (mr_enum_value_type_t)(int8_t)x, v, name, n);
	  try_value (td, (mr_enum_value_type_t)(int32_t)x, v, name, n);
	}
  for (k = 0; k < n; ++k)
    for (i = 0; i < 64; ++i) try_value (td, v[k] ^ (1ULL << i), v, name, n);
  /* what is stored is the value of the constant */
  for (k = 0; k < n; ++k)
    {
      unsigned char at[32];
      memset (at, 0xa5, sizeof (at));
      memcpy (at, &v[k], td->size);
      mr_enum_value_type_t x = mr_get_enum_value (td, at);
      mc_assert (x == v[k], "%llx is stored as %llx", (long long)v[k], (long long)x);
      mr_ed_t * ed = mr_get_enum_by_name (name[k]);
      mc_assert (ed && ed->value._unsigned == v[k], "constant %s has another value", name[k]);
    }
}
static void
const_values (void)
{
  int p = mc_choose (NEPOOL), s = 1 + mc_choose ((1 << epool[p].n) - 1), n = 0, k;
  char type[40], name[10][40];
  mr_enum_value_type_t v[10];
  mc_shard ();
  sprintf (type, "en_%s_%x", epool[p].name, s);
  mc_note ("%s", type);
  mr_td_t * td = mr_get_td_by_name (type);
  mc_assert (td, "type is not found");
  for (k = 0; k < epool[p].n; ++k) if (s >> k & 1) { sprintf (name[n], "EC_%s_%x_%d", epool[p].name, s, k); v[n++] = epool[p].v[k]; }
  try_values (td, v, name, n);
  mc_outcome (mc_hash (type, strlen (type), 5));
}
static void
macro_values (void)
{
  int i = mc_choose (sizeof (consts) / sizeof (consts[0])), n = 0, k;
  char name[10][40];
  mr_enum_value_type_t v[10];
  mr_td_t * td = mr_get_td_by_name ((char*)consts[i].type);
  mc_shard ();
  mc_note ("%s", consts[i].type);
  mc_assert (td, "type is not found");
  for (k = 0; k < sizeof (consts) / sizeof (consts[0]); ++k) if (!strcmp (consts[k].type, consts[i].type)) { strcpy (name[n], consts[k].name); v[n++] = consts[k].value; }
  try_values (td, v, name, n);
  mc_outcome (mc_hash (__func__, strlen (__func__), i));
}

/* ---- any order of registration (in a process of its own, as this happens once) ---- */
TYPEDEF_ENUM (ord_e_t, ORD_ZERO, ORD_ONE, (ORD_BIG, = 1 << 20))
struct ord_a_t;
TYPEDEF_STRUCT (ord_b_t, (int, k), ANON_UNION (), (int, x), (float, y), END_ANON_UNION (""), (struct ord_a_t *, back))
TYPEDEF_UNION (ord_u_t, (int, ui), (string_t, us))
TYPEDEF_STRUCT (ord_a_t, (ord_b_t, b), (ord_b_t *, pb), (ord_e_t, e), BITFIELD (ord_e_t, be, :21), (ord_u_t, u, , "e"), (ord_e_t *, pe), (ord_b_t, ab, [2]), (int, n))
TYPEDEF_STRUCT (ord_c_t, (ord_a_t *, a), (ord_u_t, u, [1]))
static char * ord_shared;
#define CK(C, ...) do { if (!(C)) { snprintf (ord_shared, 1000, __VA_ARGS__); _exit (1); } } while (0)
static const char * const ord_name[] = { "ord_e_t", "ord_b_t", "ord_u_t", "ord_a_t", "ord_c_t" };
#define NORD 5
static void
ord_check (void)
{
#define OM(T, F, MT, TD) do { mr_td_t * t = mr_get_td_by_name (#T); CK (t, "no type " #T); CK (t->size == sizeof (T), "size of " #T); mr_fd_t * f = mr_get_fd_by_name (t, #F); CK (f, "no member " #T "." #F); \
    CK (f->offset == offsetof (T, F), "offset of " #T "." #F " is %d", (int)f->offset); CK (f->stype.mr_type == MR_TYPE_ ## MT, "kind of " #T "." #F " is %d", f->stype.mr_type); \
    CK (f->stype.tdp == mr_get_td_by_name (TD), "type of " #T "." #F " is %s", f->stype.tdp ? f->stype.tdp->type.str : "none"); CK (f->stype.size == ZSZ (T, F), "size of " #T "." #F); } while (0)
  OM (ord_a_t, b, STRUCT, "ord_b_t"); OM (ord_a_t, pb, POINTER, "ord_b_t"); OM (ord_a_t, e, ENUM, "ord_e_t"); OM (ord_a_t, u, UNION, "ord_u_t"); OM (ord_a_t, pe, POINTER, "ord_e_t");
  OM (ord_a_t, ab, ARRAY, "ord_b_t"); OM (ord_a_t, n, INT32, "int32_t"); OM (ord_b_t, k, INT32, "int32_t"); OM (ord_b_t, back, POINTER, "ord_a_t"); OM (ord_u_t, ui, INT32, "int32_t"); OM (ord_u_t, us, STRING, "string_t");
  OM (ord_c_t, a, POINTER, "ord_a_t"); OM (ord_c_t, u, ARRAY, "ord_u_t");
  CK (mr_get_enum_by_name ("ORD_BIG") && mr_get_enum_by_name ("ORD_BIG")->value._unsigned == 1 << 20, "ORD_BIG");
  CK (mr_get_enum_by_value (mr_get_td_by_name ("ord_e_t"), 1 << 20) && !strcmp ("ORD_BIG", mr_get_enum_by_value (mr_get_td_by_name ("ord_e_t"), 1 << 20)->name.str), "1 << 20");
  CK (!mr_get_td_by_name ("ord_d_t") && !mr_get_td_by_name ("ord_") && !mr_get_td_by_name ("ord_a_t *"), "undeclared types");
  int n = 0;
  mr_td_t * td;
  for (td = mr_conf.td_list; td; td = td->next) CK (++n < 20000, "list of types has no end");

  /* and they work */
  ord_e_t e = ORD_ONE;
  ord_b_t b = { .k = 3, .x = 4 };
  ord_a_t a = { .b = { 1, .x = 2 }, .pb = &b, .e = ORD_ONE, .be = ORD_BIG, .u = { .ui = 7 }, .pe = &e, .n = 9 };
  ord_c_t c = { .a = &a };
  b.back = &a;
  char * text = MR_SAVE_CINIT (ord_c_t, &c);
  CK (text, "not saved");
  ord_c_t d;
  memset (&d, 0, sizeof (d));
  CK (MR_SUCCESS == MR_LOAD_CINIT (ord_c_t, text, &d), "not loaded");
  CK (d.a && d.a->pb && d.a->pb->back == d.a && d.a->e == ORD_ONE && d.a->be == ORD_BIG && d.a->pe && *d.a->pe == ORD_ONE && d.a->n == 9 && d.a->ab[1].k == 0 && d.a->b.k == 1 && d.a->b.x == 2 && d.a->pb->k == 3 && d.a->pb->x == 4 && d.a->u.ui == 7, "loaded as another one");
}
static void
orders (void)
{
  int i, perm[NORD], twice = mc_choose (NORD + 1), mine[NORD];
  static mr_td_t * at[NORD];
  char note[300] = "";
  mr_td_t ** td;
  for (i = 0; i < NORD; ++i)
    {
      int used = 0, j, k = mc_choose (NORD - i);
      for (j = 0; j < i; ++j) used |= 1 << perm[j];
      for (j = 0; ; ++j) if (!(used >> j & 1) && 0 == k--) break;
      perm[i] = j;
      if (i == 1) mc_shard ();
    }
  for (i = 0; i < NORD; ++i) sprintf (note + strlen (note), " %s", ord_name[perm[i]]);
  if (twice) sprintf (note + strlen (note), ", %s also elsewhere", ord_name[twice - 1]);
  mc_note ("%s", note);
  if (!ord_shared) ord_shared = mmap (NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ord_shared[0] = 0;
  fflush (NULL);
  pid_t pid = fork ();
  if (0 == pid)
    {
      alarm (20);
      for (i = 0; i < NORD; ++i)
	for (td = &mr_conf.td_list; *td; td = &(*td)->next)
	  if (!strcmp ((*td)->type.str, ord_name[i])) { at[i] = *td; *td = (*td)->next; at[i]->next = NULL; break; }
      for (i = 0; i < NORD; ++i)
	{
	  if (twice == perm[i] + 1)
	    {
	      /* the same declaration in another unit of the program */
	      mr_td_t * copy = room (sizeof (*copy));
	      int k, n;
	      *copy = *at[perm[i]];
	      if (copy->mr_type == MR_TYPE_ENUM)
		{
		  for (n = 0; copy->param.enum_param.enums[n]; ++n);
		  mr_ed_t ** eds = room ((n + 1) * sizeof (*eds));
		  for (k = 0; k < n; ++k) { eds[k] = room (sizeof (mr_ed_t)); *eds[k] = *copy->param.enum_param.enums[k]; }
		  copy->param.enum_param.enums = eds;
		}
	      else
		{
		  for (n = 0; copy->param.struct_param.fields[n]; ++n);
		  mr_fd_t ** fds = room ((n + 1) * sizeof (*fds));
		  for (k = 0; k < n; ++k)
		    {
		      fds[k] = room (sizeof (mr_fd_t)); *fds[k] = *copy->param.struct_param.fields[k];
		      if (fds[k]->res_type && !strcmp (fds[k]->res_type, "mr_td_t"))
			{
			  mr_td_t * u = room (sizeof (*u));
			  fds[k]->name.str = memcpy (room (400), fds[k]->name.str, 1);
			  u->type.str = room (400);
			  fds[k]->res.ptr = u;
			}
		    }
		  copy->param.struct_param.fields = fds;
		}
	      mr_add_type (copy);
	    }
	  mr_add_type (at[perm[i]]);
	}
      ord_check ();
      _exit (0);
    }
  int status = 0;
  waitpid (pid, &status, 0);
  mc_assert (WIFEXITED (status) && WEXITSTATUS (status) <= 1, "ended by %x", status);
  mc_assert (WEXITSTATUS (status) == 0, "%s", ord_shared);
  mc_outcome (mc_hash (note, strlen (note), 0));
}

static void init (void) { declare (); mem_install (); mr_conf_init (); all_names (); }
#define S(N) { #N, N, init }
static mc_scope_t mc_scopes[] = { { "orders", orders }, S (type_names), S (type_contents), S (member_sets), S (member_numbers), S (member_orders), S (macro_members), { "anon_members", anon_members, init, 1 }, S (const_names), S (const_values), S (macro_values), { 0 } };
static void mc_setup (void) { }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
