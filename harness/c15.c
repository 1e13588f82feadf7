/* C15: union members are saved and restored according to their discriminator. */
#include "zoo.h"

enum { U_FLT, U_I8, U_STR, U_PTR, U_REC, U_ARR, U_LL, U_N };
static const char * const u_name[U_N] = { "umflt", "umint", "umstr", "umptr", "umrec", "umarr", "umlong" };
TYPEDEF_STRUCT (urec_t, (int16_t, x), (int16_t, y))
#define UNION_BODY (float, umflt), (int8_t, umint), (char *, umstr), (int *, umptr), (urec_t, umrec), (int16_t, umarr, [3]), (int64_t, umlong)
TYPEDEF_UNION (un_t, UNION_BODY)
#define ENUMERATORS(P) (P ## FLT, , "umflt"), (P ## I8, = 5, "umint"), (P ## STR, , "umstr"), (P ## PTR, , "umptr"), (P ## REC, = 2, "umrec"), (P ## ARR, = 12, "umarr"), (P ## LL, , "umlong"), (P ## NOWHERE, = 9, "nosuch"), (P ## PLAIN, = 11)
TYPEDEF_ENUM (ue_t, ENUMERATORS (UE_))
TYPEDEF_ENUM (ue8_t, ATTRIBUTES (__attribute__ ((packed))), ENUMERATORS (UE8_))
TYPEDEF_ENUM (ue64_t, ATTRIBUTES (__attribute__ ((packed))), ENUMERATORS (UE64_), (UE64_HUGE, = 1ULL << 62, "umrec"))
typedef char ud_ca_t[6];
MR_TYPEDEF_DESC_BI (ud_ca_t);
TYPEDEF_STRUCT (dfirst_t, (ue_t, first), (int, second))
TYPEDEF_STRUCT (dnest_t, (dfirst_t, inner), (int, third))
TYPEDEF_STRUCT (dstr_t, (char *, first), (char *, second))


/* where the union is: next to the discriminator, in a member, in an array, behind a pointer, two levels below */
TYPEDEF_STRUCT (ur_in_t, (un_t, u, , "d"), (int8_t, w))
TYPEDEF_STRUCT (ur_deep_t, (ur_in_t *, p), (ur_in_t, in, [2]))
enum { P_AF, P_BE, P_AN, P_NA, P_AR, P_UP, P_MANY, P_N };
/* in the last one there are more unions under one node than are kept in place, and with two discriminators */
#define U_(N) (un_t, N, , "d")
#define V_(N) (un_t, N, , "other")
#define HOLDER(ID, ...)							\
  TYPEDEF_STRUCT (af_ ## ID, (un_t, u, , "d"), (__VA_ARGS__), (int8_t, w)) \
  TYPEDEF_STRUCT (be_ ## ID, (__VA_ARGS__), (int8_t, w), (un_t, u, , "d")) \
  TYPEDEF_STRUCT (an_ ## ID, (int8_t, w), ANON_UNION (), UNION_BODY, END_ANON_UNION ("d"), (__VA_ARGS__)) \
  TYPEDEF_STRUCT (na_ ## ID, (int8_t, w), ANON_UNION (u), UNION_BODY, END_ANON_UNION ("d"), (__VA_ARGS__)) \
  TYPEDEF_STRUCT (ar_ ## ID, (un_t, u, [2], "d"), (int8_t, w), (__VA_ARGS__)) \
  TYPEDEF_STRUCT (up_ ## ID, (ur_in_t, in), (ur_in_t *, p), (ur_deep_t, deep), (ur_deep_t *, q), (__VA_ARGS__), (int8_t, w)) \
  TYPEDEF_STRUCT (mi_ ## ID, U_ (u0), V_ (v0), U_ (u1), V_ (v1), U_ (u2), V_ (v2), U_ (u3), V_ (v3), U_ (u4), V_ (v4), U_ (u5), V_ (v5), U_ (u6), V_ (v6)) \
  TYPEDEF_STRUCT (ma_ ## ID, (mi_ ## ID, m), (uint8_t, other), (__VA_ARGS__), (int8_t, w)) \
  Z_OPS (af_ ## ID) Z_OPS (be_ ## ID) Z_OPS (an_ ## ID) Z_OPS (na_ ## ID) Z_OPS (ar_ ## ID) Z_OPS (up_ ## ID) Z_OPS (ma_ ## ID)
typedef struct { const z_ops_t * ops; int off_u, off_w, off_d; void (*put) (void * x, long long v); long long (*get) (void * x); } place_t;
#define PLACE(T, U) { &ops_ ## T, U, offsetof (T, w), offsetof (T, d) }
#define PLACES(ID) { PLACE (af_ ## ID, offsetof (af_ ## ID, u)), PLACE (be_ ## ID, offsetof (be_ ## ID, u)), PLACE (an_ ## ID, offsetof (an_ ## ID, umflt)), PLACE (na_ ## ID, offsetof (na_ ## ID, umflt)), \
  PLACE (ar_ ## ID, offsetof (ar_ ## ID, u)), PLACE (up_ ## ID, offsetof (up_ ## ID, in)), PLACE (ma_ ## ID, offsetof (ma_ ## ID, m)) }
/* bit-fields have no address */
#define BITS(T) static void put_ ## T (void * x, long long v) { ((T*)x)->d = v; } static long long get_ ## T (void * x) { return (((T*)x)->d); }
#define BHOLDER(ID, ...) HOLDER (ID, __VA_ARGS__) BITS (af_ ## ID) BITS (be_ ## ID) BITS (an_ ## ID) BITS (na_ ## ID) BITS (ar_ ## ID) BITS (up_ ## ID) BITS (ma_ ## ID)
#define BPLACE(T, U) { &ops_ ## T, U, offsetof (T, w), -1, put_ ## T, get_ ## T }
#define BPLACES(ID) { BPLACE (af_ ## ID, offsetof (af_ ## ID, u)), BPLACE (be_ ## ID, offsetof (be_ ## ID, u)), BPLACE (an_ ## ID, offsetof (an_ ## ID, umflt)), BPLACE (na_ ## ID, offsetof (na_ ## ID, umflt)), \
  BPLACE (ar_ ## ID, offsetof (ar_ ## ID, u)), BPLACE (up_ ## ID, offsetof (up_ ## ID, in)), BPLACE (ma_ ## ID, offsetof (ma_ ## ID, m)) }

HOLDER (i8, int8_t, d) HOLDER (u8, uint8_t, d) HOLDER (i16, int16_t, d) HOLDER (u16, uint16_t, d) HOLDER (i32, int32_t, d) HOLDER (u32, uint32_t, d)
HOLDER (i64, int64_t, d) HOLDER (u64, uint64_t, d) HOLDER (i128, mr_int128_t, d) HOLDER (u128, mr_uint128_t, d) HOLDER (bo, bool, d)
HOLDER (en, ue_t, d) HOLDER (en8, ue8_t, d) HOLDER (en64, ue64_t, d) HOLDER (str, char *, d) HOLDER (ca, ud_ca_t, d)
HOLDER (pen, ue_t *, d) HOLDER (pi, int16_t *, d) HOLDER (pstr, string_t *, d) HOLDER (pca, ud_ca_t *, d)
HOLDER (st, dfirst_t, d) HOLDER (nst, dnest_t, d) HOLDER (pst, dfirst_t *, d) HOLDER (pds, dstr_t *, d)
HOLDER (aen, ue_t, d, [2]) HOLDER (astr, char *, d, [2]) HOLDER (ast, dfirst_t, d, [2]) HOLDER (apst, dfirst_t *, d, [2]) HOLDER (ap, int32_t *, d, [1])
HOLDER (fl, float, d)
BHOLDER (bi, int, d, : 3) BHOLDER (bu, unsigned, d, : 5) BHOLDER (bb, bool, d, : 1) BHOLDER (ben, ue_t, d, : 4) BHOLDER (bl, uint64_t, d, : 40)

/* the caller's own choice of members for some values */
#define OV (mr_ud_override_t[]) { { 0, "umlong" }, { 2, "umflt" }, { 7, "umarr" }, { (uint64_t)-1, "umrec" }, { 12, "umint" } }
#undef HOLDER
#define HOLDER(ID, ...)							\
  TYPEDEF_STRUCT (oi_ ## ID, (un_t, u, , "d", { OV }, "mr_ud_override_t", sizeof (OV)), (int8_t, w)) \
  TYPEDEF_STRUCT (oa_ ## ID, (oi_ ## ID, in), (un_t, u, , "d", { OV }, "mr_ud_override_t", sizeof (OV)), (__VA_ARGS__), (int8_t, w)) \
  TYPEDEF_STRUCT (on_ ## ID, (int8_t, w), ANON_UNION (), UNION_BODY, END_ANON_UNION ("d", { OV }, "mr_ud_override_t", sizeof (OV)), (__VA_ARGS__)) \
  Z_OPS (oa_ ## ID) Z_OPS (on_ ## ID)
HOLDER (oi8, int8_t, d) HOLDER (ou8, uint8_t, d) HOLDER (oi32, int32_t, d) HOLDER (ou64, uint64_t, d) HOLDER (oi64, int64_t, d) HOLDER (oi128, mr_int128_t, d) HOLDER (obo, bool, d)
HOLDER (oen, ue_t, d) HOLDER (oen8, ue8_t, d) HOLDER (obi, int, d, : 3) HOLDER (obu, unsigned, d, : 5)
BITS (oa_obi) BITS (on_obi) BITS (oa_obu) BITS (on_obu)
#define OBPLACES(ID) { BPLACE (oa_ ## ID, offsetof (oa_ ## ID, u)), BPLACE (on_ ## ID, offsetof (on_ ## ID, umflt)) }
#define OBKIND(ID, ...) { #ID, __VA_ARGS__, .over = 1, .place = OBPLACES (ID) }
#define OPLACES(ID) { PLACE (oa_ ## ID, offsetof (oa_ ## ID, u)), PLACE (on_ ## ID, offsetof (on_ ## ID, umflt)) }
enum { O_AF, O_AN };

/* ---- what is selected by each value, said independently ---- */
enum { D_INT = 1, D_BOOL, D_ENUM, D_STR, D_CA, D_NONE };
typedef struct { const char * name; int d, size, is_signed, ptr, over, bits; place_t place[P_N]; } kind_t;
#define KIND(ID, ...) { #ID, __VA_ARGS__, .place = PLACES (ID) }
#define BKIND(ID, ...) { #ID, __VA_ARGS__, .place = BPLACES (ID) }
#define OKIND(ID, ...) { #ID, __VA_ARGS__, .over = 1, .place = OPLACES (ID) }
static const kind_t kinds[] = {
  KIND (i8, D_INT, 1, 1), KIND (u8, D_INT, 1), KIND (i16, D_INT, 2, 1), KIND (u16, D_INT, 2), KIND (i32, D_INT, 4, 1), KIND (u32, D_INT, 4), KIND (i64, D_INT, 8, 1), KIND (u64, D_INT, 8),
  KIND (i128, D_INT, 16, 1), KIND (u128, D_INT, 16), KIND (bo, D_BOOL, 1), KIND (en, D_ENUM, sizeof (ue_t)), KIND (en8, D_ENUM, sizeof (ue8_t)), KIND (en64, D_ENUM, sizeof (ue64_t)),
  KIND (str, D_STR, sizeof (char*)), KIND (ca, D_CA, 6), KIND (pen, D_ENUM, sizeof (ue_t), .ptr = 1), KIND (pi, D_INT, 2, 1, .ptr = 1), KIND (pstr, D_STR, sizeof (char*), .ptr = 1),
  KIND (pca, D_CA, 6, .ptr = 1), KIND (st, D_ENUM, sizeof (ue_t)), KIND (nst, D_ENUM, sizeof (ue_t)), KIND (pst, D_ENUM, sizeof (ue_t), .ptr = sizeof (dfirst_t)), KIND (pds, D_STR, sizeof (char*), .ptr = sizeof (dstr_t)),
  KIND (aen, D_ENUM, sizeof (ue_t)), KIND (astr, D_STR, sizeof (char*)), KIND (ast, D_ENUM, sizeof (ue_t)), KIND (apst, D_ENUM, sizeof (ue_t), .ptr = sizeof (dfirst_t)),
  KIND (ap, D_INT, 4, 1, .ptr = 1), KIND (fl, D_NONE, 4),
  BKIND (bi, D_INT, 0, 1, .bits = 3), BKIND (bu, D_INT, 0, 0, .bits = 5), BKIND (bb, D_BOOL, 0, .bits = 1), BKIND (ben, D_ENUM, 0, .bits = 4), BKIND (bl, D_INT, 0, 0, .bits = 40),
  OKIND (oi8, D_INT, 1, 1), OKIND (ou8, D_INT, 1), OKIND (oi32, D_INT, 4, 1), OKIND (ou64, D_INT, 8), OKIND (oi64, D_INT, 8, 1), OKIND (oi128, D_INT, 16, 1), OKIND (obo, D_BOOL, 1),
  OKIND (oen, D_ENUM, sizeof (ue_t)), OKIND (oen8, D_ENUM, sizeof (ue8_t)), OBKIND (obi, D_INT, 0, 1, .bits = 3), OBKIND (obu, D_INT, 0, 0, .bits = 5),
};
#define N_KINDS (sizeof (kinds) / sizeof (kinds[0]))
static int
over (mr_int128_t v, int otherwise)
{
  return (v == 0 ? U_LL : v == 2 ? U_FLT : v == 7 ? U_ARR : v == -1 ? U_REC : v == 12 ? U_I8 : otherwise);
}
static char value_text[64];
/* the k-th value goes to d; which member does it select; -1 if there are no more values */
static int
set_value (const kind_t * t, void * holder, void * d, int k, void (*put) (void *, long long))
{
  switch (t->d)
    {
    case D_INT:
      {
	static const mr_int128_t small[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 15, 16, 31, 127, 128, 255, 256, 32767, 32768, 65536, 0x7fffffff, 0x80000000LL, 0xffffffffLL, 0x100000000LL, 0x100000003LL,
	  0x8000000002LL, 0x7fffffffffffffffLL, -1, -2, -7, -8, -128, -32768, -0x80000000LL, -0xfffffffdLL };
	int n = sizeof (small) / sizeof (small[0]), bits = t->bits ? t->bits : 8 * t->size;
	mr_int128_t v = k < n ? small[k] : k == n ? (mr_int128_t)1 << 64 : k == n + 1 ? ((mr_int128_t)1 << 64) + 3 : k == n + 2 ? ((mr_int128_t)3 << 96) + 2 : -((mr_int128_t)1 << 64) + 1;
	if (k > n + 3) return (-1);
	mr_int128_t low = t->is_signed ? -((mr_int128_t)1 << (bits - 1)) : 0;
	mr_int128_t high = bits == 128 ? (mr_int128_t)(~(mr_uint128_t)0 >> 1) : t->is_signed ? ((mr_int128_t)1 << (bits - 1)) - 1 : ((mr_int128_t)1 << bits) - 1;
	if (v < low || v > high) mc_skip ();
	if (put) put (holder, v); else memcpy (d, &v, t->size);
	sprintf (value_text, "%lld + %lld * 2^64", (long long)(uint64_t)v, (long long)(v >> 64));
	int sel = v >= 0 && v < U_N ? (int)v : U_FLT;
	return (t->over ? over (v, sel) : sel);
      }
    case D_BOOL:
      if (k > 1) return (-1);
      if (put) put (holder, k); else *(bool*)d = k;
      sprintf (value_text, "%d", k);
      return (t->over ? over (k, k) : k);
    case D_ENUM:
      {
	static const struct { int64_t v; int sel; } e[] = { { UE_FLT, U_FLT }, { UE_I8, U_I8 }, { UE_STR, U_STR }, { UE_PTR, U_PTR }, { UE_REC, U_REC }, { UE_ARR, U_ARR }, { UE_LL, U_LL },
	  { UE_NOWHERE, U_FLT }, { UE_PLAIN, U_FLT }, { 1, U_FLT }, { UE64_HUGE, U_REC } };
	if (k >= sizeof (e) / sizeof (e[0])) return (-1);
	if (e[k].v == UE64_HUGE && t->size != 8) return (-1);
	if (e[k].v == UE_LL && t->bits && UE_LL > 7) mc_skip (); /* an enumeration may be signed or not */
	if (put) put (holder, e[k].v); else memcpy (d, &e[k].v, t->size);
	sprintf (value_text, "%lld", (long long)e[k].v);
	return (t->over ? over (e[k].v, e[k].sel) : e[k].sel);
      }
    case D_STR:
    case D_CA:
      {
	static const char * const s[] = { "", "nosuch", "umfl", "umfltx", "UMINT", "umint ", " umint", "umlon" };
	int n = sizeof (s) / sizeof (s[0]);
	if (k > n + U_N) return (-1);
	const char * str = k < U_N ? u_name[k] : k < n + U_N ? s[k - U_N] : NULL;
	if (t->d == D_STR) *(char**)d = str ? mem_str (str) : NULL;
	else { if (!str) return (-1); strncpy (d, str, 6); }
	sprintf (value_text, "%s", str ? str : "NULL");
	return (k < U_N ? k : U_FLT);
      }
    default:
      if (k > 1) return (-1);
      *(float*)d = k;
      return (U_FLT);
    }
}
static int
same_value (const kind_t * t, void * x, void * y)
{
  switch (t->d)
    {
    case D_STR:
      {
	char * a = *(char**)x, * b = *(char**)y;
	return (a && b ? 0 == strcmp (a, b) : a == b);
      }
    default: return (0 == memcmp (x, y, t->size));
    }
}
static void
fill (void * u, int sel, int i)
{
  union { un_t u; char c[sizeof (un_t)]; } * x = u;
  memset (x, 0xA5, sizeof (un_t)); /* what is not selected is nobody's business */
  switch (sel)
    {
    case U_FLT: x->u.umflt = i + 0.5f; break;
    case U_I8: x->u.umint = -i - 1; break;
    case U_STR: { char s[8]; sprintf (s, "t%d", i); x->u.umstr = mem_str (s); } break;
    case U_PTR: x->u.umptr = mem_new (sizeof (int)); *x->u.umptr = 100 + i; break;
    case U_REC: x->u.umrec.x = i; x->u.umrec.y = -i - 1; break;
    case U_ARR: x->u.umarr[0] = i + 1; x->u.umarr[1] = 0; x->u.umarr[2] = -i; break;
    case U_LL: x->u.umlong = ((int64_t)(i + 1) << 40) - 7; break;
    }
}
static int
same (void * a, void * b, int sel, int deep)
{
  un_t * x = a, * y = b;
  switch (sel)
    {
    case U_FLT: return (x->umflt == y->umflt);
    case U_I8: return (x->umint == y->umint);
    case U_STR: return (y->umstr && (!deep || x->umstr != y->umstr) && mem_find (y->umstr) && 0 == strcmp (x->umstr, y->umstr));
    case U_PTR: return (y->umptr && (!deep || x->umptr != y->umptr) && mem_find (y->umptr) && *x->umptr == *y->umptr);
    case U_REC: return (x->umrec.x == y->umrec.x && x->umrec.y == y->umrec.y);
    case U_ARR: return (0 == memcmp (x->umarr, y->umarr, sizeof (x->umarr)));
    default: return (x->umlong == y->umlong);
    }
}
/* the unions of an object in a fixed order; other is the number of the member for those with the other discriminator */
#define MAX_U 16
static int
unions (const kind_t * t, int place, const place_t * p, char * x, void ** u, int * second)
{
  int n = 0, i;
  memset (second, 0, MAX_U * sizeof (*second));
  if (t->over)
    {
      if (place == O_AF) u[n++] = x; /* the one of the member `in' is first */
      u[n++] = x + p->off_u;
      return (n);
    }
  switch (place)
    {
    case P_AR: u[n++] = x + p->off_u; u[n++] = x + p->off_u + sizeof (un_t); break;
    case P_UP:
      {
	up_i8 * y = (up_i8*)x; /* all begin alike */
	u[n++] = &y->in.u;
	if (y->p) u[n++] = &y->p->u;
	if (y->deep.p && y->deep.p != y->p) u[n++] = &y->deep.p->u;
	u[n++] = &y->deep.in[0].u; u[n++] = &y->deep.in[1].u;
	if (y->q) { u[n++] = &y->q->in[0].u; u[n++] = &y->q->in[1].u; if (y->q->p && y->q->p != y->p && y->q->p != y->deep.p) u[n++] = &y->q->p->u; }
      }
      break;
    case P_MANY:
      for (i = 0; i < 14; ++i) { second[n] = i & 1; u[n++] = x + p->off_u + i * sizeof (un_t); }
      break;
    default: u[n++] = x + p->off_u; break;
    }
  return (n);
}
static int
alike (const kind_t * t, const place_t * p, int place, int sel, int sel2, void * x, void * y, int deep)
{
  void * a[MAX_U], * b[MAX_U];
  int s[MAX_U], n = unions (t, place, p, x, a, s), m = unions (t, place, p, y, b, s), i;
  if (n != m) return (-1);
  for (i = 0; i < n; ++i)
    if (!same (a[i], b[i], s[i] ? sel2 : sel, deep)) return (i + 1);
  return (0);
}
static int fmt;
static void
one (int from, int to)
{
  const kind_t * t = &kinds[from + mc_choose (to - from)];
  int place = mc_choose (t->over ? 2 : P_N), i;
  const place_t * p = &t->place[place];
  void * u[MAX_U];
  int second[MAX_U];
  fmt = mc_choose (F_N);
  mc_shard ();
  char * x = mem_new (p->ops->size);
  void * d = p->off_d < 0 ? NULL : x + p->off_d;
  int sel, k = mc_choose (42), sel2 = 0;
  if (t->ptr && k == 41) { sel = U_FLT; strcpy (value_text, "NULL"); }
  else
    {
      if (t->ptr) d = *(void**)d = mem_new (t->ptr > t->size ? t->ptr : t->size);
      sel = set_value (t, x, d, k, p->put);
      if (sel < 0) mc_skip ();
    }
  if (place == P_UP && !t->over)
    {
      up_i8 * y = (up_i8*)x;
      int share = mc_choose (5);
      if (share) y->p = mem_new (sizeof (ur_in_t));
      if (share > 1) y->deep.p = share == 3 ? y->p : mem_new (sizeof (ur_in_t));
      if (share > 2) { y->q = mem_new (sizeof (ur_deep_t)); y->q->p = share == 4 ? y->deep.p : mem_new (sizeof (ur_in_t)); }
    }
  if (place == P_MANY && !t->over)
    {
      sel2 = mc_choose (mc_thorough ? U_N : 3);
      ((uint8_t*)x)[sizeof (un_t) * 14] = sel2; /* all begin alike here, too */
    }
  x[p->off_w] = 77;
  int n = unions (t, place, p, x, u, second);
  for (i = 0; i < n; ++i) fill (u[i], second[i] ? sel2 : sel, i);
  mc_note ("%s %s discriminator %s selects %s", f_name[fmt], p->ops->name, value_text, u_name[sel]);
  if (place == P_MANY && !t->over) mc_note_add (", the other one %s", u_name[sel2]);
  mr_rarray_t ra = p->ops->save (fmt, x);
  mc_assert (ra.data.ptr != NULL, "%s: save failed", f_name[fmt]);
  if (fmt != F_XDR)
    {
      /* names of members occur if selected, and only then */
      char * text = z_doc (fmt, &ra);
      int seen[U_N];
      for (i = 0; i < U_N; ++i) seen[i] = strstr (ra.data.ptr, u_name[i]) != NULL;
      mc_note_add (" document: %s", text);
      for (i = 0; i < U_N; ++i)
	if (i == sel || (place == P_MANY && !t->over && i == sel2)) mc_assert (seen[i], "%s: member %s is selected and not saved", f_name[fmt], u_name[i]);
	else if (t->d != D_STR && t->d != D_CA) mc_assert (!seen[i], "%s: member %s is not selected and saved", f_name[fmt], u_name[i]);
    }
  char * y = malloc (p->ops->size);
  memset (y, 0xA5, p->ops->size);
  mr_status_t st = p->ops->load (fmt, &ra, y);
  mc_assert (st == MR_SUCCESS, "%s: load failed", f_name[fmt]);
  mc_assert (y[p->off_w] == 77, "%s: another member has changed", f_name[fmt]);
  if (p->get) mc_assert (p->get (x) == p->get (y), "%s: discriminator %lld became %lld", f_name[fmt], p->get (x), p->get (y));
  else if (t->ptr)
    {
      void * a = *(void**)(x + p->off_d), * b = *(void**)(y + p->off_d);
      mc_assert (a ? b && same_value (t, a, b) : !b, "%s: discriminator has changed", f_name[fmt]);
    }
  else mc_assert (same_value (t, x + p->off_d, y + p->off_d), "%s: discriminator has changed", f_name[fmt]);
  int bad = alike (t, p, place, sel, sel2, x, y, 1);
  mc_assert (!bad, "%s: union %d has lost the value of its member", f_name[fmt], bad);
  if (fmt == 0)
    {
      memset (y, 0x5A, p->ops->size);
      mc_assert (MR_SUCCESS == p->ops->copy (x, y), "copy failed");
      bad = alike (t, p, place, sel, sel2, x, y, 1);
      mc_assert (!bad, "copy: union %d has lost the value of its member", bad);
      /* the bytes that are not selected do not count */
      n = unions (t, place, p, y, u, second);
      for (i = 0; i < n; ++i)
	{
	  static const int size[U_N] = { 4, 1, 8, 8, 4, 6, 8 };
	  int sz = size[second[i] ? sel2 : sel];
	  memset ((char*)u[i] + sz, 0x33, sizeof (un_t) - sz);
	}
      mc_assert (0 == p->ops->cmp (x, y), "what is not selected counts in comparison");
      mc_assert (p->ops->hash (x) == p->ops->hash (y), "what is not selected counts in the hash");
      int s = second[n - 1] ? sel2 : sel;
      if (s == U_STR) ((un_t*)u[n - 1])->umstr[1] = 'x';
      else if (s == U_PTR) ++*((un_t*)u[n - 1])->umptr;
      else if (s == U_ARR) ++((un_t*)u[n - 1])->umarr[2];
      else if (s == U_REC) ++((un_t*)u[n - 1])->umrec.y;
      else if (s == U_FLT) ++((un_t*)u[n - 1])->umflt;
      else ++*(char*)u[n - 1];
      mc_assert (0 != p->ops->cmp (x, y), "what is selected does not count in comparison");
    }
  mc_outcome (mc_hash (value_text, strlen (value_text), (fmt * P_N + place) * N_KINDS + (t - kinds)));
  free (y);
  z_drop (&ra);
}
static void ints (void) { one (0, 10); }
static void enums (void) { one (10, 14); }
static void texts (void) { one (14, 16); }
static void indirect (void) { one (16, 30); }
static void bits (void) { one (30, 35); }
static void overrides (void) { one (35, N_KINDS); }

/* ---- records that are reached from two holders, whose discriminators may differ in any of them ---- */
TYPEDEF_UNION (sun_t, (int8_t, small), (int32_t, big))
#define SU(N) (sun_t, u ## N, , "d" #N)
#define SU1 SU (0)
#define SU2 SU1, SU (1)
#define SU3 SU2, SU (2)
#define SU4 SU3, SU (3)
#define SU5 SU4, SU (4)
#define SU6 SU5, SU (5)
#define SU7 SU6, SU (6)
#define SU11 SU7, SU (7), SU (8), SU (9), SU (10)
#define SU12 SU11, SU (11)
#define SU13 SU12, SU (12)
#define SD(N) (uint8_t, d ## N)
#define SHARED(K)							\
  TYPEDEF_STRUCT (rec ## K ## _t, (rec ## K ## _t *, in), SU ## K)	\
  TYPEDEF_STRUCT (hold ## K ## _t, SD (0), SD (1), SD (2), SD (3), SD (4), SD (5), SD (6), SD (7), SD (8), SD (9), SD (10), SD (11), SD (12), (rec ## K ## _t *, p)) \
  TYPEDEF_STRUCT (two ## K ## _t, (hold ## K ## _t, a), (hold ## K ## _t, b)) \
  Z_OPS (two ## K ## _t)
SHARED (1) SHARED (2) SHARED (3) SHARED (4) SHARED (5) SHARED (6) SHARED (7) SHARED (11) SHARED (12) SHARED (13)
static const struct { int k; const z_ops_t * ops; } shares[] = {
#define SH(K) { K, &ops_two ## K ## _t }
  SH (1), SH (2), SH (3), SH (4), SH (5), SH (6), SH (7), SH (11), SH (12), SH (13) };
static void
shared (void)
{
  int at = mc_choose (sizeof (shares) / sizeof (shares[0])), k = shares[at].k, i, j, fmt = mc_choose (F_N + 1);
  const z_ops_t * ops = shares[at].ops;
  int how = mc_choose (4), base = mc_choose (4), one = mc_choose (k + 1), two = mc_choose (k + 1), order = mc_choose (2);
  static const int patterns[] = { 0, 0x1FFF, 0x555, 0x1033 };
  if (two < one) mc_skip ();
  mc_shard ();
  hold12_t * h, * b;
  /* one record that both point to; two whose inner records are one; a chain that one enters behind the other; two of their own */
  rec12_t * r[4];
  size_t size = offsetof (rec12_t, u0) + k * sizeof (sun_t);
  size = (size + 7) & ~7;
  for (i = 0; i < 4; ++i)
    {
      r[i] = mem_new (size);
      for (j = 0; j < k; ++j) (&r[i]->u0)[j].big = 0x01020304 * (i + 1) + 0x100 * j;
    }
  char * x = mem_new (ops->size), * y = mem_new (ops->size);
  h = (hold12_t*)x; b = (hold12_t*)(x + ops->size / 2);
  if (order) { hold12_t * t = h; h = b; b = t; }
  r[0]->in = r[1]; r[2]->in = r[1];
  h->p = how == 3 ? r[3] : r[0];
  b->p = how == 0 ? r[0] : how == 1 ? r[2] : how == 2 ? r[1] : r[1];
  for (i = 0; i < 13; ++i) { (&h->d0)[i] = patterns[base] >> i & 1; (&b->d0)[i] = (patterns[base] >> i & 1) ^ (i + 1 == one || i + 1 == two); }
  mc_note ("%s: %d unions, %s, discriminators %03x, the other one's differ in %d and %d%s", fmt < F_N ? f_name[fmt] : "copy", k,
	   how == 0 ? "one record" : how == 1 ? "two records with one inner record" : how == 2 ? "a chain entered twice" : "no record in common", patterns[base], one, two, order ? ", reversed" : "");
  mr_rarray_t ra = { .data = { NULL } };
  mr_status_t st;
  memset (y, 0xA5, ops->size);
  if (fmt < F_N)
    {
      ra = ops->save (fmt, x);
      mc_assert (ra.data.ptr != NULL, "save failed");
      if (fmt != F_XDR) mc_note_add (" document: %s", z_doc (fmt, &ra));
      mr_rarray_t in = ra;
      st = ops->load (fmt, &in, y);
    }
  else
    st = ops->copy (x, y);
  mc_assert (st == MR_SUCCESS, "failed");
  for (i = 0; i < 2; ++i)
    {
      hold12_t * hx = (hold12_t*)(x + i * (ops->size / 2)), * hy = (hold12_t*)(y + i * (ops->size / 2));
      rec12_t * px = hx->p, * py = hy->p;
      mc_assert (!memcmp (&hx->d0, &hy->d0, 13), "other discriminators");
      for (; px; px = px->in, py = py->in)
	{
	  mc_assert (py != NULL, "a record is missing");
	  for (j = 0; j < k; ++j)
	    {
	      sun_t * ux = &(&px->u0)[j], * uy = &(&py->u0)[j];
	      if ((&hx->d0)[j]) mc_assert (ux->big == uy->big, "%s: big of union %d is %x, must be %x", i ? "b" : "a", j, uy->big, ux->big);
	      else mc_assert (ux->small == uy->small, "%s: small of union %d is %d, must be %d", i ? "b" : "a", j, uy->small, ux->small);
	    }
	}
      mc_assert (py == NULL, "a record too many");
    }
  if (!one && !two)
    {
      hold12_t * ya = (hold12_t*)y, * yb = (hold12_t*)(y + ops->size / 2);
      if (order) { hold12_t * t = ya; ya = yb; yb = t; }
      rec12_t * pa = ya->p, * pb = yb->p;
      mc_assert (how == 0 ? pa == pb : how == 1 ? pa->in == pb->in : how == 2 ? pa->in == pb : pa != pb, "what was one record is two, or the other way round");
    }
  mc_outcome ((((((uint64_t)at * 8 + fmt) * 4 + how) * 4 + base) * 16 + one) * 32 + two * 2 + order);
  mc_assert (MR_SUCCESS == ops->free (y), "free failed");
  z_drop (&ra);
}

#define S(N) { #N, N }
static mc_scope_t mc_scopes[] = { S (shared), S (ints), S (enums), S (texts), S (indirect), S (bits), S (overrides), { 0 } };
static void mc_setup (void) { z_setup (); }
int main (int argc, char * argv[]) { return (mc_main (argc, argv)); }
