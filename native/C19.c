/* C19: JSON accessors are type-checked and value-exact. A model remembers how each value was made. */
#include "common.h"
enum { T_UNDEF, T_NULL, T_TRUE, T_FALSE, T_DBL, T_I64, T_U64, T_STR, T_BLOB, T_OBJ, T_ARR, T_STRN, T_N };
static const char *tn[] = { "undefined", "null", "true", "false", "double", "i64", "u64", "string", "blob", "object", "array", "strn" };
static struct cee_state *st;
struct v { int t; struct cee_json *j; uint64_t bits; char *txt; size_t n; void *pay; };
static const uint64_t edge[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~0ULL, 0x3ff0000000000000ULL, 0x7ff0000000000000ULL, 0x3fb999999999999aULL };
static uint64_t num(void) { return chance(40) ? edge[rnd(16)] : chance(50) ? rnd64() >> rnd(64) : -(rnd64() >> rnd(64)); }
static char *text(size_t *n) { *n = chance(80) ? rnd(8) : rnd(600); char *p = malloc(*n + 1); for (size_t i = 0; i < *n; i++) p[i] = chance(80) ? 'a' + rnd(26) : chance(50) ? '%' : 1 + rnd(255); p[*n] = 0; return p; }
static struct v mk(int t) {
  struct v v = { t }; struct cee_sect *tail;
  switch (t) {
  case T_UNDEF: v.j = cee_json_undefined(); break; case T_NULL: v.j = cee_json_null(); break;
  case T_TRUE: v.j = chance(50) ? cee_json_true() : cee_json_bool(true); break; case T_FALSE: v.j = chance(50) ? cee_json_false() : cee_json_bool(false); break;
  case T_DBL: { double d; v.bits = num(); memcpy(&d, &v.bits, 8); if (d != d) { d = 1.5; memcpy(&v.bits, &d, 8); } v.j = cee_json_double_mk(st, d); break; }
  case T_I64: v.bits = num(); v.j = cee_json_i64_mk(st, (int64_t)v.bits); break;
  case T_U64: v.bits = num(); v.j = cee_json_u64_mk(st, v.bits); break;
  case T_STR: { v.txt = text(&v.n); int k = rnd(3);
    if (k == 0) { struct cee_str *s = cee_str_mk(st, "%s", v.txt); v.j = cee_json_str_mk(st, s); v.pay = s; }
    else if (k == 1) v.j = cee_json_str_mkf(st, "%s", v.txt);
    else { char *o = v.txt; v.txt = malloc(v.n + 40); int x = rnd(1000); v.n = sprintf(v.txt, "%d-%s=%%", x, o); v.j = cee_json_str_mkf(st, "%d-%s=%%", x, o); free(o); } break; }
  case T_BLOB: v.txt = text(&v.n); if (v.n) v.txt[rnd(v.n)] = 0; v.j = cee_json_blob_mk(st, v.txt, v.n); break;
  case T_STRN: v.txt = text(&v.n); if (v.n && chance(50)) v.txt[rnd(v.n)] = 0; v.j = cee_json_strn_mk(st, v.txt, v.n); break;
  case T_OBJ: if (chance(50)) v.j = cee_json_object_mk(st); else { struct cee_map *m = cee_map_mk(st, (cee_cmp_fun)strcmp); v.pay = m; v.j = cee_map_to_json(m); } break;
  case T_ARR: if (chance(50)) v.j = cee_json_array_mk(st, rnd(5)); else { struct cee_list *l = cee_list_mk(st, rnd(5)); v.pay = l; v.j = cee_list_to_json(l); } break;
  }
  tr("%s(%016" PRIx64 " %.20s);", tn[t], v.bits, v.txt ? v.txt : ""); return v; }
static void check(struct v *v) {
  struct cee_json *j = v->j; const char *n = tn[v->t];
  static const enum cee_json_type want[] = { CEE_JSON_UNDEFINED, CEE_JSON_NULL, CEE_JSON_BOOLEAN, CEE_JSON_BOOLEAN, CEE_JSON_DOUBLE, CEE_JSON_I64, CEE_JSON_U64, CEE_JSON_STRING, CEE_JSON_BLOB, CEE_JSON_OBJECT, CEE_JSON_ARRAY, CEE_JSON_STRN };
  CHECK(j->t == want[v->t], "kind of a %s is %d", n, j->t);
  struct cee_map *o = cee_json_to_object(j); CHECK((o != NULL) == (v->t == T_OBJ), "to_object of %s", n); if (o) CHECK(!v->pay || o == v->pay, "to_object gives another map");
  struct cee_list *a = cee_json_to_array(j); CHECK((a != NULL) == (v->t == T_ARR), "to_array of %s", n); if (a) CHECK(!v->pay || a == v->pay, "to_array gives another list");
  struct cee_str *s = cee_json_to_str(j); CHECK((s != NULL) == (v->t == T_STR), "to_str of %s", n); if (s) { CHECK(!strcmp(s->_, v->txt), "string is \"%.200s\", made from \"%.200s\"", s->_, v->txt); CHECK(!v->pay || s == v->pay, "to_str gives another string"); }
  struct cee_block *b = cee_json_to_blob(j); CHECK((b != NULL) == (v->t == T_BLOB), "to_blob of %s", n); if (b) { CHECK(cee_block_size(b) == v->n, "blob of %zu bytes has size %zu", v->n, cee_block_size(b)); CHECK(!memcmp(b->_, v->txt, v->n), "blob contents"); }
  struct cee_boxed *x = cee_json_to_boxed(j); CHECK((x != NULL) == (v->t == T_DBL || v->t == T_I64 || v->t == T_U64), "to_boxed of %s", n);
  char *p = (char *)3; size_t z = 7; bool r = cee_json_to_strn(j, &p, &z); CHECK(r == (v->t == T_STRN), "to_strn of %s gives %d", n, r); if (r) CHECK(p == v->txt && z == v->n, "to_strn start/size"); else CHECK(p == (char *)3 && z == 7, "failed to_strn wrote its results");
  double d = 77.25; int e = cee_json_to_doublex(j, &d); CHECK((e == 0) == (v->t == T_DBL), "to_doublex of %s gives %d", n, e); if (!e) CHECK(!memcmp(&d, &v->bits, 8), "double %016" PRIx64 " comes back as %lg", v->bits, d); else CHECK(d == 77.25 && e == EINVAL, "failed to_doublex: %d", e);
  int64_t i = 77; e = cee_json_to_i64x(j, &i); CHECK((e == 0) == (v->t == T_I64), "to_i64x of %s gives %d", n, e); if (!e) CHECK(i == (int64_t)v->bits, "i64 %" PRId64 " comes back as %" PRId64, (int64_t)v->bits, i); else CHECK(i == 77 && e == EINVAL, "failed to_i64x: %d", e);
  uint64_t u = 77; e = cee_json_to_u64x(j, &u); CHECK((e == 0) == (v->t == T_U64), "to_u64x of %s gives %d", n, e); if (!e) CHECK(u == v->bits, "u64 %" PRIu64 " comes back as %" PRIu64, v->bits, u); else CHECK(u == 77 && e == EINVAL, "failed to_u64x: %d", e);
  int q = 77; e = cee_json_to_intx(j, &q); CHECK((e == 0) == (v->t == T_I64), "to_intx of %s gives %d", n, e); if (e) CHECK(q == 77 && e == EINVAL, "failed to_intx: %d", e); else if ((int64_t)v->bits == (int)(int64_t)v->bits) CHECK(q == (int)(int64_t)v->bits, "int %d comes back as %d", (int)v->bits, q);
  struct { bool b; } bb = { chance(50) }; bool old = bb.b; e = cee_json_to_boolx(j, &bb.b); CHECK((e == 0) == (v->t == T_TRUE || v->t == T_FALSE), "to_boolx of %s gives %d", n, e); if (!e) CHECK(bb.b == (v->t == T_TRUE), "%s read as %d", n, bb.b); else CHECK(bb.b == old && e == EINVAL, "failed to_boolx: %d", e);
  struct cee_json *sg[] = { cee_json_undefined(), cee_json_null(), cee_json_true(), cee_json_false() };
  for (int k = 0; k < 4; k++) CHECK((j == sg[k]) == (v->t == k), "%s %s the unique %s", n, j == sg[k] ? "is" : "is not", tn[k]);
  if (v->t == T_OBJ) CHECK(cee_json_empty(j) == 1, "new object not empty"); else if (v->t == T_ARR) { CHECK(cee_json_empty(j) == 1, "new array not empty"); CHECK(cee_json_array_length(j) == 0, "length"); CHECK(!cee_json_array_get(j, 0) && !cee_json_array_get(j, -1), "get on an empty array"); } else CHECK(cee_json_empty(j) == 0, "empty of %s is true", n); }
static void contents(void) {
  struct cee_json *a = cee_json_array_mk(st, rnd(4)), *o = cee_json_object_mk(st), *e[300]; int n = chance(97) ? rnd(40) : 250 + rnd(50), keys = 0; char k[20];
  for (int i = 0; i < n; i++) { struct v v = mk(T_DBL + rnd(3)); e[i] = v.j; cee_json_array_append(a, v.j); CHECK(cee_json_empty(a) == 0, "array of %d is empty", i + 1); }
  CHECK(cee_json_array_length(a) == n, "length of an array of %d is %zu", n, cee_json_array_length(a)); CHECK(cee_json_empty(a) == (n == 0), "empty");
  for (int i = -3; i < n + 3; i++) CHECK(cee_json_array_get(a, i) == (i >= 0 && i < n ? e[i] : NULL), "array_get(%d) of %d elements", i, n);
  CHECK(!cee_json_array_get(a, INT32_MIN) && !cee_json_array_get(a, INT32_MAX), "array_get of extreme indices");
  for (int i = 0; i < 5; i++) { CHECK(cee_json_empty(o) == (keys == 0), "object of %d keys: empty is %d", keys, cee_json_empty(o)); sprintf(k, "k%d", i); if (chance(60)) { cee_json_object_set(o, k, cee_json_null()); keys++; } }
  if (keys && chance(50)) { for (int i = 0; i < 5; i++) { sprintf(k, "k%d", i); cee_json_object_remove(o, k); } CHECK(cee_json_empty(o) == 1, "emptied object"); }
  bool tr1 = TRAPS(cee_json_array_length(o)); CHECK(tr1, "array_length of an object returns"); tr1 = TRAPS(cee_json_array_get(o, 0)); CHECK(tr1, "array_get of an object returns"); }
static void exhaustive(void) { st = cee_state_mk(1); for (int t = 0; t < T_N; t++) for (int k = 0; k < 40; k++) { h_tn = 0; struct v v = mk(t); check(&v); free(v.txt); } cee_del(st); }
static void one_case(void) { st = cee_state_mk(chance(50) ? 0 : 10); struct v v[12]; int n = 1 + rnd(12);
  for (int i = 0; i < n; i++) v[i] = mk(rnd(T_N)); for (int i = 0; i < n; i++) check(&v[i]); contents(); chain_check(st);
  for (int i = 0; i < n; i++) { check(&v[i]); free(v[i].txt); } cee_del(st); CHECK(h_live == 0, "%ld blocks left after the state is deleted", h_live); }
