/* C20: histories of updates of one JSON value against a reference tree; merging against a reference merge */
#include "common.h"
#include "jsonref.h"
static struct cee_state *st; static bool merged;      /* after a merge the order of keys is not specified */
static void same(const struct rv *v, struct cee_json *j) {
  if (v->k == R_OBJ) { struct cee_map *m = cee_json_to_object(j); CHECK(m, "object expected, kind %d", j->t); CHECK(cee_map_size(m) == v->ne, "object of %zu members has %zu", v->ne, cee_map_size(m));
    for (size_t i = 0; i < v->ne; i++) { struct cee_json *x = cee_json_object_get(j, v->key[i]); CHECK(x, "member \"%.60s\" is missing", v->key[i]); same(v->e[i], x); }
    struct cee_list *ks = cee_map_insertion_ordered_keys(m); CHECK(cee_list_size(ks) == v->ne, "%zu ordered keys of %zu members", cee_list_size(ks), v->ne);
    for (size_t i = 0; i < v->ne; i++) { if (!merged) CHECK(!strcmp(ks->a[i], v->key[i]), "key %zu is \"%.60s\" instead of \"%.60s\"", i, (char *)ks->a[i], v->key[i]); else CHECK(r_at((struct rv *)v, ks->a[i]) >= 0, "unknown ordered key"); } cee_del(ks); }
  else if (v->k == R_ARR) { CHECK(cee_json_to_array(j), "array expected, kind %d", j->t); CHECK(cee_json_array_length(j) == v->ne, "array of %zu elements has %zu", v->ne, cee_json_array_length(j)); for (size_t i = 0; i < v->ne; i++) same(v->e[i], cee_json_array_get(j, i)); }
  else r_eq(v, j, false); }
static const char *keys[] = { "a", "b", "c", "key", "", "a b", "%s%d", "\xc3\xa9", "ab", "k2", "k3", "k4", "k5", "k6", "k7" };
static const char *key(void) { return keys[chance(70) ? rnd(5) : rnd(15)]; }
static struct rv *gen(int depth) { struct rv *v; int k = chance(depth > 0 ? 55 : 0) ? R_ARR + rnd(2) : R_NULL + rnd(7); if (k < R_ARR && chance(8)) k = chance(70) ? R_UNDEF : R_BLOB; v = r_mk(k);
  switch (k) { case R_DBL: v->d = r_dbl(); break; case R_I64: v->i = r_int(); break; case R_U64: v->u = r_int(); break; case R_STR: v->s = chance(20) ? r_dup("123", 3) : r_text(); v->n = strlen(v->s); break;
  case R_STRN: case R_BLOB: v->s = r_text(); v->n = strlen(v->s); break;
  case R_ARR: for (int n = rnd(4); n > 0; n--) r_push(v, gen(depth - 1)); break; case R_OBJ: for (int n = rnd(6); n > 0; n--) r_set(v, key(), gen(depth - 1)); break; }
  return v; }
static void show(const struct rv *v) { r_on = 0; r_print(v, 0); tr("%.400s", r_ob); }
/* reference merge: v is changed, w is not */
static bool merge(struct rv *v, const struct rv *w) {
  if (v->k != w->k) return false;
  if (v->k == R_ARR) { for (size_t i = 0; i < w->ne; i++) r_push(v, r_copy(w->e[i])); return true; }
  if (v->k != R_OBJ) return false;
  for (size_t i = 0; i < w->ne; i++) { long at = r_at(v, w->key[i]); if (at < 0 || !merge(v->e[at], w->e[i])) r_set(v, w->key[i], r_copy(w->e[i])); }
  return true; }
static void occurs(const struct rv *v, const char *k, struct cee_json *j, struct cee_json *r, int *n, bool *hit) {
  for (size_t i = 0; i < v->ne; i++) { struct cee_json *x = v->k == R_OBJ ? cee_json_object_get(j, v->key[i]) : cee_json_array_get(j, i); if (v->k == R_OBJ && !strcmp(v->key[i], k)) { ++*n; if (x == r) *hit = true; } occurs(v->e[i], k, x, r, n, hit); } }
static int seen; static int stop_at; static struct rv *it_v; static char it_hit[64];
static int on_kv(void *cx, struct cee_str *k, struct cee_json *x) { CHECK(cx == &seen, "context"); long i = r_at(it_v, (char *)k); CHECK(i >= 0 && i < 64 && !it_hit[i], "iterate delivers \"%.60s\"", (char *)k); it_hit[i] = 1; same(it_v->e[i], x); return ++seen == stop_at ? 17 : 0; }
static int on_el(void *cx, struct cee_json *x, int i) { CHECK(cx == &seen && i == seen, "index %d at step %d", i, seen); same(it_v->e[i], x); return ++seen == stop_at ? 18 : 0; }
static void op(struct rv *root, struct cee_json *rj) {
  struct rv *v = root; struct cee_json *j = rj; char b[80]; int depth = 0; b[0] = 0;
  while (v->ne && chance(55)) { size_t i = rnd(v->ne); if (v->e[i]->k != R_ARR && v->e[i]->k != R_OBJ) break; tr("/%s%zu", v->k == R_OBJ ? "." : "", i); j = v->k == R_OBJ ? cee_json_object_get(j, v->key[i]) : cee_json_array_get(j, i); v = v->e[i]; CHECK(j, "value not found"); depth++; }
  struct rv *x = gen(depth > 3 ? 0 : 2);
  if (v->k == R_OBJ) { const char *k0 = key(); if (v->ne && chance(50)) k0 = v->key[rnd(v->ne)]; if (v->ne > 20 && r_at(v, k0) < 0) k0 = v->key[0]; char k[100]; strcpy(k, k0); long at = r_at(v, k); char *kk = malloc(strlen(k) + 1); strcpy(kk, k);
    switch (rnd(18)) {
    case 0: case 1: tr("set '%s' ", k); show(x); cee_json_object_set(j, kk, r_build(st, x)); r_set(v, k, x); break;
    case 2: tr("set_null '%s'", k); cee_json_object_set_null(j, kk); r_set(v, k, r_mk(R_NULL)); break;
    case 3: { bool t = rnd(2); tr("set_bool '%s' %d", k, t); cee_json_object_set_bool(j, kk, t); r_set(v, k, r_mk(t ? R_TRUE : R_FALSE)); break; }
    case 4: { char *t = r_text(); tr("set_str '%s' '%.80s'", k, t); cee_json_object_set_str(j, kk, t); r_set(v, k, r_str(t)); break; }
    case 5: { sprintf(b, "%d-%s%%", at > 0 ? 5 : -7, "zz"); tr("set_strf '%s'", k); cee_json_object_set_strf(j, kk, "%d-%s%%", at > 0 ? 5 : -7, "zz"); r_set(v, k, r_str(b)); break; }
    case 6: { struct rv *n = r_mk(R_DBL); n->d = r_dbl(); tr("set_double '%s' %g", k, n->d); cee_json_object_set_double(j, kk, n->d); r_set(v, k, n); break; }
    case 7: { struct rv *n = r_mk(R_I64); n->i = r_int(); tr("set_i64 '%s' %" PRId64, k, n->i); cee_json_object_set_i64(j, kk, n->i); r_set(v, k, n); break; }
    case 8: { struct rv *n = r_mk(R_U64); n->u = r_int(); tr("set_u64 '%s' %" PRIu64, k, n->u); cee_json_object_set_u64(j, kk, n->u); r_set(v, k, n); break; }
    case 9: tr("remove '%s'", k); cee_json_object_remove(j, kk); if (at >= 0) r_del(v, at); break;
    case 10: { const char *k2 = v->ne && chance(30) ? v->key[rnd(v->ne)] : key(); char q[100]; strcpy(q, k2); tr("rename '%s' '%s'", k, q); bool r = cee_json_object_rename(j, kk, q); CHECK(r == (at >= 0), "rename returned %d", r); if (at >= 0) { struct rv *m = v->e[at]; r_del(v, at); r_set(v, q, m); } break; }
    case 11: case 12: tr("append '%s' ", k); show(x); cee_json_object_append(j, kk, r_build(st, x));
      if (at < 0) r_set(v, k, x); else { struct rv *l = v->e[at]; if (l->k != R_ARR) { struct rv *n = r_mk(R_ARR); r_push(n, l); r_set(v, k, n); l = n; } if (x->k == R_ARR) for (size_t i = 0; i < x->ne; i++) r_push(l, x->e[i]); else r_push(l, x); } break;
    case 13: { tr("convert_to_i64 '%s'", k); bool r = cee_json_object_convert_to_i64(j, kk); if (at < 0) CHECK(!r, "conversion of a missing member"); else if (v->e[at]->k == R_I64) CHECK(r, "conversion of an integer"); else { bool num = false; long long i = 0; if (v->e[at]->k == R_STR) { char *end; errno = 0; const char *s = v->e[at]->s; i = strtoll(s, &end, 10); num = end != s && !*end && errno == 0; if (errno) { if (r) r_set(v, k, ({ struct rv *n = r_mk(R_I64); cee_json_to_i64x(cee_json_object_get(j, kk), &n->i); n; })); break; } } CHECK(r == num, "conversion returned %d", r); if (num) { struct rv *n = r_mk(R_I64); n->i = i; r_set(v, k, n); } } break; }
    case 14: { tr("has '%s'", k); int n = 0; bool hit = false; struct cee_json *r = cee_json_has(j, kk); occurs(v, k, j, r, &n, &hit); CHECK((r != NULL) == (n > 0), "has '%s' %s", k, r ? "found" : "not found"); if (r) CHECK(hit, "has returns something else"); break; }
    case 15: { if (v->ne > 60) break; it_v = v; seen = 0; memset(it_hit, 0, sizeof it_hit); stop_at = rnd(v->ne + 3); tr("iterate %d", stop_at); int r = cee_json_object_iterate(j, &seen, on_kv); int want = stop_at && stop_at <= (int)v->ne ? stop_at : (int)v->ne; CHECK(seen == want && r == (stop_at && stop_at <= (int)v->ne ? 17 : 0), "iterate of %zu members: %d calls, returned %d", v->ne, seen, r); break; }
    case 16: { struct cee_json *jj = j; tr("set_error"); bool there = r_at(v, "error") >= 0; cee_json_set_error(&jj, "e%d", 5); CHECK(jj == j, "set_error moved the object"); if (!there) r_set(v, "error", r_str("e5")); break; }
    default: goto mergeit; }
    memset(kk, 'x', strlen(kk)); free(kk); return;
    mergeit: free(kk); }
  else switch (rnd(10)) {
    case 0: case 1: tr("append "); show(x); cee_json_array_append(j, r_build(st, x)); r_push(v, x); return;
    case 2: { bool t = rnd(2); tr("append_bool"); cee_json_array_append_bool(j, t); r_push(v, r_mk(t ? R_TRUE : R_FALSE)); return; }
    case 3: { char *t = r_text(); tr("append_str '%.80s'", t); cee_json_array_append_str(j, t); r_push(v, r_str(t)); return; }
    case 4: tr("append_strf"); cee_json_array_append_strf(j, "%s=%d", "q", (int)v->ne); sprintf(b, "q=%d", (int)v->ne); r_push(v, r_str(b)); return;
    case 5: { size_t i = rnd(v->ne + 1); tr("insert %zu ", i); show(x); cee_json_array_insert(j, i, r_build(st, x)); r_insert(v, i, x); return; }
    case 6: { int i = chance(70) && v->ne ? rnd(v->ne) : chance(50) ? (int)v->ne + rnd(2) : chance(50) ? -1 : INT_MIN; tr("remove %d", i); cee_json_array_remove(j, i); if (i >= 0 && i < (int)v->ne) r_del(v, i); return; }
    case 7: { struct rv *y = r_mk(R_ARR); for (int n = rnd(5); n > 0; n--) r_push(y, gen(1)); tr("concat "); show(y); struct cee_json *yj = r_build(st, y); cee_json_array_concat(j, yj); same(y, yj); for (size_t i = 0; i < y->ne; i++) r_push(v, y->e[i]); return; }
    case 8: { it_v = v; seen = 0; stop_at = rnd(v->ne + 3); tr("iterate %d", stop_at); int r = cee_json_array_iterate(j, &seen, on_el); bool s = stop_at && stop_at <= (int)v->ne; CHECK(seen == (s ? stop_at : (int)v->ne) && r == (s ? 18 : 0), "iterate of %zu elements: %d calls, returned %d", v->ne, seen, r); return; }
    default: { tr("has"); const char *k = key(); int n = 0; bool hit = false; struct cee_json *r = cee_json_has(j, (char *)k); occurs(v, k, j, r, &n, &hit); CHECK((r != NULL) == (n > 0) && (!r || hit), "has '%s'", k); if (chance(50)) return; break; } }
  /* merge */
  struct rv *w = chance(75) ? gen(3) : r_mk(v->k); if (chance(40) && v->k == R_OBJ) { w = r_mk(R_OBJ); for (size_t i = 0; i < v->ne; i++) if (chance(50)) { struct rv *y = chance(60) ? r_copy(v->e[i]) : gen(2); r_set(w, v->key[i], y); } for (int n = rnd(3); n > 0; n--) r_set(w, key(), gen(2)); }
  tr("merge "); show(w); struct cee_json *wj = r_build(st, w); bool r; if (chance(50)) r = cee_json_merge(j, wj); else { struct cee_json *p = j; r = cee_json_merge_or_return(&p, wj); CHECK(p == j, "merge_or_return replaced the value"); }
  bool m = merge(v, w); CHECK(r == m, "merge returned %d", r); same(w, wj); if (m && v->k == R_OBJ) merged = true; }
/* a value that two objects hold: an update of one leaves the other as it is */
static void shared(void) {
  h_tn = 0; st = cee_state_mk(2); merged = false; struct rv *x = chance(40) ? r_str("42") : gen(1), *y = gen(1); if (x->k == R_ARR && chance(80)) x = r_str("7"); struct cee_json *a = cee_json_object_mk(st), *b = cee_json_object_mk(st), *xj = r_build(st, x), *l = cee_json_array_mk(st, 1); tr("shared "); show(x);
  cee_json_object_set(a, "k", xj); cee_json_object_set(b, "k", xj); cee_json_array_append(l, xj); int k = rnd(7); tr(" op %d", k);
  switch (k) { case 0: cee_json_object_convert_to_i64(a, "k"); break; case 1: cee_json_object_set(a, "k", r_build(st, y)); break; case 2: cee_json_object_remove(a, "k"); break; case 3: cee_json_object_rename(a, "k", "z"); cee_json_object_set_null(a, "z"); break; case 4: if (x->k != R_ARR) cee_json_object_append(a, "k", r_build(st, y)); break; case 5: cee_del(a); break; case 6: cee_json_object_set_str(a, "k", "q"); break; }
  same(x, cee_json_object_get(b, "k")); same(x, cee_json_array_get(l, 0)); if (chance(50)) { cee_json_array_remove(l, 0); same(x, cee_json_object_get(b, "k")); } chain_check(st); cee_del(st); CHECK(h_live == 0, "%ld blocks left", h_live); r_reset(); }
static void one_case(void) {
  shared(); h_tn = 0;
  st = cee_state_mk(chance(50) ? 0 : 10); merged = false;
  struct rv *root; do root = gen(3); while (root->k != R_OBJ && root->k != R_ARR); struct cee_json *j;
  if (root->k == R_OBJ && root->ne == 1 && chance(80)) j = cee_json_object_kv(st, root->key[0], r_build(st, root->e[0])); else j = r_build(st, root);
  show(root); tr("; ");
  int n = chance(80) ? rnd(25) : rnd(150);
  for (int i = 0; i < n; i++) { op(root, j); tr("; "); same(root, j); if (r_mem && r_mem->prev && r_mem->prev->prev && r_mem->prev->prev->prev && i > 30) break; }
  CHECK(!cee_json_merge(j, NULL) && !cee_json_merge(NULL, j), "merge with NULL"); struct cee_json *p = NULL; CHECK(cee_json_merge_or_return(&p, j) && p == j, "merge_or_return into NULL"); CHECK(!cee_json_merge_or_return(&p, NULL) && !cee_json_merge_or_return(NULL, j), "merge_or_return with NULL");
  { struct rv *s = r_str("q"); struct cee_json *sj = r_build(st, s); CHECK(!cee_json_merge(sj, j) && !cee_json_merge(j, sj) && !cee_json_merge(sj, cee_json_true()) && !cee_json_merge(sj, r_build(st, s)), "merge of a string"); same(root, j); same(s, sj);
    struct cee_json *l = cee_json_listify(sj); CHECK(cee_json_to_array(l) && cee_json_array_length(l) == 1 && cee_json_array_get(l, 0) == sj, "listify of a string"); CHECK(cee_json_listify(l) == l, "listify of an array"); }
  same(root, j); chain_check(st); cee_del(st); CHECK(h_live == 0, "%ld blocks left after the state is deleted", h_live); r_reset(); }
/* every pair of small values is merged */
static struct rv *nth(int x) { struct rv *v; switch (x) { case 0: return r_mk(R_NULL); case -1: return r_mk(R_UNDEF); case -2: return r_mk(R_TRUE); case 1: v = r_mk(R_I64); v->i = 1; return v; case 2: return r_str("s"); case 3: return r_mk(R_ARR); case 4: return r_mk(R_OBJ); case 5: v = r_mk(R_ARR); r_push(v, r_mk(R_TRUE)); return v; }
  x -= 6; v = r_mk(R_OBJ); r_set(v, x % 2 ? "a" : "b", nth(x / 2 % 6 ? x / 2 % 6 : -1)); if (x >= 12) r_set(v, x % 2 ? "b" : "a", nth(x / 12 % 6)); return v; }
static void longarr(int n) { h_begin(); tr("array of %d", n); st = cee_state_mk(2); merged = false; struct rv *v = r_mk(R_ARR); for (int i = 0; i < n; i++) { struct rv *x = r_mk(R_I64); x->i = i; if (i == n - 1 || i == n / 2) { struct rv *o = r_mk(R_OBJ); r_set(o, i == n - 1 ? "last" : "mid", x); x = o; } r_push(v, x); }
  struct cee_json *j = r_build(st, v); same(v, j); struct cee_json *h = cee_json_has(j, "last"); CHECK(n == 0 || h == cee_json_object_get(cee_json_array_get(j, n - 1), "last"), "has in an array of %d", n); if (n > 1) CHECK(cee_json_has(j, "mid") == cee_json_object_get(cee_json_array_get(j, n / 2), "mid"), "has in an array of %d", n); CHECK(!cee_json_has(j, "none"), "has");
  static const int at[] = { 255, 256, 254, 127, 128, 0, 511, 512 }; for (int k = 0; k < 8; k++) { struct rv *x = r_mk(R_TRUE); if (at[k] <= (int)v->ne) { cee_json_array_insert(j, at[k], cee_json_true()); r_insert(v, at[k], x); same(v, j); } if (at[k] + 1 < (int)v->ne) { cee_json_array_remove(j, at[k] + 1); r_del(v, at[k] + 1); same(v, j); cee_json_array_remove(j, at[k]); r_del(v, at[k]); same(v, j); } }
  for (int i = 0; i < 3 && v->ne; i++) { cee_json_array_remove(j, v->ne - 1); r_del(v, v->ne - 1); same(v, j); cee_json_array_remove(j, v->ne); same(v, j); }
  struct rv *w = r_copy(v); cee_json_array_concat(j, r_build(st, w)); for (size_t i = 0; i < w->ne; i++) r_push(v, w->e[i]); same(v, j);
  cee_del(st); CHECK(h_live == 0, "%ld blocks left", h_live); r_reset(); }
static void longobj(int n) { h_begin(); tr("object of %d", n); st = cee_state_mk(2); merged = false; struct rv *v = r_mk(R_OBJ); struct cee_json *j = cee_json_object_mk(st); char k[20], q[20];
  for (int i = 0; i < n; i++) { sprintf(k, "k%d", i * 7 % n); struct rv *x = r_mk(R_I64); x->i = i; cee_json_object_set_i64(j, k, i); r_set(v, k, x); } same(v, j);
  for (int i = 0; i < n; i += 1 + n / 9) { sprintf(k, "k%d", i); sprintf(q, "n%d", i); long at = r_at(v, k); if (at < 0) continue; struct rv *m = v->e[at]; CHECK(cee_json_object_rename(j, k, q), "rename"); r_del(v, at); r_set(v, q, m); same(v, j); cee_json_object_remove(j, q); r_del(v, r_at(v, q)); same(v, j); cee_json_object_set_null(j, q); r_set(v, q, r_mk(R_NULL)); }
  same(v, j); cee_del(st); CHECK(h_live == 0, "%ld blocks left", h_live); r_reset(); }
static void exhaustive(void) { for (int n = 0; n < 5; n++) longarr(n); static const int ln[] = { 127, 130, 255, 256, 257, 300, 600, 1100, 2100, 5000 }; for (int i = 0; i < 10; i++) { longarr(ln[i]); if (i < 8) longobj(ln[i]); }
   for (int a = -2; a < 84; a++) for (int b = -2; b < 84; b++) for (int nest = 0; nest < 2; nest++) { h_tn = 0; st = cee_state_mk(2); merged = true; struct rv *v = nth(a), *w = nth(b); if (nest) { struct rv *o = r_mk(R_OBJ); r_set(o, "n", v); v = o; o = r_mk(R_OBJ); r_set(o, "n", w); w = o; }
  tr("merge "); show(v); tr(" with "); show(w); struct cee_json *j = r_build(st, v), *k = r_build(st, w); bool r = cee_json_merge(j, k), m = merge(v, w); CHECK(r == m, "merge returned %d", r); same(v, j); same(w, k); cee_del(st); CHECK(h_live == 0, "%ld blocks left", h_live); r_reset(); } }
