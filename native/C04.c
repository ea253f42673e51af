/* C04: a map is a finite map with insertion-ordered keys */
#include "common.h"
extern void *cee_map_add_e(struct cee_map *, void *, void *, void *, void *(*)(void *, void *, void *));
#define NK 400
static struct { int k; void *v; unsigned long seq; } mdl[NK * 2]; static int n; static unsigned long seq;
static int mode, RNG; static struct cee_state *st;
static int icmp(const void *a, const void *b) { int x = atoi(a), y = atoi(b); if (mode == 2) x /= 2, y /= 2; return x < y ? INT_MIN : x > y ? INT_MAX : 0; }
static int eq(int a, int b) { return mode == 2 ? a / 2 == b / 2 : a == b; }
static int fnd(int k) { for (int i = 0; i < n; i++) if (eq(mdl[i].k, k)) return i; return -1; }
static int seenk[NK * 2], nseen, stop_at, stop_val = 7; static void *seenv[NK * 2];
static int it(void *c, void *k, void *v) { CHECK(c == &nseen, "context"); CHECK(nseen < NK, "iterate calls f too often"); seenk[nseen] = atoi(k); seenv[nseen++] = v; return nseen - 1 == stop_at ? stop_val : 0; }
static void once(int cnt, const char *what) { for (int i = 0; i < cnt; i++) { int j = fnd(seenk[i]); CHECK(j >= 0, "%s delivers a missing key %d", what, seenk[i]); CHECK(seenk[i] == mdl[j].k, "%s delivers another key object", what); if (seenv[i]) CHECK(seenv[i] == mdl[j].v, "%s delivers a wrong value", what); for (int q = 0; q < i; q++) CHECK(!eq(seenk[q], seenk[i]), "%s delivers key %d twice", what, seenk[i]); } }
static void *mg3, *mgo, *mgv; static void *mg(void *ctx, void *o, void *v) { mgo = o; mgv = v; return *(int *)ctx == 1 ? o : *(int *)ctx == 2 ? mg3 : v; }
static void full(struct cee_map *m) { int i;
  CHECK(cee_map_size(m) == n, "size %zu instead of %d", (size_t)cee_map_size(m), n);
  char b[20]; for (int k = 0; k < RNG; k++) { sprintf(b, "%d", k); i = fnd(k); CHECK(cee_map_find(m, b) == (i < 0 ? NULL : mdl[i].v), "find %d", k); }
  struct cee_list *l = cee_map_insertion_ordered_keys(m); CHECK(cee_list_size(l) == n, "ordered keys: %zu of %d", cee_list_size(l), n);
  for (i = 0; i < n; i++) CHECK(atoi(l->a[i]) == mdl[i].k, "ordered key %d is %s instead of %d", i, (char *)l->a[i], mdl[i].k); cee_del(l);
  struct cee_list *k = cee_map_keys(m), *v = cee_map_values(m); CHECK(cee_list_size(k) == n && cee_list_size(v) == n, "keys/values size");
  for (i = 0; i < n; i++) { seenk[i] = atoi(k->a[i]); seenv[i] = v->a[i]; } once(n, "keys/values"); cee_del(k); cee_del(v);
  stop_at = (int)rnd(n + 2) - 1; stop_val = chance(50) ? 7 : chance(50) ? -1 : INT_MIN; nseen = 0; int r = cee_map_iterate(m, &nseen, it); int st_ = stop_at >= 0 && stop_at < n; CHECK(r == (st_ ? stop_val : 0), "iterate returned %d", r); CHECK(nseen == (st_ ? stop_at + 1 : n), "iterate made %d of %d calls", nseen, n); once(nseen, "iterate"); }
static struct cee_str *K(int k) { return cee_str_mk(st, "%d", k); }
static void rem(int i) { memmove(mdl + i, mdl + i + 1, (n - i - 1) * sizeof *mdl); n--; }
/* many keys: the orders, the lookups and the removals at every position */
static void large(int N, int how) { h_begin(); st = cee_state_mk(2); mode = 1; struct cee_map *m = cee_map_mk(st, icmp); int *ord = malloc(N * sizeof *ord), i; char b[20]; tr("map of %d keys, removal %d;", N, how);
  for (i = 0; i < N; i++) ord[i] = how == 2 ? (int)((long)i * 7919 % N) : i; void **val = malloc(N * sizeof *val);
  for (i = 0; i < N; i++) { val[i] = cee_boxed_from_i32(st, ord[i]); CHECK(cee_map_add(m, K(ord[i]), val[i]) == NULL, "add %d", ord[i]); CHECK(cee_map_size(m) == i + 1, "size"); }
  int left = N; for (int r = 0; left > 0 && r < 40; r++) {
    struct cee_list *l = cee_map_insertion_ordered_keys(m); CHECK(cee_list_size(l) == left, "%zu ordered keys of %d", cee_list_size(l), left); for (i = 0; i < left; i++) CHECK(atoi(l->a[i]) == ord[i], "ordered key %d is %s instead of %d", i, (char *)l->a[i], ord[i]); cee_del(l);
    for (i = 0; i < left; i++) { sprintf(b, "%d", ord[i]); CHECK(cee_map_find(m, b) == val[i], "find %d", ord[i]); }
    struct cee_list *k = cee_map_keys(m), *v = cee_map_values(m); CHECK(cee_list_size(k) == left && cee_list_size(v) == left, "keys/values of %d", left); cee_del(k); cee_del(v);
    struct cee_map *c = cee_map_clone(m); CHECK(cee_map_size(c) == left, "clone of %d", left); cee_del(c);
    static const int at[] = { 256, 255, 257, 0, 511, 127, 1024 }; int x = how == 0 ? left - 1 : how == 1 ? at[r % 7] % left : rnd(left); sprintf(b, "%d", ord[x]);
    if (chance(30)) { CHECK(cee_map_rename(m, b, K(N + r)), "rename %s", b); int o = N + r; void *w = val[x]; memmove(ord + x, ord + x + 1, (left - x - 1) * sizeof *ord); memmove(val + x, val + x + 1, (left - x - 1) * sizeof *val); ord[left - 1] = o; val[left - 1] = w; }
    else { CHECK(cee_map_remove(m, b) == val[x], "remove %s", b); left--; memmove(ord + x, ord + x + 1, (left - x) * sizeof *ord); memmove(val + x, val + x + 1, (left - x) * sizeof *val); } }
  free(ord); free(val); cee_del(st); }
static void exhaustive(void) { static const int ln[] = { 127, 128, 255, 256, 257, 258, 600, 1030 }; for (int i = 0; i < 8; i++) for (int h = 0; h < 3; h++) large(ln[i], h);
   CHECK(cee_map_size(NULL) == 0 && cee_map_iterate(NULL, NULL, it) == 0, "NULL map"); }
static void one_case(void) {
  st = cee_state_mk(4); mode = rnd(3); n = 0; int range = 1 + rnd(chance(20) ? chance(10) ? NK : 64 : 10), ops = 1 + rnd(chance(10) ? range > 64 ? 900 : 200 : 40), i;
  enum cee_del_policy o[2] = { CEE_DP_DEL_RC, chance(70) ? CEE_DP_DEL_RC : CEE_DP_NOOP };
  tr("mode %d range %d pol %d;", mode, range, o[1]); RNG = range < 64 ? 64 : NK;
  struct cee_map *m = chance(50) && o[1] == CEE_DP_DEL_RC ? cee_map_mk(st, mode ? icmp : (cee_cmp_fun)strcmp) : cee_map_mk_e(st, o, mode ? icmp : (cee_cmp_fun)strcmp);
  void *pool[8]; for (i = 0; i < 8; i++) { pool[i] = cee_boxed_from_i32(st, i); cee_incr_indegree(CEE_DP_DEL_RC, pool[i]); }
  for (int q = 0; q < ops; q++) { int k = rnd(range), w = rnd(100); char b[20]; sprintf(b, "%d", k); i = fnd(k);
    if (w < 50) { void *v = pool[rnd(8)]; int keep = 0; bool e = chance(20); if (e) keep = rnd(3); mg3 = pool[rnd(8)]; mgo = mgv = NULL; tr(e ? "add_e %d keep=%d;" : "add %d;", k, keep); void *r = e ? cee_map_add_e(m, K(k), v, &keep, mg) : cee_map_add(m, K(k), v);
      CHECK(r == (i < 0 ? NULL : mdl[i].v), "add returned the wrong old value"); if (e && i >= 0) CHECK(mgo == mdl[i].v && mgv == v, "merge function got other values"); else CHECK(!mgo, "merge called without need"); if (keep == 2 && i >= 0) v = mg3; if (i < 0) { mdl[n].k = k; mdl[n++].v = v; } else if (keep != 1) mdl[i].v = v; }
    else if (w < 75) { tr("remove %d;", k); void *r = cee_map_remove(m, b); CHECK(r == (i < 0 ? NULL : mdl[i].v), "remove returned the wrong value"); if (i >= 0) rem(i); }
    else if (w < 85) { int k2 = rnd(range); tr("rename %d %d;", k, k2); bool r = cee_map_rename(m, b, K(k2)); CHECK(r == (i >= 0), "rename returned %d", r);
      if (i >= 0) { void *v = mdl[i].v; rem(i); int j = fnd(k2); if (j >= 0) mdl[j].v = v; else { mdl[n].k = k2; mdl[n++].v = v; } } }
    else if (w < 90) { CHECK(cee_map_find(m, NULL) == NULL && cee_map_remove(m, NULL) == NULL && cee_map_add(m, NULL, pool[0]) == NULL && !cee_map_rename(m, NULL, pool[0]) && !cee_map_rename(m, b, NULL), "NULL key"); }
    else if (w < 94) { tr("clone;"); struct cee_map *c = cee_map_clone(m); CHECK(cee_map_size(c) == n, "clone size"); for (int k = 0; k < RNG; k++) { char b[20]; sprintf(b, "%d", k); int i = fnd(k); CHECK(cee_map_find(c, b) == (i < 0 ? NULL : mdl[i].v), "clone: find %d", k); } cee_del(c); }
    else { if (range <= 64 || chance(10)) full(m); continue; }
    CHECK(cee_map_size(m) == n, "size"); int k2 = rnd(range); sprintf(b, "%d", k2); i = fnd(k2); CHECK(cee_map_find(m, b) == (i < 0 ? NULL : mdl[i].v), "find %d after the operation", k2); }
  full(m); chain_check(st); if (chance(50)) { cee_del(m); chain_check(st); } cee_del(st);
}
