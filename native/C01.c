/* C01: a list is an exact growable sequence */
#include "common.h"
static void *seen[4096]; static int nseen, stop_at, stop_val;
static int it(void *ctx, void *e, int idx) { CHECK(ctx == (void *)&nseen, "context not passed"); CHECK(idx == nseen, "iterate passes index %d as call %d", idx, nseen); seen[nseen++] = e; return nseen - 1 == stop_at ? stop_val : 0; }
static void history(int nops, int cap, enum cee_del_policy pol, int growbias) {
  struct cee_state *st = cee_state_mk(4); static void *pool[16]; int i;
  for (i = 0; i < 16; i++) pool[i] = pol == CEE_DP_NOOP && i >= 12 ? (i < 14 ? NULL : (void *)(uintptr_t)-i) : cee_boxed_from_i32(st, i);
  static void *m[8192]; int n = 0;
  tr("mk %d pol %d;", cap, pol);
  struct cee_list *l = pol == CEE_DP_DEL_RC && chance(50) ? cee_list_mk(st, cap) : cee_list_mk_e(st, pol, cap);
  CHECK(cee_list_size(l) == 0, "new list not empty"); CHECK(cee_list_capacity(l) == cap, "capacity %zu instead of %d", cee_list_capacity(l), cap);
  for (int k = 0; k < nops; k++) {
    void *e = pool[rnd(16)]; int w = rnd(100);
    if (w < growbias) { tr("append;"); cee_list_append(l, e); m[n++] = e; }
    else if (w < growbias + 20) { int x = rnd(n + 1); tr("insert %d;", x); cee_list_insert(l, x, e); memmove(m + x + 1, m + x, (n - x) * sizeof *m); m[x] = e; n++; }
    else if (w < 88) { int x = (int)rnd(n + 3) - 1; if (chance(5)) x = INT_MIN + rnd(3); if (chance(5)) x = INT_MAX - rnd(3); tr("remove %d;", x); bool r = cee_list_remove(l, x); bool want = x >= 0 && x < n;
      CHECK(r == want, "remove %d of a list of %d returned %d", x, n, r);
      if (want) { memmove(m + x, m + x + 1, (n - x - 1) * sizeof *m); n--; } }
    else if (w < 96) { stop_at = (int)rnd(n + 2) - 1; stop_val = chance(50) ? 1 : -7; nseen = 0; tr("iterate %d;", stop_at);
      int r = cee_list_iterate(l, &nseen, it); int stopped = stop_at >= 0 && stop_at < n;
      CHECK(r == (stopped ? stop_val : 0), "iterate returned %d", r); CHECK(nseen == (stopped ? stop_at + 1 : n), "iterate made %d calls", nseen);
      for (i = 0; i < nseen; i++) CHECK(seen[i] == m[i], "iterate passed the wrong element at %d", i); }
    else if (w < 98) { struct cee_list *d = cee_list_mk_e(st, CEE_DP_NOOP, rnd(3)); tr("merge;"); int pre = rnd(3); for (i = 0; i < pre; i++) cee_list_append(d, pool[i]);
      cee_list_merge(d, l); CHECK(cee_list_size(d) == n + pre, "merge size"); for (i = 0; i < pre; i++) CHECK(d->a[i] == pool[i], "merge kept"); for (i = 0; i < n; i++) CHECK(d->a[pre + i] == m[i], "merge %d", i); }
    else { CHECK(cee_list_size(NULL) == 0 && cee_list_capacity(NULL) == 0 && !cee_list_remove(NULL, 0) && cee_list_iterate(NULL, NULL, it) == 0, "NULL list"); }
    CHECK(cee_list_size(l) == n, "size %zu instead of %d", cee_list_size(l), n);
    CHECK(cee_list_capacity(l) >= n, "capacity below size");
    for (i = 0; i < n; i++) CHECK(l->a[i] == m[i], "slot %d of %d is wrong", i, n);
    if (n > 4000) break;
  }
  chain_check(st); cee_del(st);
}
/* long lists: every element kept through growth, inserts and removes at the ends and in the middle */
static int seenall(void *ctx, void *e, int idx) { struct cee_list *l = ctx; CHECK(idx == nseen && e == l->a[idx], "iterate call %d", idx); nseen++; return idx + 1 == stop_at ? 9 : 0; }
static void large(int n, int cap) {
  h_begin(); struct cee_state *st = cee_state_mk(2); struct cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, cap); tr("%d appends, capacity %d;", n, cap); int i;
  for (i = 0; i < n; i++) { cee_list_append(l, (void *)(uintptr_t)(i + 1)); if (i == n / 2) CHECK(cee_list_size(l) == i + 1, "size"); }
  CHECK(cee_list_size(l) == n && cee_list_capacity(l) >= n, "size %zu of %d", cee_list_size(l), n); for (i = 0; i < n; i++) CHECK(l->a[i] == (void *)(uintptr_t)(i + 1), "element %d of %d", i, n);
  nseen = 0; stop_at = -1; CHECK(cee_list_iterate(l, l, seenall) == 0 && nseen == n, "iterate made %d calls of %d", nseen, n); nseen = 0; stop_at = n; CHECK(cee_list_iterate(l, l, seenall) == 9 && nseen == n, "iterate that stops at the last");
  int at[] = { 0, n / 2, n, 1, n - 1 }; static int mark[5];
  for (int k = 0; k < 5; k++) { tr("insert at %d;", at[k]); cee_list_insert(l, at[k], &mark[k]); CHECK(cee_list_size(l) == n + 1, "size after insert"); for (i = 0; i <= n; i++) CHECK(l->a[i] == (i < at[k] ? (void *)(uintptr_t)(i + 1) : i == at[k] ? (void *)&mark[k] : (void *)(uintptr_t)i), "element %d after insert", i); tr("remove it;"); CHECK(cee_list_remove(l, at[k]), "remove"); CHECK(cee_list_size(l) == n, "size after remove"); for (i = 0; i < n; i++) CHECK(l->a[i] == (void *)(uintptr_t)(i + 1), "element %d after remove", i); }
  CHECK(!cee_list_remove(l, n), "remove beyond the end"); while (n) { CHECK(cee_list_remove(l, n - 1), "remove the last of %d", n); n--; if (n % 997 == 0) for (i = 0; i < n; i++) CHECK(l->a[i] == (void *)(uintptr_t)(i + 1), "element %d", i); }
  chain_check(st); cee_del(st); }
static void exhaustive(void) { static const int ns[] = { 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 70000 }; for (int i = 0; i < 14; i++) { large(ns[i], i & 1); large(ns[i], ns[i] - 1); } h_begin(); }
static void one_case(void) { int cap = chance(20) ? 0 : rnd(9); enum cee_del_policy p = chance(80) ? CEE_DP_DEL_RC : CEE_DP_NOOP; if (chance(2)) history(3000, cap, p, 60); else history(1 + rnd(40), cap, p, 35); }
