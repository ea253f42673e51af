/* C05: a set holds each equal element once */
#include "common.h"
extern uint16_t get_in_degree(void *); extern struct cee_set *cee_set_union_set(struct cee_state *, struct cee_set *, struct cee_set *), *cee_set_clone(struct cee_set *);
#define NK 2300
static struct { int k; void *p; } A[2][NK * 2]; static int N[2]; static int mode, RNG; static struct cee_state *st;
static int icmp(const void *a, const void *b) { int x = atoi(a), y = atoi(b); if (mode == 2) x /= 2, y /= 2; return x < y ? INT_MIN : x > y ? INT_MAX : 0; }
static int eq(int a, int b) { return mode == 2 ? a / 2 == b / 2 : a == b; }
static int fnd(int s, int k) { for (int i = 0; i < N[s]; i++) if (eq(A[s][i].k, k)) return i; return -1; }
static void *seen[NK * 2]; static int nseen;
static void it(void *c, void *v) { CHECK(c == &nseen, "context"); CHECK(nseen < NK, "too many calls"); seen[nseen++] = v; }
static void once(int s, const char *what) { CHECK(nseen == N[s], "%s delivers %d of %d elements", what, nseen, N[s]); for (int i = 0; i < N[s]; i++) { int c = 0; for (int j = 0; j < nseen; j++) c += seen[j] == A[s][i].p; CHECK(c == 1, "%s delivers element %d %d times", what, A[s][i].k, c); } }
static void full(struct cee_set *x, int s) { char b[20]; int i; CHECK(cee_set_size(x) == N[s], "size %zu of %d", cee_set_size(x), N[s]); CHECK(cee_set_empty(x) == !N[s], "empty");
  for (int k = 0; k < RNG; k++) { sprintf(b, "%d", k); i = fnd(s, k); CHECK(cee_set_find(x, b) == (i < 0 ? NULL : A[s][i].p), "find %d", k); }
  nseen = 0; cee_set_iterate(x, &nseen, it); once(s, "iterate");
  struct cee_list *l = cee_set_values(x); nseen = cee_list_size(l); CHECK(nseen <= NK, "values"); for (i = 0; i < nseen; i++) seen[i] = l->a[i]; once(s, "values"); cee_del(l); }
static void uni(struct cee_set **S) { int t = S[1] == S[0] ? 0 : 1; struct cee_set *u = cee_set_union_set(st, S[0], S[1]); nseen = 0; cee_set_iterate(u, &nseen, it); int want = N[0]; for (int j = 0; j < N[t]; j++) want += fnd(0, A[t][j].k) < 0; CHECK(nseen == want && cee_set_size(u) == want, "union has %d elements instead of %d", nseen, want);
  for (int k = 0; k < RNG; k++) { char b[20]; sprintf(b, "%d", k); int i0 = fnd(0, k), i1 = fnd(t, k); CHECK(cee_set_find(u, b) == (i0 >= 0 ? A[0][i0].p : i1 >= 0 ? A[t][i1].p : NULL), "union: find %d", k); } cee_del(u); full(S[0], 0); full(S[1], t); }
static void exhaustive(void) { CHECK(cee_set_size(NULL) == 0 && cee_set_empty(NULL) && cee_set_find(NULL, "a") == NULL && cee_set_remove(NULL, "a") == NULL, "NULL set"); cee_set_iterate(NULL, NULL, it);
  st = cee_state_mk(4); RNG = 400; for (mode = 0; mode < 3; mode++) for (int n = 0; n < 300; n = n < 4 ? n + 1 : n * 3) for (int both = 0; both < 2; both++) { cee_cmp_fun cmp = mode ? icmp : (cee_cmp_fun)strcmp; struct cee_set *S[2] = { cee_set_mk(st, cmp), cee_set_mk_e(st, CEE_DP_NOOP, cmp) }; N[0] = N[1] = 0; tr("mode %d, sets of %d and %d;", mode, both ? n : 0, n);
    for (int s = 0; s < 2; s++) if (s || both) for (int q = 0; q < n; q++) { int k = (q * 7 + s * 5) % (n + 9); if (fnd(s, k) >= 0) continue; void *e = cee_str_mk(st, "%d", k); cee_incr_indegree(CEE_DP_DEL_RC, e); cee_set_add(S[s], e); A[s][N[s]].k = k; A[s][N[s]++].p = e; }
    uni(S); uni((struct cee_set *[]){ S[0], S[0] }); cee_set_clear(S[0]); full(S[1], 1); cee_set_clear(S[1]); }
  /* many elements */
  mode = 1; RNG = 2200; for (int n = 256; n < 2200; n = n * 2 + 1) { h_begin(); tr("set of %d;", n); struct cee_set *S[2] = { cee_set_mk(st, icmp), cee_set_mk(st, icmp) }; N[0] = N[1] = 0;
    for (int s = 0; s < 2; s++) for (int q = 0; q < n; q++) { int k = q * 7 % n + s * (n / 2); if (k >= RNG || fnd(s, k) >= 0) continue; void *e = cee_str_mk(st, "%d", k); cee_incr_indegree(CEE_DP_DEL_RC, e); cee_set_add(S[s], e); A[s][N[s]].k = k; A[s][N[s]++].p = e; }
    full(S[0], 0); struct cee_set *c = cee_set_clone(S[0]); full(c, 0); cee_del(c); if (n < 1100) uni(S); for (int r = 0; r < 30; r++) { int i = r ? rnd(N[0]) : N[0] - 1; char b[20]; sprintf(b, "%d", A[0][i].k); CHECK(cee_set_remove(S[0], b) == A[0][i].p, "remove %s", b); memmove(A[0] + i, A[0] + i + 1, (N[0] - i - 1) * sizeof A[0][0]); N[0]--; } full(S[0], 0); }
  cee_del(st); }
static void one_case(void) {
  st = cee_state_mk(4); mode = rnd(3); int range = 1 + rnd(chance(20) ? chance(10) ? 400 : 64 : 10), ops = 1 + rnd(chance(10) ? range > 64 ? 900 : 200 : 50), i; enum cee_del_policy o = chance(70) ? CEE_DP_DEL_RC : CEE_DP_NOOP; tr("mode %d range %d;", mode, range); RNG = range < 64 ? 64 : 400;
  struct cee_set *S[2]; int P[2]; for (i = 0; i < 2; i++) { N[i] = 0; P[i] = chance(50) ? CEE_DP_DEL_RC : o; S[i] = P[i] != o || chance(50) && o == CEE_DP_DEL_RC ? cee_set_mk(st, mode ? icmp : (cee_cmp_fun)strcmp) : cee_set_mk_e(st, o, mode ? icmp : (cee_cmp_fun)strcmp); }
  for (int q = 0; q < ops; q++) { int s = rnd(2), k = rnd(range), w = rnd(100); char b[20]; sprintf(b, "%d", k); i = fnd(s, k);
    if (w < 55) { void *e = cee_str_mk(st, "%d", k); cee_incr_indegree(CEE_DP_DEL_RC, e); if (i >= 0 && chance(30)) e = A[s][i].p; tr("%d: add %d;", s, k); cee_set_add(S[s], e); if (i < 0) { A[s][N[s]].k = k; A[s][N[s]++].p = e; } }
    else if (w < 80) { tr("%d: remove %d;", s, k); void *r = cee_set_remove(S[s], b); CHECK(r == (i < 0 ? NULL : A[s][i].p), "remove returned the wrong element"); if (i >= 0) { memmove(A[s] + i, A[s] + i + 1, (N[s] - i - 1) * sizeof A[s][0]); N[s]--; } }
    else if (w < 83) { tr("%d: clear;", s); cee_set_clear(S[s]); N[s] = 0; }
    else if (w < 88) { tr("clone %d;", s); struct cee_set *c = cee_set_clone(S[s]); full(c, s); if (N[s]) CHECK(get_in_degree(A[s][0].p) == 1 + 2 * (P[s] == CEE_DP_DEL_RC), "the clone counts its elements %d", get_in_degree(A[s][0].p)); cee_del(c); if (N[s]) CHECK(get_in_degree(A[s][0].p) == 1 + (P[s] == CEE_DP_DEL_RC), "the deleted clone's elements have count %d", get_in_degree(A[s][0].p)); }
    else if (w < 92) { tr("union;"); uni(S); }
    else if (range <= 64 || chance(15)) full(S[s], s);
    CHECK(cee_set_size(S[s]) == N[s], "size"); }
  full(S[0], 0); full(S[1], 1); chain_check(st); if (chance(50)) { cee_del(S[0]); chain_check(st); } cee_del(st);
}
