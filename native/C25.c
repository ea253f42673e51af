/* C25: linear search finds the first equal element, the queue functions keep the links */
#include "common.h"
extern void *musl_lfind(const void *, const void *, size_t *, size_t, int (*)(const void *, const void *)), *musl_lsearch(const void *, void *, size_t *, size_t, int (*)(const void *, const void *));
extern void musl_insque(void *, void *), musl_remque(void *);
struct nd { struct nd *next, *prev; int id; };
static size_t W; static const void *KEY; static int bad;
static int cmpf(const void *e, const void *k) { if (k != KEY) bad++; int r = memcmp(e, k, W); return r > 0 ? 1 + rnd(3) : r < 0 ? -1 - (int)rnd(3) : 0; }
static void search(int cap, int range) {
  W = 1 + rnd(24); char **p = malloc((cap + 1) * sizeof *p), *was = malloc(W), *key = malloc(W); size_t n = 0; tr("search cap %d width %zu range %d;", cap, W, range);
  for (int i = 0; i < cap; i++) { p[i] = malloc(W); memset(p[i], '#', W); } p[cap] = NULL;
  for (int q = 0; q < 3 * cap + 3; q++) { int k = rnd(range); memset(key, 'a' + k % 26, W); key[W - 1] = k; int at = -1; for (size_t i = 0; i < n; i++) if (at < 0 && !memcmp(p[i], key, W)) at = i;
    KEY = key; size_t m = n; bool add = chance(50) && n < (size_t)cap; tr("%s %d;", add ? "lsearch" : "lfind", k); void *r = add ? musl_lsearch(key, p, &m, W, cmpf) : musl_lfind(key, p, &m, W, cmpf);
    CHECK(!bad, "the comparator was not given the key"); if (at >= 0) CHECK(r == p[at] && m == n, "element %d of %zu not found", at, n);
    else if (!add) CHECK(!r && m == n, "found something that is not there"); else { CHECK(m == n + 1 && r == p[n], "entering: %zu elements", m); CHECK(!memcmp(p[n], key, W), "the key was not copied"); n++; }
    for (size_t i = n; i < (size_t)cap; i++) for (size_t b = 0; b < W; b++) CHECK(p[i][b] == '#', "storage %zu was written", i);
    if (chance(10) && n) { size_t c = rnd(n); m = c; at = -1; for (size_t i = 0; i < c; i++) if (at < 0 && !memcmp(p[i], key, W)) at = i; r = musl_lfind(key, p, &m, W, cmpf); CHECK(r == (at < 0 ? NULL : p[at]) && m == c, "looking at the first %zu only", c); } }
  for (int i = 0; i < cap; i++) free(p[i]); free(p); free(was); free(key); }
/* a list or a ring, against an array */
static void queue(int N, bool ring) {
  struct nd *pool = malloc(N * sizeof *pool), *m[64]; int n = 0; bool in[64] = { 0 }; tr("queue ring=%d;", ring); for (int i = 0; i < N; i++) pool[i] = (struct nd){ (void *)8, (void *)8, i };
  for (int q = 0; q < 6 * N; q++) { int k = rnd(N);
    if (!in[k]) { int at = n ? rnd(n) : -1; tr("insert %d after %d;", k, at < 0 ? -1 : m[at]->id);
      if (n) musl_insque(pool + k, m[at]); else { musl_insque(pool + k, NULL); CHECK(!pool[k].next && !pool[k].prev, "a lone element"); if (ring) pool[k].next = pool[k].prev = pool + k; }
      memmove(m + at + 2, m + at + 1, (n - at - 1) * sizeof *m); m[at + 1] = pool + k; n++; in[k] = true; }
    else { int at = 0; while (m[at] != pool + k) at++; tr("remove %d;", k); musl_remque(pool + k); memmove(m + at, m + at + 1, (n - at - 1) * sizeof *m); n--; in[k] = false; if (chance(50)) pool[k].next = pool[k].prev = (void *)8; }
    for (int i = 0; i < n; i++) { CHECK(m[i]->next == (i + 1 < n ? m[i + 1] : ring ? m[0] : NULL), "after element %d of %d", i, n); CHECK(m[i]->prev == (i ? m[i - 1] : ring ? m[n - 1] : NULL), "before element %d of %d", i, n); CHECK(m[i]->id == m[i] - pool, "data"); } }
  free(pool); }
static void exhaustive(void) { for (int c = 0; c < 5; c++) { h_begin(); search(c, 2); h_begin(); queue(1 + c, false); h_begin(); queue(1 + c, true); } h_begin(); search(300, 250); }
static void one_case(void) { bad = 0; if (chance(50)) search(rnd(chance(10) ? 200 : 9), 1 + rnd(40)); else queue(1 + rnd(chance(20) ? 40 : 6), chance(50)); }
