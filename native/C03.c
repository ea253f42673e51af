/* C03: the search tree stays an ordered, balanced AVL tree */
#include "common.h"
extern void *hx_search(void *, const void *, void **, int (*)(void *, const void *, const void *)), *hx_find(void *, const void *, void *const *, int (*)(void *, const void *, const void *)), *hx_delete(void *, const void *, void **, int (*)(void *, const void *, const void *));
extern void hx_walk(void *, const void *, void (*)(void *, const void *, int, int)), hx_destroy(void *, void *, void (*)(void *, void *));
enum { preorder, postorder, endorder, leaf };
static int mode, ncmp; static int Ctx;
static int cmpk(void *cx, const void *a, const void *b) { CHECK(cx == &Ctx, "comparison context not passed on"); ncmp++; long x = (long)a, y = (long)b;
  switch (mode) { case 0: return x < y ? -1 : x > y; case 1: return x < y ? 1 : x > y ? -1 : 0; case 2: x /= 3, y /= 3; return x < y ? -5 : x > y ? 9 : 0; default: return x < y ? INT_MIN : x > y ? INT_MAX : 0; } }
#define K(r) (((struct musl_node_view *)(r)))
struct musl_node_view { const void *key; struct musl_node_view *a[2]; int h; };
static long inord[4096]; static int nin;
static int check_node(struct musl_node_view *n) {
  if (!n) return 0; CHECK(!H_DEAD(n), "freed node in the tree");
  int l = check_node(n->a[0]); CHECK(nin < 4000, "too many nodes"); inord[nin++] = (long)n->key; int r = check_node(n->a[1]);
  int h = (l > r ? l : r) + 1; CHECK(n->h == h, "stored height %d, real height %d", n->h, h); CHECK(l - r <= 1 && r - l <= 1, "unbalanced node (%d, %d)", l, r); return h; }
static long m[512]; static int nm;
static int find(long k) { for (int i = 0; i < nm; i++) if (cmpk(&Ctx, (void *)k, (void *)m[i]) == 0) return i; return -1; }
static void check_tree(void *root) {
  nin = 0; check_node(root); CHECK(nin == nm, "%d keys instead of %d", nin, nm);
  for (int i = 0; i < nin; i++) { CHECK(inord[i] == m[i], "key %ld at position %d instead of %ld", inord[i], i, m[i]); if (i) CHECK(cmpk(&Ctx, (void *)inord[i - 1], (void *)inord[i]) < 0, "not strictly ordered"); } }
static long fr[4096]; static int nfr; static void freek(void *cx, void *k) { CHECK(cx == &Ctx, "context"); CHECK(nfr < 4000, "free function called too often"); fr[nfr++] = (long)k; }
static struct { void *k; int which, depth; } wk[8192]; static int nwk;
static void walk(void *cx, const void *nodep, int which, int depth) { CHECK(cx == &Ctx, "context"); CHECK(nwk < 8000, "too many visits"); wk[nwk].k = *(void **)nodep; wk[nwk].which = which; wk[nwk].depth = depth; nwk++; }
static int expwalk(struct musl_node_view *n, int d, int i) { if (!n) return i;
#define V(w) do { CHECK(i < nwk && wk[i].k == (void *)n->key && wk[i].which == w && wk[i].depth == d, "walk: visit %d is wrong", i); i++; } while (0)
  if (n->h == 1) V(leaf); else { V(preorder); i = expwalk(n->a[0], d + 1, i); V(postorder); i = expwalk(n->a[1], d + 1, i); V(endorder); } return i; }
static void ins(long k) { int p = 0; while (p < nm && cmpk(&Ctx, (void *)m[p], (void *)k) < 0) p++; memmove(m + p + 1, m + p, (nm - p) * sizeof *m); m[p] = k; nm++; }
static void step_add(void **root, long k) { int i = find(k); tr("+%ld;", k); long live = h_live; void **r = hx_search(&Ctx, (void *)k, root, cmpk); CHECK(r != NULL, "tsearch returned NULL");
  if (i >= 0) { CHECK(*r == (void *)m[i], "tsearch did not return the existing equal key"); CHECK(h_live == live, "tsearch allocated for an existing key"); }
  else { CHECK(*r == (void *)k, "tsearch did not return the new key"); ins(k); CHECK(h_live == live + 1, "one node per key"); } check_tree(*root); }
static void step_del(void **root, long k) { int i = find(k); tr("-%ld;", k); long live = h_live; void *r = hx_delete(&Ctx, (void *)k, root, cmpk); if (i < 0) CHECK(r == NULL, "tdelete of a missing key returned %p", r);
  if (i >= 0) { memmove(m + i, m + i + 1, (nm - i - 1) * sizeof *m); nm--; CHECK(h_live == live - 1, "tdelete frees exactly one node"); } else CHECK(h_live == live, "tdelete of a missing key"); check_tree(*root); }
static void step_find(void **root, long k) { int i = find(k); tr("?%ld;", k); void **r = (void **)hx_find(&Ctx, (void *)k, root, cmpk); CHECK((r != NULL) == (i >= 0), "tfind"); if (r) CHECK(*r == (void *)m[i], "tfind returned another key"); }
static void finish(void *root) { nwk = 0; hx_walk(&Ctx, root, walk); CHECK(expwalk(root, 0, 0) == nwk, "walk makes %d visits", nwk);
  long live = h_live; nfr = 0; bool cb = chance(80); hx_destroy(&Ctx, root, cb ? freek : NULL); CHECK(h_live == live - nm, "tdestroy freed %ld of %d nodes", live - h_live, nm);
  if (cb) { CHECK(nfr == nm, "tdestroy handed over %d of %d keys", nfr, nm); for (int i = 0; i < nm; i++) { int c = 0; for (int j = 0; j < nfr; j++) c += fr[j] == m[i]; CHECK(c == 1, "key %ld handed over %d times", m[i], c); } } }
static void perm(long *a, int n, int k) { if (k == n) { for (int d = 0; d < n; d++) { void *root = NULL; nm = 0; h_tn = 0; for (int i = 0; i < n; i++) step_add(&root, a[i]); step_del(&root, a[d]); if (d + 1 < n) step_del(&root, a[d + 1]); finish(root); } return; }
  for (int i = k; i < n; i++) { long t = a[k]; a[k] = a[i]; a[i] = t; perm(a, n, k + 1); t = a[k]; a[k] = a[i]; a[i] = t; } }
/* trees of many keys, in four orders of insertion and deletion; the shape is checked now and then */
static int chk(struct musl_node_view *n, long *prev, long *cnt) { if (!n) return 0; int l = chk(n->a[0], prev, cnt); CHECK((long)n->key > *prev, "key %ld after %ld", (long)n->key, *prev); *prev = (long)n->key; ++*cnt; int r = chk(n->a[1], prev, cnt), h = (l > r ? l : r) + 1; CHECK(n->h == h && l - r <= 1 && r - l <= 1, "node %ld: height %d, real %d (%d, %d)", (long)n->key, n->h, h, l, r); return h; }
static long nvis; static void visit(void *cx, const void *nodep, int which, int depth) { if (which == leaf || which == postorder) nvis++; } static void nofree(void *cx, void *k) { nvis++; }
static long key(int pat, long i, long n) { return pat == 0 ? i + 1 : pat == 1 ? n - i : pat == 2 ? (i & 1 ? n - i / 2 : i / 2 + 1) : (i * 7919) % n + 1; }
static void large(long n, int pat, int del) { h_begin(); mode = 0; void *root = NULL; long i, prev, cnt, live = h_live, step = n / 7 + 1; tr("%ld keys, pattern %d, deleted in pattern %d;", n, pat, del);
  for (i = 0; i < n; i++) { void **r = hx_search(&Ctx, (void *)key(pat, i, n), &root, cmpk); CHECK(r && *r == (void *)key(pat, i, n), "tsearch of %ld", key(pat, i, n)); if (i % step == 0 || i == n - 1) { prev = 0; cnt = 0; chk(root, &prev, &cnt); CHECK(cnt == i + 1, "%ld keys of %ld", cnt, i + 1); } }
  CHECK(h_live == live + n, "nodes"); for (i = 1; i <= n; i++) { void **r = (void **)hx_find(&Ctx, (void *)i, &root, cmpk); CHECK(r && *r == (void *)i, "tfind of %ld", i); } CHECK(!hx_find(&Ctx, (void *)(n + 1), &root, cmpk), "tfind of a missing key");
  nvis = 0; hx_walk(&Ctx, root, visit); CHECK(nvis == n, "walk visits %ld of %ld", nvis, n);
  for (i = 0; i < n - n / 3; i++) { CHECK(hx_delete(&Ctx, (void *)key(del, i, n), &root, cmpk), "tdelete of %ld", key(del, i, n)); CHECK(!hx_find(&Ctx, (void *)key(del, i, n), &root, cmpk), "deleted key found"); if (i % step == 0) { prev = 0; cnt = 0; chk(root, &prev, &cnt); CHECK(cnt == n - i - 1, "%ld keys instead of %ld", cnt, n - i - 1); } }
  for (; i < n; i++) CHECK(hx_find(&Ctx, (void *)key(del, i, n), &root, cmpk), "key %ld was lost", key(del, i, n));
  prev = 0; cnt = 0; chk(root, &prev, &cnt); CHECK(cnt == n / 3, "keys left"); nvis = 0; hx_destroy(&Ctx, root, nofree); CHECK(nvis == n / 3 && h_live == live, "tdestroy hands over %ld of %ld", nvis, n / 3); }
static void exhaustive(void) { static const long ns[] = { 100, 255, 257, 1000, 1031, 5003, 66000 }; for (int i = 0; i < 7; i++) for (int p = 0; p < 4; p++) for (int d = 0; d < 4; d++) if (ns[i] < 10000 || p == d) large(ns[i], ns[i] % 7919 ? p : 0, d); h_begin();
  mode = 0; for (int n = 1; n <= 6; n++) { long a[8]; for (int i = 0; i < n; i++) a[i] = i + 1; alarm(60); perm(a, n, 0); }
  CHECK(hx_delete(&Ctx, (void *)1, NULL, cmpk) == NULL && hx_find(&Ctx, (void *)1, NULL, cmpk) == NULL && hx_search(&Ctx, (void *)1, NULL, cmpk) == NULL, "NULL root pointer"); }
static void one_case(void) { void *root = NULL; nm = 0; mode = rnd(4); tr("mode %d;", mode); int range = 1 + rnd(chance(10) ? 400 : 40), ops = 1 + rnd(range * 3), pat = rnd(4);
  for (int i = 0; i < ops; i++) { long k = 1 + rnd(range); if (pat == 1) k = 1 + i % range; if (pat == 2) k = 1 + (range - i % range); int w = rnd(100); int add = pat == 0 ? 50 : (i < ops * 2 / 3 ? 85 : 25); if (nm >= 400) add = 0;
    if (w < add) step_add(&root, k); else if (w < 95) step_del(&root, chance(70) && nm ? m[rnd(nm)] : k); else step_find(&root, k); }
  for (int i = 1; i <= range && i < 60; i++) step_find(&root, i); finish(root); }
