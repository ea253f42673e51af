/* C22: cee_json_select against a reference walk over the selector's components; the selector and the arguments lie in blocks of exactly their size */
#include "common.h"
#include "jsonref.h"
static struct cee_state *st;
static char sel[6000]; static size_t sn; static void *arg[8]; static int na; static void *blocks[64]; static int nb;
static void add(const char *s, size_t n) { memcpy(sel + sn, s, n); sn += n; sel[sn] = 0; }
static char *keep(const char *s, size_t n) { char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; blocks[nb++] = p; return p; }
/* puts name into the selector, parts of it through '*' */
static bool plainname(const char *s) { return *s && !strpbrk(s, ".[]:*"); }
static void put_name(const char *s) { size_t n = strlen(s);
  if (na < 6 && (!plainname(s) || chance(35))) { size_t a = rnd(n + 1), b = a + rnd(n - a + 1); for (size_t i = 0; i < n; i++) if (strchr(".[]:*", s[i])) { if (i < a) a = i; if (i >= b) b = i + 1; } if (a > b) a = b; if (chance(30)) a = 0, b = n; add(s, a); add("*", 1); arg[na++] = keep(s + a, b - a); add(s + b, n - b); }
  else add(s, n); }
static void put_index(int i) { char b[20]; size_t n = sprintf(b, "%d", i);
  if (na < 6 && chance(40)) { size_t a = i < 0 ? 0 : rnd(n); while (a && a < n - 1 && b[a] == '0') a--; if (a && b[a] == '0' && a < n - 1) a = 0; add(b, a); add("*", 1); arg[na++] = (void *)(intptr_t)atoi(b + a); } else { if (i >= 0 && chance(10)) add("00", rnd(3)); add(b, n); } }
static const struct rv *step(const struct rv *v) {
  char b[600];
  int k = v ? (v->k == R_OBJ ? 0 : v->k == R_ARR ? 1 : 2) : rnd(3); if (chance(10)) k = rnd(3);
  if (k == 0) { add(".", 1); const char *name; if (v && v->k == R_OBJ && v->ne && chance(80)) name = v->key[rnd(v->ne)]; else if (chance(20)) { size_t n = 250 + rnd(12); memset(b, 'k', n); b[n] = 0; name = b; } else name = r_txts[1 + rnd(10)];
    if (!*name) name = "a"; size_t l = strlen(name); put_name(name); if (l > 256 || !v || v->k != R_OBJ) return NULL; long i = r_at((struct rv *)v, name); return i < 0 ? NULL : v->e[i]; }
  if (k == 1) { add("[", 1); long n = v && v->k == R_ARR ? v->ne : 3; long i = chance(80) && n ? rnd(n) : chance(50) ? n + rnd(2) : chance(50) ? -1 - (long)rnd(3) : chance(50) ? INT_MAX : INT_MIN; put_index(i); if (chance(85)) add("]", 1); return v && v->k == R_ARR && i >= 0 && i < n ? v->e[i] : NULL; }
  static const char ts[] = "snoab!"; int q = -1; if (v && chance(75)) q = v->k == R_STR ? 0 : v->k == R_I64 || v->k == R_U64 || v->k == R_DBL ? 1 : v->k == R_OBJ ? 2 : v->k == R_ARR ? 3 : v->k == R_TRUE || v->k == R_FALSE ? 4 : v->k == R_NULL ? 5 : -1; bool ok = q >= 0; if (!ok) q = rnd(6);
  b[0] = ':'; b[1] = ts[q]; add(b, 2); if (!v) return NULL;
  bool m = q == 0 ? v->k == R_STR : q == 1 ? v->k == R_I64 || v->k == R_U64 || v->k == R_DBL : q == 2 ? v->k == R_OBJ : q == 3 ? v->k == R_ARR : q == 4 ? v->k == R_TRUE || v->k == R_FALSE : v->k == R_NULL;
  return m ? v : NULL; }
static struct cee_json *find(const struct rv *root, struct cee_json *j, const struct rv *v) {     /* the real value at the place of v */
  if (root == v) return j; for (size_t i = 0; i < root->ne; i++) { struct cee_json *r = find(root->e[i], root->k == R_OBJ ? cee_json_object_get(j, root->key[i]) : cee_json_array_get(j, i), v); if (r) return r; } return NULL; }
static void ask(const struct rv *root, struct cee_json *j, const struct rv *want) {
  char *f = keep(sel, sn); if (h_tn > 50000) h_tn = 0; tr("select '%.700s'", f); for (int i = 0; i < na; i++) tr(" arg%d", i); tr("; ");
  struct cee_json *r = cee_json_select(j, f, arg[0], arg[1], arg[2], arg[3], arg[4], arg[5]);
  if (!want) CHECK(r == NULL, "selector '%.300s' gives a value instead of NULL", sel); else { struct cee_json *w = find(root, j, want); CHECK(r != NULL, "selector '%.300s' gives NULL", sel); if (want->k > R_FALSE) CHECK(r == w, "selector '%.300s' gives another value", sel); else r_eq(want, r, false); }
  if (na == 0) { int x = 77, e = cee_json_select_as_int(j, &x, f); if (want && want->k == R_I64) { CHECK(e == 0, "select_as_int fails"); if (want->i == (int)want->i) CHECK(x == want->i, "select_as_int gives %d", x); } else CHECK(e != 0 && x == 77, "select_as_int succeeds on %s", want ? rkn[want->k] : "nothing"); }
  for (int i = 0; i < nb; i++) free(blocks[i]); nb = na = 0; sn = 0; sel[0] = 0; }
static void exhaustive(void) {
  st = cee_state_mk(2); struct rv *o = r_mk(R_OBJ), *a = r_mk(R_ARR); char b[400]; r_set(o, "a", a); r_set(o, "s", r_str("x")); for (int i = 0; i < 3; i++) { struct rv *x = r_mk(R_I64); x->i = i; r_push(a, x); }
  for (int n = 253; n < 259; n++) { memset(b, 'k', n); b[n] = 0; struct rv *x = r_mk(R_I64); x->i = n; r_set(o, b, x); }
  struct cee_json *j = r_build(st, o);
  add("", 0); ask(o, j, o);
  static const char *bad[] = { ".", "[", ":", "a", "*", ".a.", ".a[", ".a:", "x.a", ":*", ".a[0].", ".s:*", " .a", "[0]", ".a.b", ".s[0]", ".s.s", ".a[3]", ".a[-1]", ".a[99999]", ".b", ".a:s", ".s:a", ":a", ".a[0]:s", ".a[0]x", ".a[0] ", "]]", ".a]]", ".a[0]]]", ".s]]", ".a[0]]].b" };
  for (size_t i = 0; i < sizeof bad / sizeof *bad; i++) { h_tn = 0; add(bad[i], strlen(bad[i])); na = 0; ask(o, j, NULL); }
  for (int n = 253; n < 259; n++) for (int split = 0; split <= n; split += split > 3 && split < n - 3 ? 50 : 1) for (int tail = 0; tail < 2; tail++) { h_tn = 0; memset(b, 'k', n); b[n] = 0; add(".", 1); add(b, split); if (split < n) { add("*", 1); arg[na++] = keep(b, n - split); } if (tail) add(":n", 2); ask(o, j, n <= 256 ? o->e[r_at(o, b)] : NULL); }
  for (int n = 300; n < 5000; n += 517) { add(".", 1); for (int i = 0; i < n; i++) add("k", 1); ask(o, j, NULL); add(".*", 2); char *l = malloc(n + 1); memset(l, 'k', n); l[n] = 0; arg[na++] = keep(l, n); free(l); ask(o, j, NULL); add("[", 1); for (int i = 0; i < n; i++) add("0", 1); ask(o, j, NULL); }
  for (int k = 0; k < 12; k++) for (const char *t = "snoab!"; *t; t++) for (int twice = 0; twice < 3; twice++) { h_tn = 0; struct rv *x = k == 11 ? r_mk(R_STRN) : r_mk(R_UNDEF + k); if (x->k == R_STR || x->k == R_STRN || x->k == R_BLOB) { x->s = r_dup("q", 1); x->n = 1; } struct rv *w = r_mk(R_OBJ); r_set(w, "x", x); struct cee_json *wj = r_build(st, w); char q[3] = { ':', *t };
    bool m = *t == 's' ? x->k == R_STR : *t == 'n' ? x->k == R_I64 || x->k == R_U64 || x->k == R_DBL : *t == 'o' ? x->k == R_OBJ : *t == 'a' ? x->k == R_ARR : *t == 'b' ? x->k == R_TRUE || x->k == R_FALSE : *t == '!' ? x->k == R_NULL : false;
    add(".x", 2); if (twice == 2) add(":*", 2); else add(q, 2); if (twice == 1) add(q, 2); ask(w, wj, m && twice < 2 ? x : NULL); }
  { struct rv *la = r_mk(R_ARR), *lo = r_mk(R_OBJ); for (int i = 0; i < 1100; i++) { struct rv *x = r_mk(R_I64); x->i = i; r_push(la, x); } r_set(lo, "l", la); struct cee_json *lj = r_build(st, lo); for (int i = 0; i < 1103; i += i > 1090 || i < 12 || (i > 90 && i < 105) || (i > 250 && i < 260) || (i > 990 && i < 1003) ? 1 : 7) { h_tn = 0; sprintf(b, ".l[%d]", i); add(b, strlen(b)); ask(lo, lj, i < 1100 ? la->e[i] : NULL); add(".l[*]", 5); arg[na++] = (void *)(intptr_t)i; ask(lo, lj, i < 1100 ? la->e[i] : NULL); } }
  cee_del(st); r_reset(); }
static void one_case(void) {
  st = cee_state_mk(2); struct rv *v = r_gen(4, 0); struct cee_json *j = r_build(st, v);
  for (int k = 0; k < 12; k++) { const struct rv *c = v; int n = rnd(6); na = 0; while (n-- && sn < 2000) c = step(c); ask(v, j, c); }
  CHECK(cee_json_select(NULL, ".a") == NULL, "selecting from NULL"); r_eq(v, j, false); cee_del(st); r_reset(); }
