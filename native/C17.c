/* C17: cee_json_parsex against a recursive-descent reference parser: acceptance, value, key order, error line, memory */
#include "common.h"
#include "jsonref.h"
static struct cee_state *st; static unsigned uses;
static struct rv *run(const char *s, size_t n, int eof) {
  if (st && ++uses > 100) { cee_del(st); CHECK(h_live == 0, "%ld blocks left when the state is deleted", h_live); st = NULL; uses = 0; } if (!st) st = cee_state_mk(2);
  char *t = malloc(n + 1); memcpy(t, s, n); t[n] = 0; int l1 = -7, l2 = 0; bool odd = false; struct cee_json *j = (void *)5;
  if (h_tn > 30000) h_tn = 0; tr("text %zu eof %d '%.*s'; ", n, eof, n > 400 ? 400 : (int)n, s);
  struct rv *v = r_parse(t, n, eof, &l2, &odd);
  int r = cee_json_parsex(st, t, n, &j, eof, &l1);
  if (!odd) {
    CHECK((r == 0) == (v != NULL), "the text was %s", r ? "rejected, but it is in the grammar" : "accepted, but it is not in the grammar");
    if (!v) { CHECK(r == EINVAL, "the error is %d", r); CHECK(j == NULL, "rejected, but a value is returned"); CHECK(l1 == l2, "the error line is %d, expected %d", l1, l2); }
    else { CHECK(j != NULL, "accepted without a value"); r_eq(v, j, false); } }
  else if (r) CHECK(j == NULL, "rejected, but a value is returned");
  CHECK(!memcmp(t, s, n), "the text was changed"); free(t); return v; }
static void words(const char **al, int na, int maxn) { char b[200]; for (int n = 0; n <= maxn; n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= na; for (long x = 0; x < tot; x++) { long y = x; b[0] = 0; for (int i = 0; i < n; i++, y /= na) strcat(b, al[y % na]); run(b, strlen(b), 1); if (x % 3 == 0) run(b, strlen(b), 0); r_reset(); } } }
static void deep(int k, int kind) { char *b = malloc(k * 8 + 40), *p = b; for (int i = 0; i < k; i++) p += sprintf(p, kind == 0 || (kind == 2 && i % 2) ? "[" : "{\"k\":"); p += sprintf(p, "%s", k % 2 ? "1" : kind == 0 ? "" : "null"); for (int i = k - 1; i >= 0; i--) *p++ = kind == 0 || (kind == 2 && i % 2) ? ']' : '}'; run(b, p - b, 1); if (k) run(b, p - b - 1, 1); free(b); r_reset(); }
/* documents of many elements, keys and lines; also cut short and with one character too many */
static void longdoc(int m) { char *b = malloc(m * 16 + 40);
  for (int k = 0; k < 6; k++) for (int e = 0; e < 5; e++) { h_begin(); char *p = b; *p++ = k == 1 || k == 3 ? '{' : '[';
    for (int i = 0; i < m; i++) switch (k) {
      case 0: p += sprintf(p, "%s%d", i ? "," : "", i); break; case 1: p += sprintf(p, "%s\"k%d\":%d", i ? "," : "", i, i); break; case 2: p += sprintf(p, "%s[]", i ? ",\n" : ""); break;
      case 3: p += sprintf(p, "%s\"k\":{}", i ? "," : ""); break; case 4: p += sprintf(p, "%s\"%d\"", i ? " , " : "", i); break; default: p += sprintf(p, "%snull", i ? "," : "\n"); }
    if (e == 3) p += sprintf(p, ",,"); if (e != 1) *p++ = k == 1 || k == 3 ? '}' : ']'; if (e == 2) *p++ = ']'; tr("long document %d of %d, %d;", k, m, e); run(b, p - b, e != 4); r_reset(); }
  free(b); }
static void exhaustive(void) {
  static const int lg[] = { 1, 2, 17, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1024, 1025, 3000 }; for (int i = 0; i < 15; i++) longdoc(lg[i]); h_begin();
  static const char *a[] = { "[", "]", "{", "}", ":", ",", "1", "\"a\"", "null" }; words(a, 9, 5);
  static const char *o[] = { "{", "}", ":", ",", "\"a\"", "\n" }; words(o, 6, 6);
  static const char *c[] = { "[", "]", ",", "2" }; words(c, 4, 8);
  for (int k = 0; k < 3; k++) { for (int d = 0; d < 20; d++) deep(d, k); for (int d = 505; d < 517; d++) deep(d, k); deep(700, k); } }
static void one_case(void) {
  struct rv *v = r_gen(chance(85) ? 3 : 6, 0); r_on = 0; r_print(v, rnd(2)); r_puts("");
  bool clean = chance(45); int eof = chance(80);
  if (!clean) { int m = 1 + rnd(3); while (m--) { size_t at = r_on ? rnd(r_on) : 0; static const char *bits[] = { "[", "]", "{", "}", ":", ",", ",,", " ", "\n", "1", "\"x\"", "null", "tru", "\"", "\\", "-", ".", "e", "//", "]]", "}{" };
      if (chance(35) && r_on) { size_t l = 1 + rnd(3); if (at + l > r_on) l = r_on - at; memmove(r_ob + at, r_ob + at + l, r_on - at - l); r_on -= l; }
      else if (chance(60)) { const char *s = bits[rnd(sizeof bits / sizeof *bits)]; size_t l = strlen(s); r_put("        ", l); memmove(r_ob + at + l, r_ob + at, r_on - l - at); memcpy(r_ob + at, s, l); }
      else if (chance(50) && r_on) r_ob[at] = chance(90) ? 1 + rnd(127) : rnd(256); else if (r_on) r_on = at; } r_put("", 0); }
  struct rv *w = run(r_ob, r_on, eof); if (clean) CHECK(w && r_same(v, w), "the reference parser and printer disagree (harness)"); r_reset(); }
