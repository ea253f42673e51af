/* C18: printing: the size pass and the writing pass agree, the buffer has exactly that size plus the terminator (ASAN), the text is JSON and reads back equal */
#include "common.h"
#include "jsonref.h"
static struct cee_state *st;
static bool has(struct rv *v, int k) { if (v->k == k) return true; for (size_t i = 0; i < v->ne; i++) if (has(v->e[i], k)) return true; return false; }
static bool nuls(struct rv *v) { if (v->k == R_STRN && strlen(v->s) != v->n) return true; for (size_t i = 0; i < v->ne; i++) if (nuls(v->e[i])) return true; return false; }
static void plain1(struct rv *c) { if (c->k == R_STRN) c->k = R_STR; for (size_t i = 0; i < c->ne; i++) plain1(c->e[i]); }
static struct rv *plain(struct rv *v) { struct rv *c = r_copy(v); plain1(c); return c; }
static char *strip(const char *t, size_t n, size_t *m) { char *o = malloc(n + 1), *q = o; bool in = false; for (size_t i = 0; i < n; i++) { if (in) { *q++ = t[i]; if (t[i] == '\\' && i + 1 < n) *q++ = t[++i]; else if (t[i] == '"') in = false; } else if (t[i] == '"') { in = true; *q++ = t[i]; } else if (!strchr(" \t\n\r", t[i])) *q++ = t[i]; } *m = q - o; *q = 0; return o; }
static void run(struct rv *v, bool dump) {
  struct cee_json *j = r_build(st, v); char *txt[2]; size_t len[2];
  if (dump) { r_on = 0; r_print(v, 0); tr("value %.3000s; ", r_ob); }
  for (int f = 0; f < 2; f++) {
    ssize_t n = cee_json_snprint(st, NULL, 0, j, f); CHECK(n >= 0, "size %zd", n);
    char *b = malloc(n + 1); memset(b, 1, n + 1); ssize_t m = cee_json_snprint(st, b, n + 1, j, f);
    CHECK(m == n, "format %d: the size pass gives %zd, the writing pass %zd", f, n, m); CHECK(b[n] == 0, "format %d: no terminator at %zd", f, n); CHECK(strlen(b) == n, "format %d: the text has length %zu, %zd announced", f, strlen(b), n);
    if (dump && f == 0) tr("text %.3000s; ", b);
    char *a = NULL; size_t as = 77; ssize_t k = cee_json_asprint(st, &a, chance(70) ? &as : NULL, j, f); CHECK(a && k == n && !strcmp(a, b), "asprint gives another text"); CHECK(as == 77 || as == n || as == n + 1, "asprint reports size %zu of %zd", as, n);
    txt[f] = b; len[f] = n; }
  bool undef = has(v, R_UNDEF), blob = has(v, R_BLOB), nl = nuls(v);
  size_t sl; char *s = strip(txt[1], len[1], &sl); CHECK(sl == len[0] && !memcmp(s, txt[0], sl), "the two formats differ by more than white space"); free(s);
  if (!has(v, R_DBL) && !blob) { r_on = 0; r_print(v, 0); CHECK(r_on == len[0] && !memcmp(r_ob, txt[0], r_on), "compact text is %.300s", txt[0]); }
  if (!undef && !nl) { struct rv *p = plain(v);
    for (int f = 0; f < 2; f++) { int l = 0; bool odd; struct cee_json *q = NULL; struct rv *w = r_parse(txt[f], len[f], true, &l, &odd); CHECK(w, "the text is not JSON: %.300s", txt[f]);
      int r = cee_json_parsex(st, txt[f], len[f], &q, true, &l); CHECK(r == 0 && q, "the printed text is rejected by the parser: %.300s", txt[f]);
      if (!blob) r_eq(p, q, true); } }
  free(txt[0]); free(txt[1]); }
static void begin(void) { st = cee_state_mk(chance(50) ? 0 : 10); }
static void end(void) { chain_check(st); cee_del(st); CHECK(h_live == 0, "%ld blocks left after the state is deleted", h_live); r_reset(); }
static void big(bool obj, size_t n);
/* long strings, as value and as key, all plain or all of one kind of escape */
static void longstr(size_t n) { static const char *c[] = { "a", "\"", "\\", "\n", "\x01", "\x7f", "\xe2\x82\xac", "/" }; for (int i = 0; i < 8; i++) { begin(); h_begin(); size_t l = strlen(c[i]); char *t = r_get(n * l + 1); for (size_t k = 0; k < n; k++) memcpy(t + k * l, c[i], l); t[n * l] = 0; tr("string of %zu times %02x;", n, (unsigned char)c[i][0]); struct rv *o = r_mk(R_OBJ); r_set(o, n * l < 60000 ? t : "k", r_str(t)); run(o, false); run(o->e[0], false); end(); } }
static void exhaustive(void) {
  static const size_t ls[] = { 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 32768, 65536, 70000 }; for (int i = 0; i < 20; i++) longstr(ls[i]); h_begin();
  static const size_t ns[] = { 126, 128, 129, 255, 256, 257, 600, 1025, 4100 }; for (size_t i = 0; i < sizeof ns / sizeof *ns; i++) { big(false, ns[i]); if (ns[i] < 2000) big(true, ns[i]); }
  for (int c = 1; c < 256; c += 1) { begin(); char b[8] = { 'a', c, 'b' }; if (c > 127) { b[0] = 0xc3; b[1] = 0x80 | c & 0x3f; } h_tn = 0; run(r_str(b), true); struct rv *o = r_mk(R_OBJ); r_set(o, b, r_str(b)); run(o, true); end(); }
  for (int c = 0; c < 32; c++) { begin(); struct rv *v = r_mk(R_STRN); v->s = r_dup("x\0y", 3); v->s[1] = c; v->n = 3; h_tn = 0; run(v, true); v->n = 2; run(v, true); end(); }
  for (int k = 0; k < 3; k++) for (int d = 0; d <= 511; d = d < 12 ? d + 1 : d < 500 ? d + 61 : d + 1) { begin(); h_tn = 0; tr("nesting %d kind %d;", d, k); struct rv *v = k == 1 ? r_mk(R_OBJ) : r_mk(R_I64); if (k == 1 && !d) v = r_mk(R_NULL); for (int i = k == 1 ? 1 : 0; i < d; i++) { struct rv *p = r_mk(k == 0 || (k == 2 && i % 2) ? R_ARR : R_OBJ); if (p->k == R_ARR) { r_push(p, v); if (chance(30)) r_push(p, r_mk(R_TRUE)); } else { r_set(p, "k", v); if (chance(30)) r_set(p, "l", r_mk(R_TRUE)); } v = p; } run(v, false); end(); }
  for (int i = 0; i < 400; i++) { begin(); struct rv *v = r_mk(R_DBL + rnd(3)); v->d = v->k == R_DBL ? r_dbl() : 0; v->i = v->k == R_I64 ? r_int() * (chance(50) ? 1 : -1) : 0; v->u = v->k == R_U64 ? r_int() : 0; h_tn = 0; run(v, true); end(); } }
static void big(bool obj, size_t n) { begin(); h_tn = 0; tr("%s of %zu", obj ? "object" : "array", n); struct rv *v = r_mk(obj ? R_OBJ : R_ARR); for (size_t i = 0; i < n; i++) { struct rv *x = r_mk(R_I64); x->i = i; if (obj) { char k[20]; sprintf(k, "k%zu", i); r_set(v, k, x); } else r_push(v, x); } run(v, false); end(); }
static void one_case(void) { if (chance(2)) { big(rnd(2), 200 + rnd(1400)); h_tn = 0; } begin(); run(r_gen(chance(85) ? 3 : 6, chance(60) ? 0 : chance(50) ? 1 : 2), true); end(); }
