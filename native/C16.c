/* C16: the tokenizer, token by token, against the reference tokenizer; the text lies in a block of exactly its size plus the terminator */
#include "common.h"
#include "jsonref.h"
int hx_token(struct cee_state *, char *, size_t *, size_t, int *, char **, int *, double *, int64_t *, uint64_t *);
static struct cee_state *st; static unsigned uses;
static void run(const char *s, size_t n) {
  if (st && ++uses > 300) { cee_del(st); st = NULL; uses = 0; } if (!st) st = cee_state_mk(2);
  char *t = malloc(n + 1); memcpy(t, s, n); t[n] = 0; size_t pos = 0; int line = chance(70) ? 0 : rnd(100); struct rtok k = { 0, line };
  if (h_tn > 30000) h_tn = 0; tr("text %zu '%.*s' hex", n, n > 80 ? 80 : (int)n, s); for (size_t i = 0; i < n && i < 40; i++) tr("%02x", (unsigned char)s[i]); tr(": ");
  for (int step = 0; step < 2000; step++) {
    char *str; int kind; double d; int64_t i; uint64_t u; size_t from = pos;
    int w = r_token(t, n, &k), g = hx_token(st, t, &pos, n, &line, &str, &kind, &d, &i, &u);
    tr("%d@%zu ", g, from);
    CHECK(pos <= n, "the position %zu is beyond the terminator", pos);
    CHECK(line == k.line, "line is %d, expected %d", line, k.line);
    if (w == RT_ODD) { CHECK(g == RT_ERR || g == RT_EOF, "a comment gives token %d", g); break; }
    CHECK(g == w, "token at %zu is %d instead of %d", from, g, w);
    if (g == RT_ERR || g == RT_EOF) { if (g == RT_EOF) CHECK(pos == n, "eof at %zu of %zu", pos, n); break; }
    CHECK(pos == k.pos, "after token %d at %zu the position is %zu, expected %zu", g, from, pos, k.pos);
    if (g == RT_STR) CHECK(str && !strcmp(str, k.v->s), "string token is '%.100s' instead of '%.100s'", str, k.v->s);
    if (g == RT_NUM) { CHECK(kind == k.v->k, "number is of kind %s instead of %s", rkn[kind], rkn[k.v->k]); if (kind == R_DBL) CHECK(!memcmp(&d, &k.v->d, 8), "double %.17g instead of %.17g", d, k.v->d); else if (kind == R_I64) CHECK(i == k.v->i, "i64 %" PRId64 " instead of %" PRId64, i, k.v->i); else CHECK(u == k.v->u, "u64 %" PRIu64 " instead of %" PRIu64, u, k.v->u); } }
  CHECK(!memcmp(t, s, n) && !t[n], "the text was changed"); free(t); r_reset(); }
static void words(const char *al, int maxn) { char b[16]; size_t na = strlen(al); for (int n = 0; n <= maxn; n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= na; for (long x = 0; x < tot; x++) { long y = x; for (int i = 0; i < n; i++, y /= na) b[i] = al[y % na]; run(b, n); } } }
/* long white space, line breaks, digits, strings and many tokens */
static void longtok(size_t m) { char *b = malloc(10 * m + 100); size_t n;
  for (int k = 0; k < 11; k++) for (int e = 0; e < 3; e++) { h_begin(); n = 0;
    switch (k) {
    case 0: memset(b, ' ', m); n = m; break; case 1: memset(b, '\n', m); n = m; break; case 2: memset(b, '\t', m); n = m; break; case 3: for (n = 0; n < m; n++) b[n] = "\r\n"[n & 1]; break;
    case 4: b[n++] = '"'; memset(b + n, 's', m); n += m; b[n++] = '"'; break;
    case 5: b[n++] = '0'; b[n++] = '.'; memset(b + n, '3', m); n += m; break;
    case 6: b[n++] = '"'; for (size_t i = 0; i < m; i++) { b[n++] = '\\'; b[n++] = "nt\\\""[i & 3]; } b[n++] = '"'; break;
    case 7: for (size_t i = 0; i < m && i < 1500; i++) b[n++] = "[]{},:"[i % 6]; break;
    case 8: b[n++] = '"'; memset(b + n, 'u', m); n += m; break;      /* never closed */
    case 9: for (size_t i = 0; i < m && i < 400; i++) { b[n++] = '1'; memset(b + n, ' ', i % 7); n += i % 7; b[n++] = '\n'; } break;
    default: b[n++] = '"'; for (size_t i = 0; i < m; i++) { memcpy(b + n, "\xe2\x82\xac", 3); n += 3; } b[n++] = '"'; }
    if (e == 1) n += sprintf(b + n, " true"); if (e == 2) n += sprintf(b + n, "\n?"); tr("long kind %d of %zu;", k, m); run(b, n); }
  free(b); }
static void exhaustive(void) {
  static const size_t lg[] = { 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 32767, 32768, 65536, 70000 }; for (int i = 0; i < 24; i++) longtok(lg[i]); h_begin();
  words("-019.eE+", 5); words("01-.e ", 4); words("\"\\u0a", 5); words("[]{},: \n\r\t", 3);
  for (int c = 0; c < 256; c++) for (int d = 0; d < 256; d += (c && strchr("-0\"\\tnf[ ", c)) ? 1 : 15) { char b[2] = { c, d }; run(b, 2); }
  static const char *lit[] = { "true", "false", "null" }; for (int i = 0; i < 3; i++) for (size_t l = 0; l <= strlen(lit[i]); l++) { char b[40]; memcpy(b, lit[i], l); run(b, l); for (int c = 0; c < 256; c++) { b[l] = c; run(b, l + 1); } }
  for (int c = 0; c < 256; c++) { char b[8] = { '\\', 'u', '0', '0', '4', '1' }; for (int k = 1; k < 6; k++) { char q[10]; q[0] = '"'; memcpy(q + 1, b, 6); q[1 + k] = c; q[7] = '"'; run(q, 8); } }
  static const char *nums[] = { "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0", "1e5", "1.5", "922337203685477580", "9223372036854775807e0", "9223372036854775808.0" };
  for (size_t i = 0; i < sizeof nums / sizeof *nums; i++) for (int k = 0; k < 8; k++) { char b[60]; sprintf(b, "%s%s%s", k & 1 ? "-" : "", nums[i], k & 2 ? "]" : k & 4 ? "x" : ""); run(b, strlen(b)); } }
static void one_case(void) {
  char b[3000]; size_t n = 0; int m = chance(80) ? rnd(12) : rnd(100);
  static const char *tk[] = { "[", "]", "{", "}", ":", ",", "true", "false", "null", " ", "\n", "\r\n", "\t", "\"a\"", "\"\\n\"", "\"\\u20ac\"", "\"\\\\\"", "\"\\\"\"", "\"", "0", "-", "-0", "12", "1.5", "1e9", "2E-3", "1e+05", "0.0", "-0.0e0", "tru", "nul", "/", "//", "01", "1.", ".5", "+1", "1e", "\"\\", "1e400", "nan", "inf", "0x10" };
  for (int i = 0; i < m; i++) { if (chance(75)) { const char *s = tk[chance(75) ? rnd(29) : rnd(sizeof tk / sizeof *tk)]; n += sprintf(b + n, "%s", s); } else if (chance(40)) n += sprintf(b + n, "%s%" PRIu64, chance(30) ? "-" : "", r_int()); else if (chance(40)) n += sprintf(b + n, "%.*g", 1 + rnd(17), r_dbl()); else if (chance(50)) { r_on = 0; char *t = r_text(); r_quote(t, strlen(t), 1); if (r_on < 1500 && n < 1200) { memcpy(b + n, r_ob, r_on); n += r_on; } } else b[n++] = chance(80) ? 1 + rnd(127) : rnd(256); }
  if (n && chance(15)) n -= rnd(n); if (n && chance(10)) b[rnd(n)] = rnd(256);
  run(b, n); }
