/* C14: string views only ever denote parts of the original text. The text lies in a block of exactly its size. */
#include "common.h"
typedef struct { size_t count; const char *data; } SV;
#define W __attribute__((weak))
W SV sv_from_parts(const char *, size_t); W SV sv_from_cstr(const char *); W SV sv_trim_left(SV); W SV sv_trim_right(SV); W SV sv_trim(SV); W SV sv_take_left_while(SV, bool (*)(char)); W SV sv_chop_by_delim(SV *, char); W SV sv_chop_by_sv(SV *, SV);
W bool sv_try_chop_by_delim(SV *, char, SV *); W SV sv_chop_left(SV *, size_t); W SV sv_chop_right(SV *, size_t); W SV sv_chop_left_while(SV *, bool (*)(char)); W bool sv_index_of(SV, char, size_t *); W bool sv_eq(SV, SV); W bool sv_eq_ignorecase(SV, SV); W bool sv_starts_with(SV, SV); W bool sv_ends_with(SV, SV); W uint64_t sv_to_u64(SV); W uint64_t sv_chop_u64(SV *);
static const char *alpha; static size_t alphan;
static char gen(void) { return chance(4) ? (char)rnd(256) : alpha[rnd(alphan)]; }
static char *text(size_t n) { char *p = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) p[i] = gen(); return p; }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool p_sp(char c) { return sp(c); } static bool p_dg(char c) { return dg(c); } static bool p_a(char c) { return c == 'a' || c == 'A'; } static bool p_all(char c) { return true; }
static bool (*preds[])(char) = { p_sp, p_dg, p_a, p_all };
#define IS(v, o, n, what) CHECK((v).data == t + (o) && (v).count == (n), "%s: got offset %td length %zu, want %zu, %zu", what, (v).data - t, (v).count, (size_t)(o), (size_t)(n))
static uint64_t num(const char *t, size_t n, size_t *used) { uint64_t r = 0; size_t i; for (i = 0; i < n && dg(t[i]); i++) r = r * 10 + (uint64_t)(t[i] - '0'); *used = i; return r; }
static void check(const char *t, size_t n) {
  SV v = sv_from_parts(t, n), w, r; size_t i, j, k, u; IS(v, 0, n, "from_parts");
  for (i = 0; i < n && sp(t[i]); i++); for (j = n; j > 0 && sp(t[j - 1]); j--);
  r = sv_trim_left(v); IS(r, i, n - i, "trim_left"); r = sv_trim_right(v); IS(r, 0, j, "trim_right"); r = sv_trim(v);
  if (i == n) CHECK(r.count == 0 && r.data >= t && r.data <= t + n, "trim of white space"); else IS(r, i, j - i, "trim");
  k = chance(80) ? rnd(n + 3) : ((size_t)-1 - rnd(3)); u = k > n ? n : k;
  w = v; r = sv_chop_left(&w, k); IS(r, 0, u, "chop_left"); IS(w, u, n - u, "the rest after chop_left");
  w = v; r = sv_chop_right(&w, k); IS(r, n - u, u, "chop_right"); IS(w, 0, n - u, "the rest after chop_right");
  char c = gen(); if (n && chance(40)) c = t[rnd(n)]; for (i = 0; i < n && t[i] != c; i++);
  tr("delim %d;", c); w = v; r = sv_chop_by_delim(&w, c); IS(r, 0, i, "chop_by_delim"); if (i < n) IS(w, i + 1, n - i - 1, "the rest after chop_by_delim"); else IS(w, n, 0, "the rest after chop_by_delim");
  SV ch = { 77, (char *)5 }; w = v; bool b = sv_try_chop_by_delim(&w, c, chance(80) ? &ch : NULL); CHECK(b == (i < n), "try_chop_by_delim returned %d", b); if (b) IS(w, i + 1, n - i - 1, "the rest after try_chop"); else { IS(w, 0, n, "the view after a failed try_chop"); CHECK(ch.count == 77, "failed try_chop wrote a chunk"); } if (ch.count != 77 || ch.data != (char *)5) IS(ch, 0, i, "chunk");
  u = 12345; b = sv_index_of(v, c, chance(80) ? &u : NULL); CHECK(b == (i < n), "index_of returned %d", b); if (b) CHECK(u == i || u == 12345, "index_of gives %zu instead of %zu", u, i); else CHECK(u == 12345, "failed index_of wrote the index");
  u = 12345; if (sv_index_of(v, c, &u)) CHECK(u == i, "index_of");
  bool (*p)(char) = preds[rnd(4)]; for (i = 0; i < n && p(t[i]); i++);
  r = sv_take_left_while(v, p); IS(r, 0, i, "take_left_while"); w = v; r = sv_chop_left_while(&w, p); IS(r, 0, i, "chop_left_while"); IS(w, i, n - i, "the rest after chop_left_while");
  uint64_t x = num(t, n, &u), y = sv_to_u64(v); CHECK(x == y, "to_u64: %" PRIu64 " instead of %" PRIu64, y, x); w = v; y = sv_chop_u64(&w); CHECK(x == y, "chop_u64: %" PRIu64 " instead of %" PRIu64, y, x); IS(w, u, n - u, "the rest after chop_u64");
  /* a second text: part of the first, or made up */
  size_t m = chance(70) ? rnd(n < 6 ? n + 2 : 5) : rnd(n + 3); char *d = text(m); if (m <= n && chance(70)) memcpy(d, t + rnd(n - m + 1), m); if (m && m <= n && chance(20)) { memcpy(d, chance(50) ? t : t + n - m, m); if (chance(30)) d[rnd(m)] ^= 32; }
  tr("second %zu:", m); for (i = 0; i < m; i++) tr("%02x", (unsigned char)d[i]); tr(";"); SV dv = { m, d };
  bool eq = m == n && !memcmp(t, d, m), ci = m == n; if (ci) for (i = 0; i < n; i++) if (lo(t[i]) != lo(d[i])) ci = false;
  CHECK(sv_eq(v, dv) == eq && sv_eq(dv, v) == eq && sv_eq(v, v), "eq"); CHECK(sv_eq_ignorecase(v, dv) == ci && sv_eq_ignorecase(dv, v) == ci, "eq_ignorecase");
  CHECK(sv_starts_with(v, dv) == (m <= n && !memcmp(t, d, m)), "starts_with"); CHECK(sv_ends_with(v, dv) == (m <= n && !memcmp(t + n - m, d, m)), "ends_with");
  for (i = 0; i + m <= n && memcmp(t + i, d, m); i++);
  w = v; r = sv_chop_by_sv(&w, dv); if (i + m <= n) { IS(r, 0, i, "chop_by_sv"); IS(w, i + m, n - i - m, "the rest after chop_by_sv"); } else { IS(r, 0, n, "chop_by_sv without a delimiter"); IS(w, n, 0, "the rest after chop_by_sv without a delimiter"); }
  char *z = malloc(n + 1); memcpy(z, t, n); z[n] = 0; r = sv_from_cstr(z); CHECK(r.data == z && r.count == strlen(z), "from_cstr"); free(z); free(d); }
static void exhaustive(void) {
  if (!sv_from_parts) return;
  static const size_t big[] = { 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 32768, 65535, 65536, 65537, 70000 }; static const char *ba[] = { " ", "7", "a", "xa", " x", "0123456789" };
  for (int k = 0; k < 15; k++) for (int j = 0; j < 6; j++) for (int r = 0; r < 6; r++) { h_begin(); alpha = ba[j]; alphan = strlen(alpha); char *t = malloc(big[k]); for (size_t i = 0; i < big[k]; i++) t[i] = alpha[rnd(alphan)]; if (r > 1) t[r == 2 ? 0 : r == 3 ? big[k] - 1 : rnd(big[k])] = "x 5A"[rnd(4)]; tr("%zu of '%s';", big[k], alpha); check(t, big[k]); free(t); } h_begin();
  alpha = "a 0"; alphan = 3; static const char a3[] = "a 0"; char b[8];
  for (int n = 0; n <= 5; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 3; for (int x = 0; x < tot; x++) { int y = x; char *t = malloc(n ? n : 1); for (int i = 0; i < n; i++, y /= 3) t[i] = a3[y % 3]; h_tn = 0; tr("text '%.*s';", n, t); check(t, n); free(t); } } }
static void one_case(void) {
  if (!sv_from_parts) { usleep(100000); return; }
  static const char *as[] = { "ab", "aA0 ", " \t\n\v\f\rx", "0123456789", "90 ,;", "azAZ@[`{", "a0 \x80\xff" }; alpha = as[rnd(7)]; alphan = strlen(alpha);
  size_t n = chance(80) ? rnd(12) : rnd(60); char *t = text(n); tr("text %zu:", n); for (size_t i = 0; i < n; i++) tr("%02x", (unsigned char)t[i]); tr(";"); check(t, n); free(t); }
