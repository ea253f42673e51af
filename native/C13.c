/* C13: substring replacement against a naive model. Texts lie in blocks of exactly their size. */
#include "common.h"
extern char *str_replace_at_offset(const char *, size_t, size_t, char *), *str_replace_all(const char *, const char *, const char *), *str_replace_all_ext(const char *, size_t, size_t *, int, ...);
static const char *alpha = "ab"; static int an = 2;
static char *text(size_t n) { char *p = malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = alpha[rnd(an)]; p[n] = 0; return p; }
static char want[1 << 20];
static void check(char *got, size_t n, const char *what) { CHECK(strlen(got) == n && !memcmp(got, want, n + 1), "%s: \"%.300s\" instead of \"%.300s\"", what, got, want); h_free(got); }
static void one(char *s) {
  size_t n = strlen(s), o = rnd(n + 1), l = chance(50) ? rnd(n - o + 1) : rnd((n - o < 3 ? n - o : 3) + 1); char *w = text(chance(80) ? rnd(6) : rnd(40));
  tr("text %s; at %zu len %zu with %s;", s, o, l, w); size_t k = 0; memcpy(want, s, o); k = o; strcpy(want + k, w); k += strlen(w); strcpy(want + k, s + o + l); check(str_replace_at_offset(s, o, l, w), strlen(want), "replace_at_offset"); free(w);
  char *a = text(1 + rnd(chance(80) ? 3 : 8)); w = text(chance(80) ? rnd(6) : rnd(40)); size_t al = strlen(a), wl = strlen(w); if (n >= al && chance(50)) memcpy(a, s + rnd(n - al + 1), al);
  tr("all %s -> %s;", a, w); k = 0; for (size_t i = 0; i < n;) if (!strncmp(s + i, a, al)) { memcpy(want + k, w, wl); k += wl; i += al; } else want[k++] = s[i++]; want[k] = 0; check(str_replace_all(s, a, w), k, "replace_all"); free(a); free(w);
  int np = chance(90) ? rnd(5) : 15 + rnd(4); char *A[20], *W[20]; for (int x = 0; x < np; x++) { A[x] = text(1 + rnd(4)); W[x] = text(chance(80) ? rnd(5) : rnd(30)); size_t z = strlen(A[x]); if (n >= z && chance(50)) memcpy(A[x], s + rnd(n - z + 1), z); tr("pair %s -> %s;", A[x], W[x]); }
  size_t m = chance(70) ? n : rnd(n + 1); char *e = malloc(m ? m : 1); memcpy(e, s, m); k = 0;
  for (size_t i = 0; i < m;) { int x; for (x = 0; x < np; x++) { size_t z = strlen(A[x]); if (i + z <= m && !memcmp(e + i, A[x], z)) break; } if (x < np) { size_t z = strlen(W[x]); memcpy(want + k, W[x], z); k += z; i += strlen(A[x]); } else want[k++] = e[i++]; } want[k] = 0;
  size_t out = 777, *op = chance(80) ? &out : NULL; tr("ext %d pairs, %zu bytes;", np, m); char *g;
#define P1(i) A[i], W[i]
  switch (np) { case 0: g = str_replace_all_ext(e, m, op, 0); break; case 1: g = str_replace_all_ext(e, m, op, 1, P1(0)); break; case 2: g = str_replace_all_ext(e, m, op, 2, P1(0), P1(1)); break; case 3: g = str_replace_all_ext(e, m, op, 3, P1(0), P1(1), P1(2)); break; case 4: g = str_replace_all_ext(e, m, op, 4, P1(0), P1(1), P1(2), P1(3)); break;
    default: { for (int x = np; x < 20; x++) { A[x] = "\1"; W[x] = ""; } g = str_replace_all_ext(e, m, op, np, P1(0), P1(1), P1(2), P1(3), P1(4), P1(5), P1(6), P1(7), P1(8), P1(9), P1(10), P1(11), P1(12), P1(13), P1(14), P1(15), P1(16), P1(17), P1(18)); } }
  check(g, k, "replace_all_ext"); if (op) CHECK(out == k, "replace_all_ext reports %zu for %zu", out, k);
  for (int x = 0; x < np; x++) { free(A[x]); free(W[x]); } free(e); CHECK(h_live == 0, "%ld blocks not freed", h_live); }
/* long texts, many occurrences, long new texts */
static void longer(size_t n, size_t every, size_t wl) { h_begin(); tr("text of %zu with an occurrence every %zu, new text of %zu;", n, every, wl); char *s = malloc(n + 1), *w = malloc(wl + 1); memset(s, 'x', n); s[n] = 0; memset(w, 'y', wl); w[wl] = 0; size_t k = 0; for (size_t i = 0; i < n; ) if (i % every == 0 && i + 2 <= n) { memcpy(s + i, "ab", 2); memcpy(want + k, w, wl); k += wl; i += 2; } else want[k++] = s[i++]; want[k] = 0; if (k >= sizeof want) abort();
  check(str_replace_all(s, "ab", w), k, "replace_all"); size_t out = 0; char *g = str_replace_all_ext(s, n, &out, 2, "zz", "", "ab", w); CHECK(out == k, "replace_all_ext reports %zu for %zu", out, k); check(g, k, "replace_all_ext");
  size_t o = n - n / 5; memcpy(want, s, o); memcpy(want + o, w, wl); memcpy(want + o + wl, s + o + 2, n - o - 2 + 1); check(str_replace_at_offset(s, o, 2, w), n - 2 + wl, "replace_at_offset"); free(s); free(w); }
static void exhaustive(void) { longer(300, 3, 100); longer(5000, 2, 70); longer(70000, 50, 5); longer(70000, 3, 0); longer(66000, 2, 9); longer(260, 300, 70000); longer(200000, 3, 2); alpha = "ab"; an = 2;
   for (int n = 0; n <= 6; n++) for (int x = 0; x < 1 << n; x++) for (int r = 0; r < 6; r++) { h_tn = 0; char *s = malloc(n + 1); for (int i = 0; i < n; i++) s[i] = x >> i & 1 ? 'a' : 'b'; s[n] = 0; one(s); free(s); } }
static void one_case(void) { static const char *as[] = { "ab", "a", "abc", "a\x80\xff" }; alpha = as[rnd(4)]; an = strlen(alpha); char *s = text(chance(80) ? rnd(14) : rnd(80)); one(s); free(s); }
