/* C21: cee_json_escape_string against a table-driven oracle, destination of exactly 6 n + 1 bytes (ASAN bounds it) */
#include "common.h"
static unsigned char in[140000]; static char want[900000];
static size_t oracle(const unsigned char *s, size_t n) {
  size_t j = 0; const char *from = "\"\\\b\f\n\r\t", *to = "\"\\bfnrt";
  for (size_t i = 0; i < n; i++) { const char *q = s[i] ? strchr(from, s[i]) : NULL;
    if (q) { want[j++] = '\\'; want[j++] = to[q - from]; }
    else if (s[i] < 32) { static const char *hx = "0123456789abcdef"; memcpy(want + j, "\\u00", 4); want[j + 4] = hx[s[i] >> 4]; want[j + 5] = hx[s[i] & 15]; j += 6; }
    else want[j++] = s[i]; }
  return j; }
static void run(size_t n) {
  size_t e = oracle(in, n), extra = chance(50) ? 0 : rnd(50), dn = 6 * n + 1 + extra;
  char *s = malloc(n ? n : 1), *d = malloc(dn); memcpy(s, in, n); memset(d, 'Z', dn);
  tr("n %zu dest %zu:", n, dn); for (size_t i = 0; i < n && i < 60; i++) tr(" %02x", in[i]);
  char *nd = d - 0; size_t ns = 77; int how = rnd(4);
  size_t r = cee_json_escape_string(s, n, d, dn, how & 1 ? NULL : &nd, how & 2 ? NULL : &ns);
  CHECK(r == e, "returned %zu, expected %zu", r, e); CHECK(!memcmp(d, want, e), "text is \"%.*s\", expected \"%.*s\"", (int)e, d, (int)e, want);
  if (!(how & 1)) CHECK(nd == d + e, "next position is at %td, expected %zu", nd - d, e);
  if (!(how & 2)) CHECK(ns == dn - e, "remaining size %zu, expected %zu", ns, dn - e);
  CHECK(!memcmp(s, in, n), "the input was changed");
  free(s); free(d); }
static void exhaustive(void) { for (int r = 0; r < 4; r++) run(0);
  static const size_t ln[] = { 300, 5000, 12000, 33000, 66000, 131100 }; for (int i = 0; i < 6; i++) for (int k = 0; k < 3; k++) { h_begin(); for (size_t q = 0; q < ln[i]; q++) in[q] = k == 0 ? 'a' : k == 1 ? 1 + rnd(31) : rnd(256); run(ln[i]); }

  for (int a = 0; a < 256; a++) { for (int r = 0; r < 6; r++) { h_tn = 0; in[0] = a; run(1); } }
  for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { h_tn = 0; in[0] = a; in[1] = b; run(2); } }
static void one_case(void) { size_t n = chance(70) ? rnd(12) : chance(80) ? rnd(200) : rnd(3000); int k = rnd(4);
  for (size_t i = 0; i < n; i++) in[i] = k == 0 ? rnd(256) : k == 1 ? rnd(32) : k == 2 ? "\"\\\b\f\n\r\t\x1f\x7f\xff\0 az/"[rnd(15)] : 'a';
  run(n); }
