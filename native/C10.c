/* C10: boxed values round-trip, are type-checked, and print with their own conversion */
#include "common.h"
static struct cee_state *st;
static void *volatile sink;
#define TYPES(X) X(0, double, double, "%lg") X(1, float, float, "%g") X(2, uint64_t, u64, "%" PRIu64) X(3, uint32_t, u32, "%" PRIu32) X(4, uint16_t, u16, "%" PRIu16) X(5, uint8_t, u8, "%" PRIu8) X(6, int64_t, i64, "%" PRId64) X(7, int32_t, i32, "%" PRId32) X(8, int16_t, i16, "%" PRId16) X(9, int8_t, i8, "%" PRId8)
static const char *tn[] = { "double", "float", "u64", "u32", "u16", "u8", "i64", "i32", "i16", "i8" };
static volatile uint64_t eat;
static bool get_traps(int k, struct cee_boxed *b) {
  switch (k) {
#define X(i, T, n, f) case i: return TRAPS({ T v = cee_boxed_to_##n(b); eat += v != 0; });
  TYPES(X)
#undef X
  } return true; }
static void one(int k, uint64_t bits, bool cross) {
  struct cee_boxed *b = NULL; char want[64], got[64]; int wn = 0;
  switch (k) {
#define X(i, T, n, f) case i: { T v; memcpy(&v, &bits, sizeof v); tr("%s " f "(%016" PRIx64 ");", #n, v, bits); b = cee_boxed_from_##n(st, v); T r = cee_boxed_to_##n(b); \
    CHECK(!memcmp(&r, &v, sizeof v) || (i < 2 && v != v && r != r), "%s: stored %016" PRIx64 " and got another value back", #n, bits); \
    wn = snprintf(want, sizeof want, f, v); if (i == 0 && !(strtod(want, NULL) == v)) wn = snprintf(want, sizeof want, "%.17lg", (double)v); break; }
  TYPES(X)
#undef X
  }
  memset(got, '#', sizeof got); size_t n = cee_boxed_snprint(got, 40, b);
  CHECK(n == wn && !strcmp(got, want), "%s %016" PRIx64 " prints as \"%.40s\" (%zu) instead of \"%s\"", tn[k], bits, got, n, want);
  CHECK(got[40] == '#', "snprint wrote past the buffer");
  CHECK(cee_boxed_snprint(NULL, 0, b) == wn, "size-only print of %s", tn[k]);
  int m = rnd(wn + 2); memset(got, '#', sizeof got); if (m) { n = cee_boxed_snprint(got, m, b); CHECK(n == wn, "print into %d bytes returns %zu", m, n); CHECK(!strncmp(got, want, m - 1) && got[m > wn ? wn : m - 1] == 0 && got[m] == '#', "truncated print of %s", tn[k]); }
  if (cross) for (int j = 0; j < 10; j++) CHECK(get_traps(j, b) == (j != k), "reading a %s box as %s %s", tn[k], tn[j], j == k ? "traps" : "returns a value");
  cee_del(b); }
static const uint64_t edge[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~0ULL, 0x3ff0000000000000ULL, 0x7ff0000000000000ULL, 0xfff0000000000000ULL, 0x7fefffffffffffffULL, 0x3f800000, 0x7f7fffff, 0x7f800000, 0x3fb999999999999aULL, 0x4340000000000000ULL };
static void exhaustive(void) {
  st = cee_state_mk(1);
  for (int k = 0; k < 10; k++) for (unsigned i = 0; i < sizeof edge / sizeof *edge; i++) { h_tn = 0; one(k, edge[i], true); }
  for (unsigned v = 0; v < 256; v++) { h_tn = 0; one(5, v, false); one(9, v, false); }
  for (unsigned v = 0; v < 65536; v += 7) { h_tn = 0; one(4, v, false); one(8, v, false); }
  cee_del(st); }
static void one_case(void) { st = cee_state_mk(1); for (int q = 0; q < 5; q++) { uint64_t v = chance(30) ? edge[rnd(sizeof edge / sizeof *edge)] : rnd64() >> rnd(64); if (chance(20)) v = -v; one(rnd(10), v, chance(10)); } cee_del(st); }
