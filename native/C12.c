/* C12: strings. Model: a plain text; the block is checked as a whole (header, capacity, terminator). */
#include "common.h"
extern struct cee_str *cee_str_mkv(struct cee_state *, const char *, va_list);
static struct cee_state *st;
static struct cee_str *mkv(const char *f, ...) { va_list ap; va_start(ap, f); struct cee_str *s = cee_str_mkv(st, f, ap); va_end(ap); return s; }
static size_t capof(void *s) { return *(size_t *)((char *)s - sizeof(struct cee_sect) - sizeof(size_t)); }
static char m[200000]; static size_t n;
static void same(struct cee_str *s, const char *op) {
  CHECK(strlen((char *)s) == n && !memcmp(s, m, n), "%s: text is \"%.200s\" instead of \"%.200s\"", op, (char *)s, m);
  CHECK(H(s)->mem_block_size >= 72 && capof(s) <= H(s)->mem_block_size - 72, "%s: capacity %zu exceeds the storage of a block of %zu", op, capof(s), H(s)->mem_block_size);
  CHECK(n < capof(s), "%s: %zu characters with capacity %zu", op, n, capof(s));
  CHECK(!H_DEAD((char *)s - 64) && !H_DEAD((char *)s - 64 + H(s)->mem_block_size - 1), "%s: the recorded block size %zu is more than the block", op, H(s)->mem_block_size);
  CHECK(cee_str_end(s) == (char *)s + n, "%s: cee_str_end", op); CHECK(cee_get_state(s) == st && on_chain(st, s), "%s: not on the state's chain", op); }
static char gen(void) { return chance(30) ? " \t\r\n"[rnd(4)] : chance(5) ? (char)(1 + rnd(255)) : 'a' + rnd(4); }
static void text(size_t k) { n = k; for (size_t i = 0; i < k; i++) m[i] = gen(); m[k] = 0; }
static size_t somelen(void) { return chance(40) ? rnd(10) : chance(70) ? 40 + rnd(50) : chance(70) ? rnd(300) : rnd(3000); }
static char arg[5000], big[300000];
static int fmtinto(char *d, size_t k, int *kind, int *num, const char **fmt) { /* one of several formats */
  for (size_t i = 0; i < k; i++) arg[i] = gen(); arg[k] = 0; *num = (int)rnd64() >> rnd(32); *kind = rnd(4);
  *fmt = *kind == 0 ? "%s" : *kind == 1 ? "<%s|%d>" : *kind == 2 ? "%%%s%c" : "plain";
  return *kind == 0 ? sprintf(d, "%s", arg) : *kind == 1 ? sprintf(d, "<%s|%d>", arg, *num) : *kind == 2 ? sprintf(d, "%%%s%c", arg, 'x') : sprintf(d, "plain"); }
#define CALL(F, ...) (kind == 1 ? F(__VA_ARGS__, fmt, arg, num) : kind == 2 ? F(__VA_ARGS__, fmt, arg, 'x') : F(__VA_ARGS__, fmt, arg))
static void run(size_t k0, int ops) {
  st = cee_state_mk(1); struct cee_str *s; int kind, num; const char *fmt; size_t k = k0;
  switch (rnd(5)) {
    case 0: n = fmtinto(m, k, &kind, &num, &fmt); tr("mk kind %d len %zu;", kind, k); s = CALL(cee_str_mk, st); break;
    case 1: n = fmtinto(m, k, &kind, &num, &fmt); tr("mkv kind %d len %zu;", kind, k); s = kind == 1 ? mkv(fmt, arg, num) : kind == 2 ? mkv(fmt, arg, 'x') : mkv(fmt, arg); break;
    case 2: n = fmtinto(m, k, &kind, &num, &fmt); tr("mk_e kind %d len %zu;", kind, k); s = CALL(cee_str_mk_e, st, rnd(100)); break;
    case 3: m[n = 0] = 0; k = k0; tr("mk_e NULL %zu;", k); s = cee_str_mk_e(st, k, NULL); CHECK(capof(s) >= k, "capacity %zu for a string made for %zu", capof(s), k); break;
    default: text(k); tr("strn %zu;", k); { char *e = malloc(k ? k : 1); memcpy(e, m, k); s = cee_str_strn(st, e, k); free(e); } }
  same(s, "constructor");
  for (int q = 0; q < ops; q++) {
    long blocks = chain_check(st); struct cee_str *o = s; const char *op = "";
    switch (rnd(7)) {
      case 0: case 1: { int r = chance(70) ? 1 : rnd(100); char c = chance(3) ? 0 : gen(); op = "add"; tr("add %d times %d;", r, c); while (r--) { s = cee_str_add(s, c); if (c) { m[n++] = c; m[n] = 0; } same(s, op); } break; }
      case 2: case 3: k = somelen(); if (chance(40)) { size_t room = capof(s) - n; k = room > 3 ? room - 3 + rnd(6) : k; if (k > 4000) k = 7; } op = "catf"; { n += fmtinto(m + n, k, &kind, &num, &fmt); tr("catf kind %d len %zu;", kind, k); s = CALL(cee_str_catf, s); } break;
      case 4: k = somelen(); if (chance(40) && capof(s) < 4000) { k = capof(s) - 3 + rnd(6); } op = "replace"; n = fmtinto(m, k, &kind, &num, &fmt); tr("replace kind %d len %zu;", kind, k); s = CALL(cee_str_replace, s); break;
      case 5: op = "rtrim"; tr("rtrim;"); cee_str_rtrim(s); while (n && strchr(" \t\r\n", m[n - 1])) m[--n] = 0; break;
      default: op = "ltrim"; tr("ltrim;"); cee_str_ltrim(s); { size_t b = 0; while (b < n && strchr(" \t\r\n", m[b])) b++; memmove(m, m + b, n - b + 1); n -= b; } break; }
    same(s, op); long nb = chain_check(st); if (op[0] != 'a') CHECK(nb == blocks + (s != o), "%s: the chain went from %ld to %ld blocks", op, blocks, nb);
    if (chance(3)) { struct cee_str *t = cee_str_catf(s, NULL); CHECK(t == s, "catf NULL"); t = cee_str_replace(s, NULL); CHECK(t == s, "replace NULL"); same(s, "NULL format"); }
    if (n > 60000) break; }
  tr("del;"); cee_del(st); }
/* a text of more than 65535 characters */
static void blanks(size_t k) { h_begin(); tr("%zu blanks;", k); st = cee_state_mk(1); for (int w = 0; w < 3; w++) { size_t h = w == 1 ? 0 : k, t = w == 0 ? 0 : k; n = h + 5 + t; for (size_t i = 0; i < n; i++) m[i] = " \t\r\n"[rnd(4)]; memcpy(m + h, "a  \tb", 5); m[n] = 0;
    struct cee_str *s = cee_str_mk(st, "%s", m); cee_str_rtrim(s); n -= t; m[n] = 0; same(s, "rtrim"); cee_str_ltrim(s); n -= h; memmove(m, m + h, n + 1); same(s, "ltrim"); } cee_del(st); }
static void longtext(size_t k) { h_begin(); tr("text of %zu characters;", k); st = cee_state_mk(1); text(k); struct cee_str *s = chance(50) ? cee_str_strn(st, m, n) : cee_str_mk(st, "%s", m); same(s, "constructor");
  for (int i = 0; i < 70; i++) { s = cee_str_add(s, m[n++] = 'a' + i % 26); m[n] = 0; same(s, "add"); }
  memcpy(m + n, "<tail|7>", 9); n += 8; s = cee_str_catf(s, "<%s|%d>", "tail", 7); same(s, "catf"); s = cee_str_add(s, '!'); m[n++] = '!'; m[n] = 0; same(s, "add");
  cee_str_rtrim(s); while (n && strchr(" \t\r\n", m[n - 1])) m[--n] = 0; same(s, "rtrim"); memcpy(m, "short", 6); n = 5; s = cee_str_replace(s, "%s", "short"); same(s, "replace"); cee_del(st); }
static void exhaustive(void) { blanks(100); blanks(300); blanks(5000); blanks(66000); longtext(65535); longtext(65536); longtext(70000 + rnd(60000));
   for (int i = 0; i < 160; i++) for (int r = 0; r < 5; r++) { h_tn = 0; run(i, 2); }
  st = cee_state_mk(1); CHECK(TRAPS(cee_str_mk(st, NULL)), "a NULL format does not trap"); }
static void one_case(void) { run(somelen(), 1 + rnd(25)); }
