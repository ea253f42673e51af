/* C15: string bodies against a table-driven UTF-8 and escape oracle; every code point, every short byte sequence.
   The decoder is reached through the parser; the text lies in a block of exactly its size. */
#include "common.h"
#include "jsonref.h"
static struct cee_state *st; static unsigned uses;
static void fresh(void) { if (st && ++uses > 200) { cee_del(st); st = NULL; uses = 0; } if (!st) st = cee_state_mk(2); }
static char *tb; static size_t tn;
static void body(const char *b, size_t n) {
  fresh(); char *t = malloc(n + 3); t[0] = '"'; memcpy(t + 1, b, n); t[n + 1] = '"'; t[n + 2] = 0;
  h_tn = h_tn > 30000 ? 0 : h_tn; tr("body %zu:", n); for (size_t i = 0; i < n && i < 120; i++) tr("%02x", (unsigned char)b[i]); tr("; ");
  int line = 0, l2 = 0; bool odd; struct cee_json *j = (void *)5; int r = cee_json_parsex(st, t, n + 2, &j, true, &line);
  struct rv *v = r_parse(t, n + 2, true, &l2, &odd);
  CHECK((r == 0) == (v != NULL), "string body %s", r ? "rejected, but it denotes a text" : "accepted, but it is malformed");
  if (v) { if (v->k == R_STR) { struct cee_str *s = cee_json_to_str(j); CHECK(s, "not a string"); size_t m = strlen(v->s); for (size_t i = 0; i <= m; i++) CHECK(s->_[i] == v->s[i], "byte %zu of the text is %02x instead of %02x", i, (unsigned char)s->_[i], (unsigned char)v->s[i]); } }
  else CHECK(j == NULL, "rejected, but a value is returned");
  for (size_t i = 0; i < n; i++) CHECK(t[i + 1] == b[i], "the input text was changed");
  free(t); r_reset(); }
static void longbody(size_t);
static void exhaustive(void) {
  static const size_t lg[] = { 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 32768, 65536, 70000 }; for (int i = 0; i < 17; i++) longbody(lg[i]); h_begin();
  static char b[40000]; size_t n;
  for (uint32_t c0 = 0; c0 < 0x110000; c0 += 512) {         /* every scalar value: raw after an escape; as \u escapes; raw without escapes */
    for (int how = 0; how < 3; how++) { n = 0; if (how == 0) { b[n++] = '\\'; b[n++] = 'n'; }
      for (uint32_t c = c0; c < c0 + 512; c++) { if (!r_scalar(c) || !c || (how != 1 && (c < 32 || c == '"' || c == '\\'))) continue;
        if (how != 1) n += r_enc(c, b + n); else if (c < 0x10000) n += sprintf(b + n, c & 1 ? "\\u%04x" : "\\u%04X", c); else n += sprintf(b + n, "\\u%04X\\u%04x", 0xd800 + (c - 0x10000) / 1024, 0xdc00 + (c - 0x10000) % 1024); }
      body(b, n); } }
  b[0] = '\\'; b[1] = 't';
  for (int a = 0x80; a < 256; a++) { b[2] = a; body(b, 3); for (int c = 0; c < 256; c += (c & 15) == 1 ? 13 : 1) { if (c == '"' || c == '\\') continue; b[3] = c; body(b, 4); } }   /* two bytes: the low and high ends of every row */
  static const unsigned char ed[] = { 0x20, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff };
  for (int a = 0xe0; a < 0xf8; a++) for (int x = 0; x < 10; x++) for (int y = 0; y < 10; y++) { b[2] = a; b[3] = ed[x]; b[4] = ed[y]; body(b, 5); if (a >= 0xf0) for (int z = 0; z < 10; z++) { b[5] = ed[z]; body(b, 6); if (z == 2) { b[6] = 'A'; body(b, 7); } } }
  static const char *e[] = { "\\u0041", "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\u 123", "\\u+123", "\\u0x1", "\\ud800", "\\udc00", "\\ud83d\\ude00", "\\ud83d\\u0041", "\\ud83d\\n", "\\ud83dx", "\\ud83d\\ud83d\\ude00", "\\udbff\\udfff", "\\uD800\\uDC00", "\\ud800\\udbff", "\\ude00\\ud83d", "\\ud83d\\", "\\", "\\x", "\\a", "\\0", "\\'", "\\v", "\\U0041", "\\\n", "a\nb", "\x1f", "\x7f", "\\\"", "\\/", "\\b\\f\\n\\r\\t", "\\u0000x", "\\ud83d\\ude0", "\\u00e9\xc3", "\xc3", "\xc3\\n", "\\ud83d\"\\ude00" };
  for (size_t i = 0; i < sizeof e / sizeof *e; i++) { body(e[i], strlen(e[i])); for (size_t k = 0; k < sizeof e / sizeof *e; k++) { n = sprintf(b, "%s%s", e[i], e[k]); body(b, n); n = sprintf(b, "z%sy%sx", e[i], e[k]); body(b, n); } b[0] = '\\'; b[1] = 't'; } }
/* long bodies: plain, with an escape, a multi-byte character or a malformed byte at chosen places */
static void longbody(size_t m) {
  static const char *at[] = { "", "\\n", "\\u0041", "\\ud83d\\ude00", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x80", "\\ud83d", "\x1f", "\\\"" }; char *b = malloc(m + 40);
  for (int i = 0; i < 10; i++) for (int j = 0; j < 10; j++) for (int p = 0; p < 3; p++) { h_begin(); memset(b, 'q', m); size_t n = m, l = strlen(at[j]), k = strlen(at[i]); size_t pos = p == 0 ? 0 : p == 1 ? m / 2 : m; memmove(b + pos + l, b + pos, n - pos); memcpy(b + pos, at[j], l); n += l; memmove(b + k, b, n); memcpy(b, at[i], k); n += k; tr("long body %zu '%s' first, '%s' at %zu;", m, at[i], at[j], pos); body(b, n); }
  free(b); }
static void one_case(void) {
  static char b[6000]; size_t n = 0, m = chance(80) ? rnd(10) : rnd(200);
  for (size_t i = 0; i < m; i++) switch (rnd(12)) {
    case 0: n += sprintf(b + n, "\\u%04x", rnd(0x10000)); break; case 1: n += sprintf(b + n, "\\u%04X", 0xd800 + rnd(0x400)); if (chance(85)) n += sprintf(b + n, "\\u%04x", 0xdc00 + rnd(0x400)); break;
    case 2: b[n++] = '\\'; b[n++] = "\"\\/bfnrtu"[rnd(chance(90) ? 8 : 9)]; break; case 3: if (chance(10)) { b[n++] = '\\'; b[n++] = rnd(256); } break;
    case 4: case 5: { uint32_t c = chance(30) ? rnd(0x800) : chance(50) ? rnd(0x10000) : rnd(0x110000); if (c > 31 && c != '"' && c != '\\' && (r_scalar(c) || chance(5))) n += r_enc(c, b + n); break; }
    case 6: if (chance(10)) b[n++] = rnd(256); break; case 7: if (chance(20)) b[n++] = 0x80 + rnd(128); break; case 8: if (chance(3)) b[n++] = rnd(32); break;
    default: b[n++] = 'a' + rnd(26); }
  if (n && chance(5)) n -= rnd(n < 5 ? n : 5);
  body(b, n); }
