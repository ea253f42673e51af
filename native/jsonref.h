/* Reference JSON: tokens, values, a recursive-descent parser and a printer written from the property texts, independent of the code */
enum { R_UNDEF, R_NULL, R_TRUE, R_FALSE, R_DBL, R_I64, R_U64, R_STR, R_STRN, R_ARR, R_OBJ, R_BLOB };
static const char *rkn[] = { "undefined", "null", "true", "false", "double", "i64", "u64", "string", "strn", "array", "object", "blob" };
struct rv { int k; double d; int64_t i; uint64_t u; char *s; size_t n; struct rv **e; char **key; size_t ne, cap; };
static struct r_chunk { struct r_chunk *prev; size_t used, size; char b[]; } *r_mem;      /* an arena, emptied after every case */
static void *r_get(size_t n) { n = (n + 15) & ~(size_t)15; if (!r_mem || r_mem->used + n > r_mem->size) { size_t z = n > 60000 ? n : 60000; struct r_chunk *c = malloc(sizeof *c + z); c->prev = r_mem; c->used = 0; c->size = z; r_mem = c; }
  void *p = r_mem->b + r_mem->used; r_mem->used += n; memset(p, 0, n); return p; }
static void r_reset(void) { while (r_mem && r_mem->prev) { struct r_chunk *c = r_mem->prev; free(r_mem); r_mem = c; } if (r_mem) r_mem->used = 0; }
static char *r_dup(const char *s, size_t n) { char *p = r_get(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
static struct rv *r_mk(int k) { struct rv *v = r_get(sizeof *v); v->k = k; return v; }
static struct rv *r_str(const char *s) { struct rv *v = r_mk(R_STR); v->n = strlen(s); v->s = r_dup(s, v->n); return v; }
static void r_room(struct rv *v) { if (v->ne == v->cap) { size_t c = v->cap ? 2 * v->cap : 4; struct rv **e = r_get(c * sizeof *e); char **k = r_get(c * sizeof *k); if (v->ne) { memcpy(e, v->e, v->ne * sizeof *e); memcpy(k, v->key, v->ne * sizeof *k); } v->e = e; v->key = k; v->cap = c; } }
static void r_insert(struct rv *v, size_t at, struct rv *x) { r_room(v); memmove(v->e + at + 1, v->e + at, (v->ne - at) * sizeof *v->e); memmove(v->key + at + 1, v->key + at, (v->ne - at) * sizeof *v->key); v->e[at] = x; v->key[at] = NULL; v->ne++; }
static void r_push(struct rv *v, struct rv *x) { r_insert(v, v->ne, x); }
static void r_del(struct rv *v, size_t at) { memmove(v->e + at, v->e + at + 1, (v->ne - at - 1) * sizeof *v->e); memmove(v->key + at, v->key + at + 1, (v->ne - at - 1) * sizeof *v->key); v->ne--; }
static long r_at(struct rv *o, const char *k) { for (size_t i = 0; i < o->ne; i++) if (!strcmp(o->key[i], k)) return i; return -1; }
static void r_set(struct rv *o, const char *k, struct rv *x) { long i = r_at(o, k); if (i >= 0) o->e[i] = x; else { r_push(o, x); o->key[o->ne - 1] = r_dup(k, strlen(k)); } }
static struct rv *r_copy(const struct rv *v) { struct rv *c = r_mk(v->k); *c = *v; c->e = NULL; c->key = NULL; c->ne = c->cap = 0; if (v->s) c->s = r_dup(v->s, v->n); for (size_t i = 0; i < v->ne; i++) { r_push(c, r_copy(v->e[i])); if (v->key[i]) c->key[i] = r_dup(v->key[i], strlen(v->key[i])); } return c; }
static bool r_same(const struct rv *a, const struct rv *b) { if (a->k != b->k || a->ne != b->ne || a->d != b->d || a->i != b->i || a->u != b->u || a->n != b->n || (a->n && memcmp(a->s, b->s, a->n))) return false;
  for (size_t i = 0; i < a->ne; i++) { if (a->k == R_OBJ && strcmp(a->key[i], b->key[i])) return false; if (!r_same(a->e[i], b->e[i])) return false; } return true; }

/* ---- Unicode */
static size_t r_enc(uint32_t c, char *o) { if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xc0 + c / 64; o[1] = 0x80 + c % 64; return 2; }
  if (c < 0x10000) { o[0] = 0xe0 + c / 4096; o[1] = 0x80 + c / 64 % 64; o[2] = 0x80 + c % 64; return 3; } o[0] = 0xf0 + c / 262144; o[1] = 0x80 + c / 4096 % 64; o[2] = 0x80 + c / 64 % 64; o[3] = 0x80 + c % 64; return 4; }
static bool r_scalar(uint32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }
/* Table 3-7 of the Unicode standard */
static size_t r_seq(const unsigned char *s, size_t n) {
  if (!n) return 0; unsigned a = s[0]; if (a < 0x80) return 1; if (a < 0xc2 || a > 0xf4) return 0;
  size_t l = a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4; if (n < l) return 0;
  unsigned lo = a == 0xe0 ? 0xa0 : a == 0xf0 ? 0x90 : 0x80, hi = a == 0xed ? 0x9f : a == 0xf4 ? 0x8f : 0xbf;
  if (s[1] < lo || s[1] > hi) return 0; for (size_t i = 2; i < l; i++) if (s[i] < 0x80 || s[i] > 0xbf) return 0; return l; }
static bool r_utf8(const char *s, size_t n) { for (size_t i = 0; i < n;) { size_t l = r_seq((const unsigned char *)s + i, n - i); if (!l) return false; i += l; } return true; }
/* the text denoted by a string body; -1 if there is none */
static long r_hex4(const char *s, size_t n) { if (n < 4) return -1; long v = 0; for (int i = 0; i < 4; i++) { const char *h = "0123456789abcdef", *q = s[i] ? strchr(h, s[i] >= 'A' && s[i] <= 'F' ? s[i] + 32 : s[i]) : NULL; if (!q) return -1; v = v * 16 + (q - h); } return v; }
static long r_unescape(const char *b, size_t n, char *out) {
  bool esc = false; size_t j = 0;
  for (size_t i = 0; i < n; i++) { unsigned char c = b[i]; if (c < 0x20) return -1;
    if (c != '\\') { out[j++] = c; continue; }
    esc = true; if (++i >= n) return -1; c = b[i];
    const char *from = "\"\\/bfnrt", *to = "\"\\/\b\f\n\r\t", *q = c ? strchr(from, c) : NULL;
    if (q) { out[j++] = to[q - from]; continue; }
    if (c != 'u') return -1;
    long x = r_hex4(b + i + 1, n - i - 1); if (x < 0) return -1; i += 4;
    if (x >= 0xdc00 && x <= 0xdfff) return -1;
    if (x >= 0xd800 && x <= 0xdbff) { if (n - i - 1 < 6 || b[i + 1] != '\\' || b[i + 2] != 'u') return -1; long y = r_hex4(b + i + 3, n - i - 3); if (y < 0xdc00 || y > 0xdfff) return -1; i += 6; x = 0x10000 + (x - 0xd800) * 1024 + (y - 0xdc00); }
    j += r_enc(x, out + j); }
  if (esc && !r_utf8(out, j)) return -1;
  out[j] = 0; return j; }

/* ---- tokens of text t[0..n), t[n] == 0 */
enum { RT_EOF = 300, RT_ERR, RT_STR, RT_NUM, RT_TRUE, RT_FALSE, RT_NULL, RT_ODD /* a comment: never a token */ };
struct rtok { size_t pos; int line; struct rv *v; };
static bool r_dg(char c) { return c >= '0' && c <= '9'; }
static int r_token(const char *t, size_t n, struct rtok *k) {
  while (k->pos < n && t[k->pos] && strchr(" \t\r\n", t[k->pos])) { if (t[k->pos] == '\n' || t[k->pos] == '\r') k->line++; k->pos++; }
  if (k->pos >= n) return RT_EOF;
  const char *s = t + k->pos; char c = *s;
  if (c && strchr("[]{},:", c)) { k->pos++; return c; }
  if (c == '/' && s[1] == '/') return RT_ODD;
  static const char *lit[] = { "true", "false", "null" }; static const int lt[] = { RT_TRUE, RT_FALSE, RT_NULL };
  for (int i = 0; i < 3; i++) if (!strncmp(s, lit[i], strlen(lit[i]))) { k->pos += strlen(lit[i]); return lt[i]; }
  if (c == '"') { size_t e = 1; while (s[e] && s[e] != '"') { if (s[e] == '\\' && s[e + 1]) e++; e++; }
    if (s[e] != '"') return RT_ERR; char *o = r_get(e + 8); long l = r_unescape(s + 1, e - 1, o); if (l < 0) return RT_ERR;
    k->v = r_mk(R_STR); k->v->s = o; k->v->n = strlen(o); k->pos += e + 1; return RT_STR; }
  size_t e = 0, d0; bool neg = c == '-', whole = true; if (neg) e++; d0 = e; if (!r_dg(s[e])) return RT_ERR; while (r_dg(s[e])) e++;
  size_t d1 = e; bool expo = false;
  if (s[e] == '.') { whole = false; e++; if (!r_dg(s[e])) return RT_ERR; while (r_dg(s[e])) e++; }
  if (s[e] == 'e' || s[e] == 'E') { expo = true; e++; if (s[e] == '+' || s[e] == '-') e++; if (!r_dg(s[e])) return RT_ERR; while (r_dg(s[e])) e++; }
  if (whole && !expo && d1 - d0 > 1 && s[d0] == '0') return RT_ERR;
  k->v = r_mk(R_DBL);
  if (whole && !expo) { unsigned __int128 m = 0; bool big = false; for (size_t i = d0; i < d1; i++) { m = m * 10 + (s[i] - '0'); if (m > ~(uint64_t)0) { big = true; break; } }
    if (!big && !neg && m <= INT64_MAX) { k->v->k = R_I64; k->v->i = m; } else if (!big && neg && m <= (uint64_t)INT64_MAX + 1) { k->v->k = R_I64; k->v->i = (int64_t)(0 - (uint64_t)m); } else if (!big && !neg) { k->v->k = R_U64; k->v->u = m; } }
  if (k->v->k == R_DBL) k->v->d = strtod(s, NULL);
  k->pos += e; return RT_NUM; }

/* ---- documents: a value, trailing commas tolerated, at most 511 levels */
struct rp { const char *t; size_t n; struct rtok k; int tok; bool odd; };
static void r_next(struct rp *p) { p->tok = r_token(p->t, p->n, &p->k); if (p->tok == RT_ODD) { p->odd = true; p->tok = RT_ERR; } }
static struct rv *r_value(struct rp *p, int depth) {      /* the current token starts the value; leaves the last token of it current */
  switch (p->tok) {
  case RT_STR: case RT_NUM: return p->k.v; case RT_TRUE: return r_mk(R_TRUE); case RT_FALSE: return r_mk(R_FALSE); case RT_NULL: return r_mk(R_NULL);
  case '[': { if (depth >= 511) return NULL; struct rv *v = r_mk(R_ARR);
    for (;;) { r_next(p); if (p->tok == ']') return v; struct rv *x = r_value(p, depth + 1); if (!x) return NULL; r_push(v, x); r_next(p); if (p->tok == ']') return v; if (p->tok != ',') return NULL; } }
  case '{': { if (depth >= 511) return NULL; struct rv *v = r_mk(R_OBJ);
    for (;;) { r_next(p); if (p->tok == '}') return v; if (p->tok != RT_STR) return NULL; char *key = p->k.v->s; r_next(p); if (p->tok != ':') return NULL; r_next(p);
      struct rv *x = r_value(p, depth + 1); if (!x) return NULL; r_set(v, key, x); r_next(p); if (p->tok == '}') return v; if (p->tok != ',') return NULL; } }
  default: return NULL; } }
static struct rv *r_parse(const char *t, size_t n, bool eof, int *line, bool *odd) {
  struct rp p = { t, n }; r_next(&p); struct rv *v = r_value(&p, 0); if (v && eof) { r_next(&p); if (p.tok != RT_EOF) v = NULL; } *line = p.k.line; *odd = p.odd; return v; }

/* ---- comparison with the real thing */
static void r_eq(const struct rv *v, struct cee_json *j, bool numeric) {
  CHECK(j != NULL, "no value where a %s is expected", rkn[v->k]);
  if (numeric && (v->k == R_DBL || v->k == R_I64 || v->k == R_U64)) {      /* numbers by value: 3.0 may come back as the integer 3 */
    double d; int64_t i; uint64_t u; bool ok = false;
    if (!cee_json_to_i64x(j, &i)) ok = v->k == R_I64 ? i == v->i : v->k == R_DBL ? (double)i == v->d : i >= 0 && (uint64_t)i == v->u;
    else if (!cee_json_to_u64x(j, &u)) ok = v->k == R_U64 ? u == v->u : v->k == R_DBL ? (double)u == v->d : false;
    else if (!cee_json_to_doublex(j, &d)) ok = v->k == R_DBL ? d == v->d : v->k == R_U64 ? d == (double)v->u && false : false;
    CHECK(ok, "number %s (%.17g %" PRId64 " %" PRIu64 ") came back as another", rkn[v->k], v->d, v->i, v->u); return; }
  switch (v->k) {
  case R_UNDEF: CHECK(j == cee_json_undefined(), "undefined"); break; case R_NULL: CHECK(j == cee_json_null(), "null, kind %d", j->t); break;
  case R_TRUE: CHECK(j == cee_json_true(), "true, kind %d", j->t); break; case R_FALSE: CHECK(j == cee_json_false(), "false, kind %d", j->t); break;
  case R_DBL: { double d; CHECK(!cee_json_to_doublex(j, &d), "double expected, kind %d", j->t); CHECK(!memcmp(&d, &v->d, 8), "double %.17g is %.17g", v->d, d); break; }
  case R_I64: { int64_t i; CHECK(!cee_json_to_i64x(j, &i), "i64 expected, kind %d", j->t); CHECK(i == v->i, "i64 %" PRId64 " is %" PRId64, v->i, i); break; }
  case R_U64: { uint64_t u; CHECK(!cee_json_to_u64x(j, &u), "u64 expected, kind %d", j->t); CHECK(u == v->u, "u64 %" PRIu64 " is %" PRIu64, v->u, u); break; }
  case R_STR: { struct cee_str *s = cee_json_to_str(j); CHECK(s != NULL, "string expected, kind %d", j->t); CHECK(!strcmp(s->_, v->s), "string \"%.200s\" is \"%.200s\"", v->s, s->_); break; }
  case R_STRN: { char *p; size_t n; CHECK(cee_json_to_strn(j, &p, &n), "strn expected"); CHECK(n == v->n && !memcmp(p, v->s, n), "strn"); break; }
  case R_BLOB: { struct cee_block *b = cee_json_to_blob(j); CHECK(b && cee_block_size(b) == v->n && !memcmp(b->_, v->s, v->n), "blob"); break; }
  case R_ARR: { struct cee_list *l = cee_json_to_array(j); CHECK(l != NULL, "array expected, kind %d", j->t); CHECK(cee_list_size(l) == v->ne, "array of %zu elements has %zu", v->ne, cee_list_size(l)); CHECK(cee_json_array_length(j) == v->ne, "array_length"); for (size_t i = 0; i < v->ne; i++) r_eq(v->e[i], cee_json_array_get(j, i), numeric); break; }
  case R_OBJ: { struct cee_map *m = cee_json_to_object(j); CHECK(m != NULL, "object expected, kind %d", j->t); CHECK(cee_map_size(m) == v->ne, "object of %zu members has %zu", v->ne, cee_map_size(m));
    struct cee_list *ks = cee_map_insertion_ordered_keys(m); CHECK(cee_list_size(ks) == v->ne, "%zu ordered keys of %zu members", cee_list_size(ks), v->ne);
    for (size_t i = 0; i < v->ne; i++) { CHECK(!strcmp(ks->a[i], v->key[i]), "key %zu is \"%.100s\" instead of \"%.100s\"", i, (char *)ks->a[i], v->key[i]); r_eq(v->e[i], cee_json_object_get(j, v->key[i]), numeric); }
    cee_del(ks); break; } } }

/* ---- random texts and values */
static const char *r_txts[] = { "", "a", "b", "ab", "key", "x\ty", "\"q\"", "back\\slash", "\x01\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "/", "\b\f\n\r\t", "error", "null", "0", "%d%s" };
static char *r_text(void) { if (chance(70)) { const char *s = r_txts[rnd(sizeof r_txts / sizeof *r_txts)]; return r_dup(s, strlen(s)); }
  size_t n = chance(85) ? rnd(10) : rnd(300); char *p = r_get(4 * n + 1), *q = p; for (size_t i = 0; i < n; i++) { uint32_t c = chance(60) ? 0x20 + rnd(0x5f) : chance(40) ? 1 + rnd(0x1f) : chance(50) ? rnd(0x800) : rnd(0x110000); if (!c || !r_scalar(c)) c = 'z'; q += r_enc(c, q); } *q = 0; return p; }
static double r_dbl(void) { static const double e[] = { 0, -0.0, 1, -1, 0.1, 1e300, -1e-300, 3.0, 1e15, 1e16, 123456789012345678.0, 5e-324, 1.7976931348623157e308, 0.30000000000000004, 1e21, 9007199254740993.0, 4294967296.5, -2.5 };
  if (chance(50)) return e[rnd(18)]; for (;;) { double d; uint64_t b = rnd64(); if (chance(50)) return (double)(int64_t)(b >> rnd(64)) / (1 << rnd(20)); memcpy(&d, &b, 8); if (d == d && d - d == 0) return d; } }
static uint64_t r_int(void) { static const uint64_t e[] = { 0, 1, 9, 10, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL, 0x8000000000000001ULL, 999999999999999999ULL }; return chance(50) ? e[rnd(12)] : rnd64() >> rnd(64); }
/* kinds: 0 what a text can denote, 1 everything */
static struct rv *r_gen(int depth, int all) {
  int k; do k = chance(depth > 0 ? 45 : 0) ? R_ARR + rnd(2) : rnd(R_BLOB + 1); while ((!all && (k == R_UNDEF || k == R_STRN || k == R_BLOB)) || (depth <= 0 && (k == R_ARR || k == R_OBJ) && chance(80)));
  struct rv *v = r_mk(k); size_t n;
  switch (k) {
  case R_DBL: v->d = r_dbl(); break; case R_I64: v->i = r_int(); if (chance(30)) v->i = 0 - (uint64_t)v->i; break; case R_U64: v->u = r_int(); if (!all && v->u <= INT64_MAX) v->u = ~v->u; break;
  case R_STR: v->s = r_text(); v->n = strlen(v->s); break;
  case R_STRN: v->s = r_text(); v->n = strlen(v->s); if (all > 1 && v->n && chance(40)) v->s[rnd(v->n)] = 0; break;
  case R_BLOB: v->s = r_text(); v->n = strlen(v->s); break;
  case R_ARR: n = depth <= 0 ? 0 : chance(90) ? rnd(5) : rnd(40); while (n--) r_push(v, r_gen(depth - 1, all)); break;
  case R_OBJ: n = depth <= 0 ? 0 : chance(90) ? rnd(5) : rnd(40); while (n--) { struct rv *x = r_gen(depth - 1, all); r_set(v, r_text(), x); } break; }
  return v; }
/* build it with the library's constructors */
static struct cee_json *r_build(struct cee_state *st, struct rv *v) {
  switch (v->k) {
  case R_UNDEF: return cee_json_undefined(); case R_NULL: return cee_json_null(); case R_TRUE: return cee_json_true(); case R_FALSE: return cee_json_false();
  case R_DBL: return cee_json_double_mk(st, v->d); case R_I64: return cee_json_i64_mk(st, v->i); case R_U64: return cee_json_u64_mk(st, v->u);
  case R_STR: return cee_json_str_mk(st, cee_str_mk(st, "%s", v->s)); case R_STRN: return cee_json_strn_mk(st, v->s, v->n); case R_BLOB: return cee_json_blob_mk(st, v->s, v->n);
  case R_ARR: { struct cee_json *a = cee_json_array_mk(st, rnd(4)); for (size_t i = 0; i < v->ne; i++) cee_json_array_append(a, r_build(st, v->e[i])); return a; }
  default: { struct cee_json *o = cee_json_object_mk(st); for (size_t i = 0; i < v->ne; i++) cee_json_object_set(o, v->key[i], r_build(st, v->e[i])); return o; } } }
/* ---- output text */
static char *r_ob; static size_t r_on, r_oc;
static void r_put(const char *s, size_t n) { while (r_on + n + 1 > r_oc) { r_oc = r_oc ? 2 * r_oc : 4096; r_ob = realloc(r_ob, r_oc); } memcpy(r_ob + r_on, s, n); r_on += n; r_ob[r_on] = 0; }
static void r_puts(const char *s) { r_put(s, strlen(s)); }
static void r_quote(const char *s, size_t n, int style) {      /* style 0: the shortest escapes only where needed; 1: any escape at random */
  r_puts("\""); for (size_t i = 0; i < n;) { unsigned char c = s[i]; char b[24]; const char *from = "\"\\\b\f\n\r\t", *to = "\"\\bfnrt", *q = c ? strchr(from, c) : NULL;
    if (style && chance(20)) { size_t l = r_seq((const unsigned char *)s + i, n - i); uint32_t cp = l == 1 ? c : l == 2 ? (c & 31) << 6 | (s[i + 1] & 63) : l == 3 ? (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63) : l == 4 ? (c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63) : 0;
      if (l) { const char *f = chance(50) ? "\\u%04x" : "\\u%04X"; if (cp >= 0x10000) { sprintf(b, f, 0xd800 + (cp - 0x10000) / 1024); r_puts(b); sprintf(b, f, 0xdc00 + (cp - 0x10000) % 1024); } else sprintf(b, f, cp); r_puts(b); i += l; continue; } }
    if (q) { b[0] = '\\'; b[1] = to[q - from]; r_put(b, 2); } else if (c < 32) { sprintf(b, "\\u%04x", c); r_puts(b); } else if (style && c == '/' && chance(50)) r_puts("\\/"); else r_put(s + i, 1); i++; } r_puts("\""); }
static void r_sp(int style) { if (style) while (chance(25)) r_put(" \t\n\r" + rnd(4), 1); }
static void r_print(const struct rv *v, int style) {
  char b[64]; r_sp(style);
  switch (v->k) {
  case R_UNDEF: r_puts("undefined"); break; case R_NULL: r_puts("null"); break; case R_TRUE: r_puts("true"); break; case R_FALSE: r_puts("false"); break;
  case R_DBL: sprintf(b, "%.17g", v->d); if (!strpbrk(b, ".e")) strcat(b, chance(50) ? ".0" : "e0"); r_puts(b); break;
  case R_I64: sprintf(b, "%" PRId64, v->i); r_puts(b); break; case R_U64: sprintf(b, "%" PRIu64, v->u); r_puts(b); break;
  case R_STR: case R_STRN: r_quote(v->s, v->n, style); break; case R_BLOB: sprintf(b, "\"blob:%zu bytes\"", v->n); r_puts(b); break;
  case R_ARR: case R_OBJ: r_puts(v->k == R_ARR ? "[" : "{"); for (size_t i = 0; i < v->ne; i++) { if (i) { r_sp(style); r_puts(","); } if (v->k == R_OBJ) { r_sp(style); r_quote(v->key[i], strlen(v->key[i]), style); r_sp(style); r_puts(":"); } r_print(v->e[i], style); } r_sp(style); if (style && v->ne && chance(8)) { r_puts(","); r_sp(style); } r_puts(v->k == R_ARR ? "]" : "}"); break; }
  r_sp(style); }
