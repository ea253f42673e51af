/* C24: files: what is saved is the printed text, what is loaded is the value of the file's text; merging files.  All files are in a directory made in the run's own scratch directory */
#include "common.h"
#include "jsonref.h"
extern int cee_json_merge_all(char **json_files, int json_file_count, char *merged); extern struct cee_json *cee_json_load_from_buffer(char *, size_t); extern void cee_json_dprintf(int fd, struct cee_json *json, const char *fmt, ...);
static struct cee_state *st; static char dir[400]; static char path[8][500];
void __sanitizer_set_report_fd(void *);
static void mkscratch(void) { if (dir[0]) return; int e = dup(2), z = open("/dev/null", O_WRONLY); if (e >= 0 && z >= 0) { __sanitizer_set_report_fd((void *)(long)e); dup2(z, 2); close(z); } if (!getcwd(dir, 300)) _exit(2); strcat(dir, "/c24XXXXXX"); if (!mkdtemp(dir)) { printf("no scratch directory\n"); _exit(2); } for (int i = 0; i < 8; i++) sprintf(path[i], "%s/f%d%s", dir, i, i == 3 ? " %s" : ""); }
static void put(int i, const char *t, size_t n) { FILE *f = fopen(path[i], "w"); if (!f || fwrite(t, 1, n, f) != n) { printf("cannot write\n"); _exit(2); } fclose(f); }
static char *slurp(int i, size_t *n) { FILE *f = fopen(path[i], "r"); if (!f) return NULL; fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f); char *b = r_get(*n + 1); *n = fread(b, 1, *n, f); b[*n] = 0; fclose(f); return b; }
static int nfd(void) { int f = dup(0); close(f); return f; }
static bool same_f(int i, const char *t, size_t n) { size_t m; char *b = slurp(i, &m); return b && m == n && !memcmp(b, t, n); }
static void expect(struct cee_json *j, struct rv *v, const char *how) { CHECK(!!j == !!v, "%s: %s", how, j ? "a value for a malformed text" : "no value"); if (v) r_eq(v, j, true); }
static struct cee_json *load(int how, int i, bool force, int *line) {
  struct cee_json *j; int fd0 = nfd();
  if (how == 0) { int fd = open(path[i], O_RDONLY); j = cee_json_load_from_fileno(st, fd, force, line); CHECK(fcntl(fd, F_GETFD) >= 0, "the descriptor was closed"); close(fd); }
  else if (how == 1) { FILE *f = fopen(path[i], "r"); j = cee_json_load_from_FILE(st, f, force, line); fclose(f); }
  else j = cee_json_load_from_file_path(st, path[i], force, line);
  CHECK(nfd() == fd0, "a file stays open"); return j; }
static void loads(const char *t, size_t n) {
  put(1, t, n); tr("text of %zu %.600s; ", n, t);
  for (int force = 0; force < 2; force++) { int l = 0; bool odd = false; struct rv *w = r_parse(t, n, force, &l, &odd); if (odd) continue;
    for (int how = 0; how < 3; how++) { int line = -77; bool want = chance(70); tr("load %d force %d; ", how, force); struct cee_json *j = load(how, 1, force, want ? &line : NULL); expect(j, w, "load");
      if (want) CHECK(line == (w ? -77 : l), "line %d instead of %d", line, w ? -77 : l); }
    if (force) { struct cee_json *j = cee_json_load_from_buffer((char *)t, n); expect(j, w, "buffer"); if (j && (cee_json_to_object(j) || cee_json_to_array(j))) { struct cee_state *s = cee_get_state(j->value.object); CHECK(s != st, "a state of its own"); cee_del(s); } } } }
static void saves(struct rv *v) {
  struct cee_json *j = r_build(st, v);
  for (int f = 0; f < 2; f++) { char *b = NULL; size_t bs; ssize_t n = cee_json_asprint(st, &b, &bs, j, f); int fd0 = nfd();
    tr("save %d; ", f); int fd = open(path[0], O_WRONLY | O_CREAT | O_TRUNC, 0600); CHECK(cee_json_save_fileno(st, j, fd, f), "saving failed"); close(fd); CHECK(same_f(0, b, n), "the file is not the printed text %.200s", b);
    FILE *h = fopen(path[0], "w"); CHECK(cee_json_save(st, j, h, f), "saving failed"); fclose(h); CHECK(same_f(0, b, n), "the file is not the printed text %.200s", b);
    for (int how = 0; how < 3; how++) { int line = -77; expect(load(how, 0, true, &line), v, "saved and loaded"); CHECK(line == -77, "line %d without an error", line); }
    fd = open("/dev/full", O_WRONLY); if (fd >= 0) { CHECK(!cee_json_save_fileno(st, j, fd, f), "a save that cannot be written succeeds"); close(fd); h = fopen("/dev/full", "w"); CHECK(!cee_json_save(st, j, h, f), "a save that cannot be written succeeds"); fclose(h); }
    if (n > 4096) { int p[2]; if (!pipe2(p, O_NONBLOCK)) { int c = fcntl(p[1], F_SETPIPE_SZ, 4096); bool ok = cee_json_save_fileno(st, j, p[1], f); char *q = malloc(n + 1); ssize_t k = 0, r; while (k <= n && (r = read(p[0], q + k, n + 1 - k)) > 0) k += r; CHECK(ok == (k == n), "a pipe of %d took %zd of %zd bytes, saving returns %d", c, k, n, ok); free(q); close(p[0]); close(p[1]); } }
    fd = open(path[0], O_RDONLY); CHECK(!cee_json_save_fileno(st, j, fd, f), "saving to a file opened for reading succeeds"); close(fd); CHECK(nfd() == fd0, "a file stays open");
    if (f == 0) { fd = open(path[2], O_RDWR | O_CREAT | O_TRUNC, 0600); char *e = r_get(n + 64); int m = sprintf(e, "m 7 x:%s\n", b); cee_json_dprintf(fd, j, "m %d %s:", 7, "x"); CHECK(same_f(2, e, m), "dprintf wrote another text than %.200s", e);
      if (ftruncate(fd, 0)) ; lseek(fd, 0, SEEK_SET); cee_json_dprintf(fd, j, NULL); m = sprintf(e, "%s\n", b); CHECK(same_f(2, e, m), "dprintf without a message");
      if (ftruncate(fd, 0)) ; lseek(fd, 0, SEEK_SET); cee_json_dprintf(fd, NULL, "a%s", "b"); CHECK(same_f(2, "abnull\n", 7), "dprintf without a value"); close(fd); } } }
static bool merge(struct rv *v, const struct rv *w) {
  if (v->k != w->k) return false;
  if (v->k == R_ARR) { for (size_t i = 0; i < w->ne; i++) r_push(v, r_copy(w->e[i])); return true; }
  if (v->k != R_OBJ) return false;
  for (size_t i = 0; i < w->ne; i++) { long at = r_at(v, w->key[i]); if (at < 0 || !merge(v->e[at], w->e[i])) r_set(v, w->key[i], r_copy(w->e[i])); }
  return true; }
static int keycmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void unordered(const struct rv *v, struct cee_json *j) {       /* the order of keys after a merge is unspecified */
  if (v->k == R_OBJ) { struct cee_map *m = cee_json_to_object(j); CHECK(m && cee_map_size(m) == v->ne, "an object of %zu members", v->ne); for (size_t i = 0; i < v->ne; i++) { struct cee_json *x = cee_json_object_get(j, v->key[i]); CHECK(x, "member \"%.60s\" is missing", v->key[i]); unordered(v->e[i], x); } }
  else if (v->k == R_ARR) { CHECK(cee_json_to_array(j) && cee_json_array_length(j) == v->ne, "an array of %zu elements", v->ne); for (size_t i = 0; i < v->ne; i++) unordered(v->e[i], cee_json_array_get(j, i)); }
  else r_eq(v, j, true); }
static struct rv *object(void) { static const char *keys[] = { "a", "b", "c", "originals", "k" }; struct rv *o = r_mk(R_OBJ); for (int n = rnd(5); n > 0; n--) { struct rv *x = chance(40) ? r_mk(R_OBJ) : r_gen(2, 0); if (x->k == R_OBJ && chance(70)) r_set(x, keys[rnd(5)], r_gen(1, 0)); r_set(o, keys[rnd(5)], x); } return o; }
static void merges(void) {
  int n = 1 + rnd(4), bad = chance(12) ? rnd(n) : -1, kind = rnd(3); char *fs[5]; struct rv *m = NULL, *names = r_mk(R_ARR); int fd0 = nfd();
  for (int i = 0; i < n; i++) { struct rv *o = object(); r_on = 0; r_print(o, chance(50)); put(i, r_ob, r_on); tr("file %.400s; ", r_ob); fs[i] = path[i]; r_push(names, r_str(path[i])); if (m) merge(m, o); else m = o; }
  for (int i = 0; i < n; i++) if (i == bad) { if (kind == 0) unlink(path[i]); else put(i, kind == 1 ? "{\"a\":" : "{} 1", kind == 1 ? 5 : 4); }
  bool full = bad < 0 && chance(10), nodir = bad < 0 && !full && chance(10); char nd[500]; sprintf(nd, "%s/none/x", dir);
  unlink(path[7]); tr("merge %d bad %d/%d full %d nodir %d; ", n, bad, kind, full, nodir); int r = cee_json_merge_all(fs, n, full ? "/dev/full" : nodir ? nd : path[7]);
  if (bad >= 0 || full || nodir) { CHECK(r != 0, "merging that cannot be done returns 0"); CHECK(access(path[7], F_OK), "a result of a failed merge"); for (int f = fd0; f < fd0 + 12; f++) close(f); return; }
  CHECK(r == 0, "merging returns %d", r); for (int f = fd0; f < fd0 + 12; f++) close(f);
  r_set(m, "originals", names); size_t k; char *b = slurp(7, &k); CHECK(b, "no result"); int l; struct cee_json *q = NULL; CHECK(cee_json_parsex(st, b, k, &q, true, &l) == 0, "the result is no JSON: %.300s", b); unordered(m, q);
  for (int i = 0; i < n; i++) unlink(path[i]); }
static void many(int n) {         /* the same few files merged again and again */
  static const char *ts[] = { "{\"a\":1,\"k\":[]}", "{\"b\":2,\"a\":true}", "{\"k\":[3]}" }; char *fs[400]; struct rv *m = NULL, *names = r_mk(R_ARR); int l = 0, fd0 = nfd(); bool odd = false;
  for (int i = 0; i < 3; i++) put(i, ts[i], strlen(ts[i]));
  for (int i = 0; i < n; i++) { struct rv *o = r_parse(ts[i % 3], strlen(ts[i % 3]), true, &l, &odd); fs[i] = path[i % 3]; r_push(names, r_str(path[i % 3])); if (m) merge(m, o); else m = o; }
  unlink(path[7]); tr("merge %d files; ", n); int r = cee_json_merge_all(fs, n, path[7]); CHECK(r == 0, "merging %d files returns %d", n, r); for (int f = fd0; f < fd0 + 12; f++) close(f);
  r_set(m, "originals", names); size_t k; char *b = slurp(7, &k); CHECK(b, "no result"); struct cee_json *q = NULL; CHECK(cee_json_parsex(st, b, k, &q, true, &l) == 0, "the result is no JSON: %.300s", b); unordered(m, q); for (int i = 0; i < 3; i++) unlink(path[i]); }
static void begin(void) { mkscratch(); h_tn = 0; st = cee_state_mk(10); }
static void end(bool live) { cee_del(st); if (live) CHECK(h_live == 0, "%ld blocks left", h_live); else h_live = 0; r_reset(); }
static void exhaustive(void) {
  static const char *ts[] = { "", " ", "1", "{}", "[]", "{} x", "[1]\n\n", "[1]\n\n]", "\n\n{\"a\"\n:}", "null", "\"a\"", "\"a", "{\"a\":1,}", "1 2", "[1,2" };
  for (size_t i = 0; i < sizeof ts / sizeof *ts; i++) { begin(); char *t = r_dup(ts[i], strlen(ts[i])); loads(t, strlen(t)); end(false); }
  for (size_t n = 4090; n < 4102; n++) { begin(); char *t = r_get(n + 1); memset(t, ' ', n); t[0] = '['; t[n - 1] = ']'; t[n] = 0; loads(t, n); struct rv *v = r_mk(R_STR); v->n = n - 2; v->s = r_get(n); memset(v->s, 'x', v->n); v->s[v->n] = 0; saves(v); end(false); }
  static const size_t ls[] = { 8191, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 200000 }; for (int i = 0; i < 9; i++) { size_t n = ls[i]; begin(); h_begin(); char *t = r_get(n + 1); memset(t, 'x', n); t[0] = '"'; t[n - 1] = '"'; t[n] = 0; loads(t, n); struct rv *v = r_mk(R_STR); v->n = n - 2; v->s = r_get(n); memset(v->s, 'x', v->n); v->s[v->n] = 0; saves(v); end(false); } h_begin();
  begin(); mkscratch(); CHECK(TRAPS(cee_json_load_from_file_path(st, "/tmp/c24/none/x", true, NULL)), "a file that cannot be opened is loaded"); end(false);
  static const int ns[] = { 20, 127, 128, 129, 255, 256, 257, 300 }; for (int i = 0; i < 8; i++) { begin(); h_begin(); many(ns[i]); end(false); } }
static void one_case(void) {
  begin(); int w = rnd(10);
  if (w < 4) { saves(r_gen(chance(85) ? 3 : 5, 0)); end(true); }
  else if (w < 8) { struct rv *v = r_gen(3, 0); r_on = 0; r_print(v, 1); size_t n = r_on; char *t = r_get(n + 40); memcpy(t, r_ob, n); t[n] = 0;
    if (chance(30)) { const char *tail[] = { " ", "\n", " x", "{}", "]", ",", "\n1" }; strcpy(t + n, tail[rnd(7)]); n = strlen(t); }
    if (chance(30) && n) { size_t at = rnd(n); if (chance(50)) { memmove(t + at, t + at + 1, n - at); n--; } else t[at] = "{}[],:\"1a\n"[rnd(10)]; }
    char *c = malloc(n + 1); memcpy(c, t, n + 1); loads(c, n); free(c); end(false); }
  else { merges(); end(false); } }
