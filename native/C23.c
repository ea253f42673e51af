/* C23: SQL statements with bound parameters on an in-memory database, against a reference of what each binding denotes */
#include "common.h"
#include "jsonref.h"
#include <sqlite3.h>
#include "cee-sqlite3.h"
static struct cee_state *st; static sqlite3 *db; static struct cee_sqlite3 cs;
/* one SQL value */
struct sv_ { int t; int64_t i; const char *s; size_t n; };
enum { V_NULL, V_INT, V_TEXT, V_BLOB };
static char *names[] = { "@a", "@b", "@c", "@d", "@e", "@f", ":g", "$h", "@ab", "@a1" }; enum { NN = 10 };
static char *cols[] = { "a", "b", "c", "d", "e", "f", "g", "h", "ab", "a1" };
static char *texts[] = { "", "x", "it's", "\xc3\xa9t\xc3\xa9", "'; drop table t; --", "long text with several words", "%s%d", "@a" };
static struct cee_sqlite3_bind_info info[NN + 1]; static struct cee_sqlite3_bind_data data[NN + 1]; static int ninfo; static bool hasdata;
static int64_t rint_(void) { switch (rnd(5)) { case 0: return (int)rnd(20) - 10; case 1: return INT_MAX; case 2: return INT_MIN; case 3: return (int64_t)rnd64(); default: return rnd(100000); } }
static void gdata(struct cee_sqlite3_bind_data *d, int type) {
  d->i = rint_(); d->i64 = rint_(); d->has_value = chance(60); d->is_null = chance(15);
  char *t = texts[rnd(8)]; d->value = strdup(t); d->size = type == CEE_SQLITE3_BLOB ? strlen(t) : chance(50) ? 0 : strlen(t);
  if (type == CEE_SQLITE3_TEXT && d->size > 1 && chance(30)) d->size--; }
static void ginfo(void) {
  memset(info, 0, sizeof info); memset(data, 0, sizeof data); int perm[NN]; for (int i = 0; i < NN; i++) perm[i] = i;
  for (int i = NN - 1; i > 0; i--) { int j = rnd(i + 1), x = perm[i]; perm[i] = perm[j]; perm[j] = x; }
  ninfo = rnd(NN + 1); hasdata = chance(70);
  for (int i = 0; i < ninfo; i++) { info[i].var_name = names[perm[i]]; info[i].col_name = cols[perm[i]]; info[i].type = 1 + rnd(4); info[i].not_null = chance(30); gdata(&info[i].data, info[i].type); gdata(&data[i], info[i].type); } }
static int at(const char *name) { for (int i = 0; i < ninfo; i++) if (!strcmp(info[i].var_name, name)) return i; return -1; }
/* what parameter i denotes */
static struct sv_ denotes(int i, bool insert) {
  struct sv_ v = { V_NULL }; struct cee_sqlite3_bind_data *d = hasdata && data[i].has_value ? &data[i] : info[i].data.has_value ? &info[i].data : NULL;
  int t = info[i].type;
  if (!d) { if (insert && info[i].not_null) { v.t = t == CEE_SQLITE3_TEXT ? V_TEXT : t == CEE_SQLITE3_BLOB ? V_BLOB : V_INT; v.s = ""; } return v; }
  if (d->is_null && !info[i].not_null) return v;
  switch (t) { case CEE_SQLITE3_INT: v.t = V_INT; v.i = d->i; break; case CEE_SQLITE3_INT64: v.t = V_INT; v.i = d->i64; break;
  case CEE_SQLITE3_TEXT: v.t = V_TEXT; v.s = d->value; v.n = d->size ? d->size : strlen(d->value); break; case CEE_SQLITE3_BLOB: v.t = V_BLOB; v.s = d->value; v.n = d->size; break; }
  return v; }
static void is(sqlite3_stmt *s, int c, struct sv_ v, const char *n) {
  int t = sqlite3_column_type(s, c);
  switch (v.t) { case V_NULL: CHECK(t == SQLITE_NULL, "%s: type %d instead of null", n, t); break;
  case V_INT: CHECK(t == SQLITE_INTEGER && sqlite3_column_int64(s, c) == v.i, "%s: type %d, %lld instead of %lld", n, t, (long long)sqlite3_column_int64(s, c), (long long)v.i); break;
  default: CHECK(t == (v.t == V_TEXT ? SQLITE_TEXT : SQLITE_BLOB) && sqlite3_column_bytes(s, c) == (int)v.n && !memcmp(v.n ? sqlite3_column_blob(s, c) : "", v.s, v.n), "%s: type %d, %d bytes instead of %zu", n, t, sqlite3_column_bytes(s, c), v.n); } }
static void nostmt(void) { CHECK(sqlite3_next_stmt(db, NULL) == NULL, "a statement was not finalized: %s", sqlite3_sql(sqlite3_next_stmt(db, NULL))); }
static void q(const char *fmt, ...) { char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); char *e = NULL; if (sqlite3_exec(db, b, NULL, NULL, &e) != SQLITE_OK) { fprintf(stdout, "harness: %s: %s\n", b, e); abort(); } }
static int64_t one(const char *fmt, ...) { char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); sqlite3_stmt *s; if (sqlite3_prepare_v2(db, b, -1, &s, 0) != SQLITE_OK) { printf("harness: %s\n", b); abort(); } int64_t r = sqlite3_step(s) == SQLITE_ROW ? sqlite3_column_int64(s, 0) : -1; sqlite3_finalize(s); return r; }
static const char *err(struct cee_json *j) { struct cee_json *e = j && j->t == CEE_JSON_OBJECT ? cee_json_select(j, ".error") : NULL; return e ? e->t == CEE_JSON_STRING ? cee_json_to_str(e)->_ : "(not a string)" : NULL; }
static void show(void) { for (int i = 0; i < ninfo; i++) { struct sv_ v = denotes(i, true); tr("%s%s:%d(%d%s%.*s) ", info[i].var_name, info[i].not_null ? "!" : "", info[i].type, v.t, v.t == V_INT ? "i" : "", (int)v.n, v.s ? v.s : ""); } }
/* bind and run one statement directly */
static void bindrun(void) {
  ginfo(); int m = rnd(6), p[6]; char b[400]; bool ins = chance(50), missing = false, noinfo = chance(8); int first = -1;
  strcpy(b, ins ? "" : chance(30) ? " \n\tSeLeCt 1" : "select 1");
  if (ins) { const char *w[] = { "insert into t(k", "  INSERT into t(k", "\nInsert Into t(k" }; strcpy(b, w[rnd(3)]); for (int i = 0; i < m; i++) sprintf(b + strlen(b), ",c%d", i); strcat(b, ") values (1"); }
  int seenp[6], ns = 0;
  for (int i = 0; i < m; i++) { p[i] = ninfo && chance(85) ? at(info[rnd(ninfo)].var_name) : -1; const char *n = p[i] >= 0 ? info[p[i]].var_name : names[rnd(NN)]; p[i] = at(n); if (p[i] < 0) missing = true; sprintf(b + strlen(b), ",%s", n); }
  if (ins) strcat(b, ")"); (void)seenp; (void)ns; (void)first;
  if (chance(4)) { strcat(b, " syntax error here"); tr("malformed "); struct cee_json *r = chance(50) ? cee_json_object_mk(st) : NULL; bool withret = chance(70); sqlite3_stmt *s = (void *)1; bool ws = chance(50); int rc = cee_sqlite3_bind_run_sql(&cs, noinfo ? NULL : info, hasdata ? data : NULL, b, ws ? &s : NULL, withret ? &r : NULL);
    CHECK(rc != SQLITE_ROW && rc != SQLITE_DONE && rc != SQLITE_OK, "a malformed statement returned %d", rc); if (ws) CHECK(s == NULL, "a statement from malformed SQL"); if (withret) CHECK(err(r), "no error reported for malformed SQL"); nostmt(); return; }
  tr("%s | ", b); show();
  q("delete from t"); struct cee_json *r = chance(50) ? cee_json_object_mk(st) : NULL, *r0 = r; bool withret = chance(70); sqlite3_stmt *s = NULL; bool ws = !ins || chance(30);
  char *sql = malloc(strlen(b) + 1); strcpy(sql, b);
  int rc = cee_sqlite3_bind_run_sql(&cs, noinfo ? NULL : info, hasdata ? data : NULL, sql, ws ? &s : NULL, withret ? &r : NULL);
  if (withret) CHECK(r && r->t == CEE_JSON_OBJECT && (!r0 || r == r0), "status object");
  if (!noinfo && missing) { CHECK(rc == SQLITE_ERROR, "ran with an unbound parameter: %d", rc); CHECK(!withret || err(r), "no error reported for an unbound parameter"); CHECK(one("select count(*) from t") == 0, "the refused statement ran"); if (ws) { CHECK(s, "statement"); sqlite3_finalize(s); } nostmt(); free(sql); return; }
  CHECK(rc == (ins ? SQLITE_DONE : SQLITE_ROW), "%s returned %d: %s", b, rc, sqlite3_errmsg(db)); CHECK(!withret || !err(r), "error reported: %s", err(r));
  if (ws) { CHECK(s && sqlite3_next_stmt(db, NULL) == s && !sqlite3_next_stmt(db, s), "statement"); if (!ins) for (int i = 0; i < m; i++) if (noinfo) is(s, i + 1, (struct sv_){ V_NULL }, names[i]); else is(s, i + 1, denotes(p[i], false), info[p[i]].var_name); CHECK(ins || sqlite3_step(s) == SQLITE_DONE, "more than one row"); sqlite3_finalize(s); }
  nostmt(); free(sql);
  if (ins) { sqlite3_stmt *u; sqlite3_prepare_v2(db, "select * from t", -1, &u, 0); CHECK(sqlite3_step(u) == SQLITE_ROW, "nothing was inserted"); for (int i = 0; i < 6; i++) if (noinfo || i >= m) is(u, i + 1, (struct sv_){ V_NULL }, "c"); else is(u, i + 1, denotes(p[i], true), info[p[i]].var_name); CHECK(sqlite3_step(u) == SQLITE_DONE, "inserted twice"); sqlite3_finalize(u); } }
/* helpers over table u(id integer primary key, name text not null, n int, big int) */
static int64_t rows(void) { return one("select count(*) from u"); }
static struct cee_sqlite3_bind_info ui[] = { { .var_name = "@id", .col_name = "id", .type = CEE_SQLITE3_INT64, .no_update = true }, { .var_name = "@name", .col_name = "name", .type = CEE_SQLITE3_TEXT, .not_null = true }, { .var_name = "@n", .col_name = "n", .type = CEE_SQLITE3_INT }, { .var_name = "@big", .col_name = "big", .type = CEE_SQLITE3_INT64 }, { 0 } };
static void ud(struct cee_sqlite3_bind_data *d, int64_t id, const char *name, int n, int64_t big) {
  memset(d, 0, 5 * sizeof *d); if (id) d[0].has_value = 1, d[0].i64 = id; if (name) d[1].has_value = 1, d[1].value = (char *)name; if (n) d[2].has_value = 1, d[2].i = n; if (big) d[3].has_value = 1, d[3].i64 = big; }
static int64_t num(struct cee_json *j, char *k) { struct cee_json *x = j ? cee_json_object_get(j, k) : NULL; int64_t r = INT64_MIN; if (x && cee_json_to_i64x(x, &r) == 0) return r; return INT64_MIN; }
static bool exists(int64_t id) { return one("select count(*) from u where id=%lld", (long long)id) == 1; }
static char *ins_sql = "insert into u(id,name,n,big) values (@id,@name,@n,@big)";
static int64_t anid(void) { switch (rnd(6)) { case 0: return 5000000000LL + rnd(3); case 1: return 1 + rnd(3); default: return 1 + rnd(12); } }
static void rowis(struct cee_json *o, int64_t id) {
  CHECK(o && o->t == CEE_JSON_OBJECT, "row"); CHECK(cee_map_size(cee_json_to_object(o)) == 4, "row of %zu columns", cee_map_size(cee_json_to_object(o)));
  sqlite3_stmt *u; char b[100]; sprintf(b, "select id,name,n,big from u where id=%lld", (long long)id); sqlite3_prepare_v2(db, b, -1, &u, 0); CHECK(sqlite3_step(u) == SQLITE_ROW, "row %lld", (long long)id);
  char *cn[] = { "id", "name", "n", "big" };
  for (int c = 0; c < 4; c++) { struct cee_json *x = cee_json_object_get(o, cn[c]); CHECK(x, "column %s", cn[c]); int64_t v;
    switch (sqlite3_column_type(u, c)) { case SQLITE_NULL: CHECK(x == cee_json_null(), "%s not null", cn[c]); break; case SQLITE_INTEGER: CHECK(cee_json_to_i64x(x, &v) == 0 && v == sqlite3_column_int64(u, c), "%s differs", cn[c]); break; case SQLITE_TEXT: CHECK(x->t == CEE_JSON_STRING && !strcmp(cee_json_to_str(x)->_, (char *)sqlite3_column_text(u, c)), "%s differs", cn[c]); break; } }
  sqlite3_finalize(u); }
static int stopafter, calls; static int onrow(void *cls, struct cee_state *s, struct cee_sqlite3_bind_info *i, sqlite3_stmt *m) { CHECK(cls == &calls && s == st && m, "callback arguments"); return ++calls == stopafter; }
static void helpers(void) {
  struct cee_sqlite3_bind_data d[5]; int64_t id = anid(); const char *name = texts[1 + rnd(7)]; int n = rnd(3) ? (int)rint_() : 0; int64_t big = rnd(3) ? rint_() : 0; bool was = exists(id); int64_t r0 = rows();
  struct cee_json *s = NULL; if (chance(40)) s = cee_json_object_mk(st); struct cee_json **sp = chance(85) ? &s : NULL; int rc, x = -7; struct cee_sqlite3_stmt_strs ss = { .table_name = "u", .select_stmt = "select * from u where id=@id", .insert_stmt = ins_sql, .update_stmt = "update u set name=@name, n=@n, big=@big where id=@id" };
  switch (rnd(12)) {
  case 0: case 1: { bool key = chance(40); int *xp = chance(50) ? &x : NULL; ud(d, chance(80) ? id : 0, name, n, big); if (!d[0].has_value) was = false; tr("insert %lld '%s' %d %lld", (long long)d[0].i64, name, n, (long long)big); rc = cee_sqlite3_insert(&cs, ui, d, ins_sql, sp, key ? "newid" : NULL, xp); nostmt();
    if (was) { CHECK(rc == SQLITE_CONSTRAINT && rows() == r0, "duplicate insert returned %d", rc); if (sp) CHECK(err(s) && num(s, key ? "newid" : "last_insert_rowid") == INT64_MIN, "duplicate insert: status"); CHECK(x == -7, "id of a failed insert"); }
    else { CHECK(rc == SQLITE_DONE && rows() == r0 + 1, "insert returned %d: %s", rc, sqlite3_errmsg(db)); int64_t got = sqlite3_last_insert_rowid(db); if (d[0].has_value) CHECK(got == id, "inserted as %lld", (long long)got); if (sp) { CHECK(num(s, key ? "newid" : "last_insert_rowid") == got && !err(s), "insert reports %lld for %lld", (long long)num(s, key ? "newid" : "last_insert_rowid"), (long long)got); if (xp) CHECK(x == (int)got, "id"); }
      CHECK(one("select count(*) from u where id=%lld and n %s and big %s and length(name)=length(cast('%s' as text))", (long long)got, n ? "not null" : "is null", big ? "not null" : "is null", strchr(name, '\'') ? "" : name) == 1 || strchr(name, '\''), "row differs"); } break; }
  case 2: { ud(d, id, NULL, 0, 0); bool key = chance(40); bool bad = chance(15); tr("delete %lld%s", (long long)id, bad ? " malformed" : ""); rc = cee_sqlite3_delete(&cs, ui, d, bad ? "delete from nosuch where id=@id" : "delete from u where id=@id", sp, key ? "k" : NULL); nostmt();
    if (bad) { CHECK(rc != SQLITE_DONE && rows() == r0, "bad delete returned %d", rc); if (sp) CHECK(err(s) && num(s, key ? "k" : "deleted") == INT64_MIN, "bad delete: status"); break; }
    CHECK(rc == SQLITE_DONE && rows() == r0 - was && !exists(id), "delete returned %d", rc); if (sp) CHECK(num(s, key ? "k" : "deleted") == was && !err(s), "delete reports %lld", (long long)num(s, "deleted")); break; }
  case 3: { bool all = chance(30); ss.update_stmt = all ? "update u set n=@n" : ss.update_stmt; ud(d, id, name, n, big); tr("update_if_exists %lld all=%d", (long long)id, all); rc = (chance(50) ? cee_sqlite3_update : cee_sqlite3_update_if_exists)(&cs, ui, d, &ss, sp); nostmt();
    CHECK(rc == SQLITE_DONE && rows() == r0, "update returned %d: %s", rc, sqlite3_errmsg(db)); if (sp) CHECK(was ? num(s, "updated_rows") == (all ? r0 : 1) : num(s, "updated_rows") == INT64_MIN, "update reports %lld rows of %lld", (long long)num(s, "updated_rows"), (long long)r0); if (was) CHECK(one("select n from u where id=%lld", (long long)id) == n, "not updated"); break; }
  case 4: { ud(d, id, name, n, big); tr("update_or_insert %lld", (long long)id); rc = cee_sqlite3_update_or_insert(&cs, ui, d, &ss, sp); nostmt(); CHECK(rc == SQLITE_DONE && rows() == r0 + !was && exists(id), "update_or_insert returned %d", rc); CHECK(one("select n from u where id=%lld", (long long)id) == n && one("select big from u where id=%lld", (long long)id) == big, "row differs"); if (sp) CHECK(was || num(s, "last_insert_rowid") == id, "reports %lld", (long long)num(s, "last_insert_rowid")); break; }
  case 5: { ud(d, id, NULL, 0, 0); bool bad = chance(25), miss = chance(20); tr("select id<=%lld bad=%d miss=%d", (long long)id, bad, miss); struct cee_json *a = NULL; bool pre = chance(40); if (pre) { a = cee_json_array_mk(st, 2); cee_json_array_append_bool(a, true); }
    rc = cee_sqlite3_select(&cs, ui, d, bad ? "select * from nosuch" : miss ? "select * from u where id<=@zzz" : "select * from u where id<=@id order by id", &a); nostmt();
    if (bad || miss) { CHECK(rc != SQLITE_DONE && rc != SQLITE_ROW, "returned %d", rc); struct cee_json *e = pre ? cee_json_array_get(a, 1) : a; CHECK(e && err(e), "no error in the status"); if (pre) CHECK(cee_json_array_length(a) == 2 && cee_json_array_get(a, 0)->t == CEE_JSON_BOOLEAN, "array"); break; }
    int64_t k = one("select count(*) from u where id<=%lld", (long long)id); CHECK(rc == SQLITE_DONE && a && a->t == CEE_JSON_ARRAY && cee_json_array_length(a) == k + pre, "select of %lld rows returned %d, %zu rows", (long long)k, rc, cee_json_array_length(a));
    for (int64_t i = 0; i < k; i++) rowis(cee_json_array_get(a, i + pre), one("select id from u order by id limit 1 offset %lld", (long long)i));
    if (k) { /* columns not to be returned: exactly those so named */
      struct cee_sqlite3_bind_info ri[] = { { .var_name = "@id", .col_name = "id", .type = CEE_SQLITE3_INT64, .no_return = chance(30) }, { .var_name = "@x", .col_name = "N", .type = CEE_SQLITE3_INT, .no_return = true }, { .var_name = "@y", .col_name = "nam", .no_return = true, .type = CEE_SQLITE3_INT }, { .var_name = "@big", .col_name = "big", .type = CEE_SQLITE3_INT64, .no_return = chance(50) }, { .var_name = "@z", .col_name = "bigger", .no_return = true, .type = CEE_SQLITE3_INT }, { 0 } };
      struct cee_sqlite3_bind_data rd[6]; memset(rd, 0, sizeof rd); rd[0].has_value = 1; rd[0].i64 = id; struct cee_json *b = NULL; rc = cee_sqlite3_select(&cs, ri, rd, "select * from u where id<=@id order by id", &b); nostmt(); CHECK(rc == SQLITE_DONE && b && (int64_t)cee_json_array_length(b) == k, "select returned %d", rc);
      for (int64_t i = 0; i < k; i++) { struct cee_json *o = cee_json_array_get(b, i); CHECK((cee_json_object_get(o, "id") != NULL) == !ri[0].no_return && (cee_json_object_get(o, "big") != NULL) == !ri[3].no_return && cee_json_object_get(o, "n") && cee_json_object_get(o, "name") && cee_map_size(cee_json_to_object(o)) == 4 - ri[0].no_return - ri[3].no_return, "columns returned"); } }
    break; }
  case 6: { ud(d, id, NULL, 0, 0); bool bad = chance(15); tr("select1 %lld", (long long)id); rc = cee_sqlite3_select1(&cs, ui, d, bad ? "select * from nosuch" : "select * from u where id=@id", sp); nostmt(); if (bad) { CHECK(rc != SQLITE_DONE, "rc %d", rc); if (sp) CHECK(s && cee_json_select(s, ".error"), "no error"); break; }
    CHECK(rc == SQLITE_DONE, "select1 returned %d", rc); if (sp && was) rowis(s, id); break; }
  case 7: { ud(d, id, NULL, 0, 0); tr("select1_as %lld", (long long)id); s = chance(50) ? cee_json_object_mk(st) : NULL; rc = cee_sqlite3_select1_as(&cs, ui, d, "select * from u where id=@id", &s, "row"); nostmt(); CHECK(rc == SQLITE_DONE && s, "select1_as returned %d", rc); if (was) rowis(cee_json_object_get(s, "row"), id); else CHECK(!cee_json_object_get(s, "row"), "a row nobody selected"); break; }
  case 8: { calls = 0; stopafter = rnd(6); tr("select_iter stop %d", stopafter); rc = cee_sqlite3_select_iter(&cs, NULL, NULL, "select * from u order by id", &calls, onrow, NULL); nostmt(); int64_t want = stopafter && stopafter <= r0 ? stopafter : r0; CHECK(rc == SQLITE_DONE && calls == want, "%d calls of %lld", calls, (long long)want); break; }
  case 9: { tr("failing step"); struct cee_json *a = NULL; calls = stopafter = 0; rc = cee_sqlite3_select_iter(&cs, NULL, NULL, "select case when id=2 then abs(-9223372036854775808) else id end from (select 1 as id union all select 2 union all select 3)", &calls, onrow, &a); nostmt(); CHECK(rc != SQLITE_DONE && rc != SQLITE_ROW && calls == 1 && a && err(a), "failing step: %d, %d calls", rc, calls); break; }
  case 10: { ud(d, id, name, n, big); tr("select1_or_insert %lld", (long long)id); rc = cee_sqlite3_select1_or_insert(&cs, ui, d, &ss, sp); nostmt(); CHECK(rc == SQLITE_DONE && rows() == r0 + !was && exists(id), "select1_or_insert returned %d", rc); if (sp) { if (was) rowis(s, id); else CHECK(num(s, "last_insert_rowid") == id, "reports %lld", (long long)num(s, "last_insert_rowid")); } break; }
  default: { tr("next_int"); q("update u set n=7 where n>=2147483647"); struct cee_json *e = NULL; int64_t mx = one("select ifnull(max(n),0) from u"); bool none = one("select count(n) from u") == 0; int r = cee_sqlite3_next_int(&cs, "n", "from u", &e); nostmt(); if (none || (mx < INT_MAX && mx > INT_MIN)) CHECK(r == (none ? 1 : (int)mx + 1), "next_int is %d after %lld", r, (long long)mx); break; } } }
/* JSON driven */
static void json(void) {
  struct cee_sqlite3_bind_data d[5]; memset(d, 0, sizeof d); int64_t id = anid();
  struct cee_sqlite3_stmt_strs ss = { .table_name = "u", .select_stmt = "select * from u where id=@id", .insert_dynamic = true, .update_template = "update u set %s where id=@id" };
  struct cee_sqlite3_db_op op = { .stmts = &ss, .info = ui, .data = d };
  for (int k = 1 + rnd(3); k > 0; k--) {        /* the same op (and data) used again */
    id = anid(); bool was = exists(id); int64_t r0 = rows(); struct cee_json *in = cee_json_object_mk(st), *s = NULL; int hn = rnd(3), hb = rnd(3), unk = rnd(2); char *nm = texts[1 + rnd(7)]; int n = rint_(); int64_t big = rint_(); n = n ? n : 1;
    memset(d, 0, sizeof d); d[2].is_null = chance(30); d[1].size = chance(30) ? 1 : 0;
    bool nn = chance(25); cee_json_object_set_i64(in, "id", id); if (nn) cee_json_object_set_null(in, "name"); else cee_json_object_set_str(in, "name", nm); if (hn == 1) cee_json_object_set_i64(in, "n", n); if (hn == 2) cee_json_object_set_null(in, "n"); if (hb == 1) cee_json_object_set_i64(in, "big", big); if (hb == 2) cee_json_object_set_null(in, "big"); if (unk) cee_json_object_set_bool(in, "extra", true);
    int w = rnd(3); tr("op%d {id:%lld name:%s'%s' n:%d:%d big:%d:%lld} ", w, (long long)id, nn ? "null " : "", nm, hn, n, hb, (long long)big);
    int64_t on = was ? one("select n from u where id=%lld", (long long)id) : 0, ob = was ? one("select big from u where id=%lld", (long long)id) : 0;
    char had[200] = ""; if (was) { sqlite3_stmt *u; char b[100]; sprintf(b, "select name from u where id=%lld", (long long)id); sqlite3_prepare_v2(db, b, -1, &u, 0); if (sqlite3_step(u) == SQLITE_ROW) snprintf(had, sizeof had, "%s", sqlite3_column_text(u, 0)); sqlite3_finalize(u); } if (nn) nm = was ? had : "";
    int rc = w == 0 ? cee_sqlite3_insert_op(&cs, &op, in, &s) : w == 1 ? cee_sqlite3_update_or_insert_op(&cs, &op, in, &s) : cee_sqlite3_update_if_exists_op(&cs, &op, in, &s); nostmt();
    CHECK(s && s->t == CEE_JSON_OBJECT, "status");
    if (w == 0 && was) { CHECK(rc != SQLITE_DONE && rows() == r0 && cee_json_select(s, ".error"), "duplicate insert returned %d", rc); continue; }
    CHECK(rc == SQLITE_DONE && !cee_json_select(s, ".error"), "op returned %d: %s", rc, sqlite3_errmsg(db)); CHECK(rows() == r0 + (w < 2 && !was), "rows");
    if (w == 0) CHECK(num(s, "id") == id, "insert reports %lld", (long long)num(s, "id"));
    if (w == 2 && !was) continue;
    sqlite3_stmt *u; char b[100]; sprintf(b, "select id,name,n,big from u where id=%lld", (long long)id); sqlite3_prepare_v2(db, b, -1, &u, 0); CHECK(sqlite3_step(u) == SQLITE_ROW, "row");
    is(u, 1, (struct sv_){ V_TEXT, 0, nm, strlen(nm) }, "name");
    is(u, 2, hn == 1 ? (struct sv_){ V_INT, n } : hn == 0 && was ? (struct sv_){ on ? V_INT : sqlite3_column_type(u, 2) == SQLITE_NULL ? V_NULL : V_INT, on } : (struct sv_){ V_NULL }, "n");
    is(u, 3, hb == 1 ? (struct sv_){ V_INT, big } : hb == 0 && was ? (struct sv_){ ob ? V_INT : sqlite3_column_type(u, 3) == SQLITE_NULL ? V_NULL : V_INT, ob } : (struct sv_){ V_NULL }, "big"); sqlite3_finalize(u);
    struct cee_json *used = cee_json_select(s, ".debug.used_keys"), *un = cee_json_select(s, ".debug.unused_keys"); CHECK(used && cee_json_array_length(used) == 2 - nn + (hn > 0) + (hb > 0), "%zu used keys", used ? cee_json_array_length(used) : 0); CHECK(unk ? un && cee_json_array_length(un) == 1 : !un, "unused keys"); } }
static void bindinfo(void) {        /* cee_json_to_bind_info */
  struct cee_json *o = cee_json_object_mk(st); int n = rnd(7); int64_t iv[7]; char *sv[7]; bool str[7]; tr("bind_info %d", n);
  for (int i = 0; i < n; i++) { char *k = cols[i]; str[i] = chance(50); iv[i] = (int)rint_(); sv[i] = texts[rnd(8)]; if (str[i]) cee_json_object_set_str(o, k, sv[i]); else cee_json_object_set_i64(o, k, iv[i]); }
  struct cee_sqlite3_bind_info *x = cee_json_to_bind_info(o); bool hit[7] = { 0 }; int c = 0;
  for (; x[c].var_name; c++) { CHECK(c < n, "more bindings than keys"); int k = -1; for (int i = 0; i < n; i++) if (!strcmp(x[c].col_name, cols[i])) k = i; CHECK(k >= 0 && !hit[k], "binding of key '%s'", x[c].col_name); hit[k] = true; CHECK(x[c].var_name[0] == '@' && !strcmp(x[c].var_name + 1, cols[k]), "name %s", x[c].var_name); CHECK(x[c].data.has_value, "no value");
    if (str[k]) CHECK(x[c].type == CEE_SQLITE3_TEXT && !strcmp(x[c].data.value, sv[k]), "value of %s", cols[k]); else CHECK(x[c].type == CEE_SQLITE3_INT && x[c].data.i == (int)iv[k], "value of %s", cols[k]); }
  CHECK(c == n, "%d bindings of %d keys", c, n); }
static void arrays(void) {          /* insert_json_array, join */
  q("drop table if exists w"); int nk = chance(20) ? 48 + rnd(10) : 1 + rnd(4); char b[3000] = "create table w(k0"; for (int i = 1; i < nk; i++) sprintf(b + strlen(b), ",k%d", i); strcat(b, ")"); q("%s", b);
  struct cee_json *a = cee_json_array_mk(st, 3); int n = 1 + rnd(3); tr("insert_json_array %d keys %d rows", nk, n); int64_t v[3]; int how[3];
  for (int r = 0; r < n; r++) { struct cee_json *o = cee_json_object_mk(st); v[r] = rint_(); how[r] = rnd(3); for (int i = 0; i < nk; i++) { char k[20]; sprintf(k, "k%d", i); if (how[r] == 0) cee_json_object_set_i64(o, k, v[r]); else if (how[r] == 1) cee_json_object_set_str(o, k, texts[r + 2]); else cee_json_object_set_null(o, k); } cee_json_array_append(a, o); }
  cee_sqlite3_insert_json_array(&cs, "w", a); nostmt(); CHECK(one("select count(*) from w") == n, "%lld rows inserted of %d", (long long)one("select count(*) from w"), n);
  sqlite3_stmt *u; sqlite3_prepare_v2(db, "select * from w order by rowid", -1, &u, 0); for (int r = 0; r < n; r++) { CHECK(sqlite3_step(u) == SQLITE_ROW, "row"); for (int i = 0; i < nk; i++) is(u, i, how[r] == 0 ? (struct sv_){ V_INT, v[r] } : how[r] == 1 ? (struct sv_){ V_TEXT, 0, texts[r + 2], strlen(texts[r + 2]) } : (struct sv_){ V_NULL }, "k"); } sqlite3_finalize(u);
  /* join: every object gets the row of u with its id */
  struct cee_json *ja = cee_json_array_mk(st, 3); int64_t ids[4]; int m = 1 + rnd(4); bool key = chance(50), wide = chance(60); for (int i = 0; i < m; i++) { ids[i] = wide ? anid() : 1 + rnd(12); struct cee_json *o = cee_json_object_mk(st); cee_json_object_set_i64(o, "uid", ids[i]); cee_json_array_append(ja, o); }
  struct cee_sqlite3_bind_info ji[] = { { .var_name = "@id", .col_name = "uid", .type = wide ? CEE_SQLITE3_INT64 : CEE_SQLITE3_INT }, { 0 } }; struct cee_sqlite3_bind_data jd[2] = { { .has_value = 1, .size = chance(50) ? rnd(4) : 0 } };
  if (chance(40)) { /* joined by text; the length of the previous value is not used */
    struct cee_json *ta = cee_json_array_mk(st, 3); struct cee_sqlite3_bind_info ti[] = { { .var_name = "@name", .col_name = "uname", .type = CEE_SQLITE3_TEXT }, { 0 } }; struct cee_sqlite3_bind_data td[2] = { { .has_value = 1, .size = rnd(4) } }; char *tx[3]; for (int i = 0; i < 3; i++) { tx[i] = texts[1 + rnd(7)]; struct cee_json *o = cee_json_object_mk(st); cee_json_object_set_str(o, "uname", tx[i]); cee_json_array_append(ta, o); }
    tr("join by text size=%d", (int)td[0].size); cee_sqlite3_json_array_join_table(&cs, ta, ti, td, "select * from u where name=@name order by id", "rows"); nostmt();
    for (int i = 0; i < 3; i++) { struct cee_json *rr = cee_json_object_get(cee_json_array_get(ta, i), "rows"); char *e = sqlite3_mprintf("select count(*) from u where name=%Q", tx[i]), *f = sqlite3_mprintf("select min(id) from u where name=%Q", tx[i]); int64_t k = one("%s", e); CHECK(rr && rr->t == CEE_JSON_ARRAY && (int64_t)cee_json_array_length(rr) == k, "joined %zu rows of %lld by name '%s'", rr ? cee_json_array_length(rr) : 99, (long long)k, tx[i]); if (k) rowis(cee_json_array_get(rr, 0), one("%s", f)); sqlite3_free(e); sqlite3_free(f); } }

  if (chance(40)) { /* an object that cannot be joined is reported and ends the join */
    int bad = rnd(3), why = rnd(3); struct cee_json *ba = cee_json_array_mk(st, 3); struct cee_sqlite3_bind_info bi[] = { { .var_name = "@id", .col_name = "uid", .type = CEE_SQLITE3_INT64 }, { 0 } }; struct cee_sqlite3_bind_data bd[2] = { { .has_value = 1 } };
    for (int i = 0; i < 3; i++) { struct cee_json *o = cee_json_object_mk(st); if (i != bad) cee_json_object_set_i64(o, "uid", 1 + rnd(12)); else if (why == 1) cee_json_object_set_null(o, "uid"); else if (why == 2) cee_json_object_set_bool(o, "uid", true); cee_json_array_append(ba, o); }
    tr("join: object %d is bad (%d)", bad, why); cee_sqlite3_json_array_join_table(&cs, ba, bi, bd, "select * from u where id=@id", "rows"); nostmt();
    for (int i = 0; i < 3; i++) { struct cee_json *o = cee_json_array_get(ba, i); bool r = cee_json_object_get(o, "rows"), e = cee_json_object_get(o, "error"); CHECK(r == (i < bad) && e == (i == bad), "object %d: joined %d error %d", i, r, e); } }
  if (chance(30)) { /* a statement that fails for one object ends the join */
    int bad = rnd(3); bool k2 = chance(50); struct cee_json *ba = cee_json_array_mk(st, 3); struct cee_sqlite3_bind_info bi[] = { { .var_name = "@id", .col_name = "uid", .type = CEE_SQLITE3_INT64 }, { 0 } }; struct cee_sqlite3_bind_data bd[2] = { { .has_value = 1 } };
    for (int i = 0; i < 3; i++) { struct cee_json *o = cee_json_object_mk(st); cee_json_object_set_i64(o, "uid", i == bad ? INT64_MIN : 1 + rnd(12)); cee_json_array_append(ba, o); }
    tr("join: the statement fails for object %d, key=%d", bad, k2); cee_sqlite3_json_array_join_table(&cs, ba, bi, bd, "select abs(@id) as x", k2 ? "rows" : NULL); nostmt();
    for (int i = 0; i < 3; i++) { struct cee_json *o = cee_json_array_get(ba, i), *r = k2 ? cee_json_object_get(o, "rows") : o, *e = r ? cee_json_select(r, ".error") : NULL, *x = !r ? NULL : k2 ? cee_json_select(r, "[0].x") : cee_json_object_get(r, "x");
      CHECK(!!x == (i < bad) && !!e == (i == bad) && (!k2 || !!r == (i <= bad)), "object %d of 3, %d fails: joined %d error %d rows %d", i, bad, !!x, !!e, !!r); } }
  tr("join %d key=%d wide=%d", m, key, wide); cee_sqlite3_json_array_join_table(&cs, ja, ji, jd, "select * from u where id=@id", key ? "rows" : NULL); nostmt();
  for (int i = 0; i < m; i++) { struct cee_json *o = cee_json_array_get(ja, i); CHECK(!cee_json_select(o, ".error"), "join error"); bool ex = exists(ids[i]); CHECK(num(o, "uid") == ids[i], "uid");
    if (key) { struct cee_json *r = cee_json_object_get(o, "rows"); CHECK(r && r->t == CEE_JSON_ARRAY && cee_json_array_length(r) == ex, "joined %zu rows", r ? cee_json_array_length(r) : 99); if (ex) rowis(cee_json_array_get(r, 0), ids[i]); }
    else { CHECK(cee_map_size(cee_json_to_object(o)) == (ex ? 5 : 1), "joined columns"); if (ex) CHECK(num(o, "id") == ids[i], "joined id"); } } }
static bool lists(struct cee_json *a, const char *t) { for (int i = 0; i < (int)cee_json_array_length(a); i++) if (strstr((char *)cee_json_to_str(cee_json_array_get(a, i)), t)) return true; return false; }
static void fromjson(void) {        /* cee_sqlite3_bind_data_from_json */
  ginfo(); struct cee_sqlite3_bind_data d[NN + 1], was[NN + 1]; memcpy(d, data, sizeof d); memcpy(was, data, sizeof was); int n = rnd(5); struct cee_json *o = cee_json_object_mk(st); int ks[5], kd[5]; int64_t iv[5]; char *sv[5]; char kt[5][24];
  tr("from json"); for (int i = 0; i < n; i++) { ks[i] = rnd(NN); bool dup = false; for (int j = 0; j < i; j++) if (ks[j] == ks[i]) dup = true; if (dup) { n = i; break; } kd[i] = rnd(4); iv[i] = rint_(); sv[i] = texts[rnd(8)]; strcpy(kt[i], chance(85) ? cols[ks[i]] : "nosuch"); if (!strcmp(kt[i], "nosuch")) { for (int j = 0; j < i; j++) if (!strcmp(kt[j], kt[i])) dup = true; if (dup) { n = i; break; } ks[i] = -1; }
    tr(" %s:%d", kt[i], kd[i]); switch (kd[i]) { case 0: cee_json_object_set_i64(o, kt[i], iv[i]); break; case 1: cee_json_object_set_str(o, kt[i], sv[i]); break; case 2: cee_json_object_set_null(o, kt[i]); break; default: cee_json_object_set_bool(o, kt[i], true); } }
  bool wu = chance(60), wn = chance(60), we = chance(60); struct cee_json *u = NULL, *un = NULL, *e = NULL; if (chance(30)) u = cee_json_array_mk(st, 1); struct cee_json *u0 = u;
  CHECK(cee_sqlite3_bind_data_from_json(info, d, o, wu ? &u : NULL, wn ? &un : NULL, we ? &e : NULL) == 0, "from json"); CHECK(!wu || (u && (!u0 || u == u0)), "used list"); CHECK((!wn || un) && (!we || e), "lists");
  /* members are taken in no stated order up to the first error */
  bool bad = false; int errs = 0, nun = 0, nus = 0;
  for (int i = 0; i < n; i++) { int x = -1; for (int j = 0; j < ninfo; j++) if (ks[i] >= 0 && !strcmp(info[j].col_name, cols[ks[i]])) { x = j; break; } if (x < 0) continue; if (kd[i] != 2) { int t = info[x].type; bool ok = t == CEE_SQLITE3_INT || t == CEE_SQLITE3_INT64 ? kd[i] == 0 : t == CEE_SQLITE3_TEXT ? kd[i] == 1 : false; if (!ok) bad = true; } }
  bool touched[NN + 1] = { 0 };
  for (int i = 0; i < n; i++) { int x = -1; for (int j = 0; j < ninfo; j++) if (ks[i] >= 0 && !strcmp(info[j].col_name, cols[ks[i]])) { x = j; break; }
    if (x < 0) { nun++; if (wn && !bad) CHECK(lists(un, kt[i]), "unused '%s' is not listed", kt[i]); continue; } touched[x] = true; if (bad) continue;
    if (kd[i] == 2) { if (info[x].not_null) CHECK(!memcmp(&d[x], &was[x], sizeof d[x]), "a refused null changes the binding"); else { CHECK(d[x].has_value && d[x].is_null, "null of %s", kt[i]); nus++; } continue; }
    nus++; CHECK(d[x].has_value && !d[x].is_null && d[x].size == 0, "flags of %s", kt[i]); if (wu) CHECK(lists(u, kt[i]), "used '%s' is not listed", kt[i]);
    switch (info[x].type) { case CEE_SQLITE3_INT: CHECK(d[x].i == (int)iv[i], "int of %s", kt[i]); break; case CEE_SQLITE3_INT64: CHECK(d[x].i64 == iv[i], "int64 of %s", kt[i]); break; default: CHECK(!strcmp(d[x].value, sv[i]), "text of %s", kt[i]); } }
  for (int x = 0; x <= ninfo; x++) if (!touched[x]) CHECK(!memcmp(&d[x], &was[x], sizeof d[x]), "binding %d changes", x);
  if (we) CHECK(cee_json_array_length(e) == (size_t)bad, "%zu errors", cee_json_array_length(e)); if (!bad && wn) CHECK((int)cee_json_array_length(un) == nun, "%zu unused", cee_json_array_length(un)); if (!bad && wu) CHECK((int)cee_json_array_length(u) == nus, "%zu used of %d", cee_json_array_length(u), nus); (void)errs; }
static void nextint(void) { q("drop table if exists mx"); q("create table mx(v int, w int)"); int64_t best = INT64_MIN; int k = rnd(6), lim = rnd(5); for (int i = 0; i < k; i++) { int v = rnd(2000) - 1000, w = rnd(5); q("insert into mx values(%d,%d)", v, w); if (w <= lim && v > best) best = v; }
  char cl[600]; int pad = chance(50) ? rnd(300) : 0; snprintf(cl, sizeof cl, "from mx where %*sw<=%d", pad, "", lim); if (chance(10)) strcpy(cl, "from nosuch"); tr("next_int '%s'", cl); struct cee_json *s = NULL; int r = cee_sqlite3_next_int(&cs, "v", cl, &s); nostmt();
  if (!strcmp(cl, "from nosuch")) CHECK(r == -1 && s && cee_json_select(s, ".error"), "next_int of nothing %d", r); else CHECK(r == (best == INT64_MIN ? 1 : best + 1), "next_int gives %d, not %lld", r, (long long)(best == INT64_MIN ? 1 : best + 1)); }
static void exhaustive(void) {}
static void one_case(void) {
  st = cee_state_mk(10); db = NULL; r_reset(); cee_sqlite3_init_db(&db, ":memory:", "create table t(k,c0,c1,c2,c3,c4,c5); create table u(id integer primary key, name text not null, n int, big int);", chance(50)); CHECK(db, "open");
  cee_sqlite3_init(&cs, "mem", ":memory:", st, db); CHECK(cs.db == db && cs.state == st && !strcmp(cs.db_name, "mem"), "init");
  for (int k = 3 + rnd(12); k > 0; k--) switch (rnd(8)) { case 0: case 1: bindrun(); break; case 2: case 3: case 4: helpers(); break; case 5: json(); break; case 6: if (chance(40)) bindinfo(); else if (chance(50)) nextint(); else fromjson(); break; default: if (chance(30)) arrays(); else helpers(); }
  nostmt(); CHECK(sqlite3_close(db) == SQLITE_OK, "the database cannot be closed"); cee_del(st); }
