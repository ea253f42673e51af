/* C09: the collector frees what is unreachable (after two collections) and keeps what is reachable */
#include "common.h"
#include "objs.h"
static int root[600], instack[600], nstack, ctxobj[600], nctx; static char mark[600];
static void reach(int i) { if (mark[i]) return; mark[i] = 1; for (int j = 0; j < O[i].n; j++) reach(O[i].e[j]); }
static void reach_all(void) { memset(mark, 0, sizeof mark); for (int i = 0; i < no; i++) if (!O[i].dead && root[i]) reach(i); for (int i = 0; i < nstack; i++) reach(instack[i]); for (int i = 0; i < nctx; i++) if (ctxobj[i] >= 0) reach(ctxobj[i]); }
static int pick(void) { for (int t = 0; t < 40; t++) { int i = rnd(no); if (!O[i].dead) return i; } return -1; }
static int fresh(int kind) { int i = no++; memset(&O[i], 0, sizeof O[i]); O[i].kind = kind; root[i] = 0; return i; }
static int leaf(int kind) { int i = fresh(kind); O[i].p = kind == K_BOX ? (void *)cee_boxed_from_i32(st, i) : kind == K_STR ? (void *)cee_str_mk(st, "key%d", i) : cee_block_mk(st, 8); return i; }
static void add(int c, int x) { if (O[c].n < 40) O[c].e[O[c].n++] = x; }
static int mk(void) {
  int kind = rnd(K_N), pol = rnd(2) ? CEE_DP_NOOP : CEE_DP_DEL_RC, x[17], n = 0, i;
  if (kind <= K_BLOCK || no < 4) return leaf(rnd(3));
  int need = kind == K_TUPLE ? 2 : kind == K_TRIPLE ? 3 : kind == K_QUAD ? 4 : kind == K_TAGGED ? 1 : kind == K_NTUP ? rnd(17) : 0;
  for (n = 0; n < need; n++) { x[n] = pick(); if (x[n] < 0) x[n] = leaf(K_BLOCK); }
  enum cee_del_policy o[4]; for (i = 0; i < 4; i++) o[i] = chance(50) ? pol : chance(50) ? CEE_DP_NOOP : CEE_DP_DEL_RC; void *e[17]; for (i = 0; i < n; i++) e[i] = O[x[i]].p;
  int v = -1, out = -1; for (int t = 0; t < 20; t++) { i = pick(); if (i >= 0 && O[i].kind == K_MAP) v = i; if (i >= 0 && O[i].kind == K_ENV) out = i; }
  int c = fresh(kind); O[c].pol = pol;
  switch (kind) {
  case K_LIST: O[c].p = cee_list_mk_e(st, pol, rnd(3)); break;
  case K_STACK: O[c].p = cee_stack_mk_e(st, pol, 40); break;
  case K_TUPLE: O[c].p = cee_tuple_mk_e(st, o, e[0], e[1]); break;
  case K_TRIPLE: O[c].p = cee_triple_mk_e(st, o, e[0], e[1], e[2]); break;
  case K_QUAD: O[c].p = cee_quadruple_mk_e(st, o, e[0], e[1], e[2], e[3]); break;
  case K_NTUP: O[c].p = cee_n_tuple_mk(st, n, e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]); break;
  case K_TAGGED: O[c].p = cee_tagged_mk_e(st, pol, rnd(4), e[0]); break;
  case K_ENV: O[c].p = cee_env_mk_e(st, o, out < 0 ? NULL : O[out].p, v < 0 ? NULL : O[v].p); if (out >= 0) add(c, out); if (v >= 0) add(c, v); break;
  case K_MAP: O[c].p = cee_map_mk_e(st, o, ocmp); break;
  case K_SET: O[c].p = cee_set_mk_e(st, pol, ocmp); break;
  case K_DICT: O[c].p = cee_dict_mk_e(st, pol, rnd(20)); break;
  case K_CLOSURE: O[c].p = cee_closure_mk(st, out < 0 ? NULL : O[out].p, NULL); if (out >= 0) add(c, out); break; }
  for (i = 0; i < n; i++) add(c, x[i]);
  tr("mk %d=%s pol %d:", c, kn[kind], pol); for (i = 0; i < O[c].n; i++) tr(" %d", O[c].e[i]); tr(";"); return c; }
static bool reaches(int a, int b) { if (a == b) return true; for (int j = 0; j < O[a].n; j++) if (reaches(O[a].e[j], b)) return true; return false; }
static void use(int i) { int k = O[i].kind; /* a surviving object still holds what it held */
  if (k == K_LIST) { struct cee_list *l = O[i].p; CHECK(cee_list_size(l) == O[i].n, "size of list %d after gc", i); for (int j = 0; j < O[i].n; j++) CHECK(l->a[j] == O[O[i].e[j]].p, "element of list %d after gc", i); }
  else if (k == K_MAP) { CHECK(cee_map_size(O[i].p) == O[i].n / 2, "size of map %d after gc", i); for (int j = 0; j < O[i].n; j += 2) CHECK(cee_map_find(O[i].p, O[O[i].e[j]].p) == O[O[i].e[j + 1]].p, "map %d lost an entry in gc", i); struct cee_list *l = cee_map_insertion_ordered_keys(O[i].p); for (int j = 0; j < O[i].n; j += 2) CHECK(!DEAD(l->a[j / 2]), "ordered key of map %d freed", i); }
  else if (k == K_SET) { for (int j = 0; j < O[i].n; j++) CHECK(cee_set_find(O[i].p, O[O[i].e[j]].p) == O[O[i].e[j]].p, "set %d lost an element in gc", i); }
  else if (k == K_DICT) { for (int j = 0; j < O[i].n; j += 2) CHECK(cee_dict_find(O[i].p, O[O[i].e[j]].p) == O[O[i].e[j + 1]].p, "dict %d lost an entry in gc", i); }
  else if (k == K_STR) { char b[40]; snprintf(b, 40, "key%d", i); CHECK(!strcmp(O[i].p, b), "str %d changed", i); } }
static void collect(int times) {
  reach_all(); while (times--) { tr("gc;"); cee_state_gc(st); chain_check(st);
    for (int i = 0; i < no; i++) if (!O[i].dead && mark[i]) { CHECK(!DEAD(O[i].p), "%s %d is reachable but was collected", kn[O[i].kind], i); CHECK(on_chain(st, O[i].p), "%s %d not on the chain after gc", kn[O[i].kind], i); use(i); } } }
/* large containers, long chains of references and many roots */
static void large(int kind, int pol, int n, bool rooted) {
  h_begin(); long live0 = h_live; st = cee_state_mk(6); void **e = malloc(n * sizeof *e), **v = malloc(n * sizeof *v), *c; enum cee_del_policy o[2] = { pol, pol }; int i; tr("%s of %d, policy %d, %s;", kn[kind], n, pol, rooted ? "rooted" : "unreachable");
  c = kind == K_LIST ? (void *)cee_list_mk_e(st, pol, 1) : kind == K_STACK ? (void *)cee_stack_mk_e(st, pol, n) : kind == K_SET ? (void *)cee_set_mk_e(st, pol, ocmp) : kind == K_MAP ? (void *)cee_map_mk_e(st, o, ocmp) : (void *)cee_dict_mk_e(st, pol, n);
  for (i = 0; i < n; i++) { e[i] = cee_str_mk(st, "%d", i); v[i] = kind == K_MAP ? (void *)cee_list_mk(st, 1) : (void *)cee_boxed_from_i32(st, i); if (kind == K_MAP) cee_list_append(v[i], cee_str_mk(st, "inner%d", i));
    switch (kind) { case K_LIST: cee_list_append(c, e[i]); break; case K_STACK: cee_stack_push(c, e[i]); break; case K_SET: cee_set_add(c, e[i]); break; case K_MAP: cee_map_add(c, e[i], v[i]); break; default: cee_dict_add(c, e[i], v[i]); } }
  bool kv = kind == K_MAP || kind == K_DICT; if (rooted) cee_state_add_gc_root(st, c);
  for (int t = 0; t < 3; t++) { tr("gc;"); cee_state_gc(st); chain_check(st); if (!rooted) continue; CHECK(!DEAD(c), "rooted container collected"); for (i = 0; i < n; i++) { char b[20]; snprintf(b, 20, "%d", i); CHECK(!DEAD(e[i]), "element %d collected", i); CHECK(!strcmp(e[i], b), "element %d changed", i); if (kv) CHECK(!DEAD(v[i]), "value %d collected", i); if (kind == K_MAP) { void *x = ((struct cee_list *)v[i])->a[0]; CHECK(!DEAD(x), "inner value %d collected", i); } if (!kv) CHECK(DEAD(v[i]) || t == 0, "unreachable block %d survived", i); } }
  if (rooted) { cee_state_remove_gc_root(st, c); cee_state_gc(st); cee_state_gc(st); chain_check(st); }
  CHECK(DEAD(c), "unreachable container survived two collections"); for (i = 0; i < n; i++) { CHECK(DEAD(e[i]), "unreachable element %d survived two collections", i); if (kv) CHECK(DEAD(v[i]), "unreachable value %d survived two collections", i); }
  cee_del(st); CHECK(h_live == live0, "deleting the state left %ld allocations", h_live - live0); free(e); free(v); }
static void roots(int n) { /* n roots, each a chain of lists; half of them are given up */
  h_begin(); long live0 = h_live; st = cee_state_mk(3); void **p = malloc(n * sizeof *p), **q = malloc(n * sizeof *q); tr("%d roots;", n);
  for (int i = 0; i < n; i++) { p[i] = cee_list_mk(st, 1); q[i] = cee_list_mk(st, 1); cee_list_append(q[i], cee_str_mk(st, "%d", i)); cee_list_append(p[i], q[i]); cee_state_add_gc_root(st, p[i]); }
  for (int i = 0; i < n; i += 2) cee_state_remove_gc_root(st, p[i]); cee_state_gc(st); cee_state_gc(st); chain_check(st);
  for (int i = 0; i < n; i++) { CHECK(DEAD(p[i]) == !(i & 1) && DEAD(q[i]) == !(i & 1), "root %d", i); if (i & 1) { char b[20]; snprintf(b, 20, "%d", i); CHECK(!strcmp(((struct cee_list *)q[i])->a[0], b), "root %d holds another text", i); } }
  cee_del(st); CHECK(h_live == live0, "deleting the state left %ld allocations", h_live - live0); free(p); free(q); }
static void deep(int n) { /* a chain of n references, through lists, tuples, tagged values and environments by turns */
  h_begin(); st = cee_state_mk(3); void **p = malloc(n * sizeof *p); tr("chain of %d;", n); p[0] = cee_str_mk(st, "end"); enum cee_del_policy o[4] = { 0, 0, 0, 0 };
  for (int i = 1; i < n; i++) { void *x = p[i - 1]; switch (i % 5) { case 0: p[i] = cee_list_mk(st, 1); cee_list_append(p[i], x); break; case 1: p[i] = cee_tuple_mk(st, cee_str_mk(st, "a"), x); break; case 2: p[i] = cee_tagged_mk(st, 1, x); break; case 3: p[i] = cee_triple_mk(st, cee_str_mk(st, "a"), cee_str_mk(st, "b"), x); break; default: p[i] = cee_n_tuple_mk(st, 1, x); } }
  cee_state_add_gc_root(st, p[n - 1]); cee_state_gc(st); cee_state_gc(st); for (int i = 0; i < n; i++) CHECK(!DEAD(p[i]), "link %d of a rooted chain was collected", i); CHECK(!strcmp(p[0], "end"), "end of the chain");
  cee_state_remove_gc_root(st, p[n - 1]); cee_state_gc(st); cee_state_gc(st); for (int i = 0; i < n; i++) CHECK(DEAD(p[i]), "link %d of an unreachable chain survived", i); cee_del(st); free(p); }
static void exhaustive(void) { static const int k[] = { K_LIST, K_STACK, K_SET, K_MAP, K_DICT }, sz[] = { 17, 64, 260, 1030, 3000 }; for (int a = 0; a < 5; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 5; c++) for (int r = 0; r < 2; r++) large(k[a], b ? CEE_DP_DEL_RC : CEE_DP_NOOP, sz[c], r);
  for (int i = 1; i < 40; i++) roots(i); roots(300); roots(1100); for (int i = 2; i < 20; i++) deep(i); deep(300); deep(1000); h_begin(); }

static void one_case(void) {
  long live0 = h_live; st = cee_state_mk(6); no = nstack = nctx = 0; int ops = 4 + rnd(60);
  for (int q = 0; q < ops && no < 500; q++) { int w = rnd(100), i;
    if (no < 3) w = 0;
    if (w < 40) { i = mk(); if (i >= 0) tr("+%d %s;", i, kn[O[i].kind]); }
    else if (w < 62) { int c = pick(); if (c < 0) continue; int x = pick(); if (O[c].n > 30 || x < 0 || reaches(x, c)) continue;
      switch (O[c].kind) {
      case K_LIST: cee_list_append(O[c].p, O[x].p); add(c, x); break;
      case K_STACK: if (cee_stack_push(O[c].p, O[x].p)) add(c, x); break;
      case K_SET: { int k = leaf(K_STR); cee_set_add(O[c].p, O[k].p); add(c, k); break; }
      case K_MAP: { int k = leaf(K_STR); cee_map_add(O[c].p, O[k].p, O[x].p); add(c, k); add(c, x); break; }
      case K_DICT: { int k = leaf(K_STR); cee_dict_add(O[c].p, O[k].p, O[x].p); add(c, k); add(c, x); break; }
      default: continue; } tr("put %d in %d;", x, c); }
    else if (w < 72) { i = pick(); if (i < 0) continue; tr("root %d;", i); cee_state_add_gc_root(st, O[i].p); root[i] = 1; }
    else if (w < 77) { for (i = 0; i < no && !(root[i] && !O[i].dead && chance(50)); i++); if (i < no) { tr("unroot %d;", i); cee_state_remove_gc_root(st, O[i].p); root[i] = 0; } }
    else if (w < 82) { i = pick(); if (i >= 0 && cee_stack_push(st->stack, O[i].p)) { instack[nstack++] = i; tr("push %d;", i); } }
    else if (w < 85) { if (nstack) { cee_stack_pop(st->stack); nstack--; tr("pop;"); } }
    else if (w < 89) { i = pick(); if (i < 0) continue; tr("context%d %d;", nctx, i); cee_state_add_context(st, (char *)cee_str_mk(st, "ctx%d", nctx), O[i].p); ctxobj[nctx++] = i; }
    else if (w < 91) { for (i = 0; i < nctx; i++) if (ctxobj[i] >= 0 && chance(50)) { char b[20]; snprintf(b, 20, "ctx%d", i); CHECK(cee_state_get_context(st, b) == O[ctxobj[i]].p, "context lost"); cee_state_remove_context(st, b); ctxobj[i] = -1; tr("uncontext%d;", i); break; } }
    else if (w < 95) collect(1);   /* unreachable objects may or may not be gone; treat them as gone: only reachable ones are used afterwards */
    else collect(2);
    if (w >= 91) { for (i = 0; i < no; i++) if (!O[i].dead && !mark[i]) { if (w >= 95) CHECK(DEAD(O[i].p), "%s %d is unreachable but survived two collections", kn[O[i].kind], i); O[i].dead = 1; } } }
  if (chance(30)) { /* a document held by the state as a root */
    struct cee_json *j = cee_json_object_mk(st), *a = cee_json_array_mk(st, 1); cee_json_object_set(j, "a", a); for (int k = rnd(6); k >= 0; k--) cee_json_array_append(a, cee_json_i64_mk(st, k)); cee_json_object_set_str(j, "s", "text"); cee_json_object_set_bool(j, "b", true); cee_json_object_set_double(j, "d", 1.5);
    cee_state_add_gc_root(st, j); size_t n = cee_json_array_length(a); cee_state_gc(st); cee_state_gc(st); chain_check(st);
    CHECK(!DEAD(j) && !DEAD(a), "rooted document collected"); CHECK(cee_json_object_get(j, "a") == a && cee_json_array_length(a) == n, "document after gc"); for (size_t k = 0; k < n; k++) { int64_t v; CHECK(!cee_json_to_i64x(cee_json_array_get(a, k), &v), "element after gc"); CHECK(v == (int64_t)(n - 1 - k), "element value after gc"); }
    CHECK(!strcmp((char *)cee_json_to_str(cee_json_object_get(j, "s")), "text"), "string after gc"); }
  cee_del(st); CHECK(h_live == live0, "deleting the state left %ld allocations", h_live - live0);
}
