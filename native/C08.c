/* C08: reference counts and delete policies are honoured */
#include "common.h"
#include "objs.h"
extern struct cee_set *cee_set_clone(struct cee_set *);
static int gone[600], nkill;
static void mdel(int i) { if (O[i].dead) return; O[i].dead = 1; gone[nkill++] = i;
  for (int j = 0; j < O[i].n; j++) { int x = O[i].e[j]; if (O[i].kind == K_CLOSURE) continue; if (O[i].pol == CEE_DP_DEL_RC) { if (O[x].rc) O[x].rc--; if (!O[x].rc && !O[x].retained) mdel(x); } else if (O[i].pol == CEE_DP_DEL) mdel(x); } }
static int unref(void) { int c[600], n = 0; for (int i = 0; i < no; i++) if (!O[i].dead && O[i].rc == 0 && !O[i].retained) c[n++] = i; return n ? c[rnd(n)] : -1; }
static int noopuse[600];
static int pick(int pol) { /* an object that may be put in a container of this policy */
  for (int t = 0; t < 30; t++) { int i = rnd(no); if (O[i].dead || O[i].kind == K_DICT) continue; if (pol == CEE_DP_DEL && (O[i].rc || O[i].retained || noopuse[i])) continue; if (pol == CEE_DP_DEL_RC && O[i].retained) continue; if (O[i].rc > 60) continue; return i; } return -1; }
static int leaf(void) { int i = no++; O[i] = (struct obj){ 0 }; O[i].kind = rnd(3); O[i].serial = i; O[i].p = O[i].kind == K_BOX ? (void *)cee_boxed_from_i32(st, i) : O[i].kind == K_STR ? (void *)cee_str_mk(st, "%d", i) : cee_block_mk(st, 8); noopuse[i] = 0; return i; }
static int strleaf(void) { int i = no++; O[i] = (struct obj){ 0 }; O[i].kind = K_STR; O[i].p = cee_str_mk(st, "%d", i); noopuse[i] = 0; return i; }
static void took(int c, int x) { O[c].e[O[c].n++] = x; if (O[c].pol == CEE_DP_DEL_RC) { if (!O[x].retained) O[x].rc++; } else if (O[c].pol == CEE_DP_DEL) O[x].retained = 1; else noopuse[x] = 1; }
static int untook(int c, int j) { int x = O[c].e[j]; memmove(O[c].e + j, O[c].e + j + 1, (O[c].n - j - 1) * sizeof(int)); O[c].n--; if (O[c].pol == CEE_DP_DEL_RC) { if (!O[x].retained) O[x].rc--; } else if (O[c].pol == CEE_DP_DEL) O[x].retained = 0; return x; }
static void check_all(const char *op) { for (int i = 0; i < nkill; i++) { CHECK(DEAD(O[gone[i]].p), "%s: %s %d should have been deleted", op, kn[O[gone[i]].kind], gone[i]); } nkill = 0;
  for (int i = 0; i < no; i++) if (!O[i].dead) { CHECK(!DEAD(O[i].p), "%s: %s %d was deleted but is still held", op, kn[O[i].kind], i); CHECK(get_in_degree(O[i].p) == O[i].rc, "%s: %s %d has count %d instead of %d", op, kn[O[i].kind], i, get_in_degree(O[i].p), O[i].rc); CHECK(H(O[i].p)->retained == O[i].retained, "%s: %s %d retained is %d", op, kn[O[i].kind], i, H(O[i].p)->retained); } }
static int container(void) {
  int kind = K_LIST + rnd(K_N - K_LIST), pol = rnd(3), x[16], n = 0, i; if (kind == K_CLOSURE) pol = CEE_DP_DEL_RC; if (kind == K_DICT || kind == K_MAP || kind == K_SET) { if (pol == CEE_DP_NOOP) pol = CEE_DP_DEL_RC; }
  if (no > 480) return -1;
  static const int arity[] = { [K_TUPLE] = 2, [K_TRIPLE] = 3, [K_QUAD] = 4, [K_TAGGED] = 1, [K_ENV] = 0, [K_NTUP] = -1, [K_N] = 0 };
  int need = kind == K_NTUP ? rnd(17) : arity[kind]; if (kind == K_NTUP) pol = CEE_DP_DEL_RC;
  for (n = 0; n < need; n++) { x[n] = pol == CEE_DP_DEL ? leaf() : pick(pol); if (x[n] < 0) x[n] = leaf(); }
  enum cee_del_policy o[4] = { pol, pol, pol, pol }; int c = no++; O[c] = (struct obj){ 0 }; O[c].kind = kind; O[c].pol = pol; noopuse[c] = 0;
  void *e[16]; for (i = 0; i < n; i++) e[i] = O[x[i]].p; bool dflt = pol == CEE_DP_DEL_RC && chance(50);
  switch (kind) {
  case K_LIST: O[c].p = dflt ? cee_list_mk(st, rnd(3)) : cee_list_mk_e(st, pol, rnd(3)); break;
  case K_STACK: O[c].p = dflt ? cee_stack_mk(st, 30) : cee_stack_mk_e(st, pol, 30); break;
  case K_TUPLE: O[c].p = dflt ? cee_tuple_mk(st, e[0], e[1]) : cee_tuple_mk_e(st, o, e[0], e[1]); break;
  case K_TRIPLE: O[c].p = dflt ? cee_triple_mk(st, e[0], e[1], e[2]) : cee_triple_mk_e(st, o, e[0], e[1], e[2]); break;
  case K_QUAD: O[c].p = cee_quadruple_mk_e(st, o, e[0], e[1], e[2], e[3]); break;
  case K_NTUP: O[c].p = cee_n_tuple_mk(st, n, e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]); break;
  case K_TAGGED: O[c].p = dflt ? cee_tagged_mk(st, 5, e[0]) : cee_tagged_mk_e(st, pol, 5, e[0]); break;
  case K_ENV: { int v = -1; for (i = 0; i < no - 1; i++) if (!O[i].dead && O[i].kind == K_MAP && (pol != CEE_DP_DEL || (!O[i].rc && !O[i].retained && !noopuse[i])) && !(pol == CEE_DP_DEL_RC && O[i].retained)) v = i; O[c].p = cee_env_mk_e(st, o, NULL, v < 0 ? NULL : O[v].p); if (v >= 0) { x[0] = v; n = 1; } break; }
  case K_MAP: O[c].p = dflt ? cee_map_mk(st, ocmp) : cee_map_mk_e(st, o, ocmp); break;
  case K_SET: O[c].p = dflt ? cee_set_mk(st, ocmp) : cee_set_mk_e(st, pol, ocmp); break;
  case K_DICT: O[c].p = dflt ? cee_dict_mk(st, rnd(5)) : cee_dict_mk_e(st, pol, rnd(5)); break;
  case K_CLOSURE: O[c].p = cee_closure_mk(st, NULL, NULL); break; }
  for (i = 0; i < n; i++) took(c, x[i]); tr("mk %d=%s pol %d", c, kn[kind], pol); for (i = 0; i < n; i++) tr(" %d", x[i]); tr(";"); return c; }
static bool reaches(int a, int b) { if (a == b) return true; for (int j = 0; j < O[a].n; j++) if (!O[O[a].e[j]].dead && reaches(O[a].e[j], b)) return true; return false; }
/* an object counted by two containers and owned by a third: only the owner deletes it, and the counts stay exact meanwhile */
static void mixed(int kind, int order) {
  struct cee_state *s = cee_state_mk(4); struct cee_boxed *o = cee_boxed_from_i32(s, 7); void *a, *b; struct cee_list *own = cee_list_mk_e(s, CEE_DP_DEL, 1);
  if (kind == 0) { a = cee_list_mk(s, 1); cee_list_append(a, o); b = cee_tagged_mk(s, 1, o); } else if (kind == 1) { a = cee_stack_mk(s, 2); cee_stack_push(a, o); b = cee_set_mk(s, ocmp); cee_set_add(b, o); } else { a = cee_tuple_mk(s, cee_str_mk(s, "x"), o); b = cee_n_tuple_mk(s, 2, cee_str_mk(s, "y"), o); }
  tr("mixed kind %d order %d;", kind, order);
  CHECK(get_in_degree(o) == 2 && !H(o)->retained, "counted twice"); cee_list_append(own, o); CHECK(get_in_degree(o) == 2 && H(o)->retained, "owned, still counted twice");
  if (order == 0) { cee_del(a); CHECK(!DEAD(o) && get_in_degree(o) == 1 && H(o)->retained, "one counting container gone"); cee_list_remove(own, 0); CHECK(get_in_degree(o) == 1 && !H(o)->retained, "released"); cee_del(b); CHECK(DEAD(o), "last counting container gone, yet the object lives"); }
  else if (order == 1) { cee_del(a); cee_del_ref(b); CHECK(!DEAD(o) && get_in_degree(o) == 0 && H(o)->retained, "both counting containers gone"); cee_del(own); CHECK(DEAD(o), "owner gone"); }
  else { cee_list_remove(own, 0); CHECK(!DEAD(o) && get_in_degree(o) == 2 && !H(o)->retained, "released"); cee_del(b); CHECK(get_in_degree(o) == 1, "one"); cee_del_e(CEE_DP_DEL_RC, a); CHECK(DEAD(o), "gone"); }
  cee_del(s); }
/* each slot follows its own policy, in every combination */
static void slots(int n, int kind, int combo) {
  struct cee_state *s = cee_state_mk(4); enum cee_del_policy o[4]; void *x[4]; int i, c = combo; bool nul[4]; st = s;
  for (i = 0; i < n; i++) { o[i] = c % 3; c /= 3; nul[i] = o[i] == CEE_DP_NOOP && chance(30); x[i] = nul[i] ? NULL : kind == K_ENV && i == 0 ? (void *)cee_env_mk(s, NULL, NULL) : kind == K_ENV ? (void *)cee_map_mk(s, ocmp) : kind == K_MAP && i == 0 ? (void *)cee_str_mk(s, "k") : (void *)cee_boxed_from_i32(s, i); if (kind == K_MAP) { if (!x[i]) x[i] = cee_str_mk(s, "k"), nul[i] = false; } }
  tr("%s with policies", kn[kind]); for (i = 0; i < n; i++) tr(" %d", o[i]); tr(";");
  void *p = kind == K_TUPLE ? (void *)cee_tuple_mk_e(s, o, x[0], x[1]) : kind == K_TRIPLE ? (void *)cee_triple_mk_e(s, o, x[0], x[1], x[2]) : kind == K_QUAD ? (void *)cee_quadruple_mk_e(s, o, x[0], x[1], x[2], x[3]) : kind == K_ENV ? (void *)cee_env_mk_e(s, o, x[0], x[1]) : (void *)cee_map_mk_e(s, o, ocmp);
  if (kind == K_MAP) cee_map_add(p, x[0], x[1]);
  for (i = 0; i < n; i++) if (!nul[i]) { CHECK(get_in_degree(x[i]) == (o[i] == CEE_DP_DEL_RC), "slot %d counted %d", i, get_in_degree(x[i])); CHECK(H(x[i])->retained == (o[i] == CEE_DP_DEL), "slot %d retained %d", i, H(x[i])->retained); }
  int more = rnd(n); if (!nul[more] && o[more] == CEE_DP_DEL_RC) cee_incr_indegree(CEE_DP_DEL_RC, x[more]); else more = -1;
  cee_del(p); CHECK(DEAD(p), "container not freed");
  for (i = 0; i < n; i++) if (!nul[i]) CHECK(DEAD(x[i]) == (o[i] != CEE_DP_NOOP && i != more), "slot %d (policy %d) %s", i, o[i], DEAD(x[i]) ? "was deleted" : "lives on");
  if (more >= 0) { CHECK(get_in_degree(x[more]) == 1, "slot %d keeps %d references", more, get_in_degree(x[more])); cee_del_ref(x[more]); CHECK(DEAD(x[more]), "last reference given up"); }
  cee_del(s); }
/* k references: the k-th cee_del_ref deletes, no earlier one does */
static void counted(int k) { struct cee_state *s = cee_state_mk(2); void *o = cee_boxed_from_i32(s, k); tr("%d references;", k); for (int i = 0; i < k; i++) cee_incr_indegree(CEE_DP_DEL_RC, o); CHECK(get_in_degree(o) == k, "counted %d", get_in_degree(o)); for (int i = 1; i <= k; i++) { CHECK(!DEAD(o), "deleted with references left"); CHECK(get_in_degree(o) == k - i + 1, "count"); cee_del_ref(o); } CHECK(DEAD(o), "not deleted with the last reference"); cee_del(s); }
/* a copy has the policies of the original */
static void copies(int kind, int pol, int n) { struct cee_state *s = cee_state_mk(4); void *e[20], *v[20], *c, *d; enum cee_del_policy o[2] = { pol, pol }; tr("copy of a %s of %d, policy %d;", kn[kind], n, pol); st = s;
  c = kind == K_SET ? (void *)cee_set_mk_e(s, pol, ocmp) : cee_map_mk_e(s, o, ocmp); for (int i = 0; i < n; i++) { e[i] = cee_str_mk(s, "%d", i); v[i] = cee_boxed_from_i32(s, i); if (kind == K_SET) cee_set_add(c, e[i]); else cee_map_add(c, e[i], v[i]); }
  int k = pol == CEE_DP_DEL_RC; d = kind == K_SET ? (void *)cee_set_clone(c) : cee_map_clone(c);
  for (int i = 0; i < n; i++) { CHECK(get_in_degree(e[i]) == 2 * k, "element %d counted %d", i, get_in_degree(e[i])); if (kind == K_MAP) CHECK(get_in_degree(v[i]) == 2 * k, "value %d counted %d", i, get_in_degree(v[i])); }
  cee_del(d); for (int i = 0; i < n; i++) { CHECK(!DEAD(e[i]) && get_in_degree(e[i]) == k, "element %d counted %d after the copy", i, get_in_degree(e[i])); if (kind == K_MAP) CHECK(!DEAD(v[i]) && get_in_degree(v[i]) == k, "value"); }
  cee_del(c); for (int i = 0; i < n; i++) CHECK(DEAD(e[i]) == k && (kind == K_SET || DEAD(v[i]) == k), "element %d", i); cee_del(s); }
/* large containers: deleting one deletes (DEL), gives up (DEL_RC) or leaves (NOOP) every element */
static void large(int kind, int pol, int n) {
  h_begin(); struct cee_state *s = cee_state_mk(4); st = s; void **e = malloc(n * sizeof *e), **v = malloc(n * sizeof *v), *c; enum cee_del_policy o[2] = { pol, pol }; int i; tr("%s of %d, policy %d;", kn[kind], n, pol);
  c = kind == K_LIST ? (void *)cee_list_mk_e(s, pol, 1) : kind == K_STACK ? (void *)cee_stack_mk_e(s, pol, n) : kind == K_SET ? (void *)cee_set_mk_e(s, pol, ocmp) : kind == K_MAP ? (void *)cee_map_mk_e(s, o, ocmp) : (void *)cee_dict_mk_e(s, pol, n);
  for (i = 0; i < n; i++) { e[i] = cee_str_mk(s, "%d", i); v[i] = cee_boxed_from_i32(s, i);
    switch (kind) { case K_LIST: cee_list_append(c, e[i]); break; case K_STACK: cee_stack_push(c, e[i]); break; case K_SET: cee_set_add(c, e[i]); break; case K_MAP: cee_map_add(c, e[i], v[i]); break; default: cee_dict_add(c, e[i], v[i]); } }
  bool kv = kind == K_MAP || kind == K_DICT;
  for (i = 0; i < n; i++) { CHECK(get_in_degree(e[i]) == (pol == CEE_DP_DEL_RC) && H(e[i])->retained == (pol == CEE_DP_DEL), "element %d: count %d, retained %d", i, get_in_degree(e[i]), H(e[i])->retained); if (kv) CHECK(get_in_degree(v[i]) == (pol == CEE_DP_DEL_RC) && H(v[i])->retained == (pol == CEE_DP_DEL), "value %d: count %d, retained %d", i, get_in_degree(v[i]), H(v[i])->retained); }
  int keep = n - 1 - rnd(n < 5 ? n : 5); if (pol == CEE_DP_DEL_RC) cee_incr_indegree(CEE_DP_DEL_RC, e[keep]);
  cee_del(c); CHECK(DEAD(c), "container not freed");
  for (i = 0; i < n; i++) { bool gone = pol != CEE_DP_NOOP && !(pol == CEE_DP_DEL_RC && i == keep); CHECK(DEAD(e[i]) == gone, "element %d %s", i, gone ? "lives on" : "was deleted"); if (kv) CHECK(DEAD(v[i]) == (pol != CEE_DP_NOOP), "value %d", i); }
  if (pol == CEE_DP_DEL_RC) { CHECK(get_in_degree(e[keep]) == 1, "the count of the element that is held"); cee_del_ref(e[keep]); CHECK(DEAD(e[keep]), "last reference"); }
  cee_del(s); free(e); free(v); }
static void large_all(void) { static const int k[] = { K_LIST, K_STACK, K_SET, K_MAP, K_DICT }, sz[] = { 40, 256, 300, 1030, 4100 }; for (int a = 0; a < 5; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 5; c++) { if (b == CEE_DP_NOOP && (k[a] == K_DICT)) continue; large(k[a], b, sz[c]); } h_begin(); }
static void exhaustive(void) { large_all(); for (int n = 0; n < 20; n++) for (int p = 0; p < 2; p++) { copies(K_SET, p ? CEE_DP_DEL_RC : CEE_DP_NOOP, n); copies(K_MAP, p ? CEE_DP_DEL_RC : CEE_DP_NOOP, n); }
   for (int c = 0; c < 81; c++) { slots(4, K_QUAD, c); if (c < 27) slots(3, K_TRIPLE, c); if (c < 9) { slots(2, K_TUPLE, c); slots(2, K_ENV, c); slots(2, K_MAP, c); } } for (int k = 1; k < 12; k++) counted(k); counted(128); counted(256); counted(257); counted(1000); counted(40000);
  for (int k = 0; k < 9; k++) mixed(k / 3, k % 3); cee_del(NULL); cee_del_ref(NULL); cee_del_e(CEE_DP_DEL, NULL); cee_del_e(CEE_DP_DEL_RC, NULL); }
static void one_case(void) {
  long live0 = h_live; st = cee_state_mk(4); no = 0; nkill = 0; int ops = 5 + rnd(60);
  for (int q = 0; q < ops && no < 480; q++) { int w = rnd(100), i;
    if (w < 12 || no < 3) { tr("leaf %d;", leaf()); check_all("new leaf"); }
    else if (w < 30) { container(); check_all("new container"); }
    else if (w < 60) { int c = -1; for (int t = 0; t < 20 && c < 0; t++) { i = rnd(no); if (!O[i].dead && (O[i].kind == K_LIST || O[i].kind == K_STACK || O[i].kind >= K_MAP && O[i].kind <= K_DICT) && O[i].n < 24) c = i; } if (c < 0) continue;
      int x = O[c].kind >= K_MAP ? strleaf() : O[c].pol == CEE_DP_DEL ? leaf() : pick(O[c].pol); if (x < 0 || reaches(x, c)) continue;
      if (O[c].kind == K_LIST) { if (chance(50)) { cee_list_append(O[c].p, O[x].p); took(c, x); } else { int at = rnd(O[c].n + 1); cee_list_insert(O[c].p, at, O[x].p); took(c, x); memmove(O[c].e + at + 1, O[c].e + at, (O[c].n - 1 - at) * sizeof(int)); O[c].e[at] = x; } }
      else if (O[c].kind == K_STACK) { cee_stack_push(O[c].p, O[x].p); took(c, x); }
      else if (O[c].kind == K_SET) { cee_set_add(O[c].p, O[x].p); took(c, x); if (chance(30)) { cee_set_add(O[c].p, O[x].p); tr("again"); } }
      else if (O[c].kind == K_DICT) { int y = leaf(); cee_dict_add(O[c].p, O[x].p, O[y].p); took(c, x); took(c, y); }
      else { int y = O[c].pol == CEE_DP_DEL ? leaf() : pick(O[c].pol); if (y < 0 || reaches(y, c)) y = leaf();
        int j = O[c].n ? 2 * rnd(O[c].n / 2) : -1;
        if (j >= 0 && chance(40)) { /* replace the value of a key already there: the new key object is given up */ void *k = O[O[c].e[j]].p; bool samekey = chance(40), sameval = chance(20); if (sameval) y = O[c].e[j + 1];
          if (!(sameval && O[c].pol == CEE_DP_DEL)) { void *nk = samekey ? k : (void *)cee_str_mk(st, "%s", (char *)k); tr("replace in %d;", c); void *r = cee_map_add(O[c].p, nk, O[y].p); CHECK(r == O[O[c].e[j + 1]].p, "cee_map_add returned another value"); if (!samekey) CHECK(DEAD(nk), "the key object that was not needed was not given up");
          if (!sameval) { int old = O[c].e[j + 1]; if (O[c].pol == CEE_DP_DEL_RC) { O[old].rc--; O[y].rc += !O[y].retained; } else { O[old].retained = 0; O[y].retained = 1; } O[c].e[j + 1] = y; } } O[x].dead = 0; }
        else { cee_map_add(O[c].p, O[x].p, O[y].p); took(c, x); took(c, y); } }
      tr("put %d in %d;", x, c); check_all("put"); }
    else if (w < 75) { int c = -1; for (int t = 0; t < 20 && c < 0; t++) { i = rnd(no); if (!O[i].dead && O[i].n && (O[i].kind == K_LIST || O[i].kind == K_STACK || O[i].kind == K_MAP || O[i].kind == K_SET)) c = i; } if (c < 0) continue; int j = rnd(O[c].n);
      if (O[c].kind == K_LIST) { tr("list remove %d[%d];", c, j); CHECK(cee_list_remove(O[c].p, j), "remove"); untook(c, j); }
      else if (O[c].kind == K_STACK) { tr("pop %d;", c); j = O[c].n - 1; CHECK(cee_stack_pop(O[c].p) == O[O[c].e[j]].p, "pop"); untook(c, j); }
      else if (O[c].kind == K_SET) { tr("set remove %d;", c); CHECK(cee_set_remove(O[c].p, O[O[c].e[j]].p) == O[O[c].e[j]].p, "set remove"); untook(c, j); }
      else { j &= ~1; tr("map remove %d;", c); CHECK(cee_map_remove(O[c].p, O[O[c].e[j]].p) == O[O[c].e[j + 1]].p, "map remove"); untook(c, j); untook(c, j); }
      check_all("take out"); }
    else if (w < 80) { i = pick(CEE_DP_DEL_RC); if (i < 0) continue; tr("incr %d;", i); cee_incr_indegree(CEE_DP_DEL_RC, O[i].p); O[i].rc++; check_all("incr"); if (chance(70)) { if (chance(50)) { tr("decr;"); cee_decr_indegree(CEE_DP_DEL_RC, O[i].p); O[i].rc--; } else if (!noopuse[i]) { tr("del_ref;"); cee_del_ref(O[i].p); O[i].rc--; if (!O[i].rc) mdel(i); } else { cee_decr_indegree(CEE_DP_DEL_RC, O[i].p); O[i].rc--; } check_all("decr"); } else { /* keep an outside reference */ } }
    else if (w < 97) { i = unref(); if (i < 0 || noopuse[i]) continue; bool held = false; for (int a = 0; a < no; a++) if (!O[a].dead) for (int b = 0; b < O[a].n; b++) held |= O[a].e[b] == i; if (held) continue; int how = rnd(3); tr("%s %d;", how == 0 ? "cee_del" : how == 1 ? "cee_del_ref" : "cee_del_e", i); mdel(i); if (how == 0) cee_del(O[i].p); else if (how == 1) cee_del_ref(O[i].p); else cee_del_e(chance(50) ? CEE_DP_DEL : CEE_DP_DEL_RC, O[i].p); check_all("delete"); chain_check(st); }
    else { int c = -1; for (i = 0; i < no; i++) if (!O[i].dead && O[i].kind == K_SET && O[i].n) c = i; if (c < 0) continue; bool ok = true; tr("clear %d;", c); for (int b = 0; b < O[c].n; b++) { int x = O[c].e[b]; if (O[c].pol == CEE_DP_DEL_RC) { O[x].rc--; if (!O[x].rc && !O[x].retained) mdel(x); } else if (O[c].pol == CEE_DP_DEL) mdel(x); } O[c].n = 0; cee_set_clear(O[c].p); check_all("clear"); } }
  cee_del(st); CHECK(h_live == live0, "deleting the state left %ld allocations", h_live - live0);
}
