/* C06: a dict finds every key it was given */
#include "common.h"
struct hd { void *t; unsigned a, b; }; struct ent { char *key; void *data; };
extern int hx_hcreate(size_t, struct hd *); extern struct ent *hx_enter(char *, void *, struct hd *), *hx_get(char *, struct hd *); extern void hx_hdestroy(struct hd *);
/* strings that collide under h = 31*h + c: swap "Aa" (65*31+97 = 2112) and "BB" (66*31+66 = 2112) */
static void key(char *b, int k, int kind) { if (kind == 0) sprintf(b, "%d", k); else if (kind == 1) { for (int i = 0; i < 11; i++) { memcpy(b + 2 * i, k >> i & 1 ? "Aa" : "BB", 2); } b[22] = 0; } else if (kind == 2) { b[0] = 1 + k % 255; b[1] = k / 255 ? 1 + k / 255 : 0; b[2] = 0; } else { memset(b, 'x', k % 40); sprintf(b + k % 40, "%d", k); } }
/* large dictionaries and raw tables: every key found, the first value kept */
static void large(int n, int cap, int kind) { h_begin(); struct cee_state *st = cee_state_mk(4); struct cee_dict *d = cee_dict_mk_e(st, CEE_DP_NOOP, cap); char b[100]; tr("dict of %d, created for %d, keys of kind %d;", n, cap, kind); int i;
  for (i = 0; i < n; i++) { key(b, i, kind); cee_dict_add(d, (char *)cee_str_mk(st, "%s", b), (void *)(long)(i + 1)); } 
  for (i = 0; i < n; i++) { key(b, i, kind); CHECK(cee_dict_find(d, b) == (void *)(long)(i + 1), "find %d of %d", i, n); } cee_del(st);
  struct hd h; CHECK(hx_hcreate(cap, &h), "create"); char (*ks)[64] = malloc(64 * n); struct ent *e; tr("the same in a table;");
  for (i = 0; i < n; i++) { key(ks[i], i, kind); e = hx_enter(ks[i], (void *)(long)(i + 1), &h); CHECK(e && e->key == ks[i] && e->data == (void *)(long)(i + 1), "enter %d", i); if (i % 3 == 0) { e = hx_enter(ks[i], (void *)-5L, &h); CHECK(e && e->data == (void *)(long)(i + 1), "second enter %d", i); } }
  for (i = 0; i < n; i++) { key(b, i, kind); e = hx_get(b, &h); CHECK(e && e->data == (void *)(long)(i + 1) && e->key == ks[i], "get %d", i); } CHECK(!hx_get("missing", &h), "get of a missing key"); hx_hdestroy(&h); free(ks); }
static void exhaustive(void) { static const int ns[] = { 8, 64, 255, 257, 1024, 2047 }; for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) for (int k = 0; k < 3; k++) large(ns[i], c == 0 ? 0 : c == 1 ? ns[i] / 2 : ns[i] * 2, k); large(20000, 3, 0); large(60000, 3, 2); h_begin(); }
extern int musl_hcreate(size_t); extern struct ent *musl_hsearch(struct ent, int); extern void musl_hdestroy(void);
/* the table without a handle: FIND is 0, ENTER is 1 */
static void global_table(void) { int n = rnd(40), range = 1 + rnd(30); char b[64], *ks[41]; void *mdl[31] = { 0 }; tr("the program's table;"); CHECK(musl_hcreate(rnd(20)), "create");
  for (int i = 0; i < n; i++) { int k = rnd(range); key(b, k, 0); ks[i] = strdup(b); bool add = chance(50); struct ent *e = musl_hsearch((struct ent){ ks[i], add ? (void *)(long)(i + 1) : NULL }, add); if (add && !mdl[k]) mdl[k] = (void *)(long)(i + 1);
    CHECK(!e == !mdl[k], "key %d", k); if (e) CHECK(e->data == mdl[k] && !strcmp(e->key, b), "value of %d", k); }
  long live = h_live; musl_hdestroy(); for (int i = 0; i < n; i++) free(ks[i]); }
static void one_case(void) {
  if (chance(10)) { global_table(); return; }
  int kind = rnd(4), range = 1 + rnd(chance(10) ? 1500 : 60), ops = 1 + rnd(range * 2), cap = chance(30) ? 0 : rnd(chance(20) ? 300 : 12); tr("kind %d range %d cap %d;", kind, range, cap); char b[100];
  static void *mdl[2000]; memset(mdl, 0, sizeof mdl);
  if (chance(60)) { struct cee_state *st = cee_state_mk(4); struct cee_dict *d = chance(50) ? cee_dict_mk(st, cap) : cee_dict_mk_e(st, CEE_DP_NOOP, cap);
    for (int q = 0; q < ops; q++) { int k = rnd(range); key(b, k, kind);
      if (chance(60)) { tr("add %d;", k); void *v = cee_boxed_from_i32(st, q); cee_dict_add(d, (char *)cee_str_mk(st, "%s", b), v); if (!mdl[k]) mdl[k] = v; }
      else { tr("find %d;", k); if (mdl[k]) CHECK(cee_dict_find(d, b) == mdl[k], "find %s", b); } }
    for (int k = 0; k < range; k++) { key(b, k, kind); if (mdl[k]) CHECK(cee_dict_find(d, b) == mdl[k], "find %s at the end", b); }
    int miss = 0; fflush(stderr); for (int k = 0; k < range && miss < 5; k++) { key(b, k, kind); if (!mdl[k]) { miss++; int s = dup(2), z = open("/dev/null", O_WRONLY); dup2(z, 2); void *r = cee_dict_find(d, b); fflush(stderr); dup2(s, 2); close(s); close(z); CHECK(r == NULL, "find of the missing key %s", b); } }
    chain_check(st); cee_del(st); }
  else { struct hd h; static struct ent *e; CHECK(hx_hcreate(cap, &h), "create"); static char *keys[2000]; int nk = 0;
    for (int q = 0; q < ops; q++) { int k = rnd(range); key(b, k, kind); char *c = strdup(b); keys[nk++] = c; void *v = (void *)(long)(q + 1);
      if (chance(60)) { tr("enter %d;", k); e = hx_enter(c, v, &h); CHECK(e, "enter failed"); if (!mdl[k]) mdl[k] = v; CHECK(!strcmp(e->key, b), "entry for another key"); CHECK(e->data == mdl[k], "entry data"); }
      else { tr("get %d;", k); e = hx_get(c, &h); CHECK((e != NULL) == (mdl[k] != NULL), "get %s", b); if (e) CHECK(e->data == mdl[k] && !strcmp(e->key, b), "get %s returned another entry", b); }
      if (nk >= 1990) break; }
    for (int k = 0; k < range; k++) { key(b, k, kind); e = hx_get(b, &h); CHECK((e != NULL) == (mdl[k] != NULL), "get %s at the end", b); if (e) CHECK(e->data == mdl[k], "data of %s at the end", b); }
    long live = h_live; hx_hdestroy(&h); while (nk) free(keys[--nk]); }
}
