/* C11: product and wrapper objects hold exactly what they were built from */
#include "common.h"
static struct cee_state *st;
static int ocmp(const void *a, const void *b) { return strcmp(a, b); }
static void hdr(void *p, size_t payload, const char *what) { struct cee_sect *h = H(p);
  CHECK(!DEAD(p), "%s", what); CHECK(h->state == st && h->retained == 0 && h->in_degree == 0 && h->gc_mark == 0, "%s: header not initialised", what); CHECK(h->trace != NULL, "%s: no trace function", what);
  if (payload) CHECK(!__asan_region_is_poisoned(p, payload), "%s: storage smaller than its contents", what); CHECK(on_chain(st, p), "%s: not on the chain", what); }
static void *el(void) { switch (rnd(3)) { case 0: return cee_boxed_from_u64(st, rnd64()); case 1: return cee_str_mk(st, "e%u", rnd(1000)); default: return cee_block_mk(st, rnd(50)); } }
static void *X[4], *base[4]; static enum cee_del_policy o[4];
/* elements for a product: with explicit policies a NOOP slot may hold anything, NULL and the same object twice included */
static uint16_t rc0[4]; static int ret0[4];
static void counts(int n, const char *what) { for (int k = 0; k < 4; k++) { int rc = rc0[k], ret = ret0[k]; for (int i = 0; i < n; i++) if (X[i] == base[k]) { rc += o[i] == CEE_DP_DEL_RC; ret |= o[i] == CEE_DP_DEL; }
  if (ret0[k]) rc = rc0[k]; /* a retained object is not counted */ CHECK((H(base[k])->in_degree == rc || (ret && !ret0[k])) && H(base[k])->retained == ret, "%s: an element has count %d and is %sretained (should be %d, %d)", what, H(base[k])->in_degree, H(base[k])->retained ? "" : "not ", rc, ret); } }
static bool OPT(int n) { bool e = chance(60); for (int k = 0; k < 4; k++) { rc0[k] = H(base[k])->in_degree; ret0[k] = H(base[k])->retained; } for (int i = 0; i < n; i++) { o[i] = e ? rnd(3) : CEE_DP_DEL_RC; X[i] = base[i]; if (o[i] == CEE_DP_NOOP && chance(50)) X[i] = chance(50) ? NULL : base[rnd(4)]; tr("%d%s ", o[i], X[i] ? "" : " NULL"); } return e; }
static struct { struct cee_state *s; struct cee_env *e; size_t n; void *a[6]; int calls; void *ret; } seen;
static void *fun(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) { seen.s = s; seen.e = e; seen.n = n; for (size_t i = 0; i < n; i++) seen.a[i] = va_arg(ap, void *); seen.calls++; return seen.ret; }
static void init(void *cxt, void *b) { memset(b, *(char *)cxt, 10); }
static void ntup(int n) { void *e[17]; for (int i = 0; i < 17; i++) e[i] = i < n ? el() : (void *)(uintptr_t)(0x1000 + i); struct cee_n_tuple *t = NULL;
  bool tp = TRAPS(t = cee_n_tuple_mk(st, n, e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15], e[16]));
  if (n > 16) { CHECK(tp, "n_tuple of %d elements accepted", n); return; }
  CHECK(!tp, "n_tuple of %d elements trapped", n); hdr(t, n * sizeof(void *), "n_tuple"); for (int i = 0; i < n; i++) { CHECK(t->_[i] == e[i], "n_tuple of %d: element %d", n, i); CHECK(H(e[i])->in_degree == 1, "n_tuple of %d: element %d counted %d times", n, i, H(e[i])->in_degree); }
  cee_del(t); }
static void envs(int depth) { /* depth nested environments; look every key up from every level */
  struct cee_env *e[12]; struct cee_map *m[12]; bool has[12][4]; void *val[12][4]; static const char *names[] = { "x", "y", "z", "longer name" };
  for (int d = 0; d < depth; d++) { m[d] = chance(80) ? cee_map_mk(st, ocmp) : NULL; for (int k = 0; k < 4; k++) { has[d][k] = m[d] && chance(35); if (has[d][k]) cee_map_add(m[d], cee_str_mk(st, "%s", names[k]), val[d][k] = cee_boxed_from_i32(st, d * 4 + k)); }
    e[d] = chance(50) ? cee_env_mk(st, d ? e[d - 1] : NULL, m[d]) : cee_env_mk_e(st, (enum cee_del_policy[]){ CEE_DP_NOOP, CEE_DP_DEL_RC }, d ? e[d - 1] : NULL, m[d]);
    hdr(e[d], sizeof *e[d], "env"); CHECK(e[d]->outer == (d ? e[d - 1] : NULL) && e[d]->vars == m[d], "env fields"); tr("env %d %s %d%d%d%d;", d, m[d] ? "map" : "null", has[d][0], has[d][1], has[d][2], has[d][3]); }
  for (int d = 0; d < depth; d++) for (int k = 0; k < 4; k++) { void *want = NULL; for (int x = d; x >= 0 && !want; x--) if (has[x][k]) want = val[x][k]; tr("find %d %d;", d, k); CHECK(cee_env_find(e[d], (char *)names[k]) == want, "cee_env_find from level %d of key %s", d, names[k]); }
  CHECK(cee_env_find(NULL, "x") == NULL, "lookup without environment"); }
static void exhaustive(void) { st = cee_state_mk(1); for (int n = 0; n <= 17; n++) { tr("n_tuple %d;", n); ntup(n); } cee_del(st); }
static void one_case(void) {
  long live0 = h_live; st = cee_state_mk(2); void *a = el(), *b = el(), *c = el(), *d = el(); base[0] = a; base[1] = b; base[2] = c; base[3] = d;
  for (int q = 1 + rnd(6); q; q--) switch (rnd(9)) {
  case 0: { tr("tuple;"); bool e = OPT(2); struct cee_tuple *t = e ? cee_tuple_mk_e(st, o, X[0], X[1]) : cee_tuple_mk(st, X[0], X[1]); hdr(t, sizeof *t, "tuple"); CHECK(t->_[0] == X[0] && t->_[1] == X[1], "tuple fields"); counts(2, "tuple"); break; }
  case 1: { tr("triple;"); bool e = OPT(3); struct cee_triple *t = e ? cee_triple_mk_e(st, o, X[0], X[1], X[2]) : cee_triple_mk(st, X[0], X[1], X[2]); hdr(t, sizeof *t, "triple"); CHECK(t->_[0] == X[0] && t->_[1] == X[1] && t->_[2] == X[2], "triple fields"); counts(3, "triple"); break; }
  case 2: { tr("quad;"); while (!OPT(4)) {} struct cee_quadruple *t = cee_quadruple_mk_e(st, o, X[0], X[1], X[2], X[3]); hdr(t, sizeof *t, "quadruple"); CHECK(t->_[0] == X[0] && t->_[1] == X[1] && t->_[2] == X[2] && t->_[3] == X[3], "quadruple fields"); counts(4, "quadruple"); break; }
  case 3: { int n = rnd(17); tr("n_tuple %d;", n); ntup(n); break; }
  case 4: { uintptr_t tag = rnd64(); tr("tagged;"); struct cee_tagged *t = chance(50) ? cee_tagged_mk(st, tag, a) : cee_tagged_mk_e(st, rnd(3), tag, a); hdr(t, sizeof *t, "tagged"); CHECK(t->tag == tag && t->ptr._ == a, "tagged fields"); break; }
  case 5: { size_t n = rnd(300); tr("block %zu;", n); unsigned char *p = cee_block_mk(st, n); hdr(p, n, "block"); CHECK(cee_block_size((struct cee_block *)p) == n, "block size"); for (size_t i = 0; i < n; i++) CHECK(p[i] == 0, "block byte %zu of %zu not zero", i, n);
    p = cee_block_mk_nonzero(st, n); hdr(p, n, "block"); CHECK(cee_block_size((struct cee_block *)p) == n, "block size"); if (n >= 10) { char x = 'k'; p = cee_block_mk_e(st, n, &x, init); hdr(p, n, "block"); for (int i = 0; i < 10; i++) CHECK(p[i] == 'k', "block not initialised by the given function"); } break; }
  case 6: { tr("singleton;"); char raw[CEE_SINGLETON_SIZE + 16]; memset(raw, 0xee, sizeof raw); uintptr_t tag = rnd64(), v = rnd64(); struct cee_singleton *s = cee_singleton_init(raw, tag, v); CHECK(s->tag == tag && s->val == v, "singleton fields"); CHECK((char *)s >= raw && (char *)(s + 1) <= raw + CEE_SINGLETON_SIZE, "singleton outside its storage"); for (int i = 0; i < 16; i++) CHECK(raw[CEE_SINGLETON_SIZE + i] == (char)0xee, "write past the singleton"); CHECK(H(s)->in_degree == 0 && H(s)->retained == 0 && H(s)->trace, "singleton header"); cee_del(s); CHECK(s->tag == tag && s->val == v, "deleting a singleton changed it"); break; }
  case 7: { envs(1 + rnd(8)); break; }
  default: { struct cee_env *e = chance(70) ? cee_env_mk(st, NULL, cee_map_mk(st, ocmp)) : NULL; struct cee_closure *k = cee_closure_mk(st, e, fun); hdr(k, sizeof *k, "closure"); CHECK(k->env == e && k->vfun == fun, "closure fields"); size_t n = rnd(6); void *x[5]; for (int i = 0; i < 5; i++) x[i] = (void *)(uintptr_t)rnd64(); memset(&seen, 0, sizeof seen); seen.ret = (void *)(uintptr_t)rnd64(); tr("call %zu;", n);
    struct cee_state *s2 = chance(50) ? st : NULL; void *r = cee_closure_call(s2, k, n, x[0], x[1], x[2], x[3], x[4]); CHECK(r == seen.ret && seen.calls == 1 && seen.s == s2 && seen.e == e && seen.n == n, "closure call"); for (size_t i = 0; i < n; i++) CHECK(seen.a[i] == x[i], "closure argument %zu", i); } }
  cee_del(st); CHECK(h_live == live0, "deleting the state left %ld allocations", h_live - live0); }
