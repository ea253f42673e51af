/* C07: every live block is on its state's trace chain exactly once */
#include "common.h"
#include "objs.h"
static void *mk(int k, int i) { void *n = NULL; enum cee_del_policy N2[4] = { CEE_DP_NOOP, CEE_DP_NOOP, CEE_DP_NOOP, CEE_DP_NOOP };
  switch (k) {
  case K_BOX: switch (rnd(5)) { case 0: return cee_boxed_from_double(st, i); case 1: return cee_boxed_from_float(st, i); case 2: return cee_boxed_from_u64(st, i); case 3: return cee_boxed_from_i8(st, i); default: return cee_boxed_from_u16(st, i); }
  case K_STR: return chance(50) ? cee_str_mk(st, "%d", i) : cee_str_mk_e(st, rnd(50), "%d", i);
  case K_BLOCK: return chance(50) ? cee_block_mk(st, rnd(100)) : cee_block_mk_nonzero(st, rnd(100));
  case K_LIST: return cee_list_mk(st, rnd(8)); case K_STACK: return cee_stack_mk(st, rnd(8));
  case K_TUPLE: return cee_tuple_mk_e(st, N2, n, n); case K_TRIPLE: return cee_triple_mk_e(st, N2, n, n, n); case K_QUAD: return cee_quadruple_mk_e(st, N2, n, n, n, n);
  case K_NTUP: return cee_n_tuple_mk(st, 0); case K_TAGGED: return cee_tagged_mk(st, i, NULL); case K_ENV: return cee_env_mk(st, NULL, NULL);
  case K_MAP: { struct cee_map *m = cee_map_mk(st, ocmp); int c = rnd(5); while (c--) cee_map_add(m, cee_str_mk(st, "%d", rnd(20)), cee_boxed_from_i32(st, c)); return m; }
  case K_SET: return cee_set_mk(st, ocmp); case K_DICT: return cee_dict_mk(st, rnd(20)); default: return cee_closure_mk(st, NULL, NULL); } }
static long blocks(void) { long n = chain_check(st); return n; }
/* many blocks: all on the chain; every third deleted, the others still there; deleting the state frees them all */
static void large(int n) { h_begin(); long live0 = h_live; st = cee_state_mk(2); void **p = malloc(n * sizeof *p); tr("%d blocks;", n); long c0 = blocks();
  for (int i = 0; i < n; i++) p[i] = i % 3 == 0 ? (void *)cee_boxed_from_i32(st, i) : i % 3 == 1 ? (void *)cee_str_mk(st, "%d", i) : cee_block_mk(st, i);
  CHECK(blocks() == c0 + n, "%d blocks made, %ld on the chain", n, blocks() - c0); long dead = 0;
  for (int i = 0; i < n; i += 3) { cee_del(p[i]); CHECK(DEAD(p[i]), "block %d", i); p[i] = NULL; dead++; }
  CHECK(blocks() == c0 + n - dead, "the chain after deleting %ld blocks", dead);
  for (int i = 0; i < n; i++) if (p[i]) { CHECK(!DEAD(p[i]), "block %d was freed", i); CHECK(cee_get_state(p[i]) == st, "block %d records another state", i); }
  /* one list and one string that grow to n */
  struct cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, 0); struct cee_str *s = cee_str_mk(st, ""); for (int i = 0; i < n; i++) { cee_list_append(l, p[1]); s = cee_str_add(s, 'x'); if (i % 1000 == 0) { CHECK(on_chain(st, l) && on_chain(st, s), "list and string of %d", i); } } blocks(); CHECK(on_chain(st, l) && on_chain(st, s), "list and string at the end"); CHECK(strlen((char *)s) == n && cee_list_size(l) == n, "sizes");
  cee_del(st); CHECK(h_live == live0, "deleting the state left %ld allocations", h_live - live0); free(p); }
static void exhaustive(void) { large(300); large(1100); large(5000); }
static void one_case(void) {
  long live0 = h_live; st = cee_state_mk(rnd(20)); no = 0; int ops = 1 + rnd(60);
  CHECK(on_chain(st, st->stack) && on_chain(st, st->roots) && on_chain(st, st->contexts), "the state's own containers are on its chain");
  struct cee_state *st2 = NULL; long st2n = 0; if (chance(30)) { st2 = cee_state_mk(3); cee_str_mk(st2, "x"); cee_list_mk(st2, 4); st2n = chain_check(st2); }
  for (int q = 0; q < ops; q++) { int w = rnd(100), i;
    if (w < 55 || !no) { int k = rnd(K_N); tr("mk %s;", kn[k]); struct cee_sect *tail = st->trace_tail; long c0 = blocks(), l0 = h_live; void *p = mk(k, q);
      CHECK(on_chain(st, p), "a new %s is not on the chain", kn[k]); CHECK(cee_get_state(p) == st, "a new %s records another state", kn[k]); CHECK(blocks() > c0, "chain did not grow");
      O[no].p = p; O[no].kind = k; no++; if (no > 500) no = 500; }
    else if (w < 80) { i = rnd(no); long c0 = blocks(); void *p = O[i].p; tr("del %s %d of %d;", kn[O[i].kind], i, no); cee_del(p); CHECK(!on_chain(st, p), "deleted %s still on the chain", kn[O[i].kind]); CHECK(DEAD(p), "deleted %s not freed", kn[O[i].kind]); if (O[i].kind != K_MAP && O[i].kind != K_DICT) CHECK(blocks() == c0 - 1, "deleting one %s removed %ld blocks", kn[O[i].kind], c0 - blocks()); memmove(O + i, O + i + 1, (no - i - 1) * sizeof *O); no--; }
    else if (w < 92) { i = rnd(no); if (O[i].kind != K_STR) continue; if (chance(50)) cee_use_realloc(O[i].p); tr("grow str %d;", i); int c = 1 + rnd(60); while (c--) O[i].p = cee_str_add(O[i].p, 'x'); O[i].p = cee_str_catf(O[i].p, "%d", 1234567); CHECK(on_chain(st, O[i].p), "a resized string is not on the chain"); CHECK(cee_get_state(O[i].p) == st, "state after resize"); }
    else { i = rnd(no); if (O[i].kind == K_LIST) { int c = rnd(20); while (c--) cee_list_append(O[i].p, cee_boxed_from_i8(st, 1)); tr("grow list %d;", i); O[i].kind = K_DICT; } }
    blocks(); for (i = 0; i < no; i++) { CHECK(!DEAD(O[i].p), "a live %s was freed", kn[O[i].kind]); }
    int cnt = 0; if (no) { i = rnd(no); for (struct cee_sect *s = st->trace_tail; s; s = s->trace_prev) cnt += P(s) == O[i].p; CHECK(cnt == 1, "live %s is %d times on the chain", kn[O[i].kind], cnt); } }
  tr("del state;"); cee_del(st); if (st2) { CHECK(chain_check(st2) == st2n, "another state's chain changed"); cee_del(st2); }
  CHECK(h_live == live0, "deleting the state left %ld allocations", h_live - live0);
}
