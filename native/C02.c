/* C02: a stack is a bounded LIFO */
#include "common.h"
static void exhaustive(void) { static const int ln[] = { 127, 128, 255, 256, 257, 1000, 5000, 70000 };
  for (int q = 0; q < 8; q++) { int cap = ln[q]; h_begin(); tr("stack of %d;", cap); struct cee_state *st = cee_state_mk(4); struct cee_stack *s = cee_stack_mk_e(st, CEE_DP_NOOP, cap); char *base = malloc(cap + 9);
    for (int r = 0; r < 2; r++) { for (int i = 0; i < cap; i++) { CHECK(!cee_stack_full(s), "full with %d of %d", i, cap); CHECK(cee_stack_push(s, base + i) == 1, "push of number %d", i); CHECK(cee_stack_size(s) == i + 1 && !cee_stack_empty(s), "size with %d", i + 1); CHECK(cee_stack_top(s, 0) == base + i && cee_stack_top(s, i) == base && cee_stack_top(s, i / 2) == base + i - i / 2 && cee_stack_top(s, i + 1) == NULL, "top with %d", i + 1); }
      CHECK(cee_stack_full(s) && cee_stack_push(s, base + cap) == 0 && cee_stack_size(s) == cap && cee_stack_top(s, 0) == base + cap - 1, "push on the full stack of %d", cap);
      for (int i = cap; i-- > 0;) CHECK(cee_stack_pop(s) == base + i, "pop of number %d", i); CHECK(cee_stack_empty(s) && cee_stack_pop(s) == NULL && cee_stack_size(s) == 0, "empty again"); }
    free(base); cee_del(st); } }
static void one_case(void) {
  struct cee_state *st = cee_state_mk(4); void *pool[8]; int i;
  int cap = chance(10) ? rnd(300) : rnd(7); enum cee_del_policy pol = chance(80) ? CEE_DP_DEL_RC : CEE_DP_NOOP; tr("mk %d pol %d;", cap, pol); for (i = 0; i < 8; i++) pool[i] = pol == CEE_DP_NOOP && i > 5 ? NULL : cee_boxed_from_i32(st, i);
  struct cee_stack *s = pol == CEE_DP_DEL_RC && chance(50) ? cee_stack_mk(st, cap) : cee_stack_mk_e(st, pol, cap);
  static void *m[400]; int n = 0, ops = 1 + rnd(60) + (cap > 10 ? 300 : 0), bias = 30 + rnd(40);
  for (int k = 0; k < ops; k++) {
    if (rnd(100) < bias) { void *e = pool[rnd(8)]; tr("push;"); int r = cee_stack_push(s, e); CHECK(r == (n < cap), "push with %d of %d returned %d", n, cap, r); if (n < cap) m[n++] = e; }
    else if (chance(70)) { tr("pop;"); void *r = cee_stack_pop(s); CHECK(r == (n ? m[n - 1] : NULL), "pop returned the wrong element"); if (n) n--; }
    else { unsigned x = rnd(n + 3); tr("top %u;", x); CHECK(cee_stack_top(s, x) == (x < n ? m[n - 1 - x] : NULL), "top %u of %d", x, n); if (chance(10)) CHECK(cee_stack_top(s, (size_t)-1 - rnd(3)) == NULL, "top of a huge index"); }
    CHECK(cee_stack_size(s) == n, "size"); CHECK(cee_stack_empty(s) == (n == 0), "empty"); CHECK(cee_stack_full(s) == (n == cap), "full");
    for (i = 0; i < n; i++) CHECK(cee_stack_top(s, i) == m[n - 1 - i], "element %d from the top", i);
  }
  chain_check(st); cee_del(st);
}
