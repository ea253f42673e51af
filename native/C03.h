void *hx_search(void *cx, const void *k, void **r, int (*f)(void *, const void *, const void *)) { return musl_tsearch(cx, k, r, f); }
void *hx_find(void *cx, const void *k, void *const *r, int (*f)(void *, const void *, const void *)) { return musl_tfind(cx, k, r, f); }
void *hx_delete(void *cx, const void *k, void **r, int (*f)(void *, const void *, const void *)) { return musl_tdelete(cx, k, r, f); }
void (*hx_act)(void *, const void *, int, int);
static void hx_walk1(void *cx, const void *n, const VISIT w, const int d) { hx_act(cx, n, w == preorder ? 0 : w == postorder ? 1 : w == endorder ? 2 : w == leaf ? 3 : 99, d); }
void hx_walk(void *cx, const void *r, void (*f)(void *, const void *, int, int)) { hx_act = f; musl_twalk(cx, r, hx_walk1); }
void hx_destroy(void *cx, void *r, void (*f)(void *, void *)) { musl_tdestroy(cx, r, f); }
