int hx_hcreate(size_t n, struct musl_hsearch_data *d) { memset(d, 0, sizeof *d); return musl_hcreate_r(n, d); }
void *hx_enter(char *k, void *v, struct musl_hsearch_data *d) { MUSL_ENTRY e = { k, v }, *r = NULL; return musl_hsearch_r(e, ENTER, &r, d) ? r : NULL; }
void *hx_get(char *k, struct musl_hsearch_data *d) { MUSL_ENTRY e = { k, 0 }, *r = NULL; return musl_hsearch_r(e, FIND, &r, d) ? r : NULL; }
void hx_hdestroy(struct musl_hsearch_data *d) { musl_hdestroy_r(d); }
