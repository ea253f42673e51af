/* one token of t[*pos..n); kinds: the character, or 300.. as in jsonref.h */
int hx_token(struct cee_state *st, char *t, size_t *pos, size_t n, int *line, char **str, int *kind, double *d, int64_t *i, uint64_t *u) {
  struct tokenizer k; memset(&k, 0, sizeof k); k.line = *line; k.buf = t + *pos; k.buf_end = t + n;
  int r = cee_json_next_token(st, &k);
  *line = k.line; *pos = k.buf - t; *str = (char *)k.str; *kind = k.type == NUMBER_IS_DOUBLE ? 4 : k.type == NUMBER_IS_I64 ? 5 : 6; *d = k.number.real; *i = k.number.i64; *u = k.number.u64;
  return r == tock_eof ? 300 : r == tock_err ? 301 : r == tock_str ? 302 : r == tock_number ? 303 : r == tock_true ? 304 : r == tock_false ? 305 : r == tock_null ? 306 : r; }
