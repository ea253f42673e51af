/* random objects of every kind, used by the C07/C08/C09 harnesses */
extern uint16_t get_in_degree(void *);
enum kind { K_BOX, K_STR, K_BLOCK, K_LIST, K_STACK, K_TUPLE, K_TRIPLE, K_QUAD, K_NTUP, K_TAGGED, K_ENV, K_MAP, K_SET, K_DICT, K_CLOSURE, K_N };
static const char *kn[] = { "boxed", "str", "block", "list", "stack", "tuple", "triple", "quadruple", "n_tuple", "tagged", "env", "map", "set", "dict", "closure" };
struct obj { void *p; int kind, pol, rc, retained, dead, n; int e[40]; int serial; };
static struct obj O[600]; static int no; static struct cee_state *st;
static int ocmp(const void *a, const void *b) { return strcmp(a, b); }
