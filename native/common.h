/* Common part of the native harnesses: the real code under test is the text named by TU, compiled as is (tu.c).
   Every check is against a reference model kept here. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <inttypes.h>
#include <errno.h>
#include <ctype.h>
#include <math.h>
#include <limits.h>
#include <assert.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>

long h_live = 0;            /* blocks the code under test has allocated and not freed */
long h_allocs = 0, h_frees = 0;
void *h_malloc(size_t n) { void *p = malloc(n); if (p) { h_live++; h_allocs++; } return p; }
void *h_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) { h_live++; h_allocs++; } return p; }
void h_free(void *p) { if (p) { h_live--; h_frees++; } free(p); }
void *h_realloc(void *p, size_t n) { if (!p) return h_malloc(n); return realloc(p, n); }
char *h_strdup(const char *s) { char *p = h_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
#define H_DEAD(p) (__asan_address_is_poisoned(p))
#define DEAD(b) (__asan_address_is_poisoned((char *)(b) - sizeof(struct cee_sect)))   /* block b has been freed */
#include "cee.h"
#include "cee-json.h"

/* ---------------------------------------------------------------- randomness, trace, verdict */
static uint64_t h_s;
static uint64_t rnd64(void) { h_s += 0x9e3779b97f4a7c15ULL; uint64_t z = h_s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static unsigned rnd(unsigned n) { return n ? (unsigned)(rnd64() % n) : 0; }
static bool chance(unsigned pct) { return rnd(100) < pct; }

static char h_tr[1 << 16]; static size_t h_tn; static uint64_t h_dig;
static unsigned long h_cases, h_distinct;
static uint64_t *h_set; static size_t h_setn;
static uint64_t h_caseseed;
static void h_say(const char *what) {
  printf("FAIL %s\ncase seed %" PRIu64 ", operations of the failing case (the last %zu bytes):\n%s\n", what, h_caseseed, h_tn, h_tr); fflush(stdout); }
static void h_fail(const char *what) { h_say(what); _exit(3); }
static void tr(const char *fmt, ...) {
  va_list ap; if (h_tn > sizeof h_tr - 600) { memmove(h_tr, h_tr + sizeof h_tr / 2, h_tn - sizeof h_tr / 2); h_tn -= sizeof h_tr / 2; h_tr[h_tn] = 0; }
  size_t o = h_tn; va_start(ap, fmt); int n = vsnprintf(h_tr + h_tn, 500, fmt, ap); va_end(ap); if (n > 499) n = 499; if (n > 0) h_tn += n;
  for (; o < h_tn; o++) h_dig = (h_dig ^ (unsigned char)h_tr[o]) * 1099511628211ULL; }
#define CHECK(c, ...) do { if (!(c)) { static char _b[900]; int _n = snprintf(_b, sizeof _b, "%s:%d: ", __FILE__, __LINE__); _n += snprintf(_b + _n, sizeof _b - _n, __VA_ARGS__); if (_n < 880) snprintf(_b + _n, sizeof _b - _n, "  [%.300s]", #c); h_fail(_b); } } while (0)

static void h_death(void) { h_say("memory or undefined-behaviour error in the code under test"); }
void __sanitizer_set_death_callback(void (*)(void));

/* expected traps: TRAPS(expr) is true when evaluating expr traps (SIGSEGV/SIGILL/SIGABRT/SIGTRAP) */
static sigjmp_buf h_jb; static volatile sig_atomic_t h_expect;
static void h_sig(int s) {
  if (s == SIGALRM) { h_say("does not terminate (no progress for 20 s)"); _exit(4); }
  if (h_expect) { h_expect = 0; siglongjmp(h_jb, s); }
  h_say("crash in the code under test"); printf("signal %d\n", s); fflush(stdout); _exit(5); }
#define TRAPS(stmt) ({ bool _t = true; if (sigsetjmp(h_jb, 1) == 0) { h_expect = 1; stmt; _t = false; } h_expect = 0; _t; })

static double h_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void one_case(void);     /* provided by the harness */
static void exhaustive(void);   /* provided by the harness: small cases enumerated once; may be empty */

static void h_begin(void) { h_tn = 0; h_tr[0] = 0; h_dig = 14695981039346656037ULL; alarm(20); }
static void h_end(void) {
  h_cases++;
  if (h_setn < (1u << 20)) { uint64_t i = h_dig & ((1u << 21) - 1); while (h_set[i] && h_set[i] != h_dig) i = (i + 1) & ((1u << 21) - 1);
    if (!h_set[i]) { h_set[i] = h_dig; h_setn++; h_distinct++; } } }

int main(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; double secs = argc > 2 ? atof(argv[2]) : 2;
  uint64_t only = argc > 3 ? strtoull(argv[3], 0, 10) : 0;
  setvbuf(stdout, 0, _IOLBF, 0);
  __sanitizer_set_death_callback(h_death);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = h_sig; sa.sa_flags = SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGTRAP, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGALRM, &sa, 0);
  h_set = mmap(0, sizeof *h_set << 21, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  double t0 = h_now();
  if (!only) { h_caseseed = 0; h_s = seed; h_begin(); exhaustive(); h_end(); }
  uint64_t base = seed * 1000003ULL;
  for (uint64_t k = 0; only ? k < 1 : (k < 3 || h_now() - t0 < secs); k++) {
    h_caseseed = only ? only : base + k; h_s = h_caseseed * 0x2545F4914F6CDD1DULL; h_begin();
    one_case();
    h_end();
  }
  alarm(0);
  printf("CASES %lu %lu\n", h_cases, h_distinct);
  fflush(stdout); _exit(0);
}

/* ---------------------------------------------------------------- helpers shared by the harnesses */
static struct cee_sect *H(void *p) { return (struct cee_sect *)((char *)p - sizeof(struct cee_sect)); }
#define P(s) ((void *)((char *)(s) + sizeof(struct cee_sect)))
/* structural check of a state's trace chain; returns the number of blocks on it */
static long chain_check(struct cee_state *st) {
  long n = 0; struct cee_sect *p = st->trace_tail, *next = NULL;
  CHECK(p != NULL, "empty trace chain");
  for (; p; next = p, p = p->trace_prev) {
    CHECK(!H_DEAD(p), "freed block on the trace chain");
    CHECK(p->trace_next == next, "trace_next of a block does not point to its successor");
    if (P(p) != (void *)st) CHECK(p->state == st, "block on the chain of a state it does not belong to");
    n++; CHECK(n < 10000000, "trace chain is cyclic"); }
  return n; }
static bool on_chain(struct cee_state *st, void *b) { for (struct cee_sect *p = st->trace_tail; p; p = p->trace_prev) if (P(p) == b) return true; return false; }
static int cmp_str(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b); }
