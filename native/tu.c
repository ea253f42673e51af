/* Compiled together with the code under test: allocation is counted, nothing else is changed. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <inttypes.h>
#include <errno.h>
#include <ctype.h>
#include <assert.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
void *h_malloc(size_t n); void *h_calloc(size_t a, size_t b); void h_free(void *p); void *h_realloc(void *p, size_t n); char *h_strdup(const char *s);
#define malloc(n) h_malloc(n)
#define calloc(a, b) h_calloc(a, b)
#define realloc(p, n) h_realloc(p, n)
#define free(p) h_free(p)
#undef strdup
#define strdup(s) h_strdup(s)
#include TU
#ifdef SNIP
#include SNIP
#endif
