/* Forced include: routes C stdio file opening and memory allocation of the
 * compiled modules through the simulator (see simio.c).  Without a registered
 * hook it is plain fopen and an allocator with guard areas. */
#ifndef DST_SIMIO_H
#define DST_SIMIO_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
#include <cstdio>
#include <cstdlib>
#include <new>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
extern "C" {
#endif
FILE *dst_fopen(const char *path, const char *mode);
void *dst_malloc(size_t n);
void *dst_calloc(size_t n, size_t m);
void *dst_realloc(void *p, size_t n);
void dst_free(void *p);
#ifdef __cplusplus
}
namespace std {
using ::dst_malloc;
using ::dst_calloc;
using ::dst_realloc;
using ::dst_free;
}
#endif
#define fopen dst_fopen
#define malloc(n) dst_malloc(n)
#define calloc(n, m) dst_calloc(n, m)
#define realloc(p, n) dst_realloc(p, n)
#define free(p) dst_free(p)
#endif
