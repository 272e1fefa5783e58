#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
/* Callbacks into the simulator (ctypes).  open returns a handle >= 0,
 * -1 for failure (errno value in *err), -2: not a simulated path. */
typedef long (*open_cb)(const char *path, const char *mode, int *err);
typedef long (*rw_cb)(long handle, char *buf, unsigned long n, int *err);
typedef int (*close_cb)(long handle, int *err);
static open_cb the_open; static rw_cb the_read, the_write; static close_cb the_close;
void dst_set_hooks(open_cb o, rw_cb r, rw_cb w, close_cb c)
{ the_open = o; the_read = r; the_write = w; the_close = c; }
static ssize_t c_read(void *ck, char *buf, size_t n)
{ int err = 0; long r = the_read((long)ck, buf, n, &err); if (r < 0) { errno = err; return -1; } return r; }
static ssize_t c_write(void *ck, const char *buf, size_t n)
{ int err = 0; long r = the_write((long)ck, (char *)buf, n, &err); if (r < 0) { errno = err; return 0; } return r; }
static int c_close(void *ck)
{ int err = 0; int r = the_close((long)ck, &err); if (r < 0) { errno = err; return -1; } return 0; }
FILE *dst_fopen(const char *path, const char *mode)
{
	int err = 0; long h = -2;
	if (the_open) h = the_open(path, mode, &err);
	if (h == -2) return fopen(path, mode);
	if (h < 0) { errno = err; return NULL; }
	cookie_io_functions_t io = { c_read, c_write, NULL, c_close };
	return fopencookie((void *)h, mode, io);
}

/* Memory: allocations number failat .. failat + failn - 1 fail.  Blocks have
 * guard areas and are filled with garbage when allocated and freed, so that use
 * of uninitialised, freed or out of bounds memory does not go unnoticed. */
#include <stdint.h>
#define MAGIC 0x6b1f93c5d2a7e408ULL
#define DEAD 0x0ddba11dead10cc5ULL
#define TAIL 32
typedef struct { size_t size; uint64_t magic; } head;
static long nalloc, failat = -1, failn, ninuse;
void dst_malloc_plan(long at, long n) { nalloc = 0; failat = at; failn = n; }
long dst_malloc_count(void) { return nalloc; }
long dst_malloc_failed(void)
{ return failat < 0 || nalloc <= failat ? 0 : nalloc - failat < failn ? nalloc - failat : failn; }
long dst_malloc_inuse(void) { return ninuse; }
static void corrupt(const char *what)
{ fprintf(stderr, "heap corruption: %s\n", what); fflush(stderr); abort(); }
static int fails(void)
{ long k = nalloc++; return failat >= 0 && k >= failat && k < failat + failn; }
static void *get(size_t n)
{
	if (n > (size_t)1 << 40) return NULL;
	head *h = malloc(sizeof(head) + n + TAIL);
	if (!h) return NULL;
	h->size = n; h->magic = MAGIC ^ n;
	memset(h + 1, 0xa5, n);
	memset((char *)(h + 1) + n, 0xfb, TAIL);
	__atomic_add_fetch(&ninuse, 1, __ATOMIC_RELAXED);
	return h + 1;
}
static head *check(void *p)
{
	head *h = (head *)p - 1;
	if (h->magic == DEAD) corrupt("freed twice");
	if (h->magic != (MAGIC ^ h->size)) corrupt("not allocated, or start overwritten");
	for (int i = 0; i < TAIL; i++)
		if (((unsigned char *)p)[h->size + i] != 0xfb) corrupt("end overwritten");
	return h;
}
void *dst_malloc(size_t n) { if (fails()) { errno = ENOMEM; return NULL; } return get(n); }
void *dst_calloc(size_t n, size_t m)
{ if (fails()) { errno = ENOMEM; return NULL; } void *p = get(n * m); if (p) memset(p, 0, n * m); return p; }
void dst_free(void *p)
{
	if (!p) return;
	head *h = check(p);
	memset(p, 0x5a, h->size);
	h->magic = DEAD;
	__atomic_sub_fetch(&ninuse, 1, __ATOMIC_RELAXED);
	free(h);
}
void *dst_realloc(void *p, size_t n)
{
	if (!p) return dst_malloc(n);
	head *h = check(p);
	if (fails()) { errno = ENOMEM; return NULL; }
	void *q = get(n);
	if (!q) { errno = ENOMEM; return NULL; }
	memcpy(q, p, n < h->size ? n : h->size);
	dst_free(p);
	return q;
}
