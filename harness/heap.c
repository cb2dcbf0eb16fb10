/* Counts what the code linked with this file holds: blocks, bytes, and open files and libraries.
 * Refuses what it asks for when told to.  Linked with --wrap for every function below. */
#include <errno.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static long blocks, bytes, handles;

__attribute__((visibility("default"))) void verif_held(long *held) {
    held[0] = blocks;
    held[1] = bytes;
    held[2] = handles;
}

/* n > 0: the n-th request from now on is refused; n < 0: that one and all after it; 0: none.
 * Returns how many were refused since the last call. */
static long countdown, onwards, refused;

__attribute__((visibility("default"))) long verif_fail(long n) {
    long r = refused;
    refused = 0;
    onwards = n < 0;
    countdown = n < 0 ? -n : n;
    return r;
}

static int refuse(void) {
    if (countdown == 0 || (countdown > 1 && countdown--)) return 0;
    if (!onwards) countdown = 0;
    refused++;
    errno = ENOMEM;
    return 1;
}

static void *taken(void *p) {
    if (p) {
        __atomic_add_fetch(&blocks, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
    }
    return p;
}

static void given(void *p) {
    if (p) {
        __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
        __atomic_sub_fetch(&bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
    }
}

static void *opened(void *p) {
    if (p) __atomic_add_fetch(&handles, 1, __ATOMIC_RELAXED);
    return p;
}

void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
void *__real_reallocarray(void *p, size_t n, size_t m);
void *__real_aligned_alloc(size_t a, size_t n);
void  __real_free(void *p);
char *__real_strdup(const char *s);
char *__real_strndup(const char *s, size_t n);
int   __real_vasprintf(char **s, const char *f, va_list a);
void *__real_fopen(const char *p, const char *m);
int   __real_fclose(void *f);
void *__real_fdopen(int d, const char *m);
int   __real_open(const char *p, int o, ...);
int   __real_close(int d);
void *__real_dlopen(const char *p, int f);
int   __real_dlclose(void *h);

void *__wrap_malloc(size_t n) { return refuse() ? NULL : taken(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { return refuse() ? NULL : taken(__real_calloc(n, m)); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return refuse() ? NULL : taken(__real_aligned_alloc(a, n)); }
void __wrap_free(void *p) { given(p); __real_free(p); }
char *__wrap_strdup(const char *s) { return refuse() ? NULL : taken(__real_strdup(s)); }
char *__wrap_strndup(const char *s, size_t n) { return refuse() ? NULL : taken(__real_strndup(s, n)); }

void *__wrap_realloc(void *p, size_t n) {
    if (n != 0 && refuse()) return NULL;
    long b = p ? (long)malloc_usable_size(p) : 0;
    void *q = __real_realloc(p, n);
    if (p && (q || n == 0)) {
        __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
        __atomic_sub_fetch(&bytes, b, __ATOMIC_RELAXED);
    }
    return taken(q);
}

void *__wrap_reallocarray(void *p, size_t n, size_t m) {
    return __wrap_realloc(p, n * m);
}

int __wrap_vasprintf(char **s, const char *f, va_list a) {
    if (refuse()) return -1;
    int n = __real_vasprintf(s, f, a);
    if (n >= 0) taken(*s);
    return n;
}

int __wrap_asprintf(char **s, const char *f, ...) {
    va_list a;
    va_start(a, f);
    int n = __wrap_vasprintf(s, f, a);
    va_end(a);
    return n;
}

void *__wrap_fopen(const char *p, const char *m) { return refuse() ? NULL : opened(__real_fopen(p, m)); }
void *__wrap_fdopen(int d, const char *m) { return __real_fdopen(d, m); }
int __wrap_fclose(void *f) { __atomic_sub_fetch(&handles, 1, __ATOMIC_RELAXED); return __real_fclose(f); }

int __wrap_open(const char *p, int o, ...) {
    if (refuse()) return -1;
    va_list a;
    va_start(a, o);
    int d = __real_open(p, o, va_arg(a, int));
    va_end(a);
    if (d >= 0) __atomic_add_fetch(&handles, 1, __ATOMIC_RELAXED);
    return d;
}

int __wrap_close(int d) { __atomic_sub_fetch(&handles, 1, __ATOMIC_RELAXED); return __real_close(d); }
void *__wrap_dlopen(const char *p, int f) { return refuse() ? NULL : opened(__real_dlopen(p, f)); }
int __wrap_dlclose(void *h) { __atomic_sub_fetch(&handles, 1, __ATOMIC_RELAXED); return __real_dlclose(h); }
