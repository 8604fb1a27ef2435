// Counts the C heap blocks of the process, and their bytes.
#include <stddef.h>
#include <malloc.h>
#include <errno.h>
#include <sched.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);

static long blocks, bytes;

static int yielding;
static __thread unsigned rnd;

/* now and then, let another thread run */
static void give_way(void) {
    if (!__atomic_load_n(&yielding, __ATOMIC_RELAXED)) return;
    if (!rnd) rnd = (unsigned)(size_t)&rnd | 1;
    rnd = rnd * 1664525u + 1013904223u;
    if ((rnd >> 24) < 40) sched_yield();
}
void verif_yield(int on) { __atomic_store_n(&yielding, on, __ATOMIC_RELAXED); }

static void *in(void *p) {
    give_way();
    if (p) {
        __atomic_add_fetch(&blocks, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
    }
    return p;
}
static void out(void *p) {
    give_way();
    if (p) {
        __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
        __atomic_sub_fetch(&bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
    }
}
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return in(__libc_calloc(n, m)); }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) {
    void *q = in(__libc_memalign(a, n));
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
void *realloc(void *p, size_t n) {
    long was = p ? (long)malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (!q && n) return q;
    if (p) {
        __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
        __atomic_sub_fetch(&bytes, was, __ATOMIC_RELAXED);
    }
    return in(q);
}
void free(void *p) {
    out(p);
    __libc_free(p);
}
void verif_live(long *b, long *n) {
    *b = __atomic_load_n(&blocks, __ATOMIC_RELAXED);
    *n = __atomic_load_n(&bytes, __ATOMIC_RELAXED);
}
