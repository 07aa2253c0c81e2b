/* An allocator for numpy's array data: every array lies between inaccessible
 * pages, touching the one after it (end) or before it (start); fresh memory is
 * filled with a pattern and freed memory is inaccessible.  Layout of a block:
 * [header][guard][data ...][guard] */
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>

#define PG 4096UL
typedef struct { char *base; size_t total, size; } head;
typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *, size_t);
} allocator;
typedef struct { char name[127]; uint8_t version; allocator a; } handler;

static int at_end, fill;
static unsigned long made, freed, bytes;

static head *of(void *p) { return (head *)(((uintptr_t)p & ~(PG - 1)) - 2 * PG); }

static char *get(size_t n) {
    size_t data = (n + PG - 1) / PG * PG;
    if (!data) data = PG;
    size_t total = data + 3 * PG;
    char *b = mmap(0, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) return 0;
    head *h = (head *)b;
    h->base = b; h->total = total; h->size = n;
    if (mprotect(b + PG, PG, PROT_NONE) || mprotect(b + 2 * PG + data, PG, PROT_NONE)) return 0;
    __atomic_add_fetch(&made, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&bytes, n, __ATOMIC_RELAXED);
    /* an empty array still needs an address inside the data pages */
    return b + 2 * PG + (at_end && n ? data - n : 0);
}
static void *g_malloc(void *c, size_t n) {
    char *p = get(n);
    if (p) memset(p, fill, n);
    return p;
}
static void *g_calloc(void *c, size_t k, size_t s) {
    size_t n;
    if (__builtin_mul_overflow(k, s, &n)) return 0;
    return get(n);
}
static void g_free(void *c, void *p, size_t n) {
    if (!p) return;
    head *h = of(p);
    __atomic_add_fetch(&freed, 1, __ATOMIC_RELAXED);
    munmap(h->base, h->total);
}
static void *g_realloc(void *c, void *p, size_t n) {
    char *q = g_malloc(c, n);
    if (q && p) {
        memcpy(q, p, of(p)->size < n ? of(p)->size : n);
        g_free(c, p, 0);
    }
    return q;
}

handler guard_handler = {"guarded", 1, {0, g_malloc, g_calloc, g_realloc, g_free}};
void guard_mode(int end, int byte) { at_end = end; fill = byte; }
unsigned long guard_made(void) { return made; }
unsigned long guard_freed(void) { return freed; }
