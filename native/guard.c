/* Guarding allocator, preloaded into a monitored process.
 *
 * While switched on, each heap block of 16 B .. 8 MB gets its own pages inside a
 * private reserved range, flush against an inaccessible page (after it, or before
 * it), is filled with a chosen byte, and is made inaccessible for good when freed.
 * Any access out of bounds or after free, compiled by whatever means, faults;
 * reads of memory never written become visible as differing results under
 * different fill bytes; writes into the alignment slack abort at free.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

#define PAGE 4096UL
#define RANGE (1UL << 36)
#define NPAGES (RANGE / PAGE)
#define LIVE_MAX 24000
#define CANARY 0x5C

static uint8_t *base;
static uint64_t *sizes; /* per first page: size, 0 when not live */
static atomic_ulong next_page = 1;
static atomic_long live, total, peak;
static atomic_int mode; /* 0 off, 1 guard after, 2 guard before */
static int fill = 0;

__attribute__((constructor)) static void init(void)
{
    base = mmap(NULL, RANGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sizes = mmap(NULL, NPAGES * sizeof *sizes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED || sizes == MAP_FAILED)
        base = NULL;
}

int guard_set(int m, int f)
{
    if (!base)
        return -1;
    fill = f;
    atomic_store(&mode, m);
    return 0;
}
long guard_total(void) { return atomic_load(&total); }
long guard_peak(void) { return atomic_load(&peak); }

static int ours(const void *p)
{
    return base && (uint8_t *)p >= base && (uint8_t *)p < base + RANGE;
}

static size_t round16(size_t n) { return (n + 15) & ~15UL; }

static void *take(size_t size)
{
    int m = atomic_load_explicit(&mode, memory_order_relaxed);
    if (!m || size < 16 || size > (8UL << 20) || atomic_load(&live) >= LIVE_MAX)
        return NULL;
    size_t body = round16(size), pages = (body + PAGE - 1) / PAGE;
    unsigned long at = atomic_fetch_add(&next_page, pages + 1);
    if (at + pages + 1 >= NPAGES)
        return NULL;
    uint8_t *slot = base + at * PAGE;
    if (mprotect(slot, pages * PAGE, PROT_READ | PROT_WRITE))
        return NULL;
    uint8_t *p = m == 1 ? slot + pages * PAGE - body : slot;
    memset(slot, CANARY, pages * PAGE);
    memset(p, fill, size);
    sizes[at] = size | ((uint64_t)m << 60);
    long l = atomic_fetch_add(&live, 1) + 1;
    atomic_fetch_add(&total, 1);
    if (l > atomic_load(&peak))
        atomic_store(&peak, l);
    return p;
}

static void broken(const char *msg)
{
    (void)!write(2, msg, strlen(msg));
    abort();
}

static size_t size_of(void *p)
{
    size_t at = ((uint8_t *)p - base) / PAGE;
    return sizes[at] & ((1UL << 60) - 1);
}

static void give(void *p)
{
    size_t at = ((uint8_t *)p - base) / PAGE;
    size_t size = size_of(p);
    if (!size)
        broken("guard: freed twice or not a block\n");
    size_t body = round16(size), pages = (body + PAGE - 1) / PAGE;
    uint8_t *slot = base + at * PAGE, *q = p;
    for (uint8_t *c = slot; c < q; c++)
        if (*c != CANARY)
            broken("guard: memory before a block was overwritten\n");
    for (uint8_t *c = q + size; c < slot + pages * PAGE; c++)
        if (*c != CANARY)
            broken("guard: memory after a block was overwritten\n");
    sizes[at] = 0;
    madvise(slot, pages * PAGE, MADV_DONTNEED);
    mprotect(slot, pages * PAGE, PROT_NONE);
    atomic_fetch_sub(&live, 1);
}

void *malloc(size_t n)
{
    void *p = take(n);
    return p ? p : __libc_malloc(n);
}
void free(void *p)
{
    if (!p)
        return;
    int e = errno;
    if (ours(p))
        give(p);
    else
        __libc_free(p);
    errno = e;
}
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (!__builtin_mul_overflow(a, b, &n)) {
        void *p = take(n);
        if (p) {
            memset(p, 0, n);
            return p;
        }
    }
    return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n)
{
    if (!p)
        return malloc(n);
    if (!ours(p))
        return __libc_realloc(p, n);
    if (!n) {
        free(p);
        return NULL;
    }
    void *q = malloc(n);
    if (q) {
        size_t old = size_of(p);
        memcpy(q, p, old < n ? old : n);
        free(p);
    }
    return q;
}
void *memalign(size_t al, size_t n)
{
    if (al <= 16) {
        void *p = take(n);
        if (p)
            return p;
    }
    return __libc_memalign(al, n);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n)
{
    void *p = memalign(al, n);
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
size_t malloc_usable_size(void *p)
{
    if (p && ours(p))
        return size_of(p);
    static size_t (*real)(void *);
    (void)real;
    if (!p)
        return 0;
    /* glibc chunk header */
    size_t c = ((size_t *)p)[-1];
    return (c & ~7UL) - ((c & 2) ? 16 : 8);
}
