// Counts the blocks of memory that are in use.
#include "heap.hpp"
#if !defined(__SANITIZE_ADDRESS__)
#include <atomic>
#include <cerrno>
#include <cstddef>
static std::atomic<long> inUse{0};
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) inUse++; return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); if (p) inUse++; return p; }
void *realloc(void *q, size_t n) {
    void *p = __libc_realloc(q, n);
    if (q == nullptr && p != nullptr) inUse++;
    if (q != nullptr && n == 0 && p == nullptr) inUse--;
    return p;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) inUse++; return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
void free(void *p) { if (p) inUse--; __libc_free(p); }
}
long heapBlocks() { return inUse; }
#else
long heapBlocks() { return 0; }
#endif
