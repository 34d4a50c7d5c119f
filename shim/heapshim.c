/* Memory seam (LD_PRELOAD): every heap block starts at a multiple of 64 bytes and fresh blocks hold a fixed junk pattern
 * (all bits set: NaN as a double), so neither the rounding of vectorised loops nor the contents of numpy.empty arrays depend
 * on what else the process did before. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <malloc.h>

extern void *__libc_memalign(size_t, size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);

#define AL 64
#define JUNK 65536
/* numpy's vector loops fall back to scalar code when the address ranges of operands "overlap", and reckon the range of a
 * strided view one stride too long; a gap of a block's own size behind it keeps neighbours out of that range. */
#define PAD(n) ((n) <= JUNK ? 2 * (n) + AL : (n) < SIZE_MAX / 4 ? (n) + 4096 : (n))

void *malloc(size_t n)
{
    void *p = __libc_memalign(AL, PAD(n));
    if (p && n <= JUNK)
        memset(p, 0xff, n);
    return p;
}

void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    if (n > (1u << 20)) {               /* zero pages of the kernel; aligned by page + header */
        void *q = __libc_memalign(AL, PAD(n));
        if (q)
            memset(q, 0, n);
        return q;
    }
    void *p = __libc_memalign(AL, PAD(n));
    if (p)
        memset(p, 0, n);
    return p;
}

void *realloc(void *p, size_t n)
{
    if (!p)
        return malloc(n);
    if (!n) {
        __libc_free(p);
        return NULL;
    }
    size_t old = malloc_usable_size(p);
    void *q = __libc_realloc(p, PAD(n));
    if (q && ((uintptr_t)q & (AL - 1))) {
        void *r = __libc_memalign(AL, PAD(n));
        if (!r)
            return q;
        memcpy(r, q, old < n ? old : n);
        __libc_free(q);
        q = r;
    }
    return q;
}

void free(void *p)
{
    __libc_free(p);
}
