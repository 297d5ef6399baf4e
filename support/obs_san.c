// The observer for sanitized builds: same events as obs.c, and every word recorded has
// to be initialised.
#include <unistd.h>

typedef long word;

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
void __msan_check_mem_is_initialized(const volatile void *x, unsigned long size);
#define CHECK(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef CHECK
#define CHECK(p, n)
#endif

static void put(const char *p, long n)
{
    CHECK(p, n);
    while (n > 0) {
        long r = write(1, p, n);
        if (r <= 0)
            return;
        p += r;
        n -= r;
    }
}

word b_ev(word n, ...) __asm__("b.ev");
word b_ev(word n, ...)
{
    __builtin_va_list ap;
    word buf[65];
    long i;
    __builtin_va_start(ap, n);
    if (n < 0 || n > 64)
        n = 0;
    buf[0] = n;
    for (i = 0; i < n; i++)
        buf[i + 1] = __builtin_va_arg(ap, word);
    __builtin_va_end(ap);
    put((const char *)buf, (n + 1) * 8);
    return n;
}

word b_evend(void) __asm__("b.evend");
word b_evend(void)
{
    word buf[2] = { -1, 0 };
    put((const char *)buf, 16);
    return 0;
}

word b_evs(word tag, ...) __asm__("b.evs");
word b_evs(word tag, ...)
{
    __builtin_va_list ap;
    __builtin_va_start(ap, tag);
    const unsigned char *p = (const unsigned char *)__builtin_va_arg(ap, word);
    word n = __builtin_va_arg(ap, word);
    word off = 0;
    __builtin_va_end(ap);
    while (off < n) {
        word buf[35];
        word k = n - off < 32 ? n - off : 32, i;
        buf[0] = k + 2;
        buf[1] = tag;
        buf[2] = off;
        for (i = 0; i < k; i++)
            buf[3 + i] = p[off + i];
        put((const char *)buf, (k + 3) * 8);
        off += k;
    }
    return n;
}
