// Stand-in for the runtime's system-call wrapper in the sanitized build: checks that the
// memory handed to the kernel is addressable (and, when written out, initialised), then calls the kernel.
#include <sys/syscall.h>
#include <stdio.h>
#include <stdlib.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define RT_MSAN 1
#endif
#if __has_feature(address_sanitizer)
#define RT_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define RT_ASAN 1
#endif
#ifdef RT_ASAN
void *__asan_region_is_poisoned(void *beg, unsigned long size);
void __asan_report_load_n(void *p, unsigned long size);
#endif
#ifdef RT_MSAN
void __msan_check_mem_is_initialized(const volatile void *x, unsigned long size);
void __msan_unpoison(const volatile void *a, unsigned long size);
#endif

static inline long syscall(long n, long a1, long a2, long a3)
{
    long ret;
#ifdef RT_ASAN
    if ((n == SYS_read || n == SYS_write) && a3 > 0 && a3 < 1L << 40 && __asan_region_is_poisoned((void *)a2, a3))
        __asan_report_load_n((void *)a2, a3);
#endif
#ifdef RT_MSAN
    if (n == SYS_write && a3 > 0 && a3 < 1L << 40)
        __msan_check_mem_is_initialized((void *)a2, a3);
#endif
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a1), "S"(a2), "d"(a3) : "rcx", "r11", "memory");
#ifdef RT_MSAN
    if (n == SYS_read && ret > 0)
        __msan_unpoison((void *)a2, ret);
#endif
    return ret;
}
