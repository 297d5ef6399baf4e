// The observer linked into generated programs. It is independent of the
// runtime under test: it records events with its own system calls.
//
//   ev(n, a1, ..., an)   record: word n, then the n words
//   evs(tag, p, n)       records with the n bytes from p: tag, offset, up to 32 bytes
//   evend()              record: word -1, then the number of calls that
//                        arrived with a misaligned stack
typedef long word;

long obs_misaligned;

static long sys_write(long fd, const void *p, long n)
{
    long ret;
    asm volatile("syscall" : "=a"(ret) : "a"(1L), "D"(fd), "S"(p), "d"(n) : "rcx", "r11", "memory");
    return ret;
}

static void put(const char *p, long n)
{
    while (n > 0) {
        long r = sys_write(1, p, n);
        if (r <= 0)
            return;
        p += r;
        n -= r;
    }
}

// Entry points check the alignment the ABI demands at a call, then go on in C.
asm(".globl b.ev\n"
    "b.ev:\n"
    "    lea 8(%rsp), %r11\n"
    "    test $15, %r11\n"
    "    jz obs_ev\n"
    "    incq obs_misaligned(%rip)\n"
    "    jmp obs_ev\n"
    ".globl b.evend\n"
    "b.evend:\n"
    "    lea 8(%rsp), %r11\n"
    "    test $15, %r11\n"
    "    jz obs_evend\n"
    "    incq obs_misaligned(%rip)\n"
    "    jmp obs_evend\n");

__attribute__((used)) word obs_ev(word n, ...)
{
    __builtin_va_list ap;
    word buf[65];
    long i;
    __builtin_va_start(ap, n);
    if (n < 0 || n > 64)
        n = 0;
    buf[0] = n;
    for (i = 0; i < n; i++)
        buf[i + 1] = __builtin_va_arg(ap, word);
    __builtin_va_end(ap);
    put((const char *)buf, (n + 1) * 8);
    return n;
}

__attribute__((used)) word obs_evend(void)
{
    word buf[2];
    buf[0] = -1;
    buf[1] = obs_misaligned;
    put((const char *)buf, 16);
    return 0;
}

__attribute__((used)) word obs_evs(word tag, ...) __asm__("b.evs");
word obs_evs(word tag, ...)
{
    __builtin_va_list ap;
    __builtin_va_start(ap, tag);
    const unsigned char *p = (const unsigned char *)__builtin_va_arg(ap, word);
    word n = __builtin_va_arg(ap, word);
    word off = 0;
    __builtin_va_end(ap);
    while (off < n) {
        word buf[35];
        word k = n - off < 32 ? n - off : 32, i;
        buf[0] = k + 2;
        buf[1] = tag;
        buf[2] = off;
        for (i = 0; i < k; i++)
            buf[3 + i] = p[off + i];
        put((const char *)buf, (k + 3) * 8);
        off += k;
    }
    return n;
}

// evsp(tag) notes how deep the stack is at this call; evspend() records, for every tag
// seen: tag, lowest, highest, number of calls.
static struct { word lo, hi, n; } sps[256];

__attribute__((used)) word obs_evsp(word tag, ...) __asm__("b.evsp");
word obs_evsp(word tag, ...)
{
    word sp = (word)__builtin_frame_address(0);
    if (tag < 0 || tag > 255)
        return 0;
    if (sps[tag].n == 0 || sp < sps[tag].lo)
        sps[tag].lo = sp;
    if (sps[tag].n == 0 || sp > sps[tag].hi)
        sps[tag].hi = sp;
    sps[tag].n++;
    return tag;
}

__attribute__((used)) word obs_evspend(void) __asm__("b.evspend");
word obs_evspend(void)
{
    long i;
    for (i = 0; i < 256; i++)
        if (sps[i].n) {
            word buf[5];
            buf[0] = 4;
            buf[1] = i;
            buf[2] = sps[i].lo;
            buf[3] = sps[i].hi;
            buf[4] = sps[i].n;
            put((const char *)buf, 40);
        }
    return 0;
}
