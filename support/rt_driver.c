// Drives a sanitized, hosted build of the runtime. A script on descriptor 3 lists calls;
// every string or buffer argument lives in a heap block of exactly its size, so that the
// sanitizers see any access next to it. Results and the blocks afterwards go to descriptor 4.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef long word;

word b_char(word, ...) __asm__("b.char");
void b_lchar(word, ...) __asm__("b.lchar");
word b_read(void) __asm__("b.read");
word b_nread(word, ...) __asm__("b.nread");
word b_nwrite(word, ...) __asm__("b.nwrite");
void b_writeb(word, ...) __asm__("b.writeb");
void b_write(word, ...) __asm__("b.write");
void b_printd(word, ...) __asm__("b.printd");
void b_printo(word, ...) __asm__("b.printo");
void b_printf(word, ...) __asm__("b.printf");
void b_flush(void) __asm__("b.flush");
extern word b_fout __asm__("b.fout");

static FILE *script, *results;

static word get(void)
{
    word w;
    if (fread(&w, 8, 1, script) != 1) {
        fflush(results);
        exit(0);
    }
    return w;
}

static void put(word w) { fwrite(&w, 8, 1, results); }

#define MAXARG 24

int main(void)
{
    script = fdopen(3, "r");
    results = fdopen(4, "w");
    if (!script || !results)
        return 9;
    for (;;) {
        word op = get(), n = get(), i, r = 0;
        word a[MAXARG] = { 0 };
        char *blk[MAXARG] = { 0 };
        word len[MAXARG] = { 0 };
        for (i = 0; i < n; i++) {
            if (get() == 0) {
                a[i] = get();
            } else {
                word off = get();
                len[i] = get();
                blk[i] = malloc(len[i]);
                if (len[i] && fread(blk[i], len[i], 1, script) != 1)
                    return 8;
                a[i] = (word)blk[i] + off;
            }
        }
        switch (op) {
        case 0: r = b_char(a[0], a[1]); break;
        case 1: b_lchar(a[0], a[1], a[2]); break;
        case 2: r = b_read(); break;
        case 3: r = b_nread(a[0], a[1], a[2]); break;
        case 4: r = b_nwrite(a[0], a[1], a[2]); break;
        case 5: b_writeb(a[0]); break;
        case 6: b_write(a[0]); break;
        case 7: b_printd(a[0]); break;
        case 8: b_printo(a[0]); break;
        case 9: b_flush(); break;
        case 10: b_fout = a[0]; break;
        case 11:
            b_printf(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14],
                     a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23]);
            break;
        }
        put(op);
        put(r);
        put(b_fout);
        for (i = 0; i < n; i++)
            if (blk[i]) {
                put(len[i]);
                fwrite(blk[i], len[i], 1, results);
                free(blk[i]);
            }
        fflush(results);
    }
}
