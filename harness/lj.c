/* Reads one command per line, calls the real library, answers with one JSON object per line.
 * Buffers have exactly the size the caller promises, so that the sanitizer sees every overrun.
 *   E w h bd rl skip nimg img.. ndelin delin..
 *   D wl skip nmem canary nlin lin.. nbytes bytes..
 *   F nbytes bytes..        (any bytes: the target has exactly the size lj92_open reports)
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lj92.h"

/* blocks the library holds (the harness allocates with track = 0) */
static int track, live;
static void *held[4096];
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
void __real_free(void *);
static void *take(void *p) {
    for (int i = 0; track && p && i < 4096; i++) if (!held[i]) { held[i] = p; live++; break; }
    return p;
}
static void drop(void *p) {
    for (int i = 0; live && p && i < 4096; i++) if (held[i] == p) { held[i] = NULL; live--; break; }
}
void *__wrap_malloc(size_t n) {
    void *p = __real_malloc(n);
    if (track && p) memset(p, 0xA5, n);     /* nothing may depend on what it held before */
    return take(p);
}
void *__wrap_calloc(size_t n, size_t m) { return take(__real_calloc(n, m)); }
void *__wrap_realloc(void *p, size_t n) {
    void *q = __real_realloc(p, n);
    if (q) { drop(p); take(q); }
    return q;
}
void __wrap_free(void *p) { drop(p); __real_free(p); }
static int left(void) {
    int n = live;
    memset(held, 0, sizeof held);
    live = track = 0;
    return n;
}

static long rd(void) {
    long v;
    if (scanf("%ld", &v) != 1) exit(9);
    return v;
}

static uint16_t *rd16(int n) {
    uint16_t *p = malloc(n * 2 ? n * 2 : 1);
    for (int i = 0; i < n; i++) p[i] = (uint16_t)rd();
    return p;
}

int main(void) {
    char c;
    while (scanf(" %c", &c) == 1) {
        if (c == 'E') {
            int w = rd(), h = rd(), bd = rd(), rl = rd(), skip = rd();
            int n = rd();
            uint16_t *img = rd16(n);
            int nd = rd();
            uint16_t *dl = rd16(nd);
            uint8_t *enc = NULL;
            int len = 0;
            track = 1;
            int ret = lj92_encode(img, w, h, bd, rl, skip, nd ? dl : NULL, nd, &enc, &len);
            printf("{\"ret\":%d,\"file\":[", ret);
            if (ret == 0) {
                for (int i = 0; i < len; i++) printf("%s%d", i ? "," : "", enc[i]);
                free(enc);
            }
            printf("],\"live\":%d}\n", left());
            free(img);
            free(dl);
        } else if (c == 'D') {
            int wl = rd(), skip = rd(), nm = rd(), can = rd();
            int nl = rd();
            uint16_t *lin = rd16(nl);
            int nb = rd();
            uint8_t *d = malloc(nb ? nb : 1);
            for (int i = 0; i < nb; i++) d[i] = (uint8_t)rd();
            uint16_t *mem = malloc(nm * 2 ? nm * 2 : 1);
            for (int i = 0; i < nm; i++) mem[i] = (uint16_t)can;
            lj92 l = NULL;
            int w = -1, h = -1, b = -1, k = -1;
            track = 1;
            int o = lj92_open(&l, d, nb, &w, &h, &b, &k);
            int ret = -100;
            if (o == 0) {
                ret = lj92_decode(l, mem, wl, skip, nl ? lin : NULL, nl);
                lj92_close(l);
            }
            int live = left();
            printf("{\"open\":%d,\"ret\":%d,\"hd\":[%d,%d,%d,%d],\"mem\":[", o, ret, w, h, b, k);
            for (int i = 0; i < nm; i++) printf("%s%d", i ? "," : "", mem[i]);
            printf("],\"live\":%d}\n", live);
            free(mem);
            free(d);
            free(lin);
        }
        else if (c == 'F') {
            int nb = rd();
            uint8_t *d = malloc(nb ? nb : 1);
            for (int i = 0; i < nb; i++) d[i] = (uint8_t)rd();

            lj92 l = NULL;
            int w = -1, h = -1, b = -1, k = -1, ret = -100;
            uint16_t *mem = NULL;
            long n = 0;
            track = 1;
            int o = lj92_open(&l, d, nb, &w, &h, &b, &k);
            track = 0;
            if (o == 0) {
                n = (long)w * h * k;
                if (w < 0 || h < 0 || k < 0 || n > 1 << 20) n = 0;
                else {
                    mem = malloc(n * 2 ? n * 2 : 1);
                    memset(mem, 0xEE, n * 2);
                    track = 1;
                    ret = lj92_decode(l, mem, w * k, 0, NULL, 0);
                }
                track = 1;
                lj92_close(l);
            }
            printf("{\"open\":%d,\"ret\":%d,\"hd\":[%d,%d,%d,%d],\"mem\":[", o, ret, w, h, b, k);
            if (ret == 0 && n <= 4096)
                for (long i = 0; i < n; i++) printf("%s%d", i ? "," : "", mem[i]);
            printf("],\"live\":%d}\n", left());
            free(mem);
            free(d);
        }
        fflush(stdout);
    }
    return 0;
}
