// Runs the board software against a device on the other end of a pipe.
// The sources are compiled with -fsanitize=thread (gcc), and this file supplies the callbacks: every load and store of
// the mapped registers is announced before it happens, so that loads can be answered and stores observed.
#include "core_axi_lite.h"
#include "xilinx_dma.h"
#include <cstdio>
#include <cstring>
#include <cinttypes>

static const size_t SIZE = 1 << 17;
alignas(4096) static unsigned char page[2][SIZE];       // core, dma
static FILE *out, *in;
static int which = 0, active = 0;
static struct { int p; size_t off; int n; } pend = {0, 0, 0};

static void flush_write() {
    if (!pend.n) return;
    uint64_t v = 0;
    memcpy(&v, page[pend.p] + pend.off, pend.n);
    fprintf(out, "W %zu %d %" PRIu64 "\n", pend.off, pend.n, v);
    pend.n = 0;
}
static void access(const void* a, int n, int write) {
    if (!active) return;
    const unsigned char* c = (const unsigned char*)a;
    for (int p = 0; p < 2; p++)
        if (c >= page[p] && c < page[p] + SIZE) {
            size_t off = c - page[p];
            flush_write();
            if (p != which) { fprintf(out, "X %zu\n", off); return; }
            if (write) { pend = {p, off, n}; return; }
            fprintf(out, "R %zu %d\n", off, n);
            fflush(out);
            uint64_t v = 0;
            if (fscanf(in, "%" SCNu64, &v) != 1) _exit(4);
            memcpy(page[p] + off, &v, n);
        }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ACC(n) \
    void __tsan_read##n(void* a) { access(a, n, 0); } \
    void __tsan_write##n(void* a) { access(a, n, 1); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, 0); } \
    void __tsan_unaligned_write##n(void* a) { access(a, n, 1); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, 0); } \
    void __tsan_volatile_write##n(void* a) { access(a, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, 1); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, unsigned long n) { for (unsigned long i = 0; i < n; i++) access((char*)a + i, 1, 0); }
void __tsan_write_range(void* a, unsigned long n) { for (unsigned long i = 0; i < n; i++) access((char*)a + i, 1, 1); }
unsigned __tsan_atomic32_fetch_add(volatile unsigned* a, unsigned v, int) { unsigned o = *a; *a += v; return o; }
int usleep(useconds_t) { flush_write(); return 0; }
}
MMapHandler::MMapHandler() {}
MMapHandler::~MMapHandler() {}
void* MMapHandler::mmap(uint32_t base, uint32_t length) {
    fprintf(out, "M %u %u\n", base, length);
    return page[which];
}

static void strs(const vector<string>& v) {
    flush_write();
    for (auto& s : v) fprintf(out, "T %s\n", s.c_str());
}
template <class T> static void num(T v) {
    flush_write();
    fprintf(out, "N %" PRIu64 "\n", (uint64_t)v);
}

int main() {
    out = fdopen(dup(1), "w");
    in = stdin;
    if (!freopen("/dev/null", "w", stdout)) return 5;
    CoreAXILite* c = nullptr;
    XilinxDMA* d = nullptr;
    char op[32];
    while (fscanf(in, "%31s", op) == 1) {
        unsigned a = 0, b = 0;
        if (fscanf(in, "%u %u", &a, &b) != 2) return 6;
        string o = op;
        which = o[0] == 'd';
        active = 1;
        if (o == "c_new") { delete c; fflush(out); c = new CoreAXILite(a, b); }
        else if (o == "c_geth") num(c->get_height());
        else if (o == "c_getw") num(c->get_width());
        else if (o == "c_getl") num(c->get_allowed_cycles());
        else if (o == "c_seth") c->set_height(a);
        else if (o == "c_setw") c->set_width(a);
        else if (o == "c_setl") c->set_allowed_cycles(a);
        else if (o == "c_ssss") strs(c->get_ssss());
        else if (o == "c_debug") strs(c->get_debug());
        else if (o == "d_new") { delete d; d = new XilinxDMA(a); }
        else if (o == "d_reset") d->reset_dma();
        else if (o == "d_halt") d->halt_dma();
        else if (o == "d_start") d->start_dma();
        else if (o == "d_addr") d->set_dma_src_dist(a, b);
        else if (o == "d_len") d->set_dma_transfer_len(a, b);
        else if (o == "d_syncr") d->dma_mm2s_sync();
        else if (o == "d_syncw") d->dma_s2mm_sync();
        else if (o == "d_statr") strs(d->dma_mm2s_status());
        else if (o == "d_statw") strs(d->dma_s2mm_status());
        else return 7;
        active = 0;
        flush_write();
        fprintf(out, "D\n");
        fflush(out);
    }
    return 0;
}
