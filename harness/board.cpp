// The board test program: its functions called one by one, and the whole program against a modelled board.
// Compiled with the program's sources (-fsanitize=thread callbacks supplied here, as in host.cpp).
#include "tools.h"
#include "mmap_handler.h"
#include "config.h"
#include <cinttypes>

extern "C" int xt_main(int, char**);        // the program's main, renamed in its object file
void re_order_set_raw12_64bits(volatile void*, struct mem_data);
void re_order_set_raw12_32bits(volatile void*, struct mem_data);
void re_order_lj92(struct mem_data);
void check_first_marker(volatile void*);
void check_last_marker(volatile void*, uint32_t);
void validate(volatile void*, struct mem_data);

static const size_t REGION = 0x2000000, REGS = 1 << 17;
static unsigned char *src, *dst, *ref;
alignas(4096) static unsigned char regs[2][REGS];           // core, dma
static FILE *out, *in;
static bool active = false, copied = false, early = false;
static int polls[2], todo[2] = {-1, -1};
static vector<unsigned char> stream, period;
static struct { int p; size_t off; int n; } pend = {0, 0, 0};

static void hex(const char* tag, const unsigned char* p, size_t n) {
    fprintf(out, "%s ", tag);
    for (size_t i = 0; i < n; i++) fprintf(out, "%02x", p[i]);
    fprintf(out, "\n");
}
static void say() {                     // what the program printed so far goes out first
    cout.flush();
    fflush(stdout);
}
static size_t ngroups(size_t per) { return period.size() / per; }
// words of the first period; how many of the others are not its repetition
static void region(int bytes) {
    size_t per = bytes == 8 ? 6 : 3, k = ngroups(per), n = size_t(4096) * 3072 * 2 / bytes, bad = 0;
    for (size_t i = k; i < n; i++) bad += memcmp(src + i * bytes, src + (i % k) * bytes, bytes) != 0;
    hex("H", src, k * bytes);
    fprintf(out, "B %zu\n", bad);
}
static void flush_write() {
    if (!pend.n) return;
    uint32_t v = 0;
    memcpy(&v, regs[pend.p] + pend.off, 4);
    int p = pend.p; size_t w = pend.off / 4;
    pend.n = 0;
    say();
    if (p == 1 && (w == 0x28 / 4 || w == 0x58 / 4)) {
        if (w == 0x28 / 4) region(INPUT_LENGTH / 8);
        size_t nz = 0;
        for (size_t i = 0; i < REGION; i++) nz += dst[i] != 0;
        fprintf(out, "Z %zu\n", nz);
        todo[w == 0x58 / 4] = polls[w == 0x58 / 4];
    }
    fprintf(out, "W %d %zu %u\n", p, w, v);
    fflush(out);
}
static uint32_t status(int ch) {
    if (todo[0] < 0 || todo[1] < 0) return 0;
    if (todo[ch] > 0) { todo[ch]--; return todo[ch] == 0 ? 0x1000 : todo[ch] % 2 ? 2 : 0; }
    if (ch == 1 && !copied) { memcpy(dst, stream.data(), stream.size()); copied = true; }
    return 0x1002;
}
static void access(const void* a, int n, int write) {
    if (!active) return;
    const unsigned char* c = (const unsigned char*)a;
    if (c >= dst && c < dst + REGION) { if (!write && !copied) early = true; return; }
    for (int p = 0; p < 2; p++)
        if (c >= regs[p] && c < regs[p] + REGS) {
            size_t off = c - regs[p];
            flush_write();
            if (write) { pend = {p, off, n}; return; }
            uint32_t v = 0;
            if (p == 1 && (off == 4 || off == 0x34)) { v = status(off == 0x34); memcpy(regs[p] + off, &v, 4); }
            memcpy(&v, regs[p] + off, 4);
            say();
            fprintf(out, "R %d %zu %u\n", p, off / 4, v);
            fflush(out);
        }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ACC(n) \
    void __tsan_read##n(void* a) { access(a, n, 0); } \
    void __tsan_write##n(void* a) { access(a, n, 1); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, 0); } \
    void __tsan_unaligned_write##n(void* a) { access(a, n, 1); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, 0); } \
    void __tsan_volatile_write##n(void* a) { access(a, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, 1); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, 0); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, 1); }
unsigned __tsan_atomic32_fetch_add(volatile unsigned* a, unsigned v, int) { unsigned o = *a; *a += v; return o; }
int usleep(useconds_t) { flush_write(); return 0; }
}
MMapHandler::MMapHandler() {}
MMapHandler::~MMapHandler() {}
void* MMapHandler::mmap(uint32_t base, uint32_t length) {
    flush_write();
    say();
    fprintf(out, "M %u %u\n", base, length);
    return base == SOURCE_BASE ? src : base == DEST_BASE ? dst : base == DMA_BASE ? regs[1] : regs[0];
}

static vector<unsigned char> bytes() {
    vector<unsigned char> v;
    size_t n;
    if (fscanf(in, "%zu", &n) != 1) _exit(6);
    unsigned x;
    while (v.size() < n) { if (fscanf(in, "%2x", &x) != 1) _exit(6); v.push_back(x); }
    return v;
}
// a picture of 4096 x 3072 packed 12-bit pixels repeating the period
static unsigned char* picture(size_t& n) {
    n = size_t(4096) * 3072 * 3 / 2;
    unsigned char* p = (unsigned char*)malloc(n + 128);
    for (size_t i = 0; i < n; i++) p[i] = period[i % period.size()];
    return p;
}
static struct mem_data file(const vector<unsigned char>& v) {       // as load_file leaves it
    unsigned char* p = (unsigned char*)calloc(v.size() + 128, 1);
    if (v.size()) memcpy(p, v.data(), v.size());
    return mem_data(p, v.size());
}

int main(int, char** argv) {
    in = stdin;
    out = stdout;
    src = (unsigned char*)calloc(REGION + 64, 1);
    dst = (unsigned char*)calloc(REGION + 65536, 1);
    char op[32];
    while (fscanf(in, "%31s", op) == 1) {
        string o = op;
        size_t n;
        if (o == "conf") fprintf(out, "K %u %u %d %d\n", (unsigned)SOURCE_BASE, (unsigned)DEST_BASE, (int)INPUT_LENGTH, (int)AXI_LITE_ENABLE);
        else if (o == "raw64" || o == "raw32") {
            period = bytes();
            memset(src, 0xA5, REGION);
            mem_data raw(picture(n), n);
            if (o == "raw64") re_order_set_raw12_64bits(src, raw); else re_order_set_raw12_32bits(src, raw);
            region(o == "raw64" ? 8 : 4);
            free(raw.pointer);
        } else if (o == "swap") {
            vector<unsigned char> v = bytes();
            mem_data f = file(v);
            re_order_lj92(f);
            hex("H", (unsigned char*)f.pointer, v.size() + v.size() % 2 + 8);
            free(f.pointer);
        } else if (o == "check") {              // file and memory: the three verdicts
            vector<unsigned char> v = bytes(), m = bytes();
            memset(dst, 0, 65536);
            if (m.size()) memcpy(dst, m.data(), m.size());
            mem_data f = file(v);
            re_order_lj92(f);
            check_first_marker(dst);
            check_last_marker(dst, f.length);
            validate(dst, f);
            free(f.pointer);
        } else if (o == "main") {               // paths of both files, what the core delivers, how long the engines take
            char a[4096], b[4096];
            if (fscanf(in, "%4095s %4095s %d %d", a, b, &polls[0], &polls[1]) != 4) return 6;
            stream = bytes();
            period = bytes();
            memset(dst, 0x5A, REGION);
            char* av[] = {(char*)"xilinx_test", a, b, nullptr};
            active = true;
            xt_main(3, av);
            active = false;
            flush_write();
            say();
            fprintf(out, "E %d\n", early);
        } else return 7;
        say();
        fprintf(out, "D\n");
        fflush(out);
    }
    return 0;
}
