// The board software's sources with their system calls answered here: every call is reported, the one with a given
// number fails.  /dev/mem is an anonymous file.
#include "mmap_handler.h"
#include "core_axi_lite.h"
#include "xilinx_dma.h"
#include "tools.h"
#include <errno.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <unordered_map>
#undef MAP_FAILED
#define MAP_FAILED ((void*)-1)
using namespace std;

extern "C" int xt_main(int, char**);
static void* got;
static size_t room;
static int fail_at, calls, ev = 1;
static bool failing() { return ++calls == fail_at; }
static void say(const char* f, ...) {
    char b[512];
    va_list a;
    va_start(a, f);
    int n = vsnprintf(b, sizeof b, f, a);
    va_end(a);
    if (n > 0 && ::write(ev, b, n) != n) _exit(99);
}

extern "C" {
int vp_open(const char* path, int flags, ...) {
    bool bad = failing();
    int fd = bad ? -1 : syscall(SYS_memfd_create, "mem", 0);
    say("open %d %d %d\n", strcmp(path, "/dev/mem") == 0, flags, fd);
    if (bad) errno = EACCES;
    return fd;
}
int vp_open64(const char* path, int flags, ...) { return vp_open(path, flags); }
void* vp_mmap(void* at, size_t len, int prot, int flags, int fd, off_t off) {
    bool bad = failing();
    void* p = bad ? MAP_FAILED : (void*)syscall(SYS_mmap, NULL, len + (1 << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    say("mmap %u %lu %d %d %d %d\n", (unsigned)((unsigned long)off & 0xffffffff), (unsigned long)len, prot, flags, fd, !bad);
    if (bad) errno = EPERM;
    return p;
}
void* vp_mmap64(void* at, size_t len, int prot, int flags, int fd, off_t off) { return vp_mmap(at, len, prot, flags, fd, off); }
int vp_close(int fd) { say("close %d\n", fd); return close(fd); }
int vp_stat(const char* p, struct stat* s) {
    bool bad = failing();
    int r = bad ? -1 : stat(p, s);
    say("file stat %d\n", r == 0);
    return r;
}
FILE* vp_fopen(const char* p, const char* mode) {
    bool bad = failing();
    FILE* f = bad ? NULL : fopen(p, mode);
    say("file fopen %d\n", f != NULL);
    return f;
}
size_t vp_fread(void* b, size_t n, size_t k, FILE* f) {
    static bool broken;      // a read that fails gives the first half of what was asked for, and later ones nothing
    size_t r;
    if (broken) r = 0;
    else if ((broken = failing())) r = n && n * k > 1 ? fread(b, 1, n * k / 2, f) / n : 0;
    else r = fread(b, n, k, f);
    say("file fread %d\n", r == k);
    return r;
}
void* vp_malloc(size_t n) {
    bool bad = failing();
    void* p = bad ? NULL : malloc(n);
    if (p) memset(p, 0xA5, n);
    got = p, room = n;
    say("file malloc %d\n", p != NULL);
    return p;
}
void vp_exit(int code) {
    fflush(stdout);
    say("exit %d\n", code);
    _exit(code);
}
}

int main(int argc, char** argv) {
    ev = dup(1);
    if (!freopen("/dev/null", "w", stdout)) return 98;
    fail_at = atoi(argv[1]);
    string op = argv[2];
    if (op == "load") {
        struct mem_data m = load_file(argv[3]);
        unsigned char* p = (unsigned char*)m.pointer;
        say("loaded %u %ld", m.length, m.pointer == got ? (long)room : -1L);
        for (unsigned k = 0; k < m.length + 128; k++) say(" %d", p[k]);
        say("\n");
        clear_mem_data(m);
    } else if (op == "map") {
        MMapHandler h;
        for (int k = 3; k + 1 < argc; k += 2) {
            volatile unsigned char* p = (volatile unsigned char*)h.mmap(strtoul(argv[k], NULL, 0), strtoul(argv[k + 1], NULL, 0));
            p[0] = 1;
            say("used\n");
        }
    } else if (op == "core") {
        CoreAXILite c(strtoul(argv[3], NULL, 0), atoi(argv[4]));
        c.set_width(100);
        say("used\n");
    } else if (op == "dma") {
        XilinxDMA d(strtoul(argv[3], NULL, 0));
        d.set_dma_src_dist(1, 2);
        say("used\n");
    } else if (op == "term") {
        assert_term(argv[3][0] == '1', "condition");
        say("used\n");
    } else if (op == "main") {
        xt_main(argc - 2, argv + 2);
        say("used\n");
    }
    say("end\n");
    return 0;
}
