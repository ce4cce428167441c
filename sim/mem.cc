// Deterministic heap (checked), memory access hooks (compiler instrumentation, own runtime), race detector.
#include "core.h"
#include <link.h>
#include <fcntl.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char __executable_start, etext;

namespace sim {

static void* raw_mmap(void* hint, size_t n, int extra)
{
    return (void*)syscall(SYS_mmap, hint, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | extra, -1, 0);
}
void* raw_map(size_t n) { return raw_mmap(nullptr, n, 0); }

// ---------- heap ----------
static const uintptr_t ABASE = 0x10000000000ull;
static const size_t ASIZE = 24ull << 30;
static unsigned char* g_shadow; // one byte per 16 bytes of arena
static uintptr_t g_bump;
static volatile int g_hlock;
enum { MAGIC = 0x51A10CED, FREED = 0x51A1DEAD };
struct Hdr { uint32_t magic; uint32_t cls; uint64_t size; };
enum { NCLS = 256 };
static void* g_free[NCLS];
struct QEnt { Hdr* h; };
enum { QMAX = 4096 };
static Hdr* g_q[QMAX];
static size_t g_qh, g_qt, g_qbytes;
static uint64_t g_live_blocks;

static void hlock() { while (__atomic_exchange_n(&g_hlock, 1, __ATOMIC_ACQUIRE)) ; }
static void hunlock() { __atomic_store_n(&g_hlock, 0, __ATOMIC_RELEASE); }

static void heap_init()
{
    void* p = raw_mmap((void*)ABASE, ASIZE, MAP_FIXED_NOREPLACE);
    if (p != (void*)ABASE) _exit(97);
    g_shadow = (unsigned char*)raw_mmap((void*)(ABASE + ASIZE + (1ull << 30)), ASIZE / 16, MAP_FIXED_NOREPLACE);
    if ((intptr_t)g_shadow < 0 && (intptr_t)g_shadow > -4096) _exit(97);
    g_bump = ABASE + 4096;
}

static int cls_of(size_t total, size_t* rounded)
{
    if (total <= 1024) {
        size_t r = (total + 31) & ~size_t(31);
        *rounded = r;
        return int(r / 32); // 1..32
    }
    int c = 33;
    size_t base = 1024;
    for (;; base <<= 1) {
        for (int q = 1; q <= 4; q++, c++) {
            size_t sz = base + base / 4 * q;
            if (total <= sz) {
                *rounded = sz;
                return c;
            }
        }
    }
}

static void* heap_alloc(size_t n, size_t align)
{
    if (n > (8ull << 30)) { errno = ENOMEM; return nullptr; }
    hlock();
    if (!g_bump) heap_init();
    size_t rounded;
    size_t pad = align > 16 ? align : 0;
    int c = cls_of(n + sizeof(Hdr) + 16 + pad, &rounded);
    uintptr_t blk;
    if (c < NCLS && g_free[c] && !pad) {
        blk = (uintptr_t)g_free[c];
        g_free[c] = *(void**)(blk + sizeof(Hdr));
    } else {
        blk = g_bump;
        g_bump += rounded;
        if (g_bump > ABASE + ASIZE) { hunlock(); errno = ENOMEM; return nullptr; }
    }
    uintptr_t u = blk + sizeof(Hdr);
    if (pad) u = (u + align - 1) & ~(align - 1);
    Hdr* h = (Hdr*)(u - sizeof(Hdr));
    h->magic = MAGIC;
    h->cls = pad ? 0xffff : c;
    h->size = n;
    size_t g = (u - ABASE) / 16;
    size_t full = n / 16;
    memset(g_shadow + g, 16, full);
    g_shadow[g + full] = (unsigned char)(n % 16);
    g_live_blocks++;
    hunlock();
    if (g_active && n <= (16 << 10)) memset((void*)u, 0xCB, n);
    // tail canary
    memset((void*)(u + n), 0x7E, 16 - n % 16);
    if (g_active) shadow_reset(u, n);
    return (void*)u;
}

static void heap_free(void* p)
{
    if (!p) return;
    uintptr_t u = (uintptr_t)p;
    if (u < ABASE || u >= ABASE + ASIZE) return; // not ours (early ld.so)
    Hdr* h = (Hdr*)(u - sizeof(Hdr));
    if (h->magic != MAGIC) {
        if (g_active) fatal_result("heap-corruption", h->magic == FREED ? "double free" : "free of invalid pointer or overwritten block header");
        return;
    }
    const unsigned char* t = (const unsigned char*)u + h->size;
    for (size_t i = 0; i < 16 - h->size % 16; i++)
        if (t[i] != 0x7E && g_active) fatal_result("heap-overflow", "write beyond the end of a heap block (found at free)");
    hlock();
    size_t g = (u - ABASE) / 16;
    memset(g_shadow + g, 0xFD, h->size / 16 + (h->size % 16 ? 1 : 0));
    h->magic = FREED;
    g_live_blocks--;
    if (h->cls != 0xffff) {
        if (h->size <= 4096 || g_active) {
            size_t fill = h->size < 4096 ? h->size : 4096;
            memset(p, 0xDB, fill);
        }
        // quarantine
        g_q[g_qt++ % QMAX] = h;
        g_qbytes += h->size;
        while (g_qt - g_qh >= QMAX - 1 || g_qbytes > (1 << 20)) {
            Hdr* o = g_q[g_qh++ % QMAX];
            g_qbytes -= o->size;
            if (o->cls < NCLS) {
                *(void**)((uintptr_t)o + sizeof(Hdr)) = g_free[o->cls];
                g_free[o->cls] = o;
            }
        }
    }
    hunlock();
}

bool heap_bad(uintptr_t a, size_t n, const char** why)
{
    if (a < ABASE || a >= g_bump) return false;
    size_t g0 = (a - ABASE) / 16, g1 = (a + n - 1 - ABASE) / 16;
    for (size_t g = g0; g <= g1; g++) {
        unsigned v = g_shadow[g];
        if (v == 16) continue;
        if (v == 0xFD) {
            *why = "use of freed heap memory";
            return true;
        }
        size_t endoff = (g == g1) ? (a + n - 1 - ABASE) % 16 + 1 : 16;
        if (endoff > v) {
            *why = "access outside a heap block";
            return true;
        }
    }
    return false;
}
uint64_t live_blocks() { return g_live_blocks; }
bool heap_check_enabled() { return true; }

// ---------- race shadow ----------
struct Ent { uint32_t clk; uint32_t pc; uint8_t tid; uint8_t mask; uint8_t pad[2]; };
struct Cell { Ent w; Ent r[4]; uint8_t last; uint8_t pad[3]; }; // 64 bytes
enum { PCELLS = 512 };
struct PageEnt { uintptr_t page; Cell* cells; };
enum { PTAB = 1 << 17 };
static PageEnt* g_ptab;
static uintptr_t c_page;
static Cell* c_cells;
static bool g_race_fatal = true;
static uintptr_t g_cxx_lo, g_cxx_hi; // data of libstdc++: its character class caches are filled without synchronisation, by design

void race_reports_fatal(bool on) { g_race_fatal = on; }

void race_shadow_init()
{
    g_ptab = (PageEnt*)raw_map(sizeof(PageEnt) * PTAB);
    c_page = 0;
    if (!g_cxx_hi)
        dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
            if (!strstr(i->dlpi_name, "libstdc++")) return 0;
            for (int k = 0; k < i->dlpi_phnum; k++)
                if (i->dlpi_phdr[k].p_type == PT_LOAD) {
                    uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, hi = lo + i->dlpi_phdr[k].p_memsz;
                    if (!g_cxx_hi || lo < g_cxx_lo) g_cxx_lo = lo;
                    if (hi > g_cxx_hi) g_cxx_hi = hi;
                }
            return 1;
        }, nullptr);
}
static char* g_cellpool;
static size_t g_cellleft;
static Cell* page_cells(uintptr_t page, bool create)
{
    if (page == c_page) return c_cells;
    size_t i = (page * 0x9E3779B97F4A7C15ull) >> 47;
    i &= PTAB - 1;
    while (g_ptab[i].cells) {
        if (g_ptab[i].page == page) {
            c_page = page;
            c_cells = g_ptab[i].cells;
            return c_cells;
        }
        i = (i + 1) & (PTAB - 1);
    }
    if (!create) return nullptr;
    if (g_cellleft < sizeof(Cell) * PCELLS) {
        g_cellleft = 256 * sizeof(Cell) * PCELLS;
        g_cellpool = (char*)raw_map(g_cellleft);
    }
    Cell* c = (Cell*)g_cellpool;
    g_cellpool += sizeof(Cell) * PCELLS;
    g_cellleft -= sizeof(Cell) * PCELLS;
    g_ptab[i].page = page;
    g_ptab[i].cells = c;
    c_page = page;
    c_cells = c;
    return c;
}

void shadow_reset(uintptr_t a, size_t n)
{
    if (!g_ptab || !n || !g_mt) {
        if (!g_ptab || !n || !R || !R->accesses) return;
    }
    uintptr_t e = a + n;
    a &= ~uintptr_t(7);
    while (a < e) {
        uintptr_t pg = a >> 12;
        uintptr_t pe = (pg + 1) << 12;
        if (pe > e) pe = e;
        if (Cell* c = page_cells(pg, false)) memset((void*)(c + ((a >> 3) & (PCELLS - 1))), 0, sizeof(Cell) * ((pe - a + 7) / 8));
        a = pe;
    }
}

static void report_race(uintptr_t a, const Ent& o, int ow, uint32_t pc, int w)
{
    if (a >= g_cxx_lo && a < g_cxx_hi) return;
    for (uint32_t i = 0; i < R->nraces; i++)
        if (R->races[i].pc1 == o.pc && R->races[i].pc2 == pc) return;
    if (R->nraces < MAX_RACES) {
        auto& r = R->races[R->nraces++];
        r.pc1 = o.pc;
        r.pc2 = pc;
        r.w1 = ow;
        r.w2 = w;
    }
    if (g_race_fatal) violation("data-race", "unsynchronised %s at pc=%x and %s at pc=%x by threads %d and %d", ow ? "write" : "read", o.pc, w ? "write" : "read", pc, o.tid, tl_self->id);
}

// returns true if the access conflicts (unordered) with an earlier one
static inline bool race_access(uintptr_t a, unsigned n, bool w, uint32_t pc)
{
    T* me = tl_self;
    Cell* cells = page_cells(a >> 12, true);
    Cell& c = cells[(a >> 3) & (PCELLS - 1)];
    unsigned off = a & 7;
    uint8_t mask = uint8_t(((n >= 8 ? 0xff : ((1u << n) - 1)) << off) & 0xff);
    bool racy = false;
    if (c.w.mask & mask) {
        if (c.w.tid != me->id && c.w.clk > me->vc.c[c.w.tid]) {
            racy = true;
            report_race(a, c.w, 1, pc, w);
        }
    }
    if (w) {
        for (auto& r : c.r)
            if ((r.mask & mask) && r.tid != me->id && r.clk > me->vc.c[r.tid]) {
                racy = true;
                report_race(a, r, 0, pc, 1);
            }
        c.w.tid = me->id;
        c.w.clk = me->vc.c[me->id];
        c.w.pc = pc;
        c.w.mask = mask;
    } else {
        Ent* slot = nullptr;
        for (auto& r : c.r)
            if (r.mask && r.tid == me->id) { slot = &r; break; }
        if (!slot)
            for (auto& r : c.r)
                if (!r.mask) { slot = &r; break; }
        if (!slot) slot = &c.r[c.last++ & 3];
        if (slot->tid == me->id && slot->mask && slot->clk == me->vc.c[me->id]) slot->mask |= mask;
        else slot->mask = mask;
        slot->tid = me->id;
        slot->clk = me->vc.c[me->id];
        slot->pc = pc;
    }
    return racy;
}

static __attribute__((noinline)) void mt_access(uintptr_t a, size_t n, bool w, uint32_t pc)
{
    T* me = tl_self;
    if (!me) return;
    R->accesses++;
    bool racy = false;
    uintptr_t p = a;
    size_t left = n;
    while (left) {
        unsigned k = 8 - (p & 7);
        if (k > left) k = unsigned(left);
        racy |= race_access(p, k, w, pc);
        p += k;
        left -= k;
    }
    if (a >= me->stk_lo && a < me->stk_hi && !racy) return;
    point(racy ? K_RACE : K_MEM);
}

static __attribute__((noinline, cold)) void bad_access(uintptr_t, size_t n, bool w, uint32_t pc, const char* why)
{
    if (R) R->alarm_pc = pc;
    violation("heap-access", "%s: %s of %zu bytes at pc=%x", why, w ? "write" : "read", n, pc);
}

#ifdef SIM_COV // tools/cov.py: which instrumented accesses were ever reached
static unsigned char* g_cov;
__attribute__((constructor)) static void cov_init()
{
    const char* p = getenv("SIM_COV");
    int fd = p ? int(syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CREAT, 0600)) : -1;
    if (fd < 0) return;
    if (!syscall(SYS_ftruncate, fd, 256l << 20)) g_cov = (unsigned char*)mmap(nullptr, 256 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
}
#endif
static inline void acc(uintptr_t a, size_t n, bool w, void* pc)
{
#ifdef SIM_COV
    if (g_cov && (uintptr_t)pc < (256u << 20)) g_cov[(uintptr_t)pc] = 1;
#endif
    if (!g_active || !n) return;
    const char* why;
    if (__builtin_expect(a >= ABASE && a < g_bump, 0)) {
        if (heap_bad(a, n, &why)) bad_access(a, n, w, uint32_t((uintptr_t)pc), why);
    }
    if (g_mt) mt_access(a, n, w, uint32_t((uintptr_t)pc));
}

static inline void atomic_sync(const volatile void* a)
{
    if (!g_mt || !tl_self) return;
    point(K_MEM);
    acquire_edge((const void*)a);
    release_edge((const void*)a);
}

} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void* malloc(size_t n) { return heap_alloc(n, 16); }
void free(void* p) { heap_free(p); }
void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = heap_alloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    if (n == 0) { free(p); return nullptr; }
    Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
    if (h->magic != MAGIC && g_active) fatal_result("heap-corruption", "realloc of invalid pointer");
    void* q = heap_alloc(n, 16);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    free(p);
    return q;
}
void* memalign(size_t al, size_t n) { return heap_alloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al); }
int posix_memalign(void** p, size_t al, size_t n)
{
    *p = heap_alloc(n, al);
    return *p ? 0 : ENOMEM;
}
void* valloc(size_t n) { return heap_alloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size : 0; }

void __tsan_init(void) {}
void __tsan_func_entry(void*)
{
#ifdef SIM_COV
    if (g_cov && (uintptr_t)PC < (256u << 20)) g_cov[(uintptr_t)PC] = 1;
#endif
}
void __tsan_func_exit(void) {}
void __tsan_read1(void* a) { acc((uintptr_t)a, 1, false, PC); }
void __tsan_read2(void* a) { acc((uintptr_t)a, 2, false, PC); }
void __tsan_read4(void* a) { acc((uintptr_t)a, 4, false, PC); }
void __tsan_read8(void* a) { acc((uintptr_t)a, 8, false, PC); }
void __tsan_read16(void* a) { acc((uintptr_t)a, 16, false, PC); }
void __tsan_write1(void* a) { acc((uintptr_t)a, 1, true, PC); }
void __tsan_write2(void* a) { acc((uintptr_t)a, 2, true, PC); }
void __tsan_write4(void* a) { acc((uintptr_t)a, 4, true, PC); }
void __tsan_write8(void* a) { acc((uintptr_t)a, 8, true, PC); }
void __tsan_write16(void* a) { acc((uintptr_t)a, 16, true, PC); }
void __tsan_unaligned_read2(void* a) { acc((uintptr_t)a, 2, false, PC); }
void __tsan_unaligned_read4(void* a) { acc((uintptr_t)a, 4, false, PC); }
void __tsan_unaligned_read8(void* a) { acc((uintptr_t)a, 8, false, PC); }
void __tsan_unaligned_read16(void* a) { acc((uintptr_t)a, 16, false, PC); }
void __tsan_unaligned_write2(void* a) { acc((uintptr_t)a, 2, true, PC); }
void __tsan_unaligned_write4(void* a) { acc((uintptr_t)a, 4, true, PC); }
void __tsan_unaligned_write8(void* a) { acc((uintptr_t)a, 8, true, PC); }
void __tsan_unaligned_write16(void* a) { acc((uintptr_t)a, 16, true, PC); }
void __tsan_read_range(void* a, size_t n) { acc((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { acc((uintptr_t)a, n, true, PC); }
void __tsan_volatile_read1(void* a) { acc((uintptr_t)a, 1, false, PC); }
void __tsan_volatile_read2(void* a) { acc((uintptr_t)a, 2, false, PC); }
void __tsan_volatile_read4(void* a) { acc((uintptr_t)a, 4, false, PC); }
void __tsan_volatile_read8(void* a) { acc((uintptr_t)a, 8, false, PC); }
void __tsan_volatile_write1(void* a) { acc((uintptr_t)a, 1, true, PC); }
void __tsan_volatile_write2(void* a) { acc((uintptr_t)a, 2, true, PC); }
void __tsan_volatile_write4(void* a) { acc((uintptr_t)a, 4, true, PC); }
void __tsan_volatile_write8(void* a) { acc((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_update(void** vp, void* nv)
{
    if (*vp != nv) acc((uintptr_t)vp, 8, true, PC);
}
void __tsan_vptr_read(void** vp) { acc((uintptr_t)vp, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

#define ATOMICS(N, TY)                                                                                                                                            \
    TY __tsan_atomic##N##_load(const volatile TY* a, int) { atomic_sync(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }                                        \
    void __tsan_atomic##N##_store(volatile TY* a, TY v, int) { atomic_sync(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                                        \
    TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int) { atomic_sync(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }                             \
    TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int) { atomic_sync(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }                             \
    TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int) { atomic_sync(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }                             \
    TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int) { atomic_sync(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }                             \
    TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int) { atomic_sync(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }                               \
    TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int) { atomic_sync(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }                             \
    TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int) { atomic_sync(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }                           \
    int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int, int) { atomic_sync(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int, int) { atomic_sync(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY c, TY v, int, int) { atomic_sync(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

// bulk memory operations called from instrumented objects (linked with --wrap)
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    acc((uintptr_t)s, n, false, PC);
    acc((uintptr_t)d, n, true, PC);
    return memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    acc((uintptr_t)s, n, false, PC);
    acc((uintptr_t)d, n, true, PC);
    return memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    acc((uintptr_t)d, n, true, PC);
    return memset(d, c, n);
}
} // extern "C"

// allocation faults: only allocations made directly by code of the executable (fimex) can fail
static void* op_new(size_t n, void* pc)
{
    if (g_active && faults_armed() && pc >= (void*)&__executable_start && pc < (void*)&etext) {
        Fault f;
        if (fault_now(OP_ALLOC, &f)) throw std::bad_alloc();
    }
    void* p = heap_alloc(n, 16);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return op_new(n, nullptr); } // only arrays (data) fail
void* operator new[](size_t n) { return op_new(n, PC); }
void operator delete(void* p) noexcept { heap_free(p); }
void operator delete[](void* p) noexcept { heap_free(p); }
void operator delete(void* p, size_t) noexcept { heap_free(p); }
void operator delete[](void* p, size_t) noexcept { heap_free(p); }
