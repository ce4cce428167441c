// Storage seam: libc file I/O interposition with fault injection (scratch files only).
#include "core.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <dirent.h>
#include <algorithm>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

std::string scratch;
std::string scratch_base;
static bool g_armed = false;
enum { MAXFD = 256 };
struct FdInfo { bool used; char path[200]; };
static FdInfo g_fd[MAXFD];
static std::function<bool(const std::string&)>* g_filter;
static std::function<void(const std::string&)>* g_wobs;
static std::vector<Fault>* g_faults;

OpClass fault_op(int k)
{
    switch (k) {
    case F_OPEN_FAIL: return OP_OPEN;
    case F_READ_EIO: case F_READ_SHORT: case F_READ_EOF: case F_READ_FLIP: case F_READ_EINTR: return OP_READ;
    case F_WRITE_ENOSPC: case F_WRITE_EIO: case F_WRITE_SHORT: case F_WRITE_EINTR: return OP_WRITE;
    case F_SYNC_FAIL: return OP_SYNC;
    case F_TRUNC_FAIL: return OP_TRUNC;
    case F_CLOSE_FAIL: return OP_CLOSE;
    case F_SEEK_FAIL: return OP_SEEK;
    case F_UPSTREAM_THROW: case F_UPSTREAM_EMPTY: return OP_UPSTREAM;
    case F_HTTP: return OP_HTTP;
    case F_ALLOC: return OP_ALLOC;
    case F_LIB_FAIL: return OP_LIB;
    default: return OP_MUT;
    }
}

static int g_nofaults = 0;
static int& nofaults() { return tl_self ? tl_self->nofaults : g_nofaults; }
void arm_faults(bool on) { g_armed = on; }
bool faults_armed() { return g_armed && !nofaults(); }
NoFaults::NoFaults() { nofaults()++; }
NoFaults::~NoFaults() { nofaults()--; }
uint64_t op_count(OpClass c) { return R->ops[c]; }
void reset_ops() { for (auto& o : R->ops) o = 0; }
void set_faults(const std::vector<Fault>& f)
{
    if (!g_faults) g_faults = new std::vector<Fault>();
    *g_faults = f;
    R->nfaults = 0;
    for (auto& x : f)
        if (R->nfaults < 64) R->faults[R->nfaults++] = x;
}
uint64_t total_fired()
{
    uint64_t n = 0;
    for (auto f : R->fired) n += f;
    return n;
}
bool fault_now(OpClass c, Fault* out)
{
    if (!g_active || !faults_armed()) return false;
    const uint64_t n = ++R->ops[c];
    if (!g_faults) return false;
    for (auto& f : *g_faults)
        if (f.kind && fault_op(f.kind) == c && n >= f.at && n < uint64_t(f.at) + f.count) {
            R->fired[f.kind]++;
            event(20, f.kind, n);
            *out = f;
            return true;
        }
    return false;
}
void set_fault_filter(std::function<bool(const std::string&)> f)
{
    delete g_filter;
    g_filter = f ? new std::function<bool(const std::string&)>(f) : nullptr;
}
int life() { return R->life; }
void set_write_observer(std::function<void(const std::string&)> f) { g_wobs = f ? new std::function<void(const std::string&)>(f) : nullptr; }

static bool is_scratch(const char* p) { return g_active && p && !scratch.empty() && !strncmp(p, scratch.c_str(), scratch.size()); }
static bool eligible(const char* p)
{
    if (!g_active || !faults_armed() || !tl_self) return false;
    if (!g_filter) return true;
    NoFaults nf;
    bool r = (*g_filter)(p);
    return r;
}
static inline FdInfo* info(int fd) { return (fd >= 0 && fd < MAXFD && g_fd[fd].used) ? &g_fd[fd] : nullptr; }
static void track(int fd, const char* path)
{
    if (fd >= 0 && fd < MAXFD && is_scratch(path)) {
        g_fd[fd].used = true;
        strncpy(g_fd[fd].path, path, sizeof g_fd[fd].path - 1);
    }
}
int open_scratch_fds()
{
    int n = 0;
    for (auto& f : g_fd) n += f.used;
    return n;
}
std::string open_scratch_list()
{
    std::string s;
    for (auto& f : g_fd)
        if (f.used) s += std::string(f.path) + " ";
    return s;
}

// mutating operation: possible crash point. nbytes: size of pending write
static bool mutation_crash(const char* path, size_t nbytes, size_t* torn)
{
    Fault f;
    if (!fault_now(OP_MUT, &f)) return false;
    *torn = nbytes ? f.param % (nbytes + 1) : 0;
    return true;
}
[[noreturn]] static void do_crash()
{
    publish_crash();
    _exit(77);
}

static thread_local unsigned long tl_read_errors;
unsigned long read_errors() { return tl_read_errors; }
// decides what happens to a read of n bytes. returns: -2 proceed with *n, else result with errno set
static ssize_t read_fault(const char* path, size_t* n, Fault* f)
{
    f->kind = 0;
    point(K_IO);
    event(21, *n);
    if (!eligible(path)) return -2;
    if (!fault_now(OP_READ, f)) return -2;
    switch (f->kind) {
    case F_READ_EIO: tl_read_errors++; errno = EIO; return -1;
    case F_READ_EINTR: errno = EINTR; return -1;
    case F_READ_EOF: return 0;
    case F_READ_SHORT: if (*n > 1) *n = 1 + f->param % (*n - 1); return -2;
    default: return -2;
    }
}
static void flip(const Fault& f, void* buf, ssize_t r)
{
    if (f.kind == F_READ_FLIP && r > 0) ((unsigned char*)buf)[(f.param / 8) % r] ^= 1u << (f.param % 8);
}
static ssize_t write_fault(const char* path, size_t* n, int fd, const void* buf)
{
    point(K_IO);
    event(22, *n);
    if (!eligible(path)) return -2;
    size_t torn;
    if (mutation_crash(path, *n, &torn)) {
        if (torn && buf) syscall(SYS_write, fd, buf, torn);
        do_crash();
    }
    Fault f;
    if (!fault_now(OP_WRITE, &f)) return -2;
    switch (f.kind) {
    case F_WRITE_ENOSPC: errno = ENOSPC; return -1;
    case F_WRITE_EIO: errno = EIO; return -1;
    case F_WRITE_EINTR: errno = EINTR; return -1;
    case F_WRITE_SHORT: if (*n > 1) *n = 1 + f.param % (*n - 1); return -2;
    default: return -2;
    }
}
static void written(const char* path)
{
    if (g_wobs && g_active) (*g_wobs)(path);
}
static bool open_fault(const char* path)
{
    if (!is_scratch(path)) return false;
    point(K_IO);
    event(23);
    if (!eligible(path)) return false;
    Fault f;
    if (fault_now(OP_OPEN, &f)) {
        errno = f.param ? int(f.param) : EACCES;
        return true;
    }
    return false;
}

} // namespace sim

using namespace sim;

#define REAL(ret, name, ...)                                                                                                                                      \
    typedef ret (*name##_t)(__VA_ARGS__);                                                                                                                         \
    static name##_t name##_r;                                                                                                                                     \
    if (!name##_r) name##_r = (name##_t)dlsym(RTLD_NEXT, #name)

extern "C" {

static int do_open(int dir, const char* p, int fl, mode_t m)
{
    if (open_fault(p)) return -1;
    int fd = (int)syscall(SYS_openat, dir, p, fl, m);
    if (fd < 0) { return -1; }
    if (g_active) track(fd, p);
    return fd;
}
#define OPENBODY(dir)                                                                                                                                             \
    mode_t m = 0;                                                                                                                                                 \
    if (fl & (O_CREAT | O_TMPFILE)) {                                                                                                                             \
        va_list ap;                                                                                                                                               \
        va_start(ap, fl);                                                                                                                                         \
        m = va_arg(ap, mode_t);                                                                                                                                   \
        va_end(ap);                                                                                                                                               \
    }                                                                                                                                                             \
    return do_open(dir, p, fl, m);
int open(const char* p, int fl, ...) { OPENBODY(AT_FDCWD) }
int open64(const char* p, int fl, ...) { OPENBODY(AT_FDCWD) }
int openat(int d, const char* p, int fl, ...) { OPENBODY(d) }
int openat64(int d, const char* p, int fl, ...) { OPENBODY(d) }
int __open_2(const char* p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
int __open64_2(const char* p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
int __openat_2(int d, const char* p, int fl) { return do_open(d, p, fl, 0); }
int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t read(int fd, void* b, size_t n)
{
    Fault f;
    f.kind = 0;
    if (auto* i = info(fd)) {
        ssize_t r = read_fault(i->path, &n, &f);
        if (r != -2) return r;
    }
    ssize_t r = syscall(SYS_read, fd, b, n);
    flip(f, b, r);
    return r;
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o)
{
    Fault f;
    f.kind = 0;
    if (auto* i = info(fd)) {
        ssize_t r = read_fault(i->path, &n, &f);
        if (r != -2) return r;
    }
    ssize_t r = syscall(SYS_pread64, fd, b, n, o);
    flip(f, b, r);
    return r;
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t __pread_chk(int fd, void* b, size_t n, off_t o, size_t) { return pread64(fd, b, n, o); }
ssize_t __pread64_chk(int fd, void* b, size_t n, off64_t o, size_t) { return pread64(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n)
{
    auto* i = info(fd);
    if (i) {
        ssize_t r = write_fault(i->path, &n, fd, b);
        if (r != -2) return r;
    }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (i) written(i->path);
    return r;
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o)
{
    auto* i = info(fd);
    if (i) {
        ssize_t r = write_fault(i->path, &n, fd, nullptr);
        if (r != -2) return r;
    }
    ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
    if (i) written(i->path);
    return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
    auto* i = info(fd);
    if (i) {
        size_t tot = 0;
        for (int k = 0; k < c; k++) tot += v[k].iov_len;
        size_t n = tot;
        ssize_t r = write_fault(i->path, &n, fd, nullptr);
        if (r != -2) return r;
        if (n < tot) { // short
            ssize_t done = 0;
            for (int k = 0; k < c && n; k++) {
                size_t l = v[k].iov_len < n ? v[k].iov_len : n;
                ssize_t w = syscall(SYS_write, fd, v[k].iov_base, l);
                if (w < 0) return done ? done : w;
                done += w;
                n -= w;
            }
            return done;
        }
    }
    ssize_t r = syscall(SYS_writev, fd, v, c);
    if (i) written(i->path);
    return r;
}
static off64_t do_lseek(int fd, off64_t o, int w)
{
    if (auto* i = info(fd)) {
        event(24);
        Fault f;
        if (eligible(i->path) && fault_now(OP_SEEK, &f)) {
            errno = EIO;
            return -1;
        }
    }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return do_lseek(fd, o, w); }
static int do_ftrunc(int fd, off64_t o)
{
    if (auto* i = info(fd)) {
        point(K_IO);
        event(25);
        if (eligible(i->path)) {
            size_t t;
            if (mutation_crash(i->path, 0, &t)) do_crash();
            Fault f;
            if (fault_now(OP_TRUNC, &f)) {
                errno = ENOSPC;
                return -1;
            }
        }
    }
    return (int)syscall(SYS_ftruncate, fd, o);
}
int ftruncate(int fd, off_t o) { return do_ftrunc(fd, o); }
int ftruncate64(int fd, off64_t o) { return do_ftrunc(fd, o); }
static int do_sync(int fd, int nr)
{
    if (auto* i = info(fd)) {
        point(K_IO);
        event(26);
        if (eligible(i->path)) {
            size_t t;
            if (mutation_crash(i->path, 0, &t)) do_crash();
            Fault f;
            if (fault_now(OP_SYNC, &f)) {
                errno = EIO;
                return -1;
            }
        }
    }
    return (int)syscall(nr, fd);
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
int close(int fd)
{
    if (auto* i = info(fd)) {
        point(K_IO);
        event(27);
        bool fail = false;
        Fault f;
        if (eligible(i->path)) {
            size_t t;
            if (mutation_crash(i->path, 0, &t)) do_crash();
            fail = fault_now(OP_CLOSE, &f);
        }
        i->used = false;
        int r = (int)syscall(SYS_close, fd);
        if (fail) {
            errno = f.param ? int(f.param) : EIO;
            return -1;
        }
        return r;
    }
    return (int)syscall(SYS_close, fd);
}
// directories: the order of the entries is not specified; it depends on the seed and the names only
struct DirList { DIR* d; int n, pos; struct dirent e[200]; };
static DirList g_dirs[8];
static uint64_t name_order(const char* n)
{
    uint64_t h = g_dir_salt;
    for (; *n; n++) h = (h ^ (unsigned char)*n) * 1099511628211ull;
    return h ^ (h >> 29);
}
static struct dirent* next_entry(DIR* d)
{
    typedef struct dirent* (*fn)(DIR*);
    static fn readdir_real;
    if (!readdir_real) readdir_real = (fn)dlsym(RTLD_NEXT, "readdir");
    if (!g_active || !tl_self || !info(dirfd(d))) return readdir_real(d);
    DirList* l = nullptr;
    for (auto& x : g_dirs) if (x.d == d) l = &x;
    if (!l) {
        for (auto& x : g_dirs) if (!x.d) l = &x;
        if (!l) return readdir_real(d);
        l->d = d; // before anybody else can run
        l->n = l->pos = 0;
        point(K_IO);
        event(29);
        while (struct dirent* e = readdir_real(d)) {
            if (l->n == 200) break;
            memcpy(&l->e[l->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        }
        // directory offsets and inode numbers mean nothing to the callers
        std::sort(l->e, l->e + l->n, [](const struct dirent& a, const struct dirent& b) {
            const uint64_t x = name_order(a.d_name), y = name_order(b.d_name);
            return x != y ? x < y : strcmp(a.d_name, b.d_name) < 0;
        });
    }
    return l->pos < l->n ? &l->e[l->pos++] : nullptr;
}
struct dirent* readdir(DIR* d) { return next_entry(d); }
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)next_entry(d); }
int closedir(DIR* d)
{
    typedef int (*fn)(DIR*);
    static fn closedir_real;
    if (!closedir_real) closedir_real = (fn)dlsym(RTLD_NEXT, "closedir");
    for (auto& x : g_dirs) if (x.d == d) x.d = nullptr;
    if (auto* i = info(dirfd(d))) i->used = false;
    return closedir_real(d);
}
int dup(int fd)
{
    int r = (int)syscall(SYS_dup, fd);
    if (auto* i = info(fd)) track(r, i->path);
    return r;
}

// ---------- stdio ----------
static FILE* do_fopen(const char* p, const char* m)
{
    REAL(FILE*, fopen64, const char*, const char*);
    if (open_fault(p)) return nullptr;
    FILE* f = fopen64_r(p, m);
    if (f && g_active) track(fileno(f), p);
    return f;
}
FILE* fopen(const char* p, const char* m) { return do_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { return do_fopen(p, m); }
int fclose(FILE* f)
{
    REAL(int, fclose, FILE*);
    int fd = fileno(f);
    auto* i = info(fd);
    if (!i) return fclose_r(f);
    point(K_IO);
    event(28);
    bool fail = false;
    Fault ft;
    if (eligible(i->path)) {
        size_t t;
        if (mutation_crash(i->path, 0, &t)) do_crash();
        fail = fault_now(OP_CLOSE, &ft);
    }
    i->used = false;
    int r = fclose_r(f);
    if (fail) {
        errno = ft.param ? int(ft.param) : ENOSPC;
        return EOF;
    }
    return r;
}
size_t fread(void* b, size_t s, size_t n, FILE* f)
{
    REAL(size_t, fread, void*, size_t, size_t, FILE*);
    auto* i = g_active ? info(fileno(f)) : nullptr;
    if (!i) return fread_r(b, s, n, f);
    size_t bytes = s * n;
    Fault ft;
    ssize_t r = read_fault(i->path, &bytes, &ft);
    if (r == -1) {
        f->_flags |= 0x20; // error flag
        return 0;
    }
    if (r == 0) {
        f->_flags |= 0x10; // eof flag
        return 0;
    }
    if (ft.kind == F_READ_SHORT) {
        size_t got = fread_r(b, 1, bytes, f);
        f->_flags |= 0x20;
        errno = EIO;
        return s ? got / s : 0;
    }
    size_t got = fread_r(b, s, n, f);
    flip(ft, b, got * s);
    return got;
}
size_t __fread_chk(void* b, size_t, size_t s, size_t n, FILE* f) { return fread(b, s, n, f); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f)
{
    REAL(size_t, fwrite, const void*, size_t, size_t, FILE*);
    auto* i = g_active ? info(fileno(f)) : nullptr;
    if (!i) return fwrite_r(b, s, n, f);
    size_t bytes = s * n;
    ssize_t r = write_fault(i->path, &bytes, fileno(f), nullptr);
    if (r == -1) {
        f->_flags |= 0x20;
        return 0;
    }
    if (bytes < s * n) {
        size_t w = fwrite_r(b, 1, bytes, f);
        f->_flags |= 0x20;
        return s ? w / s : 0;
    }
    return fwrite_r(b, s, n, f);
}
int fflush(FILE* f)
{
    REAL(int, fflush, FILE*);
    if (f && g_active)
        if (auto* i = info(fileno(f))) {
            size_t bytes = 0;
            if (write_fault(i->path, &bytes, fileno(f), nullptr) == -1) {
                f->_flags |= 0x20;
                return EOF;
            }
        }
    return fflush_r(f);
}
static int do_fseeko(FILE* f, off64_t o, int w)
{
    REAL(int, fseeko64, FILE*, off64_t, int);
    if (g_active)
        if (auto* i = info(fileno(f))) {
            point(K_IO);
            event(29);
            Fault ft;
            if (eligible(i->path) && fault_now(OP_SEEK, &ft)) {
                errno = EIO;
                return -1;
            }
        }
    return fseeko64_r(f, o, w);
}
int fseeko(FILE* f, off_t o, int w) { return do_fseeko(f, o, w); }
int fseeko64(FILE* f, off64_t o, int w) { return do_fseeko(f, o, w); }
int fseek(FILE* f, long o, int w) { return do_fseeko(f, o, w); }
static off64_t do_ftello(FILE* f)
{
    REAL(off64_t, ftello64, FILE*);
    return ftello64_r(f);
}
off_t ftello(FILE* f) { return do_ftello(f); }
off64_t ftello64(FILE* f) { return do_ftello(f); }
long ftell(FILE* f) { return do_ftello(f); }

} // extern "C"
