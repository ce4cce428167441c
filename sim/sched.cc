// Scheduler, simulated OpenMP runtime, pthread interposition.
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <linux/futex.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

T thr[MAXT];
uint64_t g_dir_salt;
bool g_active = false;
bool g_mt = false;
int g_quiet = 0;
thread_local T* tl_self = nullptr;
Result* R = nullptr;
Plan plan;

static int g_live = 0;        // live (non FREE) threads
static T* g_cur = nullptr;
static Rng g_srng;
static int g_omp_threads = 1;
static uint64_t g_hash = 0;
static size_t g_replay_idx = 0;
static int s_mode, s_pmem, s_prace, s_psync, s_pchange;
static uint64_t g_step_cap = 400ull * 1000 * 1000;
static bool g_trace_overflow = false;
static int g_clients_left = 0;

const char* const fault_names[F_KIND_COUNT] = {"none", "open_fail", "read_eio", "read_short", "read_eof", "read_flip", "read_eintr", "write_enospc", "write_eio", "write_short",
                                               "write_eintr", "sync_fail", "trunc_fail", "close_fail", "seek_fail", "upstream_throw", "upstream_empty", "http", "alloc", "crash", "lib_fail"};

uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xBF58476D1CE4E5B9ull;
    return h ^ (h >> 29);
}

void event(uint32_t kind, uint64_t a, uint64_t b)
{
    if (!g_active) return;
    g_hash = mix(g_hash, kind * 1000003ull + (tl_self ? tl_self->id : 99));
    g_hash = mix(g_hash, a);
    g_hash = mix(g_hash, b);
}

static long futex(volatile int* uaddr, int op, int val) { return syscall(SYS_futex, uaddr, op, val, nullptr, nullptr, 0); }

static void park(T* me)
{
    while (__atomic_exchange_n(&me->sem, 0, __ATOMIC_ACQUIRE) == 0)
        futex(&me->sem, FUTEX_WAIT_PRIVATE, 0);
}
static void unpark(T* t)
{
    __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
    futex(&t->sem, FUTEX_WAKE_PRIVATE, 1);
}

static void update_mt() { g_mt = g_active && g_live > 1 && g_quiet == 0; }

bool multithreaded() { return g_mt; }
int self() { return tl_self ? tl_self->id : -1; }

static int runnable_list(int* out, T* exclude)
{
    int n = 0;
    for (int i = 0; i < MAXT; i++)
        if (thr[i].st == T::RUNNABLE && &thr[i] != exclude) out[n++] = i;
    return n;
}

static void switch_to(T* me, int id)
{
    R->switches++;
    g_hash = mix(g_hash, R->steps * 31 + id);
    g_cur = &thr[id];
    unpark(&thr[id]);
    if (me) park(me);
}

static void record(uint64_t d, int t)
{
    if (R->ntrace < MAX_TRACE) {
        R->trace[R->ntrace].at = uint32_t(d);
        R->trace[R->ntrace].thr = t;
        R->ntrace++;
    } else
        g_trace_overflow = true;
}

static int replay_lookup(uint64_t d)
{
    auto& v = plan.preempts;
    while (g_replay_idx < v.size() && v[g_replay_idx].first < d) g_replay_idx++;
    if (g_replay_idx < v.size() && v[g_replay_idx].first == d) return v[g_replay_idx].second;
    return -1;
}

void point(int kind)
{
    T* me = tl_self;
    if (!g_mt || !me || me->nopreempt) return;
    const uint64_t d = ++R->steps;
    if (d > g_step_cap) violation("step-limit", "no end after %llu simulated steps", (unsigned long long)d);
    int target = -1;
    int cand[MAXT];
    if (plan.replay_sched) {
        target = replay_lookup(d);
        if (target >= 0 && (target == me->id || thr[target].st != T::RUNNABLE)) target = -1;
    } else {
        int p;
        if (kind == K_MEM) p = s_pmem;
        else if (kind == K_RACE) p = s_prace;
        else if (kind == K_EXT) p = s_psync / 64;
        else p = s_psync;
        if (s_mode == 1) { // priorities
            if (kind != K_MEM || s_pmem) {
                const int pc = (kind == K_MEM) ? s_pmem : (kind == K_RACE ? s_prace : kind == K_EXT ? s_pchange / 64 : s_pchange);
                if (pc && int(g_srng.next() & 0xffff) < pc) {
                    uint32_t lo = UINT_MAX;
                    for (auto& t : thr) if (t.st != T::FREE) lo = std::min(lo, t.prio);
                    me->prio = lo > 0 ? lo - 1 : 0;
                }
            }
            int n = runnable_list(cand, nullptr), best = me->id;
            for (int i = 0; i < n; i++)
                if (thr[cand[i]].prio > thr[best].prio) best = cand[i];
            if (best != me->id) target = best;
        } else if (p && int(g_srng.next() & 0xffff) < p) {
            int n = runnable_list(cand, me);
            if (n) target = cand[g_srng.below(n)];
        }
        if (target >= 0) record(d, target);
    }
    if (target >= 0) switch_to(me, target);
}

void yield_point(int kind) { point(kind); }

static std::string describe_blocked()
{
    std::string s;
    char buf[160];
    for (auto& t : thr)
        if (t.st == T::BLOCKED) {
            snprintf(buf, sizeof buf, " thread%d waits for %s;", t.id, t.waitwhat);
            s += buf;
        }
    return s;
}

// current thread cannot continue (state already set): choose another
static void forced_switch(T* me, bool dying)
{
    const uint64_t d = ++R->steps;
    int cand[MAXT];
    int n = runnable_list(cand, nullptr);
    if (n == 0) {
        violation("deadlock", "all threads blocked:%s", describe_blocked().c_str());
    }
    int target = cand[0];
    if (plan.replay_sched) {
        int t = replay_lookup(d);
        if (t >= 0 && thr[t].st == T::RUNNABLE) target = t;
    } else {
        if (s_mode == 1) {
            for (int i = 0; i < n; i++)
                if (thr[cand[i]].prio > thr[target].prio) target = cand[i];
        } else
            target = cand[g_srng.below(n)];
        if (target != cand[0]) record(d, target);
    }
    if (target == me->id) { // became runnable again meanwhile (cannot happen for dying)
        g_cur = me;
        return;
    }
    switch_to(dying ? nullptr : me, target);
}

void block(T* me, const void* key, const char* what)
{
    me->st = T::BLOCKED;
    me->wait = key;
    me->waitwhat = what;
    forced_switch(me, false);
    me->wait = nullptr;
}

void wake(const void* key)
{
    for (auto& t : thr)
        if (t.st == T::BLOCKED && t.wait == key) t.st = T::RUNNABLE;
}

// ---------- happens-before ----------
static std::unordered_map<const void*, VC>* g_keyvc;
void acquire_edge(const void* key)
{
    if (!g_mt || !tl_self) return;
    auto it = g_keyvc->find(key);
    if (it != g_keyvc->end()) tl_self->vc.join(it->second);
}
void release_edge(const void* key)
{
    if (!g_mt || !tl_self) return;
    (*g_keyvc)[key].join(tl_self->vc);
    tl_self->vc.c[tl_self->id]++;
}

// ---------- threads ----------
struct Team
{
    int n = 1;
    int running = 0;
    // barrier
    int arrived = 0;
    uint64_t gen = 0;
    struct Ws { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; bool guided = false; unsigned long long unext = 0, uend = 0; int left = 0; };
    std::map<uint32_t, Ws> ws;
    uint32_t single_done = 0;
    void* copy = nullptr;
};

typedef int (*pthread_create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
template <class F> static F real(const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}

static void install_altstack()
{
    stack_t ss;
    ss.ss_size = 64 * 1024;
    ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
}

static T* alloc_thread()
{
    for (int i = 1; i < MAXT; i++)
        if (thr[i].st == T::FREE) return &thr[i];
    return nullptr;
}

static void set_stack_bounds(T* t)
{
    pthread_attr_t a;
    void* lo;
    size_t sz;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
        pthread_attr_getstack(&a, &lo, &sz);
        t->stk_lo = (uintptr_t)lo;
        t->stk_hi = (uintptr_t)lo + sz;
        pthread_attr_destroy(&a);
    }
}

static void* worker_main(void* p)
{
    T* me = (T*)p;
    tl_self = me;
    install_altstack();
    set_stack_bounds(me);
    __atomic_store_n(&me->ready, 1, __ATOMIC_RELEASE);
    futex(&me->ready, FUTEX_WAKE_PRIVATE, 1);
    for (;;) {
        park(me);
        if (me->func) {
            (*me->func)();
            delete me->func;
            me->func = nullptr;
        } else
            me->fn(me->arg);
        // finished
        Team* tm = me->team;
        event(3, me->id);
        if (tm) {
            release_edge(tm);
            tm->running--;
            me->team = nullptr;
            if (tm->running == 0) wake(tm);
        } else {
            release_edge(me);
            if (me->client) {
                g_clients_left--;
                release_edge(&g_clients_left);
                if (g_clients_left == 0) wake(&g_clients_left);
            }
            me->finished = true;
            wake(&me->finished);
        }
        if (me->joinable && !me->detached) {
            me->st = T::BLOCKED; // keep slot until joined
            me->wait = me;
            me->waitwhat = "join by creator";
        } else
            me->st = T::FREE;
        g_live--;
        update_mt();
        forced_switch(me, true);
    }
    return nullptr;
}

static void start_thread(T* t)
{
    t->st = T::RUNNABLE;
    t->prio = plan.replay_sched ? 0 : uint32_t(1000 + g_srng.below(1000000));
    t->nopreempt = 0;
    t->nofaults = 0;
    t->libdepth = 0;
    t->level = 0;
    t->ws_seq = t->single_seq = 0;
    t->finished = false;
    if (tl_self) t->vc.join(tl_self->vc);
    t->vc.c[t->id]++;
    tl_self->vc.c[tl_self->id]++;
    g_live++;
    if (R->threads < g_live) R->threads = g_live;
    update_mt();
    if (!t->has_os) {
        t->has_os = true;
        static auto rc = real<pthread_create_t>("pthread_create");
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 4 << 20);
        if (rc(&t->pt, &a, worker_main, t) != 0) fatal_result("harness", "pthread_create failed");
        pthread_attr_destroy(&a);
        while (!__atomic_load_n(&t->ready, __ATOMIC_ACQUIRE)) futex(&t->ready, FUTEX_WAIT_PRIVATE, 0);
    }
}

void spawn(std::function<void()> f)
{
    T* t = alloc_thread();
    if (!t) fatal_result("harness", "too many threads");
    t->func = new std::function<void()>(std::move(f));
    t->team = nullptr;
    t->team_tid = 0;
    t->client = true;
    t->joinable = false;
    g_clients_left++;
    event(2, t->id);
    start_thread(t);
    point(K_API);
}

void join_all()
{
    T* me = tl_self;
    while (g_clients_left > 0) block(me, &g_clients_left, "client threads");
    acquire_edge(&g_clients_left);
    for (auto& t : thr) if (&t != me) me->vc.join(t.vc);
    update_mt();
}

void set_omp_threads(int n) { g_omp_threads = n; }
int omp_threads() { return g_omp_threads; }

Quiet::Quiet() { g_quiet++; update_mt(); }
Quiet::~Quiet() { g_quiet--; update_mt(); }
bool quiet() { return g_quiet > 0; }

// ---------- locks (omp locks, criticals, guards) ----------
struct Lock { int owner = -1; int depth = 0; int idx = 0; const char* what = ""; };
static std::unordered_map<const void*, Lock>* g_locks;
static int g_lock_idx = 0;

static Lock& get_lock(const void* a, const char* what)
{
    Lock& l = (*g_locks)[a];
    if (!l.idx) { l.idx = ++g_lock_idx; l.what = what; }
    return l;
}

static void lock_acquire(const void* a, bool recursive, const char* what, int kind = K_SYNC)
{
    if (!g_active || !tl_self) return;
    T* me = tl_self;
    point(kind);
    for (;;) {
        Lock& l = get_lock(a, what);
        if (l.owner < 0 || (recursive && l.owner == me->id)) {
            l.owner = me->id;
            l.depth++;
            event(10, l.idx);
            break;
        }
        static char buf[MAXT][96];
        snprintf(buf[me->id], sizeof buf[0], "%s #%d held by thread%d", what, l.idx, l.owner);
        block(me, a, buf[me->id]);
    }
    acquire_edge(a);
}

static void lock_release(const void* a, const char* what, int kind = K_SYNC)
{
    if (!g_active || !tl_self) return;
    Lock& l = get_lock(a, what);
    if (l.owner != tl_self->id) {
        if (l.owner < 0) violation("lock-misuse", "release of %s #%d which is not held", what, l.idx);
        // released by other thread than owner: allowed for omp locks formally not; report
        violation("lock-misuse", "release of %s #%d by thread%d, held by thread%d", what, l.idx, tl_self->id, l.owner);
    }
    if (--l.depth == 0) {
        release_edge(a);
        l.owner = -1;
        event(11, l.idx);
        wake(a);
    }
    point(kind);
}

std::string held_locks()
{
    std::string s;
    char b[96];
    for (auto& kv : *g_locks)
        if (kv.second.owner >= 0) {
            snprintf(b, sizeof b, "%s #%d held by thread%d; ", kv.second.what, kv.second.idx, kv.second.owner);
            s += b;
        }
    return s;
}

// ---------- run control ----------
static void on_signal(int sig, siginfo_t* si, void*)
{
    char m[200];
    if (getenv("SIM_BT")) {
        void* bt[64];
        g_active = false;
        int n = backtrace(bt, 64);
        backtrace_symbols_fd(bt, n, 2);
    }
    snprintf(m, sizeof m, "signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGALRM ? "no progress" : "?");
    fatal_result(sig == SIGALRM ? "hang" : "crash", m);
}

static void on_terminate()
{
    std::string what = "unknown exception";
    if (std::exception_ptr e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (std::exception& ex) {
            what = ex.what();
        } catch (...) {
        }
    } else
        what = "no active exception";
    if (getenv("SIM_BT")) {
        void* bt[64];
        g_active = false;
        int n = backtrace(bt, 64);
        backtrace_symbols_fd(bt, n, 2);
    }
    violation("terminate", "std::terminate called: %s", what.c_str());
}

void init_process()
{
    tl_self = &thr[0];
    thr[0].id = 0;
    for (int i = 0; i < MAXT; i++) thr[i].id = i;
    thr[0].st = T::RUNNABLE;
}

void begin(const Plan& p, Result* r)
{
    plan = p;
    R = r;
    g_keyvc = new std::unordered_map<const void*, VC>();
    g_locks = new std::unordered_map<const void*, Lock>();
    g_srng = Rng(p.sched_seed * 7919 + 17);
    g_dir_salt = Rng(p.seed * 31 + 5).next();
    g_hash = 0x12345;
    int st = p.strategy;
    const int drawn = int(g_srng.below(8)); // always drawn: a given strategy must not shift the stream
    if (st < 0) st = drawn;
    R->strategy = st;
    // strategy parameters (probabilities out of 65536)
    s_mode = 0;
    s_pmem = 0;
    s_prace = 0;
    s_psync = 0;
    s_pchange = 0;
    static const int mems[] = {16, 64, 256, 1024, 4096};
    switch (st) {
    case 0: s_psync = 0; break;                                            // switch only when blocked
    case 1: s_psync = 32768; break;                                        // random walk at sync points
    case 2: s_psync = 8192; s_pmem = mems[g_srng.below(5)]; s_prace = 16384; break;
    case 3: s_psync = 4096; s_prace = 32768; break;                        // race directed
    case 4: s_mode = 1; s_pchange = 1024; break;                           // priorities
    case 5: s_mode = 1; s_pchange = 256; s_pmem = 16; s_prace = 4096; break;
    case 6: s_psync = 20000; s_pmem = 4; s_prace = 50000; break;
    default: s_mode = 1; s_pchange = 8192; s_prace = 20000; s_pmem = 64; break;
    }
    thr[0].vc.c[0] = 1;
    thr[0].prio = uint32_t(1000 + g_srng.below(1000000));
    set_stack_bounds(&thr[0]);
    install_altstack();
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    race_shadow_init();
    g_live = 1;
    g_cur = &thr[0];
    g_active = true;
    update_mt();
}

uint64_t now_us() { return R ? R->steps + 1000 * R->ops[OP_WRITE] + 1000 * R->ops[OP_READ] + 20000 * R->ops[OP_HTTP] : 0; }

void publish_crash()
{
    R->hash = g_hash;
    R->simtime = now_us();
    if (g_trace_overflow) R->ntrace = 0;
    R->crashed = 1;
}
[[noreturn]] void finish()
{
    R->hash = g_hash;
    R->simtime = now_us();
    if (g_trace_overflow) R->ntrace = 0;
    R->done = 1;
    _exit(0);
}

void fatal_result(const char* cls, const char* msg)
{
    if (R && !R->done) {
        g_active = false;
        if ((!strcmp(cls, "crash") || !strcmp(cls, "heap-corruption") || !strcmp(cls, "heap-overflow")) && total_fired() && lib_inside()) {
            // a third-party library broke down by itself on an injected I/O error: says nothing about fimex
            probe("inconclusive_library_crash");
            finish();
        }
        R->violation = 1;
        strncpy(R->cls, cls, sizeof R->cls - 1);
        strncpy(R->msg, msg, sizeof R->msg - 1);
        R->hash = g_hash;
        R->simtime = now_us();
        if (g_trace_overflow) R->ntrace = 0;
        R->done = 1;
    } else if (!R) {
        fprintf(stderr, "fatal outside run: %s %s\n", cls, msg);
    }
    _exit(0);
}

void end_ok() { finish(); }

[[noreturn]] void violation(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char buf[MSG_LEN];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    fatal_result(cls, buf);
    __builtin_unreachable();
}

void probe(const char* name, uint64_t n)
{
    if (!R) return;
    for (uint32_t i = 0; i < R->nprobes; i++)
        if (!strncmp(R->probes[i].name, name, sizeof R->probes[i].name - 1)) {
            R->probes[i].n += n;
            return;
        }
    if (R->nprobes < MAX_PROBES) {
        strncpy(R->probes[R->nprobes].name, name, sizeof R->probes[0].name - 1);
        R->probes[R->nprobes].n = n;
        R->nprobes++;
    }
}

void note_outcome(const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = R->outhash;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
    R->outhash = h;
}
void note_outcome(const std::string& s) { note_outcome(s.data(), s.size()); }

void sample(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->sample, sizeof R->sample, fmt, ap);
    va_end(ap);
}

long knob(const char* name, long dflt)
{
    for (auto& k : plan.knobs)
        if (k.first == name) return k.second;
    return dflt;
}

std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> v;
    return v;
}

} // namespace sim

using namespace sim;

// =====================================================================
// OpenMP runtime (libgomp ABI)
// =====================================================================
extern "C" {

void GOMP_barrier(void)
{
    T* me = tl_self;
    if (!me || !me->team || me->team->n <= 1) return;
    Team* t = me->team;
    release_edge(&t->gen);
    if (++t->arrived == t->n) {
        t->arrived = 0;
        t->gen++;
        wake(&t->gen);
    } else {
        uint64_t g = t->gen;
        while (t->gen == g) block(me, &t->gen, "barrier");
    }
    acquire_edge(&t->gen);
    point(K_SYNC);
}

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned)
{
    T* me = tl_self;
    if (!g_active || !me) {
        fn(data);
        return;
    }
    int n = num_threads ? int(num_threads) : g_omp_threads;
    if (me->level > 0 || g_quiet) n = 1;
    if (n > 8) n = 8;
    // limit to free slots
    int freeslots = 0;
    for (int i = 1; i < MAXT; i++) freeslots += thr[i].st == T::FREE;
    if (n > freeslots + 1) n = freeslots + 1;
    Team team;
    team.n = n;
    team.running = n - 1;
    Team* old_team = me->team;
    int old_tid = me->team_tid;
    uint32_t old_ws = me->ws_seq, old_single = me->single_seq;
    me->level++;
    event(1, n);
    for (int i = 1; i < n; i++) {
        T* w = alloc_thread();
        w->fn = fn;
        w->arg = data;
        w->func = nullptr;
        w->team = &team;
        w->team_tid = i;
        w->client = false;
        w->joinable = false;
        start_thread(w);
        w->level = me->level;
        w->nofaults = me->nofaults;
    }
    me->team = &team;
    me->team_tid = 0;
    me->ws_seq = me->single_seq = 0;
    if (n > 1) point(K_SYNC);
    fn(data);
    while (team.running > 0) block(me, &team, "parallel region end");
    acquire_edge(&team);
    me->team = old_team;
    me->team_tid = old_tid;
    me->ws_seq = old_ws;
    me->single_seq = old_single;
    me->level--;
    if (g_live == 1)
        for (auto& t : thr) if (&t != me) me->vc.join(t.vc);
    update_mt();
    sim::probe(n > 1 ? "omp_region_parallel" : "omp_region_serial");
}

static int g_crit;
void GOMP_critical_start(void) { lock_acquire(&g_crit, false, "omp critical"); }
void GOMP_critical_end(void) { lock_release(&g_crit, "omp critical"); }
void GOMP_critical_name_start(void** p) { lock_acquire(p, false, "omp named critical"); }
void GOMP_critical_name_end(void** p) { lock_release(p, "omp named critical"); }
static int g_atom;
void GOMP_atomic_start(void) { lock_acquire(&g_atom, false, "omp atomic"); }
void GOMP_atomic_end(void) { lock_release(&g_atom, "omp atomic"); }

bool GOMP_single_start(void)
{
    T* me = tl_self;
    if (!me || !me->team || me->team->n <= 1) return true;
    uint32_t my = ++me->single_seq;
    if (me->team->single_done < my) {
        me->team->single_done = my;
        return true;
    }
    return false;
}
void* GOMP_single_copy_start(void)
{
    if (GOMP_single_start()) return nullptr;
    GOMP_barrier();
    return tl_self->team->copy;
}
void GOMP_single_copy_end(void* d)
{
    if (tl_self && tl_self->team) tl_self->team->copy = d;
    GOMP_barrier();
}

static Team::Ws* cur_ws()
{
    static Team::Ws lone[8];
    T* me = tl_self;
    if (!me || !me->team) return &lone[0];
    return &me->team->ws[me->ws_seq];
}
static bool ws_next(long* a, long* b)
{
    point(K_SYNC);
    auto* w = cur_ws();
    if ((w->incr > 0 && w->next >= w->end) || (w->incr < 0 && w->next <= w->end)) return false;
    long chunk = w->chunk;
    if (w->guided) {
        int n = tl_self && tl_self->team ? tl_self->team->n : 1;
        long left = (w->end - w->next) / w->incr;
        chunk = std::max(chunk, (left + n - 1) / n);
    }
    *a = w->next;
    long e = w->next + chunk * w->incr;
    if ((w->incr > 0 && e > w->end) || (w->incr < 0 && e < w->end)) e = w->end;
    *b = e;
    w->next = e;
    return true;
}
static bool ws_start(long start, long end, long incr, long chunk, bool guided, long* a, long* b)
{
    T* me = tl_self;
    if (me) me->ws_seq++;
    auto* w = cur_ws();
    bool lone = !me || !me->team;
    if (!w->init || lone) {
        w->init = true;
        w->next = start;
        w->end = end;
        w->incr = incr;
        w->chunk = chunk > 0 ? chunk : 1;
        w->guided = guided;
    }
    if (!a) return true;
    return ws_next(a, b);
}
#define LOOPFN(n, g)                                                                                                                                              \
    bool GOMP_loop_##n##_start(long s, long e, long i, long c, long* a, long* b) { return ws_start(s, e, i, c, g, a, b); }                                       \
    bool GOMP_loop_##n##_next(long* a, long* b) { return ws_next(a, b); }                                                                                         \
    void GOMP_parallel_loop_##n(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned);
LOOPFN(dynamic, false)
LOOPFN(nonmonotonic_dynamic, false)
LOOPFN(guided, true)
LOOPFN(nonmonotonic_guided, true)
LOOPFN(static, true)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return ws_start(s, e, i, 1, false, a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return ws_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return ws_start(s, e, i, 1, false, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return ws_next(a, b); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}

// combined parallel loops: the outlined function calls *_next directly, the work share is set up here
struct PLoop { void (*fn)(void*); void* d; long s, e, i, c; bool g; };
static void ploop_tramp(void* p)
{
    PLoop* l = (PLoop*)p;
    ws_start(l->s, l->e, l->i, l->c, l->g, nullptr, nullptr);
    l->fn(l->d);
}
#define PLOOPFN(n, gd)                                                                                                                                            \
    void GOMP_parallel_loop_##n(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned fl)                                             \
    {                                                                                                                                                             \
        PLoop l{fn, d, s, e, i, c, gd};                                                                                                                           \
        GOMP_parallel(ploop_tramp, &l, nt, fl);                                                                                                                   \
    }
PLOOPFN(dynamic, false)
PLOOPFN(nonmonotonic_dynamic, false)
PLOOPFN(guided, true)
PLOOPFN(nonmonotonic_guided, true)
PLOOPFN(static, true)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl)
{
    PLoop l{fn, d, s, e, i, 1, false};
    GOMP_parallel(ploop_tramp, &l, nt, fl);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl) { GOMP_parallel_loop_runtime(fn, d, nt, s, e, i, fl); }

// unsigned long long loops
static bool uws_next(unsigned long long* a, unsigned long long* b)
{
    point(K_SYNC);
    auto* w = cur_ws();
    if (w->unext >= w->uend) return false;
    *a = w->unext;
    unsigned long long e = w->unext + (unsigned long long)w->chunk * w->incr;
    if (e > w->uend) e = w->uend;
    *b = e;
    w->unext = e;
    return true;
}
#define ULOOPFN(n)                                                                                                                                                \
    bool GOMP_loop_ull_##n##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a,           \
                                   unsigned long long* b)                                                                                                        \
    {                                                                                                                                                             \
        T* me = tl_self;                                                                                                                                          \
        if (me) me->ws_seq++;                                                                                                                                     \
        auto* w = cur_ws();                                                                                                                                       \
        if (!w->init || !me || !me->team) {                                                                                                                       \
            w->init = true;                                                                                                                                       \
            w->unext = s;                                                                                                                                         \
            w->uend = e;                                                                                                                                          \
            w->incr = long(i);                                                                                                                                    \
            w->chunk = c ? long(c) : 1;                                                                                                                           \
        }                                                                                                                                                         \
        return uws_next(a, b);                                                                                                                                    \
    }                                                                                                                                                             \
    bool GOMP_loop_ull_##n##_next(unsigned long long* a, unsigned long long* b) { return uws_next(a, b); }
ULOOPFN(dynamic)
ULOOPFN(nonmonotonic_dynamic)
ULOOPFN(guided)
ULOOPFN(nonmonotonic_guided)

// sections
unsigned GOMP_sections_next(void)
{
    point(K_SYNC);
    auto* w = cur_ws();
    if (w->next > w->end) return 0;
    return unsigned(w->next++);
}
unsigned GOMP_sections_start(unsigned n)
{
    T* me = tl_self;
    if (me) me->ws_seq++;
    auto* w = cur_ws();
    if (!w->init || !me || !me->team) {
        w->init = true;
        w->next = 1;
        w->end = n;
    }
    return GOMP_sections_next();
}
struct PSec { void (*fn)(void*); void* d; unsigned n; };
static void psec_tramp(void* p)
{
    PSec* l = (PSec*)p;
    T* me = tl_self;
    if (me) me->ws_seq++;
    auto* w = cur_ws();
    if (!w->init) { w->init = true; w->next = 1; w->end = l->n; }
    l->fn(l->d);
}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned fl)
{
    PSec l{fn, d, n};
    GOMP_parallel(psec_tramp, &l, nt, fl);
}
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { point(K_SYNC); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, bool, unsigned, void**, int, void*)
{
    if (cpyfn) {
        char buf[arg_size + arg_align];
        char* arg = (char*)(((uintptr_t)buf + arg_align - 1) & ~uintptr_t(arg_align - 1));
        cpyfn(arg, data);
        fn(arg);
    } else
        fn(data);
}

int omp_get_thread_num(void) { return tl_self && tl_self->team ? tl_self->team_tid : 0; }
int omp_get_num_threads(void) { return tl_self && tl_self->team ? tl_self->team->n : 1; }
int omp_get_max_threads(void) { return g_omp_threads; }
int omp_get_num_procs(void) { return 8; }
void omp_set_num_threads(int n) { g_omp_threads = n > 0 ? n : 1; }
int omp_in_parallel(void) { return tl_self && tl_self->team && tl_self->team->n > 1; }
int omp_get_level(void) { return tl_self ? tl_self->level : 0; }
int omp_get_active_level(void) { return omp_in_parallel(); }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
int omp_get_thread_limit(void) { return 8; }
double omp_get_wtime(void) { return now_us() * 1e-6; }
double omp_get_wtick(void) { return 1e-6; }
void omp_init_lock(void* l) { if (g_active && g_locks) g_locks->erase(l); }
void omp_destroy_lock(void* l)
{
    if (g_active && g_locks) {
        auto it = g_locks->find(l);
        if (it != g_locks->end()) {
            if (it->second.owner >= 0) violation("lock-misuse", "omp lock #%d destroyed while held by thread%d", it->second.idx, it->second.owner);
            g_locks->erase(it);
        }
    }
}
void omp_set_lock(void* l) { lock_acquire(l, false, "omp lock"); }
void omp_unset_lock(void* l) { lock_release(l, "omp lock"); }
int omp_test_lock(void* a)
{
    if (!g_active || !tl_self) return 1;
    point(K_SYNC);
    Lock& l = get_lock(a, "omp lock");
    if (l.owner >= 0) return 0;
    l.owner = tl_self->id;
    l.depth = 1;
    acquire_edge(a);
    return 1;
}
void omp_init_nest_lock(void* l) { omp_init_lock(l); }
void omp_destroy_nest_lock(void* l) { omp_destroy_lock(l); }
extern char __executable_start, etext;
static int caller_kind(const void* pc) { return pc >= (void*)&__executable_start && pc < (void*)&etext ? K_SYNC : K_EXT; }
void omp_set_nest_lock(void* l) { lock_acquire(l, true, "omp nest lock", caller_kind(__builtin_return_address(0))); }
void omp_unset_nest_lock(void* l) { lock_release(l, "omp nest lock", caller_kind(__builtin_return_address(0))); }
int omp_test_nest_lock(void* a)
{
    if (!g_active || !tl_self) return 1;
    Lock& l = get_lock(a, "omp nest lock");
    if (l.owner >= 0 && l.owner != tl_self->id) return 0;
    lock_acquire(a, true, "omp nest lock");
    return l.depth;
}

// =====================================================================
// static-init guards
// =====================================================================
static char* guard_byte(long long* g) { return (char*)g; }
int __cxa_guard_acquire(long long* g)
{
    char* b = guard_byte(g);
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) {
        acquire_edge(g);
        return 0;
    }
    if (!g_active || !tl_self) {
        b[1] = 1;
        return 1;
    }
    point(K_SYNC);
    for (;;) {
        if (b[0]) {
            acquire_edge(g);
            return 0;
        }
        Lock& l = get_lock(g, "static initialisation");
        if (l.owner < 0) {
            l.owner = tl_self->id;
            l.depth = 1;
            acquire_edge(g);
            return 1;
        }
        if (l.owner == tl_self->id) violation("deadlock", "recursive static initialisation");
        block(tl_self, g, "static initialisation");
    }
}
static void guard_done(long long* g, bool ok)
{
    char* b = guard_byte(g);
    if (ok) __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    if (!g_active || !tl_self) return;
    release_edge(g);
    (*g_locks).erase(g);
    wake(g);
}
void __cxa_guard_release(long long* g) { guard_done(g, true); }
void __cxa_guard_abort(long long* g) { guard_done(g, false); }

// =====================================================================
// pthread interposition
// =====================================================================
#define REAL(ret, name, ...)                                                                                                                                      \
    typedef ret (*name##_t)(__VA_ARGS__);                                                                                                                         \
    static name##_t name##_r;                                                                                                                                     \
    if (!name##_r) name##_r = (name##_t)dlsym(RTLD_NEXT, #name)

static inline bool simthr() { return g_active && tl_self; }

int pthread_mutex_trylock(pthread_mutex_t* m)
{
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    int r = pthread_mutex_trylock_r(m);
    if (r == 0 && simthr()) acquire_edge(m);
    return r;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    REAL(int, pthread_mutex_lock, pthread_mutex_t*);
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    if (!simthr()) return pthread_mutex_lock_r(m);
    point(K_SYNC);
    for (;;) {
        int r = pthread_mutex_trylock_r(m);
        if (r == 0) break;
        if (r != EBUSY) return r;
        block(tl_self, m, "pthread mutex");
    }
    acquire_edge(m);
    event(12);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    if (!simthr()) return pthread_mutex_unlock_r(m);
    release_edge(m);
    int r = pthread_mutex_unlock_r(m);
    wake(m);
    event(13);
    point(K_SYNC);
    return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
    REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
    if (!simthr()) return pthread_rwlock_rdlock_r(m);
    point(K_SYNC);
    for (;;) {
        int r = pthread_rwlock_tryrdlock_r(m);
        if (r == 0) break;
        if (r != EBUSY) return r;
        block(tl_self, m, "pthread rwlock");
    }
    acquire_edge(m);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
    REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
    if (!simthr()) return pthread_rwlock_wrlock_r(m);
    point(K_SYNC);
    for (;;) {
        int r = pthread_rwlock_trywrlock_r(m);
        if (r == 0) break;
        if (r != EBUSY) return r;
        block(tl_self, m, "pthread rwlock");
    }
    acquire_edge(m);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
    if (!simthr()) return pthread_rwlock_unlock_r(m);
    release_edge(m);
    int r = pthread_rwlock_unlock_r(m);
    wake(m);
    point(K_SYNC);
    return r;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    REAL(int, pthread_once, pthread_once_t*, void (*)(void));
    if (!simthr()) return pthread_once_r(o, fn);
    if (*o == 2) { // done (glibc encoding)
        acquire_edge(o);
        return 0;
    }
    for (;;) {
        if (*o == 2) {
            acquire_edge(o);
            return 0;
        }
        Lock& l = get_lock(o, "pthread_once");
        if (l.owner < 0) {
            l.owner = tl_self->id;
            break;
        }
        block(tl_self, o, "pthread_once");
    }
    pthread_once_r(o, fn);
    release_edge(o);
    g_locks->erase(o);
    wake(o);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
    if (!simthr()) return pthread_cond_wait_r(c, m);
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    release_edge(m);
    pthread_mutex_unlock_r(m);
    wake(m);
    block(tl_self, c, "condition variable");
    acquire_edge(c);
    return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    REAL(int, pthread_cond_signal, pthread_cond_t*);
    if (!simthr()) return pthread_cond_signal_r(c);
    release_edge(c);
    for (auto& t : thr)
        if (t.st == T::BLOCKED && t.wait == c) {
            t.st = T::RUNNABLE;
            break;
        }
    point(K_SYNC);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    REAL(int, pthread_cond_broadcast, pthread_cond_t*);
    if (!simthr()) return pthread_cond_broadcast_r(c);
    release_edge(c);
    wake(c);
    point(K_SYNC);
    return 0;
}

// threads created by the code under test itself (std::thread, std::async)
struct PStart { void* (*fn)(void*); void* arg; T* t; };
static void pstart_tramp(void* p)
{
    PStart* s = (PStart*)p;
    s->t->pret = s->fn(s->arg);
    delete s;
}
int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    if (!simthr()) return pthread_create_r(pt, at, fn, arg);
    T* t = alloc_thread();
    if (!t) return EAGAIN;
    t->fn = pstart_tramp;
    t->arg = new PStart{fn, arg, t};
    t->func = nullptr;
    t->team = nullptr;
    t->client = false;
    t->joinable = true;
    t->detached = false;
    event(4, t->id);
    start_thread(t);
    *pt = t->pt;
    point(K_SYNC);
    return 0;
}
int pthread_join(pthread_t pt, void** ret)
{
    REAL(int, pthread_join, pthread_t, void**);
    if (!simthr()) return pthread_join_r(pt, ret);
    for (auto& t : thr)
        if (t.has_os && t.pt == pt && t.joinable) {
            while (!t.finished) block(tl_self, &t.finished, "thread join");
            acquire_edge(&t);
            tl_self->vc.join(t.vc);
            if (ret) *ret = t.pret;
            t.joinable = false;
            t.st = T::FREE;
            return 0;
        }
    return ESRCH;
}
int pthread_detach(pthread_t pt)
{
    REAL(int, pthread_detach, pthread_t);
    if (!simthr()) return pthread_detach_r(pt);
    for (auto& t : thr)
        if (t.has_os && t.pt == pt && t.joinable) {
            t.detached = true;
            if (t.finished) { t.joinable = false; t.st = T::FREE; }
            return 0;
        }
    return ESRCH;
}
int sched_yield(void)
{
    if (!simthr()) return (int)syscall(SYS_sched_yield);
    point(K_SYNC);
    return 0;
}

// =====================================================================
// clocks
// =====================================================================
static const time_t T0 = 1700000000;
time_t time(time_t* t)
{
    time_t v;
    if (simthr()) v = T0 + time_t(now_us() / 1000000);
    else {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        v = ts.tv_sec;
    }
    if (t) *t = v;
    return v;
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (simthr()) {
        uint64_t u = now_us();
        ts->tv_sec = (c == CLOCK_REALTIME ? T0 : 1000) + u / 1000000;
        ts->tv_nsec = (u % 1000000) * 1000;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
// gmtime and localtime share one result buffer between all threads, as in the C library
static struct tm shared_tm;
struct tm* sim_gmtime(const time_t* t)
{
    point(K_LIB);
    gmtime_r(t, &shared_tm);
    point(K_LIB);
    return &shared_tm;
}
struct tm* sim_localtime(const time_t* t)
{
    point(K_LIB);
    localtime_r(t, &shared_tm);
    point(K_LIB);
    return &shared_tm;
}
int nanosleep(const struct timespec* a, struct timespec*)
{
    if (simthr()) { point(K_SYNC); return 0; }
    return (int)syscall(SYS_nanosleep, a, nullptr);
}
int usleep(useconds_t u)
{
    if (simthr()) { point(K_SYNC); return 0; }
    struct timespec ts{(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return (int)syscall(SYS_nanosleep, &ts, nullptr);
}
unsigned sleep(unsigned s) { usleep(s * 1000000u); return 0; }

} // extern "C"
