// internal interface between simulator parts
#pragma once
#include "simrt.h"
#include <pthread.h>

namespace sim {

enum { MAXT = 16 };
enum PointKind { K_MEM = 0, K_RACE = 1, K_SYNC = 2, K_LIB = 3, K_IO = 4, K_API = 5, K_EXT = 6 /* lock taken inside a library */ };

struct VC
{
    uint32_t c[MAXT];
    VC() { for (auto& x : c) x = 0; }
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Team;

struct T
{
    int id = 0;
    volatile int sem = 0;
    volatile int ready = 0;
    enum St { FREE, RUNNABLE, BLOCKED } st = FREE;
    const void* wait = nullptr;
    const char* waitwhat = "";
    VC vc;
    Team* team = nullptr;
    int team_tid = 0;
    uint32_t ws_seq = 0, single_seq = 0;
    int level = 0;
    int nopreempt = 0;
    int nofaults = 0; // threads of a run check results while others still meet faults
    int libdepth = 0;
    uint32_t prio = 0;
    pthread_t pt = 0;
    bool has_os = false;
    // job
    void (*fn)(void*) = nullptr;
    void* arg = nullptr;
    std::function<void()>* func = nullptr;
    bool client = false;
    uintptr_t stk_lo = 0, stk_hi = 0;
    bool quit = false;
    void* pret = nullptr; // for pthread_create'd threads
    bool joinable = false, finished = false, detached = false;
};

extern T thr[MAXT];
extern bool g_active;
extern uint64_t g_dir_salt; // order of directory entries
extern bool g_mt;        // more than one live thread and not quiet
extern int g_quiet;
extern thread_local T* tl_self;

void point(int kind);
void block(T* me, const void* key, const char* what);
void wake(const void* key);
void acquire_edge(const void* key);  // HB: join clock of key into self
void release_edge(const void* key);  // HB: publish self clock to key
extern bool g_strict_alloc;

// memory hooks
bool heap_bad(uintptr_t a, size_t n, const char** why);
void shadow_reset(uintptr_t a, size_t n);
void race_shadow_init();

bool lib_inside(); // current thread is inside a third-party library call
void* raw_map(size_t n);
void publish_crash();
void fatal_result(const char* cls, const char* msg); // async-signal-safe, no return
uint64_t mix(uint64_t h, uint64_t v);
} // namespace sim
