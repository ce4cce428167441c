// Deterministic simulator runtime for fimex: public interface for scenarios.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------- randomness ----------
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { uint64_t a = next(); s = a * 0xD1342543DE82EF95ull + seed; s = next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); } // inclusive
    bool chance(int num, int den) { return int(below(den)) < num; }
    template <class V> auto& pick(V& v) { return v[below(v.size())]; }
};

// ---------- faults ----------
enum FaultKind {
    F_NONE = 0,
    F_OPEN_FAIL,    // open/fopen/creat of a scratch file fails (param = errno)
    F_READ_EIO,     // read fails with EIO
    F_READ_SHORT,   // read returns fewer bytes than available
    F_READ_EOF,     // file appears truncated: this and later reads at/after the position return 0
    F_READ_FLIP,    // one bit of the returned data is flipped (media corruption)
    F_READ_EINTR,   // read returns EINTR once
    F_WRITE_ENOSPC, // disk full from this write on
    F_WRITE_EIO,    // one write fails with EIO
    F_WRITE_SHORT,  // write accepts fewer bytes
    F_WRITE_EINTR,  // write returns EINTR once
    F_SYNC_FAIL,    // fsync/fdatasync fails
    F_TRUNC_FAIL,   // ftruncate fails
    F_CLOSE_FAIL,   // close/fclose fails
    F_SEEK_FAIL,    // lseek/fseeko fails
    F_UPSTREAM_THROW, // source reader throws on the n-th slice request (param: exception type)
    F_UPSTREAM_EMPTY, // source reader delivers an undefined slice
    F_HTTP,         // n-th http transfer fails (param: mode)
    F_ALLOC,        // n-th operator new fails with bad_alloc
    F_CRASH,        // process killed at the n-th write/sync/close operation
    F_LIB_FAIL,     // n-th call into the netCDF library returns an error code (param selects it), without being performed
    F_KIND_COUNT
};
extern const char* const fault_names[F_KIND_COUNT];

struct Fault
{
    int kind = 0;
    uint32_t at = 0;    // ordinal (1-based) of the matching operation
    uint32_t param = 0; // errno, byte count, bit index, mode ...
    uint32_t count = 1; // how many consecutive operations are hit
};

// operation counters, one per fault-matching operation class
enum OpClass { OP_OPEN, OP_READ, OP_WRITE, OP_SYNC, OP_TRUNC, OP_CLOSE, OP_SEEK, OP_UPSTREAM, OP_HTTP, OP_ALLOC, OP_MUT, OP_LIB, OP_CLASS_COUNT };
OpClass fault_op(int kind);

// ---------- run description ----------
struct Plan
{
    uint64_t seed = 1;      // workload seed
    uint64_t sched_seed = 1;
    int strategy = -1;      // -1: derive from sched_seed
    bool replay_sched = false;
    std::vector<std::pair<uint32_t, int>> preempts; // (decision ordinal, thread)
    bool faults_given = false;
    std::vector<Fault> faults;
    std::vector<std::pair<std::string, long>> knobs;
};

enum { MAX_TRACE = 20000, MAX_PROBES = 96, MSG_LEN = 1200, MAX_RACES = 8 };

struct ProbeSlot { char name[40]; uint64_t n; };

struct Result // lives in shared memory
{
    volatile int done;      // 1 when the run ended in an orderly way (ok or violation)
    int violation;          // 1 = violation found
    char cls[64];
    char msg[MSG_LEN];
    uint64_t hash;          // event-log hash
    uint64_t outhash;       // hash of observable outcome (scenario)
    uint64_t steps;         // scheduling decisions taken
    uint64_t accesses;      // instrumented accesses while >1 thread
    uint64_t switches;
    int threads;
    int strategy;
    uint64_t ops[OP_CLASS_COUNT];
    uint64_t fired[F_KIND_COUNT];
    uint64_t simtime;       // simulated clock ticks (us)
    uint32_t ntrace;
    struct { uint32_t at; int32_t thr; } trace[MAX_TRACE];
    uint32_t nfaults;
    Fault faults[64];
    uint32_t nprobes;
    ProbeSlot probes[MAX_PROBES];
    uint32_t nraces;
    struct { uint64_t pc1, pc2; int w1, w2; } races[MAX_RACES];
    char sample[400];       // human readable description of the case
    volatile int armed;
    int crashed;            // the simulated process was killed at a crash point
    int life;               // 0 before, 1 after the restart
    uint64_t progress[16];  // what the harness knows about completed operations, survives the crash
    uint64_t alarm_pc;
};
extern Result* R;
extern Plan plan;

// ---------- control ----------
void init_process();                 // once, before anything else (zygote)
void begin(const Plan& p, Result* r); // in the child: start simulation
void end_ok();                       // finish run, orderly
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();          // publish result and _exit
void probe(const char* name, uint64_t n = 1);
void note_outcome(const void* p, size_t n);
void note_outcome(const std::string& s);
void event(uint32_t kind, uint64_t a = 0, uint64_t b = 0);
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------- threads ----------
void set_omp_threads(int n);
int omp_threads();
void spawn(std::function<void()> f);  // client thread
void join_all();                     // wait for all client threads
void yield_point(int kind);          // explicit schedule point
int self();                          // simulated thread id (0 = main)
bool multithreaded();
// run with scheduling disabled (reference runs, oracles): omp teams of 1
struct Quiet { Quiet(); ~Quiet(); };
bool quiet();
void race_reports_fatal(bool on);    // data race => violation
// any lock currently held by anybody?
std::string held_locks();

// ---------- faults ----------
void arm_faults(bool on);            // faults only fire while armed
bool faults_armed();
bool fault_now(OpClass c, Fault* out); // count an operation of class c; true if a fault fires on it
uint64_t op_count(OpClass c);
void reset_ops();
void set_faults(const std::vector<Fault>& f);
uint64_t total_fired();
struct NoFaults { NoFaults(); ~NoFaults(); }; // no faults in the calling thread

// ---------- scratch / io ----------
extern std::string scratch_base;     // directory of this process (fixtures)
extern std::string scratch;          // directory of this run; faults apply only below it
int open_scratch_fds();              // number of open descriptors on scratch files
std::string open_scratch_list();
int life();                          // 0, or 1 in the process started after a simulated crash (same seed, only files survive)
void set_http_server(std::function<bool(const std::string& url, std::string& body)> f);
void set_http_hole(std::function<uint64_t(const std::string& url)> f); // zero bytes in front of the body, for huge objects
struct HttpStats { uint64_t heads, gets; };
extern HttpStats http_stats;
void set_fault_filter(std::function<bool(const std::string& path)> f); // restrict faults to some scratch files
void set_write_observer(std::function<void(const std::string& path)> f);

// ---------- memory ----------
bool heap_check_enabled();
uint64_t live_blocks();

// ---------- monitored libraries ----------
void lib_enter(int lib, const char* fn, const void* obj);
void lib_exit(int lib, const char* fn, const void* obj);
void lib_reset();
bool lib_fault(const char* fn, int* err);
// After a failed read, libnetcdf's buffer of a classic file may keep the wrong block and deliver it later: from then on
// all calls with that id fail, until it is closed.
unsigned long read_errors();
void lib_distrust(int id, bool yes);
bool lib_distrusted(int id);

uint64_t now_us();

// scenario registration
struct Scenario
{
    const char* property;
    const char* name;
    void (*run)(Rng& rng);
    int weight;
};
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* p, const char* n, void (*f)(Rng&), int w = 1) { scenarios().push_back({p, n, f, w}); } };

long knob(const char* name, long dflt); // knob overridden by replay/command line

} // namespace sim

#define SIM_SCENARIO(prop, name, weight)                                         \
    static void scen_##prop##_##name(sim::Rng& rng);                             \
    static sim::Reg reg_##prop##_##name(#prop, #name, scen_##prop##_##name, weight); \
    static void scen_##prop##_##name(sim::Rng& rng)
