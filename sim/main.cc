// Simulation driver: zygote process, one forked child per simulated run.
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <ftw.h>
#include <fstream>
#include <iostream>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;
void harness_init(); // scenario library: install io plugins, create fixtures

static std::string g_prop, g_scen, g_scratchbase, g_fix;
static bool g_verbose = false;
namespace sim { const std::string& chosen_property() { return g_prop; } }
static Result* RES;

static double wall()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static const Scenario* choose(const std::string& prop, const std::string& scen, uint64_t seed)
{
    std::vector<const Scenario*> c;
    int tot = 0;
    for (auto& s : scenarios())
        if ((prop.empty() || prop == s.property) && (scen.empty() || scen == s.name)) {
            c.push_back(&s);
            tot += s.weight;
        }
    std::sort(c.begin(), c.end(), [](const Scenario* a, const Scenario* b) { return strcmp(a->name, b->name) < 0; });
    if (c.empty()) return nullptr;
    Rng r(seed ^ 0xABCDEF);
    int k = int(r.below(tot));
    for (auto* s : c)
        if ((k -= s->weight) < 0) return s;
    return c.back();
}

static void rmdir_rec(const std::string& d)
{
    // d is always a directory below the scratch base created by this process
    if (d.size() < 8 || d.compare(0, g_scratchbase.size(), g_scratchbase) != 0) return;
    nftw(d.c_str(), [](const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }, 16, FTW_DEPTH | FTW_PHYS | FTW_MOUNT);
}

static void on_alarm(int) { fatal_result("hang", "no end of run within the wall clock limit"); }

static int g_runno = 0;
static std::string g_seedtmp;

static void run_child(const Scenario* sc, const Plan& plan0)
{
    memset((void*)RES, 0, sizeof(Result));
    char dir[300];
    // constant-length path independent of seed: part of the program input
    snprintf(dir, sizeof dir, "%s/run", g_scratchbase.c_str());
    rmdir_rec(dir);
    mkdir(dir, 0700);
    static Result before;
    for (int life = 0; life < 2; life++) {
    Plan p = plan0;
    if (life) { // restart: a new process with the same seed, nothing survives but the files and the harness' progress record
        before = *RES;
        memset((void*)RES, 0, sizeof(Result));
        RES->life = 1;
        memcpy(RES->progress, before.progress, sizeof before.progress);
        memcpy(RES->sample, before.sample, sizeof before.sample);
        p.faults_given = true;
        p.faults.clear();
        p.preempts.clear();
    }
    pid_t pid = fork();
    if (pid == 0) {
        scratch = std::string(dir) + "/";
        if (chdir(dir)) {}
        if (!g_verbose) {
            int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0);
            syscall(SYS_dup2, fd, 1);
            syscall(SYS_dup2, fd, 2);
        }
        struct rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        signal(SIGALRM, on_alarm);
        struct itimerval it{{0, 0}, {100, 0}};
        setitimer(ITIMER_REAL, &it, nullptr);
        begin(p, RES);
        Rng rng(p.seed);
        sc->run(rng);
        end_ok();
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (!life && RES->crashed && !RES->done) continue;
    if (!RES->done) {
        RES->violation = 1;
        snprintf(RES->cls, sizeof RES->cls, "died");
        snprintf(RES->msg, sizeof RES->msg, "process ended without result, status %d (%s %d)", st, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        RES->done = 1;
    }
    if (life) { // one result for both lives
        Result after = *RES;
        *RES = before;
        RES->life = 1;
        RES->done = 1;
        RES->violation = after.violation;
        memcpy(RES->cls, after.cls, sizeof after.cls);
        memcpy(RES->msg, after.msg, sizeof after.msg);
        RES->hash = before.hash * 31 + after.hash;
        RES->outhash = before.outhash * 31 + after.outhash;
        RES->simtime += after.simtime;
        for (uint32_t k = 0; k < after.nprobes && RES->nprobes < MAX_PROBES; k++) {
            uint32_t j = 0;
            while (j < RES->nprobes && strcmp(RES->probes[j].name, after.probes[k].name)) j++;
            if (j < RES->nprobes) RES->probes[j].n += after.probes[k].n;
            else RES->probes[RES->nprobes++] = after.probes[k];
        }
    }
    break;
    }
    g_runno++;
}

static std::string esc(const char* s)
{
    std::string o;
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

static void print_result(FILE* out, const Scenario* sc, const Plan& p)
{
    fprintf(out, "{\"property\":\"%s\",\"scenario\":\"%s\",\"seed\":%llu,\"sched_seed\":%llu,\"strategy\":%d,\"violation\":%d,\"cls\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"outhash\":\"%016llx\",\"steps\":%llu,\"accesses\":%llu,\"switches\":%llu,\"threads\":%d,\"simtime\":%llu,\"sample\":\"%s\"",
            sc->property, sc->name, (unsigned long long)p.seed, (unsigned long long)p.sched_seed, RES->strategy, RES->violation, esc(RES->cls).c_str(), esc(RES->msg).c_str(), (unsigned long long)RES->hash,
            (unsigned long long)RES->outhash, (unsigned long long)RES->steps, (unsigned long long)RES->accesses, (unsigned long long)RES->switches, RES->threads, (unsigned long long)RES->simtime, esc(RES->sample).c_str());
    fprintf(out, ",\"trace\":[");
    for (uint32_t i = 0; i < RES->ntrace; i++) fprintf(out, "%s[%u,%d]", i ? "," : "", RES->trace[i].at, RES->trace[i].thr);
    fprintf(out, "],\"faults\":[");
    for (uint32_t i = 0; i < RES->nfaults; i++) fprintf(out, "%s[%d,%u,%u,%u]", i ? "," : "", RES->faults[i].kind, RES->faults[i].at, RES->faults[i].param, RES->faults[i].count);
    fprintf(out, "],\"fired\":{");
    bool first = true;
    for (int i = 1; i < F_KIND_COUNT; i++)
        if (RES->fired[i]) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", fault_names[i], (unsigned long long)RES->fired[i]); first = false; }
    fprintf(out, "},\"ops\":[");
    for (int i = 0; i < OP_CLASS_COUNT; i++) fprintf(out, "%s%llu", i ? "," : "", (unsigned long long)RES->ops[i]);
    fprintf(out, "],\"races\":[");
    for (uint32_t i = 0; i < RES->nraces; i++) fprintf(out, "%s[%llu,%llu,%d,%d]", i ? "," : "", (unsigned long long)RES->races[i].pc1, (unsigned long long)RES->races[i].pc2, RES->races[i].w1, RES->races[i].w2);
    fprintf(out, "],\"probes\":{");
    for (uint32_t i = 0; i < RES->nprobes; i++) fprintf(out, "%s\"%s\":%llu", i ? "," : "", esc(RES->probes[i].name).c_str(), (unsigned long long)RES->probes[i].n);
    fprintf(out, "}}\n");
    fflush(out);
}

static bool load_plan(const std::string& f, Plan& p)
{
    std::ifstream in(f);
    if (!in) return false;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "property") is >> g_prop;
        else if (k == "scenario") is >> g_scen;
        else if (k == "seed") is >> p.seed;
        else if (k == "sched_seed") is >> p.sched_seed;
        else if (k == "strategy") is >> p.strategy;
        else if (k == "replay_sched") { int v; is >> v; p.replay_sched = v; }
        else if (k == "faults_given") { int v; is >> v; p.faults_given = v; }
        else if (k == "preempt") { uint32_t a; int t; is >> a >> t; p.preempts.push_back({a, t}); }
        else if (k == "fault") { Fault fl; is >> fl.kind >> fl.at >> fl.param >> fl.count; p.faults.push_back(fl); }
        else if (k == "knob") { std::string n; long v; is >> n >> v; p.knobs.push_back({n, v}); }
    }
    std::sort(p.preempts.begin(), p.preempts.end());
    return true;
}

int main(int argc, char** argv)
{
    if (argc > 1 && !getenv("SIM_REEXEC")) {
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    unsetenv("SIM_REEXEC");
    init_process();
    std::string mode = argc > 1 ? argv[1] : "";
    uint64_t seed0 = 1, start = 0, stride = 1, maxruns = UINT64_MAX, maxviol = 1;
    double seconds = 10;
    std::string replay, outf, hashf;
    Plan base;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") g_prop = nx();
        else if (a == "--scenario") g_scen = nx();
        else if (a == "--seed") seed0 = strtoull(nx(), nullptr, 10);
        else if (a == "--start") start = strtoull(nx(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(nx(), nullptr, 10);
        else if (a == "--max-runs") maxruns = strtoull(nx(), nullptr, 10);
        else if (a == "--seconds") seconds = atof(nx());
        else if (a == "--scratch") g_scratchbase = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--out") outf = nx();
        else if (a == "--hashes") hashf = nx();
        else if (a == "--max-violations") maxviol = strtoull(nx(), nullptr, 10);
        else if (a == "--strategy") base.strategy = atoi(nx());
        else if (a == "--knob") { std::string kv = nx(); auto e = kv.find('='); base.knobs.push_back({kv.substr(0, e), atol(kv.c_str() + e + 1)}); }
        else if (a == "-v") g_verbose = true;
    }
    if (mode == "list") {
        for (auto& s : scenarios()) printf("%s %s %d\n", s.property, s.name, s.weight);
        return 0;
    }
    if (g_scratchbase.empty()) { fprintf(stderr, "need --scratch\n"); return 2; }
    mkdir(g_scratchbase.c_str(), 0700);
    RES = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    scratch_base = g_scratchbase;
    Plan first = base;
    first.seed = seed0;
    first.sched_seed = seed0 * 31 + 7;
    // before the preparations, which depend on the property
    if (!replay.empty() && !load_plan(replay, first)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    harness_init();

    if (mode == "one") {
        Plan p = first;
        const Scenario* sc = choose(g_prop, g_scen, p.seed);
        if (!sc) { fprintf(stderr, "no scenario\n"); return 2; }
        run_child(sc, p);
        print_result(stdout, sc, p);
        return 0;
    }
    if (mode == "batch") {
        // only one simulated thread runs at a time: keep all of them on one core
        cpu_set_t cs, one;
        if (sched_getaffinity(0, sizeof cs, &cs) == 0 && CPU_COUNT(&cs) > 1) {
            int k = int(start % CPU_COUNT(&cs));
            for (int c = 0; c < CPU_SETSIZE; c++)
                if (CPU_ISSET(c, &cs) && k-- == 0) {
                    CPU_ZERO(&one);
                    CPU_SET(c, &one);
                    sched_setaffinity(0, sizeof one, &one);
                    break;
                }
        }
        FILE* out = outf.empty() ? stdout : fopen(outf.c_str(), "w");
        double t0 = wall();
        uint64_t runs = 0, nontriv = 0, switches = 0, steps = 0, acc = 0, simt = 0, nondet = 0, rechecks = 0;
        std::unordered_set<uint64_t> hashes;
        std::map<std::string, uint64_t> fired, probes, per;
        std::map<int, uint64_t> strat;
        std::vector<std::string> samples;
        std::set<std::pair<uint64_t, uint64_t>> races;
        double slow = 0;
        bool viol = false;
        uint64_t nviol = 0;
        for (uint64_t i = start; runs < maxruns && wall() - t0 < seconds; i += stride) {
            Plan p = base;
            p.seed = seed0 * 1000003ull + i;
            p.sched_seed = p.seed * 31 + 7;
            const Scenario* sc = choose(g_prop, g_scen, p.seed);
            if (!sc) { fprintf(stderr, "no scenario\n"); return 2; }
            double r0 = wall();
            run_child(sc, p);
            slow = std::max(slow, wall() - r0);
            runs++;
            per[sc->name]++;
            strat[RES->strategy]++;
            switches += RES->switches;
            steps += RES->steps;
            acc += RES->accesses;
            simt += RES->simtime;
            uint64_t fr = 0;
            for (int k = 1; k < F_KIND_COUNT; k++)
                if (RES->fired[k]) { fired[fault_names[k]] += RES->fired[k]; fr += RES->fired[k]; }
            for (uint32_t k = 0; k < RES->nprobes; k++) probes[RES->probes[k].name] += RES->probes[k].n;
            for (uint32_t k = 0; k < RES->nraces; k++) races.insert({RES->races[k].pc1, RES->races[k].pc2});
            if (RES->switches > 0 || fr > 0) {
                hashes.insert(RES->hash);
                nontriv++;
            }
            if (samples.size() < 3 && (fr || RES->switches)) samples.push_back(std::string(sc->name) + " seed=" + std::to_string(p.seed) + " " + RES->sample);
            if (RES->violation) {
                fprintf(out, "V ");
                print_result(out, sc, p);
                viol = true;
                if (++nviol >= maxviol) break;
                continue;
            }
            if (runs % 16 == 3) { // determinism self check
                uint64_t h = RES->hash, o = RES->outhash;
                run_child(sc, p);
                rechecks++;
                if (RES->hash != h || RES->outhash != o || RES->violation) {
                    nondet++;
                    fprintf(out, "N %s %llu\n", sc->name, (unsigned long long)p.seed);
                }
            }
        }
        fprintf(out, "S {\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"switches\":%llu,\"steps\":%llu,\"accesses\":%llu,\"simtime_us\":%llu,\"rechecks\":%llu,\"nondet\":%llu,\"violation\":%d,\"wall\":%.3f,\"slowest\":%.3f,\"scenarios\":{",
                (unsigned long long)runs, (unsigned long long)nontriv, hashes.size(), (unsigned long long)switches, (unsigned long long)steps, (unsigned long long)acc, (unsigned long long)simt, (unsigned long long)rechecks, (unsigned long long)nondet, viol, wall() - t0, slow);
        const char* sep = "";
        for (auto& k : per) { fprintf(out, "%s\"%s\":%llu", sep, k.first.c_str(), (unsigned long long)k.second); sep = ","; }
        fprintf(out, "},\"strategies\":{");
        sep = "";
        for (auto& k : strat) { fprintf(out, "%s\"%d\":%llu", sep, k.first, (unsigned long long)k.second); sep = ","; }
        fprintf(out, "},\"fired\":{");
        sep = "";
        for (auto& k : fired) { fprintf(out, "%s\"%s\":%llu", sep, k.first.c_str(), (unsigned long long)k.second); sep = ","; }
        fprintf(out, "},\"probes\":{");
        sep = "";
        for (auto& k : probes) { fprintf(out, "%s\"%s\":%llu", sep, esc(k.first.c_str()).c_str(), (unsigned long long)k.second); sep = ","; }
        fprintf(out, "},\"races\":[");
        sep = "";
        for (auto& k : races) { fprintf(out, "%s[%llu,%llu]", sep, (unsigned long long)k.first, (unsigned long long)k.second); sep = ","; }
        fprintf(out, "],\"samples\":[");
        sep = "";
        for (auto& k : samples) { fprintf(out, "%s\"%s\"", sep, esc(k.c_str()).c_str()); sep = ","; }
        fprintf(out, "]}\n");
        if (!hashf.empty()) {
            FILE* h = fopen(hashf.c_str(), "wb");
            for (auto x : hashes) fwrite(&x, 8, 1, h);
            fclose(h);
        }
        fflush(out);
        return 0;
    }
    fprintf(stderr, "unknown mode\n");
    return 2;
}
