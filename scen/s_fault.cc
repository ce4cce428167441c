// Errors while reading: never wrong data (S08); the process stays usable afterwards (S10); errors in worker threads reach the caller (S09).
#include "geo.h"
#include "view.h"
#include "fimex/FillWriter.h"
#include "fimex/Null_CDMWriter.h"
#include <cmath>
#include <cstring>
using namespace hs;
using namespace sim;

static const std::vector<FaultKindOpt> read_faults = {{F_READ_EIO, 6}, {F_OPEN_FAIL, 2}, {F_UPSTREAM_THROW, 3}, {F_CLOSE_FAIL, 1}, {F_READ_EINTR, 1}, {F_LIB_FAIL, 6}, {F_ALLOC, 12}};

// HDF5 answers a failed read by delivering zeros on the next one, and leaves files open; errors of netCDF-4 files are injected
// at the netCDF interface instead
static void no_nc4_io_faults(const ChainPlan& p)
{
    std::set<std::string> nc4;
    for (auto& s : p.srcs) if (s.kind == 2) nc4.insert(s.path);
    set_fault_filter([nc4](const std::string& f) { return !nc4.count(f); });
}

// nothing of fimex may stay locked or open once all objects are gone
static void check_idle(const char* when)
{
    std::string l = held_locks();
    if (!l.empty()) violation("lock-left", "%s: still locked: %s", when, l.c_str());
    if (open_scratch_fds()) violation("file-left-open", "%s: %s", when, open_scratch_list().c_str());
}

static void faulty_reads(Rng& rng, bool recover)
{
    SrcOpt o;
    o.file = rng.chance(3, 4);
    o.spec.atts = o.spec.strings = true;
    ChainPlan p = plan_chain(rng, o);
    const int nt = rng.range(1, 3);
    std::vector<Get> gs[3], again;
    for (int t = 0; t < nt; t++) gs[t] = random_gets(rng, p.view, 1, 4, t ? &gs[t - 1] : nullptr);
    for (int k = rng.range(1, 3); k > 0; k--) again.push_back(random_get(rng, p.view));
    no_nc4_io_faults(p);
    OpCount n = rehearse([&] {
        Chain c = open_chain(p);
        for (int t = 0; t < nt; t++) for (auto& g : gs[t]) attempt([&] { do_get(c.rd, g); });
    });
    auto fs = draw_faults(rng, n, read_faults, 3);
    sample("%d threads: %s faults: %s", nt, p.text.c_str(), fault_text(fs).c_str());
    use_faults(fs);
    {
        Chain c;
        arm_faults(true);
        Outcome oc = attempt([&] { c = open_chain(p); });
        if (oc.threw) probe("open-reported");
        else {
            {
                NoFaults nf;
                std::string e = check_cdm(c.rd, p.view);
                if (!e.empty()) violation("wrong-data", "opened in spite of faults (%s), but %s", fault_text(fs).c_str(), e.c_str());
            }
            for (int t = 0; t < nt; t++)
                spawn([&, t] {
                    for (auto& g : gs[t]) {
                        Outcome od = attempt([&] {
                            std::string e = check_get(c.rd, p.view, g);
                            if (!e.empty()) violation("wrong-data", "thread %d, faults %s: %s", t, fault_text(fs).c_str(), e.c_str());
                        });
                        probe(od.threw ? "read-reported" : "read-exact");
                    }
                });
            join_all();
        }
        arm_faults(false);
        if (!recover) return;
        std::string l = held_locks();
        if (!l.empty()) violation("lock-left", "after failed reads: still locked: %s", l.c_str());
        // the same reader either keeps failing or delivers the right data
        if (c.rd)
            for (auto& g : again) {
                Outcome od = attempt([&] {
                    std::string e = check_get(c.rd, p.view, g);
                    if (!e.empty()) violation("wrong-data", "after failed reads: %s", e.c_str());
                });
                probe(od.threw ? "same-reader-fails" : "same-reader-works");
            }
    }
    check_idle("after failed reads and closing");
    Outcome oc = attempt([&] {
        Chain c = open_chain(p);
        for (auto& g : again) {
            std::string e = check_get(c.rd, p.view, g);
            if (!e.empty()) violation("wrong-data", "new reader after failed reads: %s", e.c_str());
        }
    });
    if (oc.threw) violation("not-recovered", "reading again after the fault is over fails: %s", oc.what.c_str());
    check_idle("at the end");
}
SIM_SCENARIO(S08, chains, 4) { faulty_reads(rng, false); }
SIM_SCENARIO(S10, reads, 3) { faulty_reads(rng, true); }

SIM_SCENARIO(S10, writes, 3)
{
    WriterCfg w = random_writer(rng);
    std::vector<FaultKindOpt> kinds = {{F_UPSTREAM_THROW, 4}, {F_LIB_FAIL, 5}, {F_ALLOC, 10}};
    // storage errors below HDF5 leave the state of HDF5 undefined
    if (w.nc3) for (auto& k : std::vector<FaultKindOpt>{{F_WRITE_ENOSPC, 3}, {F_WRITE_EIO, 2}, {F_OPEN_FAIL, 2}, {F_SYNC_FAIL, 1}, {F_CLOSE_FAIL, 1}, {F_READ_EIO, 1}}) kinds.push_back(k);
    SpecOpt so;
    so.nc3 = w.nc3;
    Spec s = random_spec(rng, so);
    set_omp_threads(rng.range(1, 3));
    auto rd = std::make_shared<ModelReader>(s);
    OpCount n = rehearse([&] { run_writer(rd, w, scratch + "dry.nc"); });
    auto fs = draw_faults(rng, n, kinds);
    sample("%s %s threads=%d faults: %s", w.type.c_str(), s.text().c_str(), omp_threads(), fault_text(fs).c_str());
    use_faults(fs);
    arm_faults(true);
    Outcome oc = attempt([&] { run_writer(rd, w, scratch + "out.nc"); });
    arm_faults(false);
    probe(oc.threw ? "reported" : "succeeded");
    std::string l = held_locks();
    if (!l.empty()) violation("lock-left", "after a failed write: still locked: %s", l.c_str());
    // a failing close leaves the file open in the library
    const bool storage = R->fired[F_WRITE_ENOSPC] || R->fired[F_WRITE_EIO] || R->fired[F_CLOSE_FAIL] || R->fired[F_READ_EIO];
    if (!storage) check_idle("after a failed write");
    Outcome o2 = attempt([&] { run_writer(rd, w, scratch + "again.nc"); });
    if (o2.threw) violation("not-recovered", "writing again after the fault is over fails: %s", o2.what.c_str());
    Quiet q;
    std::string e = check_nc(scratch + "again.nc", s);
    if (!e.empty()) violation("not-recovered", "file written after a failed write: %s", e.c_str());
}

// ---------- errors in worker threads ----------
SIM_SCENARIO(S09, writers, 4)
{
    const int kind = rng.range(0, 3); // NetCDF, Null, Fill, configured NetCDF
    WriterCfg w = random_writer(rng);
    SpecOpt so;
    so.nc3 = w.nc3;
    so.min_unlim = 1;
    Spec s = random_spec(rng, so);
    set_omp_threads(rng.range(1, 4));
    auto rd = std::make_shared<ModelReader>(s);
    const std::string f = scratch + "out.nc";
    auto work = [&](const std::string& out) {
        if (kind == 1) Null_CDMWriter x(rd, "");
        else if (kind == 2) { CDMReaderWriter_p io = CDMFileReaderFactory::createReaderWriter("netcdf", out); FillWriter x(rd, io); io->sync(); }
        else run_writer(rd, w, out);
    };
    if (kind == 2) { Quiet q; write_nc(f, s, !w.nc3); copy_file(f, scratch + "dry.nc"); }
    OpCount n = rehearse([&] { work(scratch + "dry.nc"); });
    auto fs = draw_faults(rng, n, {{F_UPSTREAM_THROW, 1}}, 3);
    static const char* const names[] = {"NetCDF writer", "null writer", "fill writer", "NetCDF writer"};
    sample("%s %s: %s threads=%d faults: %s", names[kind], w.type.c_str(), s.text().c_str(), omp_threads(), fault_text(fs).c_str());
    use_faults(fs);
    arm_faults(true);
    Outcome oc = attempt([&] { work(f); });
    arm_faults(false);
    probe(oc.threw ? "reported" : "succeeded");
    if (rd->failures && !oc.threw) violation("lost-error", "%s reported success although a worker's source failed %d times", names[kind], rd->failures);
    if (!rd->failures && oc.threw) violation("unexpected-error", "%s failed without any fault: %s", names[kind], oc.what.c_str());
    std::string l = held_locks();
    if (!l.empty()) violation("lock-left", "after a failed worker: still locked: %s", l.c_str());
}
// writers on top of processing whose source fails
SIM_SCENARIO(S09, pipelines, 3)
{
    Geo g = random_geo(rng);
    Pipe p = random_pipe(rng, g, 2);
    auto second = std::make_shared<Geo>(g);
    set_omp_threads(rng.range(1, 4));
    auto rd = std::make_shared<ModelReader>(g.spec);
    const std::string f = scratch + "out.nc";
    const int mode = rng.range(0, 2);
    auto work = [&](const std::string& out) {
        CDMReader_p r = open_pipe(rd, p, second);
        if (mode == 0) Null_CDMWriter x(r, "");
        else CDMFileReaderFactory::createWriter(r, mode == 1 ? "nc3" : "nc4", out);
    };
    OpCount n;
    bool rejected = false;
    {
        Outcome o = attempt([&] { n = rehearse([&] { work(scratch + "dry.nc"); }); });
        arm_faults(false);
        rejected = o.threw;
    }
    if (rejected) { probe("rejected"); return; }
    auto fs = draw_faults(rng, n, {{F_UPSTREAM_THROW, 1}}, 3);
    sample("%s grid=%d vert=%d threads=%d faults: %s", p.text.c_str(), g.grid, g.vert, omp_threads(), fault_text(fs).c_str());
    use_faults(fs);
    reset_ops();
    const uint64_t f0 = R->fired[F_UPSTREAM_THROW];
    arm_faults(true);
    Outcome oc = attempt([&] { work(f); });
    arm_faults(false);
    const bool failed = R->fired[F_UPSTREAM_THROW] > f0;
    probe(oc.threw ? "reported" : "succeeded");
    if (!failed && oc.threw) violation("unexpected-error", "processing and writing failed without any fault: %s", oc.what.c_str());
    std::string l = held_locks();
    if (!l.empty()) violation("lock-left", "after a failed worker: still locked: %s", l.c_str());
    if (failed && !oc.threw) {
        // optional auxiliary data may be left out, but then the output must be the same as without the fault
        Quiet q;
        if (mode == 0) { probe("tolerated"); return; }
        NcOpen a(scratch + "dry.nc"), b(f);
        if (a.err || b.err) violation("lost-error", "success reported, but the output cannot be opened");
        for (auto& v : g.spec.vars) {
            NcVarData x, y;
            if (a.get(v.name, x)) continue;
            if (b.get(v.name, y)) violation("lost-error", "success reported after a source failure, but %s is missing", v.name.c_str());
            std::string e = compare_values(v.name, y.v, x.v, 1e-5);
            if (!e.empty()) violation("lost-error", "success reported after a source failure, but %s", e.c_str());
        }
        probe("tolerated");
    }
}
