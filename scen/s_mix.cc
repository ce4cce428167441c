// Everything at the same time: threads with unrelated work of any kind do not disturb each other.
#include "mix.h"
#include "view.h"
using namespace hs;
using namespace sim;

namespace {
MixJob mix_read(Rng& r, const std::string&)
{
    SrcOpt o;
    o.file = true;
    auto p = std::make_shared<ChainPlan>(plan_chain(r, o));
    std::vector<Get> gs;
    for (int k = r.range(1, 3); k > 0; k--) gs.push_back(random_get(r, p->view));
    return {"read " + p->text, [p, gs] {
                Chain c = open_chain(*p);
                for (auto& g : gs) {
                    std::string e = check_get(c.rd, p->view, g);
                    if (!e.empty()) violation("wrong-data", "%s", e.c_str());
                }
            }};
}
MixJob mix_write(Rng& r, const std::string& id)
{
    WriterCfg w = random_writer(r);
    SpecOpt o;
    o.nc3 = w.nc3;
    auto s = std::make_shared<Spec>(random_spec(r, o));
    return {"write " + w.type, [s, w, id] {
                const std::string f = scratch + "mix" + id + "w.nc";
                run_writer(std::make_shared<ModelReader>(*s), w, f);
                NoFaults nf;
                std::string e = check_nc(f, *s);
                if (!e.empty()) violation("wrong-output", "writing %s: %s", w.type.c_str(), e.c_str());
            }};
}
typedef MixJob (*Maker)(Rng&, const std::string&);
const Maker makers[] = {mix_read, mix_write, mix_units, mix_pipe, mix_grib_read, mix_grib_write, mix_ncml, mix_update, mix_felt};

void mixed(Rng& rng, bool faulty)
{
    const int nt = rng.range(2, 3);
    std::vector<std::vector<MixJob>> jobs(nt);
    std::string tx;
    for (int t = 0; t < nt; t++) {
        tx += t ? " | " : "";
        for (int k = rng.range(1, 2); k > 0; k--) {
            Quiet q;
            jobs[t].push_back(makers[rng.below(sizeof(makers) / sizeof(makers[0]))](rng, std::to_string(t * 10 + k)));
            tx += jobs[t].back().text + "; ";
        }
    }
    set_omp_threads(rng.chance(1, 3) ? 2 : 1);
    std::vector<Fault> fs;
    if (faulty) {
        OpCount c = rehearse([&] { for (auto& j : jobs[0]) attempt(j.run); });
        fs = draw_faults(rng, c, {{F_READ_EIO, 3}, {F_OPEN_FAIL, 3}, {F_LIB_FAIL, 6}, {F_ALLOC, 8}, {F_UPSTREAM_THROW, 4}, {F_WRITE_EIO, 1}, {F_WRITE_ENOSPC, 2}, {F_HTTP, 2}}, 2);
        use_faults(fs);
        arm_faults(true);
    }
    sample("%d threads: %s faults in the first: %s", nt, tx.c_str(), fault_text(fs).c_str());
    for (int t = 0; t < nt; t++)
        spawn([&, t] {
            std::unique_ptr<NoFaults> nf(faulty && t > 0 ? new NoFaults : nullptr);
            for (auto& j : jobs[t]) {
                Outcome o = attempt(j.run);
                probe(o.threw ? "failed" : "done");
                if (o.threw && !(faulty && t == 0)) violation("interference", "thread %d, %s: fails only because of other threads: %s", t, j.text.c_str(), o.what.c_str());
            }
        });
    join_all();
    arm_faults(false);
}
} // namespace
SIM_SCENARIO(S04, mixed, 3) { mixed(rng, false); }
SIM_SCENARIO(S04, one_fails, 2) { mixed(rng, true); }
