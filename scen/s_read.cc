// Concurrent reading through shared readers.
#include "view.h"
using namespace hs;
using namespace sim;

static void many_readers(Rng& rng, bool file, bool shared, bool plugins = false)
{
    SrcOpt o;
    o.file = o.scan = file;
    o.spec.atts = o.spec.strings = true;
    ChainPlan p = plan_chain(rng, o);
    const int nt = rng.range(2, 4);
    std::vector<Get> gs[4];
    for (int t = 0; t < nt; t++) gs[t] = random_gets(rng, p.view, 1, 4, t ? &gs[t - 1] : nullptr);
    sample("%s readers, %d threads: %s", shared ? "shared" : "own", nt, p.text.c_str());
    Chain c;
    if (plugins) forget_plugins();
    if (shared) {
        c = open_chain(p);
        std::string e = check_cdm(c.rd, p.view);
        if (!e.empty()) violation("wrong-data", "%s", e.c_str());
    }
    for (int t = 0; t < nt; t++)
        spawn([&, t] {
            Outcome oc = attempt([&] {
                Chain own = shared ? c : open_chain(p);
                for (auto& g : gs[t]) {
                    std::string e = check_get(own.rd, p.view, g);
                    if (!e.empty()) violation("wrong-data", "thread %d: %s", t, e.c_str());
                }
            });
            if (oc.threw) violation("unexpected-error", "thread %d: reading failed without any fault: %s", t, oc.what.c_str());
        });
    join_all();
}

SIM_SCENARIO(S02, shared_file, 3) { many_readers(rng, true, true); }
SIM_SCENARIO(S02, shared_model, 2) { many_readers(rng, false, true); }
SIM_SCENARIO(S02, own_file, 2) { many_readers(rng, true, false); }
SIM_SCENARIO(S02, first_use, 1) { many_readers(rng, true, false, true); }
