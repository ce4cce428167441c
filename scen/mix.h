#pragma once
#include "harness.h"
// Independent pieces of work for mixed runs. A maker prepares inputs and expected results (no faults, one thread);
// the job does the work, calls violation() for wrong results and throws what the library throws.
namespace hs {
struct MixJob { std::string text; std::function<void()> run; };
MixJob mix_units(Rng& r, const std::string& id);
MixJob mix_pipe(Rng& r, const std::string& id);
MixJob mix_grib_read(Rng& r, const std::string& id);
MixJob mix_grib_write(Rng& r, const std::string& id);
MixJob mix_ncml(Rng& r, const std::string& id);
MixJob mix_felt(Rng& r, const std::string& id);
MixJob mix_update(Rng& r, const std::string& id);
} // namespace hs
