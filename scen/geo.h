// Gridded model datasets with coordinate systems, and random processing pipelines on top of them.
#pragma once
#include "harness.h"

namespace hs {
struct GeoOpt { int vert = -1; int grid = -1; bool big = false; };
struct Geo
{
    Spec spec;
    int grid = 0; // 0 latitude/longitude axes, 1 polar stereographic, 2 two-dimensional latitude/longitude only
    int vert = 0; // 0 none, 1 pressure, 2 hybrid sigma pressure, 3 sigma, 4 hybrid with p0, 5 height, 6 altitude, 7 depth, 8 ocean s, 9 hybrid height, 10 logarithm of pressure
    size_t nx, ny, nz, nt, plev = 0;
};
Geo random_geo(Rng& r, const GeoOpt& o = GeoOpt());

struct Pipe
{
    struct Stage
    {
        std::string kind;
        int method = 0, a = 0, b = 0, pre = 0, post = 0;
        double x2 = 0; // distance of interest
        std::vector<double> x, y;
        std::string s, t;
        std::vector<std::string> names;
    };
    std::vector<Stage> stages;
    std::string text;
};
// a pipeline that fits the dataset
Pipe random_pipe(Rng& r, const Geo& g, int max_stages = 3);
CDMReader_p open_pipe(CDMReader_p src, const Pipe& p, std::shared_ptr<Geo> second = std::shared_ptr<Geo>());
} // namespace hs
