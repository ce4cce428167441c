#include "geo.h"
#include "fimex/CDMBorderSmoothing.h"
#include "fimex/CDMExtractor.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CDMMerger.h"
#include "fimex/CDMOverlay.h"
#include "fimex/CDMPressureConversions.h"
#include "fimex/CDMProcessor.h"
#include "fimex/CDMQualityExtractor.h"
#include "fimex/CDMTimeInterpolator.h"
#include "fimex/CDMVerticalInterpolator.h"
#include "fimex/CrossSectionDefinition.h"
#include "fimex/FimexTime.h"
#include "fimex/TimeUnit.h"
#include "fimex/mifi_constants.h"

#include <algorithm>
#include <cmath>
#include <sstream>

namespace hs {
namespace {
CDMAttribute att(const std::string& n, const std::string& v) { return CDMAttribute(n, v); }
const char STERE[] = "+proj=stere +lat_0=90 +lon_0=10 +lat_ts=60 +R=6371000 +x_0=0 +y_0=3000000 +no_defs";
const char LATLON[] = "+proj=latlong +R=6371000 +no_defs";
} // namespace

Geo random_geo(Rng& r, const GeoOpt& o)
{
    Geo g;
    Spec& s = g.spec;
    g.nx = r.range(3, o.big ? 8 : 6);
    g.ny = r.range(3, o.big ? 8 : 6);
    g.nt = r.range(1, 4);
    g.grid = o.grid >= 0 ? o.grid : r.chance(1, 5) ? 2 : r.range(0, 1);
    g.vert = o.vert >= 0 ? o.vert : r.chance(1, 2) ? r.range(0, 3) : r.range(4, 10);
    g.nz = g.vert ? r.range(2, 5) : 0;
    s.dims = {{"x", g.nx}, {"y", g.ny}};
    if (g.nz) s.dims.push_back({"lev", g.nz});
    const size_t np = g.nz && r.chance(1, 4) ? r.range(2, 4) : 0; // a second vertical axis
    if (np) s.dims.push_back({"plev", np});
    g.plev = np;
    s.dims.push_back({"time", g.nt, true});
    s.atts.push_back(att("Conventions", "CF-1.0"));
    auto axis = [&](const char* n, CDMDataType t, double a, double st, const char* stdn, const char* un) {
        Var v;
        v.name = n;
        v.type = t;
        v.shape = {n};
        for (size_t i = 0; i < s.dim(n)->len; i++) v.fixed.push_back(a + st * i);
        v.atts = {att("units", un), att("standard_name", stdn)};
        s.vars.push_back(v);
        return &s.vars.back();
    };
    std::string coords, mapping;
    if (g.grid == 0) {
        axis("x", CDM_DOUBLE, 5, 0.5, "longitude", "degrees_east");
        axis("y", CDM_DOUBLE, 60, 0.25, "latitude", "degrees_north");
    } else if (g.grid == 1) {
        axis("x", CDM_DOUBLE, -30000, 10000, "projection_x_coordinate", "m");
        axis("y", CDM_DOUBLE, -20000, 10000, "projection_y_coordinate", "m");
        Var p;
        p.name = mapping = "projection_stere";
        p.type = CDM_INT;
        p.fixed = {0};
        p.atts = {att("grid_mapping_name", "polar_stereographic"), CDMAttribute("straight_vertical_longitude_from_pole", 10.0), CDMAttribute("latitude_of_projection_origin", 90.0),
                  CDMAttribute("standard_parallel", 60.0), CDMAttribute("earth_radius", 6371000.0), CDMAttribute("false_easting", 0.0), CDMAttribute("false_northing", 3000000.0), att("proj4", STERE)};
        s.vars.push_back(p);
    }
    if (g.grid == 2) {
        coords = "lon lat";
        for (int k = 0; k < 2; k++) {
            Var v;
            v.name = k ? "lat" : "lon";
            v.type = CDM_DOUBLE;
            v.shape = {"x", "y"};
            for (size_t j = 0; j < g.ny; j++)
                for (size_t i = 0; i < g.nx; i++) v.fixed.push_back(k ? 60 + 0.25 * j + 0.01 * i : 5 + 0.5 * i - 0.02 * j);
            v.atts = {att("units", k ? "degrees_north" : "degrees_east"), att("standard_name", k ? "latitude" : "longitude")};
            s.vars.push_back(v);
        }
    }
    auto formula = [&](const char* n, CDMDataType t, const std::vector<std::string>& shape, const std::vector<double>& f, const char* un, const char* stdn = "") {
        Var v;
        v.name = n;
        v.type = t;
        v.shape = shape;
        v.fixed = f;
        if (*un) v.atts.push_back(att("units", un));
        if (*stdn) v.atts.push_back(att("standard_name", stdn));
        s.vars.push_back(v);
    };
    std::vector<double> a, b;
    for (size_t k = 0; k < g.nz; k++) {
        double eta = 0.3 + 0.7 * double(k + 1) / g.nz;
        a.push_back(20000 * (1 - eta));
        b.push_back(eta - 0.2 * (1 - eta));
    }
    if (g.vert == 1) axis("lev", CDM_DOUBLE, 300, 150, "air_pressure", "hPa")->atts.push_back(att("positive", "down"));
    else if (g.vert == 2) {
        axis("lev", CDM_DOUBLE, 1, 1, "atmosphere_hybrid_sigma_pressure_coordinate", "1")->atts.push_back(att("formula_terms", "ap: ap b: b ps: ps"));
        formula("ap", CDM_DOUBLE, {"lev"}, a, "Pa");
        formula("b", CDM_DOUBLE, {"lev"}, b, "1");
    } else if (g.vert == 3) {
        Var* v = axis("lev", CDM_DOUBLE, 0.2, 0.2, "atmosphere_sigma_coordinate", "1");
        for (size_t k = 0; k < g.nz; k++) v->fixed[k] = 0.3 + 0.7 * double(k + 1) / g.nz;
        v->atts.push_back(att("formula_terms", "sigma: lev ps: ps ptop: ptop"));
        formula("ptop", CDM_DOUBLE, {}, {1000}, "Pa");
    }
    else if (g.vert == 4) {
        axis("lev", CDM_DOUBLE, 1, 1, "atmosphere_hybrid_sigma_pressure_coordinate", "1")->atts.push_back(att("formula_terms", "a: a b: b ps: ps p0: p0"));
        for (auto& x : a) x /= 100000;
        formula("a", CDM_DOUBLE, {"lev"}, a, "1");
        formula("b", CDM_DOUBLE, {"lev"}, b, "1");
        formula("p0", CDM_DOUBLE, {}, {1000}, "hPa");
    } else if (g.vert == 5 || g.vert == 6) {
        Var* v = axis("lev", CDM_DOUBLE, 20, 700, g.vert == 5 ? "height" : "altitude", "m");
        v->atts.push_back(att("positive", "up"));
        if (r.chance(1, 3)) std::reverse(v->fixed.begin(), v->fixed.end());
    } else if (g.vert == 7) axis("lev", CDM_DOUBLE, 5, 60, "depth", "m")->atts.push_back(att("positive", "down"));
    else if (g.vert == 8) {
        axis("lev", CDM_DOUBLE, -0.95, 0.2, r.chance(1, 2) ? "ocean_s_coordinate_g1" : "ocean_s_coordinate_g2", "1")->atts.push_back(att("formula_terms", "s: lev C: C depth: h depth_c: hc eta: zeta"));
        std::vector<double> c;
        for (size_t k = 0; k < g.nz; k++) c.push_back(-0.9 + 0.19 * k);
        formula("C", CDM_DOUBLE, {"lev"}, c, "1");
        formula("hc", CDM_DOUBLE, {}, {10}, "m");
    } else if (g.vert == 9) {
        axis("lev", CDM_DOUBLE, 1, 1, "atmosphere_hybrid_height_coordinate", "1")->atts.push_back(att("formula_terms", "a: a b: b orog: orog"));
        std::vector<double> h, q;
        for (size_t k = 0; k < g.nz; k++) h.push_back(10 + 800.0 * k), q.push_back(1 - 0.15 * k);
        formula("a", CDM_DOUBLE, {"lev"}, h, "m");
        formula("b", CDM_DOUBLE, {"lev"}, q, "1");
    } else if (g.vert == 10) {
        Var* v = axis("lev", CDM_DOUBLE, 0.05, 0.3, "atmosphere_ln_pressure_coordinate", "1");
        v->atts.push_back(att("formula_terms", "p0: p0 lev: lev"));
        v->atts.push_back(att("positive", "up"));
        formula("p0", CDM_DOUBLE, {}, {1000}, "hPa");
    }
    if (np) axis("plev", CDM_DOUBLE, 400, 130, "air_pressure", "hPa")->atts.push_back(att("positive", "down"));
    axis("time", CDM_DOUBLE, 0, 3600, "time", "seconds since 2020-01-01 00:00:00 +0000");
    auto field = [&](const char* n, CDMDataType t, bool z, bool tm, double base, double amp, const char* un, const char* stdn, bool missing, bool second = false) {
        Var v;
        v.name = n;
        v.type = t;
        v.shape = {"x", "y"};
        if (z && g.nz) v.shape.push_back(second ? "plev" : "lev");
        if (tm) v.shape.push_back("time");
        size_t c = 1;
        for (auto& d : v.shape) c *= s.dim(d)->len;
        const int every = missing && r.chance(1, 2) ? r.range(4, 11) : 0;
        for (size_t i = 0; i < c; i++) v.fixed.push_back(quantise(t, base + amp * (double(r.below(1000)) / 1000)));
        v.atts = {att("units", un)};
        if (*stdn) v.atts.push_back(att("standard_name", stdn));
        if (missing) {
            v.has_fill = true;
            v.fill = t == CDM_SHORT ? -32767 : -9e9;
            v.fill = quantise(t, v.fill);
            if (every)
                for (size_t i = every / 2; i < c; i += every) v.fixed[i] = v.fill;
        }
        if (!mapping.empty()) v.atts.push_back(att("grid_mapping", mapping));
        if (!coords.empty()) v.atts.push_back(att("coordinates", coords));
        s.vars.push_back(v);
    };
    if (g.vert == 8) {
        field("h", CDM_DOUBLE, false, false, 100, 200, "m", "sea_floor_depth", false);
        field("zeta", CDM_FLOAT, false, true, -1, 2, "m", "sea_surface_height", false);
    }
    if (g.vert == 9) field("orog", CDM_FLOAT, false, false, 0, 900, "m", "surface_altitude", false);
    if ((g.vert >= 2 && g.vert <= 4) || r.chance(1, 2)) field("ps", CDM_FLOAT, false, true, 98000, 4000, "Pa", "surface_air_pressure", false);
    field("temp", r.chance(1, 2) ? CDM_FLOAT : CDM_DOUBLE, true, true, 250, 40, "K", "air_temperature", r.chance(1, 2));
    field("xwind", CDM_FLOAT, true, true, -10, 20, "m/s", "x_wind", false);
    field("ywind", CDM_FLOAT, true, true, -10, 20, "m/s", "y_wind", false);
    field("precip", r.chance(1, 2) ? CDM_DOUBLE : CDM_FLOAT, false, true, 0, 5, "mm", "", false);
    if (g.vert != 9) field("zs", CDM_FLOAT, false, false, 0, 3000, "m^2/s^2", "surface_geopotential", false);
    if (np) field("onp", CDM_FLOAT, true, true, 0, 30, "m/s", "", r.chance(1, 2), true);
    if (g.vert && r.chance(1, 4)) field("omega", CDM_FLOAT, true, true, -2, 4, "Pa/s", "omega", false);
    if (g.vert) field("theta", CDM_FLOAT, true, true, 280, 30, "K", "air_potential_temperature", false);
    if (g.vert && r.chance(1, 2)) field("shum", CDM_FLOAT, true, true, 0.001, 0.01, "1", "specific_humidity", false);
    field("winddir", CDM_FLOAT, false, true, 0, 360, "degree", "wind_from_direction", false);
    if (r.chance(1, 2)) {
        Var v;
        v.name = "status";
        v.type = CDM_SHORT;
        v.shape = {"x", "y", "time"};
        for (size_t i = 0; i < g.nx * g.ny * g.nt; i++) v.fixed.push_back(double(r.below(4)));
        v.atts = {att("long_name", "quality")};
        if (r.chance(1, 2)) {
            v.atts.push_back(att("standard_name", "sea_ice_thickness status_flag"));
            std::vector<short> fl = {0, 1, 2, 3};
            v.atts.push_back(CDMAttribute("flag_values", createData(CDM_SHORT, fl.begin(), fl.end())));
        }
        if (r.chance(1, 4)) v.atts.push_back(CDMAttribute("valid_min", short(1)));
        if (r.chance(1, 4)) v.atts.push_back(CDMAttribute("valid_max", short(2)));
        v.has_fill = r.chance(1, 2);
        v.fill = 3;
        s.vars.push_back(v);
        field("obs", CDM_SHORT, false, true, -50, 100, "m", "sea_ice_thickness", true);
        s.vars.back().atts.push_back(CDMAttribute("scale_factor", 0.5));
    }
    return g;
}

namespace {
std::vector<double> lin(double a, double st, int n)
{
    std::vector<double> v;
    for (int i = 0; i < n; i++) v.push_back(a + st * i);
    return v;
}
} // namespace

Pipe random_pipe(Rng& r, const Geo& g, int max_stages)
{
    Pipe p;
    const int n = r.range(1, max_stages);
    bool hproc = false, vproc = false, tproc = false, merged = false;
    std::ostringstream tx;
    for (int i = 0; i < n; i++) {
        Pipe::Stage st;
        int k = r.range(0, 11);
        if (k >= 10) {
            // a part of the dataset, by value or position
            st.kind = "extract";
            st.a = r.range(0, 6);
            const double f = double(r.below(1000)) / 1000, q = double(r.below(1000)) / 1000;
            if (st.a == 0 && !tproc) st.x = {1577836800 + 3600 * std::floor(f * g.nt), 1577836800 + 3600 * std::floor(f * g.nt) + 3600 * std::floor(q * 4)};
            else if (st.a == 1 && g.vert && !vproc) {
                st.s = g.vert == 1 ? "hPa" : "m";
                st.x = g.vert == 1 ? std::vector<double>{250 + 300 * f, 560 + 500 * q} : g.vert == 7 ? std::vector<double>{50 * f, 60 + 200 * q} : std::vector<double>{500 * f, 600 + 2000 * q};
                if (g.vert > 7 || (g.vert > 1 && g.vert < 5)) st.s = "1";
            } else if (st.a == 2 && !hproc && g.grid != 2) st.x = {g.grid ? 62.5 + 0.1 * f : 59.8 + 0.6 * f, g.grid ? 62.6 + 0.3 * q : 60.5 + 2 * q, g.grid ? 9.4 + 0.4 * f : 4.6 + 0.9 * f, g.grid ? 9.9 + q : 5.9 + 3 * q};
            else if (st.a == 3) {
                st.names = {"temp", "obs", "precip"};
                if (r.chance(1, 2)) st.names.push_back("xwind");
                st.b = r.chance(3, 4);
            } else if (st.a == 4 && !hproc) {
                st.s = "x";
                st.x = {double(r.below(g.nx)), -double(r.below(2))};
            } else if (st.a == 5 && !tproc && g.nt > 1) {
                st.s = "time";
                for (size_t j = 0; j < g.nt; j++) if (r.chance(1, 2)) st.x.push_back(j);
                if (st.x.empty()) st.x.push_back(r.below(g.nt));
            } else if (st.a == 6 && g.nz && !vproc) {
                st.a = 5;
                st.s = "lev";
                for (size_t j = 0; j < g.nz; j++) if (r.chance(2, 3)) st.x.push_back(j);
                if (st.x.empty()) st.x.push_back(r.below(g.nz));
            } else continue;
        } else if (k <= 3) {
            if (hproc) continue;
            hproc = true;
            static const int m0[] = {MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC, MIFI_INTERPOL_COORD_NN, MIFI_INTERPOL_COORD_NN_KD};
            st.pre = r.chance(1, 3) ? r.range(1, 3) : 0;
            st.post = r.chance(1, 3) ? r.range(1, 3) : 0;
            st.method = g.grid == 2 ? m0[r.range(3, 4)] : m0[r.range(0, 4)];
            if (r.chance(1, 4)) st.method = MIFI_INTERPOL_FORWARD_SUM + int(r.below(10));
            if (k == 3 && g.grid != 2) {
                st.kind = r.chance(1, 2) ? "points" : "cross";
                st.method = m0[r.range(0, 2)];
                const int np = r.range(2, 6);
                for (int j = 0; j < np; j++) {
                    // inside or near the grid
                    if (g.grid == 0) {
                        st.x.push_back(5 + 0.5 * double(r.below(1000)) / 1000 * g.nx);
                        st.y.push_back(60 + 0.25 * double(r.below(1000)) / 1000 * g.ny);
                    } else {
                        st.x.push_back(10 + double(r.below(1000)) / 1000 * 0.5);
                        st.y.push_back(62.5 + double(r.below(1000)) / 1000 * 0.3);
                    }
                }
            } else {
                st.kind = "grid";
                st.a = r.chance(1, 2); // output projection: 0 latlon, 1 stere
                const int ox = r.range(2, 8), oy = r.range(2, 8);
                if (st.a == 0) {
                    st.x = lin(g.grid == 1 ? 9.3 : 4.8, 0.37, ox);
                    st.y = lin(g.grid == 1 ? 62.2 : 59.9, 0.19, oy);
                } else {
                    st.x = lin(g.grid == 1 ? -35000 : -300000, g.grid == 1 ? 7000 : 40000, ox);
                    st.y = lin(g.grid == 1 ? -22000 : -290000, g.grid == 1 ? 6000 : 35000, oy);
                }
                if (r.chance(1, 4)) st.b = 1; // axes as strings
                else if (st.a && r.chance(1, 4)) st.b = 2; // axes found by the library
                else if (r.chance(1, 5)) {
                    st.b = 3; // the grid of another dataset
                    if (r.chance(5, 6)) st.method = m0[r.range(0, 2)];
                }
                if (r.chance(1, 8)) st.x2 = 50000; // distance of interest
            }
        } else if (k <= 5) {
            if (!g.vert || vproc || g.grid == 2) continue;
            vproc = true;
            st.kind = "vertical";
            static const char* const m[] = {"linear", "linear_weak_extra", "linear_no_extra", "linear_const_extra", "log", "loglog", "nearestneighbor"};
            st.s = m[r.below(7)];
            st.t = g.vert == 2 && r.chance(1, 2) ? (r.chance(1, 2) ? "height" : "altitude") : "pressure";
            if (g.vert >= 5) st.t = g.vert == 7 || g.vert == 8 ? "depth" : g.vert == 10 ? "pressure" : r.chance(1, 2) ? "height" : "altitude";
            if (r.chance(1, 8)) st.t = r.chance(1, 2) ? "altitude" : "pressure";
            st.a = r.chance(1, 3);
            st.b = g.plev && r.chance(1, 2) ? r.range(1, 2) : 0; // to another axis, or that of another variable
            if (st.b) st.t = r.chance(1, 4) ? "altitude" : "pressure";
            if (st.t == "depth") {
                for (int j = r.range(2, 6); j > 0; j--) st.x.push_back(300 * double(r.below(1000)) / 1000 - 2);
            } else for (int j = r.range(2, 6); j > 0; j--) st.x.push_back(st.t == "pressure" ? 400 + 600 * double(r.below(1000)) / 1000 : 100 + 6000 * double(r.below(1000)) / 1000);
            std::sort(st.x.begin(), st.x.end());
        } else if (k == 6) {
            if (tproc || g.nt < 2) continue;
            tproc = true;
            st.kind = "time";
            static const char* const sp[] = {"0,1,...,x;relativeStart=0", "2020-01-01 00:00:00,2020-01-01 00:30:00,...,2020-01-01 03:00:00", "2020-01-01 00:20:00,2020-01-01 01:00:00,...,2020-01-01 02:20:00;unit=hours since 2020-01-01 00:00:00"};
            st.s = sp[r.range(1, 2)];
        } else if (k == 7) {
            st.kind = "process";
            if (r.chance(2, 3)) st.names.push_back("accumulate");
            else st.names.push_back("deaccumulate");
            if (g.grid == 1 && !hproc && r.chance(1, 2)) st.names.push_back(r.chance(1, 2) ? "rotate" : "rotateall");
            if (g.grid == 1 && !hproc && r.chance(1, 3)) st.names.push_back("rotatedir");
            if (g.vert == 2 && !hproc && !vproc && r.chance(1, 2)) st.names.push_back(r.chance(1, 2) ? "geopot" : "vvel");
        } else if (k == 8) {
            if (!g.vert || hproc || vproc || tproc || g.grid == 2) continue;
            st.kind = "pressure";
            st.names.push_back(r.chance(1, 2) ? "theta2T" : "add4Dpressure");
            if (r.chance(1, 2) && g.spec.var("omega")) st.names.push_back("omega2vwind");
            if (r.chance(1, 3) && g.spec.var("shum")) st.names.push_back("specific2relative");
        } else {
            if (g.spec.var("status") && !hproc && !tproc) {
                st.kind = "quality";
                st.a = r.range(0, 9);
            } else if (!merged && !hproc && !tproc && !vproc && g.grid != 2) {
                merged = true;
                hproc = true;
                st.kind = r.chance(1, 2) ? "smooth" : "merge";
                st.method = r.range(0, 2);
            } else continue;
        }
        tx << st.kind << (st.kind == "grid" || st.kind == "points" || st.kind == "cross" ? std::to_string(st.method) : "") << " ";
        p.stages.push_back(st);
    }
    if (p.stages.empty()) {
        Pipe::Stage st;
        st.kind = "process";
        st.names = {"accumulate"};
        p.stages.push_back(st);
        tx << "process ";
    }
    for (auto& st : p.stages)
        for (auto& nme : st.names) tx << nme << " ";
    p.text = tx.str();
    return p;
}

CDMReader_p open_pipe(CDMReader_p rd, const Pipe& p, std::shared_ptr<Geo> second)
{
    for (auto& st : p.stages) {
        if (st.kind == "grid" || st.kind == "points" || st.kind == "cross") {
            auto ip = std::make_shared<CDMInterpolator>(rd);
            auto proc = [](int k) -> InterpolatorProcess2d_p {
                if (k == 1) return std::make_shared<InterpolatorFill2d>(0.01, 1.6, 20);
                if (k == 2) return std::make_shared<InterpolatorCreepFill2d>(3, 2);
                return std::make_shared<InterpolatorCreepFillVal2d>(3, 2, 1.5f);
            };
            if (st.pre) ip->addPreprocess(proc(st.pre));
            if (st.post) ip->addPostprocess(proc(st.post));
            if (st.x2 > 0) ip->setDistanceOfInterest(st.x2);
            if (st.kind == "points") ip->changeProjection(st.method, st.x, st.y);
            else if (st.kind == "cross") {
                std::vector<std::pair<double, double>> pts;
                for (size_t i = 0; i < st.x.size(); i++) pts.push_back({st.x[i], st.y[i]});
                ip->changeProjectionToCrossSections(st.method, {CrossSectionDefinition("cs", pts)});
            } else if (st.b == 2) ip->changeProjection(st.method, STERE, "0,20000,...,x;relativeStart=0", "0,20000,...,x;relativeStart=0", "m", "m");
            else if (st.b == 3) {
                Spec t;
                t.dims = {{"x", st.x.size()}, {"y", st.y.size()}};
                t.atts.push_back(att("Conventions", "CF-1.0"));
                for (int k = 0; k < 4; k++) {
                    static const char* const n[] = {"x", "y", "longitude", "latitude"};
                    Var v;
                    v.name = n[k];
                    v.type = CDM_DOUBLE;
                    const std::vector<double> lo = lin(st.a ? 9.3 : st.x[0], 0.37, st.x.size()), la = lin(st.a ? 62.2 : st.y[0], 0.19, st.y.size());
                    if (k < 2) {
                        v.shape = {n[k]};
                        v.fixed = lin(0, 1, (k ? st.y : st.x).size());
                        v.atts = {att("units", "1"), att("axis", k ? "Y" : "X")};
                    } else {
                        v.shape = {"x", "y"};
                        for (size_t j = 0; j < la.size(); j++)
                            for (size_t i = 0; i < lo.size(); i++) v.fixed.push_back(k == 2 ? lo[i] + 0.01 * j : la[j] - 0.02 * i);
                        v.atts = {att("units", k == 2 ? "degrees_east" : "degrees_north"), att("standard_name", n[k])};
                    }
                    t.vars.push_back(v);
                }
                Var v;
                v.name = "ref";
                v.type = CDM_FLOAT;
                v.shape = {"x", "y"};
                v.fixed = lin(0, 1, st.x.size() * st.y.size());
                v.atts = {att("coordinates", "longitude latitude")};
                t.vars.push_back(v);
                ip->changeProjection(st.method, std::make_shared<ModelReader>(t), "ref");
            } else if (st.b) {
                std::ostringstream xs, ys;
                xs.precision(17);
                ys.precision(17);
                for (size_t i = 0; i < st.x.size(); i++) xs << (i ? "," : "") << st.x[i];
                for (size_t i = 0; i < st.y.size(); i++) ys << (i ? "," : "") << st.y[i];
                ip->changeProjection(st.method, st.a ? STERE : LATLON, xs.str(), ys.str(), st.a ? "m" : "degrees_east", st.a ? "m" : "degrees_north");
            } else ip->changeProjection(st.method, st.a ? STERE : LATLON, st.x, st.y, st.a ? "m" : "degrees_east", st.a ? "m" : "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
            rd = ip;
        } else if (st.kind == "vertical") {
            auto v = std::make_shared<CDMVerticalInterpolator>(rd, st.t, st.s);
            if (st.a) {
                v->ignoreValidityMin(true);
                v->ignoreValidityMax(true);
            }
            if (st.b == 1) v->interpolateToAxis("plev");
            else if (st.b == 2) v->interpolateByTemplateVariable("onp");
            else v->interpolateToFixed(st.x);
            rd = v;
        } else if (st.kind == "extract") {
            auto e = std::make_shared<CDMExtractor>(rd);
            if (st.a == 0) {
                TimeUnit tu("seconds since 1970-01-01 00:00:00");
                e->reduceTime(tu.unitTime2fimexTime(st.x[0]), tu.unitTime2fimexTime(st.x[1]));
            } else if (st.a == 1) e->reduceVerticalAxis(st.s, st.x[0], st.x[1]);
            else if (st.a == 2) e->reduceLatLonBoundingBox(st.x[0], st.x[1], st.x[2], st.x[3]);
            else if (st.a == 3) e->selectVariables(std::set<std::string>(st.names.begin(), st.names.end()), st.b);
            else if (st.a == 4) e->reduceDimensionStartEnd(st.s, size_t(st.x[0]), (long long)(st.x[1]));
            else {
                std::set<size_t> pos;
                for (auto x : st.x) pos.insert(size_t(x));
                e->reduceDimension(st.s, pos);
            }
            rd = e;
        } else if (st.kind == "time") {
            auto t = std::make_shared<CDMTimeInterpolator>(rd);
            t->changeTimeAxis(st.s);
            rd = t;
        } else if (st.kind == "process") {
            auto c = std::make_shared<CDMProcessor>(rd);
            for (auto& n : st.names) {
                if (n == "accumulate") {
                    c->accumulate("precip");
                    if (rd->getCDM().hasVariable("temp")) c->accumulate("temp");
                } else if (n == "deaccumulate") c->deAccumulate("precip");
                else if (n == "rotate") c->rotateVectorToLatLon(true, {"xwind"}, {"ywind"});
                else if (n == "rotateall") c->rotateAllVectorsToLatLon(true);
                else if (n == "rotatedir") c->rotateDirectionToLatLon(true, {"winddir"});
                else if (n == "geopot") c->addGeopotentialHeight();
                else if (n == "vvel") c->addVerticalVelocity();
            }
            rd = c;
        } else if (st.kind == "pressure") {
            rd = std::make_shared<CDMPressureConversions>(rd, st.names);
        } else if (st.kind == "quality") {
            static const char* const allowed[] = {"<allowed_values>1,2</allowed_values>", "<allowed_values use=\"highest\"/>", "<allowed_values>0</allowed_values>", "<allowed_values use=\"lowest\"/>", "<allowed_values use=\"all\"/>", "<allowed_values use=\"max:1\"/>", "<allowed_values use=\"min:2\"/>"};
            if (st.a > 6) {
                static const char* const autos[] = {"all", "highest", "lowest"};
                rd = std::make_shared<CDMQualityExtractor>(rd, autos[st.a - 7], "");
                continue;
            }
            const std::string cfg = sim::scratch_base + "/fix/quality" + std::to_string(st.a) + ".xml";
            if (!file_exists(cfg)) write_file(cfg, std::string("<?xml version=\"1.0\"?>\n<cdmQualityConfig><variable name=\"obs\"><status_flag_variable name=\"status\">") + allowed[st.a] + "</status_flag_variable></variable></cdmQualityConfig>");
            rd = std::make_shared<CDMQualityExtractor>(rd, "", cfg);
        } else if (st.kind == "smooth" || st.kind == "merge") {
            Spec in = second->spec;
            CDMReader_p inner = std::make_shared<ModelReader>(in);
            if (st.kind == "smooth") rd = std::make_shared<CDMBorderSmoothing>(inner, rd, st.method);
            else {
                auto m = std::make_shared<CDMMerger>(inner, rd);
                m->setGridInterpolationMethod(st.method);
                m->setSmoothing(createSmoothingFactory("LINEAR(1,1)"));
                m->setTargetGridFromInner();
                rd = m;
            }
        }
    }
    return rd;
}
} // namespace hs
