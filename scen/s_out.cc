// Output other than NetCDF: GRIB and NcML files. What is reported as written must be there, and nothing else.
#include "geo.h"
#include "grib_api.h"
#include "tools.h"

#include "fimex/CDMFileReaderFactory.h"
#include "fimex/NcmlCDMWriter.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <ctime>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <map>
#include <sstream>
#include <unistd.h>
using namespace hs;
using namespace sim;

namespace sim { const std::string& chosen_property(); }

namespace {
struct GPar { const char* name; const char* from; const char* to; double slope, off; };
const GPar GP[] = {{"ps", "Pa", "hPa", 0.01, 0}, {"temp", "K", "celsius", 1, -273.15}, {"xwind", "m/s", "m/s", 1, 0}, {"ywind", "m/s", "km/h", 3.6, 0}, {"precip", "mm", "", 1, 0},
                   {"theta", "K", "K", 1, 0}, {"shum", "1", "", 1, 0}, {"winddir", "degree", "degree", 1, 0}, {"obs", "m", "m", 1, 0}};
const int NGP = sizeof(GP) / sizeof(GP[0]);

// where a field lies: kind, points, first point, steps and scanning, then what belongs to the projection
struct Grid { int kind = -1; std::vector<double> n, lonlike; };
struct Field { std::vector<double> v; double tol; Grid grid; std::vector<double> pv; }; // missing as NAN
struct Key
{
    int par;
    long level;     // hPa, m or number
    long long time, ref; // seconds since 1970: valid time and reference time
    bool operator<(const Key& o) const { return std::tie(par, level, time, ref) < std::tie(o.par, o.level, o.time, o.ref); }
    std::string text() const { return std::string(GP[par].name) + " level " + std::to_string(level) + " time " + std::to_string(time) + " of " + std::to_string(ref); }
};
typedef std::map<Key, Field> Content;

struct GribJob
{
    Geo g;
    int ed = 1;
    bool omit = true, append = false;
    bool pars[NGP] = {};
    Grid grid;
    std::string out, xml, text;
    Content want;
};
const long long REF2020 = 1577836800;

const char* const GK[] = {"regular_ll", "rotated_ll", "lambert", "polar_stereographic"};
Grid place(Rng& r, Geo& g, int ed)
{
    Spec& s = g.spec;
    Grid q;
    const int k = r.chance(1, 2) ? 0 : r.range(1, 3);
    q.kind = k;
    auto axis = [&](const char* n) -> Var& { return *std::find_if(s.vars.begin(), s.vars.end(), [&](const Var& v) { return v.name == n; }); };
    Var &x = axis("x"), &y = axis("y");
    double x0, y0, dx, dy;
    if (k < 2) {
        x0 = r.range(-179, 179), dx = 0.25 * r.range(1, 8), y0 = r.range(-60, 60), dy = (r.chance(1, 2) ? -0.25 : 0.25) * r.range(1, 8);
        if (r.chance(1, 8)) dx = -dx;
        if (y0 + dy * (g.ny - 1) > 89 || y0 + dy * (g.ny - 1) < -89) y0 = 0;
    } else {
        x0 = r.range(-50, 50) * 1000, dx = r.range(1, 40) * 500, y0 = r.range(-50, 50) * 1000, dy = (k == 2 && r.chance(1, 2) ? -500 : 500) * r.range(1, 40);
    }
    for (size_t i = 0; i < g.nx; i++) x.fixed[i] = x0 + dx * i;
    for (size_t i = 0; i < g.ny; i++) y.fixed[i] = y0 + dy * i;
    if (k == 0) {
        q.n = {double(g.nx), double(g.ny), y0, y.fixed.back(), std::fabs(dx), std::fabs(dy), double(dx < 0), double(dy > 0)};
        q.lonlike = {x0, x.fixed.back()};
        return q;
    }
    auto A = [](const char* n, const char* v) { return CDMAttribute(n, v); };
    auto D = [](const char* n, double v) { return CDMAttribute(n, v); };
    Var m;
    m.name = "mapping";
    m.type = CDM_INT;
    m.fixed = {0};
    if (k == 1) {
        x.atts = {A("units", "degrees"), A("standard_name", "grid_longitude")};
        y.atts = {A("units", "degrees"), A("standard_name", "grid_latitude")};
        const double fr = r.chance(1, 2) ? 0 : 0.5, plat = r.range(20, 80) + fr, plon = r.range(-179, 179) + fr;
        m.atts = {A("grid_mapping_name", "rotated_latitude_longitude"), D("grid_north_pole_latitude", plat), D("grid_north_pole_longitude", plon), D("earth_radius", 6371000)};
        q.n = {double(g.nx), double(g.ny), y0, y.fixed.back(), std::fabs(dx), std::fabs(dy), double(dx < 0), double(dy > 0), -plat};
        q.lonlike = {x0, x.fixed.back(), plon - 180};
    } else {
        x.atts = {A("units", "m"), A("standard_name", "projection_x_coordinate")};
        y.atts = {A("units", "m"), A("standard_name", "projection_y_coordinate")};
        const double flat = r.range(300, 700) * 0.1, flon = r.range(-300, 1790) * 0.1, lon0 = r.range(-170, 170);
        for (int c = 0; c < 2; c++) {
            Var v;
            v.name = c ? "lat" : "lon";
            v.type = CDM_DOUBLE;
            v.shape = {"x", "y"};
            for (size_t j = 0; j < g.ny; j++)
                for (size_t i = 0; i < g.nx; i++) v.fixed.push_back(c ? flat + 0.25 * j + 0.01 * i : flon + 0.5 * i - 0.02 * j);
            v.atts = {A("units", c ? "degrees_north" : "degrees_east"), A("standard_name", c ? "latitude" : "longitude")};
            s.vars.push_back(v);
        }
        if (k == 2) {
            const double l1 = r.range(30, 65), l2 = r.chance(1, 2) ? l1 : l1 + 5;
            m.atts = {A("grid_mapping_name", "lambert_conformal_conic"), l1 == l2 ? D("standard_parallel", l1) : CDMAttribute("standard_parallel", CDM_DOUBLE, std::vector<std::string>{std::to_string(l1), std::to_string(l2)}),
                      D("longitude_of_central_meridian", lon0), D("latitude_of_projection_origin", l1), D("earth_radius", 6371000)};
            q.n = {double(g.nx), double(g.ny), flat, dx, std::fabs(dy), 0, double(dy > 0), l1, l2};
            q.lonlike = {flon, lon0};
        } else {
            const double ts = ed == 1 ? 60 : r.range(50, 90);
            const int how = r.range(0, 2);
            const double k0 = (1 + std::sin(ts * M_PI / 180)) / 2;
            if (how == 0) m.atts = {A("grid_mapping_name", "stereographic"), D("longitude_of_projection_origin", lon0), D("latitude_of_projection_origin", 90), D("scale_factor_at_projection_origin", k0)};
            else
                m.atts = {A("grid_mapping_name", "polar_stereographic"), D("straight_vertical_longitude_from_pole", lon0), D("latitude_of_projection_origin", 90), how == 1 ? D("standard_parallel", ts) : D("scale_factor_at_projection_origin", k0)};
            m.atts.push_back(D("earth_radius", 6371000));
            q.n = {double(g.nx), double(g.ny), flat, dx, dy, 0, 1, ts};
            q.lonlike = {flon, lon0};
        }
    }
    s.vars.push_back(m);
    for (auto& v : s.vars)
        if (v.shape.size() >= 2 && v.shape[0] == "x" && v.name != "lon" && v.name != "lat") {
            v.atts.push_back(A("grid_mapping", "mapping"));
            if (k > 1) v.atts.push_back(A("coordinates", "lon lat"));
        }
    return q;
}

GribJob random_job(Rng& r, const std::string& out, int ed)
{
    GribJob j;
    GeoOpt o;
    static const int verts[] = {0, 1, 1, 2, 5};
    o.vert = verts[r.below(5)];
    o.grid = 0;
    j.g = random_geo(r, o);
    j.ed = ed;
    j.out = out;
    j.omit = !r.chance(1, 4);
    Spec& s = j.g.spec;
    // levels in another unit, and from the surface upwards
    std::vector<double> levels, pv;
    if (const Var* lv = s.var("lev")) levels = lv->fixed;
    const bool other = r.chance(1, 2), flip = r.chance(1, 2);
    for (auto& v : s.vars) {
        if (v.name == "lev" && (o.vert == 1 || o.vert == 5) && other) {
            for (auto& l : v.fixed) l = o.vert == 1 ? l * 100 : l / 1000;
            for (auto& a : v.atts)
                if (a.getName() == "units") a = CDMAttribute("units", o.vert == 1 ? "Pa" : "km");
        }
        if (o.vert == 2 && (v.name == "ap" || v.name == "b")) {
            if (flip) std::reverse(v.fixed.begin(), v.fixed.end());
            if (ed == 2) pv.insert(pv.end(), v.fixed.begin(), v.fixed.end());
        }
    }
    const long ltype = o.vert == 1 ? 100 : o.vert == 2 ? (ed == 1 ? 109 : 105) : ed == 1 ? 105 : 103, stype = ed == 1 ? 105 : 103;
    j.grid = place(r, j.g, ed);
    // some fields are entirely missing
    for (auto& v : s.vars)
        if (v.has_fill && r.chance(1, 3)) {
            const size_t xy = j.g.nx * j.g.ny, n = v.fixed.size() / xy, k = r.below(n);
            std::fill(v.fixed.begin() + k * xy, v.fixed.begin() + (k + 1) * xy, v.fill);
        }
    Var& tv = *std::find_if(s.vars.begin(), s.vars.end(), [](const Var& v) { return v.name == "time"; });
    if (r.chance(1, 3)) // irregular times
        for (size_t t = 1; t < j.g.nt; t++) tv.fixed[t] = tv.fixed[t - 1] + 1800 * r.range(1, 12);
    const int rt = r.range(0, 2); // no reference time, one, one dimension of them
    std::vector<double> refs, valid = tv.fixed;
    size_t noff = 1;
    if (rt == 1 && j.g.nt > 1) {
        Var v;
        v.name = "forecast_reference_time";
        v.type = CDM_DOUBLE;
        v.fixed = {-1800. * r.range(0, 20)};
        v.atts = {CDMAttribute("units", "seconds since 2020-01-01 00:00:00 +0000"), CDMAttribute("standard_name", "forecast_reference_time")};
        refs.assign(j.g.nt, v.fixed[0]);
        s.vars.push_back(v);
    } else if (rt == 2 && j.g.nt > 1) { // the times of every reference time
        noff = r.range(1, 2);
        Var v;
        v.name = "refTime";
        v.type = CDM_DOUBLE;
        v.shape = {"refTime"};
        v.atts = {CDMAttribute("units", "seconds since 2020-01-01 00:00:00 +0000"), CDMAttribute("standard_name", "forecast_reference_time")};
        for (size_t t = 0; t < j.g.nt; t++) v.fixed.push_back(3600. * 6 * t);
        for (auto& d : s.dims)
            if (d.name == "time") d.name = "refTime";
        s.dims.insert(s.dims.begin(), {"offset", noff});
        std::vector<double> step(noff);
        for (auto& o : step) o = 1800 * r.range(1, 12);
        valid.clear();
        for (size_t t = 0; t < j.g.nt; t++) {
            double at = v.fixed[t];
            for (size_t o = 0; o < noff; o++) {
                valid.push_back(at += step[o]);
                refs.push_back(v.fixed[t]);
            }
        }
        tv.fixed = valid;
        tv.shape = {"offset", "refTime"};
        for (auto& w : s.vars) {
            if (&w == &tv || w.shape.empty() || w.shape.back() != "time") continue;
            w.shape.back() = "offset";
            w.shape.push_back("refTime");
            const size_t n = w.fixed.size() / j.g.nt;
            std::vector<double> f;
            for (size_t t = 0; t < j.g.nt; t++)
                for (size_t o = 0; o < noff; o++)
                    for (size_t i = 0; i < n; i++) f.push_back(w.fixed[t * n + (i + o) % n]);
            w.fixed = f;
            bool had = false;
            for (auto& a : w.atts)
                if (a.getName() == "coordinates") a = CDMAttribute("coordinates", "lon lat time"), had = true;
            if (!had) w.atts.push_back(CDMAttribute("coordinates", "time"));
        }
        s.vars.push_back(v);
    }
    std::ostringstream x;
    x << "<?xml version=\"1.0\"?>\n<cdm_gribwriter_config>";
    if (!j.omit) x << "<processing_options><omitEmptyFields>false</omitEmptyFields></processing_options>";
    x << "@APPEND@<axes><vertical_axis standard_name=\"\"><grib1 id=\"105\" value=\"0\" type=\"short\"/><grib2 id=\"103\" value=\"0\" type=\"short\"/></vertical_axis>"
      << "<vertical_axis standard_name=\"air_pressure\"><grib1 id=\"100\" units=\"hPa\" type=\"short\"/><grib2 id=\"100\" units=\"hPa\" type=\"double\"/></vertical_axis>"
      << "<vertical_axis standard_name=\"height\"><grib1 id=\"105\" units=\"m\" type=\"short\"/><grib2 id=\"103\" units=\"m\" type=\"short\"/></vertical_axis>"
      << "<vertical_axis standard_name=\"atmosphere_hybrid_sigma_pressure_coordinate\"><grib1 id=\"109\" type=\"short\"/><grib2 id=\"105\" type=\"short\"/></vertical_axis></axes><variables>";
    bool any = false;
    for (int p = 0; p < NGP; p++) {
        const Var* v = s.var(GP[p].name);
        if (!v || (any && r.chance(1, 4))) continue;
        any = j.pars[p] = true;
        x << "<parameter name=\"" << GP[p].name << "\"><grib1 parameterNumber=\"" << 11 + p << "\" codeTable=\"128\" units=\"" << GP[p].to << "\"/>"
          << "<grib2 discipline=\"0\" parameterCategory=\"2\" parameterNumber=\"" << 11 + p << "\" units=\"" << GP[p].to << "\"/></parameter>";
        double scale = 1;
        for (auto& a : v->atts)
            if (a.getName() == "scale_factor") scale = a.getData()->asDouble()[0];
        const size_t xy = j.g.nx * j.g.ny;
        const bool z = std::count(v->shape.begin(), v->shape.end(), "lev") > 0;
        const size_t nz = z ? j.g.nz : 1;
        for (size_t t = 0; t < valid.size(); t++)
            for (size_t l = 0; l < nz; l++) {
                Field f;
                f.grid = j.grid;
                double lo = 1e300, hi = -1e300;
                size_t miss = 0;
                for (size_t i = 0; i < xy; i++) {
                    double d = value(s, *v, (t * nz + l) * xy + i);
                    if (v->has_fill && d == v->fill) {
                        f.v.push_back(NAN);
                        miss++;
                        continue;
                    }
                    d = d * scale * GP[p].slope + GP[p].off;
                    lo = std::min(lo, d), hi = std::max(hi, d);
                    f.v.push_back(d);
                }
                if (miss == xy && j.omit) continue;
                f.tol = miss == xy ? 0 : (hi - lo) / 4096 + std::fabs(hi) * 1e-5 + std::fabs(lo) * 1e-5 + 1e-9;
                if (z) f.pv = pv;
                j.want[{p, z ? ltype * 100000 + long(levels[l]) : stype * 100000, REF2020 + (long long)valid[t], REF2020 + (long long)(refs.empty() ? valid : refs)[t]}] = f;
            }
    }
    x << "</variables></cdm_gribwriter_config>";
    j.xml = x.str();
    j.text = "grib" + std::to_string(ed) + " " + std::to_string(j.want.size()) + " fields on " + GK[j.grid.kind] + (refs.empty() ? "" : rt == 1 ? " with reference time" : " with reference times");
    return j;
}
std::string job_xml(const GribJob& j)
{
    std::string x = j.xml;
    const size_t p = x.find("@APPEND@");
    return x.replace(p, 8, j.append ? "<output_file type=\"append\"/>" : "");
}
double gd(grib_handle* h, const char* k)
{
    double v = 0;
    if (grib_get_double(h, k, &v)) return -999999;
    return v;
}
long gl(grib_handle* h, const char* k)
{
    long v = 0;
    if (grib_get_long(h, k, &v)) return -999999;
    return v;
}
// decode with the bare ecCodes library; returns a description of the first problem
std::string read_grib(const std::string& file, Content& out, bool partial_tail = false)
{
    const std::string b = read_file(file);
    size_t pos = 0;
    while (pos < b.size()) {
        if (b.size() - pos < 16 || b.compare(pos, 4, "GRIB") != 0) return partial_tail ? "" : "no GRIB message at byte " + std::to_string(pos) + " of " + std::to_string(b.size());
        const unsigned char* u = (const unsigned char*)b.data() + pos;
        size_t n = 0;
        if (u[7] == 1) n = (size_t(u[4]) << 16) | (size_t(u[5]) << 8) | u[6];
        else
            for (int i = 8; i < 16; i++) n = n << 8 | u[i];
        if (pos + n > b.size() || b.compare(pos + n - 4, 4, "7777") != 0) return partial_tail ? "" : "incomplete GRIB message at byte " + std::to_string(pos);
        grib_handle* h = grib_handle_new_from_message_copy(0, b.data() + pos, n);
        if (!h) return "cannot decode message at byte " + std::to_string(pos);
        Key k;
        if (u[7] == 1) {
            k.par = int(gl(h, "indicatorOfParameter")) - 11;
            k.level = gl(h, "level") + 100000 * gl(h, "indicatorOfTypeOfLevel");
        } else {
            k.par = int(gl(h, "parameterNumber")) - 11;
            const long sv = gl(h, "scaledValueOfFirstFixedSurface"), sf = gl(h, "scaleFactorOfFirstFixedSurface");
            const long ty = gl(h, "typeOfFirstFixedSurface");
            k.level = 100000 * ty + long(sv * std::pow(10., -double(sf)) / (ty == 100 ? 100 : 1) + 0.5);
        }
        struct tm tm;
        memset(&tm, 0, sizeof tm);
        // from the coded values: the computed keys of ecCodes (step, validityDate) depend on a process-wide unit
        const long vd = gl(h, "dataDate"), vt = gl(h, "dataTime"), tri = u[7] == 1 ? gl(h, "timeRangeIndicator") : 0;
        const long unit = gl(h, u[7] == 1 ? "unitOfTimeRange" : "indicatorOfUnitOfTimeRange");
        const long no = u[7] == 1 ? (tri == 10 ? gl(h, "P1") * 256 + gl(h, "P2") : gl(h, "P1")) : gl(h, "forecastTime");
        const long secs = unit == 0 ? 60 : unit == 1 ? 3600 : unit == 2 ? 86400 : unit == 10 ? 3 * 3600 : unit == 11 ? 6 * 3600 : unit == 12 ? 12 * 3600 : unit == (u[7] == 1 ? 254 : 13) ? 1 : u[7] == 1 && unit == 13 ? 900 : u[7] == 1 && unit == 14 ? 1800 : -1;
        if (secs < 0) return "step unit " + std::to_string(unit) + " at byte " + std::to_string(pos);
        tm.tm_year = int(vd / 10000 - 1900), tm.tm_mon = int(vd / 100 % 100 - 1), tm.tm_mday = int(vd % 100), tm.tm_hour = int(vt / 100), tm.tm_min = int(vt % 100);
        k.ref = timegm(&tm);
        k.time = k.ref + no * secs;
        grib_set_double(h, "missingValue", -1e33);
        size_t cnt = 0;
        grib_get_size(h, "values", &cnt);
        Field f;
        size_t npv = 0;
        if (gl(h, "PVPresent") == 1 && !grib_get_size(h, "pv", &npv) && npv > 3) { // half levels; full ones are the means of two
            std::vector<double> q(npv);
            grib_get_double_array(h, "pv", q.data(), &npv);
            for (size_t c = 0; c < 2; c++)
                for (size_t i = 0; i + 1 < npv / 2; i++) f.pv.push_back((q[c * npv / 2 + i] + q[c * npv / 2 + i + 1]) / 2);
        }
        f.tol = 0;
        f.v.resize(cnt);
        const int e = grib_get_double_array(h, "values", f.v.data(), &cnt);
        const long ni = gl(h, "Ni"), nj = gl(h, "Nj");
        char gt[64] = "";
        size_t gtn = sizeof gt;
        grib_get_string(h, "gridType", gt, &gtn);
        for (int i = 0; i < 4; i++)
            if (!strcmp(gt, GK[i])) f.grid.kind = i;
        const double lat1 = gd(h, "latitudeOfFirstGridPointInDegrees"), lon1 = gd(h, "longitudeOfFirstGridPointInDegrees");
        const double si = double(gl(h, "iScansNegatively")), sj = double(gl(h, "jScansPositively"));
        if (f.grid.kind == 0 || f.grid.kind == 1) {
            f.grid.n = {double(ni), double(nj), lat1, gd(h, "latitudeOfLastGridPointInDegrees"), gd(h, "iDirectionIncrementInDegrees"), gd(h, "jDirectionIncrementInDegrees"), si, sj};
            f.grid.lonlike = {lon1, gd(h, "longitudeOfLastGridPointInDegrees")};
            if (f.grid.kind) f.grid.n.push_back(gd(h, "latitudeOfSouthernPoleInDegrees")), f.grid.lonlike.push_back(gd(h, "longitudeOfSouthernPoleInDegrees"));
        } else if (f.grid.kind == 2) {
            f.grid.n = {double(ni), double(nj), lat1, gd(h, "DxInMetres"), gd(h, "DyInMetres"), si, sj, gd(h, "Latin1InDegrees"), gd(h, "Latin2InDegrees")};
            f.grid.lonlike = {lon1, gd(h, "LoVInDegrees")};
        } else if (f.grid.kind == 3) {
            f.grid.n = {double(ni), double(nj), lat1, gd(h, "DxInMetres"), gd(h, "DyInMetres"), si, sj, u[7] == 1 ? 60 : gd(h, "LaDInDegrees")};
            f.grid.lonlike = {lon1, gd(h, "orientationOfTheGridInDegrees")};
        }
        grib_handle_delete(h);
        if (e || cnt != size_t(ni * nj)) return "cannot decode values at byte " + std::to_string(pos);
        for (auto& d : f.v)
            if (d == -1e33) d = NAN;
        if (k.par < 0 || k.par >= NGP) return "unexpected parameter at byte " + std::to_string(pos);
        if (out.count(k)) return "field twice: " + k.text();
        out[k] = f;
        pos += n;
    }
    return "";
}
std::string compare(const Content& want, const Content& got, bool subset = false)
{
    for (auto& w : want) {
        auto it = got.find(w.first);
        if (it == got.end()) return "missing field " + w.first.text() + (got.empty() ? "" : "; found " + got.begin()->first.text()) + " (" + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " fields)";
        if (it->second.v.size() != w.second.v.size()) return "field " + w.first.text() + " has " + std::to_string(it->second.v.size()) + " values instead of " + std::to_string(w.second.v.size());
        const auto &wp = w.second.pv, &gp = it->second.pv;
        if (!wp.empty() && wp.size() != gp.size()) return "field " + w.first.text() + " has " + std::to_string(gp.size()) + " level coefficients instead of " + std::to_string(wp.size());
        for (size_t i = 0; i < wp.size(); i++)
            if (std::fabs(wp[i] - gp[i]) > (i < wp.size() / 2 ? 0.1 : 1e-5)) return "field " + w.first.text() + ": level coefficient " + std::to_string(i) + " is " + std::to_string(gp[i]) + " instead of " + std::to_string(wp[i]);
        const Grid &wg = w.second.grid, &gg = it->second.grid;
        if (wg.kind != gg.kind) return "field " + w.first.text() + " has another kind of grid than " + GK[wg.kind];
        for (size_t i = 0; i < wg.n.size(); i++)
            if (std::fabs(wg.n[i] - gg.n[i]) > 2e-3) return "field " + w.first.text() + ", " + GK[wg.kind] + " grid: property " + std::to_string(i) + " is " + std::to_string(gg.n[i]) + " instead of " + std::to_string(wg.n[i]);
        for (size_t i = 0; i < wg.lonlike.size(); i++)
            if (std::fabs(std::remainder(wg.lonlike[i] - gg.lonlike[i], 360)) > 2e-3) return "field " + w.first.text() + ", " + GK[wg.kind] + " grid: longitude " + std::to_string(i) + " is " + std::to_string(gg.lonlike[i]) + " instead of " + std::to_string(wg.lonlike[i]);
        for (size_t i = 0; i < w.second.v.size(); i++) {
            const double a = w.second.v[i], b = it->second.v[i];
            if (std::isnan(a) != std::isnan(b) || std::fabs(a - b) > w.second.tol)
                return "field " + w.first.text() + " value " + std::to_string(i) + ": " + std::to_string(b) + " instead of " + std::to_string(a);
        }
    }
    if (!subset)
        for (auto& g : got)
            if (!want.count(g.first)) return "field not in the source: " + g.first.text();
    return "";
}
void warm_grib()
{
    const std::string& p = chosen_property();
    if (!(p.empty() || p == "S07" || p == "S04")) return;
    for (int ed = 1; ed <= 2; ed++) { // let the library parse its definitions once
        Rng r(77);
        for (int k = 0; k < 16; k++) {
            GribJob j = random_job(r, fixdir + "warm.grib", ed);
            try {
                CDMFileReaderFactory::createWriter(std::make_shared<ModelReader>(j.g.spec), "grib" + std::to_string(ed), j.out, XMLInputString(job_xml(j)));
                Content c;
                read_grib(j.out, c);
            } catch (std::exception& e) {
                fprintf(stderr, "fixture: GRIB output: %s\n", e.what());
            }
        }
    }
}
InitReg reg(warm_grib);
} // namespace

static void grib_out(Rng& rng, bool faulty)
{
    const int nw = rng.range(1, 3);
    std::vector<std::vector<GribJob>> files(nw); // per thread: one file, written at once or by several appends
    std::vector<std::vector<ModelReader_p>> src(nw);
    for (int w = 0; w < nw; w++) {
        const int ed = rng.range(1, 2), n = rng.chance(1, 3) ? 2 : 1;
        for (int k = 0; k < n; k++) {
            GribJob j = random_job(rng, scratch + "o" + std::to_string(w) + ".grib", ed);
            if (n > 1) { // appended runs: later ones hold later times
                j.append = true;
                for (auto& v : j.g.spec.vars)
                    if (v.name == "time" || v.name == "forecast_reference_time" || v.name == "refTime")
                        for (auto& t : v.fixed) t += 864000 * k;
                Content c;
                for (auto& f : j.want) c[{f.first.par, f.first.level, f.first.time + 864000 * k, f.first.ref + 864000 * k}] = f.second;
                j.want = c;
            }
            files[w].push_back(j);
            src[w].push_back(std::make_shared<ModelReader>(j.g.spec));
        }
    }
    auto write = [&](int w, size_t k) { CDMFileReaderFactory::createWriter(src[w][k], "grib" + std::to_string(files[w][k].ed), files[w][k].out, XMLInputString(job_xml(files[w][k]))); };
    std::vector<Fault> fs;
    if (faulty) {
        OpCount c = rehearse([&] {
            for (int w = 0; w < nw; w++)
                for (size_t k = 0; k < files[w].size(); k++) write(w, k);
        });
        for (int w = 0; w < nw; w++) ::unlink(files[w][0].out.c_str());
        fs = draw_faults(rng, c, {{F_WRITE_ENOSPC, 3}, {F_WRITE_EIO, 3}, {F_WRITE_SHORT, 1}, {F_WRITE_EINTR, 1}, {F_CLOSE_FAIL, 2}, {F_OPEN_FAIL, 2}, {F_UPSTREAM_THROW, 4}, {F_ALLOC, 2}}, 2);
        use_faults(fs);
        arm_faults(true);
    }
    std::string tx;
    for (auto& f : files)
        for (auto& j : f) tx += j.text + (j.append ? " appended; " : "; ");
    sample("%d writers: %s faults: %s", nw, tx.c_str(), fault_text(fs).c_str());
    auto work = [&](int w) {
        Content done;
        for (size_t k = 0; k < files[w].size(); k++) {
            const GribJob& j = files[w][k];
            Outcome oc = attempt([&] { write(w, k); });
            NoFaults nf;
            Content got;
            std::string e;
            if (oc.threw) {
                probe("write_error");
                if (!faulty) violation("unexpected-error", "writing %s failed without any fault: %s", j.text.c_str(), oc.what.c_str());
                if (j.append && !done.empty()) { // what was there before is still there
                    e = read_grib(j.out, got, true);
                    if (e.empty()) e = compare(done, got, true);
                    if (!e.empty()) violation("append-lost", "a failed append damaged the GRIB file: %s", e.c_str());
                }
                return;
            }
            for (auto& f : j.want) done[f.first] = f.second;
            e = read_grib(j.out, got);
            if (e.empty()) e = compare(done, got);
            if (!e.empty()) violation(faulty ? "silent-loss" : "wrong-output", "writing %s reported success, but: %s", j.text.c_str(), e.c_str());
            probe("files_checked");
            probe("fields_checked", done.size());
        }
    };
    for (int w = 0; w < nw; w++) spawn([&, w] { work(w); });
    join_all();
    arm_faults(false);
    if (faulty) {
        Quiet q;
        faulty = false;
        for (int w = 0; w < nw; w++) {
            ::unlink(files[w][0].out.c_str());
            work(w);
        }
    }
}
SIM_SCENARIO(S07, grib, 2) { grib_out(rng, false); }
SIM_SCENARIO(S07, grib_faults, 4) { grib_out(rng, true); }

// ---------- NcML ----------
namespace {
std::string attr(xmlNodePtr n, const char* k)
{
    xmlChar* c = xmlGetProp(n, (const xmlChar*)k);
    std::string s = c ? (const char*)c : "";
    if (c) xmlFree(c);
    return s;
}
std::string check_ncml(const std::string& file, const Spec& s)
{
    const std::string b = read_file(file);
    xmlDocPtr doc = xmlReadMemory(b.data(), int(b.size()), "x.ncml", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
    if (!doc) return "not a complete XML document (" + std::to_string(b.size()) + " bytes)";
    std::string e;
    size_t nd = 0, nv = 0;
    for (xmlNodePtr n = xmlDocGetRootElement(doc)->children; n && e.empty(); n = n->next) {
        if (n->type != XML_ELEMENT_NODE) continue;
        const std::string el = (const char*)n->name, name = attr(n, "name");
        if (el == "dimension") {
            const Dim* d = s.dim(name);
            if (!d) e = "unexpected dimension " + name;
            else if (attr(n, "length") != std::to_string(d->len)) e = "dimension " + name + " has length " + attr(n, "length");
            nd++;
        } else if (el == "variable") {
            nv++;
            const Var* v = s.var(name);
            if (!v) { e = "unexpected variable " + name; break; }
            size_t na = 0;
            for (xmlNodePtr c = n->children; c && e.empty(); c = c->next) {
                if (c->type != XML_ELEMENT_NODE) continue;
                if (!strcmp((const char*)c->name, "attribute")) na++;
                if (strcmp((const char*)c->name, "values")) continue;
                xmlChar* t = xmlNodeGetContent(c);
                std::istringstream is((const char*)t);
                std::vector<double> got;
                std::string w;
                while (is >> w) got.push_back(strtod(w.c_str(), nullptr));
                xmlFree(t);
                std::vector<double> want;
                for (size_t i = 0; i < s.count(*v); i++) want.push_back(value(s, *v, i));
                e = compare_values("NcML values of " + name, got, want, v->type == CDM_FLOAT ? 1e-6 : 1e-13);
            }
            if (e.empty() && na < v->atts.size()) e = "variable " + name + " lacks attributes";
        }
    }
    if (e.empty() && (nd != s.dims.size() || nv != s.vars.size())) e = std::to_string(nd) + " dimensions and " + std::to_string(nv) + " variables instead of " + std::to_string(s.dims.size()) + " and " + std::to_string(s.vars.size());
    xmlFreeDoc(doc);
    return e;
}
} // namespace
static void ncml_out(Rng& rng, bool faulty)
{
    const int nw = rng.range(1, 3);
    struct J { Spec s; ModelReader_p rd; std::string out; bool factory; };
    std::vector<J> js(nw);
    for (int w = 0; w < nw; w++) {
        SpecOpt o;
        o.nc3 = true;
        js[w].s = random_spec(rng, o);
        js[w].rd = std::make_shared<ModelReader>(js[w].s);
        js[w].out = scratch + "o" + std::to_string(w) + ".ncml";
        js[w].factory = rng.chance(1, 2);
    }
    auto write = [&](const J& j) {
        if (j.factory) createWriter(j.rd, "ncml", j.out);
        else NcmlCDMWriter(j.rd, j.out);
    };
    std::vector<Fault> fs;
    if (faulty) {
        OpCount c = rehearse([&] { for (auto& j : js) write(j); });
        for (auto& j : js) ::unlink(j.out.c_str());
        fs = draw_faults(rng, c, {{F_WRITE_ENOSPC, 3}, {F_WRITE_EIO, 3}, {F_WRITE_SHORT, 1}, {F_WRITE_EINTR, 1}, {F_CLOSE_FAIL, 2}, {F_OPEN_FAIL, 2}, {F_UPSTREAM_THROW, 4}, {F_ALLOC, 1}}, 2);
        use_faults(fs);
        arm_faults(true);
    }
    sample("%d NcML files faults: %s", nw, fault_text(fs).c_str());
    auto work = [&](const J& j) {
        Outcome oc = attempt([&] { write(j); });
        NoFaults nf;
        if (oc.threw) {
            probe("write_error");
            if (!faulty) violation("unexpected-error", "writing NcML failed without any fault: %s", oc.what.c_str());
            return;
        }
        std::string e = check_ncml(j.out, j.s);
        if (!e.empty()) violation(faulty ? "silent-loss" : "wrong-output", "writing NcML reported success, but: %s [%s]", e.c_str(), j.s.text().c_str());
        probe("files_checked");
    };
    for (auto& j : js) spawn([&] { work(j); });
    join_all();
    arm_faults(false);
    if (faulty) {
        Quiet q;
        faulty = false;
        for (auto& j : js) work(j);
    }
}
SIM_SCENARIO(S07, ncml, 1) { ncml_out(rng, false); }
SIM_SCENARIO(S07, ncml_faults, 2) { ncml_out(rng, true); }

#include "mix.h"
hs::MixJob hs::mix_grib_write(Rng& rng, const std::string& id)
{
    auto j = std::make_shared<GribJob>(random_job(rng, scratch + "mix" + id + ".grib", rng.range(1, 2)));
    return {j->text, [j] {
                CDMFileReaderFactory::createWriter(std::make_shared<ModelReader>(j->g.spec), "grib" + std::to_string(j->ed), j->out, XMLInputString(job_xml(*j)));
                NoFaults nf;
                Content got;
                std::string e = read_grib(j->out, got);
                if (e.empty()) e = compare(j->want, got);
                if (!e.empty()) violation("wrong-output", "writing %s: %s", j->text.c_str(), e.c_str());
            }};
}
hs::MixJob hs::mix_ncml(Rng& rng, const std::string& id)
{
    SpecOpt o;
    o.nc3 = true;
    auto s = std::make_shared<Spec>(random_spec(rng, o));
    return {"ncml", [s, id] {
                const std::string f = scratch + "mix" + id + ".ncml";
                createWriter(std::make_shared<ModelReader>(*s), "ncml", f);
                NoFaults nf;
                std::string e = check_ncml(f, *s);
                if (!e.empty()) violation("wrong-output", "writing NcML: %s", e.c_str());
            }};
}
