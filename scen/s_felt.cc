// FELT: readers of met.no field files, written here word by word, independently of the code under test.
#include "mix.h"
#include "view.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace hs;
using namespace sim;

namespace {
typedef int16_t W;
const W NODATA = -32767;
const long long REF0 = 1577836800; // 2020-01-01 00:00
const double RADIUS = 6371000, DEG = M_PI / 180;

struct FPar { const char* name; const char* id; int param, vcoord; CDMDataType type; double fill; const char* units; bool constant, ens; };
const int NP = 6;
const FPar FP[NP] = {
    {"ts", "10,2,1000", 10, 2, CDM_SHORT, -32767, "K", false, false},   // surface, no level axis
    {"t", "11,1", 11, 1, CDM_FLOAT, -1e10, "K", false, false},          // pressure levels
    {"q", "12,10", 12, 10, CDM_DOUBLE, -999, "m", false, false},        // hybrid levels
    {"oro", "13,8", 13, 8, CDM_SHORT, -9999, "m", true, false},         // constant field
    {"te", "2014,1", 2014, 1, CDM_FLOAT, -32767, "K", false, true},     // ensemble on pressure levels
    {"zs", "15,3", 15, 3, CDM_SHORT, -32767, "m", false, false},        // several heights: level axis, one: none
};
const int PLEV[3] = {500, 700, 850}, HLEV[3] = {1, 2, 3}, HA[3] = {100, 2500, 40}, HB[3] = {5, 3000, 9000}, ZLEV[2] = {2, 10};
const int HOURS[4] = {0, 3, 6, 48};

struct Field
{
    int p = 0, lev = 0, t = 0, ens = 0, dtype = 3, scale = 0, producer = 88, ref = 0;
    std::vector<W> val;
};
struct FData
{
    int nx = 3, ny = 2, gtype = 2, extra = 0; // extra: 0 none, 1 first, 2 second method
    double a = 0, b = 0, c = 0, d = 0, e = 0, f = 0; // grid parameters
    bool swap = false, gaps = false, restricted = false, updating = false, far = false; // far: data behind block 32767
    std::set<std::string> refused; // variables with fields that cannot be represented: an error is right
    int refs = 1;
    std::vector<Field> fields; // in file order
    std::string file, xml;
    View view;
    std::string text;
    long cut = -1;
};
int level_of(int p, int l) { return p == 0 ? 1000 : p == 3 ? 0 : p == 2 ? HLEV[l] : p == 5 ? ZLEV[l] : PLEV[l]; }
int nlev(int p) { return p == 0 || p == 3 ? 1 : p == 5 ? 2 : 3; }
int ens_no(int i) { return i == 0 ? 0 : i == 1 ? 2 : 5; }
long long valid_time(const Field& f) { return REF0 + f.ref * 86400LL * 5 + HOURS[f.t] * 3600LL; }

void put_time(W* w, long long t)
{
    time_t tt = t;
    struct tm m;
    gmtime_r(&tt, &m);
    w[0] = W(1900 + m.tm_year);
    w[1] = W((m.tm_mon + 1) * 100 + m.tm_mday);
    w[2] = W(m.tm_hour * 100 + m.tm_min);
}
// grid parameters in the order of the extra words, and the four words of the header
std::vector<double> grid_pars(const FData& d)
{
    switch (d.gtype) {
    case 1: case 4: return {d.a, d.b, d.c, d.d, d.e};
    case 5: return {d.a, d.b, d.c, d.d, d.e};
    default: return {d.a, d.b, d.c, d.d, d.e, d.f};
    }
}
std::vector<W> extra_words(const FData& d)
{
    std::vector<W> w;
    if (!d.extra) return w;
    auto g = grid_pars(d);
    const bool stereo = d.gtype == 1 || d.gtype == 4;
    if (d.extra == 2) w = {W(g.size()), 3};
    for (double v : g) {
        const long n = std::lround(v * (d.extra == 1 ? (stereo ? 100 : 10000) : 1000));
        const long hi = n / 10000, lo = n % 10000;
        if (d.extra == 2) w.push_back(-3);
        w.push_back(W(hi));
        w.push_back(W(lo));
    }
    return w;
}
std::string encode(const FData& d, std::vector<std::pair<size_t, size_t>>* where = nullptr)
{
    const size_t xy = size_t(d.nx) * d.ny;
    const auto ex = extra_words(d);
    std::vector<W> w(1024 * 2, 0);
    w[0] = 998;
    put_time(&w[1], REF0);
    put_time(&w[4], REF0);
    w[9] = W(d.fields.size());
    w[14] = d.updating;
    put_time(&w[19], REF0);
    put_time(&w[22], REF0 + 86400);
    // directory, with unused entries between the others when there are gaps
    std::vector<int> entries;
    for (size_t i = 0; i < d.fields.size(); i++) {
        if (d.gaps && i % 3 == 1) entries.push_back(-1);
        if (d.gaps && i == 2) entries.insert(entries.end(), 62, -1);
        entries.push_back(int(i));
    }
    const size_t dirblocks = (entries.size() + 63) / 64;
    w.resize((2 + dirblocks) * 1024, 0);
    size_t pos = w.size(); // next free word
    const size_t shift = d.far ? 32767u - 3 : 0; // blocks of nothing between the directory and the data
    for (size_t i = 0; i < entries.size(); i++) {
        W* h = &w[2048 + 16 * i];
        if (entries[i] < 0) {
            for (int k = 0; k < 16; k++) h[k] = NODATA;
            h[15] = 0;
            h[14] = W(d.gtype);
            continue;
        }
        const Field& f = d.fields[entries[i]];
        const FPar& q = FP[f.p];
        if (!d.gaps || i % 2) pos = (pos + 1023) / 1024 * 1024; // aligned, or directly after the previous field
        const size_t at = pos;
        const size_t len = 20 + xy + ex.size();
        h = nullptr;
        w.resize(at + len, 0);
        h = &w[2048 + 16 * i];
        const int lev = level_of(f.p, f.lev);
        h[0] = W(f.producer);
        h[1] = 7;
        put_time(h + 2, REF0 + f.ref * 86400LL * 5);
        const size_t block = at / 1024 + shift;
        h[5] = W(block % 32767 + 1);
        h[6] = W(at % 1024 + 1);
        h[7] = W(len % 32767);
        h[8] = W(f.dtype);
        h[9] = W(HOURS[f.t]);
        h[10] = W(q.vcoord);
        h[11] = W(q.param);
        h[12] = W(lev);
        h[13] = W(q.ens ? ens_no(f.ens) : f.p == 2 ? HA[f.lev] : 0);
        h[14] = W(ex.empty() ? d.gtype : d.gtype * 1000 + int(ex.size()));
        h[15] = W(len / 32767 * 100 + block / 32767);
        W* g = &w[at];
        g[0] = h[0], g[1] = h[1], g[2] = h[8], g[3] = h[9], g[4] = h[10], g[5] = h[11], g[6] = h[12], g[7] = h[13], g[8] = h[14];
        g[9] = W(d.nx), g[10] = W(d.ny);
        put_time(g + 11, REF0 + f.ref * 86400LL * 5);
        if (ex.empty()) {
            if (d.gtype == 1 || d.gtype == 4) g[14] = W(std::lround(d.a * 100)), g[15] = W(std::lround(d.b * 100)), g[16] = W(std::lround(d.c * 10)), g[17] = W(std::lround(d.d));
            else if (d.gtype == 5 || d.gtype == 6) g[14] = W(std::lround(d.a * 100)), g[15] = W(std::lround(d.b * 100)), g[16] = W(std::lround(d.c * 10)), g[17] = W(std::lround(d.d * 10));
            else g[14] = W(std::lround(d.b * 100)), g[15] = W(std::lround(d.a * 100)), g[16] = W(std::lround(d.d * 100)), g[17] = W(std::lround(d.c * 100));
        } else
            g[14] = g[15] = g[16] = g[17] = 1;
        g[18] = W(f.p == 2 ? HB[f.lev] : 0);
        g[19] = W(f.scale);
        std::copy(f.val.begin(), f.val.end(), g + 20);
        std::copy(ex.begin(), ex.end(), g + 20 + xy);
        if (where) where->push_back({at * 2, len * 2});
        pos = at + len;
    }
    if (d.swap)
        for (auto& x : w) x = W(uint16_t(x) << 8 | uint16_t(x) >> 8);
    return std::string(reinterpret_cast<const char*>(w.data()), w.size() * 2);
}
void store(const FData& d)
{
    const std::string b = encode(d);
    write_file(d.file, b);
    if (!d.far) return;
    const size_t head = 3 * 2048; // one directory block
    NoFaults nf;
    FILE* f = fopen(d.file.c_str(), "r+b");
    if (!f || ftruncate(fileno(f), head) || fseeko(f, off_t(head) + off_t(32767 - 3) * 2048, SEEK_SET) || fwrite(b.data() + head, 1, b.size() - head, f) != b.size() - head || fclose(f)) abort();
}
std::string config_of(const FData& d)
{
    std::ostringstream o;
    o << "<?xml version=\"1.0\"?>\n<cdm_felt_config>";
    if (d.restricted) o << "<processOptions><option name=\"globalParameterRestrictions\" value=\"prod=88\"/></processOptions>";
    o << "<global_attributes><attribute name=\"Conventions\" type=\"string\" value=\"CF-1.0\"/></global_attributes><axes>"
      << "<time id=\"time\" name=\"time\" type=\"double\"><attribute name=\"units\" type=\"string\" value=\"seconds since 1970-01-01 00:00:00 +00:00\"/></time>";
    for (int g = 1; g <= 6; g++)
        for (int y = 0; y < 2; y++) {
            const char* u = g == 2 ? (y ? "degree_north" : "degree_east") : g == 3 ? "degrees" : "m";
            const char* n = g == 2 ? (y ? "latitude" : "longitude") : g == 3 ? (y ? "rlat" : "rlon") : y ? "y" : "x";
            const char* s = g == 2 ? n : g == 3 ? (y ? "grid_latitude" : "grid_longitude") : y ? "projection_y_coordinate" : "projection_x_coordinate";
            o << "<spatial_axis projection_felt_id=\"" << g << "\" id=\"" << (y ? "y" : "x") << "\" name=\"" << n << "\" type=\"float\"><attribute name=\"units\" type=\"string\" value=\"" << u
              << "\"/><attribute name=\"standard_name\" type=\"string\" value=\"" << s << "\"/></spatial_axis>";
        }
    o << "<spatial_axis id=\"longitude\" name=\"longitude\"/><spatial_axis id=\"latitude\" name=\"latitude\"/>"
      << "<vertical_axis id=\"pressure\" name=\"pressure\" felt_id=\"1\" type=\"short\"><attribute name=\"units\" type=\"string\" value=\"hPa\"/></vertical_axis>"
      << "<vertical_axis id=\"sigma\" name=\"sigma\" felt_id=\"2\" type=\"short\"/><vertical_axis id=\"h\" name=\"h\" felt_id=\"3\" type=\"float\"/>"
      << "<vertical_axis id=\"surface\" name=\"surface\" felt_id=\"8\" type=\"short\"/>"
      << "<vertical_axis id=\"k\" name=\"k\" felt_id=\"10\" type=\"double\"><values mode=\"hybridSigmaCalc(ap,b)\"/>"
      << "<additional_axis_variable name=\"ap\" type=\"double\" axis=\"k\"><attribute name=\"units\" value=\"Pa\" type=\"string\"/><values mode=\"level2\" scale_factor=\"10\"/></additional_axis_variable>"
      << "<additional_axis_variable name=\"b\" type=\"double\" axis=\"k\"><values mode=\"hybridLevels\" scale_factor=\"0.0001\"/></additional_axis_variable>"
      << "</vertical_axis></axes><variables>";
    for (auto& q : FP)
        o << "<parameter id=\"" << q.id << "\" name=\"" << q.name << "\" type=\"" << datatype2string(q.type) << "\"><attribute name=\"_FillValue\" type=\"" << datatype2string(q.type) << "\" value=\""
          << q.fill << "\"/><attribute name=\"units\" type=\"string\" value=\"" << q.units << "\"/></parameter>";
    o << "</variables></cdm_felt_config>";
    return o.str();
}
// positions of the grid points
void axes_of(const FData& d, std::vector<double>& x, std::vector<double>& y)
{
    double x0 = d.a, y0 = d.b, dx = d.c, dy = d.d;
    if (d.gtype == 1 || d.gtype == 4) {
        const double cells = 79. * 150. / d.c;
        dx = dy = RADIUS * (1 + std::sin(DEG * d.e)) / cells;
        x0 = (1 - d.a) * dx, y0 = (1 - d.b) * dy;
    } else if (d.gtype == 5) {
        const double k = RADIUS * std::cos(DEG * d.e);
        x0 = k * DEG * d.a, y0 = k * std::log(std::tan(M_PI / 4 + DEG * d.b / 2));
        dx = d.c * 1000, dy = d.d * 1000;
    } else if (d.gtype == 6) {
        const double n = std::sin(DEG * d.f), F = std::cos(DEG * d.f) * std::pow(std::tan(M_PI / 4 + DEG * d.f / 2), n) / n;
        auto rho = [&](double lat) { return RADIUS * F / std::pow(std::tan(M_PI / 4 + DEG * lat / 2), n); };
        const double th = n * DEG * (d.a - d.e);
        x0 = rho(d.b) * std::sin(th), y0 = rho(d.f) - rho(d.b) * std::cos(th);
        dx = d.c * 1000, dy = d.d * 1000;
    }
    for (int i = 0; i < d.nx; i++) x.push_back(x0 + i * dx);
    for (int i = 0; i < d.ny; i++) y.push_back(y0 + i * dy);
}
MVar axis_var(const std::string& name, const std::vector<double>& v, bool near = false)
{
    MVar w;
    w.name = name;
    w.shape = {name};
    w.sizes = {v.size()};
    w.data = v;
    w.converted = near;
    if (near)
        for (double x : v) w.atol = std::max(w.atol, std::fabs(x) * 1e-6); // start, step and sum are floats
    return w;
}
// what a reader of the file must show
View view_of_felt(const FData& d)
{
    View v;
    v.unlim = "time";
    std::set<long long> times, refs;
    std::map<int, std::set<int>> levels; // by vertical coordinate
    std::map<int, std::set<int>> plev;   // by parameter
    std::map<int, std::set<long long>> ptimes;
    std::set<int> members;
    std::map<int, std::set<int>> pens;
    for (auto& f : d.fields) {
        if (d.restricted && f.producer != 88) continue;
        const FPar& q = FP[f.p];
        if (!q.constant) times.insert(valid_time(f));
        refs.insert(f.ref);
        levels[q.vcoord].insert(level_of(f.p, f.lev));
        plev[f.p].insert(level_of(f.p, f.lev));
        ptimes[f.p].insert(valid_time(f));
        if (q.ens) members.insert(ens_no(f.ens)), pens[f.p].insert(ens_no(f.ens));
    }
    auto idx = [](const auto& s, auto x) { return size_t(std::distance(s.begin(), s.find(x))); };
    std::vector<double> xs, ys;
    axes_of(d, xs, ys);
    const std::string xn = d.gtype == 2 ? "longitude" : d.gtype == 3 ? "rlon" : "x", yn = d.gtype == 2 ? "latitude" : d.gtype == 3 ? "rlat" : "y";
    const size_t xy = size_t(d.nx) * d.ny;
    for (auto& it : plev) {
        const int p = it.first;
        const FPar& q = FP[p];
        MVar w;
        w.name = q.name;
        w.type = q.type;
        w.shape = {xn, yn};
        w.sizes = {size_t(d.nx), size_t(d.ny)};
        const bool ens = pens[p].size() > 1, lev = !(p == 0 || p == 3 || (p == 5 && it.second.size() == 1));
        const std::set<int>& ls = lev ? levels[q.vcoord] : it.second;
        const size_t ne = ens ? members.size() : 1, nl = ls.size();
        if (ens) w.shape.push_back("ensemble_member"), w.sizes.push_back(ne);
        if (lev) w.shape.push_back(q.vcoord == 1 ? "pressure" : q.vcoord == 3 ? "h" : "k"), w.sizes.push_back(nl);
        if (!q.constant) w.shape.push_back("time"), w.sizes.push_back(times.size());
        w.has_fill = true;
        w.fill = q.fill;
        w.units = q.units;
        w.converted = q.type != CDM_SHORT;
        w.data.assign(w.count(), q.fill);
        bool first = true;
        int sc0 = 0;
        for (auto& f : d.fields) {
            if (f.p != p || (d.restricted && f.producer != 88)) continue;
            if (first && q.type == CDM_SHORT) w.scale = double(float(std::pow(10.0, f.scale)));
            const bool odd = q.type == CDM_SHORT && !first && f.scale != sc0; // a short variable has one scale only
            if (first) sc0 = f.scale;
            first = false;
            const size_t t = q.constant ? 0 : idx(times, valid_time(f)), e = ens ? idx(members, ens_no(f.ens)) : 0, l = idx(ls, level_of(p, f.lev));
            double* o = &w.data[((t * nl + l) * ne + e) * xy];
            for (size_t i = 0; i < xy; i++) o[i] = odd ? 4e4 : f.val[i] == NODATA ? q.fill : q.type == CDM_SHORT ? double(f.val[i]) : quantise(q.type, f.val[i] * std::pow(10.0, f.scale));
        }
        if (!q.constant)
            for (long long t : times)
                if (!ptimes[p].count(t)) w.lost.insert(idx(times, t));
        v.vars.push_back(w);
    }
    v.vars.push_back(axis_var(xn, xs, true));
    v.vars.push_back(axis_var(yn, ys, true));
    if (d.gtype >= 5) // the first point is given in degrees, as floats
        for (size_t i = v.vars.size() - 2; i < v.vars.size(); i++) v.vars[i].atol = std::max(v.vars[i].atol, 3.);
    if (d.gtype == 1 || d.gtype == 4) { // positions on the sphere
        for (int k = 0; k < 2; k++) {
            MVar w;
            w.name = k ? "latitude" : "longitude";
            w.shape = {xn, yn};
            w.sizes = {xs.size(), ys.size()};
            w.tol = w.atol = 1e-4; // axes are floats
            bool edge = false;
            const double k0 = (1 + std::sin(DEG * d.e)) / 2;
            for (double y : ys)
                for (double x : xs) {
                    double lon = d.d + std::atan2(x, -y) / DEG;
                    while (lon > 180) lon -= 360;
                    while (lon <= -180) lon += 360;
                    edge |= std::fabs(lon) > 179.8;
                    if (!k) w.tol = std::max(w.tol, 4 / std::hypot(x, y) / DEG);
                    w.data.push_back(k ? 90 - 2 * std::atan(std::hypot(x, y) / (2 * RADIUS * k0)) / DEG : lon);
                }
            if (k || !edge) v.vars.push_back(w);
        }
    }
    for (auto& l : levels) {
        std::vector<double> lv(l.second.begin(), l.second.end());
        if (l.first == 10) {
            std::vector<double> a, b, k;
            for (int x : l.second) a.push_back(10. * HA[x - 1]), b.push_back(0.0001 * HB[x - 1]), k.push_back(a.back() / 100000 + b.back());
            MVar w = axis_var("ap", a, true);
            w.shape = {"k"};
            v.vars.push_back(w);
            w = axis_var("b", b, true);
            w.shape = {"k"};
            v.vars.push_back(w);
            lv = k;
        }
        v.vars.push_back(axis_var(l.first == 1 ? "pressure" : l.first == 2 ? "sigma" : l.first == 3 ? "h" : l.first == 8 ? "surface" : "k", lv, l.first == 10));
    }
    if (!members.empty()) v.vars.push_back(axis_var("ensemble_member", {members.begin(), members.end()}));
    v.vars.push_back(axis_var("time", {times.begin(), times.end()}));
    if (refs.size() == 1) {
        MVar w;
        w.name = "forecast_reference_time";
        w.data = {double(REF0 + *refs.begin() * 86400LL * 5)};
        v.vars.push_back(w);
    }
    return v;
}
FData random_felt(Rng& r, const std::string& name)
{
    FData d;
    d.nx = r.range(2, 5), d.ny = r.range(2, 4);
    if (r.chance(1, 60)) d.nx = 183, d.ny = 180; // more words than a short can tell
    d.swap = r.chance(1, 6);
    d.gaps = r.chance(1, 2);
    d.restricted = r.chance(1, 5);
    d.updating = r.chance(1, 40);
    d.gtype = r.chance(1, 2) ? 2 : r.chance(1, 8) ? r.range(5, 6) : std::vector<int>{1, 3, 4}[r.below(3)];
    switch (d.gtype) {
    case 1: case 4:
        d.a = r.range(-20, 20) * 0.5 + 0.25, d.b = r.range(-20, 20) * 0.5 + 0.25, // no point at the pole
 d.c = r.range(1, 20) * 2.5, d.d = r.range(-18, 18) * 5, d.e = 60;
        d.extra = int(r.below(3));
        if (d.extra) d.e = r.range(5, 8) * 10;
        break;
    case 2: case 3:
        d.a = r.range(-30, 30), d.b = r.range(-40, 40), d.c = r.range(1, 8) * 0.25, d.d = r.range(1, 8) * 0.25 * (r.chance(1, 4) ? -1 : 1);
        if (d.nx > 100) d.c = 0.25, d.d = d.d < 0 ? -0.25 : 0.25, d.b = d.d < 0 ? 20 : -20;
        d.extra = d.gtype == 3 ? r.range(1, 2) : int(r.below(3));
        if (d.gtype == 3) d.e = r.range(-30, 30), d.f = r.range(1, 6) * 10;
        break;
    default:
        d.a = r.range(-20, 20), d.b = r.range(20, 60), d.c = r.range(1, 10) * 2.5, d.d = r.range(1, 10) * 2.5, d.e = r.range(1, 6) * 5, d.f = r.range(3, 7) * 10;
        d.extra = r.range(1, 2);
    }
    const size_t xy = size_t(d.nx) * d.ny;
    d.refs = r.chance(1, 4) ? 2 : 1;
    const int np = r.range(1, 4);
    std::set<int> ps;
    while (int(ps.size()) < np) ps.insert(int(r.below(NP)));
    if (ps.size() == 1 && ps.count(3)) ps.insert(1);
    std::vector<Field> fs;
    for (int p : ps) {
        const FPar& q = FP[p];
        const int base_scale = -int(r.below(3));
        std::set<int> ls, ts, es = {0};
        while (ls.empty())
            for (int l = 0; l < nlev(p); l++)
                if (r.chance(2, 3)) ls.insert(l);
        while (ts.empty())
            for (int t = 0; t < 4; t++)
                if (r.chance(1, 2)) ts.insert(t);
        if (q.constant) ts = {0};
        if (q.ens) {
            es.clear();
            while (es.empty())
                for (int e = 0; e < 3; e++)
                    if (r.chance(1, 2)) es.insert(e);
        }
        for (int t : ts)
            for (int l : ls)
                for (int e : es) {
                    if (fs.size() && r.chance(1, 8)) continue; // holes
                    for (int rf = 0; rf < (q.constant ? 1 : d.refs); rf++) {
                        Field f;
                        f.p = p, f.lev = l, f.t = t, f.ens = e, f.ref = rf;
                        f.dtype = q.constant ? 4 : 3;
                        f.scale = q.type == CDM_SHORT ? base_scale : base_scale - int(r.below(2)) + int(r.below(2));
                        f.val.resize(xy);
                        uint64_t h = r.next();
                        for (size_t i = 0; i < xy; i++) {
                            h = h * 6364136223846793005ULL + 1442695040888963407ULL;
                            f.val[i] = W(int(h >> 40) % 20000 - 10000);
                            if ((h >> 33) % 11 == 0) f.val[i] = NODATA;
                        }
                        fs.push_back(f);
                        if (d.restricted && r.chance(1, 3)) { // the same field by another producer
                            Field g = f;
                            g.producer = 99;
                            for (auto& x : g.val) x = 1234;
                            fs.push_back(g);
                        }
                    }
                }
    }
    if (r.chance(1, 8)) { // another scale for one field
        Field& f = fs[r.below(fs.size())];
        f.scale--;
        if (FP[f.p].type == CDM_SHORT) d.refused.insert(FP[f.p].name);
    }
    bool timed = false;
    for (auto& f : fs) timed |= !FP[f.p].constant && f.producer == 88;
    if (!timed) { // at least one field with time
        Field f;
        f.p = 0;
        f.val.assign(xy, 5);
        fs.push_back(f);
    }
    // mixed order; an analysis of some field follows its forecast and replaces it
    for (size_t i = fs.size(); i > 1; i--)
        if (r.chance(2, 3)) std::swap(fs[i - 1], fs[r.below(i)]);
    if (r.chance(1, 3)) {
        Field f = fs[r.below(fs.size())];
        if (f.dtype == 3) {
            f.dtype = 1;
            for (auto& x : f.val) x = W(x == NODATA ? 3 : x / 2);
            fs.push_back(f);
        }
    }
    d.fields = fs;
    d.file = scratch + name;
    d.xml = config_of(d);
    d.far = !d.gaps && d.nx < 100 && fs.size() < 60 && r.chance(1, 12);
    store(d);
    d.view = view_of_felt(d);
    std::ostringstream o;
    o << "felt " << fs.size() << " fields " << d.nx << "x" << d.ny << " grid " << d.gtype << "/" << d.extra << (d.swap ? " swapped" : "") << (d.gaps ? " gaps" : "") << (d.updating ? " updating" : "") << (d.far ? " far" : "");
    d.text = o.str();
    return d;
}
CDMReader_p open_felt(const FData& d) { return CDMFileReaderFactory::create("felt", d.file, XMLInputString(d.xml)); }

void felt_readers(Rng& rng, int mode) // 0 undisturbed, 1 faults, 2 truncated files
{
    const int nd = rng.range(1, 3);
    std::vector<FData> ds(nd);
    for (int i = 0; i < nd; i++) {
        ds[i] = random_felt(rng, std::string(1, char('a' + i)) + ".felt");
        if (mode == 2) {
            ds[i].updating = ds[i].far = false;
            std::string b = encode(ds[i]);
            ds[i].cut = long(rng.chance(1, 4) ? rng.below(6144) : rng.below(b.size()));
            write_file(ds[i].file, b.substr(0, ds[i].cut));
        }
    }
    const bool crowd = rng.chance(1, 3); // mostly one reader used by all
    const int nt = rng.range(crowd ? 2 : 1, 4);
    struct Job { int ds; bool own; std::vector<Get> gets; };
    std::vector<Job> jobs;
    for (int t = 0; t < nt; t++) {
        Job j;
        j.ds = crowd ? 0 : int(rng.below(nd));
        j.own = mode == 2 || ds[j.ds].updating || (!crowd && rng.chance(2, 3));
        j.gets = random_gets(rng, ds[j.ds].view, 1, 4, t && jobs.back().ds == j.ds ? &jobs.back().gets : nullptr);
        jobs.push_back(j);
    }
    std::vector<CDMReader_p> shared(nd);
    for (auto& j : jobs)
        if (!j.own && !shared[j.ds]) {
            NoFaults nf;
            Outcome oc = attempt([&] { shared[j.ds] = open_felt(ds[j.ds]); });
            if (oc.threw) violation("unexpected-error", "opening %s failed without any fault: %s", ds[j.ds].text.c_str(), oc.what.c_str());
        }
    auto work = [&](const Job& j, bool faults, bool check) {
        const FData& s = ds[j.ds];
        CDMReader_p rd = shared[j.ds];
        if (j.own) {
            Outcome oc = attempt([&] { rd = open_felt(s); });
            if (oc.threw) {
                probe("open_error");
                if (check && !faults && !s.updating) violation("unexpected-error", "opening %s failed without any fault: %s", s.text.c_str(), oc.what.c_str());
                return;
            }
            if (check && s.updating) violation("partial-file", "%s: a file marked as being written was opened", s.text.c_str());
        }
        if (check) {
            NoFaults nf;
            std::string e = check_cdm(rd, s.view);
            if (!e.empty()) violation("wrong-metadata", "%s: %s", s.text.c_str(), e.c_str());
        }
        for (auto& g : j.gets) {
            std::string e;
            Outcome oc = attempt([&] { e = check_get(rd, s.view, g); });
            if (oc.threw) {
                probe("read_error");
                if (check && !faults && !s.refused.count(g.var)) violation("unexpected-error", "reading %s (%s) failed without any fault: %s", get_text(g).c_str(), s.text.c_str(), oc.what.c_str());
                continue;
            }
            if (check && !e.empty()) violation("wrong-data", "%s: %s", s.text.c_str(), e.c_str());
            probe("reads");
        }
        // a time step behind the last one is refused
        if (check) {
            NoFaults nf;
            for (auto& v : s.view.vars)
                if (v.has_fill && v.axis("time") >= 0) {
                    const size_t n = s.view.unlim_len();
                    Outcome oc = attempt([&] { rd->getDataSlice(v.name, n + j.gets.size() % 2); });
                    if (!oc.threw) violation("wrong-data", "%s: %s delivers step %zu of %zu", s.text.c_str(), v.name.c_str(), n, n);
                    break;
                }
        }
    };
    std::vector<Fault> fs;
    if (mode == 1) {
        OpCount c = rehearse([&] { for (auto& j : jobs) work(j, true, false); });
        fs = draw_faults(rng, c, {{F_READ_EIO, 5}, {F_READ_EOF, 4}, {F_READ_SHORT, 3}, {F_READ_EINTR, 1}, {F_OPEN_FAIL, 2}, {F_SEEK_FAIL, 3}, {F_ALLOC, 2}});
        use_faults(fs);
        arm_faults(true);
    }
    std::string tx;
    for (auto& s : ds) tx += s.text + (s.cut >= 0 ? " cut to " + std::to_string(s.cut) : "") + "; ";
    sample("%d threads on %s faults: %s", nt, tx.c_str(), fault_text(fs).c_str());
    for (int t = 0; t < nt; t++) spawn([&, t] { work(jobs[t], mode > 0, true); });
    join_all();
    arm_faults(false);
    if (mode > 0) { // recovery: the shared readers work again, new ones can be opened
        Quiet q;
        if (mode == 2)
            for (auto& s : ds) store(s);
        for (auto& j : jobs) work(j, false, true);
    }
}
} // namespace
SIM_SCENARIO(S16, readers, 3) { felt_readers(rng, 0); }
SIM_SCENARIO(S16, reader_faults, 4) { felt_readers(rng, 1); }
SIM_SCENARIO(S16, truncated, 2) { felt_readers(rng, 2); }

hs::MixJob hs::mix_felt(Rng& rng, const std::string& id)
{
    auto s = std::make_shared<FData>(random_felt(rng, "f" + id + ".felt"));
    if (s->updating) {
        s->updating = false;
        store(*s);
    }
    std::vector<Get> gets;
    for (int k = rng.range(1, 3); k > 0; k--) {
        gets.push_back(random_get(rng, s->view));
        if (s->refused.count(gets.back().var)) gets.pop_back();
    }
    return {"read " + s->text, [s, gets] {
                CDMReader_p rd = open_felt(*s);
                std::string e = check_cdm(rd, s->view);
                if (!e.empty()) violation("wrong-metadata", "%s: %s", s->text.c_str(), e.c_str());
                for (auto& g : gets) {
                    e = check_get(rd, s->view, g);
                    if (!e.empty()) violation("wrong-data", "%s: %s", s->text.c_str(), e.c_str());
                }
            }};
}
