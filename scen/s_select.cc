// Extraction by value (times, levels, latitudes and longitudes) and by positions, read by several threads: the data of the selected positions, exactly.
#include "geo.h"
#include "view.h"
#include "fimex/CDMExtractor.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/FimexTime.h"
#include "fimex/TimeUnit.h"
#include <algorithm>
#include <cmath>
#include <sstream>
using namespace hs;
using namespace sim;

namespace {
struct Sel
{
    int kind = 0; // 0 times, 1 levels, 2 bounding box, 3 range, 4 start and end, 5 positions, 6 only some variables
    double a = 0, b = 0, s = 0, n = 0;
    bool lower = true, upper = true; // times: open ends
    std::string name;
    size_t start = 0, len = 0;
    long long end = 0;
    std::set<size_t> pos;
    std::set<std::string> names;
};
// limits which are not close to a value without being equal to it; false: there is no such limit
bool limit(Rng& r, const std::vector<const MVar*>& axes, double unit, double& x)
{
    for (int k = 0; k < 20; k++) {
        const MVar& m = *axes[r.below(axes.size())];
        const size_t i = r.below(m.data.size());
        const double st = m.data.size() > 1 ? std::fabs(m.data[1] - m.data[0]) : 100;
        x = m.data[i] + (r.chance(1, 3) ? 0 : r.chance(1, 2) ? 0.5 * st : -0.5 * st);
        bool ok = true;
        for (auto* a : axes) {
            const double d = a->data.size() > 1 ? std::fabs(a->data[1] - a->data[0]) : 100;
            for (double y : a->data)
                if (y != x && std::fabs(y - x) < 0.1 * d) ok = false;
        }
        x *= unit;
        if (ok) return true;
    }
    return false;
}
std::vector<size_t> between(const MVar& m, double a, double b)
{
    std::vector<size_t> p;
    double eps = 1e-9;
    for (double x : m.data) eps = std::max(eps, 1e-9 * std::fabs(x));
    for (size_t i = 0; i < m.data.size(); i++)
        if (m.data[i] >= a - eps && m.data[i] <= b + eps) p.push_back(i);
    return p;
}
void lonlat(const Geo& g, double x, double y, double& lon, double& lat)
{
    if (g.grid == 0) { lon = x; lat = y; return; }
    const double R = 6371000, deg = 180 / M_PI, k0 = (1 + std::sin(60 / deg)) / 2;
    y -= 3000000;
    lat = 90 - 2 * std::atan(std::hypot(x, y) / (2 * R * k0)) * deg;
    lon = 10 + std::atan2(x, -y) * deg;
}
CDMReader_p apply(const CDMReader_p& src, const Sel& s, const std::shared_ptr<CDMExtractor>& e)
{
    switch (s.kind) {
    case 0: {
        const TimeUnit tu("seconds since 2020-01-01 00:00:00 +0000");
        e->reduceTime(s.lower ? tu.unitTime2fimexTime(s.a) : FimexTime(FimexTime::min_date_time), s.upper ? tu.unitTime2fimexTime(s.b) : FimexTime(FimexTime::max_date_time));
        break;
    }
    case 1: e->reduceVerticalAxis(s.name, s.a, s.b); break;
    case 2: e->reduceLatLonBoundingBox(s.s, s.n, s.a, s.b); break;
    case 3: e->reduceDimension(s.name, s.start, s.len); break;
    case 4: e->reduceDimensionStartEnd(s.name, s.start, s.end); break;
    case 5: e->reduceDimension(s.name, s.pos); break;
    case 6: e->selectVariables(s.names, s.start != 0); break;
    }
    return e;
}
} // namespace

SIM_SCENARIO(S02, selected, 2)
{
    GeoOpt go;
    static const int verts[] = {0, 1, 1, 2, 5, 5, 6, 7};
    go.vert = verts[rng.below(8)];
    const Geo g = random_geo(rng, go);
    View v = view_of(g.spec);
    const bool file = rng.chance(2, 3), nc4 = rng.chance(1, 4), share = rng.chance(2, 3);
    const std::string path = scratch + "sel.nc";
    if (file) write_nc(path, g.spec, nc4);
    std::vector<Sel> todo;
    std::vector<bool> fresh; // a new extractor, instead of another call of the same one
    std::set<std::string> cut; // by the current extractor
    std::ostringstream t;
    bool gridded = g.grid != 2; // whether a projection is left
    const int n = rng.range(1, 3);
    for (int i = 0; i < n; i++) {
        Sel s;
        s.kind = rng.range(0, 6);
        const bool f = todo.empty() || rng.chance(1, 2);
        const std::set<std::string> before = cut;
        if (f) cut.clear();
        bool used = false;
        struct Restore { const bool& used; std::set<std::string>& cut; const std::set<std::string>& before; ~Restore() { if (!used) cut = before; } } restore{used, cut, before};
        std::vector<std::pair<std::string, std::vector<size_t>>> takes;
        if (s.kind == 0) {
            const MVar* m = v.var("time");
            if (!m || cut.count("time")) continue;
            if (!limit(rng, {m}, 1, s.a) || !limit(rng, {m}, 1, s.b)) continue;
            if (s.a > s.b) std::swap(s.a, s.b);
            s.lower = rng.chance(3, 4);
            s.upper = rng.chance(3, 4);
            // times are given in whole seconds and milliseconds
            takes.push_back({"time", between(*m, s.lower ? s.a : -1e15, s.upper ? s.b : 1e15)});
            t << " times " << (s.lower ? std::to_string(s.a) : "") << ".." << (s.upper ? std::to_string(s.b) : "");
        } else if (s.kind == 1) {
            std::vector<const MVar*> axes;
            const bool pressure = g.vert == 1 || (g.plev && rng.chance(1, 2));
            if (pressure) {
                if (g.vert == 1 && v.var("lev")) axes.push_back(v.var("lev"));
                if (g.plev && v.var("plev")) axes.push_back(v.var("plev"));
            } else if (g.vert >= 5 && v.var("lev")) axes.push_back(v.var("lev"));
            if (axes.empty()) continue;
            bool again = false;
            for (auto* a : axes) again |= cut.count(a->name) > 0;
            if (again) continue;
            const bool other = rng.chance(1, 2); // another unit than the axis has
            const double u = other ? (pressure ? 100 : 0.001) : 1;
            s.name = pressure ? (other ? "Pa" : "hPa") : (other ? "km" : "m");
            if (!limit(rng, axes, u, s.a) || !limit(rng, axes, u, s.b)) continue;
            if (s.a > s.b) std::swap(s.a, s.b);
            for (auto* a : axes) takes.push_back({a->name, between(*a, s.a / u, s.b / u)});
            t << " levels " << s.a << ".." << s.b << " " << s.name;
        } else if (s.kind == 2) {
            const MVar *x = v.var("x"), *y = v.var("y");
            if (!gridded || !x || !y || cut.count("x") || cut.count("y")) continue;
            std::vector<double> lons, lats;
            for (double b : y->data)
                for (double a : x->data) {
                    double lo, la;
                    lonlat(g, a, b, lo, la);
                    lons.push_back(lo);
                    lats.push_back(la);
                }
            auto pick = [&](const std::vector<double>& of, double& l) {
                for (int k = 0; k < 20; k++) {
                    l = of[rng.below(of.size())] + (rng.chance(1, 2) ? 0.03 : -0.03);
                    bool ok = true;
                    for (double z : of) ok &= std::fabs(z - l) > 1e-4;
                    if (ok) return true;
                }
                return false;
            };
            if (!pick(lons, s.a) || !pick(lons, s.b) || !pick(lats, s.s) || !pick(lats, s.n)) continue;
            if (s.s > s.n) std::swap(s.s, s.n);
            if (s.a > s.b && !rng.chance(1, 4)) std::swap(s.a, s.b); // otherwise: the long way around
            std::set<size_t> px, py;
            for (size_t j = 0, k = 0; j < y->data.size(); j++)
                for (size_t i2 = 0; i2 < x->data.size(); i2++, k++) {
                    if (lats[k] < s.s || lats[k] > s.n) continue;
                    if (s.a <= s.b ? (lons[k] < s.a || lons[k] > s.b) : (lons[k] > s.b && lons[k] < s.a)) continue;
                    px.insert(i2);
                    py.insert(j);
                }
            takes.push_back({"x", std::vector<size_t>(px.begin(), px.end())});
            takes.push_back({"y", std::vector<size_t>(py.begin(), py.end())});
            t << " box " << s.s << ".." << s.n << "," << s.a << ".." << s.b;
        } else if (s.kind <= 5) {
            const auto ds = v.dims();
            s.name = ds[rng.below(ds.size())];
            const size_t len = v.dim_len(s.name);
            if (cut.count(s.name) || !len) continue;
            std::vector<size_t> p;
            if (s.kind == 5) {
                for (size_t k = rng.range(1, 4); k > 0; k--) s.pos.insert(rng.below(len));
                p.assign(s.pos.begin(), s.pos.end());
            } else {
                s.start = rng.below(len);
                s.len = 1 + rng.below(len - s.start);
                const size_t last = s.start + s.len - 1;
                s.end = last > 0 && rng.chance(1, 2) ? (long long)last : (long long)(last + 1) - (long long)len;
                for (size_t k = 0; k < s.len; k++) p.push_back(s.start + k);
            }
            takes.push_back({s.name, p});
            t << " " << (s.kind == 3 ? "range" : s.kind == 4 ? "start-end" : "positions") << " of " << s.name << " " << s.start << "+" << s.len;
        } else {
            for (auto& m : v.vars)
                if (rng.chance(1, 2)) s.names.insert(m.name);
            if (s.names.empty()) continue;
            s.start = 0; // without the coordinates which belong to them
            View w = v;
            w.vars.clear();
            for (auto& m : v.vars)
                if (s.names.count(m.name)) w.vars.push_back(m);
            bool fields = false, time = w.var("time") && w.unlim_len() == v.unlim_len();
            for (auto& m : w.vars) fields |= m.shape.size() > 1;
            if (!fields || !time) continue;
            v = w;
            gridded = false; // axes or projection may be gone
            t << " only " << s.names.size() << " variables";
        }
        bool empty = false;
        for (auto& x : takes) empty |= x.second.empty();
        if (empty) continue;
        used = true;
        for (auto& x : takes) {
            cut.insert(x.first);
            take_dim(v, x.first, x.second);
        }
        todo.push_back(s);
        fresh.push_back(f || todo.size() == 1);
        if (s.kind == 6) break; // the coordinates of what is left are another question
    }
    if (todo.empty()) { probe("rejected"); return; }
    auto open = [&] {
        CDMReader_p rd;
        if (file) rd = CDMFileReaderFactory::create("netcdf", path);
        else rd = std::make_shared<ModelReader>(g.spec);
        std::shared_ptr<CDMExtractor> e;
        for (size_t i = 0; i < todo.size(); i++) {
            if (fresh[i]) rd = e = std::make_shared<CDMExtractor>(rd);
            apply(rd, todo[i], e);
        }
        return rd;
    };
    const int nt = rng.range(2, 3);
    std::vector<Get> gs[3];
    for (int k = 0; k < nt; k++) gs[k] = random_gets(rng, v, 2, 5, k ? &gs[k - 1] : nullptr);
    sample("%s reader, %d threads, %s, grid %d, levels %d:%s", share ? "shared" : "own", nt, file ? nc4 ? "nc4" : "nc3" : "model", g.grid, g.vert, t.str().c_str());
    CDMReader_p common;
    if (share) {
        common = open();
        std::string e = check_cdm(common, v);
        if (!e.empty()) violation("wrong-data", "%s", e.c_str());
    }
    for (int k = 0; k < nt; k++)
        spawn([&, k] {
            Outcome oc = attempt([&] {
                CDMReader_p rd = share ? common : open();
                for (auto& x : gs[k]) {
                    std::string e = check_get(rd, v, x);
                    if (!e.empty()) violation("wrong-data", "thread %d: %s", k, e.c_str());
                }
            });
            if (oc.threw) violation("unexpected-error", "thread %d: reading failed without any fault: %s", k, oc.what.c_str());
        });
    join_all();
}

// aggregations with coordinate values of their own, or with the names of the members where there are none
SIM_SCENARIO(S02, labelled, 1)
{
    const bool jn = rng.chance(2, 3); // a new dimension; otherwise new values for the existing one
    SpecOpt so;
    so.nc3 = true;
    so.max_vars = 3;
    so.min_unlim = 1;
    so.allow_no_unlim = jn;
    Spec s = random_spec(rng, so);
    if (jn)
        for (auto& d : s.dims) d.unlim = false;
    const Dim* u = s.unlim();
    if (!jn && (!u || !s.var(u->name))) { probe("rejected"); return; }
    const int n = rng.range(2, 4);
    const int how = jn ? rng.range(0, 5) : 0; // 0 numbers, 1 names, 2 none given, 3 scanned by suffix, 4 scanned by regular expression, 5 some given, some scanned
    const int nt = rng.range(2, 3);
    std::vector<View> vs;
    std::vector<std::string> labels;
    std::string xml = "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><aggregation type=\"" + std::string(jn ? "joinNew\" dimName=\"run\">" : "joinExisting\">");
    std::set<std::string> joined;
    if (jn)
        for (auto& v : s.vars)
            if (v.fixed.empty() && (joined.empty() || rng.chance(2, 3))) {
                joined.insert(v.name);
                xml += "<variableAgg name=\"" + v.name + "\"/>";
            }
    if (jn && joined.empty()) { probe("rejected"); return; }
    double coord = rng.range(-50, 50);
    const std::string ulabel = u ? u->name : "";
    for (int k = 0; k < n; k++) {
        Spec m = s;
        for (auto& d : m.dims) if (d.unlim) d.len = rng.range(1, 4);
        for (auto& v : m.vars) {
            if (!m.has_unlim(v) && !joined.count(v.name)) continue;
            v.salt += k + 1;
            if (!v.fixed.empty()) {
                v.fixed.resize(m.count(v));
                for (size_t i = 0; i < v.fixed.size(); i++) v.fixed[i] = 100 * k + i;
            }
        }
        const std::string path = scratch + (how == 5 && k < n / 2 ? "g" : "m") + std::to_string(k) + ".nc";
        write_nc(path, m, false);
        vs.push_back(view_of(m));
        std::string given;
        for (size_t i = 0; i < (jn ? 1 : m.unlim()->len); i++) {
            coord += rng.range(1, 9);
            labels.push_back(how == 0 ? std::to_string(int(coord)) : how == 1 ? "run_" + std::to_string(int(coord)) : "location_" + std::to_string(k));
            given += (i ? " " : "") + labels.back();
        }
        if (how <= 2 || (how == 5 && k < n / 2)) xml += "<netcdf location=\"" + path + "\"" + (how < 2 ? " coordValue=\"" + given + "\"" : "") + "/>";
    }
    if (how >= 3) xml += "<scan location=\"" + scratch + "\" " + (how == 3 ? "suffix=\".nc\"" : "regExp=\"m[0-9][.]nc\"") + "/>";
    xml += "</aggregation></netcdf>";
    View v = vs[0];
    for (auto& m : v.vars) {
        std::vector<const MVar*> parts;
        for (auto& w : vs) parts.push_back(w.var(m.name));
        if (joined.count(m.name)) {
            m.shape.push_back("run");
            m.sizes.push_back(n);
            m.data.clear();
            for (auto* p : parts) m.data.insert(m.data.end(), p->data.begin(), p->data.end());
        } else if (!jn && m.axis(ulabel) >= 0)
            m = concat(parts, ulabel);
    }
    if (jn) v.unlim = "run";
    const std::string axis = jn ? "run" : ulabel;
    if (!jn)
        for (size_t i = 0; i < labels.size(); i++) v.var(axis)->data[i] = quantise(v.var(axis)->type, std::stod(labels[i]));
    sample("%s of %d files, %s, %d threads: %s", jn ? "joinNew" : "joinExisting", n, how == 0 ? "numbers" : how == 1 ? "names" : how == 2 ? "no names" : "scanned", nt, s.text().c_str());
    const size_t pick = rng.below(labels.size());
    auto check_labels = [&](const CDMReader_p& rd) -> std::string {
        const size_t i = pick;
        DataPtr all = rd->getData(axis), one = rd->getDataSlice(axis, i);
        if (!all || all->size() != labels.size() || !one || one->size() != 1) return "wrong number of values of " + axis;
        for (size_t k = 0; k < labels.size(); k++) {
            if (how == 0 ? all->asDouble()[k] != std::stod(labels[k]) : all->asStrings()[k] != labels[k])
                return "value " + std::to_string(k) + " of " + axis + ": " + (how ? all->asStrings()[k] : std::to_string(all->asDouble()[k])) + " instead of " + labels[k];
        }
        if (how == 0 ? one->asDouble()[0] != std::stod(labels[i]) : one->asStrings()[0] != labels[i]) return "position " + std::to_string(i) + " of " + axis + " is wrong";
        return "";
    };
    auto open = [&] { return std::make_shared<NcmlCDMReader>(XMLInputString(xml)); };
    const bool share = rng.chance(2, 3);
    std::vector<Get> gs[3];
    for (int k = 0; k < nt; k++) gs[k] = random_gets(rng, v, 2, 5, k ? &gs[k - 1] : nullptr);
    CDMReader_p common;
    if (share) common = open();
    for (int k = 0; k < nt; k++)
        spawn([&, k] {
            Outcome oc = attempt([&] {
                CDMReader_p rd = share ? common : open();
                std::string e = k ? "" : check_labels(rd);
                for (auto& x : gs[k])
                    if (e.empty()) e = check_get(rd, v, x);
                if (e.empty() && k) e = check_labels(rd);
                if (!e.empty()) violation("wrong-data", "thread %d: %s", k, e.c_str());
            });
            if (oc.threw) violation("unexpected-error", "thread %d: reading failed without any fault: %s", k, oc.what.c_str());
        });
    join_all();
}
