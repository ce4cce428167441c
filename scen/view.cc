#include "view.h"
#include <sys/stat.h>

#include "fimex/AggregationReader.h"
#include "fimex/CDMExtractor.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/FimexTime.h"

#include <netcdf.h>

#include <cmath>
#include <limits>
#include <sstream>

namespace hs {
size_t View::dim_len(const std::string& d) const
{
    for (auto& v : vars) {
        int a = v.axis(d);
        if (a >= 0) return v.sizes[a];
    }
    return 0;
}
bool View::has_dim(const std::string& d) const
{
    for (auto& v : vars) if (v.axis(d) >= 0) return true;
    return false;
}
size_t View::unlim_len() const { return unlim.empty() ? 0 : dim_len(unlim); }
std::vector<std::string> View::dims() const
{
    std::vector<std::string> o;
    for (auto& v : vars)
        for (auto& d : v.shape)
            if (std::find(o.begin(), o.end(), d) == o.end()) o.push_back(d);
    return o;
}
View view_of(const Spec& s)
{
    View w;
    if (s.unlim()) w.unlim = s.unlim()->name;
    for (auto& v : s.vars) {
        MVar m;
        m.name = v.name;
        m.type = v.type;
        m.shape = v.shape;
        m.sizes = s.sizes(v);
        for (size_t i = 0; i < m.count(); i++) m.data.push_back(value(s, v, i));
        m.has_fill = v.has_fill;
        m.fill = v.fill;
        for (auto& a : v.atts) {
            if (a.getName() == "scale_factor") m.scale = to_doubles(a.getData())[0];
            if (a.getName() == "add_offset") m.offset = to_doubles(a.getData())[0];
            if (a.getName() == "units") m.units = a.getStringValue();
        }
        for (auto& a : v.atts) m.atts.push_back(to_att(a));
        if (v.has_fill) m.atts.push_back({"_FillValue", v.type, {v.fill}, ""});
        m.known_atts = true;
        w.vars.push_back(m);
    }
    for (auto& a : s.atts) w.atts.push_back(to_att(a));
    w.known_atts = true;
    return w;
}
std::vector<double> sub(const MVar& v, const std::vector<size_t>& start, const std::vector<size_t>& size)
{
    size_t n = 1;
    for (auto k : size) n *= k;
    std::vector<double> out;
    std::vector<size_t> idx(size.size(), 0);
    for (size_t c = 0; c < n; c++) {
        size_t lin = 0, mul = 1;
        for (size_t d = 0; d < v.sizes.size(); d++) {
            lin += (start[d] + idx[d]) * mul;
            mul *= v.sizes[d];
        }
        out.push_back(v.data.at(lin));
        for (size_t d = 0; d < idx.size(); d++) {
            if (++idx[d] < size[d]) break;
            idx[d] = 0;
        }
    }
    return out;
}
MVar take(const MVar& v, const std::string& dim, const std::vector<size_t>& pos)
{
    int a = v.axis(dim);
    if (a < 0) return v;
    MVar o = v;
    o.sizes[a] = pos.size();
    o.data.clear();
    size_t inner = 1, outer = 1;
    for (int i = 0; i < a; i++) inner *= v.sizes[i];
    for (size_t i = a + 1; i < v.sizes.size(); i++) outer *= v.sizes[i];
    for (size_t k = 0; k < outer; k++)
        for (auto p : pos)
            for (size_t i = 0; i < inner; i++) o.data.push_back(v.data.at((k * v.sizes[a] + p) * inner + i));
    return o;
}
MVar concat(const std::vector<const MVar*>& parts, const std::string& dim)
{
    MVar o = *parts[0];
    int a = o.axis(dim);
    for (size_t k = 1; k < parts.size(); k++) {
        o.data.insert(o.data.end(), parts[k]->data.begin(), parts[k]->data.end());
        o.sizes[a] += parts[k]->sizes[a];
    }
    return o;
}
void take_dim(View& v, const std::string& dim, const std::vector<size_t>& pos)
{
    for (auto& m : v.vars) m = take(m, dim, pos);
}

// ---------- requests ----------
Get random_get(Rng& r, const View& w, bool scaled)
{
    Get g;
    size_t which = r.below(w.vars.size());
    if (r.chance(1, 2)) // rather data than coordinates
        for (int t = 0; t < 4 && w.vars[which].sizes.size() < 2; t++) which = r.below(w.vars.size());
    const MVar& v = w.vars[which];
    g.var = v.name;
    int k = r.range(0, 2);
    if (k == 1) g.pos = !w.unlim.empty() && v.axis(w.unlim) >= 0 ? r.below(w.unlim_len()) : 0;
    if (k == 2)
        for (auto n : v.sizes) {
            size_t st = r.below(n), sz = 1 + r.below(n - st);
            if (r.chance(1, 3)) st = 0, sz = n;
            g.start.push_back(st);
            g.size.push_back(sz);
        }
    g.kind = k;
    if (scaled && v.type != CDM_STRING && r.chance(1, 3)) {
        g.kind = k + 3;
        const bool temp = v.units == "K" || v.units == "degC";
        if (r.chance(1, 2) && (temp || v.units == "m" || v.units == "km")) {
            g.kind = k + 6;
            g.unit = temp ? (r.chance(1, 4) ? v.units : v.units == "K" ? "degC" : "K") : r.chance(1, 2) ? "km" : "m";
        }
    }
    return g;
}
std::vector<Get> random_gets(Rng& r, const View& v, int lo, int hi, const std::vector<Get>* before)
{
    if (before && !before->empty() && r.chance(1, 4)) {
        std::vector<Get> g = *before;
        if (r.chance(1, 4)) std::rotate(g.begin(), g.begin() + r.below(g.size()), g.end());
        return g;
    }
    std::vector<Get> g;
    const bool hot = r.chance(1, 3);
    const std::string name = before && !before->empty() && r.chance(1, 2) ? (*before)[0].var : "";
    for (int k = r.range(lo, hi); k > 0; k--) {
        Get x = random_get(r, v);
        const std::string want = !hot ? "" : !name.empty() ? name : g.empty() ? "" : g[0].var;
        for (int t = 0; t < 12 && !want.empty() && x.var != want; t++) x = random_get(r, v);
        if (!v.unlim.empty() && v.var(x.var)->axis(v.unlim) >= 0 && r.chance(1, 16)) {
            x.kind = x.kind / 3 * 3 + 1;
            x.pos = v.unlim_len() + r.below(3);
            x.beyond = true;
        }
        g.push_back(x);
    }
    return g;
}
DataPtr do_get(const CDMReader_p& rd, const Get& g)
{
    const int k = g.kind % 3, s = g.kind / 3;
    if (k == 0) return s == 0 ? rd->getData(g.var) : s == 1 ? rd->getScaledData(g.var) : rd->getScaledDataInUnit(g.var, g.unit);
    if (k == 1) return s == 0 ? rd->getDataSlice(g.var, g.pos) : s == 1 ? rd->getScaledDataSlice(g.var, g.pos) : rd->getScaledDataSliceInUnit(g.var, g.unit, g.pos);
    SliceBuilder sb(rd->getCDM(), g.var);
    auto shape = rd->getCDM().getVariable(g.var).getShape();
    for (size_t i = 0; i < shape.size() && i < g.start.size(); i++) sb.setStartAndSize(shape[i], g.start[i], g.size[i]);
    return s == 0 ? rd->getDataSlice(g.var, sb) : s == 1 ? rd->getScaledDataSlice(g.var, sb) : rd->getScaledDataSliceInUnit(g.var, g.unit, sb);
}
std::vector<double> expect_get(const View& w, const Get& g, double* tol)
{
    const MVar& v = *w.var(g.var);
    const int k = g.kind % 3, s = g.kind / 3;
    std::vector<double> d;
    *tol = 0;
    if (k == 0) d = v.data;
    else if (k == 1) {
        std::vector<size_t> st(v.sizes.size(), 0), sz = v.sizes;
        int a = w.unlim.empty() ? -1 : v.axis(w.unlim);
        if (a >= 0) st[a] = g.pos, sz[a] = 1;
        d = sub(v, st, sz);
    } else d = sub(v, g.start, g.size);
    if (s == 0) return d;
    *tol = 1e-9;
    for (auto& x : d) {
        if ((v.has_fill && x == v.fill) || std::isnan(x)) {
            x = std::numeric_limits<double>::quiet_NaN();
            continue;
        }
        x = x * v.scale + v.offset;
        if (s == 2 && g.unit != v.units) x = g.unit == "degC" ? x - 273.15 : g.unit == "K" ? x + 273.15 : g.unit == "km" ? x / 1000 : x * 1000;
    }
    return d;
}
std::string get_text(const Get& g)
{
    std::ostringstream o;
    o << (g.kind / 3 == 0 ? "" : g.kind / 3 == 1 ? "scaled " : "in unit ") << g.var;
    if (g.kind % 3 == 0) o << "[all]";
    else if (g.kind % 3 == 1) o << "[unlim=" << g.pos << "]";
    else
        for (size_t i = 0; i < g.start.size(); i++) o << "[" << g.start[i] << "+" << g.size[i] << "]";
    return o.str();
}
std::string check_get(const CDMReader_p& rd, const View& v, const Get& g)
{
    DataPtr d;
    if (g.beyond) {
        try {
            d = do_get(rd, g);
        } catch (std::bad_alloc&) {
            throw;
        } catch (std::exception&) {
            sim::probe("beyond-rejected");
            return "";
        }
        if (!d || d->size() == 0) return "";
        return get_text(g) + " is beyond the end, but " + std::to_string(d->size()) + " values are delivered";
    }
    d = do_get(rd, g);
    sim::NoFaults nf;
    double tol;
    auto want = expect_get(v, g, &tol);
    auto got = to_doubles(d);
    note(got);
    const MVar& mv = *v.var(g.var);
    if (got.empty() && g.kind % 3 == 1 && mv.lost.count(g.pos)) return "";
    if (mv.converted) tol = std::max(tol, 1e-6);
    tol = std::max(tol, mv.tol);
    if (tol > 0) { // offsets cancel: absolute tolerance
        if (got.size() == want.size())
            for (size_t i = 0; i < got.size(); i++)
                if (std::fabs(got[i] - want[i]) < mv.atol) got[i] = want[i];
    }
    std::string e = compare_values(get_text(g), got, want, tol);
    // delivered data belong to the caller: changing them must not show up anywhere else
    if (d && d->getDataType() != CDM_STRING)
        for (size_t i = 0; i < d->size(); i++) d->setValue(i, 77.0);
    return e;
}
std::string check_cdm(const CDMReader_p& rd, const View& v)
{
    std::ostringstream o;
    for (auto& m : v.vars) {
        if (!rd->getCDM().hasVariable(m.name)) return "variable " + m.name + " is missing";
        auto shape = rd->getCDM().getVariable(m.name).getShape();
        if (shape != m.shape) {
            std::string e = "variable " + m.name + " has shape";
            for (auto& d : shape) e += " " + d;
            e += " instead of";
            for (auto& d : m.shape) e += " " + d;
            return e;
        }
        if (m.known_atts) {
            if (rd->getCDM().getVariable(m.name).getDataType() != m.type) return "variable " + m.name + " has type " + datatype2string(rd->getCDM().getVariable(m.name).getDataType()) + " instead of " + datatype2string(m.type);
            std::vector<Att> got;
            for (auto& a : rd->getCDM().getAttributes(m.name)) got.push_back(to_att(a));
            std::string e = compare_atts("variable " + m.name, got, m.atts);
            if (!e.empty()) return e;
        }
        for (size_t i = 0; i < shape.size(); i++) {
            size_t l = rd->getCDM().getDimension(shape[i]).getLength();
            if (l != m.sizes[i]) {
                o << "dimension " << shape[i] << " of " << m.name << " has length " << l << " instead of " << m.sizes[i];
                return o.str();
            }
        }
    }
    if (v.known_atts) {
        std::vector<Att> got;
        for (auto& a : rd->getCDM().getAttributes(CDM::globalAttributeNS())) got.push_back(to_att(a));
        return compare_atts("the dataset", got, v.atts);
    }
    return "";
}
std::string check_nc(const std::string& path, const View& s, const std::string& ctx)
{
    NcOpen f(path);
    if (f.err) return ctx + "cannot open output: " + nc_strerror(f.err);
    for (auto& v : s.vars) {
        NcVarData d;
        int e = f.get(v.name, d);
        if (e) return ctx + "cannot read variable " + v.name + ": " + nc_strerror(e);
        std::vector<size_t> rev(v.sizes.rbegin(), v.sizes.rend());
        std::ostringstream o;
        if (rev != d.dims) {
            o << ctx << "variable " << v.name << " has wrong shape:";
            for (auto k : d.dims) o << " " << k;
            o << " instead of";
            for (auto k : rev) o << " " << k;
            return o.str();
        }
        if (v.known_atts) {
            std::string e = check_nc_meta(f.id, v.name, v.type, v.shape, v.atts);
            if (!e.empty()) return ctx + e;
        }
        if (v.rounded && d.v.size() == v.data.size())
            for (size_t i = 0; i < d.v.size(); i++)
                if (d.v[i] == std::floor(d.v[i]) && std::fabs(d.v[i] - v.data[i]) <= 0.5 + 1e-6 && !(v.has_fill && d.v[i] == v.fill)) d.v[i] = v.data[i];
        if (v.converted && d.v.size() == v.data.size())
            for (size_t i = 0; i < d.v.size(); i++)
                if (std::fabs(d.v[i] - v.data[i]) <= 1e-9 * (std::fabs(v.data[i]) + 300)) d.v[i] = v.data[i];
        std::string e2 = compare_values(ctx + "variable " + v.name, d.v, v.data);
        if (!e2.empty()) return e2;
        note(d.v);
    }
    return s.known_atts ? check_nc_meta(f.id, "", CDM_NAT, {}, s.atts) : "";
}

// ---------- chains ----------
static std::string ncml_head() { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">"; }

ChainPlan plan_chain(Rng& r, const SrcOpt& o)
{
    sim::Quiet quiet;
    sim::NoFaults nf;
    ChainPlan p;
    std::ostringstream t;
    SpecOpt so = o.spec;
    int combine = o.multi && r.chance(1, 2) ? r.range(1, 4) : 0;
    if (combine == 1 || combine == 3 || combine == 4) so.allow_no_unlim = combine == 3;
    Spec s = random_spec(r, so);
    if (combine == 3 && s.unlim()) combine = 1;
    if (combine == 1 && !s.unlim()) combine = 0;
    if (combine == 4 && !(s.unlim() && o.file)) combine = s.unlim() ? 1 : 0;
    p.combine = combine;
    const int n = combine ? r.range(2, 3) : 1;
    const int kind0 = o.file ? (so.nc3 || r.chance(1, 2) ? 1 : 2) : 0;
    std::vector<std::string> joinvars;
    for (int k = 0; k < n; k++) {
        ChainPlan::Src src;
        src.spec = s;
        src.kind = kind0;
        if (k) {
            for (auto& v : src.spec.vars) v.salt += k * 7919;
            if (combine == 1 || combine == 4) {
                for (auto& d : src.spec.dims) if (d.unlim) d.len = size_t(r.range(1, 4));
                for (auto& v : src.spec.vars)
                    if (v.shape.size() == 1 && v.shape[0] == s.unlim()->name && !v.fixed.empty()) {
                        v.fixed.clear();
                        for (size_t i = 0; i < src.spec.unlim()->len; i++) v.fixed.push_back(100000.0 * k + 3600.0 * i);
                    }
            } else if (combine == 2) {
                for (auto& v : src.spec.vars) // some variables are only in the later members
                    if (v.name[0] == 'v' && isdigit(v.name[1]) && r.chance(1, 2)) v.name = v.name + "_m" + std::to_string(k);
            }
        }
        p.srcs.push_back(src);
    }
    if ((combine == 1 || combine == 3 || combine == 4) && r.chance(1, 3)) // members without some of the variables
        for (auto& v : s.vars) {
            if (v.name[0] != 'v' || !isdigit(v.name[1]) || !v.has_fill || v.type == CDM_STRING) continue;
            const size_t keep = r.below(n);
            for (size_t k = 0; k < size_t(n); k++) {
                auto& vs = p.srcs[k].spec.vars;
                if (k != keep && r.chance(1, 3)) vs.erase(std::remove_if(vs.begin(), vs.end(), [&](const Var& x) { return x.name == v.name; }), vs.end());
            }
        }
    if (kind0 == 1) // the classic format lacks the unsigned and 64 bit types
        for (auto& src : p.srcs)
            for (auto& v : src.spec.vars)
                if (v.type == CDM_UCHAR || v.type == CDM_USHORT || v.type == CDM_UINT || v.type == CDM_INT64 || v.type == CDM_UINT64) {
                    v.type = CDM_INT;
                    if (v.has_fill) v.fill = -999999999.0;
                }
    if (kind0 == 1)
        for (auto& src : p.srcs) {
            auto drop = [](std::vector<CDMAttribute>& as) {
                as.erase(std::remove_if(as.begin(), as.end(), [](const CDMAttribute& a) { auto t = a.getDataType(); return t == CDM_UCHAR || t == CDM_USHORT || t == CDM_UINT || t == CDM_INT64 || t == CDM_UINT64; }), as.end());
            };
            drop(src.spec.atts);
            for (auto& v : src.spec.vars) drop(v.atts);
        }
    static int plans = 0; // one run is one process: every plan of a run gets files of its own
    const std::string prefix = sim::scratch + "src" + (plans ? std::to_string(plans) + "_" : "");
    plans++;
    const bool apart = combine == 4 && r.chance(1, 3); // some of the files in subdirectories
    const int via = combine == 4 ? r.range(0, o.scan ? 3 : 1) : 0; // 0 ncml, 1 pattern, 2 scan suffix, 3 scan regular expression
    if (apart)
        for (const char* d : {"d", "d/s0", "d/s1"}) ::mkdir((prefix + d).c_str(), 0700);
    for (size_t k = 0; k < p.srcs.size(); k++)
        if (kind0) {
            p.srcs[k].path = prefix + (apart ? "d/" + std::string(k < 2 ? "s" + std::to_string(k) + "/" : "t") : "") + std::to_string(k) + ".nc";
            write_nc(p.srcs[k].path, p.srcs[k].spec, kind0 == 2);
        }
    // reference model of the combined source
    std::vector<View> vs;
    for (auto& src : p.srcs) vs.push_back(view_of(src.spec));
    p.view = vs[0];
    auto lacking = [&](const MVar& like, const View& of) { // what an aggregation delivers for a member without the variable
        MVar m = like;
        for (size_t i = 0; i < m.shape.size(); i++) m.sizes[i] = of.unlim == m.shape[i] ? of.unlim_len() : m.sizes[i];
        m.data.assign(m.count(), m.fill);
        return m;
    };
    if (combine == 1 || combine == 3 || combine == 4)
        for (size_t k = 1; k < vs.size(); k++)
            for (auto& m : vs[k].vars)
                if (!p.view.var(m.name)) p.view.vars.push_back(m);
    static const char* const cn[] = {"single", "joinExisting", "union", "joinNew", "ncml-joinExisting"};
    static const char* const kn[] = {"model", "nc3", "nc4"};
    t << kn[kind0] << " " << cn[combine] << (via == 1 ? "(pattern)" : via ? "(scan)" : "") << "x" << n << " " << s.text();
    if (combine == 1 || combine == 4) {
        for (auto& m : p.view.vars)
            if (m.axis(p.view.unlim) >= 0) {
                std::vector<const MVar*> parts;
                std::vector<MVar> gap(vs.size());
                for (size_t k = 0; k < vs.size(); k++) {
                    if (!vs[k].var(m.name)) gap[k] = lacking(m, vs[k]);
                    parts.push_back(vs[k].var(m.name) ? vs[k].var(m.name) : &gap[k]);
                }
                m = concat(parts, p.view.unlim);
            }
        if (combine == 4) {
            p.ncml = ncml_head() + "<aggregation type=\"joinExisting\">";
            const std::string name = prefix.substr(prefix.rfind('/') + 1);
            if (via == 0) for (auto& src : p.srcs) p.ncml += "<netcdf location=\"" + src.path + "\"/>";
            if (via == 1) p.glob = "glob:" + prefix + (apart ? "d/**.nc" : "?.nc");
            if (via == 2) p.ncml += "<scan location=\"" + (apart ? prefix + "d/" : sim::scratch) + "\" suffix=\".nc\"/>";
            if (via == 3) p.ncml += "<scan location=\"" + (apart ? prefix + "d" : sim::scratch) + "\" regExp=\"" + (apart ? "t?" : name) + "[0-9]+[.]nc\"" + (apart ? "" : " subdirs=\"false\"") + "/>";
            p.ncml += "</aggregation></netcdf>";
        }
    } else if (combine == 2) {
        for (size_t k = 1; k < vs.size(); k++)
            for (auto& m : vs[k].vars)
                if (!p.view.var(m.name)) p.view.vars.push_back(m);
    } else if (combine == 3) {
        for (auto& m : p.view.vars)
            if (m.name[0] == 'v' && isdigit(m.name[1])) {
                MVar j = m;
                j.shape.push_back("run");
                j.sizes.push_back(n);
                j.data.clear();
                for (auto& v : vs) {
                    const MVar gap = v.var(m.name) ? MVar() : lacking(m, v);
                    auto& d = v.var(m.name) ? v.var(m.name)->data : gap.data;
                    j.data.insert(j.data.end(), d.begin(), d.end());
                }
                m = j;
                joinvars.push_back(m.name);
            }
        if (kind0 && r.chance(1, 2)) {
            p.ncml = ncml_head() + "<aggregation type=\"joinNew\" dimName=\"run\">";
            for (auto& v : joinvars) p.ncml += "<variableAgg name=\"" + v + "\"/>";
            for (size_t k = 0; k < p.srcs.size(); k++) p.ncml += "<netcdf location=\"" + p.srcs[k].path + "\" coordValue=\"" + std::to_string(10 * k + 1) + "\"/>";
            p.ncml += "</aggregation></netcdf>";
        }
        p.view.unlim = "run";
        MVar c;
        c.name = "run";
        c.type = CDM_DOUBLE;
        c.shape = {"run"};
        c.sizes = {size_t(n)};
        for (int k = 0; k < n; k++) c.data.push_back(10 * k + 1);
        p.view.vars.push_back(c);
    }
    // stages
    const int ns = r.range(0, o.max_stages);
    int ren = 0;
    for (int k = 0; k < ns; k++) {
        ChainPlan::Stage st;
        st.kind = r.range(0, 5);
        auto dims = p.view.dims();
        switch (st.kind) {
        case 0:
        case 1: { // extractor: ranges or sets of positions
            if (dims.empty()) continue;
            st.a = dims[r.below(dims.size())];
            const size_t n = p.view.dim_len(st.a);
            if (st.kind == 0) {
                st.start = r.below(n);
                st.len = 1 + r.below(n - st.start);
                for (size_t i = 0; i < st.len; i++) st.pos.push_back(st.start + i);
                t << " | reduce " << st.a << " " << st.start << "+" << st.len;
            } else {
                for (size_t i = 0; i < n; i++) if (r.chance(1, 2)) st.pos.push_back(i);
                if (st.pos.empty()) st.pos.push_back(r.below(n));
                t << " | pick " << st.pos.size() << " of " << st.a;
            }
            if (r.chance(1, 3) && dims.size() > 1) { // a second dimension in the same extractor
                do st.b = dims[r.below(dims.size())]; while (st.b == st.a);
                std::vector<size_t> pos;
                for (size_t i = 0; i < p.view.dim_len(st.b); i++) if (r.chance(1, 2)) pos.push_back(i);
                if (pos.empty()) pos.push_back(0);
                for (auto q : pos) st.names.insert(std::to_string(q));
                take_dim(p.view, st.b, pos);
                t << "," << st.b;
            }
            take_dim(p.view, st.a, st.pos);
            break;
        }
        case 2: { // remove variables
            std::vector<MVar> keep;
            for (auto& m : p.view.vars) {
                bool data = m.name[0] == 'v' && m.name.size() > 1;
                if (data && keep.size() > 0 && r.chance(1, 4)) st.names.insert(m.name);
                else keep.push_back(m);
            }
            p.view.vars = keep;
            t << " | remove " << st.names.size();
            break;
        }
        case 3: { // ncml: rename a data variable, and possibly a dimension
            std::vector<std::string> cand;
            for (auto& m : p.view.vars) if (m.name[0] == 'v') cand.push_back(m.name);
            if (cand.empty()) continue;
            std::string v = cand[r.below(cand.size())], nn = v + "r" + std::to_string(ren++);
            st.xml = ncml_head();
            if (r.chance(1, 2) && !dims.empty()) {
                std::string d = dims[r.below(dims.size())];
                if (!p.view.var(d)) {
                    std::string nd = d + "q" + std::to_string(ren++);
                    st.xml += "<dimension name=\"" + nd + "\" orgName=\"" + d + "\"/>";
                    for (auto& m : p.view.vars)
                        for (auto& q : m.shape) if (q == d) q = nd;
                    if (p.view.unlim == d) p.view.unlim = nd;
                    t << " | dim " << d << "->" << nd;
                }
            }
            st.xml += "<variable name=\"" + nn + "\" orgName=\"" + v + "\"/></netcdf>";
            p.view.var(v)->name = nn;
            t << " | rename " << v;
            break;
        }
        case 4: { // ncml: type change
            std::vector<std::string> cand;
            for (auto& m : p.view.vars) if (m.name[0] == 'v' && !m.has_fill && m.scale == 1 && m.offset == 0 && (m.type == CDM_SHORT || m.type == CDM_FLOAT || m.type == CDM_INT)) cand.push_back(m.name);
            if (cand.empty()) continue;
            MVar& m = *p.view.var(cand[r.below(cand.size())]);
            st.xml = ncml_head() + "<variable name=\"" + m.name + "\" type=\"double\"/></netcdf>";
            m.type = CDM_DOUBLE;
            t << " | double " << m.name;
            break;
        }
        default: { // ncml: replace the values of a variable
            std::vector<std::string> cand;
            for (auto& m : p.view.vars) if (m.name[0] == 'v' && m.type != CDM_CHAR && m.count() < 200 && m.sizes.size() <= 2) cand.push_back(m.name);
            if (cand.empty()) continue;
            MVar& m = *p.view.var(cand[r.below(cand.size())]);
            st.xml = ncml_head() + "<variable name=\"" + m.name + "\"><values start=\"3\" increment=\"" + (m.type == CDM_UCHAR || m.count() > 30 ? "0" : "2") + "\"/></variable></netcdf>";
            for (size_t i = 0; i < m.data.size(); i++) m.data[i] = 3 + (m.type == CDM_UCHAR || m.count() > 30 ? 0 : 2.0 * i);
            t << " | values " << m.name;
        }
        }
        p.stages.push_back(st);
    }
    // scalar results may have no data variable left; keep at least one variable
    p.text = t.str();
    return p;
}

Chain open_chain(const ChainPlan& p)
{
    Chain c;
    std::vector<CDMReader_p> rds;
    if (p.ncml.empty() && p.glob.empty())
        for (auto& s : p.srcs) {
            if (s.kind == 0) {
                auto m = std::make_shared<ModelReader>(s.spec);
                c.models.push_back(m);
                rds.push_back(m);
            } else rds.push_back(open_reader("netcdf", s.path));
        }
    if (p.combine == 0) c.rd = rds[0];
    else if (!p.glob.empty()) c.rd = CDMFileReaderFactory::create("netcdf", p.glob);
    else if (!p.ncml.empty()) c.rd = std::make_shared<NcmlCDMReader>(XMLInputString(p.ncml));
    else {
        static const char* const ty[] = {"", "joinExisting", "union", "joinNew"};
        auto a = std::make_shared<AggregationReader>(ty[p.combine]);
        if (p.combine == 3) {
            std::set<std::string> jv;
            for (auto& s : p.srcs) for (auto& v : s.spec.vars) if (v.name[0] == 'v' && isdigit(v.name[1])) jv.insert(v.name);
            a->joinNewVars("run", jv);
        }
        for (size_t k = 0; k < rds.size(); k++) a->addReader(rds[k], "m" + std::to_string(k), p.combine == 3 ? std::to_string(10 * k + 1) : "");
        a->initAggregation();
        c.rd = a;
    }
    for (auto& st : p.stages) {
        if (st.kind <= 2) {
            auto e = std::make_shared<CDMExtractor>(c.rd);
            if (st.kind == 2)
                for (auto& n : st.names) e->removeVariable(n);
            else {
                if (st.kind == 0) e->reduceDimension(st.a, st.start, st.len);
                else e->reduceDimension(st.a, std::set<size_t>(st.pos.begin(), st.pos.end()));
                if (!st.b.empty()) {
                    std::set<size_t> q;
                    for (auto& n : st.names) q.insert(std::stoul(n));
                    e->reduceDimension(st.b, q);
                }
            }
            c.rd = e;
        } else c.rd = std::make_shared<NcmlCDMReader>(c.rd, XMLInputString(st.xml));
    }
    return c;
}
} // namespace hs
