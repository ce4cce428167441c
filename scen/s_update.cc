// Updating existing files in place: exactness (S11), durability across process crashes (S12).
#include "view.h"
#include "fimex/FillWriter.h"
#include "fimex/Null_CDMWriter.h"
#include <algorithm>
#include <cmath>
using namespace hs;
using namespace sim;

namespace {
// expected state of one element: candidates; an empty list accepts anything
struct Cell { double old_v = 0, new_v = 0; bool any = false, maybe = false; };
struct TVar { std::string name; std::vector<size_t> sizes; std::vector<Cell> c; };
typedef std::vector<TVar> Target;

// filled: what is appended and not written holds the missing value
Target target_of(const Spec& s, size_t unlim_len, bool filled = false)
{
    Target t;
    for (auto& v : s.vars) {
        TVar x;
        x.name = v.name;
        x.sizes = s.sizes(v);
        const size_t had = s.count(v);
        if (s.has_unlim(v)) x.sizes.back() = unlim_len;
        size_t n = 1;
        for (auto k : x.sizes) n *= k;
        x.c.resize(n);
        for (size_t i = 0; i < n; i++) {
            if (i < had) x.c[i].old_v = x.c[i].new_v = value(s, v, i);
            else if (filled) x.c[i].old_v = x.c[i].new_v = v.has_fill ? v.fill : default_fill(v.type);
            else x.c[i].any = true; // fill values
        }
        t.push_back(x);
    }
    return t;
}
TVar* find(Target& t, const std::string& n)
{
    for (auto& v : t) if (v.name == n) return &v;
    return nullptr;
}
// maybe: elements whose update is not known to be complete may hold the old or the new value
std::string check_target(const std::string& path, const Target& t, bool shorter_ok = false)
{
    NcOpen f(path);
    if (f.err) return "the file cannot be opened any more (netCDF error " + std::to_string(f.err) + ")";
    for (auto& v : t) {
        NcVarData d;
        int e = f.get(v.name, d);
        if (e) return "variable " + v.name + " cannot be read any more (netCDF error " + std::to_string(e) + ")";
        std::vector<size_t> want(v.sizes.rbegin(), v.sizes.rend());
        if (d.dims.size() != want.size()) return "variable " + v.name + " has another shape";
        size_t n = 1;
        for (size_t i = 0; i < want.size(); i++) {
            if (d.dims[i] != want[i] && !(i == 0 && shorter_ok)) return "variable " + v.name + " has dimension length " + std::to_string(d.dims[i]) + " instead of " + std::to_string(want[i]);
            n *= d.dims[i];
        }
        for (size_t i = 0; i < v.c.size(); i++) {
            const Cell& c = v.c[i];
            if (i >= d.v.size()) {
                if (c.any || c.maybe) continue;
                return "variable " + v.name + " is too short: value " + std::to_string(i) + " is lost";
            }
            if (c.any) continue;
            const double g = d.v[i];
            if (g == c.new_v || (std::isnan(g) && std::isnan(c.new_v))) continue;
            if (c.maybe && g == c.old_v) continue;
            char b[200];
            snprintf(b, sizeof b, "variable %s: value %zu of %zu is %.10g instead of %.10g%s", v.name.c_str(), i, v.c.size(), g, c.new_v, c.maybe ? " or the previous value" : "");
            return b;
        }
        note(d.v);
    }
    return "";
}

// ---- fill writing ----
struct FillCase
{
    Spec a, b;
    std::map<std::string, std::vector<size_t>> pos; // dimension -> position in the target for each input position
    size_t unlim_after = 0;
    Target t;
    std::set<std::string> written;
    std::string config;   // configuration file, or empty
    bool refused = false; // the input does not fit the target: an error is due
};
// rich: with translated dimensions and with inputs which do not fit
FillCase make_fill(Rng& r, bool nc3, bool lost, bool rich = false)
{
    FillCase c;
    SpecOpt o;
    o.nc3 = nc3;
    o.min_unlim = 1;
    o.max_vars = 6;
    c.a = random_spec(r, o);
    if (c.a.unlim()) c.unlim_after = c.a.unlim()->len;
    std::string bad; // dimension whose input values are not in the target
    size_t ens_at = 0, member_at = 0, members = 0;
    const bool trans = rich && r.chance(1, 4);
    for (auto& d : c.a.dims) {
        Dim e = d;
        std::vector<size_t>& p = c.pos[d.name];
        const Var* cv = c.a.var(d.name);
        for (size_t i = 0; i < d.len; i++) p.push_back(i);
        if (cv) {
            if (r.chance(1, 2)) {
                for (size_t i = d.len; i > 1; i--)
                    if (r.chance(1, 2)) std::swap(p[i - 1], p[r.below(i)]);
                p.resize(1 + r.below(d.len));
            }
            if (d.unlim && r.chance(1, 2)) {
                const size_t from = c.unlim_after;
                if (r.chance(1, 4)) p.clear(); // only new ones
                for (int k = r.range(1, 3); k > 0; k--) p.push_back(from);
                if (r.chance(1, 2)) // in any order; the new ones are appended in the order of the input
                    for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
                for (auto& x : p) if (x >= from) x = c.unlim_after++;
            } else if (rich && !d.unlim && bad.empty() && r.chance(1, 25)) bad = d.name;
        } else if (d.unlim) {
            p.resize(r.range(1, 3));
            for (auto& x : p) x = c.unlim_after++;
        } else if (rich && bad.empty() && r.chance(1, 25)) {
            bad = d.name;
            p.push_back(p.size());
        }
        e.len = p.size();
        c.b.dims.push_back(e);
    }
    c.refused = !bad.empty();
    std::set<std::string> ens_vars;
    if (trans) {
        const size_t ne = r.range(1, 3);
        ens_at = r.below(ne);
        c.a.dims.push_back({"ens", ne});
        if (r.chance(1, 2)) {
            members = r.range(1, 3);
            member_at = r.below(members);
            c.b.dims.push_back({"member", members});
        }
        for (auto& v : c.a.vars)
            if (v.name[0] == 'v' && v.shape.size() >= 2 && r.chance(2, 3)) {
                auto at = v.shape.end();
                if (c.a.dim(v.shape.back())->unlim) --at;
                v.shape.insert(at, "ens");
                ens_vars.insert(v.name);
            }
        c.config = "<?xml version=\"1.0\"?>\n<cdmFillWriter xmlns=\"http://www.met.no/schema/fimex/cdmFillWriterConfig\"><translate ";
        if (members) c.config += "inputDimension=\"member\" inputSlices=\"" + std::to_string(member_at) + "\" ";
        c.config += "outputDimension=\"ens\" outputSlices=\"" + std::to_string(ens_at) + "\"/></cdmFillWriter>";
    }
    c.t = target_of(c.a, c.unlim_after, true);
    for (auto& v : c.a.vars) {
        const bool coord = c.a.dim(v.name);
        if (!coord && r.chance(1, 4)) continue;
        Var w = v;
        w.salt = r.next();
        w.lost_step = -1;
        if (ens_vars.count(v.name)) {
            auto at = std::find(w.shape.begin(), w.shape.end(), "ens");
            if (members && r.chance(3, 4)) *at = "member";
            else w.shape.erase(at);
        }
        if (coord) {
            const double step = v.fixed.size() > 1 ? v.fixed[1] - v.fixed[0] : 1000;
            w.fixed.clear();
            for (auto p : c.pos[v.name]) w.fixed.push_back(p < v.fixed.size() ? v.fixed[p] : v.fixed.back() + step * double(p));
            if (bad == v.name) w.fixed[r.below(w.fixed.size())] += step / 4;
        } else if (lost && r.chance(1, 5)) w.lost = true;
        c.b.vars.push_back(w);
    }
    if (r.chance(1, 3)) { // not in the target
        Var w;
        w.name = "fresh";
        w.shape = {"x", "y"};
        w.salt = 5;
        c.b.vars.push_back(w);
    }
    std::set<std::string> other;
    if (r.chance(1, 3)) // other dimensions than in the target: not to be written
        for (auto& w : c.b.vars)
            if (!c.b.dim(w.name) && w.name != "fresh" && w.shape.size() >= 2 && r.chance(1, 2)) {
                if (w.shape[0] == "member" || w.shape[1] == "member") continue;
                if (r.chance(1, 2)) w.shape.erase(w.shape.begin());
                else if (w.shape[0] == "x" && w.shape[1] == "y") std::swap(w.shape[0], w.shape[1]);
                else continue;
                other.insert(w.name);
            }
    for (auto& w : c.b.vars) {
        TVar* x = find(c.t, w.name);
        if (!x || w.lost || other.count(w.name)) continue;
        if (!bad.empty() && std::count(w.shape.begin(), w.shape.end(), bad)) continue;
        const auto& shape = c.a.var(w.name)->shape;
        c.written.insert(w.name);
        auto sz = c.b.sizes(w);
        std::vector<size_t> idx(sz.size(), 0);
        for (size_t i = 0; i < c.b.count(w); i++) {
            size_t lin = 0, mul = 1;
            bool used = true;
            std::map<std::string, size_t> at;
            for (size_t k = 0; k < idx.size(); k++) {
                if (w.shape[k] == "member") used = idx[k] == member_at;
                else at[w.shape[k]] = c.pos[w.shape[k]][idx[k]];
            }
            for (size_t k = 0; k < shape.size(); k++) {
                lin += (shape[k] == "ens" ? ens_at : at[shape[k]]) * mul;
                mul *= x->sizes[k];
            }
            if (used) x->c[lin].new_v = value(c.b, w, i);
            for (size_t k = 0; k < idx.size(); k++) {
                if (++idx[k] < sz[k]) break;
                idx[k] = 0;
            }
        }
    }
    if (!c.config.empty()) {
        write_file(scratch + "fill.xml", c.config);
        c.config = scratch + "fill.xml";
    }
    return c;
}
CDMReaderWriter_p open_rw(const std::string& f) { return CDMFileReaderFactory::createReaderWriter("netcdf", f); }
} // namespace

SIM_SCENARIO(S11, fill, 3)
{
    const bool nc3 = rng.chance(1, 2);
    FillCase c = make_fill(rng, nc3, true, true);
    set_omp_threads(rng.range(2, 4));
    const std::string f = scratch + "target.nc";
    { Quiet q; write_nc(f, c.a, !nc3); }
    const bool from_file = rng.chance(1, 3);
    bool anylost = false;
    for (auto& v : c.b.vars) anylost |= v.lost;
    CDMReader_p in;
    if (from_file && !anylost) {
        Quiet q;
        write_nc(scratch + "input.nc", c.b, !nc3);
        in = open_reader("netcdf", scratch + "input.nc");
    } else in = std::make_shared<ModelReader>(c.b);
    sample("fill %s: %s <- %s threads=%d", nc3 ? "nc3" : "nc4", c.a.text().c_str(), c.b.text().c_str(), omp_threads());
    Outcome o = attempt([&] {
        CDMReaderWriter_p io = open_rw(f);
        FillWriter w(in, io, c.config);
        io->sync();
    });
    if (o.threw && !c.refused) violation("unexpected-error", "filling failed without any fault: %s", o.what.c_str());
    if (!o.threw && c.refused) violation("silent-loss", "filling reported success although a dimension of the input does not fit the target");
    Quiet q;
    std::string e = check_target(f, c.t);
    if (!e.empty()) violation("wrong-output", "%s", e.c_str());
    probe("filled-variables", c.written.size());
}

static const std::vector<FaultKindOpt> src_faults = {{F_UPSTREAM_THROW, 1}};
// the input fails: reported; every element of the target keeps its old value or has the new one
SIM_SCENARIO(S11, fill_source_fault, 2)
{
    const bool nc3 = rng.chance(1, 2);
    FillCase c = make_fill(rng, nc3, false);
    set_omp_threads(rng.range(1, 3));
    const std::string f = scratch + "target.nc", dry = scratch + "dry.nc";
    auto in = std::make_shared<ModelReader>(c.b);
    { Quiet q; write_nc(f, c.a, !nc3); write_nc(dry, c.a, !nc3); }
    OpCount n = rehearse([&] { CDMReaderWriter_p io = open_rw(dry); FillWriter w(in, io); });
    auto fs = draw_faults(rng, n, src_faults);
    sample("fill %s: %s <- %s threads=%d faults: %s", nc3 ? "nc3" : "nc4", c.a.text().c_str(), c.b.text().c_str(), omp_threads(), fault_text(fs).c_str());
    use_faults(fs);
    arm_faults(true);
    Outcome o = attempt([&] { CDMReaderWriter_p io = open_rw(f); FillWriter w(in, io); io->sync(); });
    arm_faults(false);
    if (in->failures && !o.threw) violation("silent-loss", "filling reported success although the input failed %d times", in->failures);
    if (!in->failures && o.threw) violation("unexpected-error", "filling failed without any fault: %s", o.what.c_str());
    probe(o.threw ? "reported" : "succeeded");
    for (auto& v : c.t) for (auto& x : v.c) x.maybe = true;
    if (c.a.unlim())
        for (auto& v : c.t)
            if (c.a.has_unlim(*c.a.var(v.name)))
                for (size_t i = c.a.count(*c.a.var(v.name)); i < v.c.size(); i++) v.c[i].any = true;
    Quiet q;
    std::string e = check_target(f, c.t, true);
    if (!e.empty()) violation("wrong-output", "after a reported failure: %s", e.c_str());
}

namespace {
// ---- direct updates ----
struct Put { std::string var; int kind; size_t pos; std::vector<size_t> start, size; std::vector<double> data; bool scaled = false; };
void packing(const Var& v, double& sc, double& of)
{
    sc = 1;
    of = 0;
    for (auto& a : v.atts) {
        if (a.getName() == "scale_factor") sc = to_doubles(a.getData())[0];
        if (a.getName() == "add_offset") of = to_doubles(a.getData())[0];
    }
}
// disjoint updates covering part of the file; may append records
std::vector<Put> make_puts(Rng& r, const Spec& s, size_t unlim_len)
{
    std::vector<Put> out;
    for (auto& v : s.vars) {
        if (v.shape.empty() || s.dim(v.name)) continue;
        if (r.chance(1, 5)) continue;
        auto sz = s.sizes(v);
        if (s.has_unlim(v)) sz.back() = unlim_len;
        const size_t steps = s.has_unlim(v) ? unlim_len : 1;
        for (size_t t = 0; t < steps; t++) {
            if (r.chance(1, 3)) continue;
            std::vector<size_t> st(sz.size(), 0), len = sz;
            if (s.has_unlim(v)) { st.back() = t; len.back() = 1; }
            int parts = len[0] > 1 && r.chance(1, 2) ? 2 : 1; // split along the first dimension
            const bool splittable = !(s.has_unlim(v) && sz.size() == 1);
            if (!splittable) parts = 1;
            size_t cut = parts == 2 ? 1 + r.below(len[0] - 1) : len[0];
            for (int k = 0; k < parts; k++) {
                Put p;
                p.var = v.name;
                p.kind = parts == 1 ? r.range(0, 1) : 1;
                p.pos = t;
                p.start = st;
                p.size = len;
                if (parts == 2) {
                    p.start[0] = k ? cut : 0;
                    p.size[0] = k ? len[0] - cut : cut;
                }
                p.scaled = r.chance(1, 3);
                Var w = v;
                w.salt = r.next();
                w.fixed.clear();
                size_t n = 1;
                for (auto q : p.size) n *= q;
                for (size_t i = 0; i < n; i++) p.data.push_back(value(s, w, i));
                if (v.type == CDM_INT64 || v.type == CDM_UINT64) p.scaled = false;
                out.push_back(p);
            }
        }
    }
    for (size_t i = out.size(); i > 1; i--) std::swap(out[i - 1], out[r.below(i)]);
    return out;
}
void do_put(const CDMReaderWriter_p& io, const Spec& s, const Put& p)
{
    const Var& v = *s.var(p.var);
    std::vector<double> d = p.data;
    DataPtr data;
    if (p.scaled) {
        double sc, of;
        packing(v, sc, of);
        for (auto& x : d) x = v.has_fill && x == v.fill ? NAN : x * sc + of;
        data = make_data(CDM_DOUBLE, d);
    } else data = make_data(v.type, d);
    if (p.kind == 0) {
        if (p.scaled) io->putScaledDataSlice(p.var, p.pos, data);
        else io->putDataSlice(p.var, p.pos, data);
        return;
    }
    SliceBuilder sb(io->getCDM(), p.var, true);
    for (size_t k = 0; k < v.shape.size(); k++) sb.setStartAndSize(v.shape[k], p.start[k], p.size[k]);
    if (p.scaled) io->putScaledDataSlice(p.var, sb, data);
    else io->putDataSlice(p.var, sb, data);
}
void apply(Target& t, const Put& p, bool certain, bool any)
{
    TVar& x = *find(t, p.var);
    std::vector<size_t> idx(p.size.size(), 0);
    for (size_t i = 0; i < p.data.size(); i++) {
        size_t lin = 0, mul = 1;
        for (size_t k = 0; k < idx.size(); k++) {
            lin += (p.start[k] + idx[k]) * mul;
            mul *= x.sizes[k];
        }
        Cell& c = x.c[lin];
        if (certain) { c.new_v = p.data[i]; c.any = c.maybe = false; }
        else if (any) c.any = true;
        else { if (!c.any) { c.new_v = p.data[i]; c.maybe = true; } }
        for (size_t k = 0; k < idx.size(); k++) {
            if (++idx[k] < p.size[k]) break;
            idx[k] = 0;
        }
    }
}
} // namespace

// several threads write disjoint parts while others read what nobody writes
SIM_SCENARIO(S11, updates, 3)
{
    const bool nc3 = rng.chance(1, 2);
    SpecOpt so;
    so.nc3 = nc3;
    so.min_unlim = 1;
    Spec s = random_spec(rng, so);
    const size_t len = s.unlim() ? s.unlim()->len + (rng.chance(1, 2) ? rng.below(3) : 0) : 0;
    auto puts = make_puts(rng, s, len);
    const int nt = rng.range(2, 4);
    const std::string f = scratch + "target.nc";
    { Quiet q; write_nc(f, s, !nc3); }
    Target t = target_of(s, len);
    size_t reached = s.unlim() ? s.unlim()->len : 0;
    std::set<std::string> touched;
    for (auto& p : puts) {
        apply(t, p, true, false);
        touched.insert(p.var);
        if (s.unlim() && s.has_unlim(*s.var(p.var))) reached = std::max(reached, p.pos + 1);
    }
    for (auto& v : t)
        if (s.unlim() && s.has_unlim(*s.var(v.name))) {
            size_t per = 1;
            for (size_t k = 0; k + 1 < v.sizes.size(); k++) per *= v.sizes[k];
            v.sizes.back() = reached;
            v.c.resize(per * reached);
        }
    std::vector<Req> reads;
    for (int k = rng.range(0, 4); k > 0; k--) {
        Req q = random_req(rng, s);
        // appending changes the length of what is read as a whole
        if (!touched.count(q.var) && !(q.kind == 0 && s.has_unlim(*s.var(q.var)))) reads.push_back(q);
    }
    sample("updates %s: %s, %zu updates by %d threads, %zu reads", nc3 ? "nc3" : "nc4", s.text().c_str(), puts.size(), nt, reads.size());
    CDMReaderWriter_p io = open_rw(f);
    for (int k = 0; k < nt; k++) {
        const bool syncs = rng.chance(1, 2);
        spawn([&, k, syncs] {
            Outcome o = attempt([&] {
                for (size_t i = k; i < puts.size(); i += nt) {
                    do_put(io, s, puts[i]);
                    if (syncs && i % 2) io->sync();
                }
                for (size_t i = k; i < reads.size(); i += nt) {
                    auto got = to_doubles(do_req(io, reads[i]));
                    std::string e = compare_values(req_text(reads[i]), got, expect_req(s, reads[i]));
                    if (!e.empty()) violation("wrong-data", "reading while others write: %s", e.c_str());
                }
            });
            if (o.threw) violation("unexpected-error", "updating failed without any fault: %s", o.what.c_str());
        });
    }
    join_all();
    // what was written is also visible through the same reader
    {
        Quiet q;
        for (auto& p : puts) {
            if (p.kind != 0) continue;
            auto got = to_doubles(io->getDataSlice(p.var, p.pos));
            std::string e = compare_values(p.var, got, p.data);
            if (!e.empty()) violation("wrong-data", "read back: %s", e.c_str());
        }
    }
    io.reset();
    Quiet q;
    std::string e = check_target(f, t);
    if (!e.empty()) violation("wrong-output", "%s", e.c_str());
}

// a kill of the process during a series of updates: updates followed by a completed sync() survive, nothing else changes
SIM_SCENARIO(S12, crash_update, 3)
{
    SpecOpt so;
    so.nc3 = true;
    so.min_unlim = 1;
    so.max_len = rng.chance(1, 4) ? 30 : 6; // some files larger than the library's buffers
    Spec s = random_spec(rng, so);
    const size_t len = s.unlim() ? s.unlim()->len + (rng.chance(1, 3) ? rng.below(3) : 0) : 0;
    auto puts = make_puts(rng, s, len);
    if (puts.size() > 60) puts.resize(60);
    const int every = rng.range(1, 4);
    const int nt = rng.chance(1, 2) ? 1 : 2;
    const std::string f = scratch + "target.nc", dry = scratch + "dry.nc";
    auto work = [&](const std::string& file, bool track) {
        CDMReaderWriter_p io = open_rw(file);
        uint64_t done = 0; // updates that returned
        auto part = [&](int k, int n) {
            for (size_t i = k; i < puts.size(); i += n) {
                if (track) R->progress[1] |= 1ull << i; // started
                do_put(io, s, puts[i]);
                done |= 1ull << i;
                if (i % every == 0) {
                    const uint64_t before = done;
                    io->sync();
                    if (track) R->progress[0] |= before; // durable from now on
                }
            }
        };
        if (nt == 1 || quiet()) part(0, 1);
        else {
            for (int k = 0; k < nt; k++) spawn([&, k] { part(k, nt); });
            join_all();
        }
        io->sync();
        if (track) R->progress[0] = R->progress[1];
        io.reset();
    };
    if (life() == 0) {
        { Quiet q; write_nc(f, s, false); write_nc(dry, s, false); }
        OpCount n = rehearse([&] { work(dry, false); });
        std::vector<Fault> fs;
        if (n.n[OP_MUT]) {
            Fault x;
            x.kind = F_CRASH;
            x.at = 1 + rng.below(n.n[OP_MUT]);
            x.param = rng.next() & 0xffff;
            fs.push_back(x);
        }
        sample("crash while updating %s: %zu updates, sync every %d, %d threads, %s", s.text().c_str(), puts.size(), every, nt, fault_text(fs).c_str());
        use_faults(fs);
        set_fault_filter([&](const std::string& p) { return p == f; });
        arm_faults(true);
        Outcome o = attempt([&] { work(f, true); });
        arm_faults(false);
        if (o.threw) violation("unexpected-error", "updating failed without any error: %s", o.what.c_str());
    }
    Quiet q;
    Target t = target_of(s, len);
    size_t durable = s.unlim() ? s.unlim()->len : 0;
    int nd = 0;
    for (size_t i = 0; i < puts.size(); i++) {
        const bool d = R->progress[0] >> i & 1, st = R->progress[1] >> i & 1;
        nd += d;
        if (d || st) apply(t, puts[i], d, !d);
        if (d && s.unlim() && s.has_unlim(*s.var(puts[i].var))) durable = std::max(durable, puts[i].pos + 1);
    }
    probe(life() ? "restarted" : "uninterrupted");
    probe("durable-updates", nd);
    // records beyond the durable ones need not exist
    for (auto& v : t)
        if (s.unlim() && s.has_unlim(*s.var(v.name))) {
            size_t per = 1;
            for (size_t k = 0; k + 1 < v.sizes.size(); k++) per *= v.sizes[k];
            for (size_t i = per * durable; i < v.c.size(); i++) v.c[i].any = true;
        }
    std::string e = check_target(f, t, true);
    if (!e.empty()) violation(life() ? "lost-after-crash" : "wrong-output", "%s", e.c_str());
}

// a kill of the process while a classic file is written step by step: finished steps survive
SIM_SCENARIO(S12, crash_write, 3)
{
    SpecOpt so;
    so.nc3 = true;
    so.allow_no_unlim = false;
    so.min_unlim = 2;
    so.max_len = rng.chance(1, 4) ? 30 : 6;
    Spec s = random_spec(rng, so);
    const int nt = rng.range(1, 3);
    const std::string f = scratch + "out.nc", dry = scratch + "dry.nc";
    if (life() == 0) {
        set_omp_threads(nt);
        auto rd = std::make_shared<ModelReader>(s);
        OpCount n = rehearse([&] { CDMFileReaderFactory::createWriter(rd, "nc3", dry); });
        std::vector<Fault> fs;
        Fault x;
        x.kind = F_CRASH;
        x.at = 1 + rng.below(n.n[OP_MUT]);
        x.param = rng.next() & 0xffff;
        fs.push_back(x);
        sample("crash while writing %s by %d threads, %s", s.text().c_str(), nt, fault_text(fs).c_str());
        std::map<int, long> current; // thread -> time step it works on
        rd->on_slice = [&](const std::string& v, long pos) {
            const Var* m = s.var(v);
            if (!m || !s.has_unlim(*m) || pos < 0) return;
            auto it = current.find(self());
            // the thread goes on to another step: the previous one is complete
            if (it != current.end() && it->second != pos) R->progress[0] |= 1ull << it->second;
            current[self()] = pos;
        };
        use_faults(fs);
        set_fault_filter([&](const std::string& p) { return p == f; });
        arm_faults(true);
        Outcome o = attempt([&] { CDMFileReaderFactory::createWriter(rd, "nc3", f); });
        arm_faults(false);
        if (o.threw) violation("unexpected-error", "writing failed without any error: %s", o.what.c_str());
        R->progress[0] = ~0ull;
    }
    Quiet q;
    probe(life() ? "restarted" : "uninterrupted");
    Target t = target_of(s, s.unlim()->len);
    const bool all = R->progress[0] == ~0ull;
    int nd = 0;
    for (size_t k = 0; k < s.unlim()->len; k++) nd += R->progress[0] >> k & 1;
    probe("durable-steps", nd);
    if (nd == 0) return; // the file need not even be readable
    for (auto& v : t) {
        const Var& m = *s.var(v.name);
        if (all) continue;
        if (!s.has_unlim(m)) { for (auto& c : v.c) c.any = true; continue; }
        size_t per = v.c.size() / s.unlim()->len;
        for (size_t i = 0; i < v.c.size(); i++)
            if (!(R->progress[0] >> (i / per) & 1)) v.c[i].any = true;
    }
    std::string e = check_target(f, t, true);
    if (!e.empty()) violation(life() ? "lost-after-crash" : "wrong-output", "%s", e.c_str());
}

// storage errors while filling or updating: success (including sync) means the file holds the data
SIM_SCENARIO(S06, fill_fault, 2)
{
    static const std::vector<FaultKindOpt> kinds = {{F_WRITE_ENOSPC, 4}, {F_WRITE_EIO, 3}, {F_UPSTREAM_THROW, 1}, {F_TRUNC_FAIL, 1}, {F_SYNC_FAIL, 1}, {F_READ_EIO, 2}, {F_OPEN_FAIL, 1}, {F_LIB_FAIL, 5}};
    const bool nc3 = rng.chance(1, 2);
    FillCase c = make_fill(rng, nc3, false);
    set_omp_threads(rng.range(1, 3));
    const std::string f = scratch + "target.nc", dry = scratch + "dry.nc";
    auto in = std::make_shared<ModelReader>(c.b);
    { Quiet q; write_nc(f, c.a, !nc3); write_nc(dry, c.a, !nc3); }
    OpCount n = rehearse([&] { CDMReaderWriter_p io = open_rw(dry); FillWriter w(in, io); io->sync(); });
    auto fs = draw_faults(rng, n, kinds);
    sample("fill %s: %s <- %s threads=%d faults: %s", nc3 ? "nc3" : "nc4", c.a.text().c_str(), c.b.text().c_str(), omp_threads(), fault_text(fs).c_str());
    use_faults(fs);
    arm_faults(true);
    CDMReaderWriter_p io;
    Outcome o = attempt([&] { io = open_rw(f); FillWriter w(in, io); io->sync(); });
    arm_faults(false);
    io.reset();
    probe(o.threw ? "reported" : "succeeded");
    if (!o.threw) {
        if (in->failures) violation("silent-loss", "filling reported success although the input failed");
        Quiet q;
        std::string e = check_target(f, c.t);
        if (!e.empty()) violation("silent-loss", "filling and syncing reported success after faults (%s) but %s", fault_text(fs).c_str(), e.c_str());
    }
}
SIM_SCENARIO(S06, update_fault, 2)
{
    static const std::vector<FaultKindOpt> kinds = {{F_WRITE_ENOSPC, 4}, {F_WRITE_EIO, 3}, {F_TRUNC_FAIL, 1}, {F_SYNC_FAIL, 1}, {F_READ_EIO, 2}, {F_OPEN_FAIL, 1}, {F_LIB_FAIL, 5}};
    const bool nc3 = rng.chance(1, 2);
    SpecOpt so;
    so.nc3 = nc3;
    so.min_unlim = 1;
    Spec s = random_spec(rng, so);
    auto puts = make_puts(rng, s, s.unlim() ? s.unlim()->len : 0);
    const std::string f = scratch + "target.nc", dry = scratch + "dry.nc";
    { Quiet q; write_nc(f, s, !nc3); write_nc(dry, s, !nc3); }
    auto work = [&](const std::string& file, CDMReaderWriter_p& io) {
        io = open_rw(file);
        for (auto& p : puts) do_put(io, s, p);
        io->sync();
    };
    OpCount n = rehearse([&] { CDMReaderWriter_p io; work(dry, io); });
    auto fs = draw_faults(rng, n, kinds);
    sample("updates %s: %s, %zu updates, faults: %s", nc3 ? "nc3" : "nc4", s.text().c_str(), puts.size(), fault_text(fs).c_str());
    use_faults(fs);
    arm_faults(true);
    CDMReaderWriter_p io;
    Outcome o = attempt([&] { work(f, io); });
    arm_faults(false);
    io.reset();
    probe(o.threw ? "reported" : "succeeded");
    if (o.threw) return;
    Target t = target_of(s, s.unlim() ? s.unlim()->len : 0);
    for (auto& p : puts) apply(t, p, true, false);
    Quiet q;
    std::string e = check_target(f, t);
    if (!e.empty()) violation("silent-loss", "updating and syncing reported success after faults (%s) but %s", fault_text(fs).c_str(), e.c_str());
}

#include "mix.h"
hs::MixJob hs::mix_update(Rng& rng, const std::string& id)
{
    SpecOpt so;
    so.nc3 = true;
    so.min_unlim = 1;
    auto s = std::make_shared<Spec>(random_spec(rng, so));
    const size_t len = s->unlim() ? s->unlim()->len : 0;
    auto puts = make_puts(rng, *s, len);
    const std::string f = scratch + "mix" + id + "u.nc";
    write_nc(f, *s, false);
    auto t = std::make_shared<Target>(target_of(*s, len));
    for (auto& p : puts) apply(*t, p, true, false);
    return {"update", [s, puts, f, t] {
                CDMReaderWriter_p io = open_rw(f);
                for (auto& p : puts) do_put(io, *s, p);
                io->sync();
                io.reset();
                NoFaults nf;
                std::string e = check_target(f, *t);
                if (!e.empty()) violation("wrong-output", "updating: %s", e.c_str());
            }};
}

// after failing updates (one or several threads): nothing stays locked or open, and the same updates work when repeated
SIM_SCENARIO(S10, updates, 2)
{
    const bool nc3 = rng.chance(1, 2);
    SpecOpt so;
    so.nc3 = nc3;
    so.min_unlim = 1;
    Spec s = random_spec(rng, so);
    const size_t len = s.unlim() ? s.unlim()->len : 0;
    auto puts = make_puts(rng, s, len);
    const int nt = rng.range(1, 3);
    const std::string f = scratch + "target.nc", dry = scratch + "dry.nc";
    { Quiet q; write_nc(f, s, !nc3); write_nc(dry, s, !nc3); }
    OpCount n = rehearse([&] {
        CDMReaderWriter_p io = open_rw(dry);
        for (auto& p : puts) do_put(io, s, p);
        io->sync();
    });
    auto fs = draw_faults(rng, n, {{F_LIB_FAIL, 2}, {F_ALLOC, 2}}, 3);
    sample("updates %s: %s, %zu updates by %d threads, faults: %s", nc3 ? "nc3" : "nc4", s.text().c_str(), puts.size(), nt, fault_text(fs).c_str());
    use_faults(fs);
    {
        CDMReaderWriter_p io;
        arm_faults(true);
        Outcome oc = attempt([&] { io = open_rw(f); });
        if (!oc.threw) {
            for (int k = 0; k < nt; k++)
                spawn([&, k] {
                    for (size_t i = k; i < puts.size(); i += nt) {
                        Outcome o = attempt([&] { do_put(io, s, puts[i]); });
                        probe(o.threw ? "put-reported" : "put");
                    }
                    attempt([&] { io->sync(); });
                });
            join_all();
        }
        arm_faults(false);
        std::string l = held_locks();
        if (!l.empty()) violation("lock-left", "after failed updates: still locked: %s", l.c_str());
        if (io) {
            Outcome o = attempt([&] { for (auto& p : puts) do_put(io, s, p); io->sync(); });
            if (o.threw) violation("not-recovered", "updating through the same reader after the fault is over fails: %s", o.what.c_str());
        }
    }
    if (open_scratch_fds()) violation("file-left-open", "after failed updates and closing: %s", open_scratch_list().c_str());
    Outcome o = attempt([&] { CDMReaderWriter_p io = open_rw(f); for (auto& p : puts) do_put(io, s, p); io->sync(); });
    if (o.threw) violation("not-recovered", "updating again after the fault is over fails: %s", o.what.c_str());
    Target t = target_of(s, len);
    for (auto& p : puts) apply(t, p, true, false);
    Quiet q;
    std::string e = check_target(f, t);
    if (!e.empty()) violation("not-recovered", "after repeated updates: %s", e.c_str());
}
