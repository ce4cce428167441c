// Interpolation and other processing: results do not depend on scheduling, and follow independent models where these are simple.
#include "geo.h"
#include "view.h"
#include "fimex/Null_CDMWriter.h"
#include <cmath>
#include <cstring>
#include <sstream>
using namespace hs;
using namespace sim;

namespace {
typedef std::vector<std::vector<double>> Slices; // per variable: one entry per unlimited position
struct Ref { std::vector<std::string> names; std::vector<Slices> data; std::vector<std::string> rejected; std::vector<MVar> whole; std::string unlim; };
// a request: one position of the unlimited dimension, the whole variable, or a part
struct Ask { size_t v = 0, pos = 0; int kind = 0; std::vector<size_t> start, size; };

// sums of accumulated steps may be added in another order, depending on what was read before: only rounding may differ then
bool loose = false;
bool same(const std::vector<double>& a, const std::vector<double>& b, std::string& e)
{
    double big = 0;
    if (loose)
        for (double x : b) if (std::isfinite(x)) big = std::max(big, std::fabs(x));
    if (a.size() != b.size()) {
        e = std::to_string(a.size()) + " values instead of " + std::to_string(b.size());
        return false;
    }
    for (size_t i = 0; i < a.size(); i++)
        if (memcmp(&a[i], &b[i], 8) && !(std::isnan(a[i]) && std::isnan(b[i])) && !(loose && std::fabs(a[i] - b[i]) <= 1e-5 * big)) {
            char t[120];
            snprintf(t, sizeof t, "value %zu is %.9g instead of %.9g", i, a[i], b[i]);
            e = t;
            return false;
        }
    return true;
}
size_t steps(const CDMReader_p& rd, const std::string& v)
{
    const CDM& c = rd->getCDM();
    return c.hasUnlimitedDim(c.getVariable(v)) ? c.getUnlimitedDim()->getLength() : 1;
}
// delivered data belong to the caller: changing them must not show up anywhere else
std::vector<double> taken(const DataPtr& d)
{
    if (!d) return std::vector<double>();
    std::vector<double> v = to_doubles(d);
    if (d->getDataType() != CDM_STRING)
        for (size_t i = 0; i < d->size(); i++) d->setValue(i, 77.0);
    return v;
}
std::vector<double> get(const CDMReader_p& rd, const std::string& v, size_t pos) { return taken(rd->getDataSlice(v, pos)); }
Ref reference(const CDMReader_p& rd)
{
    Ref r;
    for (auto& v : rd->getCDM().getVariables()) {
        if (v.getDataType() == CDM_STRING || v.getDataType() == CDM_CHAR) continue;
        Slices sl;
        bool typed = true; // some processing delivers steps as floats, and whole variables in the declared type
        Outcome o = attempt([&] {
            for (size_t t = 0; t < steps(rd, v.getName()); t++) {
                DataPtr d = rd->getDataSlice(v.getName(), t);
                typed &= d && d->getDataType() == v.getDataType();
                sl.push_back(taken(d));
            }
        });
        if (!o.threw && sl.empty()) continue; // no step at all
        if (o.threw) { r.rejected.push_back(v.getName()); continue; } // not computable, also not by several threads
        MVar m;
        m.name = v.getName();
        m.shape = v.getShape();
        for (auto& d : m.shape) m.sizes.push_back(rd->getCDM().getDimension(d).getLength());
        for (auto& x : sl) m.data.insert(m.data.end(), x.begin(), x.end());
        const CDMDimension* u = rd->getCDM().getUnlimitedDim();
        if (u) r.unlim = u->getName();
        if (!typed || m.data.size() != m.count() || (u && m.axis(u->getName()) >= 0 && m.axis(u->getName()) != int(m.shape.size()) - 1)) m.shape.clear(), m.sizes.clear(), m.data.clear();
        r.names.push_back(v.getName());
        r.data.push_back(sl);
        r.whole.push_back(m);
    }
    return r;
}
std::vector<double> answer(const CDMReader_p& rd, const Ref& r, const Ask& a)
{
    const std::string& n = r.names[a.v];
    if (a.kind == 0) return get(rd, n, a.pos);
    DataPtr d;
    if (a.kind == 1) d = rd->getData(n);
    else {
        SliceBuilder sb(rd->getCDM(), n);
        for (size_t i = 0; i < a.start.size(); i++) sb.setStartAndSize(r.whole[a.v].shape[i], a.start[i], a.size[i]);
        d = rd->getDataSlice(n, sb);
    }
    return taken(d);
}
std::vector<double> expected(const Ref& r, const Ask& a)
{
    if (a.kind == 0) return r.data[a.v][a.pos];
    return a.kind == 1 ? r.whole[a.v].data : sub(r.whole[a.v], a.start, a.size);
}
std::string ask_text(const Ref& r, const Ask& a)
{
    std::ostringstream o;
    o << r.names[a.v];
    if (a.kind == 0) o << " at " << a.pos;
    for (size_t i = 0; i < a.start.size(); i++) o << "[" << a.start[i] << "+" << a.size[i] << "]";
    return o.str();
}
// rd: a reader only used to see, sequentially, whether the request is possible
Ask random_ask(Rng& rng, const Ref& r, const CDMReader_p& rd)
{
    Ask a;
    a.v = rng.below(r.names.size());
    // favour the fields over the axes
    if (r.data[a.v][0].size() < 9) a.v = rng.below(r.names.size());
    a.pos = rng.below(r.data[a.v].size());
    const MVar& m = r.whole[a.v];
    if (m.data.empty() || rng.chance(1, 2)) return a;
    Ask b = a;
    b.kind = rng.range(1, 2);
    if (b.kind == 2)
        for (auto n : m.sizes) {
            size_t st = rng.below(n), sz = 1 + rng.below(n - st);
            if (rng.chance(1, 3)) st = 0, sz = n;
            b.start.push_back(st);
            b.size.push_back(sz);
        }
    std::vector<double> got;
    Outcome o = attempt([&] { got = answer(rd, r, b); });
    if (o.threw) return a;
    std::string e;
    if (!same(got, expected(r, b), e)) violation("wrong-data", "%s is not what reading step by step delivers: %s", ask_text(r, b).c_str(), e.c_str());
    return b;
}
// what one of several callers asks for: anything, mostly one variable, or the same as the caller before
std::vector<Ask> random_asks(Rng& rng, const Ref& r, const CDMReader_p& rd, int lo, int hi, const std::vector<Ask>* before = nullptr)
{
    if (before && !before->empty() && rng.chance(1, 4)) return *before;
    std::vector<Ask> g;
    const bool hot = rng.chance(1, 3);
    const size_t name = before && !before->empty() && rng.chance(1, 2) ? (*before)[0].v : r.names.size();
    for (int k = rng.range(lo, hi); k > 0; k--) {
        Ask x = random_ask(rng, r, rd);
        const size_t want = !hot ? r.names.size() : name < r.names.size() ? name : g.empty() ? name : g[0].v;
        for (int t = 0; t < 4 && want < r.names.size() && x.v != want; t++) x = random_ask(rng, r, rd);
        g.push_back(x);
    }
    return g;
}
std::string describe(const CDMReader_p& rd)
{
    std::ostringstream o;
    rd->getCDM().toXMLStream(o);
    return o.str();
}
std::string diff_line(const std::string& a, const std::string& b)
{
    std::istringstream x(a), y(b);
    std::string p, q;
    for (;;) {
        const bool m = bool(std::getline(x, p)), n = bool(std::getline(y, q));
        if (!m && !n) return "no difference";
        if (!m) p = "(end)";
        if (!n) q = "(end)";
        if (p != q) return "'" + q + "' instead of '" + p + "'";
    }
}
struct Case { Geo g; std::shared_ptr<Geo> second; Pipe p; bool file = false, nc4 = false; std::string path; };
Case make_case(Rng& rng, int max_stages, int id = 0)
{
    Case c;
    c.g = random_geo(rng);
    c.p = random_pipe(rng, c.g, max_stages);
    c.second = std::make_shared<Geo>(c.g);
    // inner dataset of a merge: other values on a part of the grid
    for (auto& v : c.second->spec.vars)
        if (v.shape.size() > 1) for (auto& x : v.fixed) if (!(v.has_fill && x == v.fill)) x = quantise(v.type, x * 1.25);
    if (c.p.text.find("accumulate") != std::string::npos) loose = true;
    c.file = rng.chance(1, 3);
    if (c.file) {
        Quiet q;
        c.path = scratch + "psrc" + std::to_string(id) + ".nc";
        c.nc4 = rng.chance(1, 2);
        write_nc(c.path, c.g.spec, c.nc4);
    }
    return c;
}
CDMReader_p source(const Case& c) { return c.file ? open_reader("netcdf", c.path) : CDMReader_p(std::make_shared<ModelReader>(c.g.spec)); }
} // namespace

// one caller, parallel work inside the library
SIM_SCENARIO(S03, teams, 4)
{
    Case c = make_case(rng, 3);
    const int n = rng.range(2, 4);
    sample("%s grid=%d vert=%d %zux%zux%zux%zu %s threads=%d", c.p.text.c_str(), c.g.grid, c.g.vert, c.g.nx, c.g.ny, c.g.nz, c.g.nt, c.file ? "file" : "model", n);
    Ref ref;
    std::string want;
    {
        Quiet q;
        Outcome o = attempt([&] { ref = reference(open_pipe(source(c), c.p, c.second)); });
        if (o.threw) want = o.what;
    }
    set_omp_threads(n);
    probe(want.empty() ? "computed" : "rejected");
    Outcome o = attempt([&] {
        CDMReader_p rd = open_pipe(source(c), c.p, c.second);
        for (size_t i = 0; i < ref.names.size(); i++)
            for (size_t t = 0; t < ref.data[i].size(); t++) {
                std::string e;
                if (!same(get(rd, ref.names[i], t), ref.data[i][t], e)) violation("schedule-dependent", "%s at %zu: %s", ref.names[i].c_str(), t, e.c_str());
            }
    });
    if (o.threw != !want.empty()) violation("schedule-dependent", o.threw ? "processing failed only with several threads: %s" : "processing fails only sequentially: %s", (o.threw ? o.what : want).c_str());
    for (auto& v : ref.rejected) {
        probe("variable-rejected");
        o = attempt([&] { CDMReader_p rd = open_pipe(source(c), c.p, c.second); for (size_t t = 0; t < steps(rd, v); t++) get(rd, v, t); });
        if (!o.threw) violation("schedule-dependent", "%s can only be computed by several threads", v.c_str());
    }
    for (auto& d : ref.data) for (auto& s : d) note(s);
}
// several callers share the processed reader
SIM_SCENARIO(S03, callers, 4)
{
    Case c = make_case(rng, 2);
    const int nt = rng.range(2, 3);
    set_omp_threads(rng.range(1, 2));
    sample("%s grid=%d vert=%d %zux%zux%zux%zu %s callers=%d", c.p.text.c_str(), c.g.grid, c.g.vert, c.g.nx, c.g.ny, c.g.nz, c.g.nt, c.file ? "file" : "model", nt);
    Ref ref;
    CDMReader_p rd, seq;
    {
        Quiet q;
        Outcome o = attempt([&] { ref = reference(seq = open_pipe(source(c), c.p, c.second)); rd = open_pipe(source(c), c.p, c.second); });
        if (o.threw || ref.names.empty()) { probe("rejected"); return; }
    }
    std::vector<Ask> before;
    for (int k = 0; k < nt; k++) {
        std::vector<Ask> todo;
        {
            Quiet q;
            todo = random_asks(rng, ref, seq, 2, 6, &before);
            before = todo;
        }
        if (rng.chance(1, 2)) std::sort(todo.begin(), todo.end(), [](const Ask& a, const Ask& b) { return a.v < b.v || (a.v == b.v && a.pos < b.pos); });
        spawn([&, todo, k] {
            Outcome o = attempt([&] {
                for (auto& w : todo) {
                    std::string e;
                    if (!same(answer(rd, ref, w), expected(ref, w), e)) violation("schedule-dependent", "caller %d, %s: %s", k, ask_text(ref, w).c_str(), e.c_str());
                }
            });
            if (o.threw) violation("schedule-dependent", "caller %d: processing failed: %s", k, o.what.c_str());
        });
    }
    join_all();
}
// several callers, each builds a chain of its own and reads from it
SIM_SCENARIO(S03, builders, 3)
{
    const int nt = rng.range(2, 3);
    struct Own { Case c; Ref ref; std::string want; std::vector<Ask> todo; };
    std::vector<Own> w(nt);
    std::string tx;
    for (int k = 0; k < nt; k++) {
        Own& o = w[k];
        if (k && rng.chance(1, 3)) o.c = w[0].c;
        else o.c = make_case(rng, 2, k);
        tx += (k ? " | " : "") + o.c.p.text;
        Quiet q;
        CDMReader_p seq;
        Outcome oc = attempt([&] { o.ref = reference(seq = open_pipe(source(o.c), o.c.p, o.c.second)); });
        if (oc.threw) o.want = oc.what.empty() ? "?" : oc.what;
        else if (!o.ref.names.empty())
            for (int j = rng.range(1, 4); j > 0; j--) o.todo.push_back(random_ask(rng, o.ref, seq));
    }
    set_omp_threads(rng.range(1, 2));
    sample("%d builders: %s", nt, tx.c_str());
    for (int k = 0; k < nt; k++)
        spawn([&, k] {
            const Own& u = w[k];
            probe(u.want.empty() ? "computed" : "rejected");
            Outcome o = attempt([&] {
                CDMReader_p rd = open_pipe(source(u.c), u.c.p, u.c.second);
                for (auto& x : u.todo) {
                    std::string e;
                    if (!same(answer(rd, u.ref, x), expected(u.ref, x), e)) violation("schedule-dependent", "builder %d, %s: %s", k, ask_text(u.ref, x).c_str(), e.c_str());
                }
            });
            if (o.threw && u.want.empty()) violation("schedule-dependent", "builder %d: fails only when others work: %s", k, o.what.c_str());
            if (!o.threw && !u.want.empty() && u.todo.empty() && u.ref.names.empty()) probe("accepted");
        });
    join_all();
}
// the parallel writer on top of a processed reader
SIM_SCENARIO(S03, written, 3)
{
    Case c = make_case(rng, 2);
    const int n = rng.range(2, 4);
    sample("%s grid=%d vert=%d %zux%zux%zux%zu %s, written by %d threads", c.p.text.c_str(), c.g.grid, c.g.vert, c.g.nx, c.g.ny, c.g.nz, c.g.nt, c.file ? "file" : "model", n);
    CDMReader_p rd;
    Outcome o;
    const char* type = rng.chance(1, 2) ? "nc3" : "nc4";
    {
        Quiet q;
        o = attempt([&] { CDMFileReaderFactory::createWriter(open_pipe(source(c), c.p, c.second), type, scratch + "ref.nc"); rd = open_pipe(source(c), c.p, c.second); });
        if (o.threw) { probe("rejected"); return; }
    }
    set_omp_threads(n);
    if (rng.chance(1, 5)) {
        o = attempt([&] { Null_CDMWriter w(rd, ""); });
        if (o.threw) violation("schedule-dependent", "reading everything failed only with several threads: %s", o.what.c_str());
    }
    o = attempt([&] { CDMFileReaderFactory::createWriter(rd, type, scratch + "out.nc"); });
    if (o.threw) violation("schedule-dependent", "writing failed only with several threads: %s", o.what.c_str());
    Quiet q;
    NcOpen a(scratch + "ref.nc"), b(scratch + "out.nc");
    for (auto& v : rd->getCDM().getVariables()) {
        if (v.getDataType() == CDM_STRING || v.getDataType() == CDM_CHAR) continue;
        NcVarData x, y;
        if (a.get(v.getName(), x) || b.get(v.getName(), y)) violation("wrong-output", "%s is not readable", v.getName().c_str());
        std::string e;
        if (x.dims != y.dims || x.type != y.type) violation("wrong-output", "%s has another shape or type", v.getName().c_str());
        if (!same(y.v, x.v, e)) violation("wrong-output", "%s: %s", v.getName().c_str(), e.c_str());
        note(y.v);
    }
}

// processing on top of a failing source: every request is answered with an error or with the same data as without faults (S08);
// what has failed once does not stay broken (S10)
static void faulty_pipe(Rng& rng, bool recover)
{
    Case c = make_case(rng, 2);
    const int nt = rng.range(1, 3);
    set_omp_threads(rng.range(1, 3));
    Ref ref;
    std::string text;
    OpCount n;
    std::vector<Ask> todo[3], again;
    {
        Quiet q;
        Outcome o = attempt([&] {
            CDMReader_p rd = open_pipe(source(c), c.p, c.second);
            text = describe(rd);
            ref = reference(rd);
            if (ref.names.empty()) return;
            for (int k = 0; k < nt; k++) todo[k] = random_asks(rng, ref, rd, 2, 5, k ? &todo[k - 1] : nullptr);
            for (int j = rng.range(1, 4); j > 0; j--) again.push_back(random_ask(rng, ref, rd));
        });
        if (o.threw || ref.names.empty()) { probe("rejected"); return; }
    }
    n = rehearse([&] {
        CDMReader_p rd = open_pipe(source(c), c.p, c.second);
        for (int k = 0; k < nt; k++) for (auto& w : todo[k]) answer(rd, ref, w);
    });
    std::vector<FaultKindOpt> kinds = {{F_UPSTREAM_THROW, 8}, {F_ALLOC, 8}, {F_LIB_FAIL, 4}};
    if (!c.nc4) kinds.push_back({F_READ_EIO, 4});
    auto fs = draw_faults(rng, n, kinds, 3);
    sample("%s grid=%d vert=%d %s callers=%d threads=%d faults: %s", c.p.text.c_str(), c.g.grid, c.g.vert, c.file ? "file" : "model", nt, omp_threads(), fault_text(fs).c_str());
    use_faults(fs);
    {
        CDMReader_p rd;
        arm_faults(true);
        Outcome o = attempt([&] { rd = open_pipe(source(c), c.p, c.second); });
        if (o.threw) probe("open-reported");
        else {
            {
                NoFaults nf;
                const std::string d = describe(rd);
                if (d != text) violation("wrong-data", "opened in spite of faults (%s), but it is another dataset: %s", fault_text(fs).c_str(), diff_line(text, d).c_str());
            }
            for (int k = 0; k < nt; k++)
                spawn([&, k] {
                    for (auto& w : todo[k]) {
                        Outcome od = attempt([&] {
                            auto got = answer(rd, ref, w);
                            std::string e;
                            if (!same(got, expected(ref, w), e)) violation("wrong-data", "%s, caller %d, faults %s: %s: %s", c.p.text.c_str(), k, fault_text(fs).c_str(), ask_text(ref, w).c_str(), e.c_str());
                        });
                        probe(od.threw ? "read-reported" : "read-exact");
                    }
                });
            join_all();
        }
        arm_faults(false);
        std::string l = held_locks();
        if (!l.empty()) violation("lock-left", "after failed processing: still locked: %s", l.c_str());
        if (rd)
            for (auto& w : again) {
                std::string e;
                std::vector<double> got;
                Outcome od = attempt([&] { got = answer(rd, ref, w); });
                if (od.threw && recover && !c.file) violation("not-recovered", "%s: the reader keeps failing after the fault is over: %s", c.p.text.c_str(), od.what.c_str());
                if (!od.threw && !same(got, expected(ref, w), e)) violation("wrong-data", "%s, after faults %s: %s: %s", c.p.text.c_str(), fault_text(fs).c_str(), ask_text(ref, w).c_str(), e.c_str());
                probe(od.threw ? "same-reader-fails" : "same-reader-works");
            }
    }
    if (!recover) return;
    Outcome oc = attempt([&] {
        CDMReader_p rd = open_pipe(source(c), c.p, c.second);
        for (auto& w : again) {
            std::string e;
            if (!same(answer(rd, ref, w), expected(ref, w), e)) violation("wrong-data", "%s, new reader after failed processing: %s", c.p.text.c_str(), e.c_str());
        }
    });
    if (oc.threw) violation("not-recovered", "%s: processing again after the fault is over fails: %s", c.p.text.c_str(), oc.what.c_str());
}
SIM_SCENARIO(S08, pipelines, 3) { faulty_pipe(rng, false); }
SIM_SCENARIO(S10, pipelines, 2) { faulty_pipe(rng, true); }

#include "mix.h"
hs::MixJob hs::mix_pipe(Rng& rng, const std::string& id)
{
    auto c = std::make_shared<Case>(make_case(rng, 2, atoi(id.c_str())));
    auto ref = std::make_shared<Ref>();
    CDMReader_p seq;
    Outcome o = attempt([&] { *ref = reference(seq = open_pipe(source(*c), c->p, c->second)); });
    if (o.threw) return {"rejected pipe", [c] { attempt([&] { open_pipe(source(*c), c->p, c->second); }); }};
    std::vector<Ask> todo;
    if (!ref->names.empty())
        for (int j = rng.range(1, 3); j > 0; j--) todo.push_back(random_ask(rng, *ref, seq));
    return {c->p.text, [c, ref, todo] {
                CDMReader_p rd = open_pipe(source(*c), c->p, c->second);
                for (auto& x : todo) {
                    std::string e;
                    if (!same(answer(rd, *ref, x), expected(*ref, x), e)) violation("wrong-data", "%s, %s: %s", c->p.text.c_str(), ask_text(*ref, x).c_str(), e.c_str());
                }
            }};
}
