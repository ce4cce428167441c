// Scenarios around writing NetCDF files.
#include "view.h"
#include <cmath>
using namespace hs;
using namespace sim;

SIM_SCENARIO(S01, write_one, 3)
{
    WriterCfg w = random_writer(rng);
    SpecOpt o;
    o.nc3 = w.nc3;
    o.atts = o.strings = true;
    o.lost = rng.chance(1, 3);
    Spec s = random_spec(rng, o);
    set_omp_threads(rng.range(2, 4));
    auto rd = std::make_shared<ModelReader>(s);
    std::string out = scratch + "out.nc";
    sample("%s %s threads=%d cfg=%d", w.type.c_str(), s.text().c_str(), omp_threads(), int(!w.xml.empty()));
    Outcome oc = attempt([&] { run_writer(rd, w, out); });
    if (oc.threw) violation("unexpected-error", "writing failed without any fault: %s", oc.what.c_str());
    Quiet q;
    std::string e = check_nc(out, s);
    if (!e.empty()) violation("wrong-output", "%s", e.c_str());
}

// writer configuration changing what is written: removed and renamed variables, dimensions and attributes, changed types, packing and units
static void set_att(std::vector<Att>& as, const Att& a)
{
    for (auto& x : as) if (x.name == a.name) { x = a; return; }
    as.push_back(a);
}
static bool del_att(std::vector<Att>& as, const std::string& n)
{
    for (size_t i = 0; i < as.size(); i++) if (as[i].name == n) { as.erase(as.begin() + i); return true; }
    return false;
}
static std::string num(double d)
{
    char t[40];
    snprintf(t, sizeof t, "%.17g", d);
    return t;
}
static void configure(Rng& r, WriterCfg& w, View& v)
{
    std::string body;
    size_t left = v.vars.size();
    for (size_t i = 0; i < v.vars.size(); i++) {
        MVar& m = v.vars[i];
        if (m.name[0] != 'v') continue;
        if (left > 2 && r.chance(1, 8)) {
            body += "<remove type=\"variable\" name=\"" + m.name + "\"/>";
            v.vars.erase(v.vars.begin() + i--);
            left--;
            continue;
        }
        const bool numeric = m.type == CDM_SHORT || m.type == CDM_INT || m.type == CDM_FLOAT || m.type == CDM_DOUBLE;
        std::string att, in;
        const std::string old = m.name;
        auto put = [&](const std::string& n, CDMDataType t, double val) {
            in += "<attribute name=\"" + n + "\" type=\"" + datatype2string(t) + "\" value=\"" + num(val) + "\"/>";
            set_att(m.atts, {n, t, {t == CDM_FLOAT ? double(float(val)) : val}, ""});
        };
        const int what = r.range(0, 4);
        if (numeric && what <= 2) {
            // values as numbers, with the missing ones apart
            const double os = m.scale, oo = m.offset, of = m.fill;
            std::vector<double> x = m.data;
            std::vector<char> gone(x.size(), 0);
            double big = 1;
            bool unit = (m.units == "K" || m.units == "m") && r.chance(1, 2);
            const bool k = m.units == "K";
            for (size_t j = 0; j < x.size(); j++) {
                if (m.has_fill && x[j] == of) { gone[j] = 1; continue; }
                x[j] = x[j] * os + oo;
                if (unit) x[j] = k ? x[j] - 273.15 : x[j] / 1000;
                big = std::max(big, std::fabs(x[j]));
            }
            const bool keep = what == 2; // same type and packing, another missing value
            if (keep && (!m.has_fill || unit)) continue;
            CDMDataType nt = keep ? m.type : what == 0 ? CDM_DOUBLE : r.chance(1, 2) ? CDM_SHORT : CDM_INT;
            if (nt != m.type) att += std::string(" type=\"") + datatype2string(nt) + "\"";
            if (unit) {
                m.units = k ? "degC" : "km";
                in += "<attribute name=\"units\" type=\"string\" value=\"" + m.units + "\"/>";
                set_att(m.atts, {"units", CDM_STRING, {}, m.units});
                m.converted = true;
            }
            if (!keep) {
                const bool pack = what == 1;
                double ns = 1, no = 0;
                if (pack) {
                    no = r.chance(1, 2) ? 0 : 12;
                    ns = std::pow(2, std::ceil(std::log2((big + no) / 9000))) * (r.chance(1, 2) ? 1 : 1.5);
                    put("scale_factor", CDM_DOUBLE, ns);
                    if (no != 0 || oo != 0) put("add_offset", CDM_DOUBLE, no);
                    m.rounded = true;
                } else {
                    if (del_att(m.atts, "scale_factor")) in += "<remove type=\"attribute\" name=\"scale_factor\"/>";
                    if (del_att(m.atts, "add_offset")) in += "<remove type=\"attribute\" name=\"add_offset\"/>";
                    m.converted = true;
                }
                for (size_t j = 0; j < x.size(); j++) x[j] = (x[j] - no) / ns;
                m.scale = ns;
                m.offset = no;
            } else x = m.data;
            if (m.has_fill) {
                m.fill = nt == CDM_SHORT ? -32000 : nt == CDM_INT ? -2000000000.0 : -1e9;
                put("_FillValue", nt, m.fill);
                if (nt == CDM_FLOAT) m.fill = double(float(m.fill));
            }
            for (size_t j = 0; j < x.size(); j++) m.data[j] = gone[j] ? m.fill : x[j];
            m.type = nt;
        }
        if (r.chance(1, 6)) { // other attributes
            const int c = r.range(0, 2);
            if (c == 0 && del_att(m.atts, "long_name")) in += "<remove type=\"attribute\" name=\"long_name\"/>";
            else if (c == 1) {
                in += "<attribute name=\"comment\" type=\"string\" value=\"by the writer\"/>";
                set_att(m.atts, {"comment", CDM_STRING, {}, "by the writer"});
            } else if (c == 2)
                for (auto& a : m.atts)
                    if (a.name == "long_name") { a.name = "title"; in += "<attribute name=\"long_name\" newname=\"title\"/>"; break; }
        }
        if (r.chance(1, 8)) {
            m.name = "new_" + old;
            att += " newname=\"" + m.name + "\"";
        }
        if (!att.empty() || !in.empty()) body += "<variable name=\"" + old + "\"" + att + ">" + in + "</variable>";
    }
    if (r.chance(1, 6)) {
        body += "<attribute name=\"history\" type=\"string\" value=\"written\"/>";
        set_att(v.atts, {"history", CDM_STRING, {}, "written"});
    }
    if (!v.atts.empty() && r.chance(1, 6)) {
        const std::string n = v.atts[r.below(v.atts.size())].name;
        if (n != "history" && del_att(v.atts, n)) body += "<remove type=\"attribute\" name=\"" + n + "\"/>";
    }
    auto dims = v.dims();
    if (!dims.empty() && r.chance(1, 5)) { // the coordinate variable follows
        const std::string d = dims[r.below(dims.size())], nd = "new_" + d;
        body += "<dimension name=\"" + d + "\" newname=\"" + nd + "\"/>";
        for (auto& m : v.vars) {
            if (m.name == d) m.name = nd;
            for (auto& q : m.shape) if (q == d) q = nd;
        }
        if (v.unlim == d) v.unlim = nd;
    }
    if (body.empty()) return;
    if (w.xml.empty()) w.xml = "<?xml version=\"1.0\"?>\n<cdm_ncwriter_config></cdm_ncwriter_config>";
    w.xml.insert(w.xml.rfind("</cdm_ncwriter_config>"), body);
}

struct Job { ChainPlan plan; WriterCfg w; View out; };
static Job random_job(Rng& rng, bool file)
{
    Job j;
    j.w = random_writer(rng);
    SrcOpt o;
    o.file = file;
    o.spec.nc3 = j.w.nc3;
    o.spec.max_len = 4;
    o.spec.atts = o.spec.strings = true;
    j.plan = plan_chain(rng, o);
    j.out = j.plan.view;
    configure(rng, j.w, j.out);
    return j;
}

SIM_SCENARIO(S01, write_chain, 2)
{
    Job j = random_job(rng, rng.chance(1, 2));
    set_omp_threads(rng.range(2, 4));
    sample("%s of %s", j.w.type.c_str(), j.plan.text.c_str());
    std::string out = scratch + "out.nc";
    Outcome oc = attempt([&] {
        Chain c = open_chain(j.plan);
        run_writer(c.rd, j.w, out);
    });
    if (oc.threw) violation("unexpected-error", "writing failed without any fault: %s", oc.what.c_str());
    Quiet q;
    std::string e = check_nc(out, j.out);
    if (!e.empty()) violation("wrong-output", "%s; writer configuration %s", e.c_str(), j.w.xml.c_str());
}

// several files written at the same time, other files read meanwhile
SIM_SCENARIO(S01, write_many, 2)
{
    const bool same_source = rng.chance(1, 3);
    const int nw = rng.range(1, 3), nr = nw == 1 ? 1 : rng.range(0, 1);
    std::vector<Job> js;
    js.push_back(random_job(rng, rng.chance(2, 3)));
    for (int i = 1; i < nw; i++) {
        if (same_source) {
            Job k = js[0];
            k.w = random_writer(rng);
            if (js[0].w.nc3) { // the types fit any format
            } else k.w.type = "nc4", k.w.nc3 = false, k.w.xml = "";
            k.out = k.plan.view;
            configure(rng, k.w, k.out);
            js.push_back(k);
        } else js.push_back(random_job(rng, rng.chance(2, 3)));
    }
    SrcOpt ro;
    ro.file = true;
    ChainPlan rp = same_source ? js[0].plan : plan_chain(rng, ro);
    std::vector<Get> gs;
    for (int k = rng.range(1, 4); k > 0; k--) gs.push_back(random_get(rng, rp.view));
    set_omp_threads(rng.range(1, 3));
    sample("%d writers, %d readers, same source %d: %s of %s", nw, nr, int(same_source), js[0].w.type.c_str(), js[0].plan.text.c_str());
    Chain shared;
    if (same_source) shared = open_chain(js[0].plan);
    for (int i = 0; i < nw; i++)
        spawn([&, i] {
            Outcome oc = attempt([&] {
                Chain c = same_source ? shared : open_chain(js[i].plan);
                run_writer(c.rd, js[i].w, scratch + "out" + std::to_string(i) + ".nc");
            });
            if (oc.threw) violation("unexpected-error", "writer %d failed without any fault: %s", i, oc.what.c_str());
        });
    for (int i = 0; i < nr; i++)
        spawn([&] {
            Outcome oc = attempt([&] {
                Chain c = same_source ? shared : open_chain(rp);
                for (auto& g : gs) {
                    std::string e = check_get(c.rd, rp.view, g);
                    if (!e.empty()) violation("wrong-data", "reading while writing: %s", e.c_str());
                }
            });
            if (oc.threw) violation("unexpected-error", "reading failed without any fault: %s", oc.what.c_str());
        });
    join_all();
    Quiet q;
    for (int i = 0; i < nw; i++) {
        std::string e = check_nc(scratch + "out" + std::to_string(i) + ".nc", js[i].out);
        if (!e.empty()) violation("wrong-output", "file %d of %d: %s; writer configuration %s", i, nw, e.c_str(), js[i].w.xml.c_str());
    }
}

static const std::vector<FaultKindOpt> write_faults = {{F_WRITE_ENOSPC, 4}, {F_WRITE_EIO, 3}, {F_UPSTREAM_THROW, 3}, {F_OPEN_FAIL, 1}, {F_TRUNC_FAIL, 1}, {F_SYNC_FAIL, 1}, {F_CLOSE_FAIL, 1}, {F_READ_EIO, 1}, {F_LIB_FAIL, 5}};

SIM_SCENARIO(S06, write_fault, 3)
{
    WriterCfg w = random_writer(rng);
    SpecOpt o;
    o.nc3 = w.nc3;
    Spec s = random_spec(rng, o);
    set_omp_threads(rng.range(1, 3));
    auto rd = std::make_shared<ModelReader>(s);
    OpCount c = rehearse([&] { run_writer(rd, w, scratch + "dry.nc"); });
    std::string out = scratch + "out.nc";
    auto fs = draw_faults(rng, c, write_faults);
    sample("%s %s threads=%d faults: %s", w.type.c_str(), s.text().c_str(), omp_threads(), fault_text(fs).c_str());
    use_faults(fs);
    arm_faults(true);
    Outcome oc = attempt([&] { run_writer(rd, w, out); });
    arm_faults(false);
    probe(oc.threw ? "reported" : "succeeded");
    if (!oc.threw) {
        if (rd->failures) violation("silent-loss", "write reported success although the source failed %d times", rd->failures);
        Quiet q;
        std::string e = check_nc(out, s);
        if (!e.empty()) violation("silent-loss", "write reported success after faults (%s) but %s", fault_text(fs).c_str(), e.c_str());
    }
}
