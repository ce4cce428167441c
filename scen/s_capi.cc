// The C interface: whatever happens inside, the caller gets a return code, and data only if it is right.
#include "geo.h"
#include "view.h"
#include "fimex/c_fimex.h"
#include "fimex/CDMconstants.h"
#include "fimex/mifi_constants.h"
#include <algorithm>
#include <cmath>
#include <cstring>
using namespace hs;
using namespace sim;

namespace {
int times_two(mifi_cdm_reader*, const char*, size_t, double* data, size_t n)
{
    for (size_t i = 0; i < n; i++) data[i] *= 2;
    return 0;
}
int fails(mifi_cdm_reader*, const char*, size_t, double*, size_t) { return 7; }

struct CSrc { Spec s; View v; std::string file; bool nc4; int grid = -1; };
struct Op { int kind; Get g; int a = 0, b = 0; };
enum { C_DATA, C_SLICE, C_FILL, C_META, C_BADVAR, C_BADDIM, C_BADUNIT, C_WRITE, C_CALLBACK, C_NCML, C_LONLAT, C_RW, C_KINDS };
const char* const opname[] = {"data", "slice", "fill", "meta", "bad-variable", "bad-dimension", "bad-unit", "write", "callback", "ncml", "lonlat", "rw"};
} // namespace

// a call into the C interface; nothing may be thrown through it
#define CALL(fn_, ...)                                                                                                     \
    do {                                                                                                                    \
        Outcome oc_ = attempt([&] { __VA_ARGS__; });                                                                        \
        if (oc_.threw) violation("exception-escapes", "%s lets an exception out of the C interface: %s", fn_, oc_.what.c_str()); \
    } while (0)

static void c_interface(Rng& rng, bool faulty)
{
    const int ns = rng.range(1, 2);
    std::vector<CSrc> src(ns);
    for (int i = 0; i < ns; i++) {
        CSrc& c = src[i];
        if (rng.chance(1, 2)) {
            GeoOpt o;
            o.grid = rng.range(0, 2);
            Geo g = random_geo(rng, o);
            c.s = g.spec;
            c.grid = g.grid;
        } else {
            SpecOpt o;
            o.nc3 = true;
            o.min_unlim = 1;
            c.s = random_spec(rng, o);
        }
        c.v = view_of(c.s);
        c.nc4 = rng.chance(1, 3);
        c.file = scratch + "c" + std::to_string(i) + ".nc";
        write_nc(c.file, c.s, c.nc4);
    }
    write_file(scratch + "mod.ncml", "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><attribute name=\"extra\" type=\"String\" value=\"yes\"/></netcdf>");
    std::set<std::string> nc4;
    for (auto& c : src) if (c.nc4) nc4.insert(c.file);
    set_fault_filter([nc4](const std::string& f) { return !nc4.count(f); });
    const int nt = rng.range(1, 3);
    struct Job { int src; bool own; std::vector<Op> ops; };
    std::vector<Job> jobs;
    for (int t = 0; t < nt; t++) {
        Job j;
        j.src = int(rng.below(ns));
        j.own = rng.chance(1, 2);
        for (int k = rng.range(2, 6); k > 0; k--) {
            Op o;
            o.kind = rng.chance(1, 2) ? rng.range(C_DATA, C_FILL) : rng.range(0, C_KINDS - 1);
            o.g = random_get(rng, src[j.src].v);
            o.a = int(rng.below(1000));
            o.b = t * 10 + k;
            j.ops.push_back(o);
        }
        if (t && jobs[0].src == j.src && rng.chance(1, 4)) { // all ask for the same
            j.ops = jobs[0].ops;
            for (size_t k = 0; k < j.ops.size(); k++) j.ops[k].b = t * 10 + int(k);
        }
        jobs.push_back(j);
    }
    std::vector<mifi_cdm_reader*> shared(ns, nullptr);
    auto open = [&](const CSrc& c) {
        mifi_cdm_reader* r = nullptr;
        CALL("mifi_new_io_reader", r = mifi_new_io_reader("netcdf", c.file.c_str(), ""));
        return r;
    };
    bool quiet_phase = false; // no faults any more
    auto fail = [&](const char* fn, const std::string& d) {
        probe("error_code");
        if (!faulty || quiet_phase) violation("unexpected-error", "%s fails without any fault (%s)", fn, d.c_str());
    };
    auto compare = [&](const char* fn, const View& v, Get g, const double* p, size_t n, double factor) {
        double tol;
        std::vector<double> want = expect_get(v, g, &tol), got(p, p + n);
        for (auto& w : want) w *= factor;
        std::string e = compare_values(get_text(g), got, want, std::max(tol, 1e-12));
        if (!e.empty()) violation("wrong-data", "%s: %s", fn, e.c_str());
        probe("reads");
    };
    auto work = [&](const Job& j, bool check) {
        const CSrc& c = src[j.src];
        mifi_cdm_reader* r = shared[j.src];
        if (j.own) {
            r = open(c);
            if (!r) {
                if (check) fail("mifi_new_io_reader", c.file);
                return;
            }
        }
        for (auto& o : j.ops) {
            const Get& g = o.g;
            const MVar& v = *c.v.var(g.var);
            const bool has_unlim = v.axis(c.v.unlim) >= 0 && !c.v.unlim.empty();
            switch (o.kind) {
            case C_DATA:
            case C_SLICE: {
                double* d = nullptr;
                size_t n = 0;
                int rc = 0;
                Get h = g;
                h.kind = 3;
                if (o.kind == C_SLICE && has_unlim && c.v.unlim_len()) {
                    h.kind = 4;
                    h.pos = size_t(o.a) % c.v.unlim_len();
                    CALL("mifi_get_double_dataslice", rc = mifi_get_double_dataslice(r, g.var.c_str(), h.pos, &d, &n));
                } else
                    CALL("mifi_get_double_data", rc = mifi_get_double_data(r, g.var.c_str(), &d, &n));
                if (rc) { if (check) fail("mifi_get_double_data", g.var); }
                else if (check) compare("mifi_get_double_data", c.v, h, d, n, 1);
                free(d);
                break;
            }
            case C_FILL:
            case C_BADDIM:
            case C_BADUNIT: {
                mifi_slicebuilder* sb = nullptr;
                CALL("mifi_new_slicebuilder", sb = mifi_new_slicebuilder(r, g.var.c_str()));
                if (!sb) { if (check) fail("mifi_new_slicebuilder", g.var); break; }
                std::vector<size_t> start, size;
                bool err = false;
                for (size_t k = 0; k < v.shape.size(); k++) {
                    const size_t len = v.sizes[k], s0 = len ? size_t(o.a * 7 + k * 3) % len : 0, n = len ? 1 + size_t(o.a + k) % (len - s0) : 0;
                    start.push_back(s0), size.push_back(n);
                    int rc = 0;
                    CALL("mifi_slicebuilder_set_dim_start_size", rc = mifi_slicebuilder_set_dim_start_size(sb, v.shape[k].c_str(), unsigned(s0), unsigned(n)));
                    if (rc) { if (check) fail("mifi_slicebuilder_set_dim_start_size", v.shape[k]); err = true; }
                }
                if (o.kind == C_BADDIM && !v.shape.empty()) {
                    int rc = 0;
                    CALL("mifi_slicebuilder_set_dim_start_size", rc = mifi_slicebuilder_set_dim_start_size(sb, v.shape[0].c_str(), unsigned(v.sizes[0]), 2));
                    if (rc == 0) violation("accepted", "mifi_slicebuilder_set_dim_start_size accepts a range outside of dimension %s", v.shape[0].c_str());
                    CALL("mifi_slicebuilder_set_dim_start_size", rc = mifi_slicebuilder_set_dim_start_size(sb, "no_such_dimension", 0, 1));
                    if (rc == 0) violation("accepted", "mifi_slicebuilder_set_dim_start_size accepts an unknown dimension");
                    const char* dn = "";
                    CALL("mifi_slicebuilder_dimname", dn = mifi_slicebuilder_dimname(sb, 99));
                    free((void*)dn);
                    probe("bad_requests", 3);
                }
                int nd = 0;
                CALL("mifi_slicebuilder_ndims", nd = mifi_slicebuilder_ndims(sb));
                if (nd != int(v.shape.size())) violation("wrong-data", "mifi_slicebuilder_ndims gives %d instead of %zu", nd, v.shape.size());
                int cs = 0;
                CALL("mifi_slicebuilder_has_CS", cs = mifi_slicebuilder_has_CS(sb));
                const bool field = c.grid >= 0 && v.shape.size() > 1 && v.shape[0] == "x" && c.s.var(v.name)->shape.back() == "time";
                if (field && c.grid < 2 && cs != 1 && !faulty) violation("wrong-data", "mifi_slicebuilder_has_CS finds no coordinate system for %s", v.name.c_str());
                {
                    std::vector<int> ty(nd + 1, 4711);
                    int rc = 0;
                    CALL("mifi_slicebuilder_get_axistype", rc = mifi_slicebuilder_get_axistype(sb, ty.data()));
                    if (cs == 0 && rc == 0) violation("accepted", "mifi_slicebuilder_get_axistype gives types without a coordinate system");
                    if (ty[nd] != 4711) violation("wrong-data", "mifi_slicebuilder_get_axistype writes behind the array");
                    if (cs && rc == 0 && field && c.grid < 2 && check)
                        for (int k = 0; k < nd; k++) {
                            const int w = v.shape[k] == "time" ? 4 : v.shape[k] == "x" ? (c.grid ? 1 : 5) : v.shape[k] == "y" ? (c.grid ? 2 : 6) : ty[k];
                            if (ty[k] != w) violation("wrong-data", "mifi_slicebuilder_get_axistype gives %d instead of %d for %s", ty[k], w, v.shape[k].c_str());
                        }
                    if (cs && rc && check && field && c.grid < 2) fail("mifi_slicebuilder_get_axistype", v.name);
                    const char* pj = nullptr;
                    CALL("mifi_slicebuilder_get_proj4", pj = mifi_slicebuilder_get_proj4(sb));
                    const std::string pt = pj ? pj : "";
                    free((void*)pj);
                    if (field && cs && c.grid < 2 && !faulty && pt.find(c.grid ? "+proj=stere" : "+proj=longlat") == std::string::npos && pt.find(c.grid ? "+proj=stere" : "+proj=latlong") == std::string::npos)
                        violation("wrong-data", "mifi_slicebuilder_get_proj4 gives %s", pt.c_str());
                    std::vector<char> b(pt.size() + 3, 'Q');
                    CALL("mifi_slicebuilder_get_proj4_cpy", rc = mifi_slicebuilder_get_proj4_cpy(sb, b.data(), int(pt.size()) + 1));
                    if (b[pt.size() + 1] != 'Q') violation("wrong-data", "mifi_slicebuilder_get_proj4_cpy writes behind the string");
                    if (!faulty && (pt != b.data() || rc != int(pt.size()) + 1)) violation("wrong-data", "mifi_slicebuilder_get_proj4_cpy gives %s", b.data());
                    if (!pt.empty()) {
                        b.assign(b.size(), 'Q');
                        CALL("mifi_slicebuilder_get_proj4_cpy", rc = mifi_slicebuilder_get_proj4_cpy(sb, b.data(), int(pt.size())));
                        if (b[pt.size()] != 'Q' || (!faulty && (rc != 0 || b[0]))) violation("wrong-data", "mifi_slicebuilder_get_proj4_cpy and a string which is too long");
                    }
                }
                for (int k = 0; k < nd; k++) {
                    char b[100];
                    CALL("mifi_slicebuilder_dimname_cpy", mifi_slicebuilder_dimname_cpy(sb, k, b, sizeof b));
                    if (v.shape[k] != b && !faulty) violation("wrong-data", "mifi_slicebuilder_dimname_cpy gives %s instead of %s", b, v.shape[k].c_str());
                }
                if (!err) {
                    std::vector<unsigned> s0(nd + 1, 77777), sz(nd + 1, 77777);
                    int rc = 0;
                    CALL("mifi_slicebuilder_get_start_size", rc = mifi_slicebuilder_get_start_size(sb, s0.data(), sz.data()));
                    if (rc) violation("wrong-data", "mifi_slicebuilder_get_start_size fails");
                    for (int k = 0; k < nd; k++)
                        if (s0[k] != start[k] || sz[k] != size[k]) violation("wrong-data", "mifi_slicebuilder_get_start_size gives %u+%u instead of %zu+%zu for %s", s0[k], sz[k], start[k], size[k], v.shape[k].c_str());
                    if (s0[nd] != 77777 || sz[nd] != 77777) violation("wrong-data", "mifi_slicebuilder_get_start_size writes behind the array");
                    CALL("mifi_slicebuilder_get_start_size", rc = mifi_slicebuilder_get_start_size(nullptr, s0.data(), sz.data()));
                    if (rc == 0) violation("accepted", "mifi_slicebuilder_get_start_size accepts no slicebuilder");
                }
                size_t cnt = 1;
                for (auto n : size) cnt *= n;
                if (!err && cnt) {
                    std::vector<double> buf(cnt + 2, 12345.5);
                    size_t n = 0;
                    int rc = 0;
                    Get h = g;
                    h.kind = 5;
                    h.start = start, h.size = size;
                    std::string unit = g.kind >= 6 ? g.unit : "";
                    if (g.kind >= 6) h.kind = 8, h.unit = g.unit;
                    if (o.kind == C_BADUNIT) unit = "no_such_unit_at_all";
                    CALL("mifi_fill_scaled_double_dataslice", rc = mifi_fill_scaled_double_dataslice(r, g.var.c_str(), sb, unit.c_str(), buf.data(), &n));
                    if (buf[cnt] != 12345.5) violation("wrong-data", "mifi_fill_scaled_double_dataslice writes behind the array");
                    if (o.kind == C_BADUNIT) {
                        if (rc == 0) violation("accepted", "mifi_fill_scaled_double_dataslice accepts a wrong unit");
                        probe("bad_requests");
                    } else if (rc) { if (check) fail("mifi_fill_scaled_double_dataslice", get_text(h)); }
                    else if (check) compare("mifi_fill_scaled_double_dataslice", c.v, h, buf.data(), n, 1);
                }
                CALL("mifi_free_slicebuilder", mifi_free_slicebuilder(sb));
                break;
            }
            case C_META: {
                size_t n = 0;
                CALL("mifi_get_variable_number", n = mifi_get_variable_number(r));
                if (n != c.s.vars.size()) violation("wrong-data", "mifi_get_variable_number gives %zu instead of %zu", n, c.s.vars.size());
                for (size_t k = 0; k < n; k++) {
                    const char* nm = nullptr;
                    CALL("mifi_get_variable_name", nm = mifi_get_variable_name(r, k));
                    if (!nm || !c.s.var(nm)) violation("wrong-data", "mifi_get_variable_name gives %s", nm ? nm : "nothing");
                }
                for (auto& d : c.s.dims) {
                    CALL("mifi_get_dimension_size", n = mifi_get_dimension_size(r, d.name.c_str()));
                    if (n != d.len) violation("wrong-data", "mifi_get_dimension_size(%s) gives %zu instead of %zu", d.name.c_str(), n, d.len);
                }
                CALL("mifi_get_dimension_number", n = mifi_get_dimension_number(r));
                if (n != c.s.dims.size()) violation("wrong-data", "mifi_get_dimension_number gives %zu instead of %zu", n, c.s.dims.size());
                for (size_t k = 0; k < n; k++) {
                    const char* nm = nullptr;
                    CALL("mifi_get_dimension_name", nm = mifi_get_dimension_name(r, k));
                    if (!nm || !c.s.dim(nm)) violation("wrong-data", "mifi_get_dimension_name gives %s", nm ? nm : "nothing");
                }
                for (auto& v2 : c.s.vars) {
                    int ty = -1;
                    CALL("mifi_get_variable_type", ty = int(mifi_get_variable_type(r, v2.name.c_str())));
                    if (ty != int(v2.type)) violation("wrong-data", "mifi_get_variable_type(%s) gives %d instead of %d", v2.name.c_str(), ty, int(v2.type));
                }
                const char* u = nullptr;
                CALL("mifi_get_unlimited_dimension_name", u = mifi_get_unlimited_dimension_name(r));
                if (!u || c.v.unlim != u) violation("wrong-data", "mifi_get_unlimited_dimension_name gives %s", u ? u : "nothing");
                double rt = 0;
                CALL("mifi_get_unique_forecast_reference_time", rt = mifi_get_unique_forecast_reference_time(r, "seconds since 1970-01-01"));
                (void)rt;
                break;
            }
            case C_BADVAR: {
                double *d = nullptr, rt = 0;
                size_t n = 0;
                int rc = 0;
                const char* nv = "no_such_variable";
                CALL("mifi_get_double_data", rc = mifi_get_double_data(r, nv, &d, &n));
                if (rc == 0) violation("accepted", "mifi_get_double_data accepts an unknown variable");
                CALL("mifi_get_double_dataslice", rc = mifi_get_double_dataslice(r, nv, 0, &d, &n));
                if (rc == 0) violation("accepted", "mifi_get_double_dataslice accepts an unknown variable");
                mifi_slicebuilder* sb = nullptr;
                CALL("mifi_new_slicebuilder", sb = mifi_new_slicebuilder(r, nv));
                if (sb) violation("accepted", "mifi_new_slicebuilder accepts an unknown variable");
                char* s = nullptr;
                CALL("mifi_get_var_longitude", s = mifi_get_var_longitude(r, nv));
                free(s);
                CALL("mifi_get_var_latitude", s = mifi_get_var_latitude(r, nv));
                free(s);
                char b[64];
                CALL("mifi_get_var_longitude_cpy", mifi_get_var_longitude_cpy(r, nv, b, sizeof b));
                CALL("mifi_get_variable_name", mifi_get_variable_name(r, 9999));
                CALL("mifi_get_dimension_name", mifi_get_dimension_name(r, 9999));
                CALL("mifi_get_dimension_size", n = mifi_get_dimension_size(r, nv));
                unsigned ty = 0;
                CALL("mifi_get_variable_type", ty = mifi_get_variable_type(r, nv));
                CALL("mifi_get_unique_forecast_reference_time", rt = mifi_get_unique_forecast_reference_time(r, "not a time unit"));
                if (has_unlim) {
                    CALL("mifi_get_double_dataslice", rc = mifi_get_double_dataslice(r, g.var.c_str(), c.v.unlim_len() + 3, &d, &n));
                    if (rc == 0) violation("accepted", "mifi_get_double_dataslice accepts a position behind the end");
                }
                CALL("mifi_new_slicebuilder", sb = mifi_new_slicebuilder(r, g.var.c_str()));
                if (sb) {
                    std::vector<double> w(v.count() + 1, 1.);
                    CALL("mifi_write_scaled_double_dataslice", rc = mifi_write_scaled_double_dataslice(r, g.var.c_str(), sb, "", w.data(), v.count()));
                    if (rc == 0 && v.count()) violation("accepted", "mifi_write_scaled_double_dataslice writes to a read-only reader");
                    CALL("mifi_free_slicebuilder", mifi_free_slicebuilder(sb));
                }
                mifi_cdm_reader* q = nullptr;
                CALL("mifi_new_io_reader", q = mifi_new_io_reader("netcdf", (scratch + "not_there.nc").c_str(), ""));
                if (q) violation("accepted", "mifi_new_io_reader opens a file which does not exist");
                probe("bad_requests", 13);
                (void)rt, (void)ty;
                break;
            }
            case C_WRITE: {
                // HDF5 keeps a file which it failed to close, so later output gets another name
                const std::string out = scratch + (quiet_phase ? "again" : "out") + std::to_string(o.b) + ".nc";
                int rc = 0;
                CALL("mifi_writer", rc = mifi_writer(r, "netcdf", out.c_str(), ""));
                if (rc) { if (check) fail("mifi_writer", ""); break; }
                if (check) {
                    NoFaults nf;
                    std::string e = check_nc(out, c.s);
                    if (!e.empty()) violation("wrong-output", "mifi_writer reported success, but: %s", e.c_str());
                    probe("files_checked");
                }
                break;
            }
            case C_CALLBACK: {
                mifi_cdm_reader* cr = nullptr;
                CALL("mifi_new_c_reader", cr = mifi_new_c_reader(r));
                if (!cr) { if (check) fail("mifi_new_c_reader", ""); break; }
                const bool bad = o.a % 3 == 0;
                int rc = 0;
                CALL("mifi_set_callback_double", rc = mifi_set_callback_double(cr, g.var.c_str(), bad ? fails : times_two));
                if (rc) { if (check) fail("mifi_set_callback_double", g.var); }
                else if (v.count() && !v.shape.empty() && has_unlim && c.v.unlim_len()) {
                    Get h = g;
                    h.kind = 4;
                    h.pos = size_t(o.a) % c.v.unlim_len();
                    double* d = nullptr;
                    size_t n = 0;
                    CALL("mifi_get_double_dataslice", rc = mifi_get_double_dataslice(cr, g.var.c_str(), h.pos, &d, &n));
                    if (bad) {
                        if (rc == 0) violation("accepted", "a failing callback is not reported");
                    } else if (rc) { if (check) fail("mifi_get_double_dataslice (callback)", g.var); }
                    else if (check) compare("mifi_get_double_dataslice (callback)", c.v, h, d, n, 2);
                    free(d);
                }
                CALL("mifi_free_cdm_reader", mifi_free_cdm_reader(cr));
                break;
            }
            case C_NCML: {
                mifi_cdm_reader* nr = nullptr;
                CALL("mifi_new_ncml_modifier", nr = mifi_new_ncml_modifier(r, (scratch + "mod.ncml").c_str()));
                if (!nr) { if (check) fail("mifi_new_ncml_modifier", ""); break; }
                double* d = nullptr;
                size_t n = 0;
                int rc = 0;
                Get h = g;
                h.kind = 3;
                CALL("mifi_get_double_data", rc = mifi_get_double_data(nr, g.var.c_str(), &d, &n));
                if (rc) { if (check) fail("mifi_get_double_data (ncml)", g.var); }
                else if (check) compare("mifi_get_double_data (ncml)", c.v, h, d, n, 1);
                free(d);
                CALL("mifi_free_cdm_reader", mifi_free_cdm_reader(nr));
                break;
            }
            case C_LONLAT: {
                char *lo = nullptr, *la = nullptr;
                CALL("mifi_get_var_longitude", lo = mifi_get_var_longitude(r, g.var.c_str()));
                CALL("mifi_get_var_latitude", la = mifi_get_var_latitude(r, g.var.c_str()));
                const auto& va = c.s.var(g.var)->atts;
                const bool coords = std::any_of(va.begin(), va.end(), [](const CDMAttribute& a) { return a.getName() == "coordinates"; });
                if ((c.grid == 0 || (c.grid == 2 && coords)) && v.shape.size() > 2 && v.shape[0] == "x" && v.shape.back() == "time" && check) {
                    const std::string wlo = c.grid ? "lon" : "x", wla = c.grid ? "lat" : "y";
                    if (!lo || !la) fail("mifi_get_var_longitude", v.name);
                    else if (wlo != lo || wla != la) { if (!faulty || quiet_phase || *lo || *la) violation("wrong-data", "mifi_get_var_longitude and latitude of %s give %s and %s", v.name.c_str(), lo, la); }
                    char b[8], d[8];
                    int rc = 0, rc2 = 0;
                    CALL("mifi_get_var_longitude_cpy", rc = mifi_get_var_longitude_cpy(r, g.var.c_str(), b, sizeof b));
                    CALL("mifi_get_var_latitude_cpy", rc2 = mifi_get_var_latitude_cpy(r, g.var.c_str(), d, sizeof d));
                    if (!faulty && (wlo != b || wla != d || rc != int(wlo.size()) + 1 || rc2 != int(wla.size()) + 1)) violation("wrong-data", "mifi_get_var_longitude_cpy and latitude give %s and %s", b, d);
                    b[1] = 'Q';
                    CALL("mifi_get_var_longitude_cpy", rc = mifi_get_var_longitude_cpy(r, g.var.c_str(), b, 1));
                    if (b[1] != 'Q' || (!faulty && rc != 0)) violation("wrong-data", "mifi_get_var_longitude_cpy and a string which is too long");
                }
                free(lo), free(la);
                if (!j.own) break; // an interpolator marks vectors in its source
                const double lon[2] = {5.5, 6}, lat[2] = {60.2, 60.4};
                mifi_cdm_reader* q = nullptr;
                CALL("mifi_new_lonlat_interpolator", q = mifi_new_lonlat_interpolator(r, MIFI_INTERPOL_NEAREST_NEIGHBOR, 2, lon, lat));
                if (q) CALL("mifi_free_cdm_reader", mifi_free_cdm_reader(q));
                CALL("mifi_new_cdminterpolator", q = mifi_new_cdminterpolator(r, MIFI_INTERPOL_BILINEAR, "+proj=nonsense", "0,1,..,x", "5", "m", "m"));
                if (q) violation("accepted", "mifi_new_cdminterpolator accepts nonsense");
                probe("bad_requests");
                break;
            }
            case C_RW: { // update a file of its own
                if (v.shape.empty() || !v.count() || v.type == CDM_CHAR || v.type == CDM_STRING || v.type == CDM_NAT) break;
                const std::string out = scratch + (quiet_phase ? "rwagain" : "rw") + std::to_string(o.b) + ".nc";
                {
                    NoFaults nf;
                    write_nc(out, c.s, false);
                }
                mifi_cdm_reader* q = nullptr;
                CALL("mifi_new_io_reader", q = mifi_new_io_reader("netcdf+rw", out.c_str(), ""));
                if (!q) { if (check) fail("mifi_new_io_reader (rw)", ""); break; }
                mifi_slicebuilder* sb = nullptr;
                CALL("mifi_new_slicebuilder", sb = mifi_new_slicebuilder(q, g.var.c_str()));
                if (!sb) { if (check) fail("mifi_new_slicebuilder (rw)", g.var); }
                else {
                    Get h = g;
                    h.kind = 5;
                    h.start.clear(), h.size.clear();
                    bool err = false;
                    for (size_t k = 0; k < v.shape.size(); k++) {
                        const size_t len = v.sizes[k], s0 = size_t(o.a * 3 + k * 5) % len, n = 1 + size_t(o.a + 2 * k) % (len - s0);
                        h.start.push_back(s0), h.size.push_back(n);
                        int rc = 0;
                        CALL("mifi_slicebuilder_set_dim_start_size", rc = mifi_slicebuilder_set_dim_start_size(sb, v.shape[k].c_str(), unsigned(s0), unsigned(n)));
                        if (rc) { if (check) fail("mifi_slicebuilder_set_dim_start_size", v.shape[k]); err = true; }
                    }
                    double tol;
                    std::vector<double> put = expect_get(c.v, h, &tol);
                    std::reverse(put.begin(), put.end());
                    bool plain = true;
                    for (double x : put) if (std::isnan(x)) plain = false; // missing values: only with a fill value
                    if (!err && (plain || v.has_fill)) {
                        int rc = 0, rc2 = 0;
                        std::vector<double> arg = put;
                        CALL("mifi_write_scaled_double_dataslice", rc = mifi_write_scaled_double_dataslice(q, g.var.c_str(), sb, o.a % 2 ? v.units.c_str() : "", arg.data(), arg.size()));
                        if (rc) { if (check) fail("mifi_write_scaled_double_dataslice", get_text(h)); }
                        else {
                            std::vector<double> got(put.size() + 1, 12345.5);
                            size_t n = 0;
                            CALL("mifi_fill_scaled_double_dataslice", rc2 = mifi_fill_scaled_double_dataslice(q, g.var.c_str(), sb, "", got.data(), &n));
                            if (rc2) { if (check) fail("mifi_fill_scaled_double_dataslice (rw)", get_text(h)); }
                            else if (check) {
                                got.resize(n);
                                std::string e = compare_values("after update of " + get_text(h), got, put, 1e-9);
                                if (!e.empty()) violation("wrong-data", "mifi_write_scaled_double_dataslice: %s", e.c_str());
                                probe("updates");
                            }
                        }
                    }
                    CALL("mifi_free_slicebuilder", mifi_free_slicebuilder(sb));
                }
                CALL("mifi_free_cdm_reader", mifi_free_cdm_reader(q));
                break;
            }
            }
        }
        if (j.own) CALL("mifi_free_cdm_reader", mifi_free_cdm_reader(r));
    };
    for (auto& j : jobs)
        if (!j.own && !shared[j.src]) {
            NoFaults nf;
            shared[j.src] = open(src[j.src]);
            if (!shared[j.src]) violation("unexpected-error", "cannot open %s", src[j.src].file.c_str());
        }
    std::vector<Fault> fs;
    if (faulty) {
        OpCount c = rehearse([&] { for (auto& j : jobs) work(j, false); });
        fs = draw_faults(rng, c, {{F_READ_EIO, 3}, {F_OPEN_FAIL, 2}, {F_READ_EINTR, 1}, {F_LIB_FAIL, 6}, {F_ALLOC, 12}, {F_WRITE_EIO, 1}, {F_WRITE_ENOSPC, 1}}, 3);
        use_faults(fs);
        arm_faults(true);
    }
    std::string tx;
    for (auto& j : jobs) {
        tx += j.own ? " own:" : " shared:";
        for (auto& o : j.ops) tx += std::string(" ") + opname[o.kind];
    }
    sample("%d threads:%s faults: %s", nt, tx.c_str(), fault_text(fs).c_str());
    for (int t = 0; t < nt; t++) spawn([&, t] { work(jobs[t], true); });
    join_all();
    arm_faults(false);
    quiet_phase = true;
    if (faulty) {
        Quiet q;
        for (auto& j : jobs)
            if (j.own) work(j, true); // new readers work again
    }
    for (auto* r : shared) if (r) CALL("mifi_free_cdm_reader", mifi_free_cdm_reader(r));
}
SIM_SCENARIO(S17, calls, 2) { c_interface(rng, false); }
SIM_SCENARIO(S17, faults, 3) { c_interface(rng, true); }
