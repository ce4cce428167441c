#include "harness.h"

#include "fimex/IoFactory.h"
#include "fimex/IoPlugin.h"
#include "fimex/Logger.h"

#include "fimex_config.h"
#include <netcdf.h>

#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <new>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
const IoPluginInfo* fimex_ioplugin_info_netcdf();
const IoPluginInfo* fimex_ioplugin_info_grib();
const IoPluginInfo* fimex_ioplugin_info_felt();
}

namespace hs {
std::string fixdir;
static std::vector<std::function<void()>>& inits()
{
    static std::vector<std::function<void()>> v;
    return v;
}
InitReg::InitReg(void (*f)()) { inits().push_back(f); }

const Dim* Spec::dim(const std::string& n) const
{
    for (auto& d : dims) if (d.name == n) return &d;
    return nullptr;
}
const Var* Spec::var(const std::string& n) const
{
    for (auto& d : vars) if (d.name == n) return &d;
    return nullptr;
}
const Dim* Spec::unlim() const
{
    for (auto& d : dims) if (d.unlim) return &d;
    return nullptr;
}
bool Spec::has_unlim(const Var& v) const
{
    for (auto& n : v.shape) if (dim(n)->unlim) return true;
    return false;
}
std::vector<size_t> Spec::sizes(const Var& v) const
{
    std::vector<size_t> s;
    for (auto& n : v.shape) s.push_back(dim(n)->len);
    return s;
}
size_t Spec::count(const Var& v) const
{
    size_t c = 1;
    for (auto n : sizes(v)) c *= n;
    return c;
}
std::string Spec::text() const
{
    std::ostringstream o;
    for (auto& d : dims) o << d.name << (d.unlim ? "*" : "") << "=" << d.len << " ";
    for (auto& v : vars) {
        o << datatype2string(v.type) << " " << v.name << "(";
        for (size_t i = 0; i < v.shape.size(); i++) o << (i ? "," : "") << v.shape[i];
        o << ") ";
    }
    return o.str();
}

double quantise(CDMDataType t, double v)
{
    switch (t) {
    case CDM_FLOAT: return double(float(v));
    case CDM_DOUBLE: return v;
    default: return v < 0 ? std::ceil(v - 0.5) : std::floor(v + 0.5);
    }
}

double default_fill(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return -127;
    case CDM_UCHAR: return 255;
    case CDM_SHORT: return -32767;
    case CDM_USHORT: return 65535;
    case CDM_INT: return -2147483647.0;
    case CDM_UINT: return 4294967295.0;
    case CDM_INT64: return -9223372036854775806.0;
    case CDM_UINT64: return 18446744073709551614.0;
    case CDM_FLOAT: return double(9.9692099683868690e+36f);
    default: return 9.9692099683868690e+36;
    }
}
double value(const Spec& s, const Var& v, size_t i)
{
    if (v.lost_step >= 0 && s.has_unlim(v)) {
        size_t inner = 1;
        for (auto& d : v.shape) { if (s.dim(d)->unlim) break; inner *= s.dim(d)->len; }
        if (i / inner % s.unlim()->len == size_t(v.lost_step)) return v.has_fill ? v.fill : default_fill(v.type);
    }
    if (!v.fixed.empty()) return v.fixed[i % v.fixed.size()];
    uint64_t z = (i + 1) * 0x9E3779B97F4A7C15ull + v.salt * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z ^= z >> 27;
    if (v.has_fill && v.undef_every && z % v.undef_every == 0) return v.fill;
    z >>= 8;
    switch (v.type) {
    case CDM_CHAR: return double(long(z % 201) - 100);
    case CDM_STRING: return double('a' + z % 26);
    case CDM_UCHAR: return double(z % 200);
    case CDM_SHORT: return double(long(z % 20001) - 10000);
    case CDM_USHORT: return double(z % 40000);
    case CDM_INT: return double(long(z % 2000001) - 1000000);
    case CDM_UINT: return double(z % 3000000);
    case CDM_INT64: return double(long(z % 20000000001ll) - 10000000000ll);
    case CDM_UINT64: return double(z % 20000000001ull);
    case CDM_FLOAT: return double(long(z % 80001) - 40000) * 0.25;
    default: return double(long(z % 8000001) - 4000000) * 0.0625;
    }
}

std::vector<double> slice_values(const Spec& s, const Var& v, const std::vector<size_t>& start, const std::vector<size_t>& size)
{
    std::vector<size_t> full = s.sizes(v);
    size_t n = 1;
    for (auto k : size) n *= k;
    std::vector<double> out;
    out.reserve(n);
    std::vector<size_t> idx(size.size(), 0);
    for (size_t c = 0; c < n; c++) {
        size_t lin = 0, mul = 1;
        for (size_t d = 0; d < full.size(); d++) {
            lin += (start[d] + idx[d]) * mul;
            mul *= full[d];
        }
        out.push_back(value(s, v, lin));
        for (size_t d = 0; d < idx.size(); d++) {
            if (++idx[d] < size[d]) break;
            idx[d] = 0;
        }
    }
    return out;
}

std::vector<double> unlim_values(const Spec& s, const Var& v, size_t pos)
{
    auto size = s.sizes(v);
    std::vector<size_t> start(size.size(), 0);
    for (size_t i = 0; i < v.shape.size(); i++)
        if (s.dim(v.shape[i])->unlim) {
            start[i] = pos;
            size[i] = 1;
        }
    return slice_values(s, v, start, size);
}

template <class T> static DataPtr mk(const std::vector<double>& v)
{
    shared_array<T> a(new T[v.size() ? v.size() : 1]);
    for (size_t i = 0; i < v.size(); i++) a[i] = T(v[i]);
    return createData(v.size(), a);
}
DataPtr make_data(CDMDataType t, const std::vector<double>& v)
{
    switch (t) {
    case CDM_CHAR: return mk<char>(v);
    case CDM_UCHAR: return mk<unsigned char>(v);
    case CDM_SHORT: return mk<short>(v);
    case CDM_USHORT: return mk<unsigned short>(v);
    case CDM_INT: return mk<int>(v);
    case CDM_UINT: return mk<unsigned int>(v);
    case CDM_INT64: return mk<long long>(v);
    case CDM_UINT64: return mk<unsigned long long>(v);
    case CDM_FLOAT: return mk<float>(v);
    case CDM_DOUBLE: return mk<double>(v);
    case CDM_STRING: {
        std::string t;
        for (double x : v) t += char(x);
        return createData(t);
    }
    default: return DataPtr();
    }
}

CDM make_cdm(const Spec& s)
{
    CDM cdm;
    for (auto& d : s.dims) {
        CDMDimension dim(d.name, long(d.len));
        dim.setUnlimited(d.unlim);
        cdm.addDimension(dim);
    }
    for (auto& v : s.vars) {
        CDMVariable var(v.name, v.type, v.shape);
        if (v.in_memory) {
            std::vector<double> all(s.count(v));
            for (size_t i = 0; i < all.size(); i++) all[i] = value(s, v, i);
            var.setData(make_data(v.type, all));
        }
        cdm.addVariable(var);
        for (auto& a : v.atts) cdm.addAttribute(v.name, a);
        if (v.has_fill) cdm.addAttribute(v.name, CDMAttribute("_FillValue", make_data(v.type, {v.fill})));
    }
    for (auto& a : s.atts) cdm.addAttribute(CDM::globalAttributeNS(), a);
    return cdm;
}

ModelReader::ModelReader(const Spec& s) : spec(s) { *cdm_ = make_cdm(s); }

void ModelReader::enter(const std::string& v, long pos, bool& empty)
{
    calls++;
    if (on_slice) on_slice(v, pos);
    sim::Fault f;
    bool hit = sim::fault_now(sim::OP_UPSTREAM, &f);
    sim::event(40, hit ? f.kind : 0);
    sim::yield_point(5);
    empty = false;
    if (hit) {
        if (f.kind == sim::F_UPSTREAM_EMPTY) {
            empties++;
            empty = true;
            return;
        }
        failures++;
        switch (f.param % 4) {
        case 0: throw CDMException("simulated source failure");
        case 1: throw std::runtime_error("simulated source failure");
        case 2: throw std::bad_alloc();
        default: throw 42;
        }
    }
}

DataPtr ModelReader::getDataSlice(const std::string& varName, size_t pos)
{
    const CDMVariable& cv = cdm_->getVariable(varName);
    const Var* v = spec.var(varName);
    if (!v || cv.hasData()) return getDataSliceFromMemory(cv, pos);
    bool empty;
    enter(varName, long(pos), empty);
    const bool un = spec.has_unlim(*v);
    if (empty || v->lost || (un && v->lost_step == long(pos))) return createData(v->type, 0);
    if (un && pos >= spec.unlim()->len) throw CDMException("position outside unlimited dimension");
    return make_data(v->type, un ? unlim_values(spec, *v, pos) : slice_values(spec, *v, std::vector<size_t>(v->shape.size(), 0), spec.sizes(*v)));
}

DataPtr ModelReader::getDataSlice(const std::string& varName, const SliceBuilder& sb)
{
    const CDMVariable& cv = cdm_->getVariable(varName);
    const Var* v = spec.var(varName);
    if (!v || cv.hasData()) return getDataSliceFromMemory(cv, sb);
    bool empty;
    enter(varName, -1, empty);
    if (empty || v->lost) return createData(v->type, 0);
    auto names = sb.getDimensionNames();
    std::vector<size_t> start, size;
    for (auto& n : v->shape) {
        size_t a, b;
        sb.getStartAndSize(n, a, b);
        start.push_back(a);
        size.push_back(b);
    }
    return make_data(v->type, slice_values(spec, *v, start, size));
}

// ---------- random model dataset ----------
static CDMAttribute random_att(Rng& r, const std::string& name, bool nc3)
{
    static const CDMDataType t[] = {CDM_STRING, CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64};
    const CDMDataType ty = t[r.below(nc3 ? 6 : 11)];
    if (ty == CDM_STRING) {
        std::string x;
        for (int n = r.range(1, 12); n > 0; n--) x += char('A' + r.below(50));
        return CDMAttribute(name, x);
    }
    std::vector<double> d;
    for (int n = r.range(1, 3); n > 0; n--) {
        const double u = double(r.below(2001)) - 1000;
        switch (ty) {
        case CDM_CHAR: d.push_back(std::floor(u / 10)); break;
        case CDM_UCHAR: d.push_back(std::floor((u + 1000) / 8)); break;
        case CDM_SHORT: d.push_back(u * 32); break;
        case CDM_USHORT: d.push_back((u + 1000) * 32); break;
        case CDM_INT: d.push_back(u * 2000000); break;
        case CDM_UINT: d.push_back((u + 1000) * 2000000); break;
        case CDM_INT64: d.push_back(u * 4e12); break;
        case CDM_UINT64: d.push_back((u + 1000) * 4e12); break;
        case CDM_FLOAT: d.push_back(u * 0.125); break;
        default: d.push_back(u / 7); break;
        }
    }
    return CDMAttribute(name, make_data(ty, d));
}
Spec random_spec(Rng& r, const SpecOpt& o)
{
    Spec s;
    const int nx = r.range(1, o.max_len), ny = r.range(1, o.max_len);
    s.dims.push_back({"x", size_t(nx)});
    s.dims.push_back({"y", size_t(ny)});
    const bool lev = o.levels || r.chance(1, 2);
    if (lev) s.dims.push_back({"lev", size_t(r.range(1, 4))});
    const bool un = !o.allow_no_unlim || r.chance(4, 5);
    if (un) s.dims.push_back({"time", size_t(r.range(std::max(1, o.min_unlim), 7)), true});
    else if (r.chance(1, 2)) s.dims.push_back({"time", size_t(r.range(1, 5))});
    const bool has_time = s.dim("time");
    auto axis = [&](const char* n, CDMDataType t, double a, double st, const char* stdn, const char* un) {
        Var v;
        v.name = n;
        v.type = t;
        v.shape = {n};
        for (size_t i = 0; i < s.dim(n)->len; i++) v.fixed.push_back(a + st * i);
        v.atts.push_back(CDMAttribute("units", std::string(un)));
        v.atts.push_back(CDMAttribute("standard_name", std::string(stdn)));
        s.vars.push_back(v);
    };
    if (o.geo) {
        axis("x", CDM_DOUBLE, -30000, 10000, "projection_x_coordinate", "m");
        axis("y", CDM_DOUBLE, -20000, 10000, "projection_y_coordinate", "m");
        Var p;
        p.name = "projection_stere";
        p.type = CDM_INT;
        p.fixed = {0};
        p.atts = {CDMAttribute("grid_mapping_name", std::string("polar_stereographic")), CDMAttribute("straight_vertical_longitude_from_pole", 10.0), CDMAttribute("latitude_of_projection_origin", 90.0),
                  CDMAttribute("standard_parallel", 60.0), CDMAttribute("earth_radius", 6371000.0), CDMAttribute("false_easting", 0.0), CDMAttribute("false_northing", 3000000.0),
                  CDMAttribute("proj4", std::string("+proj=stere +lat_0=90 +lon_0=10 +lat_ts=60 +R=6371000 +x_0=0 +y_0=3000000 +no_defs"))};
        s.vars.push_back(p);
        s.atts.push_back(CDMAttribute("Conventions", std::string("CF-1.0")));
    } else {
        if (r.chance(1, 2)) axis("x", r.chance(1, 2) ? CDM_FLOAT : CDM_DOUBLE, 5, 0.5, "longitude", "degree_east");
        if (r.chance(1, 2)) axis("y", CDM_FLOAT, 60, 0.25, "latitude", "degree_north");
    }
    if (lev && (o.levels || r.chance(1, 2))) axis("lev", CDM_DOUBLE, 1000, -100, "air_pressure", "hPa");
    if (has_time) {
        // also times which differ by little, compared to their values
        const bool late = r.chance(1, 3);
        axis("time", r.chance(1, 2) ? CDM_DOUBLE : CDM_INT, late ? 1577836800 : 0, late && r.chance(1, 2) ? 4 : 3600, "time", late ? "seconds since 1970-01-01 00:00:00 +0000" : "seconds since 2020-01-01 00:00:00 +0000");
    }
    static const CDMDataType t3[] = {CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_FLOAT, CDM_SHORT, CDM_CHAR};
    static const CDMDataType t4[] = {CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_FLOAT, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64, CDM_SHORT, CDM_CHAR};
    const int nv = r.range(1, o.max_vars);
    for (int i = 0; i < nv; i++) {
        Var v;
        v.name = "v" + std::to_string(i);
        v.type = o.nc3 ? t3[r.below(7)] : t4[r.below(12)];
        v.salt = r.next();
        if (!(o.scalars && r.chance(1, 12))) {
            int kind = r.range(0, 5);
            if (o.geo && kind > 3) kind = 0;
            if (kind <= 2 || kind == 3) {
                v.shape.push_back("x");
                v.shape.push_back("y");
                if (lev && r.chance(1, 2)) v.shape.push_back("lev");
                if (has_time && r.chance(3, 4)) v.shape.push_back("time");
            } else if (kind == 4) {
                v.shape.push_back("y");
                if (has_time && r.chance(1, 2)) v.shape.push_back("time");
            } else {
                v.shape.push_back(has_time ? "time" : "x");
            }
        }
        if (o.missing && r.chance(1, 2)) {
            v.has_fill = true;
            v.fill = v.type == CDM_UCHAR ? 255 : v.type == CDM_CHAR ? 101 : v.type == CDM_SHORT ? -32767 : v.type == CDM_USHORT ? 65535 : v.type == CDM_UINT ? 4000000000.0 : v.type == CDM_UINT64 ? 40000000000.0 : -999999999.0;
            if (v.type == CDM_FLOAT) v.fill = double(float(-1e10));
            v.undef_every = r.chance(1, 2) ? r.range(3, 9) : 0;
        }
        v.atts.push_back(CDMAttribute("units", std::string(r.chance(1, 4) ? (r.chance(1, 2) ? "degC" : "km") : r.chance(1, 2) ? "K" : "m")));
        v.atts.push_back(CDMAttribute("long_name", "variable number " + std::to_string(i)));
        if (o.packed && (v.type == CDM_SHORT || v.type == CDM_INT) && r.chance(1, 2)) {
            v.atts.push_back(CDMAttribute("scale_factor", 0.5));
            v.atts.push_back(CDMAttribute("add_offset", 16.0));
        }
        if (o.geo && v.shape.size() >= 2) v.atts.push_back(CDMAttribute("grid_mapping", std::string("projection_stere")));
        if (o.lost && s.has_unlim(v) && r.chance(1, 3)) v.lost_step = int(r.below(s.unlim()->len));
        if (o.atts) for (int k = r.range(0, 2); k > 0; k--) v.atts.push_back(random_att(r, "att" + std::to_string(k), o.nc3));
        s.vars.push_back(v);
    }
    if (o.atts) for (int k = r.range(0, 2); k > 0; k--) s.atts.push_back(random_att(r, "gatt" + std::to_string(k), o.nc3));
    if (o.strings && r.chance(1, 2)) {
        s.dims.push_back({"strlen", size_t(r.range(1, 9))});
        Var v;
        v.name = "names";
        v.type = CDM_STRING;
        v.salt = r.next();
        v.shape = {"strlen"};
        if (r.chance(2, 3)) v.shape.push_back("y");
        if (has_time && r.chance(1, 2)) v.shape.push_back("time");
        s.vars.push_back(v);
    }
    return s;
}

Outcome attempt(const std::function<void()>& f)
{
    Outcome o;
    try {
        f();
    } catch (std::bad_alloc& e) {
        o.threw = o.badalloc = true;
        o.what = e.what();
    } catch (std::exception& e) {
        o.threw = true;
        o.what = e.what();
    } catch (...) {
        o.threw = true;
        o.what = "unknown exception";
    }
    return o;
}

// ---------- bare netCDF ----------
static nc_type nct(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return NC_BYTE;
    case CDM_STRING: return NC_CHAR;
    case CDM_UCHAR: return NC_UBYTE;
    case CDM_SHORT: return NC_SHORT;
    case CDM_USHORT: return NC_USHORT;
    case CDM_INT: return NC_INT;
    case CDM_UINT: return NC_UINT;
    case CDM_INT64: return NC_INT64;
    case CDM_UINT64: return NC_UINT64;
    case CDM_FLOAT: return NC_FLOAT;
    default: return NC_DOUBLE;
    }
}
NcOpen::NcOpen(const std::string& path, bool write) { err = nc_open(path.c_str(), write ? NC_WRITE : NC_NOWRITE, &id); }
NcOpen::~NcOpen() { if (!err) nc_close(id); }
int NcOpen::get(const std::string& var, NcVarData& out)
{
    int vid, e, nd, dids[NC_MAX_VAR_DIMS];
    if ((e = nc_inq_varid(id, var.c_str(), &vid))) return e;
    nc_type t;
    if ((e = nc_inq_var(id, vid, nullptr, &t, &nd, dids, nullptr))) return e;
    out.type = t;
    out.dims.clear();
    out.dimnames.clear();
    size_t n = 1;
    for (int i = 0; i < nd; i++) {
        size_t l;
        char nm[NC_MAX_NAME + 1];
        nc_inq_dim(id, dids[i], nm, &l);
        out.dims.push_back(l);
        out.dimnames.push_back(nm);
        n *= l;
    }
    out.v.assign(n, 0);
    if (n == 0) return 0;
    if (t == NC_CHAR) {
        std::vector<char> c(n);
        e = nc_get_var_text(id, vid, c.data());
        for (size_t i = 0; i < n; i++) out.v[i] = c[i];
        return e;
    }
    return nc_get_var_double(id, vid, out.v.data());
}

static bool same(double a, double b, double rel)
{
    if (a == b) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    if (rel > 0) return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b));
    return false;
}
std::string compare_values(const std::string& ctx, const std::vector<double>& got, const std::vector<double>& want, double rel)
{
    std::ostringstream o;
    o.precision(12);
    if (got.size() != want.size()) {
        o << ctx << ": " << got.size() << " values instead of " << want.size();
        return o.str();
    }
    for (size_t i = 0; i < got.size(); i++)
        if (!same(got[i], want[i], rel)) {
            o << ctx << ": value " << i << " of " << got.size() << " is " << got[i] << " instead of " << want[i];
            return o.str();
        }
    return "";
}

Att to_att(const CDMAttribute& a)
{
    Att x;
    x.name = a.getName();
    x.type = a.getDataType();
    if (x.type == CDM_STRING) x.str = a.getStringValue();
    else x.num = to_doubles(a.getData());
    return x;
}
static std::string att_text(const Att& a)
{
    std::ostringstream o;
    o << datatype2string(a.type) << " '" << a.str << "'";
    for (double d : a.num) o << " " << d;
    return o.str();
}
std::string compare_atts(const std::string& of, std::vector<Att> got, std::vector<Att> want)
{
    auto by = [](const Att& a, const Att& b) { return a.name < b.name; };
    std::sort(got.begin(), got.end(), by);
    std::sort(want.begin(), want.end(), by);
    for (auto& w : want) {
        const Att* g = nullptr;
        for (auto& x : got) if (x.name == w.name) g = &x;
        if (!g) return of + " lacks attribute " + w.name;
        if (g->type != w.type || g->num != w.num || g->str != w.str) return "attribute " + w.name + " of " + of + " is " + att_text(*g) + " instead of " + att_text(w);
    }
    for (auto& g : got) {
        bool known = false;
        for (auto& w : want) known |= w.name == g.name;
        if (!known) return of + " has an attribute " + g.name + " which the source does not have";
    }
    return "";
}
// type, dimensions and attributes of a variable (or the global attributes, without a name) of an open netCDF file
std::string check_nc_meta(int id, const std::string& var, CDMDataType type, const std::vector<std::string>& shape, const std::vector<Att>& atts)
{
    int vid = NC_GLOBAL, na = 0, e = 0;
    if (var.empty()) e = nc_inq_natts(id, &na);
    else {
        nc_type t;
        int nd, dids[NC_MAX_VAR_DIMS];
        if ((e = nc_inq_varid(id, var.c_str(), &vid)) || (e = nc_inq_var(id, vid, nullptr, &t, &nd, dids, &na))) return var + ": " + nc_strerror(e);
        if (t != nct(type)) return "variable " + var + " has netCDF type " + std::to_string(t) + " instead of " + std::to_string(nct(type));
        for (int i = 0; i < nd; i++) {
            char nm[NC_MAX_NAME + 1];
            nc_inq_dimname(id, dids[i], nm);
            if (size_t(nd) != shape.size() || shape[nd - 1 - i] != nm) return "variable " + var + " has dimension " + nm + " at " + std::to_string(i);
        }
    }
    if (e) return nc_strerror(e);
    std::vector<Att> got;
    for (int k = 0; k < na; k++) {
        Att a;
        char nm[NC_MAX_NAME + 1];
        nc_type t;
        size_t n;
        if ((e = nc_inq_attname(id, vid, k, nm)) || (e = nc_inq_att(id, vid, nm, &t, &n))) return nc_strerror(e);
        a.name = nm;
        if (t == NC_STRING) continue;
        if (t == NC_CHAR) {
            a.type = CDM_STRING;
            a.str.resize(n);
            e = nc_get_att_text(id, vid, nm, &a.str[0]);
        } else {
            a.type = CDM_NAT;
            for (CDMDataType c : {CDM_CHAR, CDM_UCHAR, CDM_SHORT, CDM_USHORT, CDM_INT, CDM_UINT, CDM_INT64, CDM_UINT64, CDM_FLOAT, CDM_DOUBLE}) if (nct(c) == t) a.type = c;
            a.num.resize(n);
            e = nc_get_att_double(id, vid, nm, a.num.data());
        }
        if (e) return nc_strerror(e);
        got.push_back(a);
    }
    return compare_atts(var.empty() ? "the file" : "variable " + var, got, atts);
}
std::string check_nc(const std::string& path, const Spec& s, const std::string& ctx)
{
    NcOpen f(path);
    if (f.err) return ctx + "cannot open output: " + nc_strerror(f.err);
    for (auto& v : s.vars) {
        NcVarData d;
        int e = f.get(v.name, d);
        if (e) return ctx + "cannot read variable " + v.name + ": " + nc_strerror(e);
        std::vector<size_t> dims = s.sizes(v);
        std::vector<size_t> rev(dims.rbegin(), dims.rend());
        if (rev != d.dims) {
            std::ostringstream o;
            o << ctx << "variable " << v.name << " has wrong shape:";
            for (auto k : d.dims) o << " " << k;
            o << " instead of";
            for (auto k : rev) o << " " << k;
            return o.str();
        }
        std::vector<Att> atts;
        for (auto& a : v.atts) atts.push_back(to_att(a));
        if (v.has_fill) atts.push_back({"_FillValue", v.type, {v.fill}, ""});
        std::string ea = check_nc_meta(f.id, v.name, v.type, v.shape, atts);
        if (!ea.empty()) return ctx + ea;
        std::vector<double> want;
        for (size_t i = 0; i < s.count(v); i++) want.push_back(value(s, v, i));
        std::string e2 = compare_values(ctx + "variable " + v.name, d.v, want);
        if (!e2.empty()) return e2;
        note(d.v);
    }
    std::vector<Att> atts;
    for (auto& a : s.atts) atts.push_back(to_att(a));
    return check_nc_meta(f.id, "", CDM_NAT, {}, atts);
}

std::vector<double> to_doubles(const DataPtr& d)
{
    std::vector<double> v;
    if (!d) return v;
    if (d->getDataType() == CDM_STRING) {
        const std::string t = d->asString();
        v.assign(t.begin(), t.end());
        return v;
    }
    auto a = d->asDouble();
    v.assign(a.get(), a.get() + d->size());
    return v;
}
std::string read_file(const std::string& path)
{
    std::ifstream in(path, std::ios::binary);
    std::ostringstream o;
    o << in.rdbuf();
    return o.str();
}
void write_file(const std::string& path, const std::string& data)
{
    std::ofstream o(path, std::ios::binary);
    o.write(data.data(), data.size());
}
void copy_file(const std::string& a, const std::string& b) { write_file(b, read_file(a)); }
bool file_exists(const std::string& p) { return access(p.c_str(), F_OK) == 0; }
uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
void note(const std::vector<double>& v) { if (!v.empty()) sim::note_outcome(v.data(), v.size() * sizeof(double)); }

static void ck(int e)
{
    if (e) sim::violation("harness", "fixture: %s", nc_strerror(e));
}
void write_nc(const std::string& path, const Spec& s, bool nc4)
{
    int id;
    ck(nc_create(path.c_str(), NC_CLOBBER | (nc4 ? NC_NETCDF4 : 0), &id));
    std::map<std::string, int> did;
    for (auto& d : s.dims) ck(nc_def_dim(id, d.name.c_str(), d.unlim ? NC_UNLIMITED : d.len, &did[d.name]));
    auto put_att = [&](int vid, const CDMAttribute& a) {
        if (a.getDataType() == CDM_STRING) {
            std::string t = a.getStringValue();
            ck(nc_put_att_text(id, vid, a.getName().c_str(), t.size(), t.c_str()));
        } else {
            auto d = to_doubles(a.getData());
            ck(nc_put_att_double(id, vid, a.getName().c_str(), nct(a.getDataType()), d.size(), d.data()));
        }
    };
    std::vector<int> vids;
    for (auto& v : s.vars) {
        std::vector<int> ds;
        for (auto it = v.shape.rbegin(); it != v.shape.rend(); ++it) ds.push_back(did[*it]);
        int vid;
        ck(nc_def_var(id, v.name.c_str(), nct(v.type), ds.size(), ds.data(), &vid));
        if (v.has_fill) ck(nc_put_att_double(id, vid, "_FillValue", nct(v.type), 1, &v.fill));
        for (auto& a : v.atts) put_att(vid, a);
        vids.push_back(vid);
    }
    for (auto& a : s.atts) put_att(NC_GLOBAL, a);
    ck(nc_enddef(id));
    for (size_t k = 0; k < s.vars.size(); k++) {
        auto& v = s.vars[k];
        auto sz = s.sizes(v);
        std::vector<size_t> cnt(sz.rbegin(), sz.rend()), st(sz.size(), 0);
        std::vector<double> all(s.count(v));
        for (size_t i = 0; i < all.size(); i++) all[i] = value(s, v, i);
        if (all.empty()) continue;
        if (v.type == CDM_STRING) {
            const std::string t(all.begin(), all.end());
            ck(nc_put_vara_text(id, vids[k], st.data(), cnt.data(), t.data()));
        } else
        ck(nc_put_vara_double(id, vids[k], st.data(), cnt.data(), all.data()));
    }
    ck(nc_close(id));
}

CDMReader_p open_reader(const std::string& type, const std::string& file, const std::string& cfg) { return CDMFileReaderFactory::create(type, file, cfg); }

Req random_req(Rng& r, const Spec& s)
{
    Req q;
    const Var& v = s.vars[r.below(s.vars.size())];
    q.var = v.name;
    const bool un = s.has_unlim(v);
    q.kind = r.range(0, 3); // 0: whole variable, 1: unlimited slice, 2: sliced, 3 sliced w/ offset
    if (q.kind == 1) q.pos = un ? r.below(s.unlim()->len) : 0;
    if (q.kind >= 2) {
        for (auto n : s.sizes(v)) {
            size_t st = q.kind == 3 || r.chance(1, 2) ? r.below(n) : 0;
            size_t sz = 1 + r.below(n - st);
            if (r.chance(1, 4)) { st = 0; sz = n; }
            q.start.push_back(st);
            q.size.push_back(sz);
        }
    }
    return q;
}
DataPtr do_req(CDMReader_p rd, const Req& q)
{
    if (q.kind == 0) return rd->getData(q.var);
    if (q.kind == 1) return rd->getDataSlice(q.var, q.pos);
    SliceBuilder sb(rd->getCDM(), q.var);
    auto shape = rd->getCDM().getVariable(q.var).getShape();
    for (size_t i = 0; i < shape.size(); i++) sb.setStartAndSize(shape[i], q.start[i], q.size[i]);
    return rd->getDataSlice(q.var, sb);
}
std::vector<double> expect_req(const Spec& s, const Req& q)
{
    const Var& v = *s.var(q.var);
    if (q.kind == 0) return slice_values(s, v, std::vector<size_t>(v.shape.size(), 0), s.sizes(v));
    if (q.kind == 1) return s.has_unlim(v) ? unlim_values(s, v, q.pos) : slice_values(s, v, std::vector<size_t>(v.shape.size(), 0), s.sizes(v));
    return slice_values(s, v, q.start, q.size);
}
std::string req_text(const Req& q)
{
    std::ostringstream o;
    o << q.var;
    if (q.kind == 0) o << "[all]";
    else if (q.kind == 1) o << "[unlim=" << q.pos << "]";
    else
        for (size_t i = 0; i < q.start.size(); i++) o << "[" << q.start[i] << "+" << q.size[i] << "]";
    return o.str();
}

// ---------- faults ----------
OpCount rehearse(const std::function<void()>& f)
{
    sim::Quiet q;
    sim::set_faults({});
    sim::reset_ops();
    sim::arm_faults(true);
    f();
    sim::arm_faults(false);
    OpCount c;
    for (int i = 0; i < sim::OP_CLASS_COUNT; i++) c.n[i] = sim::op_count(sim::OpClass(i));
    sim::reset_ops();
    return c;
}
std::vector<sim::Fault> draw_faults(Rng& r, const OpCount& c, const std::vector<FaultKindOpt>& kinds, int maxn)
{
    using namespace sim;
    std::vector<Fault> out;
    int n = r.chance(2, 3) ? 1 : r.range(1, maxn);
    for (int k = 0; k < n; k++) {
        int tot = 0;
        for (auto& o : kinds) if (c.n[fault_op(o.kind)]) tot += o.weight;
        if (!tot) break;
        int w = int(r.below(tot));
        for (auto& o : kinds) {
            if (!c.n[fault_op(o.kind)]) continue;
            if ((w -= o.weight) >= 0) continue;
            Fault f;
            f.kind = o.kind;
            const uint64_t m = c.n[fault_op(o.kind)];
            // bias towards the first and last operations
            int b = r.range(0, 5);
            f.at = b == 0 ? 1 : b == 1 ? uint32_t(m) : b == 2 && m > 4 ? uint32_t(m - r.below(4)) : uint32_t(1 + r.below(m));
            f.param = uint32_t(r.next() & 0xffff);
            f.count = 1;
            if (f.kind == F_OPEN_FAIL) {
                static const int en[] = {EACCES, EMFILE, ENOENT, EIO, ENOSPC};
                f.param = en[r.below(5)];
            } else if (f.kind == F_CLOSE_FAIL) {
                static const int en[] = {EIO, ENOSPC, EDQUOT};
                f.param = en[r.below(3)];
            } else if (f.kind == F_WRITE_ENOSPC) f.count = r.chance(3, 4) ? 1000000 : uint32_t(r.range(1, 4));
            else if (f.kind == F_READ_EIO || f.kind == F_WRITE_EIO || f.kind == F_UPSTREAM_THROW || f.kind == F_SYNC_FAIL || f.kind == F_HTTP || f.kind == F_READ_EOF || f.kind == F_LIB_FAIL) f.count = r.chance(1, 2) ? 1 : r.chance(1, 2) ? 1000000 : uint32_t(r.range(2, 5));
            out.push_back(f);
            break;
        }
    }
    return out;
}
void use_faults(const std::vector<sim::Fault>& f) { sim::set_faults(sim::plan.faults_given ? sim::plan.faults : f); }
std::string fault_text(const std::vector<sim::Fault>& fs)
{
    std::ostringstream o;
    for (auto& f : fs) o << sim::fault_names[f.kind] << "@" << f.at << (f.count > 1 ? "+" : "") << " ";
    return o.str();
}
WriterCfg random_writer(Rng& r)
{
    static const char* const t[] = {"nc3", "nc4", "nc4c", "nc"};
    WriterCfg w;
    int k = int(r.below(4));
    w.type = t[k];
    w.nc3 = k == 0 || k == 2;
    if (r.chance(1, 3)) {
        w.xml = "<?xml version=\"1.0\"?>\n<cdm_ncwriter_config>";
        if (k == 0 && r.chance(1, 2)) w.xml += "<default filetype=\"netcdf3_64bit\"/>";
        else w.xml += "<default compressionLevel=\"" + std::to_string(r.range(0, 3)) + "\"/>";
        if (k && r.chance(1, 2)) w.xml += "<dimension name=\"x\" chunkSize=\"" + std::to_string(r.range(1, 3)) + "\"/>";
        w.xml += "</cdm_ncwriter_config>";
    }
    return w;
}
void run_writer(CDMReader_p rd, const WriterCfg& c, const std::string& out)
{
    if (c.xml.empty()) CDMFileReaderFactory::createWriter(rd, c.type, out);
    else CDMFileReaderFactory::createWriter(rd, c.type, out, XMLInputString(c.xml));
}
} // namespace hs


// ---------- simulated dynamic loader ----------
// Plug-ins are linked into the simulator; loading lib<...>netcdf<...>.so resolves to the linked code.
namespace {
struct Plug { const char* tag; const IoPluginInfo* (*info)(); };
const Plug plugs[] = {{"io-netcdf", fimex_ioplugin_info_netcdf}, {"io-grib", fimex_ioplugin_info_grib}, {"io-felt", fimex_ioplugin_info_felt}};
thread_local const char* dl_err;
} // namespace
extern "C" {
void* sim_dlopen(const char* path, int)
{
    sim::yield_point(5);
    sim::Fault f;
    if (sim::fault_now(sim::OP_OPEN, &f)) {
        dl_err = "simulated loader failure";
        return nullptr;
    }
    for (auto& p : plugs)
        if (strstr(path, p.tag)) return const_cast<Plug*>(&p);
    dl_err = "no such plug-in";
    return nullptr;
}
void* sim_dlsym(void* h, const char* sym)
{
    sim::yield_point(5);
    if (!strcmp(sym, "fimex_ioplugin_info")) return reinterpret_cast<void*>(static_cast<Plug*>(h)->info);
    dl_err = "undefined symbol";
    return nullptr;
}
int sim_dlclose(void*) { return 0; }
char* sim_dlerror()
{
    const char* e = dl_err;
    dl_err = nullptr;
    return const_cast<char*>(e);
}
}
namespace hs {
void forget_plugins()
{
    IoFactory::install("netcdf", nullptr);
    IoFactory::install("grib", nullptr);
    IoFactory::install("felt", nullptr);
    setenv("FIMEX_IO_PLUGINS_PATH", (sim::scratch_base + "/plugins-full").c_str(), 1);
}
} // namespace hs

using namespace MetNoFimex;
static void install(const char* id, const IoPluginInfo* i)
{
    IoFactory* f = static_cast<IoFactory*>((*i->create)());
    IoFactory::install(id, IoFactory_p(f, [](IoFactory*) {}));
}
void harness_init()
{
    hs::fixdir = sim::scratch_base + "/fix/";
    mkdir(hs::fixdir.c_str(), 0700);
    const std::string pl = sim::scratch_base + "/plugins";
    mkdir(pl.c_str(), 0700);
    const std::string pf = sim::scratch_base + "/plugins-full";
    mkdir(pf.c_str(), 0700);
    for (const char* n : {"netcdf", "grib", "felt"}) hs::write_file(pf + "/libfimex-io-" + n + FIMEX_IO_PLUGINS_VERSION ".so", "");
    setenv("FIMEX_IO_PLUGINS_PATH", pl.c_str(), 1);
    setenv("TZ", "UTC", 1);
    install("netcdf", fimex_ioplugin_info_netcdf());
    install("grib", fimex_ioplugin_info_grib());
    install("felt", fimex_ioplugin_info_felt());
    // code under test runs here too: what does not survive is left out, so that the runs can show and report it
    for (auto& f : hs::inits()) {
        fflush(stdout);
        fflush(stderr);
        const pid_t c = fork();
        if (c == 0) {
            alarm(100);
            try {
                f();
            } catch (...) {
            }
            _exit(0);
        }
        int st = 1;
        if (c > 0) waitpid(c, &st, 0);
        if (st == 0) f();
        else fprintf(stderr, "fixture: preparation failed, status %d\n", st);
    }
}
