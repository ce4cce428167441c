// Reference model of a dataset as seen through a chain of fimex readers: plain arrays, independent of fimex code.
#pragma once
#include "harness.h"

namespace hs {
struct MVar
{
    std::string name;
    CDMDataType type = CDM_FLOAT;
    std::vector<std::string> shape; // fastest first
    std::vector<size_t> sizes;
    std::vector<double> data;       // packed values
    double scale = 1, offset = 0;
    bool has_fill = false;
    double fill = 0;
    std::string units;
    std::vector<Att> atts;          // all attributes, when known_atts
    bool known_atts = false;
    bool rounded = false;           // packed by the code under test: any of the nearest integers
    double tol = 0;                 // relative tolerance
    double atol = 1e-6;             // absolute tolerance, where any is allowed
    bool converted = false;         // values went through a unit conversion: compared with a small tolerance
    std::set<size_t> lost;          // positions of the unlimited dimension without data: an empty slice may be delivered
    size_t count() const { size_t c = 1; for (auto s : sizes) c *= s; return c; }
    int axis(const std::string& d) const { for (size_t i = 0; i < shape.size(); i++) if (shape[i] == d) return int(i); return -1; }
};
struct View
{
    std::vector<MVar> vars;
    std::vector<Att> atts;
    bool known_atts = false;
    std::string unlim; // name of the unlimited dimension or empty
    const MVar* var(const std::string& n) const { for (auto& v : vars) if (v.name == n) return &v; return nullptr; }
    MVar* var(const std::string& n) { for (auto& v : vars) if (v.name == n) return &v; return nullptr; }
    size_t unlim_len() const;
    size_t dim_len(const std::string& d) const;
    std::vector<std::string> dims() const;
    bool has_dim(const std::string& d) const;
};
View view_of(const Spec& s);
// array operations
MVar take(const MVar& v, const std::string& dim, const std::vector<size_t>& pos);   // select positions
MVar concat(const std::vector<const MVar*>& parts, const std::string& dim);         // along the outermost dimension
std::vector<double> sub(const MVar& v, const std::vector<size_t>& start, const std::vector<size_t>& size);
void take_dim(View& v, const std::string& dim, const std::vector<size_t>& pos);

// read requests
struct Get
{
    std::string var;
    int kind = 0;  // 0 getData, 1 slice by position, 2 slicebuilder, 3.. same, scaled, 6.. same, in unit
    size_t pos = 0;
    std::vector<size_t> start, size;
    std::string unit;
    bool beyond = false; // asks for a position that does not exist: must not deliver data
};
Get random_get(Rng& r, const View& v, bool scaled = true);
// what one of several callers asks for: anything, mostly one variable, or the same as the caller before
std::vector<Get> random_gets(Rng& r, const View& v, int lo, int hi, const std::vector<Get>* before = nullptr);

DataPtr do_get(const CDMReader_p& rd, const Get& g);
std::vector<double> expect_get(const View& v, const Get& g, double* tol);
std::string get_text(const Get& g);
// perform and compare; returns the difference or an empty string; throws what the reader throws
std::string check_get(const CDMReader_p& rd, const View& v, const Get& g);
std::string check_nc(const std::string& path, const View& v, const std::string& ctx = "");
// check that a reader's metadata describes the view
std::string check_cdm(const CDMReader_p& rd, const View& v);

// ---- sources and chains ----
struct Source { CDMReader_p rd; View view; std::vector<ModelReader_p> models; std::vector<std::string> files; std::string text; std::vector<Spec> specs; };
struct SrcOpt { bool file = false; bool mixed = true; SpecOpt spec; int max_stages = 3; bool multi = true; bool scan = false; };
// build a description first (cheap, deterministic), then open it as often as needed
struct ChainPlan
{
    struct Src { Spec spec; int kind; std::string path; }; // kind 0 model, 1 nc3 file, 2 nc4 file
    std::vector<Src> srcs;
    int combine = 0; // 0 single, 1 joinExisting, 2 union, 3 joinNew, 4 joinExisting through an ncml document, a scanned directory or a pattern of names
    std::string ncml, glob; // instead of combining readers
    struct Stage { int kind; std::string a, b; std::vector<size_t> pos; size_t start = 0, len = 0; std::string xml; std::set<std::string> names; };
    std::vector<Stage> stages;
    View view;
    std::string text;
};
ChainPlan plan_chain(Rng& r, const SrcOpt& o);  // also creates the source files
struct Chain { CDMReader_p rd; std::vector<ModelReader_p> models; };
Chain open_chain(const ChainPlan& p);
} // namespace hs
