// Shared pieces of the scenarios: model datasets, a simulated source reader, oracles.
#pragma once
#include "simrt.h"

#include "fimex/CDM.h"
#include "fimex/CDMAttribute.h"
#include "fimex/CDMDimension.h"
#include "fimex/CDMException.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReader.h"
#include "fimex/CDMReaderUtils.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/CDMVariable.h"
#include "fimex/Data.h"
#include "fimex/DataDecl.h"
#include "fimex/DataUtils.h"
#include "fimex/SliceBuilder.h"
#include "fimex/XMLInputFile.h"
#include "fimex/XMLInputString.h"

#include <functional>
#include <set>
#include <memory>
#include <string>
#include <vector>

namespace hs {
using namespace MetNoFimex;
using sim::Rng;

struct Dim { std::string name; size_t len; bool unlim = false; };
struct Var
{
    std::string name;
    CDMDataType type = CDM_FLOAT;
    std::vector<std::string> shape; // fastest varying first, as in fimex
    std::vector<CDMAttribute> atts;
    std::vector<double> fixed;      // explicit values (coordinates); otherwise formula
    bool has_fill = false;
    double fill = 0;
    int undef_every = 0;            // every n-th value is missing
    uint64_t salt = 0;
    bool in_memory = false;         // data attached to the CDM variable
    bool lost = false;              // source delivers no data (empty slice) for this variable
    int lost_step = -1;             // source delivers an empty slice for this unlimited position
};
struct Spec
{
    std::vector<Dim> dims;
    std::vector<Var> vars;
    std::vector<CDMAttribute> atts;
    const Dim* dim(const std::string& n) const;
    const Var* var(const std::string& n) const;
    const Dim* unlim() const;
    bool has_unlim(const Var& v) const;
    std::vector<size_t> sizes(const Var& v) const; // fastest first
    size_t count(const Var& v) const;
    std::string text() const;
};
// raw (packed) value of variable v at linear index i (fastest first)
double value(const Spec& s, const Var& v, size_t i);
// raw values of a slice
std::vector<double> slice_values(const Spec& s, const Var& v, const std::vector<size_t>& start, const std::vector<size_t>& size);
std::vector<double> unlim_values(const Spec& s, const Var& v, size_t pos);
DataPtr make_data(CDMDataType t, const std::vector<double>& v);
double quantise(CDMDataType t, double v);
CDM make_cdm(const Spec& s);

// simulated upstream source; faults of class OP_UPSTREAM fire here
class ModelReader : public CDMReader
{
public:
    explicit ModelReader(const Spec& s);
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& varName, size_t unLimDimPos) override;
    DataPtr getDataSlice(const std::string& varName, const SliceBuilder& sb) override;
    Spec spec;
    int calls = 0, failures = 0, empties = 0, inside = 0;
    std::function<void(const std::string&, long)> on_slice; // before delivering
private:
    void enter(const std::string& v, long pos, bool& empty);
};
typedef std::shared_ptr<ModelReader> ModelReader_p;

struct SpecOpt
{
    bool nc3 = false;       // only types of the classic format
    bool allow_no_unlim = true;
    int max_len = 6;
    int max_vars = 5;
    bool missing = true, packed = true, lost = false, scalars = true, strings = false, atts = false;
    bool geo = false;       // x/y carry CF projection coordinates, with lat/lon possible
    bool levels = false;
    int min_unlim = 0;
};
Spec random_spec(Rng& r, const SpecOpt& o);

// ---------- outcome of one fimex operation ----------
struct Outcome { bool threw = false; std::string what; bool badalloc = false; };
Outcome attempt(const std::function<void()>& f);

// ---------- oracles on files, using the bare netCDF library ----------
struct Att { std::string name; CDMDataType type; std::vector<double> num; std::string str; };
Att to_att(const CDMAttribute& a);
double default_fill(CDMDataType t);
std::string compare_atts(const std::string& of, std::vector<Att> got, std::vector<Att> want);
std::string check_nc_meta(int id, const std::string& var, CDMDataType type, const std::vector<std::string>& shape, const std::vector<Att>& atts);
struct NcVarData { int type = 0; std::vector<size_t> dims; std::vector<double> v; std::vector<std::string> dimnames; };
struct NcOpen
{
    int id = -1, err = 0;
    explicit NcOpen(const std::string& path, bool write = false);
    ~NcOpen();
    int get(const std::string& var, NcVarData& out); // netCDF error code
};
// compare file content with model; returns an empty string or the first difference.
// types: optional variable -> netCDF type changes applied by the writer
std::string check_nc(const std::string& path, const Spec& s, const std::string& ctx = "");
std::string compare_values(const std::string& ctx, const std::vector<double>& got, const std::vector<double>& want, double rel = 0);
std::vector<double> to_doubles(const DataPtr& d);
std::string read_file(const std::string& path);
void write_file(const std::string& path, const std::string& data);
void copy_file(const std::string& a, const std::string& b);
bool file_exists(const std::string& path);
uint64_t hash_str(const std::string& s);
void note(const std::vector<double>& v);
// write a classic or netCDF-4 file holding the model data with the bare netCDF library
void write_nc(const std::string& path, const Spec& s, bool nc4);

CDMReader_p open_reader(const std::string& type, const std::string& file, const std::string& cfg = "");

// random read request on a variable
struct Req { std::string var; int kind = 0; size_t pos = 0; std::vector<size_t> start, size; std::string unit; };
Req random_req(Rng& r, const Spec& s);
DataPtr do_req(CDMReader_p rd, const Req& q);
std::vector<double> expect_req(const Spec& s, const Req& q);
std::string req_text(const Req& q);

extern std::string fixdir; // fixtures made once per process
void on_init(std::function<void()> f); // registered fixture creators
struct InitReg { explicit InitReg(void (*f)()); };
} // namespace hs
namespace hs {
// ---------- fault planning ----------
struct FaultKindOpt { int kind; int weight; };
// count operations of a fault-free sequential rehearsal
struct OpCount { uint64_t n[sim::OP_CLASS_COUNT]; };
OpCount rehearse(const std::function<void()>& f);
std::vector<sim::Fault> draw_faults(Rng& r, const OpCount& c, const std::vector<FaultKindOpt>& kinds, int maxn = 2);
void use_faults(const std::vector<sim::Fault>& f); // takes the plan's faults when replaying
std::string fault_text(const std::vector<sim::Fault>& f);
// random writer settings: file type name and optional xml configuration
struct WriterCfg { std::string type, xml; bool nc3; };
WriterCfg random_writer(Rng& r);
void run_writer(CDMReader_p rd, const WriterCfg& c, const std::string& out);
// forget the installed input/output drivers: the next use loads them as plug-ins
void forget_plugins();
// expected content of a written file when the source delivered no data for some steps
} // namespace hs
