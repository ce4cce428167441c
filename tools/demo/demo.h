// small source dataset for the demonstrations: value(var, index) = known formula
#pragma once
#include "fimex/CDM.h"
#include "fimex/CDMAttribute.h"
#include "fimex/CDMDimension.h"
#include "fimex/CDMException.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReader.h"
#include "fimex/CDMReaderUtils.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/CDMVariable.h"
#include "fimex/Data.h"
#include "fimex/DataUtils.h"
#include "fimex/SliceBuilder.h"
#include "fimex/XMLInputFile.h"
#include "fimex/XMLInputString.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <netcdf.h>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace MetNoFimex;
struct Src : public CDMReader
{
    std::map<std::string, std::vector<float>> data; // all values, fastest dimension first
    std::function<void(const std::string&, size_t)> hook;
    Src& dim(const std::string& n, size_t len, bool unlim = false)
    {
        CDMDimension d(n, len);
        d.setUnlimited(unlim);
        cdm_->addDimension(d);
        return *this;
    }
    Src& var(const std::string& n, const std::vector<std::string>& shape, CDMDataType t = CDM_FLOAT)
    {
        cdm_->addVariable(CDMVariable(n, t, shape));
        size_t c = 1;
        for (auto& s : shape) c *= cdm_->getDimension(s).getLength();
        std::vector<float>& v = data[n];
        for (size_t i = 0; i < c; i++) v.push_back(float(i) + 0.5f * (t == CDM_FLOAT || t == CDM_DOUBLE));
        return *this;
    }
    Src& att(const std::string& v, const std::string& n, const std::string& x) { cdm_->addAttribute(v, CDMAttribute(n, x)); return *this; }
    Src& values(const std::string& n, const std::vector<float>& v) { data[n] = v; return *this; }
    CDM& cdm() { return *cdm_; }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& n, size_t pos) override
    {
        if (hook) hook(n, pos);
        const CDMVariable& v = cdm_->getVariable(n);
        const std::vector<float>& a = data[n];
        size_t c = a.size(), off = 0;
        if (cdm_->hasUnlimitedDim(v)) {
            c /= cdm_->getUnlimitedDim()->getLength();
            off = c * pos;
        }
        DataPtr d = createData(v.getDataType(), c);
        for (size_t i = 0; i < c; i++) d->setValue(i, a[off + i]);
        return d;
    }
};
inline std::vector<double> vals(DataPtr d)
{
    std::vector<double> r;
    auto a = d->asDouble();
    for (size_t i = 0; i < d->size(); i++) r.push_back(a[i]);
    return r;
}
inline int bad(const char* m) { fprintf(stderr, "DEMO: %s\n", m); fflush(stderr); _exit(1); return 1; }
