From 600a05eb3be245e62562335e0313d57e1da96727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:18 +0000
Subject: [PATCH 01/69] fix: report NetCDF write, sync and close errors to the
 caller instead of terminating or losing them

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index cfe7ddb..aa269db 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -39,6 +39,7 @@
 
 #include "NetCDF_Utils.h"
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <numeric>
@@ -595,7 +596,7 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
     // see http://www.unidata.ucar.edu/support/help/MailArchives/netcdf/msg10905.html
     // use unLimDimPos = -1 for variables without unlimited dimension
 
-    bool exceptions = false;
+    std::atomic<bool> exceptions(false);
 #ifdef _OPENMP
 #if (defined(__GNUC__) && __GNUC__ >= 9) || defined(__clang__)
 #pragma omp parallel for default(none) shared(logger, cdmVars, ncVarMap, maxUnLim, unLimDimId, exceptions)
@@ -642,7 +643,7 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
             std::unique_ptr<size_t[]> count;
             std::unique_ptr<size_t[]> start;
             int unLimDimIdx = -1;
-            {
+            try {
                 OmpScopedLock ncLock(Nc::getMutex());
 
                 ncCheck(nc_inq_varndims(ncFile->ncId, varId, &n_dims));
@@ -661,6 +662,10 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
                     start[i] = 0;
                     count[i] = dim_len;
                 }
+            } catch (std::exception& ex) { // must not leave the parallel region
+                LOG4FIMEX(logger, Logger::ERROR, "exception " << ex.what() << " while preparing to write variable " << varName);
+                exceptions = true;
+                continue;
             }
             LOG4FIMEX(logger, Logger::DEBUG, "dimids of " << varName << ": " << join(&dim_ids[0], &dim_ids[0] + n_dims));
 
@@ -720,9 +725,11 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
                 try {
                     ncPutValues(data, ncFile->ncId, varId, cdmDataType2ncType(cdmVar.getDataType()), n_dims, start.get(), count.get());
                 } catch (std::exception& ex) {
+                    exceptions = true;
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "exception " << ex.what() << " while writing variable " << varName);
                 } catch (...) {
+                    exceptions = true;
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "unknown exception while writing variable " << varName);
                 }
@@ -730,7 +737,12 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
         }
 #ifndef HAVE_MPI
         if (unLimDimPos >= 0) {
-            NCMUTEX_LOCKED(ncCheck(nc_sync(ncFile->ncId))); // sync every 'time/unlimited' step (does not work with MPI)
+            try {
+                NCMUTEX_LOCKED(ncCheck(nc_sync(ncFile->ncId))); // sync every 'time/unlimited' step (does not work with MPI)
+            } catch (std::exception& ex) { // must not leave the parallel region
+                LOG4FIMEX(logger, Logger::ERROR, "exception " << ex.what() << " while syncing unlimited dim position " << unLimDimPos);
+                exceptions = true;
+            }
         }
 #endif
     }
@@ -748,6 +760,11 @@ void NetCDF_CDMWriter::init()
 
     // write data
     writeData(ncVarIdMap);
+
+    // data may still be buffered, an error at sync or close means that the file is incomplete
+    NCMUTEX_LOCKED(ncCheck(nc_sync(ncFile->ncId), "syncing " + ncFile->filename));
+    ncFile->isOpen = false;
+    NCMUTEX_LOCKED(ncCheck(nc_close(ncFile->ncId), "closing " + ncFile->filename));
 }
 
 NetCDF_CDMWriter::~NetCDF_CDMWriter() {}
-- 
2.43.0


From b2281037681867c60351a84c810bc0dfcf5b2912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 02/69] fix: CDMExtractor keeps the data order when an inner
 dimension is reduced to separate positions

---
 src/CDMExtractor.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 8cc28b2..c066676 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -114,9 +114,22 @@ DataPtr CDMExtractor::getDataSlice_(const std::string& varName, const SliceBuild
         size_t sbStart, sbSize;
         sb.getStartAndSize(dimName, sbStart, sbSize);
         if (foundDim == dimSlices_.end()) {
-            // handle pure sb changes
-            for (SliceBuilder& sliceb : slices)
-                sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
+            if (slices.size() <= 1) {
+                // handle pure sb changes
+                for (SliceBuilder& sliceb : slices)
+                    sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
+            } else {
+                // a faster varying dimension is already splitted up, need to follow the order of the data
+                std::vector<SliceBuilder> newSlices;
+                for (size_t i = sbStart; i < sbStart + sbSize; ++i) {
+                    for (SliceBuilder& sliceb : slices) {
+                        SliceBuilder lsb = sliceb; // make a copy
+                        lsb.setStartAndSize(dim.getName(), i, 1);
+                        newSlices.push_back(lsb);
+                    }
+                }
+                slices = std::move(newSlices);
+            }
         } else if (foundDim->second.empty()) {
             for (SliceBuilder& sliceb : slices)
                 sliceb.setStartAndSize(dim.getName(), sbStart, 0);
-- 
2.43.0


From 38121725f91ec19fb8dab7053f256fe2aa942050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 03/69] fix: create the default logger class only once when
 several threads log first

---
 src/Logger.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Logger.cc b/src/Logger.cc
index 0005c9d..75df9b0 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -35,6 +35,7 @@
 namespace MetNoFimex {
 
 static OmpMutex loggerMutex;
+static OmpMutex loggerClassMutex; // protects the creation of the default logger class
 
 // the standard implementation of Logger
 class Log2StderrLogger : public LoggerImpl {
@@ -122,10 +123,16 @@ bool Logger::setClass(LogClass logClass)
 
 LoggerClass* getLoggerClass()
 {
-    // FIXME should lock here ...
-    if (!loggerClass_)
-        // ... and unlock here
-        Logger::setClass(Logger::LOG4CPP);
+    // only one thread may create the default class, as setClass deletes any class created earlier
+    OmpScopedLock classLock(loggerClassMutex);
+    {
+        OmpScopedLock lock(loggerMutex);
+        if (loggerClass_)
+            return loggerClass_;
+    }
+    Logger::setClass(Logger::LOG4CPP);
+
+    OmpScopedLock lock(loggerMutex);
     return loggerClass_;
 }
 
-- 
2.43.0


From c9f8d639059fc673bc52444a8fb55c2af6bb2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 04/69] fix: let concurrent first users wait until all io
 plugins are installed

---
 src/CDMFileReaderFactory.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CDMFileReaderFactory.cc b/src/CDMFileReaderFactory.cc
index f3e9c74..7262776 100644
--- a/src/CDMFileReaderFactory.cc
+++ b/src/CDMFileReaderFactory.cc
@@ -34,6 +34,7 @@
 #include "fimex/IoFactory.h"
 #include "fimex/IoPlugin.h"
 #include "fimex/Logger.h"
+#include "fimex/MutexLock.h"
 #include "fimex/StringUtils.h"
 #include "fimex/Type2String.h"
 #include "fimex/XMLUtils.h"
@@ -61,6 +62,7 @@ namespace {
 Logger_p logger = getLogger("fimex.CDMFileReaderFactory");
 
 static bool haveScannedForIoPlugins = false;
+static OmpMutex scanForIoPluginsMutex; // other threads have to wait until all plugins are installed
 
 std::vector<std::string> getIoPluginsDirs()
 {
@@ -77,6 +79,7 @@ std::vector<std::string> getIoPluginsDirs()
 // static
 void scanForIoPlugins()
 {
+    OmpScopedLock lock(scanForIoPluginsMutex);
     if (haveScannedForIoPlugins)
         return;
     haveScannedForIoPlugins = true;
-- 
2.43.0


From b4498e052632f7c2ebf0c7f90d200a1757f9d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:25 +0000
Subject: [PATCH 05/69] fix: free time units while holding the units mutex

ut_free resets the global udunits status, so that another thread could miss
the error of its own ut_parse or ut_get_converter and use a null converter.
---
 src/TimeUnit.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/TimeUnit.cc b/src/TimeUnit.cc
index d4a9240..4a65f2d 100644
--- a/src/TimeUnit.cc
+++ b/src/TimeUnit.cc
@@ -45,6 +45,8 @@ extern OmpMutex& getUnitsMutex();
 
 static void void_ut_free(void* ptr)
 {
+    // ut_free resets the global udunits status, which other threads may be about to check
+    OmpScopedLock lock(getUnitsMutex());
     ut_free(reinterpret_cast<ut_unit*>(ptr));
 }
 
-- 
2.43.0


From 205c9aab191c32a85c5d707cf87d64506535a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:25 +0000
Subject: [PATCH 06/69] fix: keep stderr log messages of several threads apart,
 and do not leak a logger implementation created twice

---
 src/Logger.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Logger.cc b/src/Logger.cc
index 75df9b0..df57188 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -31,6 +31,7 @@
 #include <algorithm>
 #include <iostream>
 #include <memory>
+#include <sstream>
 
 namespace MetNoFimex {
 
@@ -66,7 +67,10 @@ void Log2StderrLogger::log(Logger::LogLevel level, const std::string& message, c
     case Logger::DEBUG: levelName = "DEBUG: "; break;
     case Logger::OFF:   levelName = "OFF"; break;
     }
-    std::cerr << levelName << message << " in " << filename << " at line " << lineNumber << std::endl;
+    // one single output operation, to keep messages from several threads apart
+    std::ostringstream line;
+    line << levelName << message << " in " << filename << " at line " << lineNumber << '\n';
+    std::cerr << line.str() << std::flush;
 }
 
 class Log2StderrClass : public LoggerClass {
@@ -194,6 +198,8 @@ LoggerImpl* Logger::impl()
         }
         if (!pimpl_)
             pimpl_ = i;
+        else
+            delete i; // another thread was faster
     }
     return pimpl_;
 }
-- 
2.43.0


From 35cc57265072266178c4245263322a8b6b7f23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:00 +0000
Subject: [PATCH 07/69] fix: use a separate aggregator in each call of forward
 interpolation, it may be called by several threads

---
 src/CachedForwardInterpolation.cc | 32 +++++++++++++++++++++++--------
 src/CachedForwardInterpolation.h  |  4 +++-
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 60c392d..811c406 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -64,7 +64,11 @@ struct AggSimple : Aggregator
 {
     size_t count;
     float val;
-    AggSimple() { reset(0); }
+    AggSimple()
+        : count(0)
+        , val(0)
+    {
+    }
     float get_and_reset() override { return reset(val); }
     float reset(float v)
     {
@@ -130,9 +134,10 @@ float AggMedian::get_and_reset()
 }
 
 // pointsOnXAxis map each point in inData[y*inX+x] to a x-position in outData
-CachedForwardInterpolation::CachedForwardInterpolation(const std::string& xDimName, const std::string& yDimName, int funcType, shared_array<double> pOnX,
+CachedForwardInterpolation::CachedForwardInterpolation(const std::string& xDimName, const std::string& yDimName, int funcType_, shared_array<double> pOnX,
                                                        shared_array<double> pOnY, size_t inx, size_t iny, size_t outx, size_t outy)
     : CachedInterpolationInterface(xDimName, yDimName, inx, iny, outx, outy)
+    , funcType(funcType_)
 {
     const size_t outLayerSize = outX * outY;
     pointsInIn = make_shared_array<vector<size_t>>(outLayerSize);
@@ -182,22 +187,32 @@ CachedForwardInterpolation::CachedForwardInterpolation(const std::string& xDimNa
         inY = redInY;
     }
 
-    undefAggr = false;
+    undefAggr = (funcType == MIFI_INTERPOL_FORWARD_UNDEF_SUM || funcType == MIFI_INTERPOL_FORWARD_UNDEF_MEAN ||
+                 funcType == MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN || funcType == MIFI_INTERPOL_FORWARD_UNDEF_MAX ||
+                 funcType == MIFI_INTERPOL_FORWARD_UNDEF_MIN);
+    createAggregator(); // throws if funcType is unknown
+}
+
+// interpolateValues may be called by several threads, i.e. each call needs its own aggregator
+std::unique_ptr<Aggregator> CachedForwardInterpolation::createAggregator() const
+{
+    std::unique_ptr<Aggregator> agg;
     // clang-format off
     switch (funcType) {
-    case MIFI_INTERPOL_FORWARD_UNDEF_SUM: undefAggr = true; // fallthrough
+    case MIFI_INTERPOL_FORWARD_UNDEF_SUM: // fallthrough
     case MIFI_INTERPOL_FORWARD_SUM: agg.reset(new AggSum()); break;
-    case MIFI_INTERPOL_FORWARD_UNDEF_MEAN: undefAggr = true; // fallthrough
+    case MIFI_INTERPOL_FORWARD_UNDEF_MEAN: // fallthrough
     case MIFI_INTERPOL_FORWARD_MEAN: agg.reset(new AggMean()); break;
-    case MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN: undefAggr = true; // fallthrough
+    case MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN: // fallthrough
     case MIFI_INTERPOL_FORWARD_MEDIAN: agg.reset(new AggMedian(maxPointsInIn)); break;
-    case MIFI_INTERPOL_FORWARD_UNDEF_MAX: undefAggr = true; // fallthrough
+    case MIFI_INTERPOL_FORWARD_UNDEF_MAX: // fallthrough
     case MIFI_INTERPOL_FORWARD_MAX: agg.reset(new AggMax()); break;
-    case MIFI_INTERPOL_FORWARD_UNDEF_MIN: undefAggr = true; // fallthrough
+    case MIFI_INTERPOL_FORWARD_UNDEF_MIN: // fallthrough
     case MIFI_INTERPOL_FORWARD_MIN: agg.reset(new AggMin()); break;
     default: throw CDMException("unknown forward interpolation method: " + type2string(funcType));
     }
     // clang-format on
+    return agg;
 }
 
 CachedForwardInterpolation::~CachedForwardInterpolation() {}
@@ -209,6 +224,7 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     size_t inZ = size / inLayerSize;
     newSize = outLayerSize*inZ;
     auto outData = make_shared_array<float>(newSize);
+    const auto agg = createAggregator();
     for (size_t z = 0; z < inZ; ++z) {
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
diff --git a/src/CachedForwardInterpolation.h b/src/CachedForwardInterpolation.h
index f9fc9a4..33888d3 100644
--- a/src/CachedForwardInterpolation.h
+++ b/src/CachedForwardInterpolation.h
@@ -38,9 +38,11 @@ class CachedForwardInterpolation : public CachedInterpolationInterface
 private:
     shared_array<std::vector<size_t>> pointsInIn;
     size_t maxPointsInIn;
-    std::unique_ptr<Aggregator> agg;
+    int funcType;
     bool undefAggr;
 
+    std::unique_ptr<Aggregator> createAggregator() const;
+
 public:
     CachedForwardInterpolation(const std::string& xDimName, const std::string& yDimName, int funcType, shared_array<double> pointsOnXAxis,
                                shared_array<double> pointsOnYAxis, size_t inX, size_t inY, size_t outX, size_t outY);
-- 
2.43.0


From 278702fb557beda7879afbce0a791467ba1505e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:00 +0000
Subject: [PATCH 08/69] fix: forward interpolation of all levels, not only the
 first one

---
 src/CachedForwardInterpolation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 811c406..43fdb96 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -229,7 +229,7 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
             for (size_t ii : pointsInIn[i]) {
-                const float val = inData[ii];
+                const float val = inData[z * inLayerSize + ii];
                 if (undefAggr || !mifi_isnan(val))
                     agg->push(val);
             }
-- 
2.43.0


From 35501d007bd027ac29678294fe9c9bc70e059c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:34 +0000
Subject: [PATCH 09/69] fix: protect the accumulation cache of CDMProcessor
 against concurrent readers and modification of the returned data

---
 src/CDMProcessor.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 850a525..b31f685 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -34,6 +34,7 @@
 #include "fimex/CachedVectorReprojection.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
+#include "fimex/MutexLock.h"
 #include "fimex/Type2String.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/CoordinateSystem.h"
@@ -104,6 +105,7 @@ struct CDMProcessor::CDMProcessorImpl
     // horizontalId -> cachedVectorReprojection
     map<string, CachedVectorReprojection_p> cachedVectorReprojection;
     SliceCache sliceCache;
+    OmpMutex sliceCacheMutex;
     VerticalVelocityComps vvComp;
 
     VerticalConverter_p altitudeConverter;
@@ -609,13 +611,17 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         LOG4FIMEX(logger, Logger::DEBUG, varName << " at slice " << unLimDimPos << " accumulate");
         if (unLimDimPos > 0) { // cannot accumulate first
             size_t start = 0;
-            if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
-                start = p_->sliceCache.ulimDimPos + 1;
-                if (p_->sliceCache.ulimDimPos == unLimDimPos) {
-                    data = p_->sliceCache.data;
+            SliceCache cached;
+            {
+                OmpScopedLock lock(p_->sliceCacheMutex);
+                cached = p_->sliceCache;
+            }
+            if (cached.varName == varName && cached.ulimDimPos <= unLimDimPos) {
+                start = cached.ulimDimPos + 1;
+                if (cached.ulimDimPos == unLimDimPos) {
+                    data = cached.data->clone(); // the receiver might modify data
                 } else {
-                    DataPtr dataP = p_->sliceCache.data;
-                    addDataP2Data(data, dataP, false);
+                    addDataP2Data(data, cached.data, false);
                 }
             }
             // data contains last slice + eventually cache
@@ -624,9 +630,11 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                 addDataP2Data(data, dataP, i == 0);
             }
             // fill the cache
-            p_->sliceCache.varName = varName;
-            p_->sliceCache.ulimDimPos = unLimDimPos;
-            p_->sliceCache.data = data;
+            cached.varName = varName;
+            cached.ulimDimPos = unLimDimPos;
+            cached.data = data->clone();
+            OmpScopedLock lock(p_->sliceCacheMutex);
+            p_->sliceCache = cached;
         }
     }
 
-- 
2.43.0


From e8f3845dd43ae0dae5231631e56059477f59d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:34 +0000
Subject: [PATCH 10/69] fix: keep a copy of the variable name in the theta2T
 conversion

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 2a36e85..31d2c20 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -214,7 +214,7 @@ public:
 private:
     CDMReader_p reader_;
     CoordinateSystem_cp cs_;
-    const std::string& theta_;
+    const std::string theta_;
 };
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
-- 
2.43.0


From dc8cdf474bf56b210bb3754dde2043b6140234fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:34 +0000
Subject: [PATCH 11/69] fix: border smoothing of variables without horizontal
 dimensions

---
 src/CDMBorderSmoothing.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index 9e74853..20531d3 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -101,7 +101,8 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
         THROW("variable '" << varName << "' unknown in border smoothing");
 
     const CDM& cdmO = p->interpolatedO->getCDM();
-    if (cdm_->hasDimension(varName) or not cdmO.hasVariable(varName))
+    const bool isHorizontal = cdm_->getVariable(varName).checkDimension(p->nameX) and cdm_->getVariable(varName).checkDimension(p->nameY);
+    if (cdm_->hasDimension(varName) or not cdmO.hasVariable(varName) or not isHorizontal)
         return p->readerI->getDataSlice(varName, unLimDimPos); // not scaled
 
     const std::string unitsI = p->readerI->getCDM().getUnits(varName);
-- 
2.43.0


From d42ca028290910d1b72ecf47e73ff53e7edc27e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:34 +0000
Subject: [PATCH 12/69] fix: no access outside of the grid when reprojecting
 vectors on grids with only 2 rows or columns

---
 src/reproject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 1ef4e2d..5916791 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -372,8 +372,8 @@ Matrix_cp get_vector_reproject_matrix_proj(crs2crs& c2c, const double* in_x_fiel
             if (oy > 1) {
                 deltaXY = defaultDelta * (in_x_field[(1) * ox + (1)] - in_x_field[0]);
                 // and test another place in case of singularities
-                size_t ox_2 = ox / 2;
-                size_t oy_2 = oy / 2;
+                const size_t ox_2 = std::min(ox / 2, ox - 2);
+                const size_t oy_2 = std::min(oy / 2, oy - 2);
                 double deltaX2 = defaultDelta * (in_x_field[(oy_2 + 1) * ox + (ox_2 + 1)] - in_x_field[(oy_2)*ox + ox_2]);
                 deltaXY += deltaX2;
                 deltaXY /= 2;
-- 
2.43.0


From 7b7730d2d3fa2c67c9ed1d67fb4f506c4df5de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:59 +0000
Subject: [PATCH 13/69] fix: bilinear interpolation does not read below the
 last row of the grid

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 89e808e..3279d7b 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -319,7 +319,7 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
                 }
             } else {
                 y0 = lround(y);
-                if ((0 <= y0) && (y0 <= iy)) {
+                if ((0 <= y0) && (y0 < iy)) {
                     // nearest neighbor in y
                     size_t pos = mifi_3d_array_pos(x0, y0, 0, ix, iy, iz);
                     for (int z = 0; z < iz; ++z) {
-- 
2.43.0


From 4c693a67dc2e2e1e2ce383e20f210e1c5f0d5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:47 +0000
Subject: [PATCH 14/69] fix: find the direction of the pressure axis without
 reading outside of the pressure data when points are undefined

---
 .../verticalTransform/PressureIntegrationToAltitudeConverter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
index f86dce0..4227f02 100644
--- a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
+++ b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
@@ -140,8 +140,8 @@ DataPtr PressureIntegrationToAltitudeConverter::getDataSlice(const SliceBuilder&
     {
         ArrayDims dimsP = pressure.dims;
         ArrayGroup groupP;
+        set_not_shared(zName, dimsP); // before adding, otherwise zName is looped over, too
         groupP.add(dimsP);
-        set_not_shared(zName, dimsP);
         groupP.minimizeShared(0);
         LOG4FIMEX(logger, Logger::DEBUG, "groupP rank=" << groupP.rank());
         Loop loopP(groupP);
-- 
2.43.0


From bcba0b02b5d77505d67a92e396ed68d9158850c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:27 +0000
Subject: [PATCH 15/69] fix: report missing vertical level data instead of
 crashing

---
 src/CDMPressureConversions.cc  | 6 ++++++
 src/CDMVerticalInterpolator.cc | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 31d2c20..87d221e 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -220,6 +220,8 @@ private:
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
 {
     DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    if (!pressureData)
+        throw CDMException("no pressure data");
     auto pressureValues = dataAs<VerticalData_t>(pressureData);
     const size_t size = pressureData->size();
 
@@ -313,6 +315,8 @@ private:
 DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
 {
     DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    if (!pressureData)
+        throw CDMException("no pressure data");
     auto pressureValues = dataAs<VerticalData_t>(pressureData);
     const size_t size = pressureData->size();
 
@@ -423,6 +427,8 @@ private:
 DataPtr OmegaVerticalConverter::getDataSlice(size_t unLimDimPos)
 {
     DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    if (!pressureData)
+        throw CDMException("no pressure data");
     auto pressureValues = dataAs<VerticalData_t>(pressureData); // unit: hPa
     const size_t size = pressureData->size();
     VerticalDataArray airtempValues = dataAs<VerticalData_t>(checkData(reader_->getScaledDataSliceInUnit(temperature_, "K", unLimDimPos), size, temperature_));
diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 15324d1..739f5b1 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -375,6 +375,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         oConverter = verticalConverter(pimpl_->templateCS, dataReader_, pimpl_->verticalType);
         oVerticalData = verticalData4D(oConverter, dataReader_->getCDM(), unLimDimPos);
     }
+    if (!iVerticalData || (oConverter && !oVerticalData))
+        throw CDMException("no vertical level data for '" + varName + "'");
 
     int (*intFunc)(const float* infieldA, const float* infieldB, float* outfield, const size_t n, const double a, const double b, const double x) = 0;
     switch (pimpl_->verticalInterpolationMethod) {
-- 
2.43.0


From 86e9c995ebddaeba021c4c54cb6ce5e4c3562b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:51 +0000
Subject: [PATCH 16/69] fix: exceptions in parallel loops of FillWriter and
 Null_CDMWriter reach the caller instead of terminating

---
 src/FillWriter.cc     | 12 ++++++++++++
 src/Null_CDMWriter.cc | 38 +++++++++++++++++++++++++-------------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 6b54abe..4438df0 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -30,11 +30,13 @@
 #include "fimex/CDMException.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
+#include "fimex/MutexLock.h"
 #include "fimex/SliceBuilder.h"
 #include "fimex/TokenizeDotted.h"
 #include "fimex/XMLUtils.h"
 
 #include <algorithm>
+#include <exception>
 #include <map>
 #include <set>
 #include <utility>
@@ -190,10 +192,13 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
     // process variables
     const auto iVars = iCdm.getVariables();
     const int varVecSize = iVars.size();
+    OmpMutex exceptionMutex;
+    std::exception_ptr exception;
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
     for (int iVar = 0; iVar < varVecSize; iVar++) {
+      try {
         const auto& iv = iVars.at(iVar);
         LOG4FIMEX(logger, Logger::DEBUG, "processing variable  '" << iv.getName() << "'");
         if (!oCdm.hasVariable(iv.getName())) {
@@ -275,7 +280,14 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
             io->putDataSlice(iv.getName(), slice.second, inData);
         }
+      } catch (...) { // must not leave the parallel region
+          OmpScopedLock lock(exceptionMutex);
+          if (!exception)
+              exception = std::current_exception();
+      }
     }
+    if (exception)
+        std::rethrow_exception(exception);
     if (!unusableIDims.empty())
         throw CDMException("FillWriter finished with errors in dimension-mapping");
 }
diff --git a/src/Null_CDMWriter.cc b/src/Null_CDMWriter.cc
index f63856f..e1491a9 100644
--- a/src/Null_CDMWriter.cc
+++ b/src/Null_CDMWriter.cc
@@ -37,6 +37,8 @@
 #include "fimex/mifi_mpi.h"
 #endif
 
+#include <exception>
+
 namespace MetNoFimex {
 
 namespace {
@@ -113,6 +115,8 @@ Null_CDMWriter::Null_CDMWriter(const CDMReader_p cdmReader, const std::string& o
     // write data
     const CDMDimension* unLimDim = cdm.getUnlimitedDim();
     const long long maxUnLim = (unLimDim ? unLimDim->getLength() : 0);
+    OmpMutex exceptionMutex;
+    std::exception_ptr exception;
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
@@ -128,22 +132,30 @@ Null_CDMWriter::Null_CDMWriter(const CDMReader_p cdmReader, const std::string& o
             }
         }
 #endif
-        for (const CDMVariable& cdmVar : cdmVars) {
-            const bool has_unlimited = cdm.hasUnlimitedDim(cdmVar);
-            DataPtr data;
-            if (unLimDimPos == -1 && !has_unlimited) {
-                data = cdmReader->getData(cdmVar.getName());
-            } else if (unLimDimPos >= 0 && has_unlimited) {
-                data = cdmReader->getDataSlice(cdmVar.getName(), unLimDimPos);
-            } else {
-                continue;
-            }
-            if (!convertData(cdmVar.getDataType(), data)) {
-                throw CDMException("problems writing data to var " + cdmVar.getName() + ": " + ", datalength: " + type2string(data->size()) +
-                                   ", datatype: " + type2string(cdmVar.getDataType()));
+        try {
+            for (const CDMVariable& cdmVar : cdmVars) {
+                const bool has_unlimited = cdm.hasUnlimitedDim(cdmVar);
+                DataPtr data;
+                if (unLimDimPos == -1 && !has_unlimited) {
+                    data = cdmReader->getData(cdmVar.getName());
+                } else if (unLimDimPos >= 0 && has_unlimited) {
+                    data = cdmReader->getDataSlice(cdmVar.getName(), unLimDimPos);
+                } else {
+                    continue;
+                }
+                if (data && !convertData(cdmVar.getDataType(), data)) {
+                    throw CDMException("problems writing data to var " + cdmVar.getName() + ": " + ", datalength: " + type2string(data->size()) +
+                                       ", datatype: " + type2string(cdmVar.getDataType()));
+                }
             }
+        } catch (...) { // must not leave the parallel region
+            OmpScopedLock lock(exceptionMutex);
+            if (!exception)
+                exception = std::current_exception();
         }
     }
+    if (exception)
+        std::rethrow_exception(exception);
 }
 
 Null_CDMWriter::~Null_CDMWriter()
-- 
2.43.0


From c309e43e5de8597d16878b038b1e573022fdff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:13 +0000
Subject: [PATCH 17/69] fix: reading a time slice of a NetCDF file after fork
 does not deadlock, and a failed re-open is not forgotten

---
 src/io/netcdf/NetCDF_CDMReader.cc |  3 ++-
 src/io/netcdf/NetCDF_Utils.cc     | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index 7e51ee8..2c9e5f9 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -137,8 +137,9 @@ DataPtr NetCDF_CDMReader::getDataSlice(const std::string& varName, size_t unLimD
         return getDataSliceFromMemory(var, unLimDimPos);
     }
 
+    ncFile->reopen_if_forked(); // locks the mutex
+
     OmpScopedLock lock(Nc::getMutex());
-    ncFile->reopen_if_forked();
     int varid;
     ncCheck(nc_inq_varid(ncFile->ncId, var.getName().c_str(), &varid));
     nc_type dtype;
diff --git a/src/io/netcdf/NetCDF_Utils.cc b/src/io/netcdf/NetCDF_Utils.cc
index 5fe182e..95d5a20 100644
--- a/src/io/netcdf/NetCDF_Utils.cc
+++ b/src/io/netcdf/NetCDF_Utils.cc
@@ -106,15 +106,17 @@ Nc::~Nc()
 
 void Nc::reopen_if_forked()
 {
-    pid_t this_pid = getpid();
+    OmpScopedLock lock(ncMutex);
+    const pid_t this_pid = getpid();
     if (pid != this_pid) {
-        pid = this_pid;
-        LOG4FIMEX(logger, Logger::DEBUG, "reopening file " << filename << " after fork to " << pid << " '" << ncId << "' ");
-
-        OmpScopedLock lock(ncMutex);
         // reopen file so file descriptions (e.g. offset) are not shared
-        ncCheck(nc_close(ncId), "closing parent filehandle");
+        if (isOpen) {
+            isOpen = false; // even if closing fails, or opening below
+            ncCheck(nc_close(ncId), "closing parent filehandle");
+        }
         ncCheck(nc_open(filename.c_str(), NC_NOWRITE, &ncId), "re-opening '" + filename + "' after fork");
+        isOpen = true;
+        pid = this_pid;
     }
 }
 
-- 
2.43.0


From faca8fada4a4886b0f39af742319d470a5d59f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:13 +0000
Subject: [PATCH 18/69] fix: check errors when reading variable definitions
 from NetCDF files

---
 src/io/netcdf/NetCDF_CDMReader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index 2c9e5f9..a9f9c8c 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -93,7 +93,7 @@ NetCDF_CDMReader::NetCDF_CDMReader(const std::string& filename, bool writeable)
         char ncName[NC_MAX_NAME + 1];
         for (int i = 0; i < nvars; ++i) {
             nc_type dtype;
-            nc_inq_var(ncFile->ncId, i, ncName, &dtype, &ndims, dimids, &natts);
+            ncCheck(nc_inq_var(ncFile->ncId, i, ncName, &dtype, &ndims, dimids, &natts));
             std::vector<std::string> shape;
             shape.reserve(ndims);
             // reverse dimensions
@@ -119,7 +119,7 @@ NetCDF_CDMReader::NetCDF_CDMReader(const std::string& filename, bool writeable)
     // define global attributes
     {
         int natts;
-        nc_inq_varnatts(ncFile->ncId, NC_GLOBAL, &natts);
+        ncCheck(nc_inq_varnatts(ncFile->ncId, NC_GLOBAL, &natts));
         char attName[NC_MAX_NAME + 1];
         for (int j = 0; j < natts; ++j) {
             ncCheck(nc_inq_attname(ncFile->ncId, NC_GLOBAL, j, attName));
-- 
2.43.0


From fba0c72a7cb091699c9980dd08fcfef63fa27b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:14 +0000
Subject: [PATCH 19/69] fix: FillWriter omits variables with a different number
 of dimensions instead of accessing data outside of arrays

---
 src/FillWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 4438df0..1ae0a22 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -222,7 +222,7 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             oTestShape.erase(std::remove(oTestShape.begin(), oTestShape.end(), fit.outputDim), oTestShape.end());
         }
         // simple test of equal shapes (omitting translated dims)
-        if (!equal(iTestShape.begin(), iTestShape.end(), oTestShape.begin())) {
+        if (iTestShape != oTestShape) {
             LOG4FIMEX(logger, Logger::WARN, "variable '" << iv.getName() << "' has different shape: omitting");
             continue;
         }
-- 
2.43.0


From 2a2c55e3f223ad85d12b78ec38dd05c803b2e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:10 +0000
Subject: [PATCH 20/69] fix: report incomplete or failed HTTP transfers instead
 of delivering wrong bytes

---
 src/HttpChunkReader.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/HttpChunkReader.cc b/src/HttpChunkReader.cc
index b82151f..41be881 100644
--- a/src/HttpChunkReader.cc
+++ b/src/HttpChunkReader.cc
@@ -82,6 +82,8 @@ HttpChunkReader::HttpChunkReader(const std::string& url)
     if (res == CURLE_OK) {
         curl_off_t cl;
         res = curl_easy_getinfo(curl_.get(), CURLINFO_CONTENT_LENGTH_DOWNLOAD_T, &cl);
+        if (res == CURLE_OK && cl < 0)
+            throw std::runtime_error("curl HEAD error, '" + url_ + "' has no Content-Length");
         if (res == CURLE_OK) {
             size_ = cl;
             LOG4FIMEX(logger, Logger::DEBUG, "curl '" << url_ << "' has size " << size_);
@@ -98,6 +100,7 @@ std::shared_ptr<CURL> HttpChunkReader::curl_open() const
 {
     std::shared_ptr<CURL> curl(curl_easy_init(), curl_easy_cleanup);
     curl_easy_setopt(curl.get(), CURLOPT_URL, url_.c_str());
+    curl_easy_setopt(curl.get(), CURLOPT_FAILONERROR, 1L); // an error page is not data
     return curl;
 }
 
@@ -110,11 +113,13 @@ void HttpChunkReader::read(size_t off, size_t count, unsigned char* buffer)
 {
     std::lock_guard<std::mutex> lock(mutex_);
     LOG4FIMEX(logger, Logger::DEBUG, "curl read " << count << " at offset " << off);
-    if (off + count > size_) {
+    if (off > size_ || count > size_ - off) {
         std::ostringstream msg;
         msg << "reading past end";
         throw std::runtime_error(msg.str());
     }
+    if (count == 0)
+        return;
 
     char range[64];
     snprintf(range, sizeof(range), "%ld-%ld", off, off + count - 1);
@@ -130,6 +135,18 @@ void HttpChunkReader::read(size_t off, size_t count, unsigned char* buffer)
         msg << "curl GET error " << res;
         throw std::runtime_error(msg.str());
     }
+    long code = 0;
+    curl_easy_getinfo(curl_.get(), CURLINFO_RESPONSE_CODE, &code);
+    if (off > 0 && code != 206) {
+        std::ostringstream msg;
+        msg << "curl GET error, no range of '" << url_ << "' but response code " << code;
+        throw std::runtime_error(msg.str());
+    }
+    if (wb.position != count) {
+        std::ostringstream msg;
+        msg << "curl GET error, got " << wb.position << " of " << count << " bytes at offset " << off << " of '" << url_ << "'";
+        throw std::runtime_error(msg.str());
+    }
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 0949f3bcef123cb8f89b2e05740b6f5bea87c91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:10 +0000
Subject: [PATCH 21/69] fix: report failure to determine the size of a file

---
 src/FileChunkReader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/FileChunkReader.cc b/src/FileChunkReader.cc
index 4796c47..697e8b6 100644
--- a/src/FileChunkReader.cc
+++ b/src/FileChunkReader.cc
@@ -54,8 +54,10 @@ FileChunkReader::FileChunkReader(const std::string& path)
     : path_(path)
     , file_(open_binary(path_))
 {
-    fseeko(file_.get(), 0, SEEK_END);
-    size_ = ftello(file_.get());
+    const off_t end = (fseeko(file_.get(), 0, SEEK_END) == 0) ? ftello(file_.get()) : -1;
+    if (end < 0)
+        throw std::runtime_error("cannot determine size of file '" + path_ + "'");
+    size_ = end;
     LOG4FIMEX(logger, Logger::DEBUG, "opened file '" << path_ << "'");
 }
 
-- 
2.43.0


From b3c310d8c09350ae8acfeed1e300dd0b76c779b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:58 +0000
Subject: [PATCH 22/69] fix: place GRIB messages inside the slice when only
 some levels or ensemble members are read

---
 src/io/grib/GribCDMReader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMReader.cc b/src/io/grib/GribCDMReader.cc
index 4fea314..8ab8b58 100644
--- a/src/io/grib/GribCDMReader.cc
+++ b/src/io/grib/GribCDMReader.cc
@@ -246,8 +246,10 @@ DataPtr GribCDMReader::getDataSlice(const std::string& varName, const SliceBuild
                     continue;
                 }
 
+                // position within the slice, i.e. using the sizes of the slice
+                const size_t slice_l_len = dim_l_end - dim_l_start, slice_e_len = dim_e_end - dim_e_start;
                 const size_t idx_data =
-                    ((idx_t - dim_t_start) * dim_l_len * dim_e_len + (idx_l - dim_l_start) * dim_e_len + (idx_e - dim_e_start)) * xySliceSize;
+                    (((idx_t - dim_t_start) * slice_l_len + (idx_l - dim_l_start)) * slice_e_len + (idx_e - dim_e_start)) * xySliceSize;
                 double* data_out = &doubleArray[idx_data];
                 double* grib_out = xyslice ? full_data_array.get() : data_out;
                 size_t dataRead;
-- 
2.43.0


From 4e4732c96923c6827a15eadfdc028511c993bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:12 +0000
Subject: [PATCH 23/69] fix: use gmtime_r when converting times, the buffer of
 gmtime is shared between threads

---
 src/ReplaceStringTimeObject.cc | 6 +++---
 src/TimeUtils.cc               | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ReplaceStringTimeObject.cc b/src/ReplaceStringTimeObject.cc
index f67ac4e..98d2cc2 100644
--- a/src/ReplaceStringTimeObject.cc
+++ b/src/ReplaceStringTimeObject.cc
@@ -34,14 +34,14 @@ ReplaceStringTimeObject::~ReplaceStringTimeObject() {}
 std::ostream& operator<<(std::ostream& s, const ReplaceStringTimeObject& rsto)
 {
 	using namespace std;
-	struct tm * timeinfo;
+	struct tm timeinfo;
 	char buffer [80];
 
 	time_t newTime = rsto.myTime + rsto.offset;
 	
-	timeinfo = gmtime( &newTime );
+	gmtime_r(&newTime, &timeinfo); // unlike gmtime, not sharing a buffer between threads
 
-	strftime(buffer, 80, rsto.myFormat.c_str(), timeinfo);
+	strftime(buffer, 80, rsto.myFormat.c_str(), &timeinfo);
 	s << buffer;
 	return s;
 }
diff --git a/src/TimeUtils.cc b/src/TimeUtils.cc
index 5332e7b..2941a47 100644
--- a/src/TimeUtils.cc
+++ b/src/TimeUtils.cc
@@ -79,7 +79,8 @@ static std::string make_time_string(const time_point& tp, const char* fmt)
         return "invalid-date-time";
 
     const time_t tt = std::chrono::system_clock::to_time_t(tp);
-    const tm utc = *std::gmtime(&tt);
+    tm utc;
+    gmtime_r(&tt, &utc); // unlike gmtime, not sharing a buffer between threads
     char buf[64];
     snprintf(buf, sizeof(buf), fmt, 1900 + utc.tm_year, 1 + utc.tm_mon, utc.tm_mday, utc.tm_hour, utc.tm_min, utc.tm_sec);
     return std::string(buf);
@@ -104,7 +105,8 @@ time_point make_time_utc_now()
     return std::chrono::time_point_cast<std::chrono::seconds>(tp);
 #else
     const time_t tt = time(0);
-    tm utc = *std::gmtime(&tt);
+    tm utc;
+    gmtime_r(&tt, &utc);
     return make_time_point(1900 + utc.tm_year, 1 + utc.tm_mon, utc.tm_mday, utc.tm_hour, utc.tm_min, utc.tm_sec);
 #endif
 }
@@ -125,7 +127,8 @@ FimexTime fromTimePoint(const time_point& tp)
         return FimexTime();
 
     const time_t tt = std::chrono::system_clock::to_time_t(tp);
-    const tm utc = *std::gmtime(&tt);
+    tm utc;
+    gmtime_r(&tt, &utc); // unlike gmtime, not sharing a buffer between threads
     return FimexTime(1900 + utc.tm_year, 1 + utc.tm_mon, utc.tm_mday, utc.tm_hour, utc.tm_min, utc.tm_sec);
 }
 
-- 
2.43.0


From b98263b5ef7283c2fc6a1bca320e775f979fa8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:20 +0000
Subject: [PATCH 24/69] fix: GRIB variables without time can be indexed, their
 time is not on the time axis

---
 src/io/grib/GribCDMIndexer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMIndexer.cc b/src/io/grib/GribCDMIndexer.cc
index 62d88e0..4804c3c 100644
--- a/src/io/grib/GribCDMIndexer.cc
+++ b/src/io/grib/GribCDMIndexer.cc
@@ -732,7 +732,8 @@ void GribCDMIndexer::initCreateVarMessages(std::shared_ptr<CDM> cdm, std::shared
         msgs = grib_index_v(size_msgs, invalid_msg);
         const auto& box_time_lev_ens = gm.second;
         for (const auto& items_time_lev_ens : box_time_lev_ens) {
-            const size_t idx_t = find_index(init_->times, items_time_lev_ens.first);
+            // variables without time have a single, invalid, time which is not on the time axis
+            const size_t idx_t = init_->varHas.at(varName).has_time ? find_index(init_->times, items_time_lev_ens.first) : 0;
 
             const auto& box_lev_ens = items_time_lev_ens.second;
             for (const auto& items_lev_ens : box_lev_ens) {
-- 
2.43.0


From 8f63278a66725b64cf48dea0eb3e60b473be2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:20 +0000
Subject: [PATCH 25/69] fix: earth figure used while indexing GRIB is kept per
 thread and reset on errors

---
 src/io/grib/GribFileIndex.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index b07fe04..8d786b9 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -140,7 +140,14 @@ void grib_get(grib_handle_p gh, const char* key, long& value, long dflt)
  * @warning This variable is only for functions inside the GribFileIndex initialization.
  *       Don't use otherwise.
  */
-std::string earthFigure_;
+thread_local std::string earthFigure_;
+
+//! sets earthFigure_ in the calling thread while in scope
+struct EarthFigureScope
+{
+    explicit EarthFigureScope(const std::string& earthFigure) { earthFigure_ = earthFigure; }
+    ~EarthFigureScope() { earthFigure_.clear(); }
+};
 
 void projConvert(const std::string& projStr, double lon, double lat, double& x, double& y)
 {
@@ -1152,8 +1159,8 @@ void GribFileIndex::init(ChunkReaderFactory_p ca, const std::string& gribUrl, co
         messages_.erase(std::remove_if(messages_.begin(), messages_.end(), HasSameUrl(gribUrl)), messages_.end());
     }
     const auto efIt = options_.find("earthfigure");
+    const EarthFigureScope earthFigureScope(efIt != options_.end() ? efIt->second : "");
     if (efIt != options_.end()) {
-        earthFigure_ = efIt->second;
         LOG4FIMEX(logger, Logger::DEBUG, "using earthfigure '" << earthFigure_ << "'");
     }
     vector<string> extraKeys;
@@ -1164,7 +1171,6 @@ void GribFileIndex::init(ChunkReaderFactory_p ca, const std::string& gribUrl, co
     }
 
     initByGrib(ca, gribUrl, members, extraKeys);
-    earthFigure_ = ""; // remember to reset!
 }
 
 void GribFileIndex::initByGrib(ChunkReaderFactory_p ca, const std::string& gribUrl, const std::vector<std::pair<std::string, std::regex>>& members,
-- 
2.43.0


From c11238bb59eaf354df4dde0c711fbdf035cb4f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:20 +0000
Subject: [PATCH 26/69] fix: unreadable list of GRIB files is an error

---
 src/io/grib/GribIoFactory.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/grib/GribIoFactory.cc b/src/io/grib/GribIoFactory.cc
index af8123b..d229f30 100644
--- a/src/io/grib/GribIoFactory.cc
+++ b/src/io/grib/GribIoFactory.cc
@@ -154,6 +154,9 @@ CDMReader_p GribIoFactory::createReader(const std::string& fileTypeName, const s
             for (std::string line; std::getline(listS, line);) {
                 files.push_back(line);
             }
+            if (!listS.is_open() || listS.bad()) {
+                throw CDMException("could not read list of grib files '" + listFile + "'");
+            }
         } else {
             files.push_back(fileName);
         }
-- 
2.43.0


From 453395d6fe87cee847d95695400eddf708b92b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:18 +0000
Subject: [PATCH 27/69] fix: valid time of GRIB messages with steps in days,
 months or years

---
 src/io/grib/GribFileIndex.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 8d786b9..f7a07c3 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -951,7 +951,8 @@ FimexTime GribFileMessage::getValidTime() const
         return reference;
 
     // add step offset
-    std::chrono::seconds timeOffset;
+    std::chrono::seconds timeOffset(0);
+    date::months monthOffset(0);
     switch (stepUnits_) {
     case 13: timeOffset = std::chrono::seconds(stepEnd_); break;
     case 0:  timeOffset = std::chrono::minutes(stepEnd_); break;
@@ -959,19 +960,27 @@ FimexTime GribFileMessage::getValidTime() const
     case 10: timeOffset = std::chrono::hours(3 * stepEnd_); break;
     case 11: timeOffset = std::chrono::hours(6 * stepEnd_); break;
     case 12: timeOffset = std::chrono::hours(12  *stepEnd_); break;
-    case 2:  date::days(1 * stepEnd_); break;
-    case 3:  date::months(1 * stepEnd_); break;
-    case 4:  date::years(1 * stepEnd_); break;
-    case 5:  date::years(10 * stepEnd_); break;
-    case 6:  date::years(30 * stepEnd_); break;
-    case 7:  date::years(100 * stepEnd_); break;
+    case 2:  timeOffset = date::days(1 * stepEnd_); break;
+    case 3:  monthOffset = date::months(1 * stepEnd_); break;
+    case 4:  monthOffset = date::years(1 * stepEnd_); break;
+    case 5:  monthOffset = date::years(10 * stepEnd_); break;
+    case 6:  monthOffset = date::years(30 * stepEnd_); break;
+    case 7:  monthOffset = date::years(100 * stepEnd_); break;
     default: {
         std::ostringstream msg;
         msg << "unknown stepUnits value " << stepUnits_;
         throw CDMException(msg.str());
     }
     }
-    return fromTimePoint(asTimePoint(reference) + timeOffset);
+    auto valid = asTimePoint(reference) + timeOffset;
+    if (monthOffset.count() != 0) {
+        const auto day = date::floor<date::days>(valid);
+        date::year_month_day ymd = date::year_month_day(day) + monthOffset;
+        if (!ymd.ok())
+            ymd = ymd.year() / ymd.month() / date::last;
+        valid += date::sys_days(ymd) - day;
+    }
+    return fromTimePoint(valid);
 }
 
 string GribFileMessage::toString() const
-- 
2.43.0


From 3b7b597b968d779d829646df4ee8292db8567a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:18 +0000
Subject: [PATCH 28/69] fix: reject bytes which are not a GRIB message instead
 of looping or reading a random size

---
 src/io/grib/GribFileIndex.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index f7a07c3..8d8d83b 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -44,6 +44,7 @@
 #include <date/date.h>
 
 #include <algorithm>
+#include <cstring>
 
 #include <libxml/xmlreader.h>
 #include <libxml/xmlwriter.h>
@@ -472,17 +473,24 @@ size_t readGribMessageSize(ChunkReader_p cr, size_t offset)
     cr->read(offset, sizeof(buffer), buffer);
     const char grib_version = buffer[7];
     size_t s0, sn;
-    if (grib_version == 1) {
+    if (std::memcmp(buffer, "GRIB", 4) != 0) {
+        throw runtime_error("no GRIB message at byte " + type2string(offset));
+    } else if (grib_version == 1) {
         s0 = 4;
         sn = 3;
     } else if (grib_version == 2) {
         s0 = 8;
         sn = 8;
+    } else {
+        throw runtime_error("unknown GRIB edition at byte " + type2string(offset));
     }
     size_t grib_msg_size = 0;
     for (size_t i = 0; i < sn; ++i) {
         grib_msg_size = (grib_msg_size << 8) | size_t(buffer[s0 + i]);
     }
+    if (grib_msg_size < sizeof(buffer)) {
+        throw runtime_error("invalid size of GRIB message at byte " + type2string(offset));
+    }
     return grib_msg_size;
 }
 
-- 
2.43.0


From 72b643cb86541b81d9c955d5e6896c167fcba54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:18 +0000
Subject: [PATCH 29/69] fix: appending to a GRIB index which exists but cannot
 be read is an error, its messages were lost

---
 src/io/grib/GribFileIndex.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 8d8d83b..d06c94f 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -46,6 +46,8 @@
 #include <algorithm>
 #include <cstring>
 
+#include <sys/stat.h>
+
 #include <libxml/xmlreader.h>
 #include <libxml/xmlwriter.h>
 
@@ -1171,7 +1173,9 @@ void GribFileIndex::init(ChunkReaderFactory_p ca, const std::string& gribUrl, co
 {
     if (!grbmlUrl.empty()) {
         // append to existing grbml
-        initByGrbml(ca, grbmlUrl);
+        struct stat st;
+        if (!initByGrbml(ca, grbmlUrl) && ::stat(grbmlUrl.c_str(), &st) == 0 && st.st_size > 0)
+            throw runtime_error("error reading grbml-file, cannot append to: '" + grbmlUrl + "'");
         // but remove existing messages for the same url
         messages_.erase(std::remove_if(messages_.begin(), messages_.end(), HasSameUrl(gribUrl)), messages_.end());
     }
-- 
2.43.0


From fbbc840b01af2422b2ad98759f9a7ac4e7f2c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:18 +0000
Subject: [PATCH 30/69] fix: failure to read the source while writing GRIB is
 an error, not an omitted field

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index cb14b7d..7dafb9d 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -302,7 +302,13 @@ void GribApiCDMWriter_ImplAbstract::run()
                                 // level and var are dependent due to splitting possibilities
                                 setLevel(*var, levelVal, levelPos);
                                 setParameter(*var, levelVal);
-                                DataPtr data = cdmReader->getDataSlice(*var, sb);
+                                DataPtr data;
+                                try {
+                                    data = cdmReader->getDataSlice(*var, sb);
+                                } catch (CDMException& ex) {
+                                    // unlike other problems below, this is not a limitation of grib
+                                    throw std::runtime_error("cannot read " + *var + ": " + ex.what());
+                                }
                                 if (data->size() != 0) {
                                     auto da = data->asDouble();
                                     bool writeData = true;
-- 
2.43.0


From 9cc5ad48fc149a46730d6375940bd98b732bbf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:18 +0000
Subject: [PATCH 31/69] fix: report write errors of GRIB files

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 7dafb9d..c5939a9 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -341,6 +341,9 @@ void GribApiCDMWriter_ImplAbstract::run()
             LOG4FIMEX(logger, Logger::DEBUG, "variable not written to grib: " << vi->getName());
         }
     }
+    gribFile.close();
+    if (!gribFile)
+        throw std::runtime_error("error while writing grib-file");
 }
 
 void GribApiCDMWriter_ImplAbstract::setGlobalAttributes()
@@ -535,7 +538,8 @@ void GribApiCDMWriter_ImplAbstract::writeGribHandleToFile()
     const void* buffer;
     /* get the coded message in a buffer */
     GRIB_CHECK(grib_get_message(gribHandle.get(), &buffer, &size), 0);
-    gribFile.write(reinterpret_cast<const char*>(buffer), size);
+    if (!gribFile.write(reinterpret_cast<const char*>(buffer), size))
+        throw std::runtime_error("error while writing grib-file");
 }
 
 bool GribApiCDMWriter_ImplAbstract::hasNodePtr(const std::string& varName, std::string& usedXPath)
-- 
2.43.0


From 8312b7db314622abee5227b99d4a29ec51a14850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:19 +0000
Subject: [PATCH 32/69] fix: report write errors of GRIB indices

---
 src/binSrc/fiIndexGribs.cc             | 9 +++++++--
 src/io/grib/GribProtobufIndexWriter.cc | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/binSrc/fiIndexGribs.cc b/src/binSrc/fiIndexGribs.cc
index 9f1ebe1..0276c09 100644
--- a/src/binSrc/fiIndexGribs.cc
+++ b/src/binSrc/fiIndexGribs.cc
@@ -100,7 +100,7 @@ std::string ensureScheme(const std::string& url)
 
 struct GribIndexWriter {
     GribIndexWriter(const std::string& output, const std::string& url);
-    ~GribIndexWriter();
+    void finish();
 
     std::ofstream os;
 };
@@ -112,9 +112,12 @@ GribIndexWriter::GribIndexWriter(const std::string& output, const std::string& u
     os << "<gribFileIndex url=\"" << url << "\" xmlns=\"http://www.met.no/schema/fimex/gribFileIndex\">" << std::endl;
 }
 
-GribIndexWriter::~GribIndexWriter()
+void GribIndexWriter::finish()
 {
     os << "</gribFileIndex>" << std::endl;
+    os.close();
+    if (!os)
+        throw std::runtime_error("error while writing index");
 }
 
 void createGrbmlFromGRIB(ChunkReaderFactory_p ca, const std::vector<std::string>& inputs, const std::string& output, std::vector<std::string> extraKeys,
@@ -131,6 +134,7 @@ void createGrbmlFromGRIB(ChunkReaderFactory_p ca, const std::vector<std::string>
         for (const auto& gfm : gfi.listMessages())
             w.os << gfm;
     }
+    w.finish();
 }
 
 void appendToGrbml(ChunkReaderFactory_p ca, const std::string& input, const std::string& append, std::vector<std::string> extraKeys, std::string config,
@@ -147,6 +151,7 @@ void appendToGrbml(ChunkReaderFactory_p ca, const std::string& input, const std:
     GribIndexWriter w(append, ensureScheme(input));
     for (const auto& gfm : gfi.listMessages())
         w.os << gfm;
+    w.finish();
 }
 
 #ifdef HAVE_PROTOBUF
diff --git a/src/io/grib/GribProtobufIndexWriter.cc b/src/io/grib/GribProtobufIndexWriter.cc
index 6ee447f..4c507f4 100644
--- a/src/io/grib/GribProtobufIndexWriter.cc
+++ b/src/io/grib/GribProtobufIndexWriter.cc
@@ -43,6 +43,9 @@ void GribProtobufIndexWriter::write(const MetNoFimex::CDM& cdm, const GribCDMInd
 {
     std::ofstream out(outputfile, std::ios::binary);
     write(cdm, grib_indexed, out);
+    out.close();
+    if (!out)
+        throw std::runtime_error("error while writing '" + outputfile + "'");
 }
 
 void GribProtobufIndexWriter::write(const MetNoFimex::CDM& cdm, const GribCDMIndexer::grib_indexed& grib_indexed, std::ostream& out)
-- 
2.43.0


From ccd0c9f221c4cef2c431598cd69eefb887edec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:19 +0000
Subject: [PATCH 33/69] fix: report write errors of NcML files

---
 src/NcmlCDMWriter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 6cb28b8..22a1fd5 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -81,6 +81,9 @@ NcmlCDMWriter::NcmlCDMWriter(const CDMReader_p cdmReader, const std::string& out
 {
     std::ofstream out(outputFile);
     write(out, true);
+    out.close();
+    if (!out)
+        throw CDMException("error while writing '" + outputFile + "'");
 }
 
 NcmlCDMWriter::NcmlCDMWriter(const CDMReader_p cdmReader, std::ostream& output, bool withData)
-- 
2.43.0


From 59bce92dde88a984db277480b50ef8d2aecf9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:33 +0000
Subject: [PATCH 34/69] fix: failure to read axes or times of the source while
 writing GRIB is an error, not a reason to omit variables

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 44 ++++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index c5939a9..f37344b 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -78,8 +78,42 @@ public:
     virtual ~UnScale() {}
 };
 
+/**
+ * Source reader whose read errors are not CDMExceptions. A CDMException tells that something cannot be represented in GRIB
+ * and is omitted with a warning, while failing to read is an error.
+ */
+class GribSourceReader : public CDMReader
+{
+public:
+    explicit GribSourceReader(CDMReader_p source)
+        : source_(source)
+    {
+        *cdm_ = source_->getCDM();
+    }
+    using CDMReader::getDataSlice;
+    DataPtr getDataSlice(const std::string& varName, size_t unLimDimPos) override
+    {
+        try {
+            return source_->getDataSlice(varName, unLimDimPos);
+        } catch (CDMException& ex) {
+            throw std::runtime_error("cannot read '" + varName + "': " + ex.what());
+        }
+    }
+    DataPtr getDataSlice(const std::string& varName, const SliceBuilder& sb) override
+    {
+        try {
+            return source_->getDataSlice(varName, sb);
+        } catch (CDMException& ex) {
+            throw std::runtime_error("cannot read '" + varName + "': " + ex.what());
+        }
+    }
+
+private:
+    CDMReader_p source_;
+};
+
 GribApiCDMWriter_ImplAbstract::GribApiCDMWriter_ImplAbstract(int gribVersion, CDMReader_p cdmReader, const std::string& outputFile, const XMLInput& config)
-    : CDMWriter(cdmReader, outputFile)
+    : CDMWriter(std::make_shared<GribSourceReader>(cdmReader), outputFile)
     , gribVersion(gribVersion)
     , xmlConfig(config.getXMLDoc())
     , omitEmptyFields(true)
@@ -302,13 +336,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                                 // level and var are dependent due to splitting possibilities
                                 setLevel(*var, levelVal, levelPos);
                                 setParameter(*var, levelVal);
-                                DataPtr data;
-                                try {
-                                    data = cdmReader->getDataSlice(*var, sb);
-                                } catch (CDMException& ex) {
-                                    // unlike other problems below, this is not a limitation of grib
-                                    throw std::runtime_error("cannot read " + *var + ": " + ex.what());
-                                }
+                                DataPtr data = cdmReader->getDataSlice(*var, sb);
                                 if (data->size() != 0) {
                                     auto da = data->asDouble();
                                     bool writeData = true;
-- 
2.43.0


From ec84ed1c7869669c791222ff37fc1c485a66d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:20 +0000
Subject: [PATCH 35/69] fix: appending to a GRIB file which cannot be opened
 for appending is an error, its messages were lost

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index f37344b..10e26ab 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -147,12 +147,7 @@ GribApiCDMWriter_ImplAbstract::GribApiCDMWriter_ImplAbstract(int gribVersion, CD
             if (openMode == "append") {
                 // append or create
                 gribFile.open(outputFile.c_str(), mode | std::ios::app);
-                if (gribFile.is_open()) {
-                    LOG4FIMEX(logger, Logger::DEBUG, "opened '" << outputFile << "' in append-mode");
-                } else {
-                    gribFile.open(outputFile.c_str(), mode);
-                    LOG4FIMEX(logger, Logger::DEBUG, "created '" << outputFile << "' in append-mode");
-                }
+                LOG4FIMEX(logger, Logger::DEBUG, "opened '" << outputFile << "' in append-mode");
             } else {
                 gribFile.open(outputFile.c_str(), mode);
                 LOG4FIMEX(logger, Logger::DEBUG, "opened '" << outputFile << "' in overwrite-mode");
-- 
2.43.0


From 7d9d639806ceba6872846bbbdcca39792bcde794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:03 +0000
Subject: [PATCH 36/69] fix: no exception leaves the C interface, errors of its
 helper functions are reported by their return value

---
 src/c_fimex.cc | 88 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 22 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 701d55d..63f52a9 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -187,8 +187,8 @@ int mifi_set_callback_double(mifi_cdm_reader* c_reader, const char* varName, dou
 {
     try {
         CDMReader_p reader = c_reader->reader_;
-        C_CDMReader* cReaderPtr = dynamic_cast<C_CDMReader*>(reader.get());
-        cReaderPtr->setDoubleCallbackFunction(string(varName), callback);
+        C_CDMReader& cReader = dynamic_cast<C_CDMReader&>(*reader);
+        cReader.setDoubleCallbackFunction(string(varName), callback);
         return 0;
     } catch (std::bad_cast& bc) {
         LOG4FIMEX(logger, Logger::WARN, "mifi_set_callback_double called with a different CDMReader, not C_CDMReader: " + string(bc.what()));
@@ -255,12 +255,12 @@ const char* mifi_get_dimension_name(mifi_cdm_reader* reader, size_t pos)
 
 size_t mifi_get_dimension_size(mifi_cdm_reader* reader, const char* dimName)
 {
-    if (reader->reader_->getCDM().hasDimension(dimName)) {
-        try {
+    try {
+        if (reader->reader_->getCDM().hasDimension(dimName)) {
             return reader->reader_->getCDM().getDimension(dimName).getLength();
-        } catch (exception& ex) {
-            LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_dimension_size: " << ex.what());
         }
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_dimension_size: " << ex.what());
     }
     return 0;
 }
@@ -286,13 +286,23 @@ static std::string do_mifi_get_var_longitude(mifi_cdm_reader* reader, const char
 
 char* mifi_get_var_longitude(mifi_cdm_reader* reader, const char* varName)
 {
-    // we get a temporary, we need strdup and caller must call free
-    return string_dup(do_mifi_get_var_longitude(reader, varName));
+    try {
+        // we get a temporary, we need strdup and caller must call free
+        return string_dup(do_mifi_get_var_longitude(reader, varName));
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_var_longitude: " << ex.what());
+    }
+    return 0;
 }
 
 int mifi_get_var_longitude_cpy(mifi_cdm_reader* reader, const char* varName, char* lonName, int n)
 {
-    return string_cpy(do_mifi_get_var_longitude(reader, varName), lonName, n);
+    try {
+        return string_cpy(do_mifi_get_var_longitude(reader, varName), lonName, n);
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_var_longitude_cpy: " << ex.what());
+    }
+    return -1;
 }
 
 static std::string do_mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
@@ -306,13 +316,23 @@ static std::string do_mifi_get_var_latitude(mifi_cdm_reader* reader, const char*
 
 char* mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
 {
-    // we get a temporary, we need strdup and caller must call free
-    return string_dup(do_mifi_get_var_latitude(reader, varName));
+    try {
+        // we get a temporary, we need strdup and caller must call free
+        return string_dup(do_mifi_get_var_latitude(reader, varName));
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_var_latitude: " << ex.what());
+    }
+    return 0;
 }
 
 int mifi_get_var_latitude_cpy(mifi_cdm_reader* reader, const char* varName, char* latName, int n)
 {
-    return string_cpy(do_mifi_get_var_latitude(reader, varName), latName, n);
+    try {
+        return string_cpy(do_mifi_get_var_latitude(reader, varName), latName, n);
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_var_latitude_cpy: " << ex.what());
+    }
+    return -1;
 }
 
 mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* varName)
@@ -360,13 +380,23 @@ static std::string do_mifi_slicebuilder_dimname(mifi_slicebuilder* sb, int pos)
 
 const char* mifi_slicebuilder_dimname(mifi_slicebuilder* sb, int pos)
 {
-    // we get a temporary, we need strdup and caller must call free
-    return string_dup(do_mifi_slicebuilder_dimname(sb, pos));
+    try {
+        // we get a temporary, we need strdup and caller must call free
+        return string_dup(do_mifi_slicebuilder_dimname(sb, pos));
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_dimname: " << ex.what());
+    }
+    return string_dup(EMPTY_C_STR);
 }
 
 int mifi_slicebuilder_dimname_cpy(mifi_slicebuilder* sb, int pos, char* dimName, int n)
 {
-    return string_cpy(do_mifi_slicebuilder_dimname(sb, pos), dimName, n);
+    try {
+        return string_cpy(do_mifi_slicebuilder_dimname(sb, pos), dimName, n);
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_dimname_cpy: " << ex.what());
+    }
+    return 0;
 }
 
 int mifi_slicebuilder_get_start_size(mifi_slicebuilder* sb, unsigned int* start, unsigned int* size)
@@ -390,7 +420,7 @@ int mifi_slicebuilder_get_axistype(mifi_slicebuilder* sb, int* axistype)
             vector<CoordinateAxis::AxisType> axes = csb->getAxisTypes();
             transform(axes.begin(), axes.end(), axistype, CoordinateAxis::type2int);
             return 0;
-        } catch (CDMException& ex) {
+        } catch (exception& ex) {
             return -2;
         }
     }
@@ -412,20 +442,34 @@ static std::string do_mifi_slicebuilder_get_proj4(mifi_slicebuilder* sb)
 
 const char* mifi_slicebuilder_get_proj4(mifi_slicebuilder* sb)
 {
-    // we get a temporary, we need strdup and caller must call free
-    return string_dup(do_mifi_slicebuilder_get_proj4(sb));
+    try {
+        // we get a temporary, we need strdup and caller must call free
+        return string_dup(do_mifi_slicebuilder_get_proj4(sb));
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_get_proj4: " << ex.what());
+    }
+    return string_dup(EMPTY_C_STR);
 }
 
 int mifi_slicebuilder_get_proj4_cpy(mifi_slicebuilder* sb, char* proj4, int n)
 {
-    return string_cpy(do_mifi_slicebuilder_get_proj4(sb), proj4, n);
+    try {
+        return string_cpy(do_mifi_slicebuilder_get_proj4(sb), proj4, n);
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_get_proj4_cpy: " << ex.what());
+    }
+    return 0;
 }
 
 int mifi_slicebuilder_set_dim_start_size(mifi_slicebuilder* sb, const char* dimName, unsigned int start, unsigned int size)
 {
     if (sb != 0) {
-        sb->sb_->setStartAndSize(dimName, start, size);
-        return 0;
+        try {
+            sb->sb_->setStartAndSize(dimName, start, size);
+            return 0;
+        } catch (exception& ex) {
+            LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_set_dim_start_size: " << ex.what());
+        }
     }
     return -1;
 }
@@ -526,7 +570,7 @@ double mifi_get_unique_forecast_reference_time(mifi_cdm_reader* reader, const ch
     try {
         TimeUnit tu(units);
         retVal = tu.fimexTime2unitTime(getUniqueForecastReferenceTimeFT(reader->reader_));
-    } catch (CDMException& ex) {
+    } catch (exception& ex) {
         return MIFI_UNDEFINED_D;
     }
     return retVal;
-- 
2.43.0


From ef459d93379da823bb7cba997a61323d3f2d2928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:03 +0000
Subject: [PATCH 37/69] fix: variables with a C callback keep a readable fill
 value, its type did not match the callback's double data

---
 src/C_CDMReader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/C_CDMReader.cc b/src/C_CDMReader.cc
index 277a143..c99bb01 100644
--- a/src/C_CDMReader.cc
+++ b/src/C_CDMReader.cc
@@ -27,11 +27,13 @@
 #include "fimex/C_CDMReader.h"
 
 #include "fimex/CDM.h"
+#include "fimex/CDMAttribute.h"
 #include "fimex/CDMException.h"
 #include "fimex/CDMVariable.h"
 #include "fimex/Data.h"
 #include "fimex/Type2String.h"
 #include "fimex/mifi_cdm_reader.h"
+#include "fimex/mifi_constants.h"
 
 #include <cassert>
 
@@ -56,6 +58,10 @@ void C_CDMReader::setDoubleCallbackFunction(const std::string& varName, doubleDa
     // data will be auto-scaled
     cdm_->removeAttribute(varName, "scale_factor");
     cdm_->removeAttribute(varName, "add_offset");
+    // missing data of the callback are undefined doubles, and the type must match the variable's
+    cdm_->removeAttribute(varName, "missing_value");
+    cdm_->removeAttribute(varName, "_FillValue");
+    cdm_->addAttribute(varName, CDMAttribute("_FillValue", MIFI_UNDEFINED_D));
     // set the datatype for later processing
     doubleCallbacks_[varName] = callback;
 }
-- 
2.43.0


From 07d7339bc8aff437b849278269cfc1daa6210dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:03 +0000
Subject: [PATCH 38/69] fix: PROJ context per thread, it was shared without
 protection by threads reprojecting at the same time

---
 src/reproject.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 5916791..698d284 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -55,11 +55,9 @@ Logger_p logger = getLogger("fimex.reproject");
 
 PJ_CONTEXT* crs2crs_ctx()
 {
-    static PJ_CONTEXT* pj_ctx = 0;
-    if (!pj_ctx) {
-        pj_ctx = proj_context_create();
-    }
-    return pj_ctx;
+    // a context must not be used by several threads at the same time
+    static thread_local std::unique_ptr<PJ_CONTEXT, PJ_CONTEXT* (*)(PJ_CONTEXT*)> pj_ctx(proj_context_create(), proj_context_destroy);
+    return pj_ctx.get();
 }
 
 void throw_proj_error(int pe)
-- 
2.43.0


From 5a280269e0bf670d49bb66cb5233ba64566eac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:03 +0000
Subject: [PATCH 39/69] fix: protect the coordinate systems which a shared CDM
 finds when asked for axes or projections first

---
 src/CDM.cc | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/CDM.cc b/src/CDM.cc
index 5653948..50f6eb2 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -27,6 +27,7 @@
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
 #include "fimex/MathUtils.h"
+#include "fimex/MutexLock.h"
 #include "fimex/Units.h"
 #include "fimex/coordSys/CoordinateSystem.h"
 #include "fimex/coordSys/Projection.h"
@@ -104,19 +105,38 @@ struct CDMImpl {
     bool coordsInitialized;
     CoordinateSystem_cp_v coordSystems;
 
+    mutable OmpMutex coordsMutex; // 'enhance' modifies the coordSystems of a const CDM, which may be shared by threads
+
     CDMImpl()
         : coordsInitialized(false)
     {
     }
+
+    CDMImpl(const CDMImpl& rhs)
+        : attributes(rhs.attributes)
+        , variables(rhs.variables)
+        , dimensions(rhs.dimensions)
+    {
+        OmpScopedLock lock(rhs.coordsMutex);
+        coordsInitialized = rhs.coordsInitialized;
+        coordSystems = rhs.coordSystems;
+    }
 };
 
 static void enhance(CDMImpl* pimpl, const CDM& cdm)
 {
+    {
+        OmpScopedLock lock(pimpl->coordsMutex);
+        if (pimpl->coordsInitialized)
+            return;
+    }
+    // TODO: all functions requiring the 'enhance' step should be deprecated
+    //       since 'enhancing' cannot be done by the CDM alone and it is a source
+    //       for race-conditions...
+    CoordinateSystem_cp_v coordSystems = listCoordinateSystems(cdm);
+    OmpScopedLock lock(pimpl->coordsMutex);
     if (!pimpl->coordsInitialized) {
-        // TODO: all functions requiring the 'enhance' step should be deprecated
-        //       since 'enhancing' cannot be done by the CDM alone and it is a source
-        //       for race-conditions...
-        pimpl->coordSystems = listCoordinateSystems(cdm);
+        pimpl->coordSystems.swap(coordSystems);
         pimpl->coordsInitialized = true;
     }
 }
-- 
2.43.0


From bac2b809819f5bd7ee82fbe6d1de1f89c8da0a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:22 +0000
Subject: [PATCH 40/69] fix: GRIB step units are process-wide in ecCodes,
 threads reading or writing other step units changed each other's times

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 1 +
 src/io/grib/GribFileIndex.cc                 | 7 ++++---
 src/io/grib/GribUtils.cc                     | 6 ++++++
 src/io/grib/GribUtils.h                      | 8 ++++++++
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 10e26ab..05ed0af 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -431,6 +431,7 @@ void GribApiCDMWriter_ImplAbstract::setTime(const std::string& varName, const Fi
     GRIB_CHECK(grib_set_long(gribHandle.get(), "dataDate", date), "setting dataDate");
     GRIB_CHECK(grib_set_long(gribHandle.get(), "dataTime", time), "setting dataTime");
     size_t sSize = stepUnits.size();
+    OmpScopedLock lock(gribStepUnitsMutex());
     GRIB_CHECK(grib_set_string(gribHandle.get(), "stepUnits", stepUnits.c_str(), &sSize), "setting stepUnits");
     GRIB_CHECK(grib_set_long(gribHandle.get(), "startStep", startStep), "setting startStep");
     // TODO: step length should be determined by bounds
diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index d06c94f..96bd240 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -600,6 +600,7 @@ GribFileMessage::GribFileMessage(grib_handle_p gh, const std::string& msgURL, lo
 
     // time
     {
+        OmpScopedLock lock(gribStepUnitsMutex());
         // read files internal time-step unit
         // https://confluence.ecmwf.int/display/ECC/Frequently+Asked+Questions#FrequentlyAskedQuestions-ConfusedaboutstepUnits?
         // use indicatorOfUnitOfTimeRange: https://software.ecmwf.int/issues/browse/SUP-1264
@@ -607,15 +608,15 @@ GribFileMessage::GribFileMessage(grib_handle_p gh, const std::string& msgURL, lo
         grib_get(gh, GK_indicatorOfUnitOfTimeRange, iouotr);
         if (iouotr != 255)
             grib_set(gh, GK_stepUnits, iouotr);
+        grib_get(gh, GK_stepUnits, stepUnits_);
+        grib_get(gh, GK_startStep, stepStart_);
+        grib_get(gh, GK_endStep, stepEnd_);
     }
-    grib_get(gh, GK_stepUnits, stepUnits_);
     grib_get(gh, GK_stepType, stepType_);
     grib_get(gh, GK_dataDate, dataDate_);
     grib_get(gh, GK_time, dataTime_);
     grib_get(gh, GK_timeRangeIndicator, timeRangeIndicator_);
     grib_get(gh, GK_typeOfStatisticalProcessing, typeOfStatisticalProcessing_, -1);
-    grib_get(gh, GK_startStep, stepStart_);
-    grib_get(gh, GK_endStep, stepEnd_);
 
     // ensemble
     int gribError = grib_get_nocheck(gh, GK_numberOfForecastsInEnsemble, totalNumberOfEnsembles_);
diff --git a/src/io/grib/GribUtils.cc b/src/io/grib/GribUtils.cc
index c91ed97..786cbd5 100644
--- a/src/io/grib/GribUtils.cc
+++ b/src/io/grib/GribUtils.cc
@@ -209,4 +209,10 @@ std::string gribStepUnitsToText(unsigned long units)
     }
 }
 
+OmpMutex& gribStepUnitsMutex()
+{
+    static OmpMutex mutex;
+    return mutex;
+}
+
 } // namespace MetNoFimex
diff --git a/src/io/grib/GribUtils.h b/src/io/grib/GribUtils.h
index 3a00e93..66fd140 100644
--- a/src/io/grib/GribUtils.h
+++ b/src/io/grib/GribUtils.h
@@ -28,6 +28,7 @@
 #define GRIBUTILS_H_
 
 #include "fimex/GridDefinition.h"
+#include "fimex/MutexLock.h"
 
 #include <stdexcept>
 
@@ -74,6 +75,13 @@ unsigned long gribStepUnitsFromText(const std::string& stepUnits);
  */
 std::string gribStepUnitsToText(unsigned long units);
 
+/*!
+ * Mutex to be held from setting stepUnits of a grib-handle until all steps have been set or read.
+ *
+ * ecCodes has one value of stepUnits for the whole process, shared by all grib-handles in all threads.
+ */
+OmpMutex& gribStepUnitsMutex();
+
 } // namespace MetNoFimex
 
 #endif /* GRIBUTILS_H_ */
-- 
2.43.0


From e98e03376e5fe59046a0aff7d38c360f2ca9b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:26 +0000
Subject: [PATCH 41/69] fix: errors while interpolating in parallel are
 reported as exceptions, they terminated the process

---
 src/CDMInterpolator.cc         |  1 +
 src/CDMVerticalInterpolator.cc | 13 +++++++++++++
 src/CachedInterpolation.cc     | 14 +++++++++-----
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index aa4a894..23302d7 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -1044,6 +1044,7 @@ double /* rad */ getGridDistance(const double* lonVals, // in degrees
         stepSize = 1;
         steps = orgXDimSize * orgYDimSize;
     }
+    samples.reserve(steps); // exceptions must not leave the parallel region
 #ifdef _OPENMP
 #pragma omp parallel default(none) firstprivate(steps, stepSize, orgXDimSize, orgYDimSize) shared(samples, lonVals, latVals) if (steps > 4)
     {
diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 739f5b1..3fde72f 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -32,6 +32,7 @@
 #include "fimex/Data.h"
 #include "fimex/FindNeighborElements.h"
 #include "fimex/Logger.h"
+#include "fimex/MutexLock.h"
 #include "fimex/StringUtils.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/verticalTransform/ToVLevelConverter.h"
@@ -45,6 +46,7 @@
 #include "fimex/coordSys/verticalTransform/VerticalTransformationUtils.h"
 
 #include <algorithm>
+#include <exception>
 #include <iterator>
 #include <regex>
 #include <string>
@@ -487,10 +489,13 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
     if (oVerticalData)
         oVerticalValues = oVerticalData->asFloat();
 
+    OmpMutex exceptionMutex;
+    std::exception_ptr exception;
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
     for (size_t k = 0; k < nzo; k++) {
+      try {
 #ifdef ENABLE_LOG_DEBUG_IN_LOOPS
         LOG4FIMEX(logger, Logger::DEBUG, "k=" << k);
         size_t loopi = 0;
@@ -548,7 +553,15 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
                 *interpolated = MIFI_UNDEFINED_F;
             }
         } while (loop.next());
+      } catch (...) {
+          // exceptions must not leave the parallel region
+          OmpScopedLock lock(exceptionMutex);
+          if (!exception)
+              exception = std::current_exception();
+      }
     }
+    if (exception)
+        std::rethrow_exception(exception);
 
     // correct data going out of bounds
     const double valid_min = cdm_->getValidMin(varName);
diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index 5205c9c..947436d 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -35,6 +35,8 @@
 
 #include "fimex/Logger.h"
 
+#include <new>
+
 #ifdef _OPENMP
 #include <omp.h>
 #endif
@@ -177,12 +179,14 @@ shared_array<float> CachedInterpolation::interpolateValues(shared_array<float> i
     newSize = outLayerSize*inZ;
     auto outfield = make_shared_array<float>(newSize);
 
+    bool error = false; // exceptions must not leave the parallel region
 #ifdef _OPENMP
-#pragma omp parallel default(shared)
+#pragma omp parallel default(shared) reduction(|| : error)
     {
 #endif
-        bool error = false;
-        std::unique_ptr<float[]> zValues(new float[inZ]);
+        std::unique_ptr<float[]> zValues(new (std::nothrow) float[inZ]);
+        if (!zValues)
+            error = true;
 #ifdef _OPENMP
 #pragma omp for
 #endif
@@ -199,11 +203,11 @@ shared_array<float> CachedInterpolation::interpolateValues(shared_array<float> i
             }
         }
     }
-    if (error)
-        throw CDMException("error during interpolation");
 #ifdef _OPENMP
     }
 #endif
+    if (error)
+        throw CDMException("error during interpolation");
 
     return outfield;
 }
-- 
2.43.0


From 42641f06e591960bd5658aa803faea30e6255b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:47 +0000
Subject: [PATCH 42/69] fix: writing with a renamed unlimited dimension failed,
 the dimension was looked up by its old name

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index aa269db..fdfff1a 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -95,11 +95,11 @@ int getNcVersion(int version, XMLDoc_p doc)
     return retVal;
 }
 
-int ncDimId(int ncId, const CDMDimension* unLimDim)
+int ncDimId(int ncId, const std::string& dimName)
 {
     int unLimDimId = -1;
-    if (unLimDim)
-        NCMUTEX_LOCKED(ncCheck(nc_inq_dimid(ncId, unLimDim->getName().c_str(), &unLimDimId)));
+    if (!dimName.empty())
+        NCMUTEX_LOCKED(ncCheck(nc_inq_dimid(ncId, dimName.c_str(), &unLimDimId)));
     return unLimDimId;
 }
 
@@ -583,7 +583,7 @@ DataPtr NetCDF_CDMWriter::convertData(const CDMVariable& var, DataPtr data)
 void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
 {
     const CDMDimension* unLimDim = cdm.getUnlimitedDim();
-    const int unLimDimId = ncDimId(ncFile->ncId, unLimDim);
+    const int unLimDimId = ncDimId(ncFile->ncId, unLimDim ? getDimensionName(unLimDim->getName()) : "");
     const long long maxUnLim = (unLimDim == 0) ? 0 : unLimDim->getLength();
     const CDM::VarVec& cdmVars = cdm.getVariables();
 
-- 
2.43.0


From bd5e1bf5df2c04d21c37751da1d05f7288b87cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:00 +0000
Subject: [PATCH 43/69] fix: FELT files: failed or incomplete reads are errors,
 they delivered zeros, arbitrary memory or an endless loop

---
 src/io/felt/FeltField.cpp |  1 -
 src/io/felt/FeltFile.cpp  | 24 ++++++++++++++++--------
 src/io/felt/FeltFile.h    |  7 +++++++
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/io/felt/FeltField.cpp b/src/io/felt/FeltField.cpp
index 9e5f421..f69774f 100644
--- a/src/io/felt/FeltField.cpp
+++ b/src/io/felt/FeltField.cpp
@@ -258,7 +258,6 @@ const std::vector<short int>& FeltField::getExtraGeometrySpecification_() const
         int gt = gridType();
         if (gt > 1000) {                 // Otherwise no extra spec
             size_t readSize = gt % 1000; // last three digits is size of appended data
-            extraGridSpec_.resize(readSize);
 
             size_t readFrom = (startingGridBlock() * blockWords) + gridSize() + 20;
             // offset
diff --git a/src/io/felt/FeltFile.cpp b/src/io/felt/FeltFile.cpp
index d383994..2311aad 100644
--- a/src/io/felt/FeltFile.cpp
+++ b/src/io/felt/FeltFile.cpp
@@ -35,6 +35,7 @@
 #include <fstream>
 #include <mutex>
 #include <sstream>
+#include <stdexcept>
 
 using namespace std;
 
@@ -46,7 +47,7 @@ FeltFile::FeltFile(const std::string& file)
     , feltFile_(new std::ifstream(file, std::ios::binary))
 {
     word head;
-    feltFile_->read(reinterpret_cast<char*>(&head), sizeof(word));
+    read_(&head, 0, 1);
     if (head < 997 or 999 < head)
         changeEndianness_ = true;
 
@@ -182,9 +183,7 @@ FeltFile::Block FeltFile::getBlock_(size_type blockNo) const
 {
     Block ret(new word[blockWords]);
 
-    long long pos = static_cast<long long>(blockNo) * blockWords * sizeof(word);
-    feltFile_->seekg(pos, ios_base::beg);
-    feltFile_->read((char*)ret.get(), blockWords * sizeof(word));
+    read_(ret.get(), blockNo * blockWords, blockWords);
     if (changeEndianness_)
         for_each(ret.get(), ret.get() + blockWords, swapByteOrder);
 
@@ -193,13 +192,22 @@ FeltFile::Block FeltFile::getBlock_(size_type blockNo) const
 
 void FeltFile::get_(std::vector<word>& out, size_type fromWord, size_type noOfWords) const
 {
-    out.resize(noOfWords);
+    std::vector<word> data(noOfWords);
+    read_(data.data(), fromWord, noOfWords);
+    if (changeEndianness_)
+        for_each(data.begin(), data.end(), swapByteOrder);
+    out.swap(data); // only complete data, out might be a cache
+}
+
+void FeltFile::read_(word* out, size_type fromWord, size_type noOfWords) const
+{
+    feltFile_->clear(); // earlier errors must not affect this read
     // this will allow up to 8.4GB (size_t = 4.2G * word=2)
     unsigned long long pos = static_cast<unsigned long long>(fromWord) * sizeof(word);
     feltFile_->seekg(pos, ios_base::beg);
-    feltFile_->read((char*)&out[0], noOfWords * sizeof(word));
-    if (changeEndianness_)
-        for_each(out.begin(), out.end(), swapByteOrder);
+    feltFile_->read(reinterpret_cast<char*>(out), noOfWords * sizeof(word));
+    if (!*feltFile_)
+        throw std::runtime_error("cannot read " + std::to_string(noOfWords) + " words at word " + std::to_string(fromWord) + " of '" + fileName_ + "'");
 }
 
 const FeltField& FeltFile::at(size_t idx) const
diff --git a/src/io/felt/FeltFile.h b/src/io/felt/FeltFile.h
index f9895fc..fabd159 100644
--- a/src/io/felt/FeltFile.h
+++ b/src/io/felt/FeltFile.h
@@ -104,6 +104,13 @@ private:
      */
     void get_(std::vector<word>& out, size_type fromWord, size_type noOfWords) const;
 
+    /**
+     * Read exactly noOfWords words from the file, without changing the byte order
+     *
+     * @throws std::runtime_error if not all words could be read
+     */
+    void read_(word* out, size_type fromWord, size_type noOfWords) const;
+
     const std::string fileName_;
 
     /**
-- 
2.43.0


From 9732a5eb7a9259895f83cb20e25400ad15a67682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:00 +0000
Subject: [PATCH 44/69] fix: FELT times computed in several threads at the same
 time were mixed up by gmtime

---
 src/io/felt/FeltTime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/felt/FeltTime.cpp b/src/io/felt/FeltTime.cpp
index 11301df..cb66a33 100644
--- a/src/io/felt/FeltTime.cpp
+++ b/src/io/felt/FeltTime.cpp
@@ -45,7 +45,8 @@ FeltTime& FeltTime::addHours(int add_hours)
     tp += std::chrono::hours(add_hours);
 
     const time_t tt = std::chrono::system_clock::to_time_t(tp);
-    const tm utc = *std::gmtime(&tt);
+    tm utc;
+    gmtime_r(&tt, &utc); // gmtime result is shared between threads
     year = 1900 + utc.tm_year;
     month = 1 + utc.tm_mon;
     day = utc.tm_mday;
-- 
2.43.0


From b51bde8bf65510eef770b01c47ea04868043696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:00 +0000
Subject: [PATCH 45/69] fix: FELT log stream was read without lock while
 another thread replaced it

---
 src/io/felt/FeltFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/felt/FeltFile.cpp b/src/io/felt/FeltFile.cpp
index 2311aad..c3008ab 100644
--- a/src/io/felt/FeltFile.cpp
+++ b/src/io/felt/FeltFile.cpp
@@ -83,6 +83,7 @@ void FeltFile::setLogStream(std::unique_ptr<FeltLogger>&& l)
 
 bool FeltFile::isLogging()
 {
+    std::lock_guard<std::mutex> lock(logger_mutex);
     return static_cast<bool>(logStream);
 }
 
-- 
2.43.0


From 7f9f3de3dbe311582f241496ffc8e376508fa67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:00 +0000
Subject: [PATCH 46/69] fix: PROJ context per thread for FELT grids, the
 default context was shared without protection

---
 src/io/felt/FeltGridDefinition.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/felt/FeltGridDefinition.cpp b/src/io/felt/FeltGridDefinition.cpp
index aea9e7c..d6b3dbf 100644
--- a/src/io/felt/FeltGridDefinition.cpp
+++ b/src/io/felt/FeltGridDefinition.cpp
@@ -27,6 +27,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 
@@ -63,7 +64,9 @@ static void projConvert(const std::string& projStr, double lon, double lat, doub
     // FIXME this is almost the same as mifi_reproject_point_from_lonlat in reproject.cc
     // but that code cannot be used as libfelt is a separate library
 #ifdef HAVE_PROJ_H
-    std::shared_ptr<PJ> P(proj_create_crs_to_crs(PJ_DEFAULT_CTX, "EPSG:4326", projStr.c_str(), nullptr), delete_PJ);
+    // the default context must not be used by several threads at the same time
+    static thread_local std::unique_ptr<PJ_CONTEXT, PJ_CONTEXT* (*)(PJ_CONTEXT*)> ctx(proj_context_create(), proj_context_destroy);
+    std::shared_ptr<PJ> P(proj_create_crs_to_crs(ctx.get(), "EPSG:4326", projStr.c_str(), nullptr), delete_PJ);
     if (!P) {
         throw std::runtime_error("Proj error");
     }
-- 
2.43.0


From 59363013681cd785f3b4d50273a0d39a900508aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:00 +0000
Subject: [PATCH 47/69] fix: FELT time step just behind the last one was read
 outside of the list of times

---
 src/io/felt/FeltCDMReader2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index eeaa9dc..d440a58 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -628,7 +628,7 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
         return getDataSliceFromMemory(variable, unLimDimPos);
     }
     // only time can be unLimDim
-    if (unLimDimPos > timeVec.size()) {
+    if (cdm_->hasUnlimitedDim(variable) && unLimDimPos >= timeVec.size()) {
         throw CDMException("requested time outside data-region");
     }
 
@@ -710,7 +710,7 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
             for (vector<LevelPair>::const_iterator lit = layerVals.begin(); lit != layerVals.end(); ++lit) {
                 // get the time, if available
                 MetNoFimex::FimexTime t;
-                if (timeVec.size() > 0) {
+                if (unLimDimPos < timeVec.size()) {
                     t = timeVec[unLimDimPos];
                 }
                 // read the slice
-- 
2.43.0


From a85b75995b25bacd187e46ead1fdebb72da705b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:18 +0000
Subject: [PATCH 48/69] fix: reading all of a variable delivered arbitrary
 values where the source has no data for a step, instead of the fill value

---
 src/CDMReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMReader.cc b/src/CDMReader.cc
index 17cf906..0204c8d 100644
--- a/src/CDMReader.cc
+++ b/src/CDMReader.cc
@@ -158,6 +158,8 @@ DataPtr CDMReader::getData(const std::string& varName)
             DataPtr data = createData(variable.getDataType(), uDimSize*sliceSize);
             for (size_t i = 0; i < uDimSize; i++) {
                 DataPtr slice = getDataSlice(varName, i);
+                if (slice->size() == 0) // no data in this slice
+                    slice = createData(variable.getDataType(), sliceSize, cdm_->getFillValue(varName));
                 data->setValues(i*sliceSize, *slice, 0, sliceSize);
             }
             return data;
-- 
2.43.0


From 33fa508aa8709295d2707d50d126bc35a83c3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:46 +0000
Subject: [PATCH 49/69] fix: FELT ensemble variable with a single member other
 than 0 was read as missing

---
 src/io/felt/FeltCDMReader2.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index d440a58..47cebf6 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -690,8 +690,11 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
                 }
             }
             // combine all available level/ensemble combinations
-            if ((ensembleDim != 0)) {
-                vector<short> ensembles = feltfile_->getEnsembleMembers();
+            vector<short> ensembles = fa->getEnsembleMembers();
+            if (!ensembles.empty()) {
+                // without dimension, there is exactly one member
+                if (ensembleDim != 0)
+                    ensembles = feltfile_->getEnsembleMembers();
                 vector<LevelPair> ensembleLayerVals;
                 for (size_t i = 0; i < layerVals.size(); i++) {
                     LevelPair lp = layerVals.at(i);
-- 
2.43.0


From b7d2e78700875b058f5c1d09eb2fe236b92f811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:07 +0000
Subject: [PATCH 50/69] fix: files matching a pattern were not found in the
 second and further of several directories

---
 src/FileUtils.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/FileUtils.cc b/src/FileUtils.cc
index a50151d..55d8f5f 100644
--- a/src/FileUtils.cc
+++ b/src/FileUtils.cc
@@ -152,7 +152,7 @@ filetype_t file_type(const path_t& path)
 
 // internal implementation of scanFiles
 static void scanFiles_(std::vector<std::string>& files, const path_t& dir, int depth, const std::regex& regexp, bool matchFileOnly,
-                       std::string currentRelDir = "", int depthCount = 0)
+                       const std::string& currentRelDir = "", int depthCount = 0)
 {
     LOG4FIMEX(logger, Logger::DEBUG, "scanning directory " + path_string(dir));
     if (depthCount > 1000) {
@@ -163,11 +163,9 @@ static void scanFiles_(std::vector<std::string>& files, const path_t& dir, int d
         const filetype_t ft = file_type(e);
         if (ft == DIRECTORY) {
             if (depth != 0) {
-                if (!matchFileOnly) {
-                    // remember the directory behind start-directory
-                    currentRelDir += path_filename_string(e) + "/";
-                }
-                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, currentRelDir, depthCount + 1);
+                // remember the directory behind start-directory
+                const std::string relDir = matchFileOnly ? "" : currentRelDir + path_filename_string(e) + "/";
+                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, relDir, depthCount + 1);
             }
         } else if (ft == REGULAR_FILE) {
             const std::string filename = (matchFileOnly ? "" : currentRelDir) + path_filename_string(e);
-- 
2.43.0


From 0a035d4de71b0da6ad458d69bc988db03fcf5d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:29 +0000
Subject: [PATCH 51/69] fix: floating point values beyond the range of int were
 truncated when converted to 64 bit integers

---
 include/fimex/MathUtils.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/fimex/MathUtils.h b/include/fimex/MathUtils.h
index 70789ae..e139191 100644
--- a/include/fimex/MathUtils.h
+++ b/include/fimex/MathUtils.h
@@ -70,7 +70,13 @@ struct data_rounder;
 template <typename OUT, typename IN>
 struct data_rounder<OUT, IN, true>
 {
-    inline OUT operator()(const IN& in) const { return static_cast<OUT>(round(in)); }
+    inline OUT operator()(const IN& in) const
+    {
+        // 'int round' is too small for 64 bit types, and 'long long' for large unsigned values
+        if (std::numeric_limits<OUT>::digits > 63 && in >= static_cast<IN>(std::numeric_limits<long long>::max()))
+            return static_cast<OUT>(in);
+        return static_cast<OUT>(::llround(in));
+    }
 };
 
 template <typename OUT, typename IN>
-- 
2.43.0


From 9b4ba4953814f534a2b9fdb473586969cc101dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:29 +0000
Subject: [PATCH 52/69] fix: joinNew aggregation delivered too many fill values
 for a member without the variable

---
 src/AggregationReader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index f8c0bb9..905ec9a 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -447,7 +447,9 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
                     // set everything to fillValue
                     size_t unLimSliceSize = 1;
                     for (const auto& dim : aVar.getShape()) {
-                        unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        if (dim != joinNewDim) {
+                            unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        }
                     }
                     return createData(aVar.getDataType(), unLimSliceSize, cdm_->getFillValue(varName));
                 }
-- 
2.43.0


From 6530cc58f140320f7fd32a0bf0e26cf5d920a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:04 +0000
Subject: [PATCH 53/69] fix: requesting scaled data beyond the end of an
 aggregation crashed

AggregationReader::getDataSlice returns no data for positions out of bounds, scaling dereferenced it.
---
 src/CDMReader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CDMReader.cc b/src/CDMReader.cc
index 0204c8d..3c032a2 100644
--- a/src/CDMReader.cc
+++ b/src/CDMReader.cc
@@ -178,6 +178,9 @@ void CDMReader::getScaleAndOffsetOf(const std::string& varName, double& scale, d
 // handle data scaling using add_offset, scale_factor and _FillValue from the varName variable
 DataPtr CDMReader::scaleDataOf(const std::string& varName, DataPtr data, double unitScale, double unitOffset)
 {
+    if (!data)
+        return data; // nothing to scale, e.g. beyond the unlimited dimension of an aggregation
+
     // retrieve scale and offset
     double scale, offset;
     getScaleAndOffsetOf(varName, scale, offset);
@@ -195,6 +198,9 @@ DataPtr CDMReader::scaleDataOf(const std::string& varName, DataPtr data, double
 
 DataPtr CDMReader::scaleDataOf(const std::string& varName, DataPtr data, UnitsConverter_p uc)
 {
+    if (!data)
+        return data;
+
     // retrieve scale and offset
     double scale, offset;
     getScaleAndOffsetOf(varName, scale, offset);
-- 
2.43.0


From 890b60aa913cd5d41d0f6c57317052a5ff57e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:40 +0000
Subject: [PATCH 54/69] fix: a position just beyond the end of data kept in
 memory delivered uninitialised values

getDataSliceFromMemory asked for data after the end of the array; the request one step behind the end was not rejected.
---
 src/CDMReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMReader.cc b/src/CDMReader.cc
index 3c032a2..8a47948 100644
--- a/src/CDMReader.cc
+++ b/src/CDMReader.cc
@@ -261,6 +261,8 @@ DataPtr CDMReader::getDataSliceFromMemory(const CDMVariable& variable, size_t un
         if (cdm_->hasUnlimitedDim(variable)) {
             // cut out the unlimited dim data
             const auto sliceSize = product(getDimsSlice(variable.getName()));
+            if ((unLimDimPos + 1) * sliceSize > data->size())
+                throw CDMException("unlimited dimension position " + type2string(unLimDimPos) + " of variable '" + variable.getName() + "' is outside the data");
             return createDataSlice(variable.getDataType(), *data, unLimDimPos * sliceSize, sliceSize);
         } else {
             return data->clone();
-- 
2.43.0


From 15ebff2082ddcec9b1096f6cbccb456d5dee6019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:40 +0000
Subject: [PATCH 55/69] fix: positions on an axis with less than two elements
 were read outside of the axis

---
 src/interpolation.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interpolation.c b/src/interpolation.c
index 3279d7b..2dd8cb2 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -153,6 +153,13 @@ int bsearchDoubleIndex(const double key, const double* base, int num, int (*comp
 
 int mifi_points2position(double* points, const int n, const double* axis, const int num, const int axis_type)
 {
+    if (num < 2) {
+        // no cell size, only the position itself is on the axis
+        for (int i = 0; i < n; i++)
+            points[i] = (num == 1 && points[i] == axis[0]) ? 0. : -999.; // outside range
+        return MIFI_OK;
+    }
+
     int circularLongitude = 0;
     int (*comparator)(double a, double b);
     if (axis[0] < axis[num - 1])
-- 
2.43.0


From 67fa39e1f3d41f8c936dcf344dfe23148bab2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:40 +0000
Subject: [PATCH 56/69] fix: quality extraction with highest/lowest never ended
 and the automatic configuration had no effect

---
 src/CDMQualityExtractor.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 6e01c9b..8e3d71d 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -60,7 +60,7 @@ static vector<string> findCorrespondingVariables(const CDM& cdm, const string& s
         vector<string> parts = tokenize(standardName, " ");
         if (parts.size() >=2) {
             string foreignStandardName = parts[0];
-            vector<string> correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
+            correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
         } else {
             LOG4FIMEX(logger, Logger::WARN, "standard_name "+ standardName + "not suitabale for a status_flag in statusVariable "+ statusVarName);
         }
@@ -87,9 +87,9 @@ static vector<double> getValidValues(const CDM& cdm, const string& statusVarName
             if (autoConfString == "all") {
                 copy(&validData[0], &validData[validSize], back_inserter(validVals));
             } else if (autoConfString == "highest") {
-                validVals[0] = validData[validSize-1];
+                validVals.push_back(validData[validSize-1]);
             } else if (autoConfString == "lowest") {
-                validVals[0] = validData[0];
+                validVals.push_back(validData[0]);
             } else {
                 LOG4FIMEX(logger, Logger::WARN, "unable to interpret autoConfString: "+autoConfString);
             }
@@ -216,14 +216,14 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
     double extreme = MIFI_UNDEFINED_D;
     double* pos = begin;
     // forward to first defined element
-    while ((pos != end) && (!std::isnan(*pos))) {
+    while ((pos != end) && std::isnan(*pos)) {
         ++pos;
     }
     if (pos == end) {
         extreme = MIFI_UNDEFINED_D;
     } else {
         extreme = *pos;
-        while (pos != end) {
+        for (; pos != end; ++pos) {
             if (!std::isnan(*pos)) {
                 extreme = minmax(extreme, *pos);
             }
-- 
2.43.0


From 3606a2dd1e54b80dbfefc75daeae8cff96d78edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:40 +0000
Subject: [PATCH 57/69] fix: selecting the position just beyond the end, or an
 end before the start, of a dimension

---
 src/CDMExtractor.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index c066676..4f5b7d4 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -273,7 +273,7 @@ void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<st
 {
     CDMDimension& dim = cdm_->getDimension(dimName);
     for (size_t sz : slices) {
-        if (sz > dim.getLength())
+        if (sz >= dim.getLength())
             throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(dim.getLength()));
     }
 
@@ -301,15 +301,11 @@ void CDMExtractor::reduceDimension(const std::string& dimName, size_t start, siz
 
 void CDMExtractor::reduceDimensionStartEnd(const std::string& dimName, size_t start, long long end)
 {
-    size_t length = 0;
-    if (end > 0) {
-        length = end - start + 1;
-    } else {
-        CDMDimension& dim = cdm_->getDimension(dimName);
-        length = dim.getLength();
-        length -= start;
-        length += end;
-    }
+    // number of elements up to and including the last one
+    const long long stop = (end > 0) ? end + 1 : static_cast<long long>(cdm_->getDimension(dimName).getLength()) + end;
+    if (stop < 0 || static_cast<unsigned long long>(stop) < start)
+        throw CDMException("can't reduce dimension '" + dimName + "': end " + type2string(end) + " is before start " + type2string(start));
+    const size_t length = stop - start;
     reduceDimension(dimName, start, length);
 }
 
-- 
2.43.0


From 06adebe470bf35aa6e35d5719ab452bc2ebe371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:40 +0000
Subject: [PATCH 58/69] fix: interpolation from an empty or completely
 undefined grid crashed

---
 src/CDMInterpolator.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 23302d7..e9e843d 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -706,6 +706,17 @@ map<string, CoordinateSystem_cp> CDMInterpolator::findBestCoordinateSystemsAndPr
         LOG4FIMEX(logger, Logger::ERROR, "no coordinate-systems" << (withProjection ? " with projection found, maybe you should try coordinate interpolation" : " found"));
         throw CDMException("no coordinate-systems found");
     }
+    const CDM& dataCDM = p_->dataReader->getCDM();
+    for (const auto& csi : coordSysMap) {
+        for (const auto type : {CoordinateAxis::GeoX, CoordinateAxis::GeoY, CoordinateAxis::Lon, CoordinateAxis::Lat}) {
+            if (CoordinateAxis_cp axis = csi.second->findAxisOfType(type)) {
+                for (const std::string& dim : axis->getShape()) {
+                    if (dataCDM.hasDimension(dim) && dataCDM.getDimension(dim).getLength() == 0)
+                        throw CDMException("cannot interpolate from an empty grid, dimension '" + dim + "' has no elements");
+                }
+            }
+        }
+    }
     for (vector<string>::iterator iv = incompatibleVariables.begin(); iv != incompatibleVariables.end(); ++iv) {
         LOG4FIMEX(logger, Logger::WARN, "removing variable " << *iv << " since it is not compatible with the reprojected coordinates");
         cdm_->removeVariable(*iv);
@@ -1086,6 +1097,8 @@ double /* rad */ getGridDistance(const double* lonVals, // in degrees
 #ifdef _OPENMP
     }
 #endif
+    if (samples.empty())
+        return 0; // no defined input point
     const double max_grid_d = acos(*(min_element(samples.begin(), samples.end()))) * 1.414; // allow a bit larger extrapolation (diagonal = sqrt(2))
     return std::min(max_grid_d, MIFI_PI);
 }
-- 
2.43.0


From 0820bb7ec9419c7ee7435ee4d4878a3538d0acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:40 +0000
Subject: [PATCH 59/69] fix: rotating vectors on an empty grid crashed

---
 src/CachedVectorReprojection.cc | 4 ++++
 src/reproject.cc                | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CachedVectorReprojection.cc b/src/CachedVectorReprojection.cc
index 768f8e8..5417e92 100644
--- a/src/CachedVectorReprojection.cc
+++ b/src/CachedVectorReprojection.cc
@@ -42,12 +42,16 @@ CachedVectorReprojection::CachedVectorReprojection(reproject::Matrix_cp matrix)
 
 void CachedVectorReprojection::reprojectValues(shared_array<float>& uValues, shared_array<float>& vValues, size_t size) const
 {
+    if (size == 0)
+        return;
     const size_t oz = size / (getXSize() * getYSize());
     reproject::vector_reproject_values_by_matrix_f(matrix, &uValues[0], &vValues[0], oz);
 }
 
 void CachedVectorReprojection::reprojectDirectionValues(shared_array<float>& angles, size_t size) const
 {
+    if (size == 0)
+        return;
     const size_t oz = size / (getXSize() * getYSize());
     reproject::vector_reproject_direction_by_matrix_f(matrix, &angles[0], oz);
 }
diff --git a/src/reproject.cc b/src/reproject.cc
index 698d284..f398c6f 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -365,7 +365,9 @@ Matrix_cp get_vector_reproject_matrix_proj(crs2crs& c2c, const double* in_x_fiel
     // delta usually .1% of distance between neighboring cells
     const double defaultDelta = 1e-3;
     double deltaXY;
-    {
+    if (ox < 1 || oy < 1) {
+        deltaXY = defaultDelta; // no points at all
+    } else {
         if (ox > 1) {
             if (oy > 1) {
                 deltaXY = defaultDelta * (in_x_field[(1) * ox + (1)] - in_x_field[0]);
-- 
2.43.0


From 05a206ca3655c6168e2f009954cb2c1d47907c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:40 +0000
Subject: [PATCH 60/69] fix: add4Dpressure crashed when there is no pressure
 converter

---
 src/CDMPressureConversions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 87d221e..6cf92e8 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -571,6 +571,7 @@ Converter_pv AddPressure4DConverterFactory::createConverter(Environment& env, co
                 continue;
         } catch (CDMException& ex) {
             LOG4FIMEX(logger, Logger::WARN, "exception when retrieving pressure converter for coordinate system, skipped: " << ex.what());
+            continue;
         }
 
         vector<string> pshape(4);
-- 
2.43.0


From f46f9ae26cf28dc8a1afd34995376d86e9eaf8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:40 +0000
Subject: [PATCH 61/69] fix: interpolation to levels depending on the
 interpolated variable recursed endlessly

---
 src/CDMVerticalInterpolator.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 3fde72f..db6a098 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -49,6 +49,7 @@
 #include <exception>
 #include <iterator>
 #include <regex>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -88,6 +89,30 @@ bool isSimpleZAxis(const CDM& cdm, CoordinateSystem_cp cs)
     return true;
 }
 
+/** Detect that the levels for a variable depend on the same variable. */
+class RecursionGuard
+{
+public:
+    RecursionGuard(const void* object, const std::string& name)
+        : key_(object, name)
+    {
+        if (!active().insert(key_).second)
+            throw CDMException("vertical levels for '" + name + "' depend on '" + name + "'");
+    }
+    ~RecursionGuard() { active().erase(key_); }
+    RecursionGuard(const RecursionGuard&) = delete;
+    RecursionGuard& operator=(const RecursionGuard&) = delete;
+
+private:
+    typedef std::pair<const void*, std::string> key_t;
+    static std::set<key_t>& active()
+    {
+        static thread_local std::set<key_t> keys;
+        return keys;
+    }
+    const key_t key_;
+};
+
 void replaceZaxis(CDM& cdm, CoordinateSystem_cp cs, const std::string& varName, const std::string& zAxisName)
 {
     LOG4FIMEX(logger, Logger::DEBUG, "replace z? " << cs->id() << " var='" << varName << "' zaxis='" << zAxisName);
@@ -368,6 +393,7 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
     VerticalConverter_p oConverter;
     DataPtr oVerticalData;
     if (pimpl_->interpolateToAxis) {
+        const RecursionGuard guard(this, varName);
         CDMReader_p self(this, [](CDMReader*) { }); // FIXME hack to avoid adding enable_shared_from_this
         const CoordinateSystem_cp_v coordSys = listCoordinateSystems(self);
         const auto cs = findCompleteCoordinateSystemFor(coordSys, varName);
-- 
2.43.0


From 1fac4ecdf53b3c616a18ab89789cc93270f00055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:35 +0000
Subject: [PATCH 62/69] fix: polar stereographic fields were written upside
 down to GRIB

The scanning mode of the sample was kept, which is from north to south,
while the y-axis usually increases.
---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 8 ++++++--
 src/io/grib/GribApiCDMWriter_Impl2.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index ccea04c..04deb10 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -122,9 +122,13 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             // grib1 doesn't allow to set double values for this! // (grib2 not checked)
             auto xArray = xData->asDouble();
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", static_cast<long>(xArray[1] - xArray[0])), "");
+            const double dx = xArray[1] - xArray[0];
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", static_cast<long>(std::fabs(dx))), "");
             auto yArray = yData->asDouble();
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", static_cast<long>(yArray[1] - yArray[0])), "");
+            const double dy = yArray[1] - yArray[0];
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", static_cast<long>(std::fabs(dy))), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", dx < 0 ? 1 : 0), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
                 GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", cdmReader->getData(latitude)->asDouble()[0]), "");
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 8d1f079..ef9e73e 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -144,9 +144,13 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongXAxis", xData->size()), "");
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             const auto xArray = xData->asDouble();
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", (xArray[1] - xArray[0])), "");
+            const double dx = xArray[1] - xArray[0];
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", fabs(dx)), "");
             const auto yArray = yData->asDouble();
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", (yArray[1] - yArray[0])), "");
+            const double dy = yArray[1] - yArray[0];
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", fabs(dy)), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", dx < 0 ? 1 : 0), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
                 double lon = clamp_lon(cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]);
-- 
2.43.0


From b55d1684a0f3c9fec2b264406faf4aa99bc04e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:35 +0000
Subject: [PATCH 63/69] fix: the rotated pole was truncated to whole degrees in
 GRIB output

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 4 ++--
 src/io/grib/GribApiCDMWriter_Impl2.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index 04deb10..1c4d560 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -245,8 +245,8 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLat)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLon)), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index ef9e73e..c917468 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -251,8 +251,8 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLat)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLon)), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
-- 
2.43.0


From 1f50adb55836e8bf437c1af9d1279c4b8a078e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:35 +0000
Subject: [PATCH 64/69] fix: orientation and true latitude of
 polar_stereographic were lost in GRIB2

The name of the projection was misspelled.
---
 src/io/grib/GribApiCDMWriter_Impl2.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index c917468..21df1c6 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -97,12 +97,19 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             // straight_vertical_longitude_from_pole (polar_stereographic), longitude_of_projection_origin (stereographic)
             double latitudeWhereDxAndDyAreSpecifiedInDegrees = 90.;
             double orientationOfTheGridInDegrees = 0.;
-            if (projection == "polar_stereograhpic") {
+            if (projection == "polar_stereographic") {
                 LOG4FIMEX(logger, Logger::INFO, "polar_stereographic projection for" << varName);
-                // get lat_ts fixed
-                latitudeWhereDxAndDyAreSpecifiedInDegrees = 90.;
+                // get lat_ts, either directly or via scale_factor
+                CDM::AttrVec::iterator ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("standard_parallel"));
+                if (ait != projAttrs.end()) {
+                    latitudeWhereDxAndDyAreSpecifiedInDegrees = ait->getData()->asDouble()[0];
+                } else {
+                    ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
+                    if (ait != projAttrs.end())
+                        latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * ait->getData()->asDouble()[0] - 1));
+                }
                 // get lon0
-                CDM::AttrVec::iterator ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("straight_vertical_longitude_from_pole"));
+                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("straight_vertical_longitude_from_pole"));
                 if (ait != projAttrs.end()) {
                     orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
                 }
-- 
2.43.0


From 50fbbe89f7b92c93c38e5decbd499cd1136461a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:35 +0000
Subject: [PATCH 65/69] fix: coefficients of hybrid levels from the surface
 upwards in GRIB2

Read one element after the end of ap and b and skipped the first one.
---
 src/io/grib/GribApiCDMWriter_Impl2.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 21df1c6..c5ffe0e 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -420,21 +420,19 @@ void GribApiCDMWriter_Impl2::setLevel(const std::string& varName, double levelVa
                     throw CDMException("size mismatch between ap and b");
                 }
 
-                // step forward if surface is first level
-                int i0 = 1, di = +1;
-                if (bD[0] < bD[bData->size()-1]) {
-                    // reverse step if surface is last level
-                    i0 = n-1;
-                    di = -1;
-                }
-                // convert from mid-levels to level border, i.e. ml[i] = (lb[i-1]+lb[i])/2
+                // convert from mid-levels to level border, i.e. ml[i] = (lb[i]+lb[i+1])/2
                 // see also GribCDMReader::readValuesFromXPath_ for extraHalvLevels
                 std::vector<double> pv(2*(n + 1), 0);
                 double* pvAp = &pv[0];
                 double* pvB = &pv[n+1];
-                for (int j = 0, i = i0; j < n; j += 1, i += di) {
-                    pvAp[i] = 2*apD[i]-pvAp[i-di];
-                    pvB[i] = 2*bD[i]-pvB[i-di];
+                const bool surfaceLast = bD[0] < bD[n - 1];
+                for (size_t j = 0; j < n; j += 1) {
+                    // step forward if surface is first level, reverse step if surface is last level
+                    const size_t i = surfaceLast ? n - 1 - j : j;
+                    const size_t from = surfaceLast ? i + 1 : i;
+                    const size_t to = surfaceLast ? i : i + 1;
+                    pvAp[to] = 2*apD[i]-pvAp[from];
+                    pvB[to] = 2*bD[i]-pvB[from];
                 }
 
                 GRIB_CHECK(grib_set_long(gribHandle.get(), "PVPresent", 1), 0);
-- 
2.43.0


From 698330f2d21af89c96ee29ec51f860093c519d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:35 +0000
Subject: [PATCH 66/69] fix: mifi_write_scaled_double_dataslice with empty unit
 converted the data

As for reading, an empty unit means no conversion.
---
 src/c_fimex.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 63f52a9..34f607a 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -556,7 +556,12 @@ int mifi_write_scaled_double_dataslice(mifi_cdm_reader* rwreader, const char* va
     try {
         shared_array<double> dptr(data, null_deleter());
         DataPtr d = createData(size, dptr);
-        rw->putScaledDataSliceInUnit(varName, units, *(sb->sb_), d);
+        const string unitStr(units);
+        if (unitStr != "") {
+            rw->putScaledDataSliceInUnit(varName, unitStr, *(sb->sb_), d);
+        } else {
+            rw->putScaledDataSlice(varName, *(sb->sb_), d);
+        }
         return 0;
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_write_scaled_double_dataslice: " << ex.what());
-- 
2.43.0


From e229b55a6efc408116dfab39d3cc605abaf65aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:35 +0000
Subject: [PATCH 67/69] fix: all files of a scanned joinNew aggregation had the
 same coordinate value

---
 src/NcmlAggregationReader.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/NcmlAggregationReader.cc b/src/NcmlAggregationReader.cc
index 42dbd35..eaaa2f8 100644
--- a/src/NcmlAggregationReader.cc
+++ b/src/NcmlAggregationReader.cc
@@ -133,7 +133,6 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
         }
 
         // open reader by scan
-        idx = 0;
         const XPathNodeSet nodesScan(doc, "./nc:scan", nodesAgg[0]);
         for (auto node : nodesScan) {
             const auto dateFormatMark = getXmlProp(node, "dateFormatMark");
@@ -163,11 +162,11 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
                     if (aggJoinNew)
                         coordValue = "location_" + type2string(idx);
                     agg->addReader(CDMFileReaderFactory::create(type, fileName, config), fileName, coordValue);
+                    idx += 1;
                 } catch (CDMException& ex) {
                     LOG4FIMEX(logger, Logger::ERROR, "cannot read scanned file '" << fileName << "' type: " << type << ", config: " << config);
                 }
             }
-            idx += 1;
         }
         agg->initAggregation();
         reader_ = agg;
-- 
2.43.0


From ff32fb69c5f5eb29d1a638359604eb5e6952bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:56 +0000
Subject: [PATCH 68/69] fix: only the data of the first reference time were
 written to GRIB

With several reference times, all but the first got the data of the first
one, and only one of the times.
---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 05ed0af..f4bb49f 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -302,8 +302,10 @@ void GribApiCDMWriter_ImplAbstract::run()
             size_t rtPos = 0;
             for (const FimexTime& rTime : refTimes) {
                 if (refTimes.size() > 1) {
+                    const size_t timeCount = vTimes.size(); // same for all reference-times
                     vTimes.clear(); // will be filled anew
                     sb.setReferenceTimePos(rtPos);
+                    sb.setTimeStartAndSize(0, timeCount);
                     stringstream ss;
                     ss << "seconds since " << make_time_string_extended(rTime);
                     DataPtr times = cdmReader->getScaledDataSliceInUnit(tAxis->getName(), ss.str(), sb.getTimeVariableSliceBuilder());
@@ -314,6 +316,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                     if (times->size() > 1) {
                         stepUnit = gribSeconds2stepUnits(timesA[1] - timesA[0]);
                     }
+                    sb.setTimeStartAndSize(0, 1);
                 }
                 size_t vtPos = 0;
                 for (vector<FimexTime>::iterator vTime = vTimes.begin(); vTime != vTimes.end(); ++vTime, ++vtPos) {
@@ -353,6 +356,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                         }
                     }
                 }
+                rtPos += 1;
             }
             for (map<string, string>::iterator w = variableWarnings.begin(); w != variableWarnings.end(); ++w) {
                 LOG4FIMEX(logger, Logger::WARN, "unable to write parameter " << w->first << ": " << w->second);
-- 
2.43.0


From 7cf08e41c0a2ad2cf63450d2a8db26b2ca2bdf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:56 +0000
Subject: [PATCH 69/69] fix: wrong times in GRIB when not all are multiples of
 the first time step

The unit of the forecast step was taken from the first two times, and the
times were rounded to that unit.
---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 22 ++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index f4bb49f..fe00fc3 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -45,6 +45,7 @@
 #include <cassert>
 #include <cerrno>
 #include <cmath>
+#include <cstdlib>
 #include <cstring>
 #include <functional>
 
@@ -52,6 +53,23 @@ namespace MetNoFimex {
 
 static Logger_p logger = getLogger("fimex.GribApi_CDMWriter");
 
+/**
+ * grib-stepUnits in which the difference between the first times, and all times (seconds since the reference-time), are integers
+ */
+static std::string getStepUnits(const shared_array<long long>& times, size_t count)
+{
+    long long step = times[1] - times[0];
+    for (size_t i = 0; i < count && step > 0; ++i) {
+        long long rest = std::abs(times[i]);
+        while (rest > 0) {
+            const long long r = step % rest;
+            step = rest;
+            rest = r;
+        }
+    }
+    return gribSeconds2stepUnits(step);
+}
+
 /** helper classes Scale and UnScale to transform double vectors */
 class Scale
 {
@@ -267,7 +285,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                 std::transform(&timesA[0], &timesA[0] + times->size(), std::back_inserter(vTimes),
                                std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
                 if (times->size() > 1) {
-                    stepUnit = gribSeconds2stepUnits(timesA[1] - timesA[0]);
+                    stepUnit = getStepUnits(timesA, times->size());
                 }
                 /* select the first startTime and the size for the time-dimension */
                 sb.setTimeStartAndSize(0, 1); // default is all of ReferenceTimePos
@@ -314,7 +332,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                     transform(&timesA[0], &timesA[0] + times->size(), back_inserter(vTimes),
                               std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
                     if (times->size() > 1) {
-                        stepUnit = gribSeconds2stepUnits(timesA[1] - timesA[0]);
+                        stepUnit = getStepUnits(timesA, times->size());
                     }
                     sb.setTimeStartAndSize(0, 1);
                 }
-- 
2.43.0

