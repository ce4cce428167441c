#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and checks.json. Run after editing."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, real, stub=(), assume=(), scen="", note="", factor=1.0, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, real=list(real), stub=list(stub), assume=list(assume), note=note, factor=factor, state=state, observe=observe))

FIMEX = "all fimex library code (instrumented build of /repo)"
NC = "netCDF-C and HDF5"
UD = "udunits2"
STUB = ["OpenMP runtime (teams, locks, critical sections, worksharing) and pthread/std mutexes: simulated, every switch decided by the seed", "clock and thread ids", "heap allocator (bounds and use-after-free checks)"]
IO = ["file system calls below the run's scratch directory: passed through, with seeded errors, short transfers and crash points"]
UP = ["upstream data source (CDMReader implemented by the harness) with seeded exceptions and empty slices"]
SC = "threads switch at locks, library calls, I/O and a seeded sample of instrumented memory accesses, under sequential consistency; weak memory effects are not simulated"

prop("S01", "Parallel NetCDF writing stores exactly the source data",
     "Whenever writing a NetCDF file (any format, with or without a writer configuration that changes types or compression, alone or while other files are written or read) succeeds, the file holds every variable, dimension and attribute of the source with exactly the values the source delivered, each at its own position. The result does not depend on the number of worker threads or on how they are scheduled.",
     ["schedules", "inputs", "configurations"], "all interleavings of the writer's worker threads and of several writers and readers at once; all shapes, types, formats and writer configurations",
     "The tests write a few files with whatever schedule the machine produces, mostly effectively sequential; nothing controls the interleaving of the workers around the netCDF lock.",
     ["src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_Utils.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "include/fimex/MutexLock.h"],
     [("parallel loop over unlimited positions; netCDF calls under the library lock", "src/io/netcdf/NetCDF_CDMWriter.cc writeData"), ("library-wide netCDF lock", "src/io/netcdf/NetCDF_Utils.h Nc::getMutex")],
     [FIMEX, NC, UD], STUB + UP, [SC])
prop("S02", "Concurrent readers always get exactly their data",
     "Any number of threads may read from the same reader, or create, use and drop their own readers, including as the very first use of the library: every read (whole variable, one unlimited position, sub-slice, scaled, in another unit) returns exactly the data of the dataset, also through aggregations, extractions and other reader chains. The delivered data belong to the caller: changing them affects no other request. The result does not depend on the interleaving.",
     ["schedules", "inputs", "histories"], "all interleavings of 2-4 threads over shared and own readers; datasets, chains of readers and request sequences drawn at random",
     "The unit tests read from one thread; the documented guarantee that all get-data operations are thread-safe is never exercised under an adverse schedule.",
     ["src/CDMReader.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/AggregationReader.cc", "src/NcmlCDMReader.cc", "src/CDMExtractor.cc", "src/IoPlugin.cc", "src/CDMFileReaderFactory.cc"],
     [("per-library locks around netCDF; no shared mutable state in get-data calls", "src/io/netcdf/NetCDF_CDMReader.cc getDataSlice"), ("one-time installation of plug-ins", "src/IoPlugin.cc"), ("data kept in memory is copied before it is handed out", "src/CDMReader.cc getDataSliceFromMemory")],
     [FIMEX, NC, UD], STUB + UP, [SC])
prop("S03", "Parallel processing gives the same result for every schedule",
     "Horizontal, vertical and time interpolation, smoothing, filling, extraction, statistics, derived quantities and merging deliver, for every request, the same values whether requests and their internal parallel loops run sequentially or are interleaved in any way by several threads sharing the processing chain. Writing such a chain with a parallel writer stores those same values.",
     ["schedules", "inputs", "configurations"], "all interleavings of internal worker teams and of 2-4 calling threads; random grids, axes, missing values and processing chains of one to three stages",
     "Tests compare a few sequential results; caches, accumulators and scratch buffers shared between calls only go wrong under particular interleavings.",
     ["src/CDMInterpolator.cc", "src/CachedForwardInterpolation.cc", "src/CachedInterpolation.cc", "src/CDMProcessor.cc", "src/CDMVerticalInterpolator.cc", "src/CDMTimeInterpolator.cc", "src/interpolation.c", "src/CDMMerger.cc", "src/CDMBorderSmoothing.cc", "src/CachedVectorReprojection.cc"],
     [("per-call work arrays; caches guarded by a lock", "src/CDMProcessor.cc, src/CachedForwardInterpolation.cc")],
     [FIMEX, "PROJ", UD, NC], STUB + UP, [SC, "values are compared with a sequential execution of the same code; single-precision sums may differ in the last digits only where the pipeline accumulates"])
prop("S04", "Unrelated work in several threads does not interfere",
     "Threads that do unrelated work at the same time in one process - reading and writing NetCDF, GRIB and NcML, updating files, converting units, interpolating and otherwise processing, each on files and objects of its own - get exactly the results they get alone. Nothing deadlocks, no library that is not thread-safe is entered by two threads at once, and no two threads access the same memory without synchronisation when one of them writes. When storage, a library, a source or an allocation fails in one thread, the others still succeed with the right results.",
     ["schedules", "inputs", "fault_sequences"], "2-3 threads with 1-2 pieces of work each from 8 kinds, all interleavings; in part of the runs up to two faults (read, write, open, HTTP, library, allocation, source) that hit one of the threads only",
     "Tests never run two operations at the same time.",
     ["src/io/netcdf/NetCDF_Utils.cc", "src/Units.cc", "src/reproject.cc", "src/io/grib/GribCDMReader.cc", "src/CDMFileReaderFactory.cc", "include/fimex/MutexLock.h"],
     [("one lock per library which is not thread-safe", "src/io/netcdf/NetCDF_Utils.h, src/Units.cc"), ("no unprotected global state", "src/reproject.cc, src/Logger.cc")],
     [FIMEX, NC, UD, "PROJ", "ecCodes", "libxml2"], STUB + IO + UP + ["libcurl easy interface: replaced by a simulated HTTP server with seeded faults"], [SC, "unsynchronised access is recognised in the instrumented code (all of fimex), by happens-before over locks, thread starts and ends, and atomics", "crashes inside HDF5 after an injected storage error are not counted against fimex"])
prop("S05", "Unit and time conversions are right under concurrency",
     "Converting values between units, converting points in time to and from 'unit since epoch', reading and writing times as text, and comparing units return the correct result for every combination of threads that create, copy, use and drop units and converters at the same time. The underlying unit library is never entered by two threads at once.",
     ["schedules", "inputs", "histories"], "all interleavings of 2-4 threads, shared and private converters and time units, concurrent first use and re-initialisation",
     "Unit tests convert from one thread; the unit library is not thread-safe, so a missing lock shows only under particular schedules.",
     ["src/Units.cc", "src/TimeUnit.cc", "src/FimexTime.cc", "src/TimeUtils.cc", "src/ReplaceStringTimeObject.cc"],
     [("global units mutex", "src/Units.cc"), ("converters free their library objects under the lock", "src/Units.cc, src/TimeUnit.cc")],
     [FIMEX, UD], STUB, [SC])
prop("S06", "Failed NetCDF output is never reported as success",
     "If writing a NetCDF file, filling an existing one or updating one in place completes without an error although storage, the netCDF library or the source failed on the way, the resulting file nevertheless holds exactly the data it should. Any error that costs data reaches the caller as an exception, no matter which worker thread met it.",
     ["fault_sequences", "schedules", "inputs"], "write, sync, truncate, open and close errors, full disks, failing netCDF calls and failing sources at any point, one or several, under any interleaving of the workers",
     "No test injects a storage error; all write to a healthy disk.",
     ["src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_Utils.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/FillWriter.cc"],
     [("every netCDF return code is checked", "src/io/netcdf/NetCDF_Utils.cc ncCheck"), ("errors of worker threads are collected and re-thrown", "src/io/netcdf/NetCDF_CDMWriter.cc")],
     [FIMEX, NC, UD], STUB + IO + UP + ["netCDF calls: real, with seeded error returns"], [SC, "crashes inside HDF5 after an injected storage error are not counted against fimex"])
prop("S07", "GRIB, NcML and index output is complete or reported as failed",
     "When writing a GRIB file (new or appended to), an NcML file or a GRIB index (grbml, grbfp; created, appended to or converted) ends without an error, the output holds exactly the fields, values, times, levels and grids of its source, whatever errors storage or source produced and whatever other output was written at the same time. Otherwise the caller gets an error. A failed append leaves the messages that were in a GRIB file before.",
     ["fault_sequences", "schedules", "inputs", "histories"], "write, open, close and read errors, full disks and failing sources at any point; 1-3 writers at once under any interleaving; random grids (latitude-longitude, rotated, Lambert, polar stereographic), levels (none, pressure, height, hybrid), times, reference times, missing values, configurations and index histories",
     "The tests write a few small files to a healthy disk from one thread.",
     ["src/io/grib/GribApiCDMWriter_ImplAbstract.cc", "src/io/grib/GribApiCDMWriter_Impl1.cc", "src/io/grib/GribApiCDMWriter_Impl2.cc", "src/NcmlCDMWriter.cc", "src/io/grib/GribFileIndex.cc", "src/io/grib/GribProtobufIndexWriter.cc", "src/binSrc/fiIndexGribs.cc"],
     [("stream state is checked after writing and closing", "src/io/grib/GribApiCDMWriter_ImplAbstract.cc run, src/NcmlCDMWriter.cc"), ("read errors of the source are not taken for limitations of GRIB", "src/io/grib/GribApiCDMWriter_ImplAbstract.cc")],
     [FIMEX, "ecCodes", "libxml2", "protobuf", "fiIndexGribs (run in-process)"], STUB + IO + UP + ["command line parser of the programs (the library is not installed here)"], [SC, "GRIB packing loses precision: values are compared within the packing resolution"])
prop("S08", "Read faults never yield wrong data",
     "When opening or reading a dataset meets I/O errors, netCDF errors, failing allocation of data or a failing source, through any chain of readers and from any number of threads, each request either reports an error or returns exactly the right data, and a dataset that opens successfully describes itself correctly. A failed request never changes what other requests return.",
     ["fault_sequences", "schedules", "inputs", "histories"], "one to three faults at any operation while opening or reading; random datasets, aggregations, reader chains and request sequences of 1-3 threads",
     "Tests read intact files from a healthy disk only.",
     ["src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_Utils.cc", "src/AggregationReader.cc", "src/NcmlCDMReader.cc", "src/CDMReader.cc", "src/CDMExtractor.cc"],
     [("every netCDF return code is checked", "src/io/netcdf/NetCDF_Utils.cc ncCheck"), ("exceptions propagate through reader chains", "src/CDMReader.cc")],
     [FIMEX, NC, UD], STUB + IO + UP + ["netCDF calls: real, with seeded error returns"], [SC, "errors of netCDF-4 storage are injected at the netCDF interface: HDF5 itself turns failed reads into zeros"])
prop("S09", "An error in a worker thread reaches the caller",
     "When the source of a parallel operation (NetCDF writing, null writing, filling an existing file, or these on top of processing such as interpolation) fails in whichever worker thread, the operation ends, the process keeps running, and the caller gets an exception. Without a failure no exception is raised.",
     ["fault_sequences", "schedules"], "a failing source at any request, once, repeatedly or in several workers at once, for all interleavings",
     "An exception that leaves a parallel loop terminates the process; tests never make a source fail inside a worker.",
     ["src/io/netcdf/NetCDF_CDMWriter.cc", "src/Null_CDMWriter.cc", "src/FillWriter.cc"],
     [("exceptions are caught in the worker, stored, and re-thrown after the loop", "src/io/netcdf/NetCDF_CDMWriter.cc, src/Null_CDMWriter.cc, src/FillWriter.cc")],
     [FIMEX, NC, UD, "PROJ"], STUB + UP, [SC])
prop("S10", "A failed operation leaves the process usable",
     "After any failed open, read or write, no lock stays held and no file stays open, requests on surviving objects still return right data or an error, and repeating the operation once the fault is over succeeds with the right result. Nothing hangs, terminates or corrupts memory.",
     ["fault_sequences", "histories", "schedules"], "faults as for reading and writing, at any point, followed by continued use and a fault-free retry in the same process",
     "Tests never continue after a failure; leaked locks and half-initialised state need a fault followed by further use.",
     ["src/io/netcdf/NetCDF_Utils.cc", "src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "include/fimex/MutexLock.h", "src/CDMFileReaderFactory.cc"],
     [("scoped locks", "include/fimex/MutexLock.h"), ("files are closed by destructors", "src/io/netcdf/NetCDF_Utils.cc Nc")],
     [FIMEX, NC, UD], STUB + IO + UP + ["netCDF calls: real, with seeded error returns"], [SC, "a file whose close fails, or HDF5 files after storage errors, may stay open inside the library"])
prop("S11", "In-place updates change exactly what they should",
     "Updating a NetCDF file in place, slice by slice from one or several threads, or filling it from another dataset, leaves every addressed position with exactly the new value and every other position, variable and attribute as it was. Reads through the same object after an update return the updated data.",
     ["schedules", "inputs", "histories"], "all interleavings of 1-4 updating and reading threads and of the filling workers; random shapes, types, scalings, partial overlaps of axes and request sequences",
     "Tests update one or two slices from one thread.",
     ["src/FillWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "include/fimex/CDMReaderWriter.h"],
     [("matching of positions along all axes", "src/FillWriter.cc"), ("putDataSlice under the netCDF lock", "src/io/netcdf/NetCDF_CDMReader.cc")],
     [FIMEX, NC, UD], STUB + UP, [SC])
prop("S12", "Synchronised data survives a crash of the process",
     "When a process is killed at an arbitrary point while writing a classic NetCDF file or updating it in place, every unlimited step the writer had finished and every update made before a completed sync is found in the file afterwards, and positions not being written at the crash hold their old value. The file can be opened after the crash once it had been synchronised at all.",
     ["crash_points", "schedules", "histories"], "a kill before, within (torn write) or after any write, sync or close; all interleavings of the writers",
     "No test kills the process; a missing sync is invisible as long as the file is closed properly.",
     ["src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc"],
     [("sync after each unlimited step", "src/io/netcdf/NetCDF_CDMWriter.cc writeData"), ("sync of a reader-writer", "src/io/netcdf/NetCDF_CDMReader.cc sync")],
     [FIMEX, "netCDF-C (classic format)", UD], STUB + IO + UP, [SC, "process crash, not power loss: data handed to the operating system survives", "classic format only: HDF5 gives no guarantee for files not closed"])
prop("S13", "Chunk and XML reads deliver exact bytes or fail",
     "Reading a byte range of a local file or of an object behind HTTP through a chunk reader either delivers exactly those bytes of the object or reports an error, and the reported size is the object's size, whatever the disk, the network or the server does and however many threads share the reader or the factory. An XML document loaded from a file or through a chunk reader is complete or the load fails. Once the faults stop, the same and new readers work again.",
     ["fault_sequences", "schedules", "inputs", "histories"], "connection failures, timeouts, error pages, dropped, short, empty and over-long bodies, ignored ranges, missing lengths, read and seek errors, truncated files; 1-4 threads, random objects, ranges and documents",
     "The only http test needs a network and is not part of the reliable tests; no test meets a failing server or disk.",
     ["src/HttpChunkReader.cc", "src/FileChunkReader.cc", "src/DefaultChunkReaderFactory.cc", "src/ChunkReaderXmlInputCtx.cc", "src/XMLDoc.cc"],
     [("one lock per reader; the transfer's status, range and length are checked", "src/HttpChunkReader.cc read"), ("short reads are errors", "src/FileChunkReader.cc read"), ("failed reads abort the parser", "src/ChunkReaderXmlInputCtx.cc")],
     [FIMEX, "libxml2"], STUB + IO + ["libcurl easy interface: replaced by a simulated HTTP server with seeded faults"], [SC, "the simulated libcurl follows the documented behaviour of CURLOPT_FAILONERROR, ranges and content lengths"])
prop("S14", "GRIB readers deliver exact data or fail",
     "Opening a set of GRIB files (given by names, patterns, lists, arguments or stored indexes, local or behind HTTP) describes exactly the messages in them: each variable has one entry per time, level and ensemble member, whichever order the files are indexed in and however many readers are opened at the same time. Every read (whole, one unlimited position, sub-slice, by any number of threads) returns each message's field at its own position and missing values where there is no message. With disk or network faults, each request reports an error or delivers exactly that.",
     ["schedules", "inputs", "fault_sequences", "histories"], "all interleavings of 1-4 threads opening and reading; random sets of GRIB-1 and GRIB-2 messages over files; read, seek, open, allocation and HTTP faults at any point",
     "The GRIB tests read a few fixed files from one thread on a healthy disk.",
     ["src/io/grib/GribCDMReader.cc", "src/io/grib/GribFileIndex.cc", "src/io/grib/GribCDMIndexer.cc", "src/io/grib/GribIoFactory.cc", "src/io/grib/GribUtils.cc"],
     [("messages are decoded under the GRIB lock and placed by their indices", "src/io/grib/GribCDMReader.cc getDataSlice"), ("indexing of files, one thread per reader", "src/io/grib/GribFileIndex.cc")],
     [FIMEX, "ecCodes"], STUB + IO + ["libcurl easy interface: replaced by a simulated HTTP server with seeded faults"], [SC, "messages are built with ecCodes on regular grids"])
prop("S15", "Log messages are complete and safe under concurrency",
     "When several threads create, use and drop loggers at the same time, also as the first use of logging in the process and for each kind of log output, every enabled message appears exactly once, whole, and in each thread's order, and no disabled one appears. No thread crashes or blocks for ever, and no logger outlives its use.",
     ["schedules", "histories"], "all interleavings of 2-4 threads over shared and own loggers, including first use; stderr, log4cpp and user-supplied log output",
     "Tests log from one thread.",
     ["src/Logger.cc", "src/Log4cppLogger.h", "include/fimex/Logger.h"],
     [("logger state guarded by a lock; one write per message", "src/Logger.cc")],
     [FIMEX, "log4cpp"], STUB, [SC, "log level and log output are chosen before the threads start"])

prop("S16", "FELT readers deliver exact data or fail",
     "Opening a FELT file (either byte order, any grid type, with or without extended grid definitions, with unused directory entries) with a configuration describes exactly the fields in it which the configuration selects: times, levels, ensemble members, grid axes and positions. Every read (whole, one time, sub-slice, scaled, by any number of threads on shared or own readers) returns each field's values at their own position and the fill value where the file has no field. A time outside of the file is refused. With I/O faults, truncated files or files still being written, each request reports an error or delivers exactly that, and once the fault is gone readers work again.",
     ["schedules", "inputs", "fault_sequences", "histories"], "all interleavings of 1-4 threads opening and reading; random files of 1-60 fields over six parameters, six grid types; read, seek, open and allocation faults at any point, files cut at any byte",
     "The FELT tests read one or two fixed files from one thread on a healthy disk; none of them is cut or being written.",
     ["src/io/felt/FeltCDMReader2.cc", "src/io/felt/Felt_File2.cc", "src/io/felt/FeltFile.cpp", "src/io/felt/FeltField.cpp"],
     [("slices are read under a lock and placed by time, level and member", "src/io/felt/FeltCDMReader2.cc getDataSlice"), ("directory and blocks of the file", "src/io/felt/FeltFile.cpp")],
     [FIMEX, "PROJ", UD], STUB + IO, [SC, "files are written by the harness from the format's description; grids of one file have one size"])

prop("S17", "The C interface reports every failure as a return value, and data are right",
     "For every sequence of calls by one or several threads, with own or shared readers, including invalid names, ranges and units, failing callbacks, and files, libraries or allocations failing at any point: no call of the C interface lets a C++ exception out, crashes or blocks; a call which reports success delivered exactly the data, sizes and names of the source (converted and sliced as asked, written output complete, callback applied), and one which could not do so reports an error. After the failure is gone, new readers work.",
     ["inputs", "fault sequences", "schedules"], "1-3 threads, 2-6 calls each from 11 groups of calls, own or shared readers, netCDF-3 and netCDF-4; up to 3 of read error, failing open, EINTR, failing library call, failing allocation, write error, full disk",
     "The C tests make a few valid calls from one thread; errors inside are never provoked.",
     ["src/c_fimex.cc", "include/fimex/c_fimex.h", "src/C_CDMReader.cc"],
     [("each C function catches and returns a code", "src/c_fimex.cc"), ("callback data replace the variable", "src/C_CDMReader.cc")],
     [FIMEX, "netCDF-C, HDF5, udunits2, PROJ"], STUB, [SC, "arguments are valid pointers; interpolators are built on readers no other thread uses (building one marks vectors in its source)"])

def na(id, title, statement, text, why, files, reason):
    NA.append({"reason": reason, "line": {"id": id, "title": title, "statement": statement, "quantifier": {"over": ["inputs"], "text": text}, "why_tests_cant": why, "anchors": {"files": files, "mechanism": [], "hook_needed": None}}})

NA = []
na("N01", "Interpolation and extraction formulas are numerically right",
   "For every grid, projection and field, the values of each interpolation method are those of its published formula within rounding, and vectors are rotated to the target grid.",
   "all grids, fields, projections and methods", "Tests compare a few fields.", ["src/interpolation.cc", "src/reproject.cc"],
   "a pure function of its input: no schedule, time, I/O or fault decides it; S03 covers that the same values come out for every schedule, and accesses outside of the arrays")
na("N02", "Coordinate systems are recognised as the conventions say",
   "For every dataset following CF-1.x or WRF conventions, axes, projections, vertical transformations and reference times are found as the convention defines.",
   "all datasets", "Tests have a few datasets.", ["src/coordSys/CoordinateSystem.cc", "src/coordSys/CF1_xCoordSysBuilder.cc"],
   "a pure function of the metadata, without any source of nondeterminism to simulate")
na("N03", "GRIB parameters map to variables as the configuration says",
   "For every GRIB message and reader configuration, parameter keys select exactly the variable, level type and attributes which the configuration gives.",
   "all messages and configurations", "Tests have a few messages.", ["src/io/grib/GribCDMReader.cc"],
   "a pure function of message and configuration; S14 decides that the selected messages arrive at their place in the data for every schedule and fault")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            for x in p["files"]:
                assert os.path.exists("/repo/" + x), x
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
        for n in NA:
            f.write(json.dumps(n["line"]) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py build", "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks compile /repo's sources with instrumentation and interpose every seam (OpenMP, threads, file I/O, allocation, netCDF, udunits, clock) at compile and link time", "source_commits": []},
         "checks": [], "not_applicable": [{"property": n["line"]["id"], "reason": n["reason"]} for n in NA]}
    info = {}
    for p in P:
        lvl = "exploration"
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                            "technique": "deterministic simulation, seeded search over schedules%s against a reference model" % (" and faults" if "fault_sequences" in p["over"] or "crash_points" in p["over"] else ""),
                            "level": lvl, "level_note": (p["note"] + " " if p["note"] else "") + "Seeded sampling of simulated runs of the real code, each exactly repeatable; a clean batch is evidence, not proof. Assumes: " + "; ".join(p["assume"]) + "."})
        info[p["id"]] = {"real": p["real"], "stub": p["stub"], "assumptions": p["assume"], "level": lvl, "time_factor": p["factor"]}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    json.dump(info, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
main()
