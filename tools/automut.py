#!/usr/bin/env python3
"""Random one-line mutants: automut.py SEED COUNT [FILEGLOB...] (env SECS: seconds per property). For each mutant of the file groups below that
compiles, the properties named for the group are run until one reports it; survivors are printed with their line, for review by eye.
Works on a clone of /repo (/tmp/mr) with a clone of /verif (/tmp/vw)."""
import fnmatch, json, os, random, re, shutil, subprocess, sys, time
MR, VW = "/tmp/mr", "/tmp/vw"
env = dict(os.environ, VERIF_REPO=MR, VERIF_BUILD=VW + "/build")
secs = os.environ.get("SECS", "15")
GROUPS = [
 ("src/AggregationReader.cc", "S02,S08"), ("src/CDMExtractor.cc", "S02,S03"), ("src/CDMReader.cc", "S02,S08"), ("src/CDMReaderUtils.cc", "S02,S03"), ("src/FillWriter.cc", "S11,S06,S09"),
 ("src/io/netcdf/NetCDF_CDMReader.cc", "S02,S11,S08,S12,S10"), ("src/io/netcdf/NetCDF_CDMWriter.cc", "S01,S06,S12,S09"), ("src/io/netcdf/NetCDF_Utils.cc", "S01,S02,S11,S08"),
 ("src/io/grib/GribCDMReader.cc", "S14,S04"), ("src/io/grib/GribCDMIndexer.cc", "S14"), ("src/io/grib/GribFileIndex.cc", "S14,S07"), ("src/io/grib/GribApiCDMWriter*.cc", "S07"),
 ("src/io/grib/ReaderExtraKey.cc", "S14"), ("src/c_fimex.cc", "S17"), ("src/CDMMerge*.cc", "S03,S02"), ("src/CDMOverlay.cc", "S03,S02"), ("src/NcmlCDMReader.cc", "S02,S08"), ("src/NcmlCDMWriter.cc", "S07"),
 ("src/NcmlUtils.cc", "S02,S07"), ("src/Units.cc", "S05,S02"), ("src/TimeUnit.cc", "S05"), ("src/FimexTime.cc", "S05"), ("src/FileChunkReader.cc", "S13"), ("src/HttpChunkReader.cc", "S13"), ("src/DefaultChunkReaderFactory.cc", "S13"),
 ("src/ChunkReaderXmlInputCtx.cc", "S13"), ("src/XML*.cc", "S13,S02"), ("src/Logger.cc", "S15"), ("src/Log4cppLogger.cc", "S15"), ("src/DataImpl.h", "S02,S01"), ("src/Data.cc", "S02,S03"), ("src/DataUtils.cc", "S02,S03"),
 ("src/SliceBuilder.cc", "S02,S11,S17"), ("src/io/felt/Felt*.c*", "S16"), ("src/ProtobufCDM.cc", "S02,S14"), ("src/CDM.cc", "S02,S01,S03"), ("src/CDMVariable.cc", "S02,S11"), ("src/CDMAttribute.cc", "S01,S02"),
 ("src/Null_CDMWriter.cc", "S09"), ("src/CDMProcessor.cc", "S03,S08"), ("src/CDMQualityExtractor.cc", "S03"), ("src/CDMTimeInterpolator.cc", "S03,S08"), ("src/CachedInterpolation.cc", "S03"), ("src/FileUtils.cc", "S02,S14,S13"),
 ("src/NcmlAggregationReader.cc", "S02"), ("src/C_CDMReader.cc", "S17"), ("src/CDMFileReaderFactory.cc", "S02,S04,S17"), ("src/IoFactory.cc", "S02,S04"), ("src/CDMWriter.cc", "S01"), ("src/StringUtils.cc", "S02,S14"),
 ("src/io/netcdf/NetCDF.cc", "S01,S02,S10"), ("src/CDMReaderWriter.cc", "S11"), ("src/CDMDimension.cc", "S01,S11"), ("src/coordSys/CachedVerticalTransformation.cc", "S03"), ("src/coordSys/VerticalTransformationUtils.cc", "S03,S08"),
]
SWAPS = [(r"(?<![<>=!-])<(?![<=>:\w])", "<="), (r"<=", "<"), (r"(?<![<>=-])>(?![>=:\w(])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ 1\b", ""), (r" - 1\b", ""),
         (r"\bcontinue;", "break;"), (r"\bbreak;", ";"), (r"\(!", "("), (r"\+\+", "--"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ ", " - "), (r" \* ", " + ")]
def candidates(path):
    out = []
    lines = open(os.path.join(MR, path)).read().split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "*", "/*", "#", "using", "typedef", "template", "static const", "}", "LOG4FIMEX", "catch")) or "LOG4FIMEX" in l or "getLogger" in l or not l.startswith("  "): continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\x01" * (len(m.group(0)) - 2) + '"', l)
        code = code.split("//")[0]
        for rx, to in SWAPS:
            for m in re.finditer(rx, code):
                out.append((n, l[:m.start()] + to + l[m.end():]))
        if s.endswith(";") and s.count("(") == s.count(")") and not re.match(r"(return\b|break|continue|case|default|const\b|auto\b|int\b|size_t\b|double\b|float\b|bool\b|std::|string |DataPtr \w+;|CDM\w+ \w+;|vector|map)", s):
            out.append((n, re.match(r"\s*", l).group(0) + ";"))
        if re.match(r"(OmpScopedLock|std::lock_guard|std::unique_lock)\b", s): out += [(n, re.match(r"\s*", l).group(0) + ";")] * 3
    return lines, out
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
def run(pr):
    ps = []
    base = "/dev/shm/am%d" % os.getpid()
    os.makedirs(base, exist_ok=True)
    for i in range(8):
        ps.append((subprocess.Popen([VW + "/build/simfimex", "batch", "--prop", pr, "--seed", "1", "--start", str(i), "--stride", "8", "--seconds", secs, "--scratch", base + "/w%d" % i, "--max-violations", "1"],
                                    stdout=open(base + "/o%d" % i, "w"), stderr=subprocess.DEVNULL), i))
    end = time.time() + float(secs) + 60
    v = None
    while not v and time.time() < end and any(p.poll() is None for p, i in ps):
        time.sleep(0.3)
        for p, i in ps:
            for l in open(base + "/o%d" % i, errors="replace"):
                if l.startswith("V "):
                    d = json.loads(l[2:]); v = "%s %s %s" % (d["scenario"], d["cls"], d["msg"][:60])
    for p, i in ps:
        p.kill(); p.wait()
    subprocess.run("pkill -9 -f %s/" % base, shell=True)
    shutil.rmtree(base, ignore_errors=True)
    return v
rng = random.Random(int(sys.argv[1]))
pats = sys.argv[3:] or ["*"]
files = []
for g, props in GROUPS:
    d = os.path.dirname(g)
    for f in sorted(os.listdir(os.path.join(MR, d))):
        p = os.path.join(d, f)
        if fnmatch.fnmatch(p, g) and any(fnmatch.fnmatch(p, q) for q in pats): files.append((p, props))
sh("git -C %s checkout -q -- ." % MR)
done = killed = 0
seen = set()
while done < int(sys.argv[2]):
    p, props = rng.choice(files)
    lines, c = candidates(p)
    if not c: continue
    n, new = rng.choice(c)
    if (p, n, new) in seen: continue
    seen.add((p, n, new))
    old = lines[n]
    lines[n] = new
    open(os.path.join(MR, p), "w").write("\n".join(lines))
    r = sh("cd %s && timeout 600 python3 tools/simbuild.py" % VW)
    if r.returncode == 0:
        done += 1
        by = None
        for pr in props.split(","):
            v = run(pr)
            if v:
                by = pr + " " + v
                break
        if by: killed += 1
        print("%s %s:%d %s\n      - %s\n      + %s" % ("killed " + by if by else "SURVIVED", p, n + 1, "", old.strip()[:150], new.strip()[:150]), flush=True)
    sh("git -C %s checkout -q -- ." % MR)
print("%d of %d" % (killed, done))
