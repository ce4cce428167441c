"""Builds the simulation executable from /repo's working tree (never from /repo/_build)."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

CONFIG = {
    "FIMEX_DATADIR": "/usr/local/share/fimex-2.4",
    "FIMEX_IO_PLUGINS_PATH": "/usr/local/lib",
    "MINUS_FIMEX_VERSION": "-2.4",
}
DEFINED = {"HAVE_LOG4CPP", "HAVE_PROJ_H", "HAVE_NETCDF_H", "HAVE_NETCDF_HDF5_LIB", "HAVE_ECCODES", "HAVE_GRIB_THREADSAFE", "HAVE_PROTOBUF", "HAVE_FELT"}
OPT = ["-O1", "-g1", "-DNDEBUG", "-pthread", "-fno-omit-frame-pointer"]
TOOLS = ["fimex", "fiIndexGribs", "fiGrbmlCat", "fiGribCut", "fiXYcontents"]
LIBRE = {"nc_": 0, "ut_": 1, "cv_": 1, "grib_": 2, "codes_": 2, "proj_": 3}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        f.write(text)
    os.replace(path + ".tmp", path)


def gen_config(gen):
    for t in glob.glob(REPO + "/src/**/*.h.in", recursive=True):
        out = []
        for line in open(t):
            m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)", line)
            if m:
                out.append("#define %s%s\n" % (m.group(1), m.group(2)) if m.group(1) in DEFINED else "/* #undef %s */\n" % m.group(1))
            else:
                out.append(re.sub(r"@(\w+)@", lambda k: CONFIG.get(k.group(1), ""), line))
        write_if_changed(os.path.join(gen, os.path.basename(t)[:-3]), "".join(out))


def gen_proto(gen):
    protos = glob.glob(REPO + "/src/**/*.proto", recursive=True)
    key = hashlib.sha256(b"".join(open(p, "rb").read() for p in sorted(protos))).hexdigest()
    stamp = os.path.join(gen, "proto.stamp")
    outs = [os.path.join(gen, os.path.basename(p)[:-6] + ".pb.cc") for p in sorted(protos)]
    if not (os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(o) for o in outs)):
        dirs = sorted(set(os.path.dirname(p) for p in protos))
        for p in sorted(protos):
            sh(["protoc", "--cpp_out=" + gen] + ["-I" + d for d in [os.path.dirname(p)] + dirs] + [p])
        write_if_changed(stamp, key)
    return outs


_hcache = {}


def fhash(p):
    h = _hcache.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hcache[p] = h
    return h


class Obj:
    def __init__(self, src, obj, cmd, post=None):
        self.src, self.obj, self.cmd, self.post = src, obj, cmd, post


def compile_one(o):
    """compile if the recorded dependency contents changed; returns True if compiled"""
    meta = o.obj + ".json"
    cmdkey = hashlib.sha256(repr((o.cmd, o.post)).encode()).hexdigest()
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmdkey and os.path.exists(o.obj) and all(fhash(p) == h for p, h in m["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    dep = o.obj + ".d"
    sh(o.cmd + ["-MMD", "-MF", dep, "-c", o.src, "-o", o.obj])
    if o.post:
        sh(o.post + [o.obj])
    if "-Dmain=" in " ".join(o.cmd):  # several programs in one executable: their own globals become local
        own = [l.split()[2] for l in sh(["nm", "--defined-only", o.obj]).splitlines() if len(l.split()) == 3 and l.split()[1] in "TDBR" and "sim_main_" not in l]
        if own:
            sh(["objcopy"] + ["--localize-symbol=" + n for n in own] + [o.obj])
    txt = open(dep).read().replace("\\\n", " ")
    deps = [d for d in txt.split(":", 1)[1].split() if not d.startswith("/usr/")]
    with open(meta, "w") as f:
        json.dump({"cmd": cmdkey, "deps": {d: fhash(d) for d in deps}}, f)
    return True


def redefine_list(gen):
    """symbols renamed in fimex objects: library entry points get a monitored wrapper"""
    names = ["memcpy", "memmove", "memset"]
    lines = ["%s __wrap_%s" % (n, n) for n in names]
    lines += ["%s sim_%s" % (n, n) for n in ("dlopen", "dlsym", "dlclose", "dlerror", "gmtime", "localtime")]
    hdr = "#include <netcdf.h>\n#include <udunits2.h>\n#include <grib_api.h>\n#include <proj.h>\n"
    key = hashlib.sha256(hdr.encode()).hexdigest()
    cache = os.path.join(gen, "libsyms.json")
    syms = None
    try:
        c = json.load(open(cache))
        if c["key"] == key:
            syms = c["syms"]
    except (OSError, ValueError, KeyError):
        pass
    if syms is None:
        out = subprocess.run(["g++", "-E", "-P", "-x", "c++", "-"], input=hdr, stdout=subprocess.PIPE, text=True, check=True).stdout
        cand = set(re.findall(r"\b((?:nc|ut|cv|grib|codes|proj)_\w+)\s*\(", out))
        have = set()
        for lib in ["libnetcdf.so", "libudunits2.so", "libeccodes.so", "libproj.so"]:
            p = sh(["g++", "-print-file-name=" + lib]).strip()
            for l in sh(["nm", "-D", "--defined-only", p]).splitlines():
                f = l.split()
                if len(f) == 3 and f[1] in "TWi":
                    have.add(f[2].split("@")[0])
        syms = sorted(cand & have)
        write_if_changed(cache, json.dumps({"key": key, "syms": syms}))
    lines += ["%s w_%s" % (s, s) for s in syms]
    # the name carries the content so that objects are rebuilt when the list changes
    path = os.path.join(gen, "redefine-%s.txt" % hashlib.sha256("\n".join(lines).encode()).hexdigest()[:12])
    write_if_changed(path, "\n".join(lines) + "\n")
    return path, syms


def gen_wraps(gen, objs):
    used = set()
    out = sh(["nm", "-u", "--no-demangle"] + objs)
    for l in out.splitlines():
        f = l.split()
        if len(f) == 2 and f[1].startswith("w_"):
            used.add(f[1][2:])
    used = sorted(used)
    t = ["#include \"libwrap.h\"\n#include <netcdf.h>\n#include <udunits2.h>\n#include <grib_api.h>\n#include <proj.h>\n", "using namespace simwrap;\n"]
    for i, n in enumerate(used):
        lib = next(v for k, v in LIBRE.items() if n.startswith(k))
        t.append("template <> const char* Name<%d, %d>::name = \"%s\";\n" % (lib, i, n))
    t.append("extern \"C\" { void* simwrap_tab[%d]; }\n" % max(1, len(used)))
    t.append("static struct Init { Init() {\n")
    for i, n in enumerate(used):
        lib = next(v for k, v in LIBRE.items() if n.startswith(k))
        t.append("  simwrap_tab[%d] = Make<%d, %d, &%s>::ptr();\n" % (i, lib, i, n))
    t.append("} } init __attribute__((init_priority(101)));\n")
    for i, n in enumerate(used):
        t.append("asm(\".text\\n.globl w_%s\\n.type w_%s,@function\\nw_%s: jmp *simwrap_tab+%d(%%rip)\\n\");\n" % (n, n, n, 8 * i))
    p = os.path.join(gen, "gen_wraps.cc")
    write_if_changed(p, "".join(t))
    return p


def fimex_objects(gen, objdir, redef, protos):
    inc = ["-I" + d for d in [REPO + "/include", REPO + "/src", gen, REPO + "/src/io/grib", REPO + "/src/io/netcdf", REPO + "/src/io/felt", REPO + "/src/coordSys", "/usr/include/libxml2"]]
    srcs = []
    for pat in ["src/*.cc", "src/*.c", "src/*.cpp", "src/coordSys/**/*.cc", "src/coordSys/**/*.cpp", "src/io/**/*.cc", "src/io/**/*.cpp", "src/io/**/*.c"]:
        srcs += glob.glob(os.path.join(REPO, pat), recursive=True)
    srcs = sorted(set(srcs))
    objs = []
    for t in TOOLS:  # the programs: main becomes a function, exit ends only the simulated program
        s = os.path.join(REPO, "src/binSrc", t + ".cc")
        cmd = ["g++", "-std=gnu++20", "-fopenmp", "-fsanitize=thread", "-Wno-tsan"] + OPT + ["-I" + VERIF + "/sim/stub"] + inc + ["-Dmain=sim_main_" + t]
        objs.append(Obj(s, os.path.join(objdir, "src__binSrc__" + t + ".o"), cmd, ["objcopy", "--redefine-syms=" + redef, "--redefine-sym", "exit=sim_exit"]))
    for s in srcs + protos:
        rel = os.path.relpath(s, REPO) if s.startswith(REPO + "/") else "gen/" + os.path.basename(s)
        o = os.path.join(objdir, rel.replace("/", "__") + ".o")
        pb = s in protos
        if s.endswith(".c"):
            cmd = ["gcc", "-std=gnu99", "-fsanitize=thread"] + OPT + inc
        elif pb:
            cmd = ["g++", "-std=gnu++20"] + OPT + inc
        else:
            cmd = ["g++", "-std=gnu++20", "-fopenmp", "-fsanitize=thread", "-Wno-tsan"] + OPT + inc
        base = os.path.basename(s)
        if "/io/" in s and "IoFactory" in base or "IoPlugin" in base and "/io/" in s:
            cmd.append("-Dfimex_ioplugin_info=fimex_ioplugin_info_" + os.path.basename(os.path.dirname(s)))
        objs.append(Obj(s, o, cmd, None if pb else ["objcopy", "--redefine-syms=" + redef]))
    return objs


def harness_objects(gen, objdir):
    inc = ["-I" + d for d in [VERIF + "/sim", VERIF + "/scen", REPO + "/include", REPO + "/src", gen, REPO + "/src/io/grib", REPO + "/src/io/netcdf", REPO + "/src/io/felt", "/usr/include/libxml2"]]
    objs = []
    for d in ["sim", "scen"]:
        for s in sorted(glob.glob(os.path.join(VERIF, d, "*.cc"))):
            o = os.path.join(objdir, d + "__" + os.path.basename(s) + ".o")
            opt = ["-O2", "-g1", "-fno-threadsafe-statics"] if d == "sim" else ["-O1", "-g1"]
            objs.append(Obj(s, o, ["g++", "-std=gnu++20", "-Wall", "-Wno-unused", "-pthread", "-fno-omit-frame-pointer"] + opt + (["-DSIM_COV"] if os.environ.get("SIM_COV") else []) + inc))
    return objs


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(verbose)


def _build(verbose):
    gen = os.path.join(BUILD, "gen")
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(gen, exist_ok=True)
    os.makedirs(objdir, exist_ok=True)
    gen_config(gen)
    protos = gen_proto(gen)
    redef, _ = redefine_list(gen)
    fobjs = fimex_objects(gen, objdir, redef, protos)
    hobjs = harness_objects(gen, objdir)
    big = sorted(fobjs + hobjs, key=lambda o: -os.path.getsize(o.src))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        n = sum(1 for x in ex.map(compile_one, big) if x)
    keep = set(o.obj for o in fobjs + hobjs)
    exe = os.path.join(BUILD, "simfimex")
    link_key = hashlib.sha256(json.dumps([[o.obj, json.load(open(o.obj + ".json"))] for o in fobjs + hobjs], sort_keys=True).encode()).hexdigest()
    stamp = exe + ".stamp"
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == link_key):
        w = gen_wraps(gen, [o.obj for o in fobjs])
        wo = Obj(w, os.path.join(objdir, "gen_wraps.o"), ["g++", "-std=gnu++20", "-O1", "-g1", "-I" + VERIF + "/sim", "-I" + gen])
        compile_one(wo)
        h5 = sh(["pkg-config", "--libs", "hdf5-serial"]).split() if subprocess.run(["pkg-config", "--exists", "hdf5-serial"]).returncode == 0 else ["-lhdf5_serial"]
        cmd = ["g++", "-no-pie", "-rdynamic", "-Wl,-z,now", "-o", exe + ".tmp"] + [o.obj for o in hobjs] + [wo.obj] + [o.obj for o in fobjs] + [
            "-lxml2", "-llog4cpp", "-lproj", "-ludunits2", "-lnetcdf"] + h5 + ["-leccodes", "-lprotobuf", "-ldl", "-pthread"]
        sh(cmd)
        os.replace(exe + ".tmp", exe)
        write_if_changed(stamp, link_key)
    if verbose:
        print("compiled %d of %d" % (n, len(keep)))
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        print(build(True))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("%.1f s" % (time.time() - t))
