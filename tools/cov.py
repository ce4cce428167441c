#!/usr/bin/env python3
"""Which lines of fimex do the checks reach?  cov.py SECONDS [PROP...]: builds with -DSIM_COV in a directory of its own, runs each
property for SECONDS, and prints for each source file the functions and lines with instrumented accesses that were never reached."""
import collections, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("VERIF_BUILD", "/tmp/covbuild")
C = "/dev/shm/simcov.bin"
env = dict(os.environ, SIM_COV=C, VERIF_BUILD=B)
secs = sys.argv[1]
props = sys.argv[2:] or ["S%02d" % i for i in range(1, 18)]
subprocess.run(["python3", V + "/tools/simbuild.py"], env=env, check=True, stdout=subprocess.DEVNULL)
exe = B + "/simfimex"
J = int(os.environ.get("JOBS", "8"))
for p in props:
    ps = [subprocess.Popen([exe, "batch", "--prop", p, "--seed", "7", "--start", str(i), "--stride", str(J), "--seconds", secs, "--scratch", "/dev/shm/cov%d" % i, "--max-violations", "1"],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for i in range(J)]
    for q in ps: q.wait()
hit = open(C, "rb").read()
sites = []
for l in subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, text=True).stdout.split("\n"):
    m = re.match(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*)", l)
    if not m: continue
    if sites and sites[-1] < 0: sites[-1] = int(m.group(1), 16)
    if m.group(2) == "call" and re.search(r"<__tsan_(func_entry|read|write|unaligned)", m.group(3)): sites.append(-1)
sites = [s for s in sites if s > 0]
r = subprocess.run(["addr2line", "-Cf", "-e", exe], input="\n".join(hex(s - 1) for s in sites), stdout=subprocess.PIPE, text=True).stdout.split("\n")
files = collections.defaultdict(lambda: collections.defaultdict(lambda: [0, 0]))
for i, s in enumerate(sites):
    fn, pos = r[2 * i], r[2 * i + 1].split(" ")[0]
    f, _, ln = pos.rpartition(":")
    if "/src/" not in f or not ln.isdigit(): continue
    e = files[f.split("/src/", 1)[1]][int(ln)]
    e[0] += 1
    e[1] += hit[s]
for f in sorted(files):
    ls = files[f]
    miss = sorted(l for l, e in ls.items() if not e[1])
    print("%-60s %5d lines, %5d not reached: %s" % (f, len(ls), len(miss), " ".join(map(str, miss))))
os.unlink(C)
