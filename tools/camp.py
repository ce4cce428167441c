#!/usr/bin/env python3
"""Mutation campaign: camp.py FILE [NAME...]; FILE holds blocks '@name PROP[,PROP]' / 'path' / '<<<' old '===' new '>>>' (several edits allowed).
Works on a clone of /repo (/tmp/mr) with a clone of /verif (/tmp/vw)."""
import re, subprocess, sys, os
MR, VW = "/tmp/mr", "/tmp/vw"
env = dict(os.environ, VERIF_REPO=MR)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def parse(f):
    cur = None
    for b in re.split(r"(?m)^@", open(f).read())[1:]:
        head, body = b.split("\n", 1)
        name, props = head.split()[:2]
        edits = re.findall(r"(?ms)^(\S+)\n<<<\n(.*?)\n?===\n(.*?)\n?>>>$", body)
        yield name, props.split(","), edits
secs = os.environ.get("SECS", "40")
for name, props, edits in parse(sys.argv[1]):
    if len(sys.argv) > 2 and name not in sys.argv[2:]: continue
    sh("git -C %s checkout -q -- ." % MR)
    bad = None
    for path, old, new in edits:
        p = os.path.join(MR, path); s = open(p).read()
        if s.count(old) != 1: bad = "%s: old text found %d times" % (path, s.count(old)); break
        open(p, "w").write(s.replace(old, new))
    if bad or not edits: print("%-28s ERROR %s" % (name, bad), flush=True); continue
    for pr in props:
        r = sh("cd %s && timeout 900 python3 check.py %s --seconds %s" % (VW, pr, secs), env=env)
        m = re.search(r"(?m)^\S+ in scenario.*", r.stdout)
        last = (m.group(0) if m else " / ".join(r.stdout.strip().split("\n")[-2:]))[:230]
        print("%-28s %s exit %d %s" % (name, pr, r.returncode, last), flush=True)
sh("git -C %s checkout -q -- ." % MR)
