#!/usr/bin/env python3
"""Writes one directory below seeded/: newbug.py SPEC.py

The spec sets: id, prop, needs, breaks, edits [(file, old, new)], demo (C++ text),
sources (repository files to compile with it), libs, run (shell lines, optional).
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {"libs": "-lglog -lpthread", "sources": [], "flags": "", "run": '"$t/demo"'}
exec(open(sys.argv[1]).read(), spec)

d = os.path.join(VERIF, "seeded", spec["id"])
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="newbug")
subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[-1]
for f, old, new in spec["edits"]:
    p = os.path.join(tmp, "r", f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True)
open(os.path.join(d, "patch.diff"), "w").write(diff)
shutil.rmtree(tmp)
json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
          open(os.path.join(d, "meta.json"), "w"), indent=1)
open(os.path.join(d, "demo.cc"), "w").write(spec["demo"].lstrip())
srcs = " ".join(spec["sources"])
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# run in the repository root; exit 0: behaves, other: broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -r -- "$t"' EXIT
for f in "$here/demo.cc" %s; do echo "$f"; done | xargs -P 8 -I {} sh -c \\
  'g++ -std=gnu++14 -w -O0 -fopenmp %s -DEIGEN_HAS_CXX17_OVERALIGN=0 -I. -Ibuilder -Ithird_parties \\
  -isystem /usr/include/eigen3 -isystem /usr/include/pcl-1.14 \\
  -c "$1" -o "$2/$(echo "$1" | tr / _).o"' sh {} "$t" || exit 1
g++ -fopenmp "$t"/*.o -o "$t/demo" %s || exit 1
cd "$t" || exit 1
%s
""" % (srcs, spec["flags"], spec["libs"], spec["run"]))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
print(diff)
