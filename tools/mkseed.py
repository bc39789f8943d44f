#!/usr/bin/env python3
"""Makes and verifies planted bugs: mkseed.py FILE.py [ID...]

FILE.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo="C++ source", flags="")].
For each one: patch.diff against /repo's HEAD, demo.sh with everything it needs beside it, meta.json under
/verif/seeded/ID; then, in a scratch copy: the tree builds, the stable tests pass, the demonstration passes
without the change and fails with it.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
KIT = "/verif/tools/demokit"
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for s in seeds:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/verif/stubs", d + "/stubs")
    for f in ("demo.sh", "kit.h"): shutil.copy(KIT + "/" + f, d)
    open(d + "/demo.cpp", "w").write('#include "kit.h"\n' + s["demo"].strip("\n") + "\n")
    if s.get("flags"): open(d + "/flags", "w").write(s["flags"] + "\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/repo"])
        r = t + "/repo"
        a = run(["bash", d + "/demo.sh"], cwd=r)
        for f, old, new in s["edits"]:
            p = r + "/" + f
            x = open(p).read()
            assert x.count(old) == 1, (s["id"], f, x.count(old))
            open(p, "w").write(x.replace(old, new))
        diff = run(["git", "diff"], cwd=r).stdout
        open(d + "/patch.diff", "w").write(diff)
        b = run(["bash", d + "/demo.sh"], cwd=r)
        # build and stable tests on /repo itself would need its path; use a copy of the recipe
        c = run(["cmake", "-S", "/opt/vp/cmake", "-B", r + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DREPO=" + r], env=dict(os.environ, CC="gcc", CXX="g++"))
        c2 = run(["ninja", "-C", r + "/_build"]) if c.returncode == 0 else c
        c3 = run([r + "/_build/modbus_tests"]) if c2.returncode == 0 else c2
        good = a.returncode == 0 and b.returncode not in (0, 3) and c3.returncode == 0
        print("%-22s %s  clean rc=%d, patched rc=%d, tests rc=%d | %s" % (s["id"], "ok" if good else "BAD", a.returncode, b.returncode, c3.returncode, b.stdout.strip().splitlines()[-2:] ), flush=True)
        if a.returncode: print(a.stdout[-1500:])
        if not good and b.returncode == 3: print(b.stdout[-1500:])
        if c3.returncode: print(c3.stdout[-800:])
    finally:
        shutil.rmtree(t)
