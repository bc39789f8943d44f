#!/usr/bin/env python3
"""Sensitivity of the checks to small edits of /repo's sources.

usage: mut.py FILE.json [NAME-PREFIX...]     FILE.json: [{"name", "ids": [...], "file", "old", "new"} or with "edits": [[file, old, new], ...]]

Each edit is made in a scratch copy; the named checks are run on it without shrinking. With STABLE=1 the
repository's stable tests are run on it, too.
"""
import json, os, shutil, subprocess, sys, tempfile, time
muts = json.load(open(sys.argv[1]))
pre = sys.argv[2:]
env = dict(os.environ, PBT_NOSHRINK="1")
saved = tempfile.mkdtemp()
shutil.copytree("/verif/evidence", saved + "/e")
for m in muts:
    if pre and not any(m["name"].startswith(p) for p in pre):
        continue
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        ok = True
        for f, old, new in m.get("edits") or [[m["file"], m["old"], m["new"]]]:
            p = os.path.join(d, "repo", f)
            t = open(p).read()
            if old not in t:
                print("%-40s TEXT NOT FOUND in %s" % (m["name"], f)); ok = False; break
            open(p, "w").write(t.replace(old, new, 1) if not m.get("all") else t.replace(old, new))
        if not ok:
            continue
        for i in m["ids"]:
            t0 = time.time()
            r = subprocess.run(["python3", "/verif/vrun.py", "check", i], env=dict(env, VERIF_REPO=d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            key = v[0].split("replays/")[1] if v else ""
            print("%-40s %s %s rc=%d %.0fs %s" % (m["name"], i, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "ERROR", r.returncode, time.time() - t0, key), flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
    finally:
        shutil.rmtree(d)
shutil.rmtree("/verif/evidence"); shutil.copytree(saved + "/e", "/verif/evidence"); shutil.rmtree(saved)
