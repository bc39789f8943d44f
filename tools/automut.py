#!/usr/bin/env python3
"""Systematic small mutations of /repo's sources, a random sample of them, against the checks of the files they touch.

usage: automut.py COUNT SEED [PATH-FILTER]      results are appended to $AUTOMUT_LOG (default: stdout)
"""
import glob, os, random, re, shutil, subprocess, sys, tempfile, time
REPO = "/repo"
MAP = [("lib/src/messages/mbap", "C06 C01 C07"), ("lib/src/messages/ExceptionType", "C05 C07 C14"), ("lib/include/modbus/messages/ExceptionType", "C05"),
       ("lib/src/messages", "C01 C02 C03 C04 C05 C06"), ("lib/include/modbus/messages", "C01 C02 C03 C04"),
       ("lib/src/server/channel/ServerChannelTcp", "C07 C08 C21 C22 C23"), ("lib/src/server/channel/AsioServerTcpConnection", "C13 C12 C08 C21 C22 C23"),
       ("lib/src/server/channel", "C12 C25 C21 C22 C08 C23"), ("lib/src/server/db", "C09 C10 C11"), ("lib/include/modbus/server/db", "C09 C10 C11"),
       ("lib/include/modbus/server", "C07 C09"), ("lib/src/client/channel/ClientChannelTcp", "C14 C15 C16 C17 C18 C20 C21 C22 C23"), ("lib/src/client/channel/AsioClient", "C13 C20 C25 C21 C22 C23"),
       ("lib/src/client", "C14 C15 C17 C18 C19 C24 C21 C22"), ("lib/include/modbus/client", "C14 C19 C24"), ("lib/src/ModbusManager", "C21 C22 C25 C12 C20"),
       ("lib/include/modbus/IModbusManager", "C21 C25"), ("lib/src/logging", "C28"), ("lib/include/modbus/logging", "C28"), ("lib/include/modbus/Expected", "C26"),
       ("lib/include/modbus/exceptions", "C26 C05"), ("lib/include/modbus", "C27 C25"), ("lib/src", "C27 C25")]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|", "&&"),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\(!", "("), (r"\bif\(", "if(!(bool)"), (r"\+\+", "--"),
       (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)), (r"\b(0x[0-9A-Fa-f]+)\b", lambda m: hex(int(m.group(1), 16) + 1)), (r"\bskip\(", "take("),
       (r"push_back", "push_front"), (r"\.front\(\)", ".back()"), (r"\.begin\(\)", ".end()"), (r"\bstd::move\((\w+)\)", r"\1"), (r" % ", " / "), (r" & ", " | "), (r" \| ", " & "), (r" << ", " >> ")]
def candidates(flt):
    r = []
    for p in sorted(glob.glob(REPO + "/lib/src/**/*", recursive=True) + glob.glob(REPO + "/lib/include/**/*.h", recursive=True)):
        if not p.endswith((".h", ".cpp")): continue
        rel = os.path.relpath(p, REPO)
        if flt and flt not in rel: continue
        ids = next((i for k, i in MAP if rel.startswith(k)), None)
        if not ids: continue
        lines = open(p).read().split("\n")
        comment = False
        for n, l in enumerate(lines):
            t = l.strip()
            if t.startswith("/*"): comment = True
            if comment:
                if "*/" in t: comment = False
                continue
            if not t or t.startswith(("//", "#", "*", "namespace", "template", "using", "class", "struct")): continue
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    if l[:m.start()].count('"') % 2: continue
                    new = l[:m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + l[m.end():]
                    if new != l: r.append((rel, n, new, ids))
            if rel.endswith(".cpp") and t.endswith(";") and not t.startswith(("return", "break", "}", "auto", "const", "case")) and ("(" in t or "=" in t):
                r.append((rel, n, "", ids))
    return r
def main():
    cnt, seed = int(sys.argv[1]), int(sys.argv[2])
    flt = sys.argv[3] if len(sys.argv) > 3 else ""
    out = open(os.environ.get("AUTOMUT_LOG", "/dev/stdout"), "a")
    c = candidates(flt)
    random.Random(seed).shuffle(c)
    print("%d candidates" % len(c), file=out, flush=True)
    env = dict(os.environ, PBT_NOSHRINK="1")
    done = 0
    d = tempfile.mkdtemp(prefix="automut.", dir="/tmp")
    shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays"))
    for rel, n, new, ids in c:
        if done >= cnt: break
        shutil.rmtree(d + "/repo", ignore_errors=True)
        subprocess.check_call(["cp", "-a", REPO, d + "/repo"])
        p = os.path.join(d, "repo", rel)
        lines = open(p).read().split("\n")
        old = lines[n]
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        res = None
        for i in ids.split():
            r = subprocess.run(["python3", d + "/verif/vrun.py", "check", i], env=dict(env, VERIF_REPO=d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1: res = "caught " + i; break
            if r.returncode != 0: res = "nobuild" if "build of" in r.stdout else "error %d %s" % (r.returncode, r.stdout[-300:]); break
        if res == "nobuild": continue
        done += 1
        print("%-14s %s:%d\n    - %s\n    + %s" % (res or "MISSED", rel, n + 1, old.strip(), new.strip()), file=out, flush=True)
    shutil.rmtree(d)
main()
