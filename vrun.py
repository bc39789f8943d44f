#!/usr/bin/env python3
"""Builds (from /repo's working tree) and runs the check of one property.

usage: vrun.py check ID        build and run the check of property ID
       vrun.py build ID...     build only
       vrun.py replay FILE     re-run a replay file verbosely
       vrun.py setup           build everything that does not depend on /repo (optional cache warming)

Objects are cached under build/ by content (source, all headers, flags), so a check never uses a
stale object of another version of /repo and rebuilds only what changed.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")

COMMON = ["-std=c++17", "-g1", "-pthread", "-DASIO_STANDALONE", "-DFMT_DEPRECATED_OSTREAM", "-DSPDLOG_SHARED_LIB",
          "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-w"]
FLAVORS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "gcc": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-O1"],
    "fuzz": ["-O1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined"],
}
# check binary -> (sources under /verif/checks, part of the library needed: "messages", "core" or "all")
BINARIES = json.load(open(os.path.join(VERIF, "checks", "binaries.json")))


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, subdirs, files in sorted(os.walk(d)):
            subdirs.sort()
            for n in sorted(files):
                if n.endswith(exts):
                    p = os.path.join(root, n)
                    h.update(p.encode()); h.update(read(p)); h.update(b"\0")
    return h.hexdigest()


def mtime(p):
    try:
        return os.path.getmtime(p)
    except OSError:
        return 0


class Builder:
    def __init__(self, flavor):
        self.flavor = flavor
        self.incs = ["-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(VERIF, "harness"),
                     "-I" + os.path.join(REPO, "lib/include"), "-I" + os.path.join(REPO, "lib/src")]
        self.flags = COMMON + FLAVORS[flavor]
        self.cxx = "g++" if flavor == "gcc" else "clang++"
        self.repo_headers = tree_hash([os.path.join(REPO, "lib")], (".h", ".hpp"))
        self.stub_headers = tree_hash([os.path.join(VERIF, "stubs")], (".h",))
        self.harness_headers = tree_hash([os.path.join(VERIF, "harness"), os.path.join(VERIF, "checks")], (".h",))
        os.makedirs(CACHE, exist_ok=True)

    def pch(self):
        if self.cxx == "g++":
            return None
        src = os.path.join(VERIF, "harness", "pch.h")
        key = digest("pch", self.flags, self.stub_headers, read(src))
        out = os.path.join(CACHE, key + ".pch")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = sh(["clang++"] + self.flags + self.incs + ["-x", "c++-header", src, "-o", tmp])
            if r.returncode:
                sys.stderr.write(r.stdout)
                raise SystemExit(2)
            os.replace(tmp, out)
        return out

    def obj(self, src, kind, pch=None):
        hdr = [self.stub_headers]
        if kind != "engine":
            hdr.append(self.repo_headers)
        if kind != "lib":
            hdr.append(self.harness_headers)
        key = digest(kind, src, read(src), self.cxx, self.flags, self.incs, *hdr)
        out = os.path.join(CACHE, key + ".o")
        if os.path.exists(out):
            os.utime(out)
            return out, None
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = [self.cxx] + self.flags + self.incs + (["-include-pch", pch] if pch else []) + ["-c", src, "-o", tmp]
        r = sh(cmd)
        if r.returncode:
            return None, "%s\n%s" % (" ".join(cmd), r.stdout)
        os.replace(tmp, out)
        return out, None

    def build(self, name):
        spec = BINARIES[name]
        flavor_needs = spec.get("lib", "all")
        lib_all = sorted(glob.glob(os.path.join(REPO, "lib/src/**/*.cpp"), recursive=True))
        def part(p):
            rel = os.path.relpath(p, os.path.join(REPO, "lib/src"))
            if flavor_needs == "messages":
                return rel.startswith("messages/") or rel in ("TransactionIdentifier.cpp", "UnitIdentifier.cpp", "Ipv4Endpoint.cpp")
            if flavor_needs == "core":
                return rel.startswith(("messages/", "logging/", "server/db/")) or rel in ("TransactionIdentifier.cpp", "UnitIdentifier.cpp", "Ipv4Endpoint.cpp")
            return True
        # one build of a binary at a time (checks may be run concurrently)
        lock = open(os.path.join(BUILD, ".lock-" + name), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        attempts = [[p for p in lib_all if part(p)]]
        if len(attempts[0]) != len(lib_all):
            attempts.append(lib_all)
        err = ""
        for libs in attempts:
            exe, err = self._build(name, spec, libs)
            if exe:
                return exe
        sys.stderr.write(err + "\nvrun: build of %s failed\n" % name)
        raise SystemExit(2)

    def _build(self, name, spec, libs):
        pch = self.pch()
        jobs = []
        for s in spec["sources"]:
            jobs.append((os.path.join(VERIF, "checks", s), "check", pch))
        jobs.append((os.path.join(VERIF, "harness", "pbt.cpp"), "engine", None))
        jobs.append((os.path.join(VERIF, "harness", "fuzz_main.cpp" if self.flavor == "fuzz" else "main.cpp"), "engine", None))
        jobs += [(p, "lib", pch) for p in libs]
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            res = list(ex.map(lambda j: self.obj(*j), jobs))
        for o, e in res:
            if e:
                return None, e
        objs = [o for o, _ in res]
        key = digest(name, objs, self.flags)
        exe = os.path.join(BUILD, "%s-%s-%s" % (name, self.flavor, key[:12]))
        if not os.path.exists(exe):
            link = [f for f in self.flags if f.startswith("-fsanitize")]
            if self.flavor == "fuzz":
                link = ["-fsanitize=address,undefined,fuzzer"]
            tmp = exe + ".%d.tmp" % os.getpid()
            r = sh([self.cxx, "-pthread", "-rdynamic"] + link + ["-fno-sanitize=vptr,function"] * (self.flavor in ("asan", "fuzz"))
                   + objs + ["-o", tmp, "-lspdlog", "-lfmt", "-ldl"])
            if r.returncode:
                return None, r.stdout
            os.replace(tmp, exe)
            old = sorted((p for p in glob.glob(os.path.join(BUILD, "%s-%s-*" % (name, self.flavor))) if p != exe and not p.endswith(".tmp")), key=mtime)
            for p in old[:-2]:
                try: os.unlink(p)
                except OSError: pass
        self.prune()
        return exe, None

    def prune(self):
        files = glob.glob(os.path.join(CACHE, "*"))
        if len(files) > 900:
            for p in sorted(files, key=mtime)[:-600]:
                try: os.unlink(p)
                except OSError: pass


def binary_of(prop):
    for name, spec in BINARIES.items():
        if prop in spec["properties"]:
            return name, spec
    sys.stderr.write("no check for %s\n" % prop)
    raise SystemExit(2)


def env():
    e = dict(os.environ)
    e["VERIF_DIR"] = VERIF
    e.pop("ASAN_OPTIONS", None)
    return e


def check(prop):
    t0 = time.time()
    name, spec = binary_of(prop)
    rcs = []
    exe = Builder(spec.get("flavor", "asan")).build(name)
    print("built %s in %.1f s" % (os.path.basename(exe), time.time() - t0), flush=True)
    for attempt in range(20):
        try:
            return subprocess.call([exe, prop], env=env())
        except OSError as e:  # the executable is just being written by a concurrent build
            err = e
            time.sleep(0.5)
    sys.stderr.write("vrun: cannot run %s: %s\n" % (exe, err))
    return 2


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "check":
        sys.exit(check(a[1]))
    if len(a) >= 2 and a[0] == "build":
        for p in a[1:]:
            name, spec = binary_of(p)
            print(Builder(spec.get("flavor", "asan")).build(name))
        return
    if len(a) == 2 and a[0] == "replay":
        prop = [l.split()[1] for l in open(a[1]) if l.startswith("property ")][0]
        name, spec = binary_of(prop)
        exe = Builder(spec.get("flavor", "asan")).build(name)
        e = env()
        e["ASAN_OPTIONS"] = "symbolize=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:symbolize=1"
        e["TSAN_OPTIONS"] = "symbolize=1"
        sys.exit(subprocess.call([exe, "--replay", a[1]], env=e))
    if a == ["setup"]:
        for fl in sorted({s.get("flavor", "asan") for s in BINARIES.values()}):
            b = Builder(fl)
            b.pch()
        print("ok")
        return
    sys.stderr.write(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
