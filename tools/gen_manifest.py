#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from checks/binaries.json and the notes below.
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
bins = json.load(open(os.path.join(ROOT, "checks", "binaries.json")))
claimed = {p: b for b, s in bins.items() for p in s["properties"]}
T = {
 "C01": ("property-based testing: random requests against an independent encoder, plus round trip", "exploration", "Every legal count of every function plus random requests; byte-exact comparison with a reference encoder; sampling of the remaining input space."),
 "C02": ("property-based testing / structured mutation fuzzing against a reference decoder, under ASan/UBSan", "exploration", "Mutated and random PDUs in exactly sized heap buffers; acceptance, value and error class decided by a reference decoder."),
 "C03": ("property-based testing: round trip server to client and reference encoder", "exploration", "Every legal count of every function plus random responses."),
 "C04": ("property-based testing / structured mutation fuzzing against a reference decoder, under ASan/UBSan", "exploration", "Mutated and random response PDUs for random requests, directly and through a client channel."),
 "C05": ("exhaustive enumeration of exception codes in generated requests, differential against the specification's table", "exploration", "All 256 codes x 8 functions, all exception types x 8 functions and all unsupported function codes are enumerated; requests and units around them are sampled."),
 "C06": ("property-based testing: whole-stream reference deframer and metamorphic re-segmentation", "exploration", "Random streams and segmentations; delivered messages compared after every chunk."),
}
T.update(json.load(open(os.path.join(ROOT, "tools", "techniques.json"))) if os.path.exists(os.path.join(ROOT, "tools", "techniques.json")) else {})
checks = []
na = []
for p in props:
    i = p["id"]
    if i in claimed:
        t, l, n = T[i]
        checks.append({"property": i, "quick_cmd": "python3 vrun.py check %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 vrun.py check %s" % i,
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "python3 vrun.py setup",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: harnesses use the library's own constructor seams (executor, connection and server interfaces), stand-ins for ser4cpp/exe4cpp under /verif/stubs, and symbol interposition", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Known and fixed findings: known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
