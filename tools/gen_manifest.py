#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 -m py_compile check.py checks.py && mkdir -p build evidence replays",
    "hooks": {
        "guard": "FRN_VERIF_HOOKS",
        "enable": "check.py compiles /repo/src with -DFRN_VERIF_HOOKS",
        "source_commits": ["e185f64"],
    },
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds its harnesses from /repo's working tree into /verif/build (ignored by git). "
             "VERIF_SEED seeds every random choice.",
}
TECH = {
    "C26": "sanitizers: ASan+UBSan, valgrind memcheck, bytes in use at quiescent points",
    "C27": "sanitizers: ThreadSanitizer, plus results against sequential runs",
    "C28": "runtime monitoring: offline checker over recorded histories, ASan+UBSan",
    "C24": "runtime monitoring: processes observed from outside, summaries against a traffic model",
    "C19": "runtime monitoring: descriptor, thread and link monitors under start and teardown orders, ASan+UBSan",
    "C20": "runtime monitoring with fault injection at every system call, ASan+UBSan",
}
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, "runtime monitoring: model oracle over executions, ASan+UBSan"),
            "level": s.get("level", "exploration"),
            "level_note": s.get("level_note", "Held on the executions counted in the evidence; the reference models of "
                                              "harness/ref.h and the harness are trusted."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
