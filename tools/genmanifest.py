#!/usr/bin/env python3
"""MANIFEST.json from checks.py"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, TECHNIQUE
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NA = json.load(open(f"{V}/tools/not_applicable.json"))
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {"guard": "LOG_SURGEON_VERIF_STATIC_BUFF_SIZE",
              "enable": "-DLOG_SURGEON_VERIF_STATIC_BUFF_SIZE=<bytes> (harness builds only; shrinks the static buffers so that wrapping and growing is within the bounds)",
              "source_commits": ["2f2c837"]},
    "checks": [{"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
                "evidence_file": f"evidence/{p}.json", "technique": TECHNIQUE, "level": "model_checking",
                "level_note": CHECKS[p]["note"] + "; bounded: see bounds and exhaustive in the evidence"} for p in props if p in CHECKS],
    "not_applicable": [{"property": p, "reason": NA.get(p, "no check yet")} for p in props if p not in CHECKS],
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
