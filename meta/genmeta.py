"""Writes properties.jsonl and MANIFEST.json.  Run by hand after changing the tables below."""

import json
import os
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, CHECKS  # noqa: E402


def main():
    with open(os.path.join(TOP, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    claimed = [p["id"] for p in PROPS if p["id"] in CHECKS]
    checks = []
    for i in claimed:
        technique, level, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick",
                       "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": technique, "level": level, "level_note": note})
    na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check yet")}
          for p in PROPS if p["id"] not in CHECKS]
    m = {"version": 1,
         "setup_cmd": "PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m vsim.build rt plain cov",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks were added to /repo: the seams used are NumPy's inner-loop table and data "
                  "allocator, Python's allocators and trace hook, object operators, the dynamic linker "
                  "(malloc) and compiler instrumentation, so the shipped code runs unchanged."}
    with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
