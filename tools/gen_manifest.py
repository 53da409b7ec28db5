#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
from checks import REGISTRY, NOT_APPLICABLE

props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": " && ".join(f"cargo build --offline --quiet --manifest-path {d}/Cargo.toml --target-dir {d}/target" for d in ("harness", "runner", "pyrunner", "native")),
    "checks": [
        {
            "property": p,
            "quick_cmd": f"bin/check {p} quick",
            "thorough_cmd": f"bin/check {p} thorough",
            "technique": REGISTRY[p]["technique"],
            "level": REGISTRY[p]["level"],
            "level_note": REGISTRY[p]["explored"],
        }
        for p in props if p in REGISTRY
    ],
    "not_applicable": [
        {"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")} for p in props if p not in REGISTRY
    ],
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
