#!/usr/bin/env python3
"""mkmanifest.py: writes MANIFEST.json from props.py."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
NOTE = ("every path of the compiled code within the stated bounds is executed symbolically; z3 decides each branch and "
        "assertion for all values. Bounds and what they leave out: DESIGN.md and the evidence file. Trusted: rustc's "
        "LLVM IR, the executor (sampled paths are compared with native runs), z3, the models of clock, transport and tasks.")
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "yamux_verif", "enable": "RUSTFLAGS=--cfg yamux_verif",
              "source_commits": ["60568d0d0bb2f4f926ecba66daee40c61598d2fc"]},
    "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                "technique": "symbolic execution of the compiled code's LLVM IR with an SMT solver (z3)",
                "level": "model_checking", "level_note": NOTE} for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in PROPS],
}, open(R + "/MANIFEST.json", "w"), indent=1)
