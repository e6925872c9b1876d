#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from levels import LEVEL, NOTE, TECH
props = [json.loads(l) for l in open(HERE + "/../properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "cargo +nightly build --release --offline --manifest-path mirdump/Cargo.toml && cargo build --release --offline --manifest-path harness/Cargo.toml",
     "hooks": {"guard": "none", "enable": "no hooks: the verifier reads the compiler's MIR of the unmodified crate and the harness uses its public interface", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                 "technique": TECH.get(p["id"], "contract-based deductive verification of the compiled functions' MIR (z3), with a bounded check against a reference model for witnesses and remainders"),
                 "level": LEVEL[p["id"]], "level_note": NOTE.get(p["id"], "see DESIGN.md")} for p in props],
     "not_applicable": []}
json.dump(m, open(HERE + "/../MANIFEST.json", "w"), indent=1)
