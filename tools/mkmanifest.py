#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
SRC = ("TLA+ specification of the three parsing stages checked exhaustively with TLC; every explored source replayed "
       "on the implementation; recorded random executions validated against the specification by TLC (Trace.tla)")
TECH = {p["id"]: SRC for p in props}
TECH["C16"] = ("TLA+ machine of push operations checked exhaustively with TLC (PushMC.tla); every history replayed on the "
               "implementation; recorded random histories validated by TLC (Trace.tla)")
TECH["C19"] = ("TLA+ machine of hand-built trees checked exhaustively with TLC (Build.tla); every tree replayed on the "
               "implementation; recorded random trees validated by TLC (Trace.tla)")
TECH["C20"] = ("TLA+ machine of hand-built documents checked exhaustively with TLC (Build.tla), their conversions printed and "
               "replayed on the implementation; recorded histories of conversions validated by TLC (Trace.tla)")
TECH["C21"] = ("TLA+ machine of hand-built documents checked exhaustively with TLC (Build.tla), every part and list of them converted "
               "alone in the specification and in the implementation; recorded conversions validated by TLC (Trace.tla)")
TECH["C22"] = ("TLA+ machine of hand-built documents checked exhaustively with TLC (Build.tla), each compared in the implementation "
               "with every document differing from it in one place; recorded comparisons and clones validated by TLC (Trace.tla)")
TECH["C23"] = ("TLA+ machine of lives of documents checked exhaustively with TLC (LifeMC.tla); every life replayed on the "
               "implementation; recorded random lives validated by TLC (Trace.tla)")
TECH["C24"] = ("TLA+ machine of lives of documents with edits in place checked exhaustively with TLC (LifeMC.tla); every life "
               "replayed on the implementation; recorded random lives validated by TLC (Trace.tla)")
TECH["C25"] = ("TLA+ machine of calls by two threads on several documents checked exhaustively with TLC (CallsMC.tla); every history "
               "replayed on threads of one process, and again and again on all; recorded random histories validated by TLC (Trace.tla)")
for c in ("C10", "C17"):
    TECH[c] = SRC + "; likewise for hand-built trees (Build.tla)"
NOTE = ("Exhaustive over the families of spec/Sources.tla and spec/Build.tla within their token bounds (about 200k sources quick, millions thorough) and "
        "sampled beyond them by seeded random sources and the corpus. Trusts TLC, the harness's projection of the trees "
        "(public accessors; maths blocks through their Debug form, verified by rebuilding), and that characters of one "
        "class are treated alike beyond the members tried.")
m = {
    "version": 1,
    "setup_cmd": "cargo build --release --offline --quiet --manifest-path harness/Cargo.toml --target-dir target && java -version",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": TECH[p["id"]],
        "level": "model_checking",
        "level_note": NOTE,
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks in /repo: the public interface exposes all state the specification speaks about.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
