#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = sys.argv[1:] or [f"C{i:02d}" for i in range(1, 27)]
na = {
 "C27": "A cryptographic hardness statement about probabilistic polynomial-time adversaries and the trusted setup; not decidable from the source.",
 "C28": "A quantitative statement about wall-clock time and memory of the gnark compiler and prover on a machine; static analysis in reach gives no sound bound.",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
extra = {}
techn = {
 "default": "abstract interpretation over SSA: value-flow graph + algebraic value numbering (random interpretation)",
 "C09": "type-level query: gnark schema walk over the type-checked circuit structs",
 "C10": "abstract interpretation over SSA: typestate of reported failures against acceptance facts",
 "C11": "abstract interpretation over SSA: gated control-dependence of constraint events on inputs",
 "C12": "abstract interpretation over SSA: effect and ownership analysis of hint functions",
 "C15": "abstract interpretation over SSA: must-event analysis of the signature check",
 "C16": "abstract interpretation over SSA: acceptance condition decided per order/equality class (predicate abstraction)",
 "C20": "abstract interpretation over SSA: acceptance condition decided per order class (predicate abstraction)",
 "C26": "abstract interpretation over SSA: every acceptance condition shown to be an identity under honest hint values (algebraic value numbering, value bounds)",
 "C22": "abstract interpretation over SSA: dataflow matching of the library calls on every normal exit",
 "C23": "effect analysis: mutation of objects reachable from package variables",
 "C24": "taint analysis: witness values reaching type inspection or native conversion",
}
checks = []
for p in claimed:
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": techn.get(p, techn["default"]),
        "level": "other",
        "level_note": "Sound up to the hand-written transfer functions of the gnark, gnark-crypto, math/big and go-ethereum calls (DESIGN.md); value comparison by random interpretation errs with probability < 2^-200; list lengths are enumerated up to the bound recorded in the evidence.",
    })
nap = [{"property": p["id"], "reason": na.get(p["id"], "check not built yet")} for p in props if p["id"] not in claimed]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nap}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
