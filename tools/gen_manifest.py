#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the headers of harness/src/cNN.rs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C44": "the rendering is text assembled by core::fmt (trait-object formatters, float printing with runtime precision) and hash-map iteration; its observable is a string, which the executor does not model symbolically: float-to-decimal conversion of a symbolic value is outside every available theory encoding of this size",
    "C45": "the round trip runs through the ron/serde parser on text: the input that would have to be symbolic is an unbounded string and the float printing/parsing inside ron (ryu, fast-float) is beyond the encoding; the repository itself holds only derive attributes for it",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "harness/src/%s.rs" % p["id"].lower())
    if p["id"] in NA or not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
        continue
    src = open(f).read()
    g = lambda k: "; ".join(re.findall(r"^//! %s: (.*)" % k, src, re.M))
    note = "LLVM IR of the compiled library is executed symbolically and every assertion decided by z3/cvc5 for all values within the bounds: " + g("bounds") + "."
    if g("outside"): note += " Outside: " + g("outside") + "."
    if g("assumes"): note += " Assumes: " + g("assumes") + "."
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "symbolic execution of the compiled LLVM IR, assertions decided by an SMT solver (z3, cvc5), counterexamples replayed natively", "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
