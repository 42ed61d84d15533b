#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to keep them in step)."""
import json, os, glob, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/boost/astronomy/"
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[I + f for f in files], mechanism=[dict(name=n, where=I + w) for n, w in mech], hook_needed=None)), note))
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())
NOTE = ("Bounded: the real header code, compiled from /repo's working tree to LLVM IR, is executed symbolically by build/sx and every path's assertions are decided by z3/cvc5 for all input values within the bounds listed in the harness (and in the evidence). "
        "Trusted: the compiler front end, the engine, the models of libstdc++ streams/allocation and the in-memory file system; witnesses and counterexamples are replayed against the natively compiled code and only reproduced ones are reported.")
def main():
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p, _ in P: f.write(json.dumps(p) + "\n")
    checks = []
    for p, n in P:
        i = p["id"]
        assert glob.glob(ROOT + "/harness/%s_*.cpp" % i), i
        assert len(p["title"]) <= 80, p["title"]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of LLVM IR + SMT" + (" (exact real arithmetic)" if n == "real" else " (bit-vectors)"), level="model_checking",
                           level_note=NOTE + (" Doubles are encoded as exact reals (trigonometric functions through their algebraic identities), so rounding error is outside the claim; replay allows a small tolerance." if n == "real" else "")))
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA, notes="Every check rebuilds its encoding from /repo/include. See DESIGN.md."), open(ROOT + "/MANIFEST.json", "w"), indent=1)
main()
