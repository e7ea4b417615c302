#!/usr/bin/env python3
"""writes MANIFEST.json: a property is claimed when /verif/h has a harness for it"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {
    "P36": "the eigen-solvers call LAPACK (foreign compiled code without source or bitcode here) and iterate over rounded floating point until convergence; no sound symbolic encoding is in reach",
}
checks, na = [], []
for p in props:
    i = p["id"]
    fs = sorted(glob.glob("%s/h/%s.cpp" % (H, i)) + glob.glob("%s/h/%s_*.cpp" % (H, i)))
    if fs:
        b = []
        for f in fs:
            b += re.findall(r"^//@ bounds:? (.*)$", open(f).read(), re.M)
        checks.append({"property": i, "quick_cmd": "python3 /verif/check.py %s quick" % i, "thorough_cmd": "python3 /verif/check.py %s thorough" % i,
                       "technique": "symbolic execution of the real code's LLVM bitcode with z3 deciding every branch and assertion; counterexamples replayed on a native build",
                       "level": "model_checking",
                       "level_note": "holds for all values within bounds: " + "; ".join(b)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Engine in /verif/engine (bitcode executor over z3), harnesses in /verif/h, see DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not")
