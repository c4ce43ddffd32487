#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when it has a harness with recorded labels."""
import json, os, glob, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
 "N01": "Needs the MSTK mesh framework and a running MPI with several processes; MSTK is not installed, so the code that decides ownership and identifiers across processes (src/mesh/mesh_mstk) is not compiled here and its behaviour lives in a library whose code is absent.",
 "N02": "File import and export are done by the MSTK and Exodus II libraries, which are not installed; the only code in the repository is a call into them, so there is nothing to encode.",
 "N03": "Extraction is implemented only in the MSTK framework (src/mesh/mesh_mstk), which is not compiled here; Mesh_simple refuses extraction (that refusal is part of F01).",
 "N04": "The scripts are Python 2 programs without a runnable interpreter here and work on unbounded text through an XML library; the symbolic executor works on compiled C++.",
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    hs = [h for h in sorted(glob.glob(V + "/harness/%s*.cc" % i)) if re.fullmatch(i + r"(_\w+)?\.cc", os.path.basename(h))]
    ok = hs and all(os.path.exists(V + "/harness/expect/%s.quick" % os.path.basename(h)[:-3]) for h in hs)
    if i in NA: na.append({"property": i, "reason": NA[i]})
    elif not ok: na.append({"property": i, "reason": "No check has been completed for this property yet."})
    else:
        b = []
        for h in hs:
            for l in open(h):
                m = re.match(r"//@ bounds: (.*)", l)
                if m: b.append(m.group(1).strip())
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "bounded symbolic execution of the compiled code (LLVM IR) with an SMT solver (Z3) deciding every assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Every value within the stated bounds is decided by the solver, nothing beyond them: " + " | ".join(b) + ". Trusts clang's IR generation, the executor (engine/), Z3, and the exact-real model of double arithmetic with tracked rounding-error bounds; sampled traces are compared with a native run.",
        })
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: harnesses link the unmodified sources. Genuine defects are listed in known_findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
