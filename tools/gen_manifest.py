"""Writes /verif/MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
sys.dont_write_bytecode = True
import frame
import allchecks

NA = {
 "N01": "Quantifies over floating-point error and series convergence; static analysis decides the exact-arithmetic structure (C13, C21-C26), no sound static bound on the rounding error of these recurrences is in reach.",
 "N02": "Overflow/underflow depends on run-time magnitudes of Bessel functions over the complex plane; interval-style static bounds on the recurrences diverge immediately.",
 "N03": "An inequality over the reals that follows from Maxwell's equations, not from the shape of the code; value numbering decides identities (the lossless case is C24), not inequalities.",
 "N04": "Numerical stability of recurrences (error growth with order and argument) is a run-time quantity; the exact recurrences themselves are decided by C21.",
 "N06": "The polarizability matrices come from a least-squares fit inside the external torchgdm package; the repository's part of the pipeline (frames, fields, coefficients) is decided by C19.",
}
note = ("Static abstract interpretation of /repo's current source (nothing is executed): decides every obligation listed in the evidence for all "
        "values of the symbolic inputs and sizes of each scenario; trusts the analyser's model of torch/NumPy/SciPy operations and of the "
        "enumerated layer counts, layouts and options. Undecidable obligations are reported as such, never as violations.")
NOTES = getattr(allchecks, "NOTES", {})
checks = []
for pid in sorted(frame.CHECKS):
    c = frame.CHECKS[pid]
    checks.append(dict(property=pid, quick_cmd="python3 sa/run.py %s --tier quick" % pid, thorough_cmd="python3 sa/run.py %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=c.rule, level="other", level_note=(NOTES.get(pid, "") + " " + note).strip()))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in frame.CHECKS]
m = dict(version=1, setup_cmd="python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'", checks=checks, not_applicable=na,
         notes="Pure standard-library Python; no build step. All checks re-read /repo/src on every run. The changes in /repo are 'fix:' commits only (see known_findings.txt); there are no hooks.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), [x["property"] for x in na])
