"""Writes MANIFEST.json from the property modules present."""

import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

TECH = {
    "C01": "property-based testing (Hypothesis) against an 80-bit reference Lambert solver and Kepler propagator",
    "C02": "property-based testing (Hypothesis) over constructed well-posed problems; totality oracle",
    "C03": "property-based testing (Hypothesis) against both reference solutions with M revolutions",
    "C04": "property-based testing (Hypothesis), each path against the reference branch",
    "C05": "property-based testing (Hypothesis) at both sides of the reference minimum time of flight",
    "C06": "property-based testing (Hypothesis) of angular momentum invariants in both directions",
    "C07": "differential property-based testing (Hypothesis) between solvers",
    "C08": "metamorphic property-based testing (Hypothesis): rotations and reflections",
    "C09": "metamorphic property-based testing (Hypothesis): change of units",
    "C10": "metamorphic property-based testing (Hypothesis): time reversal",
    "C11": "model-based testing (Hypothesis) of call histories, argument representations and threads against a fresh library",
    "C12": "property-based testing (Hypothesis) of invalid and valid arguments against a validity model",
    "C13": "property-based testing (Hypothesis) of singular and extreme problems against the reference and its conditioning",
    "C14": "property-based testing (Hypothesis) of the calling convention, plain against full output",
    "C15": "property-based testing (Hypothesis) over tolerances and iteration limits against the reference",
    "C16": "property-based testing (Hypothesis) of what each list promises against the reference",
    "C17": "differential property-based testing (Hypothesis): compiled against interpreted",
    "C18": "round-trip property-based testing (Hypothesis) against extended-precision elements",
    "C19": "round-trip and differential property-based testing (Hypothesis) against quadrature-free references",
    "C20": "differential property-based testing (Hypothesis) against multi-precision Stumpff functions",
    "C21": "property-based testing (Hypothesis) against definitions in extended precision",
    "C23": "property-based testing (Hypothesis) against the definition of the orbit in 40 digits",
    "C22": "property-based testing (Hypothesis) of generated documents against a model of the report",
}
NOTE = ("Generated-input search: no violation in the cases of the run, which are a pure "
        "function of the code and VERIF_SEED; it does not prove absence. ")
EXTRA = {
    "C13": "Bounds are scaled by the conditioning of each problem, measured by perturbing the reference.",
    "C11": "Thread schedules are sampled with a short switch interval, not enumerated.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "pbt", "props", i.lower() + ".py")):
            m = importlib.import_module("pbt.props." + i.lower())
            checks.append({
                "property": i,
                "quick_cmd": f"bash run.sh {i} --tier quick",
                "thorough_cmd": f"bash run.sh {i} --tier thorough",
                "technique": TECH[i],
                "level": "exploration",
                "level_note": NOTE + EXTRA.get(i, "") + (
                    " Trusts: " + "; ".join(m.ASSUMPTIONS) + "."
                    if getattr(m, "ASSUMPTIONS", None) else ""),
            })
        else:
            na.append({"property": i, "reason": "no check has been built for it yet"})
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
               "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


main()
