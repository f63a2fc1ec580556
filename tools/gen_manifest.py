#!/usr/bin/env python3
"""Write MANIFEST.json from the checks registered in check.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

NA = {
    "C27": "Quantifies over the limit of a discretization error of arbitrary smooth problems; no sound static argument in reach bounds it. Its static ingredients are decided by C01 (step formula) and C19 (order conditions).",
    "C28": "Proportionality of a global error to a tolerance is a quantitative statement about run-time numbers; its static ingredients are decided by C09, C10 and C23.",
    "C29": "Convergence of iterative (Newton) stage solves depends on run-time quantities and on OpenMDAO's solvers, which are outside the source; C15/C22 decide the equations they are given.",
}
TECH = {
    "default": "interprocedural abstract interpretation to a gated value graph (global value numbering) with effect summaries, compared with the specification",
    "C04": "field-coverage analysis of state classes on the gated value graph",
    "C05": "alias and storage-identity analysis of the abstract heap plus effect summaries of checkpointers",
    "C17": "rank-parametric effect analysis: traces of collective operations, summarised by abstract interpretation, compared between processes that differ in rank, quantities and data",
    "C19": "constant evaluation of the tableau definitions in the syntax tree and exact order conditions",
    "C21": "mutation (ownership) analysis of user supplied objects on the abstract heap",
    "C26": "exception-flow analysis of all handlers over the call graph (what a handler covers, whether every way through it raises), and abstract interpretation of unusable requests",
}
NOTE = "Sound for the modelled Python/numpy subset; external calls (OpenMDAO, mpi4py, h5py, ODE callbacks) are arbitrary but called with the analysed arguments in the analysed order; equality of value graphs is by normal form or by agreement under random interpretations, so a reported mismatch always has a separating interpretation; undecided obligations are listed in the evidence and never counted as discharged."
NOTES = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in check.MODULES:
            checks.append({
                "property": i,
                "quick_cmd": f"python3 check.py {i}",
                "thorough_cmd": f"python3 check.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "static analysis: " + TECH.get(i, TECH["default"]),
                "level": "other",
                "level_note": NOTES.get(i, NOTE),
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "no check yet")})
    m = {"version": 1, "setup_cmd": "python3 -c \"import ast, fractions\"", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
