#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source."""

import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

MODULES = {
    "C26": ("fail", "c26"),
    "C17": ("mpi", "c17"),
    "C18": ("h5", "c18"),
    "C05": ("own", "c05"), "C21": ("own", "c21"),
    "C23": ("norms", "c23"),
    "C16": ("meta", "c16"),
    "C14": ("ode", "c14"), "C15": ("ode", "c15"),
    "C09": ("integ", "c09"), "C13": ("integ", "c13"),
    "C08": ("integ", "c08"), "C11": ("integ", "c11"),
    "C12": ("integ", "c12"), "C32": ("integ", "c32"),
    "C22": ("comps", "c22"), "C30": ("problems", "c30"), "C31": ("problems", "c31"),
    "C19": ("tableau", "c19"), "C20": ("tableau", "c20"),
    "C10": ("control", "c10"), "C24": ("control", "c24"), "C25": ("control", "c25"),
    "C06": ("ckpt", "c06"), "C07": ("ckpt", "c07"),
    "C04": ("states", "c04"),
    "C01": ("rk", "c01"), "C02": ("rk", "c02"), "C03": ("rk", "c03"),
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    root = os.environ.get("VERIF_REPO", "/repo")
    from sa.report import Anchor, Report

    R = Report(prop, tier, seed)
    mod, fn = MODULES[prop]
    code = 0
    try:
        getattr(importlib.import_module("checks." + mod), fn)(R, root)
    except Anchor as e:
        print(f"{prop}: anchor lost: {e}")
        code = 2
    except Exception as e:  # pylint: disable=broad-except
        # the analysis itself gave up: nothing is claimed about what it did not reach
        traceback.print_exc()
        R.undecided("analysis", "", f"{type(e).__name__}: {e}")
    ev, new, und = R.finish()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path, "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    c = ev["coverage"]
    print(f"{prop}: {c['obligations']} obligations, {c['discharged']} discharged, {c['undecided']} undecided, {c['violated']} violated; {c['functions_analysed']} functions; {ev['wall_s']} s")
    if "-v" in sys.argv:
        for o in R.obs:
            print(" ", o["status"], o["obligation"], o["how"], o["where"], o["detail"])
    else:
        for o in und:
            print("  undecided:", o["obligation"], o["where"], o["detail"][:300])
    if new:
        for o, _ in new:
            print(f"  {o['where']}: {o['obligation']}: {o['detail']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return code


if __name__ == "__main__":
    sys.exit(main())
