"""Obligations, verdicts, evidence."""

from __future__ import annotations

import json
import os
import time
import traceback

from . import terms as T
from .evalt import Model, Reject, Undecided, canon, same
from .terms import T as Term

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Anchor(Exception):
    """a public anchor of the property is gone"""


class Report:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.obs = []
        self.t0 = time.time()
        self.analysed = set()
        self.counts = {"effects": 0, "calls_inlined": 0, "loops": 0}
        self.notes = []
        self.zeroed = {}
        self.nmodels = 40 if tier == "quick" else 400
        self.cur = ""

    # ---------------------------------------------------------------- groups

    def group(self, name):
        return _Group(self, name)

    def absorb(self, E):
        self.analysed |= {f"{m}:{q}" for m, q in E.analysed}
        self.counts["effects"] += len(E.effects)
        self.counts["calls_inlined"] += E.n_calls
        self.counts["loops"] += len(E.loopinfo)
        self.zeroed.update(E.zeroed)
        for n in E.notes[:20]:
            if n not in self.notes:
                self.notes.append(n)

    # ----------------------------------------------------------- obligations

    def cleared(self):
        """working storage is reset by assignment"""
        label = "working storage is cleared whatever it holds (a product with zero keeps NaN and infinities of earlier runs)"
        for loc, what in sorted(self.zeroed.items(), key=lambda x: str(x[0])):
            self.fail(label, f"{loc[0]}:{loc[1]} in {loc[2]}" if isinstance(loc, tuple) else loc, f"multiplied by zero: {what}")
        if not self.zeroed:
            self.ok(label)

    def add(self, label, status, where="", detail="", how=""):
        self.obs.append({"obligation": (self.cur + "/" if self.cur else "") + label, "status": status, "where": str(where), "detail": detail[:1500], "how": how})

    def ok(self, label, where="", how="structural"):
        self.add(label, "discharged", where, how=how)

    def fail(self, label, where="", detail=""):
        self.add(label, "violated", where, detail)

    def undecided(self, label, where="", detail=""):
        self.add(label, "undecided", where, detail)

    def holds(self, label, cond, where="", detail=""):
        """cond: True discharged, False violated, None undecided"""
        if cond is None:
            self.undecided(label, where, detail)
        elif cond:
            self.ok(label, where)
        else:
            self.fail(label, where, detail)
        return cond

    def models(self, facts=(), loops=(), dims=(), fixed=None, n=None, maxdim=3, base=0):
        """models satisfying the facts, with generic loop indices bound"""
        count = 0
        n = n or self.nmodels
        for s in range(n * 6):
            if count >= n:
                return
            m = Model(f"{self.seed}:{base}:{s}", dims=dims, fixed=dict(fixed or {}), maxdim=maxdim)
            try:
                for bv, dom in loops:
                    vals = m.seq(dom, {})
                    if not vals:
                        raise Reject("empty loop")
                    m.fixed[bv] = m.rng.choice(vals)
                    m.memo.clear()
                if not all(m.truth(f) for f in facts):
                    continue
            except (Reject,):
                continue
            count += 1
            yield m

    def sizes(self, E, dims=()):
        """arrays are only reshaped to shapes of their size"""
        bad, seen = 0, set()
        for a, b, pc, loops, loc in E.size_claims:
            where = f"{loc[0]}:{loc[1]} in {loc[2]}"
            if (a, b, where) in seen:
                continue
            seen.add((a, b, where))
            n = k = 0
            try:
                for m in self.models(pc, [x[:2] for x in loops], dims):
                    try:
                        x, y = m(a), m(b)
                    except Reject:
                        continue
                    n += 1
                    k += x != y
            except Undecided:
                continue
            if n >= 5 and k == n:
                bad += 1
                self.fail("arrays are only reshaped to shapes of their size", where, f"{T.show(a, 100)} elements reshaped to {T.show(b, 100)} elements")
        if not bad:
            self.ok("arrays are only reshaped to shapes of their size")

    def same(self, label, got, want, where="", facts=(), loops=(), dims=(), fixed=None, maxdim=3, need=5):
        """got and want denote the same value in every model of the facts"""
        if not isinstance(got, Term) or not isinstance(want, Term):
            self.undecided(label, where, f"no value: {got!r} / {want!r}")
            return None
        if got is want:
            self.ok(label, where, "normal form")
            return True
        agreed = 0
        try:
            with T.facts(*facts):
                if T.equal(got, want):
                    self.ok(label, where, "normal form with gates")
                    return True
            for m in self.models(facts, loops, dims, fixed, maxdim=maxdim):
                try:
                    b = m(want)
                except Reject:
                    continue
                try:
                    a = m(got)
                except Reject as x:
                    self.undecided(label, where, f"value undefined in a model: {x}; value {T.show(got, 300)}; required {T.show(want, 300)}")
                    return None
                if not same(a, b):
                    self.fail(label, where, f"value is {T.show(got, 400)}; required {T.show(want, 400)}; separating model: {canon(a)[:120]} vs {canon(b)[:120]}")
                    return False
                agreed += 1
        except Undecided as x:
            self.undecided(label, where, f"{x}; value {T.show(got, 300)}; required {T.show(want, 300)}")
            return None
        if agreed >= need:
            self.ok(label, where, f"agree in {agreed} models")
            return True
        self.undecided(label, where, f"only {agreed} models; value {T.show(got, 300)}; required {T.show(want, 300)}")
        return None

    def implies(self, label, facts, concl, where="", loops=(), dims=(), fixed=None, maxdim=3, need=3):
        """concl holds in every model of the facts"""
        n = 0
        try:
            c = T.truth(concl)
            if c is T.TRUE:
                self.ok(label, where, "normal form")
                return True
            with T.facts(*facts):
                if T.known(c) is True:
                    self.ok(label, where, "entailed")
                    return True
            for m in self.models(facts, loops, dims, fixed, maxdim=maxdim, n=self.nmodels * 4):
                try:
                    v = m.truth(c)
                except Reject:
                    continue
                if not v:
                    self.fail(label, where, f"does not follow: {T.show(c, 300)} from {' & '.join(T.show(f, 120) for f in facts)[:600]}")
                    return False
                n += 1
        except Undecided as x:
            self.undecided(label, where, str(x))
            return None
        if n >= need:
            self.ok(label, where, f"holds in {n} models")
            return True
        self.undecided(label, where, f"only {n} models")
        return None

    # ---------------------------------------------------------------- verdict

    def finish(self):
        viol = [o for o in self.obs if o["status"] == "violated"]
        known = load_known()
        new, kn = [], []
        for o in viol:
            k = next((f for p, f in known if p == self.prop and f in f"{o['obligation']} {o['where']}"), None)
            (kn if k else new).append((o, k))
        for o, k in kn:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        und = [o for o in self.obs if o["status"] == "undecided"]
        ok = [o for o in self.obs if o["status"] == "discharged"]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
            "assumptions": [
                "external libraries (OpenMDAO, numpy, mpi4py, h5py, pyrevolve) behave as their documentation says",
                "arithmetic is exact (rounding is not modelled)",
            ],
            "coverage": {
                "explanation": "Static analysis: obligations decided on the gated value graph and the effect summary computed from the current source; nothing of the program is executed. Undecided obligations are listed and not counted as discharged.",
                "rule": "an obligation is discharged by equal normal forms, by entailment from the gates, or by agreement of both value graphs in all sampled interpretations; it is violated only with a separating interpretation or a concrete construct",
                "obligations": len(self.obs),
                "discharged": len(ok),
                "violated": len(viol),
                "undecided": len(und),
                "functions_analysed": len(self.analysed),
                **self.counts,
            },
            "samples": self.obs[:5],
            "functions": sorted(self.analysed),
            "obligations": self.obs,
            "unmodelled_constructs": [f"{w} at {l[0]}:{l[1]}" for w, l in self.notes[:40]],
        }
        return ev, new, und


class _Group:
    def __init__(self, r, name):
        self.r, self.name = r, name

    def __enter__(self):
        self.old = self.r.cur
        from .interp import Engine

        self.n0, self.o0 = len(Engine.ALL), len(self.r.obs)
        self.r.cur = (self.old + "/" if self.old else "") + self.name
        return self

    def __exit__(self, et, ev, tb):
        from .interp import Engine

        bad = [u for E in Engine.ALL[self.n0:] for u in E.unsound]
        if bad:
            for o in self.r.obs[self.o0:]:
                if o["status"] == "violated":
                    o["status"] = "undecided"
                    o["detail"] = f"unmodelled effect: {bad[0][0]} at {bad[0][1]}; " + o["detail"]
        if et is not None and issubclass(et, Anchor):
            self.r.cur = self.old
            return False
        if et is not None and issubclass(et, Exception):
            self.r.undecided("analysis", "", "".join(traceback.format_exception_only(et, ev)).strip() + " @ " + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(tb)[-4:]))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exception(et, ev, tb)
            self.r.cur = self.old
            return True
        self.r.cur = self.old
        return False


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property="):
                rest = line[len("finding: property="):]
                pid, _, what = rest.partition(" ")
                out.append((pid, what.strip()))
    return out
