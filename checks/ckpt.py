"""C06, C07 (and the checkpoint part of C05): forward and reverse iteration of every strategy."""

from __future__ import annotations

from fractions import Fraction

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Reject, Undecided
from sa.report import Anchor
from sa.terms import NONE, ONE, ZERO, const, mk
from sa.trace import expand
from .rk import Bad, anchor_loc, decide, need
from .states import tis

WITH_REVERSE = ("AllCheckpointer", "PyrevolveCheckpointer")

STUBS = {"all": {"pyrevolve": "pyrevolve_all.py"}, "one": {"pyrevolve": "pyrevolve_one.py"}}


def strategies(root):
    """all concrete checkpointing strategies of the package"""
    D = Drive(root)
    base = D.cls("CheckpointInterface")
    out = []
    for m in D.pkg.modules.values():
        for n, b in m.env.items():
            if b[0] == "class":
                c = D.E.class_of(m, b[1])
                if c is not base and base in c.mro and n not in out:
                    out.append(n)
    return out


def setup(root, cname, criterion, fresh=False, stub="all", emb=False, **kw):
    D = Drive(root, stubs=STUBS[stub])
    revolve = "evolve" in cname
    D.sizes(stages=2 if revolve else None)
    E = D.E
    run = D.state_func("run_step", 1, fresh)
    rev = D.state_func("run_rev", 2, fresh)
    if criterion == "any":
        crit = T.sym("criterion")

        def fin(E, st, f, recv, args, kwargs, node):
            args = list(args) + list(kwargs.values())
            it, s = E.deref(args[0], st), E.materialize(args[1], st)
            E.effect(st, "call", "finished", None, (it, s), node=node)
            return T.truth(mk("app", "finished", None, (it, s)))

        E.hooks["ext:is_iteration_finished"] = fin
    elif criterion == "time":
        D.tend = D.scalar("t_end")
        crit = D.new("PredefinedFinalTime", D.tend)
    else:
        D.N = D.dim("N")
        crit = D.new("PredefinedNumberOfSteps", D.N)
    D.S, D.P = tis(D, "S", emb), tis(D, "P", emb)
    D.refs = {n: dict(D.leaves(o)) for n, o in (("state", D.S), ("state_perturbation", D.P))}
    D.ck = D.new(cname, termination_criterion=crit, run_step_func=run, run_step_jacvec_rev_func=rev, state=D.S, state_perturbation=D.P, **kw)
    D.I, D.F = tis(D, "I", emb), tis(D, "F", emb)
    D.I0, D.F0 = tis(D, "I0", emb), tis(D, "F0", emb)
    D.init = {"I": E.materialize(D.I, D.st), "F": E.materialize(D.F, D.st)}
    return D


def app(m, name, shapes, it, vals):
    """the arbitrary step function in a model"""

    def leaf(path, like):
        if isinstance(like, dict):
            return {k: leaf((path + "." if path else "") + k if k != "__class__" else k, v) if k != "__class__" else v for k, v in like.items()}
        if isinstance(like, str):
            return like
        return m.rnd(m.apph(name + ":" + path, [it] + vals), shp(like))

    def shp(v):
        out = []
        while isinstance(v, list):
            out.append(len(v))
            v = v[0] if v else None
        return out

    return leaf("", vals[-1])


def content(D, m, o, st=None):
    return m(D.E.materialize(o, st or D.st))


def one(v):
    return v[0] if isinstance(v, list) else v


def forward_ref(D, m, S0, criterion):
    it, s, calls, hist = Fraction(0), S0, [], []
    while True:
        if criterion == "any":
            if m.tv(_op(m, "finished", it, s)):
                break
        elif criterion == "time":
            if m(D.tend) - one(s["discretization_state"]["final_time"]) <= 0:
                break
        elif it >= m(D.N):
            break
        it += 1
        calls.append((it, s))
        s = app(m, "run_step", None, it, [s])
        hist.append(s)
        if it > 30:
            raise Reject("long")
    return s, calls, hist


def _op(m, name, *vals):
    import hashlib
    from sa.evalt import Op

    h = m.apph(name, list(vals))
    return Op(hashlib.md5(f"{m.seed}:{h}".encode()).hexdigest())


def refusal(D):
    """exceptions that leave the entry point unconditionally"""
    return [x for x in D.raises() if x.kind == "raise"]


def earlier(D, warm):
    """an earlier run of the same checkpointer, with other data"""
    from sa.interp import Dead

    if not warm:
        return
    D.call(D.ck, "create_checkpointer")
    D.call(D.ck, "iterate_forward", D.I0)
    if warm == "reverse":
        try:
            D.call(D.ck, "iterate_reverse", D.F0)
        except Dead:
            # a strategy without reverse iteration: only the forward part remains
            pass


def stopped(R, D, loc):
    R.absorb(D.E)
    if refusal(D):
        R.fail("the run completes", loc, "every path ends in an exception: " + "; ".join(T.show(x.val, 100) for x in refusal(D)[:2]))
    else:
        R.undecided("analysis", loc, "no normal return")


def run_forward(D):
    D.call(D.ck, "create_checkpointer")
    n0 = len(D.E.effects)
    D.out = D.call(D.ck, "iterate_forward", D.I)
    D.fwd = D.E.effects[n0:]
    return D.out


def check_forward(R, root, cname, criterion, fresh, stub, kw, warm=None):
    from sa.interp import Dead

    with R.group(f"{cname}.iterate_forward[{criterion}{',new' if fresh else ''}{',' + stub if 'evolve' in cname else ''}{', after an earlier ' + warm + ' run' if warm else ''}]"):
        D = setup(root, cname, criterion, fresh, stub, **kw)
        loc = anchor_loc(D, cname, "iterate_forward")
        try:
            earlier(D, warm)
            out = run_forward(D)
        except Dead:
            stopped(R, D, loc)
            return
        R.absorb(D.E)
        if out.op != "obj":
            R.undecided("returned state", loc, T.show(out, 200))
            return
        calls = [e for e in D.fwd if e.name == "run_step"]
        asks = [e for e in D.fwd if e.name == "finished"]

        def model(m):
            init = init_content(D, m, "I")
            want, ref, _ = forward_ref(D, m, init, criterion)
            tr = expand(m, calls)
            w = calls[0].where() if calls else loc
            need("step numbers are 1..N", w, [m.ev(e.args[0], b) for e, b in tr], [c[0] for c in ref])
            for (e, b), (it, s) in zip(tr, ref):
                need("each step starts from the result of the previous one", w, m.ev(e.args[1], b), s)
            if criterion == "any":
                ta = expand(m, asks)
                wa = asks[0].where() if asks else loc
                seq = [(m.ev(e.args[0], b), m.ev(e.args[1], b)) for e, b in ta]
                # (the final, positive answer is not part of the loop body and need not be listed)
                need("the criterion is asked before every step", wa, [x for x, _ in seq][: len(ref)], [Fraction(k) for k in range(len(ref))])
                need("the criterion is not asked again", wa, [x for x, _ in seq][len(ref):][1:], [])
                for k, (_, s) in enumerate(seq):
                    need("the criterion sees the state after the step", wa, s, ref[k][1] if k < len(ref) else want)
            need("returned state is the one after step N", loc, content(D, m, out), want)

        decide(R, D, "forward iteration", model, need_models=6)
        check_storage(R, D, loc)


def init_content(D, m, p):
    """content of the given initial state (as it was when passed in)"""
    return m(D.init[p])


def check_storage(R, D, loc):
    """the live states keep their arrays"""
    for n, o in (("state", D.S), ("state_perturbation", D.P)):
        now = D.leaves(o)
        for k, v in D.refs[n].items():
            R.holds(f"{n} keeps the storage of {k}", now.get(k) is v, loc, f"{n}.{k} is rebound to another array")


def check_reverse(R, root, cname, criterion, fresh, stub, kw, warm=None):
    from sa.interp import Dead

    with R.group(f"{cname}.iterate_reverse[{criterion}{',new' if fresh else ''}{',' + stub if 'evolve' in cname else ''}{', after an earlier ' + warm + ' run' if warm else ''}]"):
        D = setup(root, cname, criterion, fresh, stub, **kw)
        loc = anchor_loc(D, cname, "iterate_reverse")
        try:
            earlier(D, warm)
            run_forward(D)
        except Dead:
            stopped(R, D, loc)
            return
        n0 = len(D.E.effects)
        kept = {l: D.E.get(D.st, ("L", l.args[0])) for l, _, _ in D.E.bounded}
        try:
            out = D.call(D.ck, "iterate_reverse", D.F)
        except Dead:
            R.absorb(D.E)
            if refusal(D) and cname in WITH_REVERSE:
                R.fail("reverse iteration is provided", loc, "refused")
            elif refusal(D):
                R.ok("reverse iteration is refused", loc)
            else:
                R.undecided("reverse iteration", loc, "no normal return")
            return
        R.absorb(D.E)
        if out.op != "obj":
            R.holds("returned perturbation", False if out is NONE else None, loc, T.show(out, 200))
            return
        effs = D.E.effects[n0:]
        calls = [e for e in effs if e.name == "run_rev"]

        def model(m):
            init, fin = init_content(D, m, "I"), init_content(D, m, "F")
            _, _, hist = forward_ref(D, m, init, criterion)
            tr = expand(m, calls)
            w = calls[0].where() if calls else loc
            N = len(hist)
            need("reverse steps are N..1, each once", w, [m.ev(e.args[0], b) for e, b in tr], [Fraction(N - k) for k in range(N)])
            p = fin
            for k, (e, b) in enumerate(tr):
                it = Fraction(N - k)
                need("reverse step gets the data of its own step", w, m.ev(e.args[1], b), hist[N - k - 1])
                need("reverse step gets the perturbation of the following step", w, m.ev(e.args[2], b), p)
                p = app(m, "run_rev", None, it, [hist[N - k - 1], p])
            need("returned perturbation", loc, content(D, m, out), p)

        for l, n, at in D.E.bounded:
            if any(e.kind == "append" and e.recv is l and e.loops for e in D.fwd):
                used = D.E.get(D.st, ("L", l.args[0])) is not kept.get(l)
                R.holds("data of every step is kept", False if used else None, "%s:%s in %s" % at, f"the number of steps is unbounded, at most {n} entries are kept")
        decide(R, D, "reverse iteration", model, need_models=6)
        check_storage(R, D, loc)


def variants(cname):
    if "evolve" in cname:
        for stub in ("all", "one"):
            yield "steps", False, stub, {}
        yield "steps", True, "all", {}
        return
    for crit in ("any", "steps"):
        for fresh in (False, True):
            yield crit, fresh, "all", {}


def c06(R, root):
    for c in strategies(root):
        for v in variants(c):
            check_forward(R, root, c, *v)
        check_forward(R, root, c, "steps", False, "all", {}, warm="forward")
        if "evolve" not in c:
            check_forward(R, root, c, "time", False, "all", {})
    from .integ import transfers_forward

    for emb, ad in ((False, False), (True, True)):
        with R.group(f"forward mode {'adaptive' if ad else 'fixed'}"):
            transfers_forward(R, root, emb=emb, adaptive=ad)


def c07(R, root):
    from .fail import refusals

    refusals(R, root)
    for c in strategies(root):
        for v in variants(c):
            check_reverse(R, root, c, *v)
        again(R, root, c, check_reverse)


def again(R, root, c, check):
    """second run with the same checkpointer"""
    for warm in ("forward", "reverse"):
        check(R, root, c, "steps", False, "all", {}, warm=warm)
    if "evolve" not in c:
        check(R, root, c, "any", False, "all", {}, warm="forward")
        check(R, root, c, "time", False, "all", {})
