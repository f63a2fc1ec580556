"""C01-C03: the Runge-Kutta step and its two linear companions."""

from __future__ import annotations

from fractions import Fraction

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Reject, Undecided, bcast, canon, same
from sa.report import Anchor
from sa.terms import ONE, TRUE, ZERO, const, mk
from sa.trace import arg, expand


def _add(*xs):
    return bcast(lambda *v: sum(v, Fraction(0)), *xs) if len(xs) > 1 else xs[0]


def _mul(a, b):
    return bcast(lambda x, y: x * y, a, b)


def vec(v, n):
    """broadcast scalar content"""
    return [v] * n if not isinstance(v, list) else v


class Bad(Exception):
    def __init__(self, label, where, detail):
        self.label, self.where, self.detail = label, where, detail


def need(label, where, got, want):
    if not same(got, want):
        raise Bad(label, where, f"value {canon(got)[:150]}, required {canon(want)[:150]}")


def shaped_tableau(m, D):
    """tableaux of the kinds users bring: full, explicit, diagonally implicit, with an explicit first
    stage, stiffly accurate / first-same-as-last, with vanishing or negative entries"""
    if getattr(D, "A", None) is None:
        return
    s = int(m(D.s))
    A, b, c = [list(r) for r in m(D.A)], list(m(D.b)), list(m(D.c))
    bh = list(m(D.bh)) if getattr(D, "bh", None) is not None else None
    kind = m.rng.choice(["full", "explicit", "dirk", "esdirk", "fsal", "stiff", "holes", "nonneg", "near", "repeat"])
    zero = Fraction(0)
    nz = lambda v, k: v if v else Fraction(k + 1, 3)
    for i in range(s):
        for j in range(i + 1, s):
            if kind != "full":
                A[i][j] = zero
        if kind in ("explicit", "fsal") or kind == "esdirk" and i == 0:
            A[i][i] = zero
        elif kind in ("dirk", "esdirk", "stiff"):
            A[i][i] = nz(A[i][i], i)
        if kind == "holes":
            for j in range(i + 1):
                if m.rng.random() < 0.5:
                    A[i][j] = zero
            if m.rng.random() < 0.5:
                b[i] = zero
            if bh is not None and m.rng.random() < 0.5:
                bh[i] = zero
        if kind == "nonneg":
            A[i] = [abs(x) for x in A[i]]
    if kind == "nonneg":
        b = [abs(x) for x in b]
    if kind in ("fsal", "stiff"):
        b = list(A[-1])
        c[-1] = Fraction(1)
        if kind == "fsal":
            c[0] = zero
    tiny = lambda: Fraction(m.rng.choice([1, -1]), 10 ** m.rng.choice([2, 3, 6, 9, 13]))
    if kind == "near":
        # nearly stiffly accurate, nearly one, nearly explicit, nearly vanishing
        b = [x + tiny() if m.rng.random() < 0.5 else x for x in A[-1]]
        c[-1] = 1 + tiny()
        c[0] = tiny()
        for i in range(s):
            for j in range(i + 1):
                if m.rng.random() < 0.3:
                    A[i][j] = tiny()
        if bh is not None:
            bh = [x + tiny() if m.rng.random() < 0.5 else x for x in b]
    if kind == "repeat":
        # equal nodes, rows and weights
        for i in range(1, s):
            if m.rng.random() < 0.6:
                c[i] = c[i - 1]
            if m.rng.random() < 0.6:
                A[i][:i] = (A[i - 1][:i - 1] + [zero])[:i]
            if m.rng.random() < 0.5:
                A[i][i] = A[i - 1][i - 1]
            if m.rng.random() < 0.5:
                b[i] = b[i - 1]
        if bh is not None and m.rng.random() < 0.5:
            bh = list(b)
    m.fixed[D.A], m.fixed[D.b], m.fixed[D.c] = A, b, c
    if bh is not None:
        m.fixed[D.bh] = bh
    m.memo.clear()
    m.vh.clear()


def decide(R, D, label, fn, facts=(), maxdim=3, need_models=6, fixed=None, n=None):
    """run fn in every model; fn raises Bad for a separating model"""
    total, n = n, 0
    try:
        for m in R.models(tuple(facts), (), D.dims, fixed, maxdim=maxdim, n=None if total is None else total * (1 if R.tier == 'quick' else 5)):
            try:
                shaped_tableau(m, D)
                fn(m)
            except Reject:
                continue
            n += 1
    except Bad as b:
        R.fail(f"{label}: {b.label}", b.where, b.detail)
        return False
    except Undecided as u:
        R.undecided(label, "", str(u))
        return None
    if n >= need_models:
        R.ok(label, how=f"value graph agrees with the reference in {n} models")
        return True
    R.undecided(label, "", f"only {n} admissible models")
    return None


STATE_FIELDS = ["final_time", "final_state", "final_independent_outputs", "start_time", "start_state", "independent_inputs", "stage_times", "stage_updates", "stage_states", "stage_independent_outputs", "linearization_points", "step_size"]


def loc_of(D, calls, default):
    return calls[0].where() if calls else default


def result_state(R, D, ret, obj, what):
    """the object holding the result (returned, or the argument updated in place)"""
    if ret is obj:
        return obj
    if ret.op == "obj":
        return ret
    if ret is T.NONE:
        return obj
    R.undecided(what + " result", "", T.show(ret, 200))
    return None


def run_step(R, root, embedded, which):
    D = Drive(root)
    D.sizes()
    ode = D.ode()
    tab = D.tableau(embedded)
    disc = D.new("StageOrderedEmbeddedRungeKuttaDiscretization" if embedded else "StageOrderedRungeKuttaDiscretization", tab)
    h = D.scalar("h")
    S = D.rk_state("S", embedded)
    n0 = len(D.E.effects)
    if which == "compute_step":
        ret = D.call(disc, which, ode, S, h)
        obj = S
        P = None
    else:
        P = D.rk_state("P", embedded)
        n0 = len(D.E.effects)
        ret = D.call(disc, which, ode, S, P, h)
        obj = P
    R.absorb(D.E)
    D.S, D.P, D.ret, D.h, D.disc = S, P, ret, h, disc
    D.out = result_state(R, D, ret, obj, which)
    D.effs = D.E.effects[n0:]
    return D


def anchor_loc(D, cname, fname):
    c = D.E.cls(cname)
    r = D.E.lookup(c, fname)
    if r is None:
        return cname + "." + fname
    import os

    return f"{os.path.relpath(r[0].module.path, D.root)}:{r[1].node.lineno} in {r[0].name}.{fname}"


def primal(R, root, embedded):
    cname = "StageOrderedEmbeddedRungeKuttaDiscretization" if embedded else "StageOrderedRungeKuttaDiscretization"
    with R.group(cname + ".compute_step"):
        D = run_step(R, root, embedded, "compute_step")
        if D.out is None:
            return
        loc = anchor_loc(D, cname, "compute_step")
        calls = [e for e in D.effs if e.kind == "call" and e.name == "compute_update"]
        other = [e for e in D.effs if e.kind == "call" and e.name != "compute_update"]
        for e in other:
            R.undecided("foreign call", e.where(), repr(e))
        f = {k: D.field(D.out, k) for k in STATE_FIELDS + (["embedded_state", "error_estimate"] if embedded else [])}
        missing = [k for k, v in f.items() if v is None]
        if missing:
            raise Anchor(f"state field {missing[0]} not found")
        sym = lambda k: T.mk("sym", f"S.{k}")

        def model(m):
            s, n, q, l = (int(m(x)) for x in (D.s, D.n, D.q, D.l))
            A, b, c, h = m(D.A), m(D.b), m(D.c), m(D.h)
            t0, y0, u = m(sym("final_time"))[0], m(sym("final_state")), m(sym("independent_inputs"))
            tr = expand(m, calls)
            need("one stage solve per stage", loc_of(D, calls, loc), Fraction(len(tr)), Fraction(s))
            K, Z, O, L, tt = [], [], [], [], []
            for i, eb in enumerate(tr):
                e, bd = eb
                x = arg(D, m, eb, 0, "ode_input")
                w = e.where()
                if not isinstance(x, dict):
                    raise Undecided("stage input object")
                need("stage step input is the start state", w, x["step_input"], y0)
                acc = [Fraction(0)] * n
                for j in range(i):
                    acc = _add(acc, _mul(A[i][j], K[j]))
                need("stage input is sum_{j<i} a_ij k_j", w, vec(x["stage_input"], n), acc)
                need("stage independent input", w, x["independent_input"], u)
                need("stage time is t_n + c_i h", w, x["time"], t0 + c[i] * h)
                need("stage step size", w, arg(D, m, eb, 1, "step_size"), h)
                need("stage factor is a_ii", w, arg(D, m, eb, 2, "stage_factor"), A[i][i])
                tt.append(t0 + c[i] * h)
                at = lambda nm: m.ev(mk("attr", e.res, nm), bd)
                K.append(at("stage_update"))
                Z.append(at("stage_state"))
                O.append(at("independent_output"))
                L.append(at("linearization_point"))
            need("stage_updates", loc, m(f["stage_updates"]), K)
            need("stage_states", loc, m(f["stage_states"]), Z)
            need("stage_independent_outputs", loc, m(f["stage_independent_outputs"]), O)
            need("linearization_points", loc, m(f["linearization_points"]), L)
            need("stage_times", loc, m(f["stage_times"]), tt)
            need("start_time", loc, vec(m(f["start_time"]), 1), [t0])
            need("start_state", loc, m(f["start_state"]), y0)
            need("independent inputs kept", loc, m(f["independent_inputs"]), u)
            need("recorded step size", loc, vec(m(f["step_size"]), 1), [h])
            need("final_time is t_n + h", loc, vec(m(f["final_time"]), 1), [t0 + h])
            y1 = y0
            for i in range(s):
                y1 = _add(y1, _mul(h * b[i], K[i]))
            need("final_state is y_n + h sum b_i k_i", loc, vec(m(f["final_state"]), n), y1)
            if embedded:
                bh = m(D.bh)
                ye = y0
                for i in range(s):
                    ye = _add(ye, _mul(h * bh[i], K[i]))
                need("embedded_state is y_n + h sum bhat_i k_i", loc, vec(m(f["embedded_state"]), n), ye)
                need("error_estimate is final - embedded", loc, vec(m(f["error_estimate"]), n), _add(y1, _mul(Fraction(-1), ye)))

        decide(R, D, "step formula", model, n=160)


def forward(R, root, embedded):
    cname = "StageOrderedEmbeddedRungeKuttaDiscretization" if embedded else "StageOrderedRungeKuttaDiscretization"
    with R.group(cname + ".compute_step_derivative"):
        D = run_step(R, root, embedded, "compute_step_derivative")
        if D.out is None:
            return
        loc = anchor_loc(D, cname, "compute_step_derivative")
        calls = [e for e in D.effs if e.kind == "call" and e.name == "compute_update_derivative"]
        f = {k: D.field(D.out, k) for k in STATE_FIELDS}
        ps = lambda k: T.mk("sym", f"P.{k}")

        def model(m):
            s, n = int(m(D.s)), int(m(D.n))
            A, b, h = m(D.A), m(D.b), m(D.h)
            LP = m(T.mk("sym", "S.linearization_points"))
            dt0, dy0, du = m(ps("final_time"))[0], m(ps("final_state")), m(ps("independent_inputs"))
            tr = expand(m, calls)
            need("one linear solve per stage", loc_of(D, calls, loc), Fraction(len(tr)), Fraction(s))
            K, Z, O = [], [], []
            for i, eb in enumerate(tr):
                e, bd = eb
                w = e.where()
                x = arg(D, m, eb, 0, "ode_input_perturbation")
                if not isinstance(x, dict):
                    raise Undecided("stage input object")
                need("stage step input perturbation", w, x["step_input"], dy0)
                acc = [Fraction(0)] * n
                for j in range(i):
                    acc = _add(acc, _mul(A[i][j], K[j]))
                need("stage input perturbation is sum_{j<i} a_ij dk_j", w, vec(x["stage_input"], n), acc)
                need("stage independent input perturbation", w, x["independent_input"], du)
                need("stage time perturbation", w, x["time"], dt0)
                need("linearization point of this stage", w, x["linearization_point"], LP[i])
                need("stage step size", w, arg(D, m, eb, 1, "step_size"), h)
                need("stage factor is a_ii", w, arg(D, m, eb, 2, "stage_factor"), A[i][i])
                at = lambda nm: m.ev(mk("attr", e.res, nm), bd)
                K.append(at("stage_update"))
                Z.append(at("stage_state"))
                O.append(at("independent_output"))
            need("stage_updates perturbation", loc, m(f["stage_updates"]), K)
            need("stage_states perturbation", loc, m(f["stage_states"]), Z)
            need("stage output perturbations", loc, m(f["stage_independent_outputs"]), O)
            need("final_time perturbation", loc, vec(m(f["final_time"]), 1), [dt0])
            need("start_time perturbation", loc, vec(m(f["start_time"]), 1), [dt0])
            need("start_state perturbation", loc, m(f["start_state"]), dy0)
            need("independent input perturbation kept", loc, m(f["independent_inputs"]), du)
            y1 = dy0
            for i in range(s):
                y1 = _add(y1, _mul(h * b[i], K[i]))
            need("final_state perturbation is dy + h sum b_i dk_i", loc, vec(m(f["final_state"]), n), y1)

        decide(R, D, "linearised step", model, n=160)
        unchanged(R, D, loc)


def unchanged(R, D, loc):
    """the linear modes leave the primal state alone"""
    for k, v in D.fields(D.S).items():
        if v.op == "aref":
            R.same(f"primal state {k} untouched", D.val(v), T.mk("sym", f"S.{k}"), loc, dims=D.dims)


def reverse(R, root, embedded):
    cname = "StageOrderedEmbeddedRungeKuttaDiscretization" if embedded else "StageOrderedRungeKuttaDiscretization"
    with R.group(cname + ".compute_step_adjoint_derivative"):
        D = run_step(R, root, embedded, "compute_step_adjoint_derivative")
        if D.out is None:
            return
        loc = anchor_loc(D, cname, "compute_step_adjoint_derivative")
        calls = [e for e in D.effs if e.kind == "call" and e.name == "compute_update_adjoint_derivative"]
        f = {k: D.field(D.out, k) for k in STATE_FIELDS}
        ps = lambda k: T.mk("sym", f"P.{k}")

        def model(m):
            s, n, q = int(m(D.s)), int(m(D.n)), int(m(D.q))
            A, b, h = m(D.A), m(D.b), m(D.h)
            LP = m(T.mk("sym", "S.linearization_points"))
            ft, fy, iu = m(ps("final_time"))[0], m(ps("final_state")), m(ps("independent_inputs"))
            tr = expand(m, calls)
            need("one adjoint solve per stage", loc_of(D, calls, loc), Fraction(len(tr)), Fraction(s))
            sy, su, stt = fy, iu, ft
            SB = [_mul(h * b[i], fy) for i in range(s)]
            for k, eb in enumerate(tr):
                i = s - 1 - k
                e, bd = eb
                w = e.where()
                x = arg(D, m, eb, 0, "ode_result_perturbation")
                if not isinstance(x, dict):
                    raise Undecided("stage result object")
                need("stages are reversed: linearization point", w, x["linearization_point"], LP[i])
                need("stage update seed is h b_i ybar + sum_{j>i} a_ji lbar_j", w, vec(x["stage_update"], n), SB[i])
                need("stage state seed is zero", w, vec(x["stage_state"], n), [Fraction(0)] * n)
                need("stage output seed is zero", w, vec(x["independent_output"], q), [Fraction(0)] * q)
                need("stage step size", w, arg(D, m, eb, 1, "step_size"), h)
                need("stage factor is a_ii", w, arg(D, m, eb, 2, "stage_factor"), A[i][i])
                at = lambda nm: m.ev(mk("attr", e.res, nm), bd)
                sy = _add(sy, at("step_input"))
                su = _add(su, at("independent_input"))
                stt = stt + at("time")
                for j in range(i):
                    SB[j] = _add(SB[j], _mul(A[i][j], at("stage_input")))
            need("final_state adjoint", loc, vec(m(f["final_state"]), n), sy)
            need("start_state adjoint", loc, vec(m(f["start_state"]), n), sy)
            need("independent input adjoint accumulates", loc, vec(m(f["independent_inputs"]), len(su)), su)
            need("time adjoint", loc, vec(m(f["final_time"]), 1), [stt])

        decide(R, D, "transposed step", model, n=160)
        unchanged(R, D, loc)


def time_same(R, D, label, got, want, loc):
    """a time, held as a number or as an array of one entry"""

    def model(m):
        need(label, loc, vec(m(got), 1), vec(m(want), 1))

    decide(R, D, label, model)


def starting(R, root, embedded):
    """starting and finalization schemes: plain transfers and their transposes"""
    cname = "StageOrderedEmbeddedRungeKuttaDiscretization" if embedded else "StageOrderedRungeKuttaDiscretization"

    def setup():
        D = Drive(root)
        D.sizes()
        D.od = D.ode()
        D.disc = D.new(cname, D.tableau(embedded))
        D.h = D.scalar("h")
        return D

    def sv(D, p, cls="TimeDiscretizationStartingValues"):
        kw = dict(initial_time=D.scalar(p + ".t"), initial_values=D.array(p + ".y", D.n), independent_inputs=D.array(p + ".u", D.p))
        return D.new(cls, **kw)

    def fv(D, p):
        return D.new("TimeDiscretizationFinalizationValues", final_time=D.scalar(p + ".t"), final_values=D.array(p + ".y", D.n), final_independent_outputs=D.array(p + ".o", D.q))

    sy = lambda n: T.mk("sym", n)
    with R.group(cname + ".starting"):
        D = setup()
        loc = anchor_loc(D, cname, "time_discretization_starting_scheme")
        o = D.call(D.disc, "time_discretization_starting_scheme", D.od, sv(D, "V"), D.h)
        R.absorb(D.E)
        for fld, want in (("final_time", sy("V.t")), ("final_state", sy("V.y")), ("independent_inputs", sy("V.u"))):
            R.same(f"start {fld}", T.item(D.field(o, fld), (ZERO,)) if fld == "final_time" else D.field(o, fld), want, loc, dims=D.dims)
        R.same("start recorded step size", T.item(D.field(o, "step_size"), (ZERO,)), sy("h"), loc, dims=D.dims)
        D = setup()
        loc = anchor_loc(D, cname, "time_discretization_starting_scheme_derivative")
        o = D.call(D.disc, "time_discretization_starting_scheme_derivative", D.od, sv(D, "V"), sv(D, "W"), D.h)
        for fld, want in (("final_time", sy("W.t")), ("final_state", sy("W.y")), ("independent_inputs", sy("W.u"))):
            R.same(f"start derivative {fld}", T.item(D.field(o, fld), (ZERO,)) if fld == "final_time" else D.field(o, fld), want, loc, dims=D.dims)
        D = setup()
        loc = anchor_loc(D, cname, "time_discretization_starting_scheme_adjoint_derivative")
        P = D.rk_state("P", embedded)
        o = D.call(D.disc, "time_discretization_starting_scheme_adjoint_derivative", D.od, sv(D, "V"), P, D.h)
        time_same(R, D, "start adjoint initial_time", D.field(o, "initial_time"), sy("P.final_time"), loc)
        for fld, want in (("initial_values", "P.final_state"), ("independent_inputs", "P.independent_inputs")):
            R.same(f"start adjoint {fld}", D.field(o, fld), sy(want), loc, dims=D.dims)
    with R.group(cname + ".finalization"):
        D = setup()
        loc = anchor_loc(D, cname, "time_discretization_finalization_scheme")
        o = D.call(D.disc, "time_discretization_finalization_scheme", D.od, D.rk_state("S", embedded), D.h)
        time_same(R, D, "final final_time", D.field(o, "final_time"), sy("S.final_time"), loc)
        for fld, want in (("final_values", "S.final_state"), ("final_independent_outputs", "S.final_independent_outputs")):
            R.same(f"final {fld}", D.field(o, fld), sy(want), loc, dims=D.dims)
        D = setup()
        loc = anchor_loc(D, cname, "time_discretization_finalization_scheme_derivative")
        o = D.call(D.disc, "time_discretization_finalization_scheme_derivative", D.od, D.rk_state("S", embedded), D.rk_state("P", embedded), D.h)
        time_same(R, D, "final derivative final_time", D.field(o, "final_time"), sy("P.final_time"), loc)
        for fld, want in (("final_values", "P.final_state"), ("final_independent_outputs", "P.final_independent_outputs")):
            R.same(f"final derivative {fld}", D.field(o, fld), sy(want), loc, dims=D.dims)
        D = setup()
        loc = anchor_loc(D, cname, "time_discretization_finalization_scheme_adjoint_derivative")
        o = D.call(D.disc, "time_discretization_finalization_scheme_adjoint_derivative", D.od, D.rk_state("S", embedded), fv(D, "W"), D.h)
        R.same("final adjoint final_time", T.item(D.field(o, "final_time"), (ZERO,)), sy("W.t"), loc, dims=D.dims)
        for fld, want in (("final_state", "W.y"), ("final_independent_outputs", "W.o")):
            R.same(f"final adjoint {fld}", D.field(o, fld), sy(want), loc, dims=D.dims)
        for fld in ("independent_inputs", "stage_updates", "stage_states", "start_state"):
            v = D.field(o, fld)
            R.same(f"final adjoint {fld} starts at zero", v, ZERO, loc, dims=D.dims)


def c01(R, root):
    for emb in (False, True):
        primal(R, root, emb)
    with R.group("start"):
        starting(R, root, False)


def c02(R, root):
    for emb in (False, True):
        forward(R, root, emb)
        starting(R, root, emb)


def c03(R, root):
    for emb in (False, True):
        reverse(R, root, emb)
        starting(R, root, emb)
