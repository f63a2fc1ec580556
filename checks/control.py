"""C10, C24, C25: step size control, its factories, termination criteria."""

from __future__ import annotations

from fractions import Fraction

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Reject, Undecided, same
from sa.report import Anchor
from sa.terms import NONE, ONE, ZERO, const, mk
from .rk import Bad, anchor_loc, decide, need
from .states import tis

INF = float("inf")
CFG = ["tol", "lower_bound", "upper_bound", "safety_factor", "max_iter"]


def config(D, tag="", max_iter=None):
    """configuration object with symbolic entries"""
    v = {k: D.scalar(tag + k) for k in CFG}
    if max_iter is not None:
        v["max_iter"] = const(max_iter)
    return D.new("ErrorControllerConfig", **v), v


def controller(D, depth, cfg, tag="c"):
    """chain of controllers with symbolic exponents"""
    exps, c = [], None
    for k in range(depth):
        ex = {n: D.scalar(f"{tag}{k}.{n}") for n in ("alpha", "beta", "gamma", "a", "b")}
        exps.append(ex)
        if c is None:
            c = D.new("ErrorController", **ex, config=cfg)
        else:
            c = D.new("ErrorControllerDecorator", **ex, error_controller=c)
    return c, exps


def law(ex, cf, err, h, eh, sh):
    """the documented control law"""
    if err == 0:
        return None
    x = float(cf["safety_factor"]) * float(h)
    f = lambda b, e: float(b) ** float(e)
    x *= f(cf["tol"] / err, ex["alpha"]) * f(eh[0] / cf["tol"], ex["beta"]) * f(cf["tol"] / eh[1], ex["gamma"])
    if sh[0] != 0:
        x *= f(h / sh[0], ex["a"])
        if sh[1] != 0:
            x *= f(sh[0] / sh[1], ex["b"])
    return x


class Chain:
    """reference: the documented hand-over between chained controllers"""

    def __init__(self, exps, cf):
        self.exps, self.cf = exps, cf
        self.took, self.count = [False] * len(exps), [0] * len(exps)

    def own(self, k, v):
        cf = self.cf
        ok = v["err"] <= cf["tol"] or v["h"] <= cf["lower_bound"]
        x = law(self.exps[k], cf, v["err"], v["h"], v["eh"], v["sh"])
        if x is None:
            x = v["h"]
        elif any(self.exps[k].values()):
            for y in (v["h"], v["rem"], v["rem"] + v["h"], cf["lower_bound"], cf["upper_bound"]):
                if y != INF and abs(x - float(y)) <= 1e-7 * max(abs(x), abs(float(y))):
                    raise Reject("too close to a bound for rounded arithmetic")
        x = max(cf["lower_bound"], min(cf["upper_bound"], x))
        return min(v["rem"] if ok else v["rem"] + v["h"], x), ok

    def run(self, k, v):
        last = k == len(self.exps) - 1
        if k == 0:
            x, ok = self.own(0, v)
            if not ok and x >= v["h"] and last:
                return None
            return x, ok
        if not self.took[k]:
            r = self.run(k - 1, v)
            if r is not None:
                if r[1]:
                    self.count[k] = 0
                    return r
                self.count[k] += 1
                if r[0] < v["h"] and self.count[k] <= self.cf["max_iter"]:
                    return r
            self.count[k] = 0
        x, ok = self.own(k, v)
        self.took[k] = not ok
        if not ok and x >= v["h"] and last:
            return None
        return x, ok

    def __call__(self, v):
        return self.run(len(self.exps) - 1, v)


def sample(m, k, cf, mode, prev=None):
    """interesting values of one controller call"""
    r = m.rng
    F = lambda a, b: Fraction(r.randint(a, b), 8)
    h = F(2, 24)
    err = cf["tol"] * r.choice([Fraction(1, 4), Fraction(3, 4), 1, Fraction(9, 8), 2, 5])
    if mode == "reject":
        err = cf["tol"] * r.choice([Fraction(9, 8), 2, 5, 30])
        h = prev if prev is not None and r.random() < 0.8 else F(4, 24)
    if mode == "bound":
        h = cf["lower_bound"] or F(2, 24)
    rem = r.choice([F(0, 60), Fraction(100), Fraction(0), INF])
    eh = [cf["tol"] * F(1, 16), cf["tol"] * F(1, 16)]
    if r.random() < 0.12:
        eh[r.randrange(2)] = Fraction(1, 10 ** r.choice([11, 17, 25]))
    if mode == "any" and r.random() < 0.12:
        err = Fraction(1, 10 ** r.choice([11, 17, 25]))
    sh = [F(2, 24), F(2, 24)]
    z = r.random()
    if z < 0.2:
        sh[1] = Fraction(0)
    elif z < 0.35:
        sh = [Fraction(0), Fraction(0)]
    return {"h": h, "err": err, "rem": rem, "eh": eh, "sh": sh}


def one_call(D, c, k):
    """call number k of the controller with its own symbolic arguments"""
    syms = {"h": D.scalar(f"h{k}"), "err": D.scalar(f"err{k}"), "rem": D.scalar(f"rem{k}"), "eh": T.sym(f"eh{k}", (const(2),)), "sh": T.sym(f"sh{k}", (const(2),))}
    eh, sh = D.array(f"eh{k}", const(2)), D.array(f"sh{k}", const(2))
    n = len(D.raises())
    st = D.call_value(c, error_measure=syms["err"], delta_t=syms["h"], remaining_time=syms["rem"], error_history=eh, step_size_history=sh)
    out = {"sug": attr(D, st, "step_size_suggestion"), "acc": attr(D, st, "acceptance"), "eh": D.val(eh), "sh": D.val(sh), "raises": D.raises()[n:]}
    D.E.set_facts(D.st)
    return syms, out


def attr(D, o, name):
    v = D.E.attr(o, name, D.st)
    return D.E.materialize(D.E.deref(v, D.st), D.st)


def drive_chain(R, root, depth, ncalls, max_iter, label, warm=0):
    with R.group(label):
        D = Drive(root)
        loc = anchor_loc(D, "ErrorControllerDecorator" if depth > 1 else "ErrorController", "__call__")
        cfg, cv = config(D, max_iter=max_iter)
        c, exps = controller(D, depth, cfg)
        calls, before = [], []
        from sa.interp import Dead

        try:
            # calls of an earlier run
            for k in range(warm):
                before.append(one_call(D, c, 100 + k))
            D.call(c, "reset")
            for k in range(ncalls):
                calls.append(one_call(D, c, k))
        except Dead:
            R.undecided("analysis", loc, "no normal return")
            R.absorb(D.E)
            return
        R.absorb(D.E)

        def model(m):
            r = m.rng
            cf = {"tol": Fraction(r.randint(1, 20), 16), "lower_bound": r.choice([Fraction(0), Fraction(1, 16), Fraction(1, 4)]), "upper_bound": r.choice([INF, Fraction(2), Fraction(8)]), "safety_factor": r.choice([Fraction(15, 16), Fraction(3, 4), Fraction(1)]), "max_iter": Fraction(max_iter if max_iter is not None else 3)}
            ev = []
            for ex in exps:
                ev.append({n: Fraction(r.randint(-6, 8), 4) for n in ex})
                if r.random() < 0.3:
                    ev[-1]["alpha"] = Fraction(0)
            for n, t in cv.items():
                if t.op == "sym":
                    m.fixed[t] = cf[n]
            for ex, e in zip(exps, ev):
                for n in ex:
                    m.fixed[ex[n]] = e[n]
            ref, old = Chain(ev, cf), Chain(ev, cf)
            for k, (syms, out) in enumerate(before):
                v = sample(m, k, cf, "reject" if r.random() < 0.8 else "any")
                if old(v) is None:
                    raise Reject("earlier run failed")
                for n, t in syms.items():
                    m.fixed[t] = v[n]
            prev = None
            # all symbols of the sequence are fixed before anything is evaluated
            seq = []
            for k, (syms, out) in enumerate(calls):
                mode = "reject" if r.random() < 0.65 else r.choice(["any", "any", "bound"])
                v = sample(m, k, cf, mode, prev)
                if v["err"] > cf["tol"] and cf["lower_bound"] < v["h"] < cf["lower_bound"] + Fraction(1, 1000):
                    raise Reject("between the bounds")
                want = ref(v)
                seq.append((v, want))
                for n, t in syms.items():
                    m.fixed[t] = v[n]
                if want is None:
                    break
                prev = Fraction(want[0]).limit_denominator(1000) if want[0] not in (INF,) else None
                if prev is not None and prev <= 0:
                    prev = None
            m.memo.clear()
            # calls that are not reached any more
            for k in range(len(seq), len(calls)):
                for n, t in calls[k][0].items():
                    m.fixed[t] = [Fraction(1)] * 2 if n in ("eh", "sh") else Fraction(1)
            for k, ((syms, out), (v, want)) in enumerate(zip(calls, seq)):
                hit = [x for x in out["raises"] if all(m.truth(g) for g in x.st.pc)]
                if want is None:
                    if not hit:
                        raise Bad("a retry that is not smaller is refused with an error", loc, f"call {k + 1}: {show(v)} is rejected; suggestion {m(out['sug'])}")
                    return
                if hit:
                    raise Bad("no error when the suggestion is usable", loc, f"call {k + 1}: {show(v)}; required {want}")
                need(f"acceptance", loc, m.tv(m(out["acc"])), bool(want[1]))
                got = m(out["sug"])
                if v["err"] == 0:
                    continue
                if not same(got, want[0]):
                    raise Bad("suggested step size", loc, f"call {k + 1}: {show(v)}, config {show(cf)}, exponents {[show(e) for e in ev]}: {got}, required {want[0]}")
                need("error history is not changed", loc, m(out["eh"]), v["eh"])
                need("step size history is not changed", loc, m(out["sh"]), v["sh"])

        decide(R, D, "control law, bounds and retries", model, need_models=60, n=300)


def show(d):
    return "{" + ", ".join(f"{k}: {float(v) if isinstance(v, (int, Fraction, float)) else [float(x) for x in v]:.5g}" if not isinstance(v, list) else f"{k}: {[float(x) for x in v]}" for k, v in d.items()) + "}"


def zero_error(R, root):
    """an error measure of zero never fails and stays inside the bounds"""
    with R.group("ErrorController.__call__[zero error]"):
        D = Drive(root)
        loc = anchor_loc(D, "ErrorController", "__call__")
        cfg, cv = config(D)
        c, exps = controller(D, 1, cfg)
        D.call(c, "reset")
        h, rem = D.scalar("h"), D.scalar("rem")
        st = D.call_value(c, error_measure=ZERO, delta_t=h, remaining_time=rem, error_history=D.array("eh", const(2)), step_size_history=D.array("sh", const(2)))
        sug, acc = attr(D, st, "step_size_suggestion"), attr(D, st, "acceptance")
        R.absorb(D.E)

        def model(m):
            r = m.rng
            vals = {cv["tol"]: Fraction(1, 8), cv["lower_bound"]: Fraction(1, 8), cv["upper_bound"]: r.choice([INF, Fraction(2)]), cv["safety_factor"]: Fraction(15, 16), h: Fraction(r.randint(1, 40), 8), rem: r.choice([Fraction(r.randint(0, 30), 8), INF])}
            m.fixed.update(vals)
            m.memo.clear()
            need("a step without error is accepted", loc, m.tv(m(acc)), True)
            x = m(sug)
            if not (x <= vals[rem] and x <= vals[cv["upper_bound"]] and (x >= vals[cv["lower_bound"]] or x == vals[rem])):
                raise Bad("suggestion within the bounds and the remaining time", loc, f"{x}")

        decide(R, D, "bounds", model)


def reset_is_fresh(R, root):
    """a controller that served an earlier run behaves like a new one after reset()"""
    drive_chain(R, root, 1, 1, None, "ErrorController after reset", warm=1)
    drive_chain(R, root, 2, 3, 1, "ErrorControllerDecorator after reset", warm=2)
    drive_chain(R, root, 3, 2, 1, "three controllers after reset", warm=2)


def c10(R, root):
    drive_chain(R, root, 1, 2, None, "ErrorController.__call__")
    zero_error(R, root)
    for mi in (0, 1, 2):
        drive_chain(R, root, 2, 4, mi, f"ErrorControllerDecorator.__call__[max_iter={mi}]")
    drive_chain(R, root, 3, 3, 1, "ErrorControllerDecorator.__call__[three controllers]")
    near_bound(R, root)


def near_bound(R, root):
    """the acceptance test has no slack beyond round-off"""
    with R.group("acceptance[boundary]"):
        D = Drive(root)
        loc = anchor_loc(D, "ErrorController", "__call__")
        cfg, cv = config(D)
        c, exps = controller(D, 1, cfg)
        syms, out = one_call(D, c, 0)
        R.absorb(D.E)

        def model(m):
            r = m.rng
            tol = Fraction(r.choice([1, 3, 50]), r.choice([1, 7, 1000000]))
            lb = r.choice([Fraction(0), Fraction(1, 8)])
            rel = r.choice([Fraction(1, 10**3), Fraction(1, 10**7), Fraction(1, 10**11)])
            sign = r.choice([-1, 0, 1])
            err = tol * (1 + sign * rel)
            h = lb + r.choice([Fraction(1, 1000), Fraction(1, 10), Fraction(0)])
            if h == 0:
                raise Reject("no step")
            m.fixed.update({cv["tol"]: tol, cv["lower_bound"]: lb, cv["upper_bound"]: INF, cv["safety_factor"]: Fraction(1), syms["h"]: h, syms["err"]: err, syms["rem"]: Fraction(10), syms["eh"]: [tol, tol], syms["sh"]: [h, h]})
            for ex in exps[0].values():
                m.fixed[ex] = Fraction(1, 4)
            m.memo.clear()
            need("accepted iff within tolerance or at the lower bound", loc, m.tv(m(out["acc"])), bool(err <= tol or h == lb))

        decide(R, D, "boundary of acceptance", model, n=150)


# ----------------------------------------------------------------------- factories

# exponents (alpha, beta, gamma, a, b) of the published controllers (Kennedy & Carpenter,
# Soederlind), as functions of the order p and the free parameters of the general families
F = Fraction
TABLE = {
    "pseudo": lambda p: (F(0), F(0), F(0), F(0), F(0)),
    "integral": lambda p: (1 / (1 + p), F(0), F(0), F(0), F(0)),
    "h0_110": lambda p: (1 / (1 + p), F(0), F(0), F(0), F(0)),
    "h_211": lambda p: (1 / (4 * p), -1 / (4 * p), F(0), F(-1, 4), F(0)),
    "h0_211": lambda p: (1 / (2 * p), -1 / (2 * p), F(0), F(-1, 2), F(0)),
    "pc": lambda p: (2 / p, 1 / p, F(0), F(1), F(0)),
    "h0_220": lambda p: (2 / p, 1 / p, F(0), F(1), F(0)),
    "pid": lambda p: (1 / (18 * p), -1 / (9 * p), 1 / (18 * p), F(0), F(0)),
    "h_312": lambda p: (1 / (8 * p), -1 / (4 * p), 1 / (8 * p), F(-3, 8), F(-1, 8)),
    "h0_312": lambda p: (1 / (4 * p), -1 / (2 * p), 1 / (4 * p), F(-3, 4), F(-1, 4)),
    "ppid": lambda p: (F(6, 20) / p, F(-1, 20) / p, F(-5, 20) / p, F(1), F(0)),
    "h_321": lambda p: (F(1, 3) / p, F(-1, 18) / p, F(-5, 18) / p, F(5, 6), F(1, 6)),
    "h0_321": lambda p: (F(5, 4) / p, F(-1, 2) / p, F(-3, 4) / p, F(1, 4), F(3, 4)),
    "h0_330": lambda p: (3 / p, 3 / p, 1 / p, F(2), F(-1)),
    "h_312_general": lambda p, var_alpha, a, b: (var_alpha / p, -2 * var_alpha / p, var_alpha / p, a, b),
    "h_321_general": lambda p, var_alpha, var_beta, a: (var_alpha / p, var_beta / p, -(var_alpha + var_beta) / p, a, 1 - a),
    "h_330_general": lambda p, var_alpha, var_beta, var_gamma: (var_alpha / p, var_beta / p, var_gamma / p, F(2), F(-1)),
}
NAMES = ("alpha", "beta", "gamma", "a", "b")


def factories(R, root):
    import inspect

    for fname, ref in TABLE.items():
        for chained in (False, True):
            with R.group(f"{fname}[{'chained' if chained else 'alone'}]"):
                D = Drive(root)
                f = D.func(fname)
                params = list(inspect.signature(ref).parameters)
                args = {n: D.scalar("arg." + n) for n in params}
                cfg, cv = config(D)
                ocfg, ov = config(D, "o.")
                base = D.new("ErrorController", alpha=D.scalar("base.alpha"), config=ocfg) if chained else None
                kw = dict(args)
                kw["config"] = cfg
                if chained:
                    kw["base"] = base
                D.st.pc = ()
                c = D.call_value(f, **kw)
                R.absorb(D.E)
                fv = D.E.funcs_by_term.get(f) if hasattr(D.E, "funcs_by_term") else None
                loc = f"src/rkopenmdao/error_controllers.py in {fname}"
                used_cfg, want_cfg = attr(D, D.E.attr(c, "config", D.st), "tol"), (ov if chained else cv)["tol"]
                got = {n: attr(D, c, n) for n in NAMES}
                cfgv = {n: attr(D, D.E.attr(c, "config", D.st), n) for n in CFG}
                wantc = ov if chained else cv

                def model(m):
                    vals = []
                    for n in params:
                        x = Fraction(m.rng.randint(1, 9)) if n == "p" else Fraction(m.rng.randint(-9, 9), 4)
                        m.fixed[args[n]] = x
                        vals.append(x)
                    m.memo.clear()
                    for n, w in zip(NAMES, ref(*vals)):
                        need(f"exponent {n}", loc, m(got[n]), w)
                    for n in CFG:
                        need(f"uses the {'tolerance and bounds of the controller it is chained to' if chained else 'given configuration'} ({n})", loc, m(cfgv[n]), m(wantc[n]))

                decide(R, D, "exponents and configuration", model)
                if chained:
                    inner = D.E.get(D.st, ("f", c.args[0], "error_controller")) if c.op == "obj" else None
                    R.holds("falls back from the given controller", inner is base, loc, T.show(inner, 100) if inner is not None else "no inner controller")


# configuration of a controller created without one: that of ErrorControllerConfig, except where a factory has its own
OWN_CONFIG = {"pseudo": {"tol": INF, "lower_bound": F(0), "upper_bound": INF, "safety_factor": F(1)}}


def default_configuration(R, root):
    import inspect

    for fname, ref in TABLE.items():
        with R.group(f"{fname} without configuration"):
            D = Drive(root)
            f = D.func(fname)
            kw = {n: D.scalar("arg." + n) for n in inspect.signature(ref).parameters}
            c = D.call_value(f, **kw)
            std = D.new("ErrorControllerConfig")
            R.absorb(D.E)
            loc = f"src/rkopenmdao/error_controllers.py in {fname}"
            got = {n: attr(D, D.E.attr(c, "config", D.st), n) for n in CFG}
            want = {n: attr(D, std, n) for n in CFG}

            def model(m):
                for n in CFG:
                    if fname not in OWN_CONFIG:
                        w = m(want[n])
                    elif n in OWN_CONFIG[fname]:
                        w = OWN_CONFIG[fname][n]
                    else:
                        continue
                    need(f"default {n}", loc, m(got[n]), w)

            decide(R, D, "default configuration", model)


def c24(R, root):
    factories(R, root)
    default_configuration(R, root)
    decorator_config(R, root)
    from .integ import controllers_built

    controllers_built(R, root)


def decorator_config(R, root):
    """constructing a chained controller directly"""
    with R.group("ErrorControllerDecorator"):
        D = Drive(root)
        loc = anchor_loc(D, "ErrorControllerDecorator", "__init__")
        cfg, cv = config(D)
        c, exps = controller(D, 3, cfg)
        R.absorb(D.E)
        o, k = c, 2
        while o is not None and o.op == "obj" and k >= 0:
            for n in NAMES:
                R.same(f"controller {k + 1}: {n}", attr(D, o, n), exps[k][n], loc)
            for n in CFG:
                R.same(f"controller {k + 1}: {n}", attr(D, D.E.attr(o, "config", D.st), n), cv[n], loc)
            o = D.E.get(D.st, ("f", o.args[0], "error_controller"))
            k -= 1


# --------------------------------------------------------------------- termination

def c25(R, root):
    with R.group("PredefinedNumberOfSteps.is_iteration_finished"):
        D = Drive(root)
        D.sizes(stages=2)
        loc = anchor_loc(D, "PredefinedNumberOfSteps", "is_iteration_finished")
        N, it = D.scalar("N"), D.scalar("it")
        c = D.new("PredefinedNumberOfSteps", N)
        S = tis(D, "S", False)
        r = D.E.materialize(D.E.deref(D.call(c, "is_iteration_finished", it, S), D.st), D.st)
        R.absorb(D.E)

        def model(m):
            n = m.rng.randint(0, 12)
            k = m.rng.choice([n - 1, n, n + 1, m.rng.randint(0, 14)])
            if k < 0:
                raise Reject("negative")
            m.fixed.update({N: Fraction(n), it: Fraction(k)})
            m.memo.clear()
            need("finished iff N steps are done", loc, m.truth(r), k >= n)

        decide(R, D, "criterion", model, n=150)
    with R.group("PredefinedFinalTime"):
        D = Drive(root)
        D.sizes(stages=2)
        loc = anchor_loc(D, "PredefinedFinalTime", "is_iteration_finished")
        Te, it, t = D.scalar("T_end"), D.scalar("it"), D.scalar("t")
        c = D.new("PredefinedFinalTime", Te)
        S = tis(D, "S", False)
        ft = mk("sym", "S.final_time")
        r = D.E.materialize(D.E.deref(D.call(c, "is_iteration_finished", it, S), D.st), D.st)
        rem = D.E.materialize(D.E.deref(D.call(c, "remaining_time", t), D.st), D.st)
        R.absorb(D.E)

        def model(m):
            e = Fraction(m.rng.randint(-20, 40), m.rng.choice([1, 7, 8]))
            d = m.rng.choice([Fraction(0), Fraction(1, 10**13), Fraction(1, 10**9), Fraction(1, 10**6), Fraction(1, 100), Fraction(2)])
            x = e + m.rng.choice([-1, 1]) * d
            m.fixed.update({Te: e, ft: [x], it: Fraction(m.rng.randint(0, 50)), t: Fraction(m.rng.randint(-9, 30), 7)})
            m.memo.clear()
            need("finished iff the end time of the step is at or after the final time", loc, bool(_one(m, m(r))), x >= e)
            need("remaining time", anchor_loc(D, "PredefinedFinalTime", "remaining_time"), m(rem), e - m.fixed[t])

        decide(R, D, "criterion", model, n=150)
    from .integ import one_step, transfers_primal

    with R.group("integrator: first step of an adaptive run"):
        transfers_primal(R, root, emb=True, adaptive=True, timed=True)
    with R.group("integrator: first step of an adaptive run without final time"):
        transfers_primal(R, root, emb=True, adaptive=True, timed=False)
    with R.group("integrator: remaining time reaches the controller"):
        one_step(R, root, "step", emb=True, adaptive=True, timed=True)


def _one(m, v):
    if isinstance(v, list):
        if len(v) != 1:
            raise Reject("array")
        return _one(m, v[0])
    return m.tv(v)
