"""C22: derivatives and solves of the shipped components."""

from __future__ import annotations

from fractions import Fraction

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Reject, Undecided, bcast, num
from sa.interp import Dead
from sa.report import Anchor
from sa.terms import NONE, ONE, ZERO, const, mk
from .rk import Bad, anchor_loc, decide, need

SHIPPED = ["StageValueComponent", "StageUpdateComponent", "KapsComponent1", "KapsComponent2", "SimpleLinearODE"]


def components(D):
    """component classes that provide matrix-free derivatives"""
    mix = D.cls("UnsteadyComponentMixin")
    out = []
    for m in D.pkg.modules.values():
        for n, b in m.env.items():
            if b[0] == "class" and n not in out:
                c = D.E.class_of(m, b[1])
                if mix in c.mro and (D.E.lookup(c, "compute_jacvec_product") or D.E.lookup(c, "apply_linear")):
                    out.append(n)
    return out


class Comp:
    """one component with symbolic step data and options"""

    def __init__(self, root, cname, D=None, options=None):
        D = self.D = D or Drive(root)
        E = D.E
        self.cname = cname
        D.n = D.dim("n_var")
        self.first = len(E.effects)
        self.before = {}
        self.c = D.new(cname)
        oid = self.c.args[0]
        self.dt, self.a = D.scalar("delta_t"), D.scalar("a_ii")
        x = D.new("OMDataExchange")
        for k, v in (("step_size", self.dt), ("stage_factor", self.a)):
            if E.get(D.st, ("f", x.args[0], k)) is None:
                raise Anchor("OMDataExchange." + k)
            D.st.cells[("f", x.args[0], k)] = v
        D.st.cells[("f", oid, "om_data_exchange")] = x
        # declared options
        opts = {}
        self.defaults = {}

        def declare(E, st, f, recv, args, kwargs, node):
            name = E.deref(args[0] if args else kwargs["name"], st)
            ty = kwargs.get("types")
            if name.op == "const":
                if ty is not None and "list" in T.show(ty, 50):
                    opts[name.args[0]] = E.new_list(mk("tuple", (const("qa"), const("qb"))), st)
                else:
                    opts[name.args[0]] = T.sym("option." + name.args[0], ())
                if "default" in kwargs or len(args) > 1:
                    self.defaults[name.args[0]] = E.deref(kwargs.get("default", args[-1]), st)
            return NONE

        E.hooks["ext:declare"] = declare
        if E.lookup(E.objcls[oid], "initialize"):
            D.call(self.c, "initialize")
        opts.update(options or {})
        d = E.new_dict(mk("dictv", tuple((const(k), v) for k, v in opts.items())), D.st)
        D.st.cells[("f", oid, "options")] = d
        self.opts = opts
        n0 = len(E.effects)
        D.call(self.c, "setup")
        self.ins, self.outs, self.decl = [], [], {}
        for e in E.effects[n0:]:
            if e.name in ("add_input", "add_output"):
                a = E.deref(e.args[0] if e.args else e.kwargs["name"], e.state())
                if a.op == "const":
                    (self.ins if e.name == "add_input" else self.outs).append(a.args[0])
                    self.decl[a.args[0]] = e.kwargs
        if not self.ins or not self.outs:
            raise Anchor(f"{cname} declares no variables")

    def has(self, name):
        return self.D.E.lookup(self.D.E.objcls[self.c.args[0]], name) is not None

    def loc(self, name):
        return anchor_loc(self.D, self.cname, name)

    def vec(self, name, names, zero=False):
        """OpenMDAO vector with symbolic content per variable; zero: what is added to it is of interest"""
        D = self.D
        v = T.sym(name)
        for n in names:
            x = D.array(f"{name}.{n}", D.n)
            D.E.store_sub(v, (const(n),), D.val(x), D.st, None)
            if zero:
                self.before[v, n] = D.val(x)
        return v

    def get(self, v, n):
        """content, or what was added to the content"""
        D = self.D
        x = D.val(D.E.subscript(v, (const(n),), D.st, None))
        return T.sub(x, self.before[v, n]) if (v, n) in self.before else x

    def ins_of(self, *terms):
        out = []
        for t in terms:
            for s in T.subterms(t):
                if s.op == "in" and s not in out:
                    out.append(s)
        return out


def presence(m, C, ins, absent=(), everything=False, restricted=()):
    """choose which variables are present in which vector; restricted: vectors that hold a part of their variables
    whether or not the component asks (the residual vectors always hold all)"""
    have = {}
    if not everything:
        for vecn, names in restricted:
            for n in names:
                have[vecn, n] = m.rng.random() < 0.6
    for t in ins:
        key = None
        for a in t.args:
            if isinstance(a, T.T) and a.op == "const":
                key = a.args[0]
            elif isinstance(a, T.T):
                vecn = next((s.args[0] for s in T.subterms(a) if s.op == "sym"), None)
        if key is None or vecn is None:
            raise Undecided("membership " + T.show(t, 100))
        p = (vecn, key)
        if p not in have:
            have[p] = False if vecn in absent else (True if everything else m.rng.random() < 0.6)
        m.fixed[t] = have[p]
    return have


def dot(a, b):
    a = a if isinstance(a, list) else [a]
    b = b if isinstance(b, list) else [b] * len(a)
    if len(a) == 1 and len(b) > 1:
        a = a * len(b)
    return sum((num(x) * num(y) for x, y in zip(a, b)), Fraction(0))


def basics(m, C):
    m.fixed[C.dt] = Fraction(m.rng.randint(1, 9), 8)
    m.fixed[C.a] = m.rng.choice([Fraction(0), Fraction(1), Fraction(m.rng.randint(1, 9), 8)]) if C.zero_ok else Fraction(m.rng.randint(1, 9), 8)
    for k, v in C.opts.items():
        if v.op == "sym":
            m.fixed[v] = Fraction(m.rng.randint(1, 12), 8)
    m.memo.clear()


def directional(m, C, f, at, d):
    """derivative of the values f along d at the point at (term -> values)"""
    e = Fraction(1, 10**7)

    def g(k):
        m.memo.clear()
        for t, v in at.items():
            m.fixed[t] = bcast(lambda x, y: x + k * e * y, v, d[t])
        return {n: m(t) for n, t in f.items()}

    p1, m1, p2, m2 = g(1), g(-1), g(2), g(-2)
    m.memo.clear()
    for t, v in at.items():
        m.fixed[t] = v
    return {n: bcast(lambda a, b, c, d_: (8 * (a - b) - (c - d_)) / (12 * e), p1[n], m1[n], p2[n], m2[n]) for n in f}


def close(label, where, got, want):
    gs, ws = (x if isinstance(x, list) else [x] for x in (got, want))
    if len(gs) == 1 and len(ws) > 1:
        gs = gs * len(ws)
    if len(ws) == 1 and len(gs) > 1:
        ws = ws * len(gs)
    if len(gs) != len(ws):
        raise Bad(label, where, f"sizes {len(gs)} and {len(ws)}")
    for a, b in zip(gs, ws):
        a, b = float(num(a)), float(num(b))
        if abs(a - b) > 1e-6 * max(1.0, abs(a), abs(b)):
            raise Bad(label, where, f"value {a:.10g}, required {b:.10g}")


def explicit(R, root, cname):
    with R.group(cname):
        C = Comp(root, cname)
        D = C.D
        C.zero_ok = False
        X = C.vec("inputs", C.ins)
        Y = C.vec("outputs", C.outs)
        x = {n: C.get(X, n) for n in C.ins}
        D.call(C.c, "compute", X, Y)
        f = {n: C.get(Y, n) for n in C.outs}
        dX, dY = C.vec("d_inputs", C.ins), C.vec("d_outputs", C.outs, zero=True)
        v = {n: C.get(dX, n) for n in C.ins}
        D.call(C.c, "compute_jacvec_product", X, dX, dY, const("fwd"))
        fw = {n: C.get(dY, n) for n in C.outs}
        rX, rY = C.vec("d_inputs_rev", C.ins, zero=True), C.vec("d_outputs_rev", C.outs)
        w = {n: C.get(rY, n) for n in C.outs}
        D.call(C.c, "compute_jacvec_product", X, rX, rY, const("rev"))
        rv = {n: C.get(rX, n) for n in C.ins}
        keep = {n: C.get(X, n) for n in C.ins}
        R.absorb(D.E)
        loc = C.loc("compute_jacvec_product")
        ins = C.ins_of(*fw.values(), *rv.values())

        def model(m, everything):
            basics(m, C)
            pr = presence(m, C, ins, everything=everything, restricted=[("d_inputs", C.ins)])
            # the same variables are present in both modes
            here = {("i", n): pr.get(("d_inputs", n), True) for n in C.ins}
            here.update({("o", n): pr.get(("d_outputs", n), True) for n in C.outs})
            for t in ins:
                nm = next(s.args[0] for a in t.args if a.op != "const" for s in T.subterms(a) if s.op == "sym")
                key = next(a.args[0] for a in t.args if a.op == "const")
                m.fixed[t] = here[("i" if "inputs" in nm else "o", key)]
            at = {x[n]: m(x[n]) for n in C.ins}
            zero = lambda a: bcast(lambda y: y * 0, a)
            dv = {n: m(v[n]) for n in C.ins}
            d = {x[n]: dv[n] if here[("i", n)] else zero(dv[n]) for n in C.ins}
            J = directional(m, C, f, at, d)
            for n in C.outs:
                if here[("o", n)]:
                    close(f"forward product of {n}", loc, m(fw[n]), J[n])
            dw = {n: m(w[n]) for n in C.outs}
            for n in C.ins:
                if not here[("i", n)]:
                    close(f"reverse product leaves {n} alone, which is not part of the vector", loc, m(rv[n]), zero(dv[n]))
                    continue
                d = {x[k]: dv[k] if k == n else zero(dv[k]) for k in C.ins}
                J1 = directional(m, C, f, at, d)
                lhs = sum((dot(J1[k], dw[k]) for k in C.outs if here[("o", k)]), Fraction(0))
                close(f"reverse product of {n} is the transpose", loc, dot(m(rv[n]), dv[n]), lhs)
            for n in C.ins:
                need(f"input {n} is not changed", loc, m(keep[n]), at[x[n]])

        decide(R, D, "derivatives", lambda m: model(m, True), need_models=10)
        decide(R, D, "derivatives for subsets of variables", lambda m: model(m, False), need_models=10)


def implicit(R, root, cname):
    zero = lambda a: bcast(lambda y: y * 0, a)
    with R.group(cname + " linearization"):
        C = Comp(root, cname)
        D = C.D
        C.zero_ok = True
        X, Y, Z = C.vec("inputs", C.ins), C.vec("outputs", C.outs), C.vec("residuals", C.outs)
        x, y = {n: C.get(X, n) for n in C.ins}, {n: C.get(Y, n) for n in C.outs}
        D.call(C.c, "apply_nonlinear", X, Y, Z)
        f = {n: C.get(Z, n) for n in C.outs}
        if C.has("linearize"):
            D.call(C.c, "linearize", X, Y, T.sym("partials"))
        dX, dY, dZ = C.vec("d_inputs", C.ins), C.vec("d_outputs", C.outs), C.vec("d_residuals", C.outs, zero=True)
        vi, vo = {n: C.get(dX, n) for n in C.ins}, {n: C.get(dY, n) for n in C.outs}
        D.call(C.c, "apply_linear", X, Y, dX, dY, dZ, const("fwd"))
        fw = {n: C.get(dZ, n) for n in C.outs}
        rX, rY, rZ = C.vec("d_inputs_rev", C.ins, zero=True), C.vec("d_outputs_rev", C.outs, zero=True), C.vec("d_residuals_rev", C.outs)
        w = {n: C.get(rZ, n) for n in C.outs}
        D.call(C.c, "apply_linear", X, Y, rX, rY, rZ, const("rev"))
        ri, ro = {n: C.get(rX, n) for n in C.ins}, {n: C.get(rY, n) for n in C.outs}
        R.absorb(D.E)
        loc = C.loc("apply_linear")
        ins = C.ins_of(*fw.values(), *ri.values(), *ro.values())

        def model(m, everything):
            basics(m, C)
            pr = presence(m, C, ins, everything=everything, restricted=[("d_inputs", C.ins), ("d_outputs", C.outs)])
            here = {("i", n): pr.get(("d_inputs", n), True) for n in C.ins}
            here.update({("o", n): pr.get(("d_outputs", n), True) for n in C.outs})
            here.update({("r", n): pr.get(("d_residuals", n), True) for n in C.outs})
            for t in ins:
                nm = next(s.args[0] for a in t.args if a.op != "const" for s in T.subterms(a) if s.op == "sym")
                key = next(a.args[0] for a in t.args if a.op == "const")
                m.fixed[t] = here[({"d_inp": "i", "d_out": "o", "d_res": "r"}[nm[:5]], key)]
            at = {**{x[n]: m(x[n]) for n in C.ins}, **{y[n]: m(y[n]) for n in C.outs}}
            full = {("i", n): (x[n], m(vi[n])) for n in C.ins}
            full.update({("o", n): (y[n], m(vo[n])) for n in C.outs})
            d = {t: v if here[k] else zero(v) for k, (t, v) in full.items()}
            J = directional(m, C, f, at, d)
            for n in C.outs:
                if here[("r", n)]:
                    close(f"forward product of residual {n}", loc, m(fw[n]), J[n])
            dw = {n: m(w[n]) for n in C.outs}
            for k0, (t0, v0) in full.items():
                if not here[k0]:
                    close(f"reverse product leaves {k0[1]} alone, which is not part of the vector", loc, m((ri if k0[0] == "i" else ro)[k0[1]]), zero(v0))
                    continue
                d = {t: v if k == k0 else zero(v) for k, (t, v) in full.items()}
                J1 = directional(m, C, f, at, d)
                lhs = sum((dot(J1[k], dw[k]) for k in C.outs if here[("r", k)]), Fraction(0))
                got = (ri if k0[0] == "i" else ro)[k0[1]]
                close(f"reverse product of {k0[1]} is the transpose", loc, dot(m(got), v0), lhs)

        decide(R, D, "derivatives", lambda m: model(m, True), need_models=10)
        decide(R, D, "derivatives for subsets of variables", lambda m: model(m, False), need_models=10)
    for mode in ("fwd", "rev"):
        with R.group(f"{cname} linear solve {mode}"):
            C = Comp(root, cname)
            D = C.D
            C.zero_ok = True
            if not C.has("solve_linear"):
                continue
            X, Y = C.vec("inputs", C.ins), C.vec("outputs", C.outs)
            if C.has("linearize"):
                # an earlier linearization at another point leaves no trace
                D.call(C.c, "linearize", C.vec("earlier_inputs", C.ins), C.vec("earlier_outputs", C.outs), T.sym("partials"))
                D.call(C.c, "linearize", X, Y, T.sym("partials"))
            dX = C.vec("d_inputs", C.ins)
            given = C.vec("given", C.outs)
            g = {n: C.get(given, n) for n in C.outs}
            sol = C.vec("sol", C.outs)
            back = C.vec("back", C.outs, zero=True)
            if mode == "fwd":
                D.call(C.c, "solve_linear", sol, given, const("fwd"))
                D.call(C.c, "apply_linear", X, Y, dX, sol, back, const("fwd"))
            else:
                D.call(C.c, "solve_linear", given, sol, const("rev"))
                D.call(C.c, "apply_linear", X, Y, dX, back, sol, const("rev"))
            got = {n: C.get(back, n) for n in C.outs}
            R.absorb(D.E)
            loc = C.loc("solve_linear")
            ins = C.ins_of(*got.values())

            def model(m):
                basics(m, C)
                presence(m, C, ins, absent=("d_inputs",), everything=True)
                m.memo.clear()
                for n in C.outs:
                    close(f"solve and apply are inverse ({n})", loc, m(got[n]), m(g[n]))

            decide(R, D, "linear solve", model, need_models=10)
    with R.group(cname + " nonlinear solve"):
        C = Comp(root, cname)
        D = C.D
        C.zero_ok = True
        if C.has("solve_nonlinear"):
            X, Y, Z = C.vec("inputs", C.ins), C.vec("outputs", C.outs), C.vec("residuals", C.outs)
            D.call(C.c, "solve_nonlinear", X, Y)
            D.call(C.c, "apply_nonlinear", X, Y, Z)
            f = {n: C.get(Z, n) for n in C.outs}
            R.absorb(D.E)
            loc = C.loc("solve_nonlinear")

            def model(m):
                basics(m, C)
                for n in C.outs:
                    close(f"residual {n} vanishes", loc, m(f[n]), Fraction(0))

            decide(R, D, "nonlinear solve", model, need_models=10, n=80)


def c22(R, root):
    D = Drive(root)
    names = components(D)
    for n in SHIPPED:
        if n not in names:
            raise Anchor(f"component {n} (with derivatives) not found")
    for n in names:
        C = D.cls(n)
        (implicit if D.E.lookup(C, "apply_nonlinear") else explicit)(R, root, n)
