"""C30: shipped problems and utility components compute the stage equations; reference solutions."""

from __future__ import annotations

import os
from fractions import Fraction

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Undecided, bcast, num
from sa.interp import Dead
from sa.report import Anchor
from sa.terms import NONE, ONE, ZERO, const, mk
from .comps import Comp, basics, close
from .rk import Bad, anchor_loc, decide

H = Fraction(1, 1024)


def roles(C):
    """quantity -> role -> variable, from the tags of the declared variables"""
    out = {}
    for e in C.D.E.effects[C.first:]:
        if e.name not in ("add_input", "add_output"):
            continue
        st = e.state()
        a = C.D.E.deref(e.args[0] if e.args else e.kwargs["name"], st)
        tags = e.kwargs.get("tags")
        if a.op != "const" or tags is None:
            continue
        t = C.D.E.materialize(C.D.E.deref(tags, st), st)
        items = t.args[0] if t.op in ("tuple", "list") else ()
        names = [x.args[0] for x in items if isinstance(x, T.T) and x.op == "const"]
        if "time_variable" in names:
            out.setdefault("", {})["time"] = a.args[0]
        for r, tag in (("old", "step_input_var"), ("acc", "accumulated_stage_var"), ("stage", "stage_output_var")):
            for q in names:
                if tag in names and q != tag:
                    out.setdefault(q, {})[r] = a.args[0]
    return out


def at(m, vals, f):
    m.memo.clear()
    m.fixed.update(vals)
    return m(f)


def generic(m, *terms):
    """elementwise values of the symbolic variables"""
    return {t: m(t) for t in terms}


def lin(x, d, acc, a=None, k=None):
    s = acc if k is None else bcast(lambda u, v: u + a * v, acc, k)
    return bcast(lambda u, v: u + d * v, x, s)


def ode_component(R, root, cname):
    """the stage rate solves k = f(t, old + dt (acc + a k)) for one right hand side f"""
    with R.group(cname):
        C = Comp(root, cname)
        D = C.D
        C.zero_ok = True
        X, Y = C.vec("inputs", C.ins), C.vec("outputs", C.outs)
        x = {n: C.get(X, n) for n in C.ins}
        D.call(C.c, "compute", X, Y)
        f = {n: C.get(Y, n) for n in C.outs}
        R.absorb(D.E)
        loc = C.loc("compute")
        ro = {q: r for q, r in roles(C).items() if "stage" in r and "old" in r}
        if not ro:
            raise Anchor(f"{cname} declares no time integration quantity")

        def model(m):
            basics(m, C)
            v = {n: m(t) for n, t in x.items()}
            dt, a = m.fixed[C.dt], m.fixed[C.a]
            if any(abs(float(num(y))) > 1e6 for y in v.values() if not isinstance(y, list)):
                raise Undecided("size")
            k = {q: at(m, {}, f[r["stage"]]) for q, r in ro.items()}
            new = {t: v[n] for n, t in x.items()}
            for q, r in ro.items():
                acc = v[r["acc"]] if "acc" in r else Fraction(0)
                new[x[r["old"]]] = lin(v[r["old"]], dt, acc, a, k[q])
                if "acc" in r:
                    new[x[r["acc"]]] = bcast(lambda y: y * 0, v[r["acc"]])
            for d2 in (dt, Fraction(m.rng.randint(1, 9), 16)):
                at(m, {**new, C.a: Fraction(0), C.dt: d2}, ZERO)
                for q, r in ro.items():
                    close(f"stage rate of {q} solves the stage equation", loc, k[q], m(f[r["stage"]]))

        decide(R, D, "stage equation", model, need_models=10)


def kaps_component(R, root, cname):
    """the state residual is the stage update equation; the stage residual does not depend on how the state is split"""
    with R.group(cname):
        C = Comp(root, cname)
        D = C.D
        C.zero_ok = True
        X, Y, Z = C.vec("inputs", C.ins), C.vec("outputs", C.outs), C.vec("residuals", C.outs)
        x, y = {n: C.get(X, n) for n in C.ins}, {n: C.get(Y, n) for n in C.outs}
        D.call(C.c, "apply_nonlinear", X, Y, Z)
        f = {n: C.get(Z, n) for n in C.outs}
        R.absorb(D.E)
        loc = C.loc("apply_nonlinear")
        ro = {q: r for q, r in roles(C).items() if "stage" in r and "old" in r and q in C.outs}
        if not ro:
            raise Anchor(f"{cname} declares no time integration quantity")

        def model(m):
            basics(m, C)
            vx, vy = {n: m(t) for n, t in x.items()}, {n: m(t) for n, t in y.items()}
            dt, a = m.fixed[C.dt], m.fixed[C.a]
            for q, r in ro.items():
                good = lin(vx[r["old"]], dt, vx[r["acc"]], a, vy[r["stage"]])
                close(f"the state {q} = old + dt*(accumulated + a*stage) satisfies its equation", loc, at(m, {y[q]: good}, f[q]), Fraction(0))
                bad = bcast(lambda u: u + Fraction(1, 2), good)
                v = at(m, {y[q]: bad}, f[q])
                if all(abs(float(num(u))) < 1e-6 for u in (v if isinstance(v, list) else [v])):
                    raise Bad(f"only the stage state of {q} satisfies its equation", loc, "the residual vanishes for another state")
                at(m, {y[q]: vy[q]}, ZERO)
            for q, r in ro.items():
                was = at(m, {}, f[r["stage"]])
                ch = {C.dt: dt + Fraction(1, 8), C.a: a + Fraction(1, 8), x[r["old"]]: bcast(lambda u: u + 1, vx[r["old"]]), x[r["acc"]]: bcast(lambda u: u + 1, vx[r["acc"]])}
                close(f"the rate equation of {q} depends on the stage state only", loc, at(m, ch, f[r["stage"]]), was)
                at(m, {C.dt: dt, C.a: a, x[r["old"]]: vx[r["old"]], x[r["acc"]]: vx[r["acc"]]}, ZERO)

        decide(R, D, "stage equations", model, need_models=10)


def flat(v):
    return [num(u) for y in v for u in flat(y)] if isinstance(v, list) else [num(v)]


def values(D, r):
    """content of an array, one value per element"""
    v = D.val(r)
    sh = T.shape(r)
    n = T.numval(sh[0]) if sh is not None and len(sh) == 1 else None
    return v if n is None or T.shape(v) else mk("tuple", (v,) * int(n))


class Ref:
    """reference solution of a problem class as a function of (time, initial values, initial time)"""

    def __init__(self, C, name, size):
        D = self.D = C.D
        self.t, self.t0 = D.scalar("t"), D.scalar("t0")
        self.size = size
        self.iv = [D.scalar(f"initial_{i}") for i in range(size)]
        arg = self.iv[0] if size == 0 else None
        if size == 1:
            arg = self.iv[0]
        else:
            arg = D.E.new_array(mk("tuple", tuple(self.iv)), (const(size),), D.st)
        self.f = D.val(D.call(C.c if hasattr(C, "c") else C, name, self.t, arg, self.t0))

    def at(self, m, t, iv, t0):
        m.memo.clear()
        m.fixed.update({self.t: t, self.t0: t0, **dict(zip(self.iv, iv))})
        return flat(m(self.f))

    def rate(self, m, t, iv, t0):
        p1, m1, p2, m2 = (self.at(m, t + k * H, iv, t0) for k in (1, -1, 2, -2))
        return [(8 * (a - b) - (c - d)) / (12 * H) for a, b, c, d in zip(p1, m1, p2, m2)]


def near(label, where, got, want, tol=1e-6):
    if len(got) != len(want):
        raise Bad(label, where, f"{len(got)} values, required {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        a, b = float(a), float(b)
        if abs(a - b) > tol * max(1.0, abs(a), abs(b)):
            raise Bad(label, where, f"component {i}: value {a:.10g}, required {b:.10g}")


def times(m):
    t0 = Fraction(m.rng.choice([0, 0, 1, 3, -2]), 2)
    return t0, t0 + Fraction(m.rng.randint(1, 12), 8)


def start(m, ref, t0, loc):
    """for every initial value, not only those of a smooth solution"""
    iv = [Fraction(m.rng.randint(2, 16), 4) for _ in range(ref.size)]
    near("the reference solution starts at the given initial values", loc, ref.at(m, t0, iv, t0), iv)


def reference_explicit(R, root, cname, sol, initial):
    with R.group(cname + " reference solution"):
        C = Comp(root, cname)
        D = C.D
        C.zero_ok = False
        X, Y = C.vec("inputs", C.ins), C.vec("outputs", C.outs)
        x = {n: C.get(X, n) for n in C.ins}
        D.call(C.c, "compute", X, Y)
        (q, r), = [(q, r) for q, r in roles(C).items() if "stage" in r]
        tv = roles(C).get("", {}).get("time")
        f = C.get(Y, r["stage"])
        ref = Ref(C, sol, 1)
        phi = D.val(D.call(C.c, "phi", ref.t)) if initial == "phi" else None
        default = D.val(D.call(C.c, "get_initial_values")) if initial == "phi" else None
        dsol = D.val(D.call(C.c, sol, ref.t))
        R.absorb(D.E)
        loc = anchor_loc(D, cname, sol)

        def model(m):
            basics(m, C)
            t0, t = times(m)
            m.fixed.update({ref.t: t0})
            iv = flat(at(m, {}, phi)) if phi is not None else [Fraction(m.rng.randint(-8, 8), 4)]
            start(m, ref, t0, loc)
            near("the reference solution starts at the given initial values", loc, ref.at(m, t0, iv, t0), iv)
            y, dy = ref.at(m, t, iv, t0), ref.rate(m, t, iv, t0)
            point = {x[n]: Fraction(0) for n in C.ins}
            point[x[r["old"]]] = y[0]
            if tv is not None:
                point[x[tv]] = t
            point = {k: bcast(lambda u, v: u * 0 + v, m(k), v) for k, v in point.items()}
            k = at(m, {**point, C.a: Fraction(0)}, f)
            near("the reference solution satisfies the differential equation", loc, [flat(k)[0]], dy, 1e-5)
            d0 = flat(default and m(default))[:1] if default is not None else [Fraction(1)]
            m.fixed[ref.t] = t
            near("the default reference solution starts at the default initial values at time 0", loc, flat(at(m, {}, dsol)), ref.at(m, t, d0, Fraction(0)))
            if phi is not None:
                y, dy = ref.at(m, t, d0, Fraction(0)), ref.rate(m, t, d0, Fraction(0))
                point[x[r["old"]]] = y[0]
                point = {k: bcast(lambda u, v: u * 0 + v, m(k), v) for k, v in point.items() if not isinstance(v, list)} | {k: v for k, v in point.items() if isinstance(v, list)}
                near("the default reference solution satisfies the differential equation", loc, [flat(at(m, {**point, C.a: Fraction(0)}, f))[0]], dy, 1e-5)

        decide(R, D, "reference solution", model, need_models=10)


def reference_kaps(R, root):
    with R.group("KapsGroup reference solution"):
        C1 = Comp(root, "KapsComponent1")
        D = C1.D
        eqs = []
        for cname in ("KapsComponent1", "KapsComponent2"):
            C = C1 if cname == "KapsComponent1" else Comp(root, cname, D=D)
            X, Y, Z = C.vec(cname + ".inputs", C.ins), C.vec(cname + ".outputs", C.outs), C.vec(cname + ".residuals", C.outs)
            x, y = {n: C.get(X, n) for n in C.ins}, {n: C.get(Y, n) for n in C.outs}
            D.call(C.c, "apply_nonlinear", X, Y, Z)
            ro = {q: r for q, r in roles(C).items() if "stage" in r and q in C.outs}
            eqs.append((C, x, y, ro, {n: C.get(Z, n) for n in C.outs}))
        g = D.new("KapsGroup")
        ref = Ref(g_call(D, g), "kaps_solution", 2)
        default = values(D, D.call(g, "get_initial_values"))
        dsol = D.val(D.call(g, "kaps_solution", ref.t))
        R.absorb(D.E)
        loc = anchor_loc(D, "KapsGroup", "kaps_solution")

        def model(m):
            for C, *_ in eqs:
                C.zero_ok = True
                basics(m, C)
            eps = [t for C, *_ in eqs for t in C.opts.values() if t.op == "sym"]
            t0, t = times(m)
            b = Fraction(m.rng.randint(1, 12), 6)
            iv = [b * b, b]
            if m.rng.random() < 0.3:  # the default initial values are such values
                iv, t0, t = flat(m(default)), Fraction(0), t - t0
            start(m, ref, t0, loc)
            near("the reference solution starts at the given initial values", loc, ref.at(m, t0, iv, t0), iv)
            s, ds = ref.at(m, t, iv, t0), ref.rate(m, t, iv, t0)
            names = {"y_1": 0, "y_2": 1}
            for C, x, y, ro, f in eqs:
                point = {}
                for n, tt in x.items():
                    if n in names:
                        point[tt] = s[names[n]]
                for q, r in ro.items():
                    if q not in names:
                        raise Anchor("quantities of the Kaps problem")
                    point[y[q]] = s[names[q]]
                    point[y[r["stage"]]] = ds[names[q]]
                m.memo.clear()
                point = {k: bcast(lambda u, v: u * 0 + v, m(k), v) for k, v in point.items()}
                for q, r in ro.items():
                    v = at(m, point, f[r["stage"]])
                    near(f"the reference solution satisfies the differential equation of {q}", loc, [flat(v)[0]], [Fraction(0)], 1e-5)
            d0 = flat(m(default))
            m.fixed[ref.t] = t
            near("the default reference solution starts at the default initial values at time 0", loc, flat(at(m, {}, dsol)), ref.at(m, t, d0, Fraction(0)))

        decide(R, D, "reference solution", model, need_models=10)


def g_call(D, g):
    class _G:
        pass

    o = _G()
    o.D, o.c = D, g
    return o


def utilities(R, root):
    with R.group("StageValueComponent"):
        C = Comp(root, "StageValueComponent")
        D = C.D
        C.zero_ok = True
        X, Y = C.vec("inputs", C.ins), C.vec("outputs", C.outs)
        for n in ("stage_slope", "old_value", "acc_stages"):
            if n not in C.ins:
                raise Anchor("StageValueComponent input " + n)
        x = {n: C.get(X, n) for n in C.ins}
        D.call(C.c, "compute", X, Y)
        f = C.get(Y, "stage_value")
        R.absorb(D.E)
        for tag in ("quantity", None):
            C2 = Comp(root, "StageValueComponent", options={"tag": const(tag)})
            got = roles(C2)
            want = {tag: {"old": "old_value", "acc": "acc_stages"}} if tag else {}
            R.holds("old value and accumulated stages are those of the tagged quantity", got == want, C.loc("setup"), str(got))

        def model(m):
            basics(m, C)
            close("stage value = old + dt*(accumulated + a*slope)", C.loc("compute"), m(f), lin(m(x["old_value"]), m.fixed[C.dt], m(x["acc_stages"]), m.fixed[C.a], m(x["stage_slope"])))

        decide(R, D, "stage value", model, need_models=10)
    with R.group("StageUpdateComponent"):
        C = Comp(root, "StageUpdateComponent")
        D = C.D
        C.zero_ok = False
        X, Y = C.vec("inputs", C.ins), C.vec("outputs", C.outs)
        x = {n: C.get(X, n) for n in C.ins}
        D.call(C.c, "compute", X, Y)
        f = {n: C.get(Y, n) for n in C.outs}
        R.absorb(D.E)
        ro = {q: r for q, r in roles(C).items() if "stage" in r}
        full = roles(C)
        for q in ("qa", "qb"):
            if q not in C.ins:
                raise Anchor("quantities of StageUpdateComponent")
            R.holds(f"old value, accumulated stages and stage of {q} are tagged", sorted(full.get(q, {})) == ["acc", "old", "stage"], C.loc("setup"), str(full.get(q)))
            for n in [q] + list(full.get(q, {}).values()):
                kw = C.decl[n]
                shape = T.show(kw["copy_shape"]) if "copy_shape" in kw else ""
                R.holds(f"{n} has the shape of the quantity", shape == repr(q) or n == q and kw.get("shape_by_conn") is T.TRUE, C.loc("setup"), shape)
                R.holds(f"{n} is distributed like the quantity", kw.get("distributed") is C.decl[q].get("distributed"), C.loc("setup"))
        if any(sorted(full.get(q, {})) != ["acc", "old", "stage"] for q in ("qa", "qb")):
            return

        def model(m):
            basics(m, C)
            for q, r in ro.items():
                got = m(f[r["stage"]])
                close(f"the update of {q} is the rate whose stage value is the given one", C.loc("compute"), lin(m(x[r["old"]]), m.fixed[C.dt], m(x[r["acc"]]), m.fixed[C.a], got), m(x[q]))

        decide(R, D, "stage update", model, need_models=10)


def c30(R, root):
    D = Drive(root)
    mix = D.cls("UnsteadyComponentMixin")
    utilities(R, root)
    done = []
    for m in D.pkg.modules.values():
        if not m.name.startswith("rkopenmdao.odes"):
            continue
        for n, b in m.env.items():
            if b[0] != "class" or n in done:
                continue
            c = D.E.class_of(m, b[1])
            if mix in c.mro and (D.E.lookup(c, "compute") or D.E.lookup(c, "apply_nonlinear")):
                done.append(n)
    for n in ("SimpleLinearODE", "ProtheroRobinson", "KapsComponent1", "KapsComponent2"):
        if n not in done:
            raise Anchor(f"problem component {n} not found")
    for n in done:
        D0 = Drive(root)
        (kaps_component if D0.E.lookup(D0.cls(n), "apply_nonlinear") else ode_component)(R, root, n)
    with R.group("ProtheroRobinson default"):
        C = Comp(root, "ProtheroRobinson")
        d = C.defaults.get("lambda_")
        R.holds("the stiffness is -100 by default", d is not None and T.numval(d) == -100, C.loc("initialize"), T.show(d, 50) if d is not None else "no default")
    reference_explicit(R, root, "SimpleLinearODE", "simple_linear_solution", None)
    reference_explicit(R, root, "ProtheroRobinson", "solution", "phi")
    reference_kaps(R, root)


# ------------------------------------------------------------------ study helpers (C31)


def study(root):
    D = Drive(root)
    E = D.E
    qs = E.new_list(mk("tuple", (const("qb"), const("qa"))), D.st)
    D.n = D.dim("n_steps")
    D.steps = T.sym("step_sizes", (D.n,))
    D.eps = D.scalar("stiffness")
    D.prob = D.new(
        "Problem", step_sizes=D.steps, quantities=qs, time_objective=D.scalar("t_end"), folder_path=const("data"),
        stiffness_coef=E.new_dict(mk("dictv", ((const("coef"), D.eps),)), D.st), problem=mk("ext", "user.Problem"), solution=T.sym("solution"),
    )
    D.qs = qs
    return D


def paths(R, root):
    for there in (False, True):
        for path, want in (("a/b/out.h5", "a/b"), ("out.h5", None), ("c/p.png", "c"), ("a/b.h5/data", None), ("p.png", None), ("a.b/x.txt", None), ("/d.e/out.h5", "/d.e")):
            with R.group(f"generate_path {path}" + (" in an existing directory" if there else "")):
                D = Drive(root)
                E = D.E
                asked = []

                def probe(E, st, f, recv, a, k, node):
                    asked.append(E.deref(a[0], st))
                    return const(there)

                for n in ("exists", "isdir"):
                    E.hooks["ext:" + n] = probe
                f = D.func("generate_path")
                r = D.val(D.call_value(f, const(path)))
                made = [e for e in D.effects("call") if e.name.split(".")[-1] in ("makedirs", "mkdir")]
                other = [e for e in D.effects() if e not in made and e.kind in ("call", "raise") and e.name not in ("print", "os.path.exists", "os.path.isdir", "str.rfind", "endswith", "startswith", "rfind", "find")]
                R.absorb(E)
                loc = f"{os.path.relpath(E.funcs[f].module.path, root)}:{E.funcs[f].node.lineno} in generate_path"

                def model(m):
                    if m(r) != path:
                        raise Bad("the path is returned unchanged", loc, f"returns {m(r)!r}")
                    got = []
                    for e in made:
                        if all(m.truth(g) for g in e.guard):
                            a = e.args[0] if e.args else e.recv
                            ok = e.kwargs.get("exist_ok")
                            got.append((str(m(a)).rstrip("/"), ok is not None and m(ok) is True))
                    if there and any(not ok for _, ok in got):
                        raise Bad("existing directories are kept", e.where(), f"creates {got}")
                    if not there and want is not None and [g[0] for g in got] != [want]:
                        raise Bad("the directory of the output file is created", loc, f"creates {got}, required {want}")
                    if want is None and [g for g in got if g[0] != "." or not g[1]]:
                        raise Bad("no other directory is created", e.where(), f"creates {got}")
                    for x in other:
                        if all(m.truth(g) for g in x.guard):
                            raise Undecided("effect " + x.name)

                decide(R, D, "directory", model, need_models=1, n=3)


def outcome(D, name, *args):
    """value, or None when the call ends in an exception"""
    k = len(D.E.sinks[0])
    try:
        r = D.val(D.call(D.prob, name, *args))
    except Dead:
        return None, D.E.sinks[0][k:]
    return r, D.E.sinks[0][k:]


TABS = ["Explicit Euler", "Implicit Euler", "SDIRK 2", "SDIRK 2, embedded", "Runge Kutta, 4"]
TYPES = [const("adaptive"), const("avg_homogeneous")] + [const(float(x)) for x in (1e-3, 2e-3, 4e-3, 5e-3, 1e-2, 2e-2, 4e-2, 5e-2, 1e-1)]


def files(R, root):
    seen = []
    with R.group("file paths"):
        D = study(root)
        for b in TABS:
            for ty in TYPES:
                r, _ = outcome(D, "get_file_path", const(b), ty)
                D.st.pc = ()
                seen.append((b, ty, r))
        R.absorb(D.E)
        where = anchor_loc(D, "Problem", "get_file_path")

        def model(m):
            got = {}
            for b, ty, r in seen:
                if r is None:
                    raise Bad("every kind of run has a file", where, f"{b}, {T.show(ty)} fails")
                name, path = m(r)
                if not (isinstance(name, str) and isinstance(path, str)):
                    raise Undecided("path")
                if not path.startswith("data/") or path.split("/")[-1] != name + ".h5":
                    raise Bad("the file is a .h5 file of the given name in the folder of the problem", where, f"{name!r}, {path!r}")
                if path in got:
                    raise Bad("different runs have different files", where, f"{(b, T.show(ty))} and {got[path]} share {path}")
                got[path] = (b, T.show(ty))
            groups = {}
            for path, (_, ty) in got.items():
                groups.setdefault("/".join(path.split("/")[:-1]), set()).add(ty if ty.startswith("'") else "homogeneous")
            if any(len(v) > 1 for v in groups.values()) or len(groups) != 3:
                raise Bad("adaptive, averaged and homogeneous runs have folders of their own", where, str(sorted(groups)))

        decide(R, D, "paths", model, need_models=1, n=2)
    for bad in (const("fixed"), NONE, const("Adaptive"), const("homogeneous")):
        with R.group(f"kind of run {T.show(bad)}"):
            D = study(root)
            r, ends = outcome(D, "get_file_path", const("Euler"), bad)
            R.absorb(D.E)
            kinds = {x.kind for x in ends}
            R.holds("an unknown kind of run is refused", (r is None and "raise" in kinds) or (None if r is not None and ends else False), where, "a path is returned" if r is not None else "")
    for ty in TYPES[:3]:
        for there in (True, False):
            with R.group(f"file_exists {T.show(ty)} {there}"):
                D = study(root)
                asked = []

                def probe(E, st, f, recv, a, k, node):
                    asked.append(E.deref(a[0] if a else recv, st))
                    return const(there)

                def directory(E, st, f, recv, a, k, node):
                    probe(E, st, f, recv, a, k, node)
                    return const(False)

                for n in ("isfile", "is_file", "exists"):
                    D.E.hooks["ext:" + n] = probe
                for n in ("isdir", "is_dir", "islink", "ismount"):
                    D.E.hooks["ext:" + n] = directory
                want, _ = outcome(D, "get_file_path", const("SDIRK 2"), ty)
                r, _ = outcome(D, "file_exists", const("SDIRK 2"), ty)
                R.absorb(D.E)
                w = anchor_loc(D, "Problem", "file_exists")

                def model(m):
                    if not asked:
                        raise Undecided("how existence is tested")
                    for a in asked:
                        if m(a) != m(want)[1]:
                            raise Bad("the file of the run is looked for", w, f"{m(a)!r}, required {m(want)[1]!r}")
                    if m(r) is not there:
                        raise Bad("reports whether the file exists", w, f"{m(r)} for a file that {'exists' if there else 'does not exist'}")

                decide(R, D, "existence", model, need_models=1, n=2)


def tolerance(R, root):
    for steps in ((0.001, 0.002), (0.002, 0.001, 0.05), (0.01, 0.02, 0.04, 0.1)):
        with R.group(f"compute_tolerance {len(steps)} step sizes"):
            D = study(root)
            E = D.E
            E.hooks["read_last_local_error"] = lambda E, st, args, kwargs, node: mk("app", "last_error", (), (E.deref((list(args) + list(kwargs.values()))[0], st),))
            vals = tuple(const(x) for x in steps)
            D.st.cells[("f", D.prob.args[0], "step_sizes")] = E.new_array(mk("tuple", vals), (const(len(vals)),), D.st)
            paths_ = [outcome(D, "get_file_path", const("SDIRK 2"), v)[0] for v in vals]
            r, ends = outcome(D, "compute_tolerance", const("SDIRK 2"))
            R.absorb(E)
            w = anchor_loc(D, "Problem", "compute_tolerance")
            exc = [t for t in T.subterms(r) if t.op == "exc"] if r is not None else []

            def model(m):
                if r is None:
                    raise Bad("a tolerance is computed", w, "the computation fails")
                for t in exc:
                    m.fixed[t] = False
                m.memo.clear()
                want = [num(m(mk("app", "last_error", (), (const(m(p)[1]),)))) for p in paths_]
                v = m(r)
                close("the tolerance is the average of the last local errors of the homogeneous runs", w, v, sum(want, Fraction(0)) / len(want))
                if exc:
                    m.fixed.update({t: True for t in exc})
                    m.memo.clear()
                    close("the tolerance without the homogeneous runs is 1e-6", w, bcast(lambda u: u * 10**6, m(r)), Fraction(1))

            decide(R, D, "average", model, need_models=5)


def execution(R, root):
    with R.group("execute"):
        D = study(root)
        E = D.E
        conf = {k: T.sym("user_" + k) for k in ("integration_config", "error_controller", "error_measurer", "options")}
        pc = D.new("ProblemConfig", write_file=const("out/run.h5"), **conf)
        tab = T.sym("tableau")
        made, written = [], []

        def init(E, st, f, recv, args, kwargs, node):
            if any(k == "time_stage_problem" for k in kwargs):
                made.append({k: E.deref(v, st) if v.op not in ("list", "obj") else v for k, v in kwargs.items()})
                made[-1][""] = list(map(lambda x: E.as_seq(x, st) if x.op == "list" else x, [kwargs.get("compute_callbacks", NONE)]))[0]
                made[-1]["where"] = E.loc(node)
            return None

        E.hooks["ext:__init__"] = init

        construct = E.construct

        def recorded(c, args, kwargs, st, node):
            r = construct(c, args, kwargs, st, node)
            if c.name == "OpenMDAOHDF5Callback":
                written.append((r, [E.deref(a, st) for a in list(args) + list(kwargs.values())]))
            return r

        E.construct = recorded
        n0 = len(E.effects)
        D.call(D.prob, "execute", tab, pc)
        R.absorb(E)
        w = anchor_loc(D, "Problem", "execute")
        if len(made) != 1 or len(written) != 1:
            R.undecided("one integrator and one file writer are created", w, f"{len(made)}, {len(written)}")
            return
        kw = made[0]
        want = {"butcher_tableau": tab, "integration_config": conf["integration_config"], "error_controller": conf["error_controller"], "error_measurer": conf["error_measurer"], "error_controller_options": conf["options"]}
        for k, v in want.items():
            R.holds(f"the integrator is given the {k} of the caller", kw.get(k) is v, w, f"{T.show(kw[k], 100) if k in kw else 'not given'}")
        q = kw.get("time_integration_quantities")
        qv = D.val(q) if q is not None else None
        R.holds("the integrator is given the quantities of the problem", qv is D.val(D.qs), w, T.show(qv, 100) if qv is not None else "not given")
        cbs = kw[""]
        items = cbs.args[0] if cbs.op == "tuple" else ()
        R.holds("the file writer is among the callbacks of the primal run", any(written[0][0] is x for x in items) if cbs.op == "tuple" else None, w, T.show(cbs, 200))
        vals = written[0][1]

        def model(m):
            if not vals or m(vals[0]) != "out/run.h5":
                raise Bad("the given file is written", w, f"{m(vals[0]) if vals else 'none'}")
            if len(vals) > 1 and m(vals[1]) != 1:
                raise Bad("every step is written", w, f"save interval {m(vals[1])}")

        decide(R, D, "file", model, need_models=1, n=2)
        # the order of the interactions with the two OpenMDAO problems
        eff = [e for e in E.effects[n0:]]
        inner = [e for e in eff if e.kind == "call" and e.name == "add_subsystem"]
        outer = [e for e in inner if any(x.op == "obj" and E.objcls[x.args[0]].name == "RungeKuttaIntegrator" for x in list(e.args) + list(e.kwargs.values()))]
        inner = [e for e in inner if e not in outer]
        runs = [e for e in eff if e.kind == "call" and e.name == "run_model"]
        if len(outer) != 1 or len(inner) != 1:
            R.undecided("structure of the two problems", w, f"{len(outer)}, {len(inner)}")
            return
        top = outer[0].recv.args[0] if outer[0].recv.op == "attr" else None
        stage = inner[0].recv.args[0] if inner[0].recv.op == "attr" else None
        if top is None or stage is None:
            R.undecided("structure of the two problems", w)
            return
        R.holds("the integrator integrates the stage problem", kw["time_stage_problem"] is stage, w, T.show(kw["time_stage_problem"], 100))
        comp = [e for e in eff if e.kind == "call" and "user.Problem" in (e.name, T.show(e.recv, 50))]
        ok = any(e.res is x for e in comp for x in inner[0].args) if comp else None
        R.holds("the stage problem holds the system of the problem", ok, w)
        if comp:
            R.holds("the system is created with the stiffness of the problem", dict(comp[0].kwargs) == {"coef": D.eps} and not comp[0].args, comp[0].where(), str({k: T.show(v, 50) for k, v in comp[0].kwargs.items()}))
        setups = [i for i, e in enumerate(eff) if e.kind == "call" and e.name == "setup" and e.recv is top]
        ri = [i for i, e in enumerate(eff) if e in runs]
        R.holds("the integration is run once, after the setup", len(runs) == 1 and runs[0].recv is top and len(setups) == 1 and eff.index(outer[0]) < setups[0] < ri[0] and not runs[0].guard and not runs[0].loops, w)
        sets = []
        for i, e in enumerate(eff):
            if e.kind == "write" and e.recv is not None and e.recv.op == "aref" and e.recv.args[0] is top or e.kind == "call" and e.name == "set_val" and e.recv is top:
                sets.append((i, e))
        if not setups or not ri:
            return
        want = {f"q{c}_initial": i for i, c in enumerate("ba")}
        got = {}
        for i, e in sets:
            if e.kind == "call":
                a = list(e.args) + list(e.kwargs.values())
                key, v = a[0], a[1]
            else:
                key, v = e.recv.args[1][0], e.args[0]
            got[key.args[0] if key.op == "const" else T.show(key, 60)] = (i, v, e)
        R.holds("exactly the initial values of the quantities are set", set(got) == set(want), w, str(sorted(map(str, got))))
        ivs = [e.res for e in eff if e.kind == "call" and e.name.split(".")[-1] == "get_initial_values"]
        for k, j in want.items():
            if k not in got:
                continue
            i, v, e = got[k]
            R.holds(f"{k} is set between setup and run", setups[0] < i < ri[0] and not e.guard, e.where())
            v = D.E.deref(v, D.st) if v.op == "aref" else v
            ok = v.op == "item" and v.args[0] in ivs and v.args[1] == (const(j),) if v.op == "item" else None
            R.holds(f"{k} is set to the initial value of its quantity", ok, e.where(), T.show(v, 100))


def c31(R, root):
    paths(R, root)
    files(R, root)
    tolerance(R, root)
    execution(R, root)
