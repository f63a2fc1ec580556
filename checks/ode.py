"""C14, C15: the stage problem as a discretized ODE."""

from __future__ import annotations

from fractions import Fraction

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Reject, Undecided
from sa.report import Anchor
from sa.terms import FALSE, NONE, ONE, TRUE, ZERO, const, mk
from sa.trace import expand
from .rk import Bad, anchor_loc, decide, need

CLS = "OpenMDAOODE"
TWO = const(2)
STUBS = {"sa_om_model": "om_model.py"}


class Ode:
    """OpenMDAOODE around a modelled stage problem"""

    def __init__(self, root, time=True, indep=True, subsystems=3, dist=(), local="abduv", names=(), **extra):
        D = self.D = Drive(root, stubs=STUBS)
        E = self.E = D.E
        na, nb, nd, pu, pv, nz = (D.dim(x) for x in ("n_a", "n_b", "n_d", "n_u", "n_v", "n_internal"))
        # name, shape, has inputs, local, lo, hi
        self.tq, self.iq, at = [], [], ZERO
        for n, sh, inp in (("a", lambda: (na,), True), ("c", lambda: (D.dim("n_c"),), True), ("b", lambda: (nb, TWO), False), ("d", lambda: (nd, TWO), True)):
            if n in local:
                sh = sh()
                hi = T.add(at, sh[0] if len(sh) == 1 else T.mul(*reversed(sh)))
                self.tq.append((n, sh, inp, True, at, hi))
                at = hi
            else:
                self.tq.append((n, (ZERO,), False, False, ZERO, ZERO))
        if names:  # other names, e.g. one being part of another
            self.tq = [(dict(names).get(q[0], q[0]),) + q[1:] for q in self.tq]
        self.n, at = at, ZERO
        for n, sh in (("u", lambda: (pu,)), ("w", lambda: (D.dim("n_w"),)), ("v", lambda: (pv, TWO))) if indep else ():
            if n in local:
                sh = sh()
                hi = T.add(at, sh[0] if len(sh) == 1 else T.mul(*reversed(sh)))
                self.iq.append((n, sh, True, at, hi))
                at = hi
            else:
                self.iq.append((n, (ZERO,), False, ZERO, ZERO))
        self.p = at
        self.time, self.dist = time, set(dist)
        self.src, self.fin = {}, {}
        if time:
            self.src["t"] = (ONE,)
        for n, sh, inp, loc, *_ in self.tq:
            if loc:
                self.fin[n + "_stage"] = sh
                if inp:
                    self.src[n + "_acc"] = sh
                    self.src[n + "_old"] = sh
        for n, sh, loc, *_ in self.iq:
            if loc:
                self.src[n + "_in"] = sh
        names = list(self.src)
        self.inputs = {n: self.src[n] for n in sorted(names)}
        self.inputs["hidden_input"] = (nz,)
        self.outputs = {**{"src." + n: self.src[n] for n in names[::-1]}, **self.fin, "internal": (nz,)}
        self.subs = [T.sym(f"subsystem{k}") for k in range(subsystems)]
        self.problem = T.sym("problem")
        self.hooks()
        self.vec = {k: self.vector(k, parts) for k, parts in (("inputs", self.inputs), ("outputs", self.outputs), ("residuals", self.outputs), ("d_inputs", self.inputs), ("d_outputs", self.outputs), ("d_residuals", self.outputs))}
        self.jac = D.array("jacobian0", ONE)
        lst = lambda xs: E.new_list(mk("tuple", tuple(const(x) for x in xs)), D.st)
        kw = {}
        if indep:
            kw["independent_input_quantities"] = lst([q[0] for q in self.iq])
        for k, v in extra.items():
            kw[k] = lst(v) if isinstance(v, (list, tuple)) else v
        self.o = D.new(CLS, self.problem, lst([q[0] for q in self.tq]), **kw)

    # ------------------------------------------------------------------ model

    def vector(self, name, parts):
        D, E = self.D, self.E
        at, ps = ZERO, []
        for n, sh in parts.items():
            size = sh[0] if len(sh) == 1 else T.mul(*sh)
            ps.append((const(n), mk("tuple", (at, T.add(at, size), mk("tuple", sh)))))
            at = T.add(at, size)
        flat = D.array("old." + name, at)
        return D.new("ModelVector", const("output" if "input" not in name else "input"), flat, E.new_dict(mk("dictv", tuple(ps)), D.st))

    def span(self, parts, name):
        at = ZERO
        for n, sh in parts.items():
            size = sh[0] if len(sh) == 1 else T.mul(*sh)
            if n == name:
                return at, T.add(at, size)
            at = T.add(at, size)
        raise KeyError(name)

    def metadata(self):
        D = self.D
        arr = lambda n, sh, loc, lo, hi: D.new("ArrayMetadata", shape=mk("tuple", sh), global_shape=mk("tuple", (T.add(sh[0], D.dim("elsewhere_" + n)),) + tuple(sh[1:]) if n in self.dist else sh), local=const(loc), distributed=FALSE, start_index=lo, end_index=hi, global_start_index=ZERO, global_end_index=T.sub(hi, lo))
        tl, il = [], []
        for n, sh, inp, loc, lo, hi in self.tq:
            v = lambda s: const(n + s) if loc and (inp or s == "_stage") else NONE
            tr = D.new("TimeIntegrationTranslationMetadata", step_input_var=v("_old"), accumulated_stage_var=v("_acc"), stage_output_var=v("_stage"))
            tl.append(D.new("TimeIntegrationQuantity", name=const(n), type=const("time_integration"), array_metadata=arr(n, sh, loc, lo, hi), translation_metadata=tr))
        for n, sh, loc, lo, hi in self.iq:
            tr = D.new("TimeIndependentInputTranslationMetadata", time_independent_input_var=const(n + "_in") if loc else NONE)
            il.append(D.new("TimeIndependentQuantity", name=const(n), type=const("independent_input"), array_metadata=arr(n, sh, loc, lo, hi), translation_metadata=tr))
        lst = lambda xs: self.E.new_list(mk("tuple", tuple(xs)), D.st)
        return lst(tl), lst(il)

    def with_state(self, st, fn):
        keep, self.D.st = self.D.st, st
        try:
            return fn()
        finally:
            self.D.st = keep

    def hooks(self):
        E, D = self.E, self.D
        H = E.hooks

        def extract(E, st, a, k, node):
            def build():
                tl, self.il = self.metadata()
                e = E.new_list(mk("tuple", ()), D.st)
                self.meta = D.new("TimeIntegrationMetadata", time_variable=const("t") if self.time else NONE, time_integration_array_size=self.n, time_independent_input_size=ZERO, time_integration_quantity_list=tl, time_independent_input_quantity_list=e)
                return self.meta

            return self.with_state(st, build)

        def add(E, st, a, k, node):
            st.cells[("f", self.meta.args[0], "time_independent_input_quantity_list")] = self.il
            st.cells[("f", self.meta.args[0], "time_independent_input_size")] = self.p
            return NONE

        H["extract_time_integration_metadata"] = extract
        H["add_time_independent_input_metadata"] = add

        def distribution(E, st, a, k, node):
            for f in ("time_integration_quantity_list", "time_independent_input_quantity_list"):
                for q in E.as_seq(st.cells[("f", self.meta.args[0], f)], st).args[0]:
                    n = st.cells[("f", q.args[0], "name")].args[0]
                    st.cells[("f", st.cells[("f", q.args[0], "array_metadata")].args[0], "distributed")] = const(n in self.dist)
            return NONE

        H["add_distributivity_information"] = distribution

        def systems(E, st, f, recv, a, k, node):
            nm = ["include_self", "recurse", "typ", "depth"]
            d = dict(zip(nm, a))
            d.update(k)
            E.effect(st, "call", "system_iter", recv, tuple(a), dict(k), node)
            xs = self.subs if d.get("recurse", TRUE) is TRUE else self.subs[:1]
            t = d.get("typ", NONE)
            if t is not NONE and not (t.op == "cls" and E.funcs[t].name == "UnsteadyComponentMixin"):
                xs = xs[:-1]
            return E.new_list(mk("tuple", tuple(xs)), st)

        H["ext:system_iter"] = systems
        H["ext:get_source"] = lambda E, st, f, recv, a, k, node: const("src." + a[0].args[0]) if a[0].op == "const" and isinstance(a[0].args[0], str) else None
        H["ext:get_nonlinear_vectors"] = lambda E, st, f, recv, a, k, node: mk("tuple", tuple(self.vec[x] for x in ("inputs", "outputs", "residuals")))
        H["ext:get_linear_vectors"] = lambda E, st, f, recv, a, k, node: mk("tuple", tuple(self.vec[x] for x in ("d_inputs", "d_outputs", "d_residuals")))
        H["ext:run_solve_nonlinear"] = self.h_solve
        H["ext:run_linearize"] = self.h_linearize
        H["ext:run_solve_linear"] = self.h_linear

    def flat(self, name, st):
        return self.E.materialize(self.E.deref(self.E.get(st, ("f", self.vec[name].args[0], "_flat")), st), st)

    def put(self, name, v, st, node):
        self.E.write_ref(self.E.get(st, ("f", self.vec[name].args[0], "_flat")), v, st, node)

    def exchange(self, st):
        """step size and stage factor as every unsteady component sees them"""
        out = []
        for k, s in enumerate(self.subs):
            x = self.E.get(st, ("fx", s, "om_data_exchange"))
            for f in ("step_size", "stage_factor"):
                v = self.E.get(st, ("f", x.args[0], f)) if x is not None and x.op == "obj" else None
                out.append(T.sym(f"stale.{k}.{f}", ()) if v is None else self.E.materialize(self.E.deref(v, st), st))
        return tuple(out)

    def part(self, flat, parts, name):
        lo, hi = self.span(parts, name)
        return T.item(flat, (mk("slice", lo, hi, NONE),)) if hasattr(T, "item") else None

    def h_solve(self, E, st, f, recv, a, k, node):
        flat = self.flat("outputs", st)
        vals = (flat,) + self.exchange(st)
        E.effect(st, "call", "run_solve_nonlinear", recv, vals, node=node)
        n = T.shape(self.E.get(st, ("f", self.vec["outputs"].args[0], "_flat")))
        m = T.shape(self.E.get(st, ("f", self.vec["inputs"].args[0], "_flat")))
        self.put("outputs", mk("app", "solved.outputs", tuple(n), vals), st, node)
        self.put("inputs", mk("app", "solved.inputs", tuple(m), vals), st, node)
        return NONE

    def h_linearize(self, E, st, f, recv, a, k, node):
        vals = (self.flat("inputs", st), self.flat("outputs", st)) + self.exchange(st)
        E.effect(st, "call", "run_linearize", recv, vals, node=node)
        E.write_ref(self.jac, mk("app", "linearized", (ONE,), vals), st, node)
        return NONE

    def h_linear(self, E, st, f, recv, a, k, node):
        modes = [x for x in [E.deref(x, st) for x in list(a) + list(k.values())] if x.op == "const" and x.args[0] in ("fwd", "rev") or x.op == "ite"]
        if len(modes) != 1:
            return E.unk("linear solve of unknown mode", node)
        fwd = E.compare("Eq", modes[0], const("fwd"), st)
        keys = (E.materialize(E.deref(self.jac, st), st), self.flat("inputs", st), self.flat("outputs", st)) + self.exchange(st)
        old = {n: self.flat(n, st) for n in ("d_residuals", "d_outputs")}
        E.effect(st, "call", "run_solve_linear", recv, (modes[0], T.ite(fwd, old["d_residuals"], old["d_outputs"])) + keys, node=node)
        for src, dst, nm, cond in (("d_residuals", "d_outputs", "lin:solve", fwd), ("d_outputs", "d_residuals", "linT:solve", T.lnot(fwd))):
            if cond is not FALSE:
                n = T.shape(E.get(st, ("f", self.vec[dst].args[0], "_flat")))
                new = mk("app", nm, tuple(n), keys + (old[src],))
                self.put(dst, new if cond is TRUE else T.ite(cond, new, old[dst]), st, node)
        return NONE

    def result_obj(self, tag, lp):
        D, E = self.D, self.E
        return D.new("DiscretizedODEResultState", stage_update=D.array(tag, self.n), stage_state=E.new_array(T.full(ZERO, (self.n,)), (self.n,), D.st), independent_output=E.new_array(T.full(ZERO, (ZERO,)), (ZERO,), D.st), linearization_point=lp)

    # -------------------------------------------------------------- reference

    def litter(self, tag):
        for k, v in self.vec.items():
            ref = self.E.get(self.D.st, ("f", v.args[0], "_flat"))
            self.E.write_ref(ref, T.sym(f"{tag}.{k}", tuple(T.shape(ref))), self.D.st, None)
        self.E.write_ref(self.jac, T.sym(f"{tag}.jac", (ONE,)), self.D.st, None)

    def state(self, tag):
        D = self.D
        return {"step_input": T.sym(tag + ".step_input", (self.n,)), "stage_input": T.sym(tag + ".stage_input", (self.n,)), "independent_input": T.sym(tag + ".independent_input", (self.p,)), "time": D.scalar(tag + ".time")}

    def input_obj(self, tag, lin=None):
        D, s = self.D, self.state(tag)
        kw = {k: (D.array(f"{tag}.{k}", *T.shape(v)) if k != "time" else v) for k, v in s.items()}
        if lin is not None:
            kw["linearization_point"] = lin
        return D.new("DiscretizedODEInputState", **kw)

    def spread(self, m, x, base, sign=1):
        """vector of source values for an evaluated input state; base: evaluated flat vector"""
        out = list(base)
        f = {n: (int(m(lo)), int(m(hi))) for n, (lo, hi) in ((n, self.span(self.outputs, n)) for n in self.outputs)}

        def put(n, v):
            lo, hi = f["src." + n]
            if len(v) != hi - lo:
                raise Reject("size")
            out[lo:hi] = [sign * y for y in v]

        if self.time:
            put("t", [x["time"]])
        for n, sh, inp, loc, lo, hi in self.tq:
            if loc and inp:
                put(n + "_old", x["step_input"][int(m(lo)):int(m(hi))])
                put(n + "_acc", x["stage_input"][int(m(lo)):int(m(hi))])
        for n, sh, loc, lo, hi in self.iq:
            if loc:
                put(n + "_in", x["independent_input"][int(m(lo)):int(m(hi))])
        return out

    def gather(self, m, flat):
        """stage outputs of an evaluated outputs vector, in state order"""
        out = [Fraction(0)] * int(m(self.n))
        for n, sh, inp, loc, lo, hi in self.tq:
            if loc:
                a, b = self.span(self.outputs, n + "_stage")
                out[int(m(lo)):int(m(hi))] = flat[int(m(a)):int(m(b))]
        return out

    def stage_part(self, m, v, sign=-1):
        """zero vector with signed stage updates"""
        out = [Fraction(0)] * self.size(m)
        for n, sh, inp, loc, lo, hi in self.tq:
            if loc:
                a, b = self.span(self.outputs, n + "_stage")
                out[int(m(a)):int(m(b))] = [sign * y for y in v[int(m(lo)):int(m(hi))]]
        return out

    def size(self, m, parts=None):
        parts = parts or self.outputs
        return int(m(self.span(parts, list(parts)[-1])[1]))

    def inputs_of(self, m, flat):
        """evaluated input state read from a flat vector of source values"""
        z = lambda t: [Fraction(0)] * int(m(t))
        out = {"step_input": z(self.n), "stage_input": z(self.n), "independent_input": z(self.p), "time": Fraction(0)}
        g = lambda n: flat[int(m(self.span(self.outputs, "src." + n)[0])):int(m(self.span(self.outputs, "src." + n)[1]))]
        if self.time:
            out["time"] = g("t")[0]
        for n, sh, inp, loc, lo, hi in self.tq:
            if loc and inp:
                out["step_input"][int(m(lo)):int(m(hi))] = g(n + "_old")
                out["stage_input"][int(m(lo)):int(m(hi))] = g(n + "_acc")
        for n, sh, loc, lo, hi in self.iq:
            if loc:
                out["independent_input"][int(m(lo)):int(m(hi))] = g(n + "_in")
        return out

    def content(self, m, o, f):
        v = self.E.get(self.D.st, ("f", o.args[0], f)) if o.op == "obj" else None
        if v is None:
            raise Undecided("result field " + f)
        return m(self.E.materialize(self.E.deref(v, self.D.st), self.D.st))


def pad(v, n):
    return v if isinstance(v, list) else [v] * n


def loc_of(D, name):
    return anchor_loc(D, CLS, name)


def near(m, v, rate=0.5):
    """values equal to v but for some entries that differ a little"""
    r = m.rng
    if not isinstance(v, list):
        return v + Fraction(r.choice([1, -1]), 10 ** r.choice([1, 6, 9, 13])) if r.random() < rate else v
    return [near(m, x, rate) for x in v]


def relate(m, O, pairs, rate=0.5):
    """earlier values: equal, close or unrelated to the current ones"""
    for now, before in pairs:
        c = m.rng.random()
        if c < 0.65:
            m.fixed[before] = m(now) if c < 0.3 else near(m, m(now), rate)
    m.memo.clear()


def nonlinear(R, root, warm=False, **kw):
    O = Ode(root, **kw)
    D = O.D
    O.litter("old")
    h, a = D.scalar("h"), D.scalar("a")
    if warm:
        first = D.call(O.o, "compute_update", O.input_obj("x0"), D.scalar("h0"), D.scalar("a0"))
        point = D.E.get(D.st, ("f", first.args[0], "linearization_point")) if first.op == "obj" else None
        if point is None:
            raise Anchor("linearization_point")
        kept = D.E.materialize(D.E.deref(point, D.st), D.st)
        if warm == "littered":
            O.litter("old")
    x = O.input_obj("x")
    n0 = len(D.E.effects)
    ret = D.call(O.o, "compute_update", x, h, a)
    R.absorb(D.E)
    loc = loc_of(D, "compute_update")
    effs = [e for e in D.E.effects[n0:] if e.kind == "call" and e.name == "run_solve_nonlinear"]
    keep = {k: D.E.get(D.st, ("f", x.args[0], k)) for k in ("step_input", "stage_input", "independent_input")}

    def model(m):
        if warm:
            now, then = O.state("x"), O.state("x0")
            relate(m, O, [(now[k], then[k]) for k in now] + [(h, D.scalar("h0")), (a, D.scalar("a0"))], 0.2)
            need("linearization point of an earlier stage is kept", loc, m(D.E.materialize(D.E.deref(point, D.st), D.st)), m(kept))
        s = {k: m(v) for k, v in O.state("x").items()}
        if m.rng.random() < 0.3:
            # vectors left behind by a similar stage
            m.fixed[T.mk("sym", "old.outputs")] = near(m, O.spread(m, s, m(T.mk("sym", "old.outputs"))), 0.2)
            m.memo.clear()
        tr = expand(m, effs)
        need("one nonlinear solve per stage", effs[0].where() if effs else loc, Fraction(len(tr)), Fraction(1))
        e, b = tr[0]
        ins = O.spread(m, s, [Fraction(0)] * O.size(m))
        got = m.ev(e.args[0], b)
        for n in O.outputs:
            lo, hi = (int(m(z)) for z in O.span(O.outputs, n))
            if n.startswith("src."):
                need(f"stage problem receives {n[4:]}", e.where(), got[lo:hi], ins[lo:hi])
        for k in range(len(O.subs)):
            need(f"component {k + 1} sees the step size", e.where(), m.ev(e.args[1 + 2 * k], b), m(h))
            need(f"component {k + 1} sees the stage factor", e.where(), m.ev(e.args[2 + 2 * k], b), m(a))
        vals = [m.ev(v, b) for v in e.args]
        out = m.rnd(m.apph("solved.outputs", vals), [O.size(m)])
        need("stage update is read from the solved stage problem", loc, pad(O.content(m, ret, "stage_update"), int(m(O.n))), O.gather(m, out))
        for k, v in keep.items():
            need(f"{k} is not changed", loc, m(D.E.materialize(D.E.deref(v, D.st), D.st)), s[k])

    decide(R, D, "nonlinear stage solve", model, n=30)
    R.sizes(D.E, D.dims)


def linear(R, root, mode, warm=None, **kw):
    name = "compute_update_derivative" if mode == "fwd" else "compute_update_adjoint_derivative"
    O = Ode(root, **kw)
    D = O.D
    E = D.E
    loc = loc_of(D, name)
    # the point comes from an earlier nonlinear solve
    h0, a0 = D.scalar("h0"), D.scalar("a0")
    O.litter("old")
    if warm:
        D.call(O.o, "compute_update", O.input_obj("x0"), D.scalar("h00"), D.scalar("a00"))
    pt = D.call(O.o, "compute_update", O.input_obj("x"), h0, a0)
    lp = E.get(D.st, ("f", pt.args[0], "linearization_point")) if pt.op == "obj" else None
    if lp is None:
        raise Anchor("linearization_point")
    after = {k: O.flat(k, D.st) for k in ("inputs", "outputs")}
    size = D.call(O.o, "get_linearization_point_size")
    lpv = E.materialize(E.deref(lp, D.st), D.st)
    # other solves in between
    other = D.call(O.o, "compute_update", O.input_obj("y"), D.scalar("h1"), D.scalar("a1"))
    O.litter("later")
    if warm:
        # an earlier product
        wmode, same = warm
        wlp = lp if same else E.get(D.st, ("f", other.args[0], "linearization_point"))
        wname = "compute_update_derivative" if wmode == "fwd" else "compute_update_adjoint_derivative"
        D.call(O.o, wname, O.input_obj("dx0", lin=wlp) if wmode == "fwd" else O.result_obj("dk0", wlp), D.scalar("h1"), D.scalar("a1"))
    lpv2 = E.materialize(E.deref(lp, D.st), D.st)
    h, a = D.scalar("h"), D.scalar("a")
    n0 = len(E.effects)
    if mode == "fwd":
        arg = O.input_obj("dx", lin=lp)
    else:
        arg = O.result_obj("dk", lp)
    ret = D.call(O.o, name, arg, h, a)
    R.absorb(E)
    calls = [e for e in E.effects[n0:] if e.kind == "call"]
    lin = [e for e in calls if e.name in ("run_linearize", "run_solve_linear", "run_solve_nonlinear")]

    def model(m):
        if warm:
            relate(m, O, [(h, D.scalar("h1")), (a, D.scalar("a1"))])
        elif m.rng.random() < 0.4:
            # the stage problem has been moved a little away from the point
            for k in ("inputs", "outputs"):
                m.fixed[T.mk("sym", "later." + k)] = near(m, m(after[k]), m.rng.choice([0, 0.3]))
            m.memo.clear()
        need("linearization point is a copy", loc, m(lpv2), m(lpv))
        need("size of the linearization point", loc_of(D, "get_linearization_point_size"), Fraction(len(m(lpv))), m(E.deref(size, D.st)))
        tr = expand(m, lin)
        sol = [(e, b) for e, b in tr if e.name == "run_solve_linear"]
        where = sol[0][0].where() if sol else loc
        zero = [Fraction(0)] * O.size(m)
        N = int(m(O.n))
        rhs = O.spread(m, {k: m(v) for k, v in O.state("dx").items()}, zero, -1) if mode == "fwd" else O.stage_part(m, pad(m(T.mk("sym", "dk")), N))
        xi, xo = m(after["inputs"]), m(after["outputs"])
        if sol or any(rhs):
            need("one linear solve per product", where, Fraction(len(sol)), Fraction(1))
            e, b = sol[0]
            need("mode of the linear solve", where, m.ev(e.args[0], b), mode)
            vals = [m.ev(v, b) for v in e.args[2:]]
            need("inputs are at the linearization point", where, vals[1], xi)
            need("outputs are at the linearization point", where, vals[2], xo)
            for k in range(len(O.subs)):
                need(f"component {k + 1} sees the step size", where, vals[3 + 2 * k], m(h))
                need(f"component {k + 1} sees the stage factor", where, vals[4 + 2 * k], m(a))
        else:
            vals = None  # (nothing to solve for a vanishing right-hand side)
        ex = [m(h), m(a)] * len(O.subs)
        jac = m.rnd(m.apph("linearized", [xi, xo] + ex), [1])
        if vals is not None:
            need("linearized at the requested point, step size and stage factor", where, vals[0], jac)
        keys = [jac, xi, xo] + ex
        if mode == "fwd":
            out = m.linear("lin:solve", keys, rhs)
            need("derivative of the stage update", loc, pad(O.content(m, ret, "stage_update"), N), O.gather(m, out))
        else:
            out = m.linear("linT:solve", keys, rhs)
            want = O.inputs_of(m, out)
            for k, v in want.items():
                g = O.content(m, ret, k)
                need(f"adjoint of {k}", loc, pad(g, len(v)) if isinstance(v, list) else g, v)

    decide(R, D, f"linear stage solve {mode}", model, n=30)
    R.sizes(E, D.dims)


def sizes(R, root):
    with R.group("sizes"):
        O = Ode(root)
        D = O.D
        R.absorb(D.E)
        for f, w in (("get_state_size", O.n), ("get_independent_input_size", O.p)):
            R.same(f, D.E.deref(D.call(O.o, f), D.st), w, loc_of(D, f), dims=D.dims)


VARIANTS = [dict(dist=("d", "v")), dict(time=False), dict(indep=False)]


def c14(R, root):
    for kw in VARIANTS:
        with R.group(", ".join(f"{k}={v}" for k, v in kw.items()) or "full"):
            nonlinear(R, root, **kw)
            linear(R, root, "fwd", **kw)
            linear(R, root, "rev", **kw)
    sizes(R, root)


def c15(R, root):
    for kw in VARIANTS[:1] + [dict(subsystems=1)]:
        with R.group(f"{kw.get('subsystems', 3)} unsteady components"):
            nonlinear(R, root, **kw)
            linear(R, root, "fwd", **kw)
            linear(R, root, "rev", **kw)
    with R.group("after another stage"):
        nonlinear(R, root, warm="directly", **VARIANTS[0])
        nonlinear(R, root, warm="littered", **VARIANTS[0])
    for mode in ("fwd", "rev"):
        for warm in (("fwd", True), ("rev", True), ("fwd", False), ("rev", False)):
            with R.group(f"{mode} product after a {warm[0]} product at {'the same' if warm[1] else 'another'} point"):
                linear(R, root, mode, warm=warm, **VARIANTS[0])
    R.cleared()
