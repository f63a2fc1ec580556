"""The integrator component: transfers, steps, histories, callbacks, caches (C08, C09, C11, C12, C13 and parts of others)."""

from __future__ import annotations

from fractions import Fraction

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Reject, Undecided, canon, same
from sa.interp import Dead
from sa.report import Anchor
from sa.terms import NONE, ONE, TRUE, ZERO, const, mk
from sa.trace import expand
from .ckpt import _op
from .states import TIS
from .rk import Bad, anchor_loc, decide, need

CLS = "RungeKuttaIntegrator"
STUBS = {"sa_om_model": "om_model.py", "rkopenmdao.discretized_ode.openmdao_ode": "ode_model.py"}
READS = ["final_time", "final_state", "independent_inputs"]
TWO = const(2)


class Integ:
    """integrator object set up with a modelled surrounding"""

    def __init__(self, root, emb=False, adaptive=False, timed=True, callbacks="user", controllers=("ctrl",), checkpoint_options=None, nonlocal_=False, setup=True, rank=None, indep=2, quantities=2, others=False, bare=False, stepless=()):
        D = self.D = Drive(root, stubs=STUBS)
        E = self.E = D.E
        self.emb, self.adaptive, self.timed = emb, adaptive, timed
        self.others = T.gt0(T.sym("other_processes_agree", ())) if others else None
        E.rec_default = 3
        E.rec_hook = self.too_deep
        E.arbitrary_depth = True
        st = D.st
        # sizes: one vector valued and one matrix valued quantity, likewise two independent inputs
        self.n1, self.n2, self.p1, self.p2 = (D.dim(x) for x in ("n_a", "n_b", "n_u", "n_v"))
        D.n = T.add(self.n1, T.mul(TWO, self.n2)) if quantities == 2 else self.n1
        D.p = (ZERO, self.p1, T.add(self.p1, T.mul(TWO, self.p2)))[indep]
        D.q = ZERO
        D.l, D.s = D.dim("n_lin"), D.dim("n_stages")
        self.tq = [("a", (self.n1,), ZERO, self.n1), ("b", (self.n2, TWO), self.n1, D.n)][:quantities]
        if nonlocal_ == "other":  # another process: other quantities are local
            n3 = D.dim("n_c")
            D.n = T.add(n3, T.mul(TWO, self.n2))
            self.tq = [("a", (ZERO,), ZERO, ZERO), ("c", (n3,), ZERO, n3), ("b", (self.n2, TWO), n3, D.n)]
        elif nonlocal_:
            self.tq.insert(1, ("c", (ZERO,), ZERO, ZERO))
        self.stepless = stepless  # quantities the stage problem has no step input for
        self.iq = [("u", (self.p1,), ZERO, self.p1), ("v", (self.p2, TWO), self.p1, D.p)][:indep]
        self.scheme = None
        self.hooks()
        # surrounding
        self.problem = T.sym("stage_problem")
        self.comm = T.sym("comm")
        if rank is not None:
            st.cells[("fx", self.comm, "rank")] = const(rank)
        self.h0 = D.scalar("initial_step_size")
        self.crit = D.new("ModelTimedCriterion" if timed else "ModelCriterion")
        self.config = D.new("IntegrationConfig", use_adaptive_time_stepping=const(adaptive), termination_criterion=self.crit, initial_step_size=self.h0)
        self.tab = D.tableau(emb)
        self.cbs = {m: [T.sym(f"{m}_cb{k}") for k in range(2)] for m in ("compute", "fwd", "rev")}
        lst = lambda xs: E.new_list(mk("tuple", tuple(xs)), st)
        opt = lambda d: E.new_dict(mk("dictv", tuple((const(k), v) for k, v in d.items())), st)
        if callbacks == "user":
            cb = {m: lst(v) for m, v in self.cbs.items()}
        elif callbacks == "empty":
            cb = {m: lst([]) for m in self.cbs}
        elif callbacks.startswith("only"):  # none in the other modes
            self.cbs = {m: v if m in callbacks.split() else [] for m, v in self.cbs.items()}
            cb = {m: lst(v) for m, v in self.cbs.items()}
        elif callbacks.startswith("some"):  # given for some of the modes only
            cb = {m: lst(v) if m in callbacks.split() else NONE for m, v in self.cbs.items()}
        else:
            cb = {m: NONE for m in self.cbs}
        self.cblists = cb
        E.user_objects.update(c for v in self.cbs.values() for c in v)
        self.ctrl_opts = opt({} if bare else {"config": T.sym("controller_config")})
        self.ck_opts = opt({} if bare else {"ck_option": T.sym("ck_option")})
        self.measurer = T.sym("measurer")
        self.ctrls = [mk("ext", "user." + c) for c in controllers]
        for c in controllers:
            E.hooks["ext:user." + c] = (lambda E, st, f, recv, a, k, node, c=c: self.make_controller(c, a, k, st, node))
            E.hooks["ext:" + c] = E.hooks["ext:user." + c]
        E.hooks["ext:user.checkpointing"] = E.hooks["ext:checkpointing"] = self.make_checkpointer
        self.made = []
        E.user_objects.update((self.problem, self.comm, self.measurer))
        self.options = {
            "time_stage_problem": self.problem, "butcher_tableau": self.tab, "integration_config": self.config,
            "time_integration_quantities": lst([const(q[0]) for q in self.tq]),
            "time_independent_input_quantities": lst([const(q[0]) for q in self.iq]),
            "checkpointing_type": mk("ext", "user.checkpointing"), "checkpoint_options": self.ck_opts,
            "error_controller": lst(self.ctrls), "error_controller_options": self.ctrl_opts, "error_measurer": self.measurer,
            "compute_callbacks": cb["compute"], "compute_jacvec_product_fwd_callbacks": cb["fwd"], "compute_jacvec_product_rev_callbacks": cb["rev"],
        }
        self.o = D.new(CLS)
        oid = self.o.args[0]
        st.cells[("f", oid, "options")] = opt(self.options)
        st.cells[("f", oid, "comm")] = self.comm
        self.mark = len(E.effects)
        if setup:
            D.call(self.o, "setup")
            self.set_pc = D.st.pc
            D.st.pc = ()
            self.after_setup()

    # ---------------------------------------------------------------- modelled surrounding

    def too_deep(self, E, fv, args, kwargs, st, e):
        raise Dead()

    def metadata(self):
        D = self.D
        mk_arr = lambda sh, lo, hi: D.new("ArrayMetadata", shape=mk("tuple", sh), global_shape=mk("tuple", sh), local=T.FALSE if sh == (ZERO,) else TRUE, distributed=T.FALSE, start_index=lo, end_index=hi, global_start_index=ZERO, global_end_index=T.sub(hi, lo))
        tl = []
        for n, sh, lo, hi in self.tq:
            names = [NONE, NONE] if n in self.stepless else [const(n + "_old"), const(n + "_acc")]
            tr = D.new("TimeIntegrationTranslationMetadata", step_input_var=names[0], accumulated_stage_var=names[1], stage_output_var=const(n + "_stage"))
            tl.append(D.new("TimeIntegrationQuantity", name=const(n), type=const("time_integration"), array_metadata=mk_arr(sh, lo, hi), translation_metadata=tr))
        il = []
        for n, sh, lo, hi in self.iq:
            tr = D.new("TimeIndependentInputTranslationMetadata", time_independent_input_var=const(n + "_var"))
            il.append(D.new("TimeIndependentQuantity", name=const(n), type=const("independent_input"), array_metadata=mk_arr(sh, lo, hi), translation_metadata=tr))
        lst = lambda xs: self.E.new_list(mk("tuple", tuple(xs)), D.st)
        return D.new("TimeIntegrationMetadata", time_variable=const("time"), time_integration_array_size=D.n, time_independent_input_size=D.p, time_integration_quantity_list=lst(tl), time_independent_input_quantity_list=lst(il))

    def with_state(self, st, fn):
        keep, self.D.st = self.D.st, st
        try:
            return fn()
        finally:
            self.D.st = keep

    def hooks(self):
        D, E, H = self.D, self.E, self.E.hooks
        self.odes = []

        def meta(E, st, a, k, node):
            self.odes.append(a[0])
            return self.with_state(st, self.metadata)

        H["model_metadata"] = meta
        H["model_linearization_size"] = lambda E, st, a, k, node: D.l
        H["ModelCriterion.is_iteration_finished"] = H[".is_iteration_finished"] = self.h_finished
        H["ModelTimedCriterion.remaining_time"] = H[".remaining_time"] = self.h_remaining
        H["ModelController.__call__"] = self.h_control
        H["model_create"], H["model_forward"], H["model_reverse"] = self.h_create, self.h_forward, self.h_reverse
        H["model_failure"] = lambda E, st, a, k, node: self.failing.get(a[0].args[0], T.FALSE)
        self.failing = {}
        H[".compute_step"] = self.h_step
        H[".compute_step_derivative"] = lambda E, st, a, k, node: self.h_linear("compute_step_derivative", st, a, k, node)
        H[".compute_step_adjoint_derivative"] = lambda E, st, a, k, node: self.h_linear("compute_step_adjoint_derivative", st, a, k, node)
        H["ext:get_measure"] = self.h_measure
        H["ext:get_val"] = self.h_get_val
        for w in ("before_iteration", "after_iteration"):
            H["ext:" + w] = (lambda E, st, f, recv, a, k, node, w=w: self.h_callback(w, recv, a, k, st, node))
            H["." + w] = (lambda E, st, a, k, node, w=w: self.h_callback(w, a[0], a[1:], k, st, node))
        # one process: reductions return the local value
        H["ext:allreduce"] = lambda E, st, f, recv, a, k, node: self.h_reduce((list(a) + list(k.values()))[0], a, k, st, node)
        H["ext:_vector_class"] = lambda E, st, f, recv, a, k, node: self.with_state(st, lambda: self.vector("scratch", "output"))

    def h_reduce(self, v, a, k, st, node):
        v = self.E.deref(v, st)
        self.E.effect(st, "call", "allreduce", None, (v,), node=node)
        if self.others is not None:
            # what the other processes contribute to a decision
            op = T.show((list(a[1:]) + [k[x] for x in k if x == "op"] + [NONE])[0], 200).upper()
            name = next((n for n in ("LAND", "BAND", "LOR", "BOR", "MIN", "MAX", "PROD") if n in op), None)
            if name in ("LAND", "BAND"):
                return T.land(T.truth(v), self.others)
            if name in ("LOR", "BOR"):
                return T.lor(T.truth(v), self.others)
            if name in ("MIN", "PROD"):
                return T.ite(self.others, v, ZERO)
            if name == "MAX":
                return T.ite(self.others, ONE, v)
        return v

    def mat(self, v, st):
        r = self.E.materialize(self.E.deref(v, st), st)
        if v.op == "aref" and T.shape(r) == () and r.op != "full":
            sh = T.shape(v)
            if sh:
                return T.full(r, sh)
        return r

    def args(self, names, a, k):
        d = dict(zip(names, a))
        d.update(k)
        return [d.get(n, NONE) for n in names]

    def part(self, o, f, st, node):
        """content of a field of the discretization state"""
        E = self.E
        if o.op == "obj":
            d = E.get(st, ("f", o.args[0], "discretization_state"))
            d = o if d is None else d
            v = E.get(st, ("f", d.args[0], f)) if d.op == "obj" else None
            if v is not None:
                return self.mat(v, st)
        return E.unk("state object", node)

    def core(self, o, st, node):
        """what a time integration state contributes to the continuation of a run"""
        if o.op != "obj":
            return (self.E.unk("state object", node),)
        return tuple(self.part(o, f, st, node) for f in READS) + tuple(self.mat(self.E.get(st, ("f", o.args[0], f), NONE), st) for f in self.live())

    def live(self):
        """step size data a run continues from"""
        return TIS if self.adaptive else ["step_size_suggestion"]

    def h_finished(self, E, st, a, k, node):
        _, it, s = self.args(["self", "iteration", "time_integration_state"], a, k)
        v = (self.mat(it, st),) + self.core(s, st, node)
        E.effect(st, "call", "finished", None, v, node=node)
        return T.truth(mk("app", "finished", None, v))

    def h_remaining(self, E, st, a, k, node):
        _, t = self.args(["self", "time"], a, k)
        v = (self.mat(t, st),)
        return mk("app", "remaining", (), v)

    def make_controller(self, c, a, k, st, node):
        self.E.effect(st, "call", "make_controller", const(c), tuple(a), dict(k), node)

        def build():
            D = self.D
            cfg = D.new("ErrorControllerConfig", tol=D.scalar("tol"))
            o = D.new("ModelController", cfg, D.array("controller_memory", ONE))
            D.st.cells[("f", o.args[0], "made_by")] = const(c)
            D.st.cells[("f", o.args[0], "base")] = k.get("base", NONE)
            self.made.append(o)
            return o

        return self.with_state(st, build)

    def make_checkpointer(self, E, st, f, recv, a, k, node):
        def build():
            o = self.D.new("ModelCheckpointer", *a, **k)
            self.ck = o
            return o

        E.effect(st, "call", "make_checkpointer", None, tuple(a), dict(k), node)
        return self.with_state(st, build)

    def h_control(self, E, st, a, k, node):
        nm = ["error_measure", "delta_t", "remaining_time", "error_history", "step_size_history"]
        me = a[0]
        mem = E.get(st, ("f", me.args[0], "memory"))
        vals = (self.mat(mem, st),) + tuple(self.mat(k.get(n, NONE), st) for n in nm)
        E.effect(st, "call", "control", me, vals, node=node)
        E.write_ref(mem, mk("app", "control.memory", (ONE,), vals), st, node)
        return self.with_state(st, lambda: self.D.new("ErrorControllerStatus", step_size_suggestion=mk("app", "control.suggestion", (), vals), acceptance=T.truth(mk("app", "control.acceptance", None, vals))))

    def h_measure(self, E, st, f, recv, a, k, node):
        e, s, ode = self.args(["state_error_estimate", "state", "ode"], a, k)

        def part(o):
            v = E.get(st, ("f", o.args[0], "stage_state")) if o.op == "obj" else None
            if v is None:
                return E.unk("measured state", node)
            return self.mat(v, st)

        vals = (part(e), part(s))
        E.effect(st, "call", "measure", recv, vals + (ode,), node=node)
        return mk("app", "measure", (), vals)

    def h_get_val(self, E, st, f, recv, a, k, node):
        """value of a variable of the stage problem, in the shape it has there"""
        n = (list(a) + [k.get("name", NONE)])[0]
        if recv is not self.problem or n.op != "const":
            return None
        for q, sh, *_ in self.tq + self.iq:
            if n.args[0] in (q + "_old", q + "_acc", q + "_stage", q + "_var"):
                return T.sym("stage_problem[" + n.args[0] + "]", tuple(sh))
        return None

    def h_callback(self, when, cb, a, k, st, node):
        nm = ["iteration", "time_integration_state", "ode", "discretization_scheme"]
        it, s, ode, disc = self.args(nm, a, k)
        self.E.effect(st, "call", when, cb, (self.mat(it, st), self.mat(s, st), ode, disc), node=node)
        return NONE

    def write_all(self, name, dst, vals, st, node, skip=()):
        for path, ref in self.D.leaves(dst, st=st).items():
            if ref.op == "aref" and path.split(".")[-1] not in skip:
                sh = T.shape(ref)
                self.E.write_ref(ref, mk("app", name + ":" + path, tuple(sh) if sh is not None else None, vals), st, node)

    def h_step(self, E, st, a, k, node):
        self.scheme = a[0]
        disc, ode, s, h = self.args(["self", "ode", "time_discretization_state", "step_size"], a, k)
        if s.op != "obj":
            E.unk("state of compute_step", node)
            return s
        vals = tuple(self.mat(E.get(st, ("f", s.args[0], f)), st) for f in READS) + (self.mat(h, st),)
        E.effect(st, "call", "compute_step", disc, vals + (ode,), node=node)
        old = {f: v for f, v in zip(READS + ["h"], vals)}
        self.write_all("step", s, vals, st, node, skip=("independent_inputs",))
        put = lambda f, v: self.put(s, f, v, st, node)
        put("step_size", T.full(old["h"], (ONE,)))
        put("start_time", old["final_time"])
        put("start_state", old["final_state"])
        put("final_time", T.add(old["final_time"], old["h"]))
        if self.emb:
            put("error_estimate", T.sub(self.part(s, "final_state", st, node), self.part(s, "embedded_state", st, node)))
        return s

    def put(self, s, f, v, st, node):
        ref = self.E.get(st, ("f", s.args[0], f))
        if ref is None or ref.op != "aref":
            raise Anchor("state field " + f)
        self.E.write_ref(ref, v, st, node)

    def h_linear(self, name, st, a, k, node):
        E = self.E
        self.scheme = a[0]
        disc, ode, s, p, h = self.args(["self", "ode", "time_discretization_state", "time_discretization_state_perturbation", "step_size"], a, k)
        if s.op != "obj" or p.op != "obj":
            E.unk("state of " + name, node)
            return p
        get = lambda o, f: self.mat(E.get(st, ("f", o.args[0], f)), st)
        vals = (get(s, "linearization_points"),) + tuple(get(p, f) for f in READS) + (self.mat(h, st),)
        E.effect(st, "call", name, disc, vals + (ode,), node=node)
        self.write_all(name, p, vals, st, node, skip=("independent_inputs",) if "adjoint" not in name else ())
        if "adjoint" in name:
            self.put(p, "start_state", self.part(p, "final_state", st, node), st, node)
        else:
            self.put(p, "final_time", vals[1], st, node)
            self.put(p, "start_time", vals[1], st, node)
            self.put(p, "start_state", vals[2], st, node)
        return p

    def h_create(self, E, st, a, k, node):
        E.effect(st, "call", "create_checkpointer", a[0], (), node=node)
        E.write_ref(E.get(st, ("f", a[0].args[0], "memory")), mk("num", Fraction(0)), st, node)
        return NONE

    def h_forward(self, E, st, a, k, node):
        me, s = self.args(["self", "initial_state"], a, k)
        mem = E.get(st, ("f", me.args[0], "memory"))
        vals = (self.mat(mem, st), self.control_memory(st)) + self.core(s, st, node)
        E.effect(st, "call", "iterate_forward", me, vals, node=node).raw = (s,)
        self.write_all("forward", s, vals, st, node, skip=("independent_inputs",))
        E.write_ref(mem, mk("app", "forward.memory", (ONE,), vals), st, node)
        return s

    def h_reverse(self, E, st, a, k, node):
        me, p = self.args(["self", "final_state_perturbation"], a, k)
        mem = E.get(st, ("f", me.args[0], "memory"))
        live = E.get(st, ("f", me.args[0], "state"))
        vals = (self.mat(mem, st),) + self.core(live, st, node) + tuple(self.part(p, f, st, node) for f in READS)
        E.effect(st, "call", "iterate_reverse", me, vals, node=node).raw = (p,)
        self.write_all("reverse", p, vals, st, node)
        E.write_ref(mem, mk("app", "reverse.memory", (ONE,), vals), st, node)
        return p

    def control_memory(self, st):
        if not self.made or not self.adaptive:
            return ZERO
        return self.mat(self.E.get(st, ("f", self.made[-1].args[0], "memory")), st)

    # ---------------------------------------------------------------- vectors

    def parts(self, kind):
        """name -> (lo, hi, shape) in an order of its own"""
        out, at = {}, ZERO

        def put(n, sh):
            nonlocal at
            size = sh[0] if len(sh) == 1 else T.mul(*sh)
            out[n] = (at, T.add(at, size), sh)
            at = T.add(at, size)

        if kind == "input":
            for n, sh, _, _ in self.iq[::-1]:
                put(n, sh)
            put("time_initial", (ONE,))
            for n, sh, _, _ in self.tq[::-1]:
                put(n + "_initial", sh)
        else:
            put("time_final", (ONE,))
            for n, sh, _, _ in self.tq[::-1]:
                put(n + "_final", sh)
        return out, at

    def vector(self, name, kind, zero=False, hidden=()):
        D = self.D
        pt, size = self.parts(kind)
        if zero:
            flat = self.E.new_array(T.full(ZERO, (size,)), (size,), D.st)
        else:
            flat = D.array(name, size)
        ps = self.E.new_dict(mk("dictv", tuple((const(n), mk("tuple", (lo, hi, mk("tuple", sh)))) for n, (lo, hi, sh) in pt.items())), D.st)
        return D.new("ModelVector", const(kind), flat, ps, mk("tuple", tuple(const(x) for x in hidden)))

    def flat(self, v):
        return self.D.field(v, "_flat")

    def split(self, m, kind, flat):
        """evaluated parts of an evaluated flat vector"""
        pt, _ = self.parts(kind)
        return {n: flat[int(m(lo)):int(m(hi))] for n, (lo, hi, _) in pt.items()}

    def joined(self, d, suffix, names):
        out = []
        for n, *_ in names:
            out += d[n + suffix]
        return out

    # ---------------------------------------------------------------- working state

    def after_setup(self):
        """what the integrator handed to the checkpointer"""
        D, st = self.D, self.D.st
        if getattr(self, "ck", None) is None:
            raise Anchor("setup creates no checkpointer")
        g = lambda n: self.E.get(st, ("f", self.ck.args[0], n))
        self.S, self.P = g("state"), g("state_perturbation")
        self.run_step, self.run_rev = g("run_step_func"), g("run_step_jacvec_rev_func")
        if self.S.op != "obj" or self.P.op != "obj":
            raise Undecided("state objects of the checkpointer")

    def litter(self, obj, tag):
        """arbitrary content left behind by earlier runs"""
        for path, ref in self.D.leaves(obj).items():
            if ref.op == "aref":
                sh = T.shape(ref)
                self.E.write_ref(ref, T.sym(f"{tag}.{path}", tuple(sh) if sh is not None else None), self.D.st, None)

    def content(self, m, o, st=None):
        return m(self.E.materialize(o, st or self.D.st))

    def loc(self, name):
        return anchor_loc(self.D, CLS, name)

    def other_effects(self, R, effs, known):
        for e in effs:
            if e.kind == "call" and e.name not in known and e.name not in QUIET:
                R.undecided("foreign call", e.where(), repr(e)[:200])


QUIET = {"print", "append"}


class Ref:
    """documented behaviour of a run, in a model"""

    def __init__(self, I, m):
        self.I, self.m = I, m
        self.mem0 = [Fraction(0)]

    def app(self, name, vals, *shape):
        return self.m.rnd(self.m.apph(name, vals), [int(x) for x in shape])

    def shapes(self, o, disc_only=False):
        """evaluated shapes of the fields of a state: path -> shape"""
        D, m = self.I.D, self.m
        if disc_only:
            o = D.E.get(D.st, ("f", o.args[0], "discretization_state"))
        return {p: [int(m(x)) for x in T.shape(r)] for p, r in D.leaves(o).items() if r.op == "aref"}

    def h0(self):
        return self.m(self.I.h0)

    def tol(self):
        return self.m(T.sym("tol", ()))

    def core(self, s):
        return [s[f] for f in READS] + [s[f] for f in self.I.live()]

    def prepare(self, x):
        """state at the start of a run with input parts x"""
        I = self.I
        s = {
            "final_time": list(x["time_initial"]),
            "final_state": I.joined(x, "_initial", [q for q in I.tq]),
            "independent_inputs": I.joined(x, "", I.iq),
            "step_size_history": [Fraction(0)] * 2, "error_history": [self.tol()] * 2,
        }
        h = self.h0()
        if I.adaptive and I.timed:
            h = min(h, self.app("remaining", [s["final_time"][0]]))
        s["step_size_suggestion"] = [h]
        return s

    def forward(self, s, mem=None, ctrl=None):
        I = self.I
        vals = [mem or self.mem0, (ctrl or self.mem0) if I.adaptive else Fraction(0)] + self.core(s)
        out = {p.split(".")[-1]: self.app("forward:" + p, vals, *sh) for p, sh in self.shapes(I.S).items()}
        out["independent_inputs"] = s["independent_inputs"]
        return out, self.app("forward.memory", vals, 1)

    def seeds(self, y):
        I = self.I
        return {"final_time": list(y["time_final"]), "final_state": I.joined(y, "_final", I.tq), "independent_inputs": [Fraction(0)] * int(self.m(I.D.p))}

    def reverse(self, mem, live, p):
        vals = [mem] + self.core(live) + [p[f] for f in READS]
        return {q.split(".")[-1]: self.app("reverse:" + q, vals, *sh) for q, sh in self.shapes(self.I.P).items()}

    def finished(self, it, s):
        return self.m.tv(_op(self.m, "finished", it, *self.core(s)))

    def step(self, s, h, shapes):
        vals = [s[f] for f in READS] + [h]
        out = {p: self.app("step:" + p, vals, *sh) for p, sh in shapes.items()}
        out["independent_inputs"] = s["independent_inputs"]
        out.update(step_size=[h], start_time=s["final_time"], start_state=s["final_state"], final_time=[s["final_time"][0] + h])
        if self.I.emb:
            out["error_estimate"] = [a - b for a, b in zip(out["final_state"], out["embedded_state"])]
        return out, vals

    def linear(self, name, lp, p, h, shapes):
        vals = [lp] + [p[f] for f in READS] + [h]
        out = {q: self.app(name + ":" + q, vals, *sh) for q, sh in shapes.items()}
        if "adjoint" not in name:
            out["independent_inputs"] = p["independent_inputs"]
            out.update(final_time=p["final_time"], start_time=p["final_time"], start_state=p["final_state"])
        else:
            out["start_state"] = out["final_state"]
        return out

    def run_step(self, s, ctrl=None, log=None):
        """one accepted step; log receives (event, values)"""
        I, m = self.I, self.m
        shapes = self.shapes(I.S, True)
        log = [] if log is None else log
        h, sh, eh = s["step_size_suggestion"][0], s["step_size_history"], s["error_history"]
        ctrl = ctrl or self.mem0
        for attempt in range(3):
            new, vals = self.step(s, h, shapes)
            log.append(("compute_step", vals))
            if not I.adaptive:
                return {**s, **new, "step_size_history": [h] + sh[:-1], "step_size_suggestion": [h], "error_history": eh}, ctrl
            mv = [new["error_estimate"], new["final_state"]]
            log.append(("measure", mv))
            err = self.app("measure", mv)
            rem = self.app("remaining", [new["final_time"][0]]) if I.timed else float("inf")
            cv = [ctrl, err, h, rem, eh, sh]
            log.append(("control", cv))
            ctrl = self.app("control.memory", cv, 1)
            sug = self.app("control.suggestion", cv)
            if m.tv(_op(m, "control.acceptance", *cv)):
                return {**s, **new, "step_size_history": [h] + sh[:-1], "error_history": [err] + eh[:-1], "step_size_suggestion": [sug]}, ctrl
            h = sug
        raise Reject("more than three attempts")


def vec_out(I, m, v, kind):
    return I.split(m, kind, m(I.flat(v)))


def states_equal(label, where, got, want):
    """got: evaluated TimeIntegrationState"""
    d = got["discretization_state"]
    for k, w in want.items():
        g = d[k] if k in d else got.get(k)
        g = g if isinstance(g, list) or not isinstance(w, list) or not w else [g] * len(w)
        need(f"{label} {k}", where, g, w)


def transfers_primal(R, root, litter=True, **kw):
    I = Integ(root, **kw)
    D = I.D
    X, Y = I.vector("inputs", "input"), I.vector("outputs", "output")
    if litter:
        dirty(I)
    D.call(I.o, "compute", X, Y)
    R.absorb(D.E)
    loc = I.loc("compute")

    def model(m):
        ref = Ref(I, m)
        x = I.split(m, "input", m(T.mk("sym", "inputs")))
        s = ref.prepare(x)
        out, _ = ref.forward(s)
        y = vec_out(I, m, Y, "output")
        need("final time", loc, y["time_final"], out["final_time"])
        for n, sh, lo, hi in I.tq:
            need(f"final value of {n}", loc, y[n + "_final"], out["final_state"][int(m(lo)):int(m(hi))])
        need("inputs are not changed", loc, m(I.flat(X)), m(T.mk("sym", "inputs")))

    decide(R, D, "primal run", model)


def dirty(I):
    """everything an earlier run may have left behind"""
    I.litter(I.S, "oldS")
    I.litter(I.P, "oldP")
    for o in I.made + [I.ck]:
        ref = I.E.get(I.D.st, ("f", o.args[0], "memory"))
        I.E.write_ref(ref, T.sym(f"old.memory{o.args[0]}", (ONE,)), I.D.st, None)


def plus(a, b):
    return [x + y for x, y in zip(a, b)]


def transfers_forward(R, root, litter=True, onto=False, hidden=(), **kw):
    """hidden: inputs which are not part of the product; onto: the vector holds something already"""
    I = Integ(root, **kw)
    D = I.D
    X, dX, dY = I.vector("inputs", "input"), I.vector("d_inputs", "input", hidden=hidden), I.vector("d_outputs", "output", zero=not onto)
    if litter:
        dirty(I)
    D.call(I.o, "compute_jacvec_product", X, dX, dY, const("fwd"))
    R.absorb(D.E)
    loc = I.loc("compute_jacvec_product")
    also = ", added to the given content" if onto else ""

    def model(m):
        ref = Ref(I, m)
        x = I.split(m, "input", m(T.mk("sym", "inputs")))
        dx = I.split(m, "input", m(T.mk("sym", "d_inputs")))
        dx = {n: [Fraction(0)] * len(v) if n in hidden else v for n, v in dx.items()}
        before = I.split(m, "output", m(T.mk("sym", "d_outputs"))) if onto else {n: [Fraction(0)] * len(v) for n, v in vec_out(I, m, dY, "output").items()}
        s = ref.prepare(x)
        p = {"final_time": list(dx["time_initial"]), "final_state": I.joined(dx, "_initial", I.tq), "independent_inputs": I.joined(dx, "", I.iq)}
        shapes = ref.shapes(I.P, True)
        it, ctrl = 0, None
        while not ref.finished(Fraction(it), s):
            it += 1
            if it > 4:
                raise Reject("long run")
            s, ctrl = ref.run_step(s, ctrl)
            p = ref.linear("compute_step_derivative", s["linearization_points"], p, s["step_size_history"][0], shapes)
        y = vec_out(I, m, dY, "output")
        need("derivative of the final time" + also, loc, y["time_final"], plus(before["time_final"], p["final_time"]))
        for n, sh, lo, hi in I.tq:
            need(f"derivative of the final value of {n}" + also, loc, y[n + "_final"], plus(before[n + "_final"], p["final_state"][int(m(lo)):int(m(hi))]))
        got = I.split(m, "input", m(D.E.materialize(I.flat(dX), D.st)))
        same_ = I.split(m, "input", m(T.mk("sym", "d_inputs")))
        for n in got:
            need(f"{n} of the seeds is not changed", loc, got[n], same_[n])

    decide(R, D, "forward mode run", model, need_models=4)


def transfers_reverse(R, root, litter=True, onto=False, hidden=(), **kw):
    I = Integ(root, **kw)
    D = I.D
    X, dX, dY = I.vector("inputs", "input"), I.vector("d_inputs", "input", zero=not onto, hidden=hidden), I.vector("d_outputs", "output")
    if litter:
        dirty(I)
    D.call(I.o, "compute_jacvec_product", X, dX, dY, const("rev"))
    R.absorb(D.E)
    loc = I.loc("compute_jacvec_product")
    decide(R, D, "reverse mode run", lambda m: reverse_model(I, m, "inputs", "d_outputs", dX, loc, "d_inputs" if onto else None, hidden))


def reverse_model(I, m, xname, yname, dX, loc, before=None, hidden=()):
    """before: given content of the vector the product is added to"""
    ref = Ref(I, m)
    x = I.split(m, "input", m(T.mk("sym", xname)))
    y = I.split(m, "output", m(T.mk("sym", yname)))
    s, mem = ref.forward(ref.prepare(x))
    p = ref.reverse(mem, s, ref.seeds(y))
    dx = vec_out(I, m, dX, "input")
    old = {n: [Fraction(0)] * len(v) for n, v in dx.items()} if before is None else I.split(m, "input", m(T.mk("sym", before)))

    def check(what, n, v):
        if n in hidden:
            need(f"{n} is not part of the vector and keeps its value", loc, dx[n], old[n])
        else:
            need(what + ("" if before is None else ", added to the given content"), loc, dx[n], plus(old[n], v))

    check("derivative with respect to the initial time", "time_initial", p["final_time"])
    for n, sh, lo, hi in I.tq:
        check(f"derivative with respect to the initial value of {n}", n + "_initial", p["final_state"][int(m(lo)):int(m(hi))])
    for n, sh, lo, hi in I.iq:
        check(f"derivative with respect to {n}", n, p["independent_inputs"][int(m(lo)):int(m(hi))])


STEP_EVENTS = ("compute_step", "measure", "control")
ALL_EVENTS = STEP_EVENTS + ("compute_step_derivative", "compute_step_adjoint_derivative", "before_iteration", "after_iteration", "finished")


def trace(I, m, effs, names):
    """[(name, receiver, evaluated arguments, effect)] of a run"""
    out = []
    for e, b in expand(m, [e for e in effs if e.kind == "call" and e.name in names]):
        out.append((e.name, e.recv, [a if a.op == "obj" else m.ev(a, b) for a in e.args], e))
    return out


def match(label, loc, got, want):
    """want: [(name, receiver or None, values)]; None values are not compared"""
    for k, (n, rc, vals) in enumerate(want):
        if k >= len(got):
            raise Bad(f"{label}: {n} is missing", loc, f"event {k + 1} of {len(want)}")
        gn, grc, gvals, e = got[k]
        if gn != n:
            raise Bad(f"{label}: {n} is required here, found {gn}", e.where(), f"event {k + 1}")
        if rc is not None and grc is not rc:
            raise Bad(f"{label}: {n} on {T.show(rc, 60)}", e.where(), f"found {T.show(grc, 60)}")
        for i, v in enumerate(vals or ()):
            if v is None:
                continue
            if isinstance(v, T.T):
                if gvals[i] is not v:
                    raise Bad(f"{label}: argument {i} of {n}", e.where(), f"found {gvals[i]}, required {T.show(v, 60)}")
            elif isinstance(v, dict):
                if not isinstance(gvals[i], dict):
                    raise Undecided(f"argument {i} of {n}")
                states_equal(f"{label}: {n}", e.where(), gvals[i], v)
            else:
                g = gvals[i]
                if isinstance(v, list) and not isinstance(g, list):
                    g = [g] * len(v)
                need(f"{label}: argument {i} of {n}", e.where(), g, v)
    if len(got) > len(want):
        raise Bad(f"{label}: additional {got[len(want)][0]}", got[len(want)][3].where(), "")


def state_of(m, prefix, I, o):
    """reference view of a littered state"""
    return {p.split(".")[-1]: m(T.mk("sym", f"{prefix}.{p}")) for p, r in I.D.leaves(o).items() if r.op == "aref"}


def one_step(R, root, what, **kw):
    """the step function handed to the checkpointer"""
    I = Integ(root, **kw)
    D = I.D
    dirty(I)
    step = D.scalar("step")
    n0 = len(D.E.effects)
    ret = D.call_value(I.run_step, step, I.S)
    effs = D.E.effects[n0:]
    R.absorb(D.E)
    loc = I.loc("setup") if I.run_step.op != "bound" else where_of(D, I.run_step)
    mem = T.mk("sym", f"old.memory{I.made[-1].args[0]}")
    ode = I.odes[-1]

    def model(m):
        ref = Ref(I, m)
        s = state_of(m, "oldS", I, I.S)
        log = []
        new, _ = ref.run_step(s, m(mem), log)
        if what == "step":
            match("step", loc, trace(I, m, effs, STEP_EVENTS), [(n, None, v) for n, v in log])
        if what == "callbacks":
            b = [("before_iteration", c, [m(step), s, ode, I.scheme]) for c in I.cbs["compute"]] if kw.get("callbacks", "user") != "empty" else []
            a = [("after_iteration", c, [m(step), new, ode, I.scheme]) for c in I.cbs["compute"]] if kw.get("callbacks", "user") != "empty" else []
            match("primal step", loc, trace(I, m, effs, ALL_EVENTS), b + [(n, None, None) for n, v in log] + a)
        if ret is not I.S and ret is not NONE:
            if ret.op != "obj":
                raise Undecided("returned state")
        states_equal("state after the step", loc, I.content(m, ret if ret is not NONE else I.S), new)
        states_equal("live state after the step", loc, I.content(m, I.S), new)

    decide(R, D, what + " of the primal run", model, n=80)
    return I


def where_of(D, f):
    import os

    t = f.args[1] if f.op == "bound" else f
    if t.op != "func":
        return T.show(t, 100)
    q = t.args[0]
    mod = D.pkg.modules[max((n for n in D.pkg.modules if q.startswith(n + ".")), key=len)]
    return f"{os.path.relpath(mod.path, D.root)}:{t.args[2]} in {q[len(mod.name) + 1:]}"


def one_rev(R, root, what, **kw):
    I = Integ(root, **kw)
    D = I.D
    dirty(I)
    step = D.scalar("step")
    n0 = len(D.E.effects)
    ret = D.call_value(I.run_rev, step, I.S, I.P)
    effs = D.E.effects[n0:]
    R.absorb(D.E)
    loc = where_of(D, I.run_rev)
    ode = I.odes[-1]

    def model(m):
        ref = Ref(I, m)
        s, p = state_of(m, "oldS", I, I.S), state_of(m, "oldP", I, I.P)
        new = ref.linear("compute_step_adjoint_derivative", s["linearization_points"], p, s["step_size_history"][0], ref.shapes(I.P, True))
        vals = [s["linearization_points"]] + [p[f] for f in READS] + [s["step_size_history"][0]]
        if what == "callbacks":
            user = kw.get("callbacks", "user") != "empty"
            cb = I.cbs["rev"] if user else []
            want = [("before_iteration", c, [m(step), s, ode, I.scheme]) for c in cb] + [("compute_step_adjoint_derivative", None, None)] + [("after_iteration", c, [m(step), s, ode, I.scheme]) for c in cb]
            match("reverse step", loc, trace(I, m, effs, ALL_EVENTS), want)
        else:
            match("reverse step", loc, trace(I, m, effs, ("compute_step_adjoint_derivative",) + STEP_EVENTS), [("compute_step_adjoint_derivative", None, vals)])
        if ret is not NONE and ret.op != "obj":
            raise Undecided("returned perturbation")
        states_equal("adjoint state after the step", loc, I.content(m, ret if ret is not NONE else I.P), new)
        states_equal("primal state in a reverse step", loc, I.content(m, I.S), s)

    decide(R, D, what + " of the reverse run", model)


def one_fwd(R, root, what, **kw):
    """events of a whole forward-mode run"""
    I = Integ(root, **kw)
    D = I.D
    X, dX, dY = I.vector("inputs", "input"), I.vector("d_inputs", "input"), I.vector("d_outputs", "output", zero=True)
    n0 = len(D.E.effects)
    D.call(I.o, "compute_jacvec_product", X, dX, dY, const("fwd"))
    effs = D.E.effects[n0:]
    R.absorb(D.E)
    loc = I.loc("compute_jacvec_product")
    ode = I.odes[-1]

    def model(m):
        ref = Ref(I, m)
        s = ref.prepare(I.split(m, "input", m(T.mk("sym", "inputs"))))
        it, ctrl, log = 0, None, []
        cb = I.cbs["fwd"] if kw.get("callbacks", "user") != "empty" else []
        while not ref.finished(Fraction(it), s):
            it += 1
            if it > 4:
                raise Reject("long run")
            if what == "callbacks":
                log += [("before_iteration", c, [Fraction(it), s, ode, I.scheme]) for c in cb]
            sub = []
            s, ctrl = ref.run_step(s, ctrl, sub)
            log += [(n, None, v if what == "step" else None) for n, v in sub]
            log.append(("compute_step_derivative", None, [s["linearization_points"], None, None, None, s["step_size_history"][0]] if what == "step" else None))
            if what == "callbacks":
                log += [("after_iteration", c, [Fraction(it), {k: v for k, v in s.items()}, ode, I.scheme]) for c in cb]
        names = STEP_EVENTS + ("compute_step_derivative",) + (("before_iteration", "after_iteration") if what == "callbacks" else ())
        match("forward mode", loc, trace(I, m, effs, names), log)

    decide(R, D, what + " of the forward mode run", model, need_models=4)


VARIANTS = ((False, False, True), (True, False, True), (True, True, True), (True, True, False))


def vname(emb, ad, timed):
    return f"{'embedded' if emb else 'plain'}{' adaptive' if ad else ''}{'' if timed else ' without end time'}"


def c09(R, root):
    from .control import c10

    for emb, ad, timed in VARIANTS:
        with R.group(vname(emb, ad, timed)):
            kw = dict(emb=emb, adaptive=ad, timed=timed)
            one_step(R, root, "step", **kw)
            one_fwd(R, root, "step", **kw)
            one_rev(R, root, "step", **kw)
    with R.group("controller"):
        c10(R, root)


def c13(R, root):
    for emb, ad, timed in VARIANTS[:3]:
        for cb in ("user", "empty"):
            with R.group(f"{vname(emb, ad, timed)}, {cb} callbacks"):
                kw = dict(emb=emb, adaptive=ad, timed=timed, callbacks=cb, rank=0)
                one_step(R, root, "callbacks", **kw)
                one_fwd(R, root, "callbacks", **kw)
                one_rev(R, root, "callbacks", **kw)
    for w in ("compute", "fwd", "rev"):
        with R.group(f"callbacks for {w}, none in other modes"):
            for f in (one_step, one_fwd, one_rev):
                f(R, root, "callbacks", emb=False, adaptive=False, timed=True, callbacks="only " + w, rank=0)
    for mine in (("compute", "rev"), ("fwd",), ("compute",), ("rev",)):
        for rank in (0, 1):
            with R.group(f"callbacks for {' and '.join(mine)} only, process {rank}"):
                kw = dict(emb=True, adaptive=True, timed=True, callbacks=" ".join(("some",) + mine), rank=rank)
                for w, f in (("compute", one_step), ("fwd", one_fwd), ("rev", one_rev)):
                    if w in mine:
                        f(R, root, "callbacks", **kw)


HISTORIES = [
    ("first call", []),
    ("after a primal run", [("compute", "X1")]),
    ("after two primal runs", [("compute", "X1"), ("compute", "X3")]),
    ("after a reverse product", [("compute", "X1"), ("rev", "X3")]),
    ("after two reverse products", [("rev", "X1"), ("rev", "X3")]),
    ("after a forward product", [("compute", "X1"), ("fwd", "X3")]),
    ("after a forward product and a reverse product", [("fwd", "X3"), ("rev", "X1")]),
    ("after a failed primal run", [("compute", "X1"), ("compute!forward", "X3")]),
    ("after a primal run that failed before its first step", [("compute", "X1"), ("compute!create", "X3")]),
    ("after a failed reverse product", [("compute", "X1"), ("rev!reverse", "X3")]),
    ("after a reverse product whose primal run failed", [("compute", "X1"), ("rev!forward", "X3")]),
    ("after a new setup", [("compute", "X1"), ("setup", "")]),
    ("after a failed reverse product and a new setup", [("compute", "X1"), ("rev!reverse", "X3"), ("setup", "")]),
]


def act(I, what, X):
    """one call in a history; a failing call leaves the state it had when its exception left"""
    D = I.D
    what, _, fails = what.partition("!")
    I.failing = {fails: TRUE} if fails else {}
    n0 = len(D.raises())
    try:
        if what == "setup":
            D.call(I.o, "setup")
            I.after_setup()
        elif what == "compute":
            D.call(I.o, "compute", X, I.vector("y" + str(len(I.E.effects)), "output"))
        elif what == "fwd":
            D.call(I.o, "compute_jacvec_product", X, I.vector("dx" + str(len(I.E.effects)), "input"), I.vector("", "output", zero=True), const("fwd"))
        else:
            D.call(I.o, "compute_jacvec_product", X, I.vector("", "input", zero=True), I.vector("dy" + str(len(I.E.effects)), "output"), const("rev"))
    except Dead:
        if not fails:
            raise Undecided(what + " always raises")
        ex = D.raises()[n0:]
        if not ex:
            raise Undecided("failing call has no exceptional exit")
        D.st = D.E.join([x.st for x in ex]) if len(ex) > 1 else ex[0].st.copy()
    else:
        # without an exceptional exit of its own the call may not depend on the failure
        pass
    D.st.pc = ()
    I.failing = {}


def related(I, m, base, others):
    """inputs of earlier calls: equal to the current ones, or different in some parts"""
    bx = m(T.mk("sym", base))
    pt, _ = I.parts("input")
    names = list(pt)
    kinds = ["same", "close", "rearranged", "other", "all"]
    I.compared = getattr(I, "compared", -1) + 1
    for o in others:
        v = list(bx)
        # every part in turn, with every kind of change
        turn = I.compared if o == others[0] else m.rng.randrange(len(names) * len(kinds))
        part, kind = names[turn % len(names)], kinds[turn // len(names) % len(kinds)]
        for n in names if kind == "all" else [] if kind == "same" else [part]:
            lo, hi = int(m(pt[n][0])), int(m(pt[n][1]))
            if kind == "rearranged" and hi > lo:
                # changes which leave sums, norms, magnitudes, extreme or sorted values as they are
                old = v[lo:hi]
                new = m.rng.choice([old[::-1], old[1:] + old[:1], m.rng.sample(old, len(old)), [-x for x in old], [old[0] + 1, *old[1:-1], old[-1] - 1] if hi - lo > 1 else [-old[0]]])
                if new != old:
                    v[lo:hi] = new
                    continue
            ks = range(lo, hi) if m.rng.random() < 0.4 or lo == hi else [m.rng.randrange(lo, hi)]
            for k in ks:
                v[k] = v[k] + Fraction(m.rng.choice([1, -1, 3]), 10**7 if kind == "close" else m.rng.choice([1, 8, 10**7]))
        m.fixed[T.mk("sym", o)] = v
    m.memo.clear()
    if others and m.rng.random() < 0.15:
        # the current inputs continue from the end of an earlier run
        ref = Ref(I, m)
        x = I.split(m, "input", m(T.mk("sym", others[0])))
        end, _ = ref.forward(ref.prepare(x))
        v = list(m(T.mk("sym", others[0])))
        for n, sh, lo, hi in I.tq:
            v[int(m(pt[n + "_initial"][0])):int(m(pt[n + "_initial"][1]))] = end["final_state"][int(m(lo)):int(m(hi))]
        v[int(m(pt["time_initial"][0]))] = end["final_time"][0]
        m.fixed[T.mk("sym", base)] = v
        m.memo.clear()


def c08(R, root):
    cases = [(dict(emb=emb, adaptive=ad), vname(emb, ad, True), h) for emb, ad in ((False, False), (True, True)) for h in HISTORIES]
    few = [h for h in HISTORIES if h[0] in ("after a primal run", "after two reverse products")]
    cases += [(dict(indep=n), f"{n} independent inputs", h) for n in (0, 1) for h in few]
    for kw, title, (name, hist) in cases:
        with R.group(f"{title}: reverse product {name}"):
            I = Integ(root, others=True, **kw)
            D = I.D
            Xs = {n: I.vector(n, "input") for n in ("X1", "X2", "X3")}
            for what, x in hist:
                act(I, what, Xs.get(x))
            dX, dY = I.vector("d_inputs", "input", zero=True), I.vector("d_outputs", "output")
            D.call(I.o, "compute_jacvec_product", Xs["X2"], dX, dY, const("rev"))
            R.absorb(D.E)
            loc = I.loc("compute_jacvec_product")

            def model(m):
                related(I, m, "X2", ["X1", "X3"])
                reverse_model(I, m, "X2", "d_outputs", dX, loc)

            decide(R, D, "result belongs to the current inputs", model, n=90 if len(hist) > 0 else 20)


def c11(R, root):
    for emb, ad, timed in VARIANTS:
        with R.group("after arbitrary earlier runs: " + vname(emb, ad, timed)):
            kw = dict(emb=emb, adaptive=ad, timed=timed)
            transfers_primal(R, root, **kw)
            transfers_forward(R, root, **kw)
            transfers_reverse(R, root, **kw)
    reads(R, root)
    from .control import reset_is_fresh

    reset_is_fresh(R, root)
    from .ckpt import again, check_reverse, strategies

    for c in strategies(root):
        again(R, root, c, check_reverse)
    R.cleared()


def reads(R, root):
    """steps continue from final time, final state and independent inputs only"""
    from .rk import run_step

    for emb in (False, True):
        for which in ("compute_step", "compute_step_derivative", "compute_step_adjoint_derivative"):
            with R.group(f"{which}{' embedded' if emb else ''} reads"):
                D = run_step(R, root, emb, which)
                if D.out is None:
                    continue
                loc = anchor_loc(D, "StageOrderedEmbeddedRungeKuttaDiscretization" if emb else "StageOrderedRungeKuttaDiscretization", which)
                own, allowed = ("S", READS) if which == "compute_step" else ("P", READS)
                left = [k for k in D.fields(D.out) if k not in allowed and k != "final_independent_outputs"]
                outs = {k: D.field(D.out, k) for k in READS + ["linearization_points", "step_size"] if k in D.fields(D.out)}
                calls = [e for e in D.effs if e.kind == "call"]

                def model(m):
                    """two models that differ in leftovers only agree"""
                    if int(m(D.q)) != 1:
                        pass
                    keep = {}
                    for k, v in outs.items():
                        keep[k] = m(v)
                    ev = [[canon(m.ev(D.E.materialize(a, e.state()), b)) for a in e.args] for e, b in expand(m, calls)]
                    m.memo.clear()
                    for k in left:
                        t = T.mk("sym", f"{own}.{k}")
                        v = m(t)
                        m.fixed[t] = shift(v)
                    m.memo.clear()
                    for k, v in outs.items():
                        if own == "P" and k in ("linearization_points", "step_size"):
                            continue
                        need(f"{k} does not depend on leftovers of earlier steps", loc, m(v), keep[k])
                    ev2 = [[canon(m.ev(D.E.materialize(a, e.state()), b)) for a in e.args] for e, b in expand(m, calls)]
                    if ev != ev2:
                        raise Bad("stage evaluations depend on leftovers of earlier steps", loc, f"{ev[:1]} {ev2[:1]}"[:200])

                decide(R, D, "independent of leftovers", model)


def shift(v):
    return [shift(x) for x in v] if isinstance(v, list) else v + Fraction(5, 3)


def c12(R, root):
    for emb, ad, nl in ((False, False, False), (True, False, True), (True, True, False)):
        with R.group(f"{'embedded' if emb else 'plain'}{' adaptive' if ad else ''}{' with remote quantity' if nl else ''}"):
            kw = dict(emb=emb, adaptive=ad, nonlocal_=nl)
            transfers_primal(R, root, **kw)
            transfers_forward(R, root, **kw)
            transfers_reverse(R, root, **kw)
            declared(R, root, **kw)
    for kw in (dict(indep=1), dict(indep=0), dict(indep=1, quantities=1)):
        with R.group(f"{kw['indep']} independent inputs, {kw.get('quantities', 2)} time integration quantities"):
            transfers_primal(R, root, **kw)
            transfers_forward(R, root, **kw)
            transfers_reverse(R, root, **kw)
            declared(R, root, **kw)
    with R.group("quantity without step input in the stage problem"):
        declared(R, root, stepless=("b",))


def c32(R, root):
    """matrix-free products: added to the given content, with exactly the variables that are part of the vectors"""
    for emb, ad, nl in ((False, False, False), (True, True, False), (True, False, True)):
        kw = dict(emb=emb, adaptive=ad, nonlocal_=nl)
        with R.group(f"{'embedded' if emb else 'plain'}{' adaptive' if ad else ''}{' with remote quantity' if nl else ''}"):
            for hidden in HIDDEN if not nl else HIDDEN[:2]:
                with R.group("without " + ", ".join(hidden) if hidden else "all variables"):
                    transfers_forward(R, root, onto=True, hidden=hidden, **kw)
                    transfers_reverse(R, root, onto=True, hidden=hidden, **kw)


HIDDEN = ((), ("a_initial", "u"), ("time_initial",), ("b_initial",), ("v",), ("a_initial", "b_initial", "time_initial"), ("u", "v"), ("a_initial", "b_initial", "time_initial", "u", "v"))


# ------------------------------------------------------------------------ setup

def refuses_implicit(R, root):
    """setup raises SetupError exactly for tableaux with entries above the diagonal"""
    for emb in (False, True):
        with R.group(f"setup with {'embedded' if emb else 'plain'} tableau"):
            I = Integ(root, emb=emb, rank=0)
            D = I.D
            R.absorb(D.E)
            loc = I.loc("setup")
            raises = [x for x in D.raises() if x.kind == "raise"]

            def model(m):
                r = m.rng
                s = r.randint(1, 4)
                kind = r.choice(["explicit", "diagonal", "implicit", "one"])
                z = Fraction(0)
                A = [[Fraction(r.randint(1, 9), 8) if j < i or (j == i and kind == "diagonal") or kind == "implicit" and r.random() < 0.8 else z for j in range(s)] for i in range(s)]
                if kind == "one" and s > 1:
                    i = r.randrange(s - 1)
                    A[i][r.randrange(i + 1, s)] = Fraction(1, 3)
                full = any(A[i][j] != 0 for i in range(s) for j in range(i + 1, s))
                m.fixed[D.s] = Fraction(s)
                m.fixed[D.A] = A
                m.memo.clear()
                hit = [x for x in raises if all(m.truth(g) for g in x.st.pc)]
                where = f"{hit[0].loc[0]}:{hit[0].loc[1]} in {hit[0].loc[2]}" if hit else loc
                need("fully implicit tableaux are refused, others accepted", where, bool(hit), full)
                if hit:
                    v = hit[0].val
                    nm = I.E.objcls[v.args[0]].name if v.op == "obj" and v.args[0] in I.E.objcls else T.show(v, 60)
                    if "SetupError" not in nm:
                        raise Bad("refusal is a SetupError", where, f"raises {nm}")

            decide(R, D, "refusal", model, n=60)


def val_at(I, e, name, default=None):
    v = e.kwargs.get(name, default)
    return v if v is None else I.E.materialize(I.E.deref(v, e.state()), e.state())


def declared(R, root, **kw):
    """inputs and outputs the integrator declares"""
    I = Integ(root, **kw)
    D = I.D
    R.absorb(D.E)
    loc = I.loc("setup")
    effs = [e for e in D.E.effects[I.mark:] if e.kind == "call" and e.name in ("add_input", "add_output") and e.recv is I.o]

    def shape_of(m, e, b, ins):
        s = val_at(I, e, "shape")
        if s is not None:
            v = m.ev(s, b)
            return [int(x) for x in v] if isinstance(v, (list, tuple)) else [int(v)]
        c = val_at(I, e, "copy_shape")
        if c is not None:
            c = m.ev(c, b)
            if c in ins:
                return ins[c]
        raise Undecided("declaration without shape")

    def model(m):
        want_i = {"time_initial": [1], **{n + "_initial": [int(m(x)) for x in sh] for n, sh, _, _ in I.tq}, **{n: [int(m(x)) for x in sh] for n, sh, _, _ in I.iq}}
        want_o = {"time_final": [1], **{n + "_final": [int(m(x)) for x in sh] for n, sh, _, _ in I.tq}}
        got = {"add_input": {}, "add_output": {}}
        values = {}
        m.fixed.update({D.A: [[Fraction(0)] * int(m(D.s)) for _ in range(int(m(D.s)))]})
        m.memo.clear()
        for kind in ("add_input", "add_output"):
            for e, b in expand(m, [e for e in effs if e.name == kind]):
                n = m.ev(I.E.materialize(I.E.deref(e.args[0] if e.args else e.kwargs["name"], e.state()), e.state()), b)
                if n in got[kind]:
                    raise Bad(f"{n} is declared once", e.where(), "declared twice")
                got[kind][n] = shape_of(m, e, b, {**got["add_input"]})
                v = val_at(I, e, "val")
                values[kind, n] = (e, None if v is None else m.ev(v, b))
        for kind, want in (("add_input", want_i), ("add_output", want_o)):
            for n, sh in want.items():
                if n not in got[kind]:
                    raise Bad(f"{kind[4:]} {n} is declared", loc, f"declared: {sorted(map(str, got[kind]))}")
                if got[kind][n] != sh:
                    raise Bad(f"shape of {kind[4:]} {n}", loc, f"declared {got[kind][n]}, quantity has {sh}")
            more = set(got[kind]) - set(want)
            if more:
                raise Bad(f"only the documented {kind[4:]}s are declared", loc, f"{sorted(map(str, more))}")

        # unset inputs start from what the stage problem holds
        holds = {"time_initial": [Fraction(0)]}
        for n, sh, *_ in I.tq:
            src = ZERO if n in I.stepless else T.sym(f"stage_problem[{n}_old]", tuple(sh))
            holds[n + "_initial"] = [Fraction(0)] * prod(m, sh) if src is ZERO else flatten(m(src))
        for n, sh, *_ in I.iq:
            holds[n] = flatten(m(T.sym(f"stage_problem[{n}_var]", tuple(sh))))
        for n, want in holds.items():
            e, v = values["add_input", n]
            if not want:
                continue
            if v is None:
                raise Bad(f"value of unset input {n}", e.where(), "the stage problem's value is not passed on")
            v = flatten(v)
            need(f"value of unset input {n}", e.where(), v * len(want) if len(v) == 1 else v, want)

    decide(R, D, "declared variables", model, n=10)


def prod(m, sh):
    n = 1
    for x in sh:
        n *= int(m(x))
    return n


def flatten(v):
    return [y for x in v for y in flatten(x)] if isinstance(v, (list, tuple)) else [v]


def controllers_built(R, root):
    """controllers are created in the order given, each around the previous one"""
    for emb in (False, True):
        for names in (("c1",), ("c1", "c2", "c3")):
            with R.group(f"integrator with {len(names)} controllers, {'embedded' if emb else 'plain'}"):
                I = Integ(root, emb=emb, adaptive=emb, controllers=names)
                D = I.D
                R.absorb(D.E)
                loc = I.loc("setup")
                made = [e for e in D.E.effects[I.mark:] if e.kind == "call" and e.name == "make_controller"]
                got = [e.recv for e in made]
                R.holds("each controller is created once, in the order given", got == [const(c) for c in names], made[0].where() if made else loc, f"{[T.show(g, 30) for g in got]}")
                prev = NONE
                objs = [o for o in I.made]
                for k, e in enumerate(made[:len(names)]):
                    def model(m, e=e):
                        m.fixed.update({D.A: [[Fraction(0)] * int(m(D.s)) for _ in range(int(m(D.s)))]})
                        p, ph = Fraction(m.rng.randint(1, 5)), Fraction(m.rng.randint(1, 5))
                        m.fixed.update({D.scalar("p_order"): p, D.scalar("phat_order"): ph})
                        m.memo.clear()
                        v = val_at(I, e, "p")
                        if v is None and e.args:
                            v = e.args[0]
                        if v is None:
                            raise Bad("order is passed", e.where(), repr(e)[:200])
                        need("order passed to the controller", e.where(), m(v), min(p, ph) if emb else p)
                        for g in e.guard:
                            if not m.truth(g):
                                raise Bad("controller is created", e.where(), "skipped")

                    decide(R, D, f"controller {k + 1} order", model, n=20)
                    b = e.kwargs.get("base", NONE)
                    R.holds(f"controller {k + 1} is built around {'the previous one' if k else 'no other'}", b is prev, e.where(), f"base={T.show(b, 60)}")
                    R.holds(f"controller {k + 1} receives the options", e.kwargs.get("config") is T.sym("controller_config"), e.where(), repr(e)[:200])
                    prev = objs[k]
                if not emb or not objs:
                    continue
                # the outermost controller is the last one
                X, Y = I.vector("inputs", "input"), I.vector("outputs", "output")
                n0 = len(D.E.effects)
                call_step(I)
                used = {e.recv for e in D.E.effects[n0:] if e.name == "control"}
                R.holds("steps are controlled by the last controller", used == {objs[-1]}, loc, f"{[T.show(u, 40) for u in used]}")


def call_step(I):
    """one step of the run through the function handed to the checkpointer"""
    D = I.D
    I.litter(I.S, "S")
    D.st.pc = ()
    return D.call_value(I.run_step, const(1), I.S)
