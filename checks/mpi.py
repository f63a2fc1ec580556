"""C17: collective operations are reached by all processes alike.

Two processes are two models of the analysed program: they share everything that is the same on
all processes (times, step sizes, options, results of reductions) and differ in the rank, in the
quantities they hold and in the data of these. The sequence of collective operations evaluated
from the effect summaries has to be the same in both."""

from __future__ import annotations

import random
from fractions import Fraction

from sa import terms as T
from sa.evalt import Model, Reject, Undecided, canon, num, zeros
from sa.interp import Dead
from sa.terms import NONE, ONE, TRUE, ZERO, const, mk
from sa.trace import expand
from .integ import Integ, VARIANTS, vname
from .h5 import CLS as H5CLS, OTHER, QUANTITIES, Writer
from .meta import GOOD, Meta, where as meta_where
from .ode import CLS as ODECLS, Ode
from .rk import Bad, anchor_loc, run_step

RED = "reduced:"


class RankModel(Model):
    """a process: local symbols have values of their own, reductions combine both processes"""

    def __init__(self, seed, rank, dims, local, maxdim=3):
        super().__init__(seed, dims=dims, maxdim=maxdim)
        self.rank, self.local = rank, local
        self.small, self.sparse = True, False  # (local random state must not differ through this draw)
        self.peer = None
        self.own = Model(f"{seed}:rank{rank}", dims=dims, maxdim=maxdim)

    def _ev(self, t, bind):
        if t.op == "sym" and t not in self.fixed:
            k = self.local(t.args[0])
            if k and self.rank:
                if t in self.dims:
                    return self.own.dimval(t.args[0])
                s = self.shp(t, bind)
                if k == "zero":
                    if s is None:
                        return Fraction(0)
                    return zeros(s)
                if s is not None:
                    return self.own.rnd("sym:" + str(t.args[0]), s)
        if t.op == "app" and t.args[0].startswith(RED):
            vs = [m.ev(t.args[2][0], bind) for m in sorted((self, self.peer), key=lambda m: m.rank)]
            op = t.args[0][len(RED):]
            if op in ("LAND", "LOR"):
                vs = [self.tv(v) for v in vs]
                return (vs[0] and vs[1]) if op == "LAND" else (vs[0] or vs[1])
            vs = [num(v) for v in vs]
            return {"SUM": lambda: vs[0] + vs[1], "MAX": lambda: max(vs), "MIN": lambda: min(vs), "PROD": lambda: vs[0] * vs[1]}[op]()
        return super()._ev(t, bind)


def reduction(E, st, a, k, node):
    """result of a reduction over both processes; the operation has to be the same on both"""
    a = list(a) + list(k.values())
    v = E.materialize(E.deref(a[0], st), st)
    o = E.deref(a[1], st) if len(a) > 1 else const("SUM")
    E.effect(st, "collective", "allreduce", None, (o,), node=node)

    def by(o):
        if o.op == "ite":
            return T.ite(o.args[0], by(o.args[1]), by(o.args[2]))
        name = T.show(o, 60)
        for n in ("LAND", "LOR", "SUM", "MAX", "MIN", "PROD"):
            if n in name:
                r = mk("app", RED + n, () if n not in ("LAND", "LOR") else None, (v,))
                return T.truth(r) if n in ("LAND", "LOR") else r
        return E.unk("reduction " + name, node)

    return by(o)


def pair(R, label, sides, keyed=(), n=24, local=lambda s: False, prepare=None, maxdim=3):
    """sides: [(drive, effects)] of rank 0 and 1; compares the evaluated traces"""
    (D0, e0), (D1, e1) = sides
    done = 0
    try:
        for s in range(n * 4):
            if done >= n:
                break
            zero = s % 3 == 2
            loc = lambda name: (("zero" if zero else "own") if local(name) else False)
            ms = [RankModel(f"{R.seed}:{label}:{s}", r, D.dims, loc, maxdim) for r, D in enumerate((D0, D1))]
            ms[0].peer, ms[1].peer = ms[1], ms[0]
            try:
                if prepare:
                    prepare(ms, s)
                tr = []
                for m, ef in zip(ms, (e0, e1)):
                    tr.append([(key(m, e, b, keyed), e) for e, b in expand(m, ef)])
            except Reject:
                continue
            for k in range(max(map(len, tr))):
                a, b = (t[k] if k < len(t) else None for t in tr)
                if a is None or b is None or a[0] != b[0]:
                    e = (a or b)[1]
                    raise Bad("all processes reach the same collective operations", site(e, D0), f"operation {k + 1}: {show(a)} on one process, {show(b)} on another; {why(ms, e)}")
            done += 1
    except Bad as x:
        R.fail(f"{label}: {x.label}", x.where, x.detail)
        return
    except Undecided as u:
        R.undecided(label, "", str(u))
        return
    if done >= 4:
        R.ok(label, how=f"{len(e0)} and {len(e1)} collective sites have the same trace on both processes in {done} models")
    else:
        R.undecided(label, "", f"only {done} admissible models")


def site(e, D):
    names = [x for x in e.stack if not x.split(".")[0] in ("Node", "File")]
    c = (names[-1] if names else "").split(".")
    return anchor_loc(D, c[-2], c[-1]) if e.kind == "h5" and len(c) > 1 and D.E.cls(c[-2]) is not None else e.where()


def show(x):
    return "nothing" if x is None else " ".join(map(str, x[0]))


def why(ms, e):
    for g in e.guard:
        v = []
        for m in ms:
            try:
                v.append(m.truth(g))
            except (Undecided, Reject):
                v.append(None)
        if v[0] != v[1]:
            return "because of " + T.show(g, 120)
    return ""


def key(m, e, b, keyed):
    out = [e.name]
    for x in e.args if e.kind == "collective" or e.name in keyed else ():
        try:
            v = m.ev(x, b)
            out.append(v if isinstance(v, str) else canon(v)[:60])
        except Undecided:
            out.append(T.show(x, 60))
    return tuple(out)


# ------------------------------------------------------------------------ stage problem

NAMES = {"run_solve_nonlinear", "run_linearize", "run_solve_linear", "run_apply_linear", "run_apply_nonlinear", "run_model", "Barrier", "barrier", "bcast", "gather", "allgather", "Allreduce", "reduce", "Bcast", "scatter"}


def ode_ops(R, root, name):
    with R.group(f"OpenMDAOODE.{name}"):
        sides = []
        for r, local in enumerate(("abduv", "cduw")):
            # (symbols of the two processes have names of their own: their shapes differ)
            O = Ode(root, dist={"d", "c"}, local=local, **({"norm_exclusions": ["b"]} if name == "compute_state_norm" else {}))
            D, E = O.D, O.E
            E.hooks["ext:allreduce"] = lambda E, st, f, recv, a, k, node: reduction(E, st, a, k, node)
            O.litter(f"old{r}")
            h, a = D.scalar("h"), D.scalar("a")
            n0 = len(E.effects)
            try:
                if name == "compute_update":
                    D.call(O.o, name, O.input_obj(f"x{r}"), h, a)
                elif name == "compute_state_norm":
                    st = D.new("DiscretizedODEResultState", stage_update=D.array(f"u{r}", O.n), stage_state=D.array(f"x{r}", O.n), independent_output=D.array(f"o{r}", ZERO))
                    D.call(O.o, name, st)
                else:
                    size = E.deref(D.call(O.o, "get_linearization_point_size"), D.st)
                    lp = D.array(f"lin{r}", size)
                    if name == "compute_update_derivative":
                        arg = O.input_obj(f"x{r}", lin=lp)
                    else:
                        arg = D.new("DiscretizedODEResultState", stage_update=D.array(f"dk{r}", O.n), stage_state=D.array(f"dz{r}", O.n), independent_output=D.array(f"do{r}", ZERO), linearization_point=lp)
                    D.call(O.o, name, arg, h, a)
            except Dead:
                R.fail("completes on every process", anchor_loc(D, ODECLS, name), "raises")
                return
            D.st.pc = ()
            R.absorb(E)
            sides.append((D, [e for e in E.effects[n0:] if e.kind == "collective" or e.kind == "call" and e.name in NAMES]))
        glob = {"h", "a", "x0.time", "x1.time"}

        def prepare(ms, s):
            for m in ms:
                m.fixed[T.sym("x0.time")] = m.fixed[T.sym("x1.time")] = Fraction(s // 3 % 2)

        pair(R, "different quantities", sides, local=lambda s: s not in glob, prepare=prepare)
        for r in (0, 1):
            pair(R, f"different data ({r})", [sides[r], sides[r]], local=lambda s: s not in glob and not s.startswith("n_"), prepare=prepare)


# --------------------------------------------------------------------------- metadata

def swap(table):
    """the same stage problem seen by another process"""

    def other(M):
        t = dict(table(M))
        for n, (io, tags, sh, gs, loc) in list(t.items()):
            q = n.split(".")[0]
            if q == "c":
                t[n] = (io, tags, sh, gs, True)
            elif q == "h":
                t[n] = (io, tags, tuple(ZERO for _ in sh), gs, False)
        return t

    return other


def metadata(R, root):
    for name, (table, q, i) in GOOD.items():
        with R.group(f"metadata of {name}"):
            sides = []
            for t in (table, swap(table)):
                M = Meta(root, t, q, i)
                if M.died:
                    R.undecided("extraction", meta_where(M.D, "extract_time_integration_metadata"), "raises")
                    return
                R.absorb(M.E)
                sides.append((M.D, [e for e in M.E.effects if e.kind == "call" and e.name in ("allreduce", "get_io_metadata")]))
            for d in sides:
                R.holds("the distribution is decided over all processes", any(e.name == "allreduce" for e in d[1]), meta_where(d[0], "add_distributivity_information"), "no reduction")
            pair(R, "different quantities", sides, keyed=("allreduce",), local=lambda s: True)


# ------------------------------------------------------------------------- integrator

class GInteg(Integ):
    """surrounding whose decisions depend on data that is the same on all processes only"""

    count = 0

    def h_finished(self, E, st, a, k, node):
        _, it, s = self.args(["self", "iteration", "time_integration_state"], a, k)
        v = (self.mat(it, st), self.part(s, "final_time", st, node))
        return T.truth(mk("app", "finished", None, v))

    def h_measure(self, E, st, f, recv, a, k, node):
        E.effect(st, "call", "measure", recv, (), node=node)
        self.count += 1
        return mk("app", "measure", (), (const(self.count),))

    def h_reduce(self, v, a, k, st, node):
        return reduction(self.E, st, a, k, node)

    def h_forward(self, E, st, a, k, node):
        s = self.args(["self", "initial_state"], a, k)[1]
        t = self.part(s, "final_time", st, node)
        r = super().h_forward(E, st, a, k, node)
        for path, ref in self.D.leaves(s, st=st).items():
            n = path.split(".")[-1]
            if n in ("final_time", "start_time", "step_size", "step_size_suggestion", "step_size_history", "error_history"):
                sh = T.shape(ref)
                E.write_ref(ref, mk("app", "forward.g:" + n, tuple(sh), (t,)), st, node)
        return r


OPS = {"iterate_forward", "iterate_reverse", "compute_step", "compute_step_derivative", "compute_step_adjoint_derivative", "measure", "before_iteration", "after_iteration", "create_checkpointer"} | NAMES
DECL = {"setup", "final_setup", "add_input", "add_output", "declare_partials", "make_checkpointer", "make_controller"}


def integrator_setup(R, root):
    for emb, ad, timed in VARIANTS[:3]:
        with R.group(f"integrator setup {vname(emb, ad, timed)}"):
            sides = []
            for r, nl in ((0, True), (1, "other")):
                I = GInteg(root, emb=emb, adaptive=ad, timed=timed, nonlocal_=nl, callbacks="none", rank=r)
                D = I.D
                R.absorb(D.E)
                ef = [e for e in D.E.effects[I.mark:] if e.kind == "collective" or e.kind == "call" and e.name in OPS | DECL]
                for e in ef:
                    if e.name in ("add_input", "add_output"):
                        nm = e.args[0] if e.args else e.kwargs.get("name", NONE)
                        e.key = T.show(nm, 60)
                sides.append((D, ef))
            keyed(sides)
            pair(R, "different quantities", sides, local=lambda s: s.startswith(("n_a", "n_b", "n_c")))


def keyed(sides):
    """names of declared variables take part in the comparison"""
    for D, ef in sides:
        for e in ef:
            if getattr(e, "key", None) and not e.name.endswith(e.key):
                e.name = f"{e.name} {e.key}"


def integrator_runs(R, root):
    for emb, ad, timed in VARIANTS[:3]:
        with R.group(f"integrator {vname(emb, ad, timed)}"):
            I = GInteg(root, emb=emb, adaptive=ad, timed=timed)
            D = I.D
            E = D.E
            rank = E.get(D.st, ("fx", I.comm, "rank"))
            if rank is None:
                rank = E.attr(I.comm, "rank", D.st)
            vec = {n: I.vector(n, k, zero=z) for n, k, z in (
                ("X1", "input", False), ("X2", "input", False), ("X3", "input", False), ("dX", "input", False), ("dY", "output", False),
                ("y1", "output", True), ("dy", "output", True), ("dx1", "input", True), ("dx2", "input", True))}
            n0 = len(E.effects)
            for call in (
                lambda: D.call(I.o, "compute", vec["X1"], vec["y1"]),
                lambda: D.call(I.o, "compute_jacvec_product", vec["X2"], vec["dx1"], vec["dY"], const("rev")),
                lambda: D.call(I.o, "compute_jacvec_product", vec["X3"], vec["dX"], vec["dy"], const("fwd")),
                lambda: D.call(I.o, "compute_jacvec_product", vec["X3"], vec["dx2"], vec["dY"], const("rev")),
            ):
                call()
                D.st.pc = ()
            step = D.scalar("step")
            for call in (lambda: D.call_value(I.run_step, step, I.S), lambda: D.call_value(I.run_rev, step, I.S, I.P)):
                call()
                D.st.pc = ()
            R.absorb(E)
            ef = [e for e in E.effects[n0:] if e.kind == "collective" or e.kind == "call" and e.name in OPS]
            syms = {n: T.sym(n, T.shape(E.get(D.st, ("f", v.args[0], "_flat")))) for n, v in vec.items()}

            def prepare(ms, s):
                for m, r in zip(ms, (0, 1 + s % 3)):
                    m.fixed[rank] = Fraction(r)
                a, b = ms
                pos = {k: int(a(I.parts(k)[0][n][0])) for k, n in (("input", "time_initial"), ("output", "time_final"))}
                rnd = random.Random(f"{R.seed}:{s}")
                for n, k in (("X1", "input"), ("X2", "input"), ("X3", "input"), ("dX", "input"), ("dY", "output")):
                    x, y = list(a(syms[n])), list(b(syms[n]))
                    if n == "X2":
                        kind = s % 4
                        if kind in (0, 2):
                            x = list(a.fixed[syms["X1"]])
                        if kind in (0, 1):
                            y = list(b.fixed[syms["X1"]])
                        if kind == 3:
                            x[pos[k]] += 1
                        elif kind != 0:
                            x[pos[k]] = a.fixed[syms["X1"]][pos[k]]
                    y[pos[k]] = x[pos[k]]
                    a.fixed[syms[n]], b.fixed[syms[n]] = x, y
                for m in ms:
                    m.memo.clear()

            names = set(vec)
            pair(R, "runs with different data", [(D, ef), (D, ef)], local=lambda s: s in names, prepare=prepare, n=32)


# ------------------------------------------------------------------------- file access

def files(R, root):
    for emb in (False, True):
        for period in (1, 2, 3):
            with R.group(f"file writer, {'embedded' if emb else 'plain'}, period {period}"):
                sides = []
                for q in (QUANTITIES, OTHER):
                    W = Writer(root, emb, q, period)
                    D = W.D
                    n0 = len(D.E.effects)
                    for it in range(1, 5):
                        for which in ("before", "after"):
                            try:
                                D.call(W.o, which + "_iteration", const(it), W.S, W.ode, W.scheme)
                            except Dead:
                                R.fail("completes on every process", anchor_loc(D, H5CLS, which + "_iteration"), f"raises in step {it}")
                                return
                            D.st.pc = ()
                    R.absorb(D.E)
                    ef = [e for e in D.E.effects[n0:] if e.kind == "h5" and e.name in ("open", "close", "group", "require", "dataset")]
                    for e in ef:
                        if e.name == "open":
                            R.holds("the file is opened by all processes of the communicator", len(e.args) > 3 and e.args[2] is const("mpio") and e.args[3] is T.sym("comm"), anchor_loc(D, H5CLS, "before_iteration"), f"driver {T.show(e.args[2], 40)}, comm {T.show(e.args[3], 40)}")
                    sides.append((D, ef))
                pair(R, "different quantities", sides, keyed=("group", "require", "dataset", "open"), local=lambda s: s.startswith(("S", "n_")))


# ----------------------------------------------------------------------- discretization

GLOBAL = {"start_time", "final_time", "stage_times", "step_size"}


def stages(R, root):
    for emb in (False, True):
        for which in ("compute_step", "compute_step_derivative", "compute_step_adjoint_derivative"):
            with R.group(f"{'embedded ' if emb else ''}{which}"):
                D = run_step(R, root, emb, which)
                ef = [e for e in D.effs if e.kind == "collective" or e.kind == "call" and e.name.startswith("compute_")]
                sizes = {x.args[0] for x in (D.n, D.q, D.l) if x.op == "sym"}
                pair(R, "stages with different data", [(D, ef), (D, ef)], local=lambda s: s in sizes or s.startswith(("S.", "P.")) and s[2:] not in GLOBAL)


def c17(R, root):
    stages(R, root)
    for n in ("compute_update", "compute_update_derivative", "compute_update_adjoint_derivative", "compute_state_norm"):
        ode_ops(R, root, n)
    metadata(R, root)
    integrator_setup(R, root)
    integrator_runs(R, root)
    files(R, root)
