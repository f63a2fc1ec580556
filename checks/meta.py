"""C16: metadata of the quantities of a stage problem."""

from __future__ import annotations

from fractions import Fraction

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Reject, Undecided
from sa.interp import Dead
from sa.report import Anchor
from sa.terms import FALSE, FULL, NONE, ONE, TRUE, ZERO, const, mk
from .rk import Bad, decide, need

TWO = const(2)


class Meta:
    """the three public extraction functions on a modelled stage problem; a variable is
    name -> (iotype, tags, shape, global shape, local)"""

    def __init__(self, root, table, quantities, inputs=(), ode=False):
        D = self.D = Drive(root)
        E = self.E = D.E
        st = D.st
        self.dims = {k: D.dim("n_" + k) for k in "abdeuvrx"}
        self.rank = D.dim("rank")
        self.VS = {io: T.sym("sizes_" + io, (D.dim("n_ranks"), const(20))) for io in ("input", "output")}
        T.INTS.update(self.VS.values())
        self.table = table(self)
        self.problem, model = T.sym("problem"), T.sym("model")
        idx = {}
        for n in self.table:
            idx[n] = const(NAMES.index(n) if n in NAMES else 15 + len(idx) % 4)
        self.idx = idx
        cells = st.cells
        cells[("fx", self.problem, "model")] = model
        comm = T.sym("comm")
        for o in (self.problem, model):
            cells[("fx", o, "comm")] = comm
        cells[("fx", comm, "rank")] = self.rank
        E.hooks["ext:Get_rank"] = lambda *a: self.rank
        cells[("fx", model, "_var_sizes")] = E.new_dict(mk("dictv", tuple((const(k), E.new_array(v, T.shape(v), st)) for k, v in self.VS.items())), st)
        cells[("fx", model, "_var_allprocs_abs2idx")] = E.new_dict(mk("dictv", tuple((const(n), i) for n, i in idx.items())), st)
        self.tags = {n: E.new_set([const(t) for t in v[1]], st) for n, v in self.table.items()}
        self.reductions = []
        E.hooks["ext:get_io_metadata"] = self.get_io
        E.hooks["ext:allreduce"] = self.reduce
        lst = lambda xs: E.new_list(mk("tuple", tuple(const(x) for x in xs)), st)
        self.q, self.i = list(quantities), list(inputs)
        self.died = None
        try:
            if ode:
                E.hooks["ext:system_iter"] = lambda E, st, f, recv, a, k, node: E.new_list(mk("tuple", ()), st)
                o = D.new("OpenMDAOODE", self.problem, lst(self.q), **({"independent_input_quantities": lst(self.i)} if self.i else {}))
                self.meta = self.get(o, "time_integration_metadata")
                return
            self.meta = D.call_value(D.func("extract_time_integration_metadata"), self.problem, lst(self.q))
            if self.i:
                D.call_value(D.func("add_time_independent_input_metadata"), self.problem, lst(self.i), self.meta)
            D.call_value(D.func("add_distributivity_information"), self.problem, self.meta)
        except Dead:
            self.died = True

    def get_io(self, E, st, f, recv, args, kwargs, node):
        names = ["iotypes", "metadata_keys", "includes", "excludes", "is_indep_var", "is_design_var", "tags", "get_remote"]
        a = {n: v for n, v in zip(names, args)}
        a.update(kwargs)

        def strings(v, default):
            if v is None or v is NONE:
                return default
            d = E.deref(v, st)
            if d.op == "const" and isinstance(d.args[0], str):
                return [d.args[0]]
            ks = E.keyset(v, st)
            seq = ks if ks is not None else E.as_seq(v, st).args[0]
            return [E.deref(x, st).args[0] for x in seq]

        io = strings(a.get("iotypes"), ["input", "output"])
        tags = strings(a.get("tags"), [])
        keys = strings(a.get("metadata_keys"), None)
        remote = E.deref(a.get("get_remote", FALSE), st) is TRUE
        if remote:
            E.effect(st, "call", "get_io_metadata", None, tuple(const(x) for x in io + tags), node=node)
        out = []
        for n, (kind, ts, sh, gs, local) in self.table.items():
            if kind not in io or (tags and not set(tags) & set(ts)) or not (local or remote):
                continue
            d = {"tags": self.tags[n], "shape": mk("tuple", sh), "global_shape": mk("tuple", gs), "prom_name": const(n), "distributed": const(sh != gs)}
            out.append((const(n), E.new_dict(mk("dictv", tuple((const(k), v) for k, v in d.items() if keys is None or k in keys)), st)))
        return E.new_dict(mk("dictv", tuple(out)), st)

    def reduce(self, E, st, f, recv, args, kwargs, node):
        a = [E.deref(x, st) for x in list(args) + list(kwargs.values())]
        op = T.show(a[1], 60) if len(a) > 1 else "SUM"
        E.effect(st, "call", "allreduce", None, (const(op),), node=node)
        k = len(self.reductions)
        s = T.truth(T.sym(f"others_match{k}"))
        self.reductions.append(s)
        v = a[0]
        if "LAND" in op or "MIN" in op or "PROD" in op:
            return T.land(T.truth(v), s)
        if "LOR" in op or "MAX" in op:
            return T.lor(T.truth(v), T.lnot(s))
        return E.unk("reduction " + op, node)

    # ------------------------------------------------------------------ reading

    def get(self, obj, *path):
        v = obj
        for p in path:
            v = self.E.get(self.D.st, ("f", v.args[0], p)) if v is not None and v.op == "obj" else None
            if v is not None and p.endswith("metadata"):
                continue
        return v

    def val(self, obj, *path):
        v = self.get(obj, *path)
        return None if v is None else self.E.materialize(self.E.deref(v, self.D.st), self.D.st)

    def entries(self, which):
        v = self.get(self.meta, which)
        s = self.E.as_seq(v, self.D.st)
        return list(s.args[0]) if s.op == "tuple" else None

    def outcome(self):
        """kinds of exceptions that can leave the three functions"""
        out = []
        for x in self.D.raises():
            if x.kind != "raise":
                continue
            v = x.val
            nm = self.E.objcls[v.args[0]].name if v.op == "obj" and v.args[0] in self.E.objcls else T.show(v, 60)
            out.append((nm, f"{x.loc[0]}:{x.loc[1]} in {x.loc[2]}" if x.loc else ""))
        return out


def base(**change):
    """a consistent stage problem; change replaces or (with None) removes variables"""

    def table(M):
        a, b, e, u, v, r = (M.dims[k] for k in "abeuvr")
        d = T.item(M.VS["output"], (M.rank, const(5)))
        w = T.item(M.VS["input"], (M.rank, const(11)))
        t = {
            "g.t": ("input", ["time_variable"], (ONE,), (ONE,), True),
            "g.a_old": ("input", ["step_input_var", "a"], (a,), (a,), True),
            "g.a_acc": ("input", ["accumulated_stage_var", "a"], (a,), (a,), True),
            "g.a_stage": ("output", ["a", "stage_output_var"], (a,), (a,), True),
            "c.c_stage": ("output", ["c", "stage_output_var"], (r,), (r,), False),
            "g.d_stage": ("output", ["d", "stage_output_var", "note"], (d,), (T.add(d, r),), True),
            "h.b_stage": ("output", ["b", "stage_output_var"], (b, TWO), (b, TWO), True),
            "g.d_acc": ("input", ["accumulated_stage_var", "d"], (d,), (T.add(d, r),), True),
            "g.d_old": ("input", ["step_input_var", "d"], (d,), (T.add(d, r),), True),
            "h.other": ("output", ["unrelated"], (e,), (e,), True),
            "g.u": ("input", ["u", "time_independent_input_var"], (u,), (u,), True),
            "g.w": ("input", ["time_independent_input_var", "w"], (w,), (T.add(w, r),), True),
            "c.z": ("input", ["z", "time_independent_input_var"], (r,), (r,), False),
            "h.v": ("input", ["v", "time_independent_input_var"], (TWO, v), (TWO, v), True),
            "h.in": ("input", [], (e,), (e,), True),
        }
        for k, x in change.items():
            k = k.replace("__", ".")
            if x is None:
                t.pop(k)
            else:
                t[k] = x(M) if callable(x) else x
        return t

    return table


NAMES = ["g.t", "g.a_old", "g.a_acc", "g.a_stage", "c.c_stage", "g.d_stage", "h.b_stage", "g.d_acc", "g.d_old", "h.other", "g.u", "g.w", "c.z", "h.v", "h.in"]
Q, I = ["a", "c", "d", "b"], ["u", "w", "z", "v"]


def var(io, *tags, shape="e"):
    return lambda M: (io, list(tags), (M.dims[shape],), (M.dims[shape],), True)


GOOD = {
    "full": (base(), Q, I),
    "requested in another order": (base(), ["b", "a", "c", "d"], ["v", "u", "w", "z"]),
    "no independent inputs": (base(), Q, []),
    "no time variable": (base(g__t=None), Q, I),
    "one quantity": (base(), ["d"], ["w"]),
    "output only": (base(), ["b"], ["v"]),
    "time of shape (1, 1)": (base(g__t=("input", ["time_variable"], (ONE, ONE), (ONE, ONE), True)), Q, I),
    "unrequested quantities": (base(), ["a", "c"], ["z"]),
    "an output that shows the time": (base(h__t=("output", ["time_variable"], (ONE,), (ONE,), True)), Q, I),
    "an output that repeats an independent input": (base(h__more=var("output", "u", shape="u")), Q, I),
    "an input that only repeats the tag of a quantity": (base(h__more=var("input", "b")), Q, I),
}

BAD = {
    "quantity without stage_output_var": (base(g__a_stage=var("output", "a", shape="a")), Q, I),
    "two variables with stage_output_var for a quantity": (base(h__more=var("output", "a", "stage_output_var", shape="a")), Q, I),
    "step_input_var without accumulated_stage_var": (base(g__a_acc=None), Q, I),
    "accumulated_stage_var without step_input_var": (base(g__a_old=None), Q, I),
    "distributed quantity without step_input_var": (base(g__d_old=None), ["d"], []),
    "two variables with step_input_var": (base(h__more=var("input", "a", "step_input_var", shape="a")), Q, I),
    "two variables with accumulated_stage_var": (base(h__more=var("input", "a", "accumulated_stage_var", shape="a")), Q, I),
    "two of each input variable": (base(h__more=var("input", "a", "accumulated_stage_var", shape="a"), h__yet=var("input", "a", "step_input_var", shape="a")), Q, I),
    "two quantity tags on one variable": (base(h__b_stage=var("output", "a", "b", "stage_output_var")), Q, I),
    "stage_output_var requested as quantity": (base(), Q + ["stage_output_var"], I),
    "missing quantity": (base(), Q + ["missing"], I),
    "missing quantity named like the beginning of another": (base(h__more=var("output", "alpha", "stage_output_var")), Q + ["alpha", "al"], I),
    "missing quantity named like the end of another": (base(h__more=var("output", "alpha", "stage_output_var")), Q + ["alpha", "pha"], I),
    "missing quantity whose name begins with another": (base(), Q + ["a1"], I),
    "missing quantity named like another in capitals": (base(), Q + ["A"], I),
    "quantity named like a variable": (base(), Q + ["g.a_stage"], I),
    "missing independent input named like the beginning of another": (base(h__more=var("input", "ulm", "time_independent_input_var")), Q, I + ["ulm", "ul"]),
    "missing independent input whose name begins with another": (base(), Q, I + ["u1"]),
    "independent input requested as quantity": (base(), Q + ["u"], I),
    "quantity requested as independent input": (base(), Q, I + ["a"]),
    "only a missing quantity": (base(), ["missing"], []),
    "quantity tag only on inputs": (base(g__a_stage=None), Q, I),
    "two time variables": (base(h__t=("input", ["time_variable"], (ONE,), (ONE,), True)), Q, I),
    "three time variables": (base(h__t=("input", ["time_variable"], (ONE,), (ONE,), True), h__t2=("input", ["time_variable"], (ONE,), (ONE,), True)), Q, I),
    "time variable of size 2": (base(g__t=("input", ["time_variable"], (TWO,), (TWO,), True)), Q, I),
    "time variable of shape (1, 2)": (base(g__t=("input", ["time_variable"], (ONE, TWO), (ONE, TWO), True)), Q, []),
    "independent input without time_independent_input_var": (base(g__u=var("input", "u", shape="u")), Q, I),
    "two variables with time_independent_input_var for a quantity": (base(h__more=var("input", "u", "time_independent_input_var", shape="u")), Q, I),
    "two independent quantity tags on one variable": (base(g__u=var("input", "u", "v", "time_independent_input_var")), Q, I),
    "time_independent_input_var requested as quantity": (base(), Q, I + ["time_independent_input_var"]),
    "missing independent input": (base(), Q, I + ["missing"]),
    "only a missing independent input": (base(), Q, ["missing"]),
    "independent tag on an output": (base(g__u=var("output", "u", "time_independent_input_var", shape="u")), Q, I),
}

ROLES = {"a": ("g.a_old", "g.a_acc", "g.a_stage"), "b": (None, None, "h.b_stage"), "c": (None, None, None), "d": ("g.d_old", "g.d_acc", "g.d_stage")}
INS = {"u": "g.u", "w": "g.w", "v": "h.v", "z": None}


def where(D, name):
    f = D.pkg.find_func(name)
    return f"{f[0].path}:{f[1].lineno} in {name}" if f else name


def product(sh):
    return T.mul(*sh) if len(sh) > 1 else sh[0]


def block(R, M, kind, names, size_field, list_field, loc):
    """one list of quantities: names, roles, slices, global slices, distribution"""
    D = M.D
    ents = M.entries(list_field)
    if ents is None:
        R.undecided(f"{kind} list", loc, "not a literal list")
        return
    got = [M.val(e, "name") for e in ents]
    gn = [g.args[0] if g is not None and g.op == "const" else None for g in got]
    if sorted(map(str, gn)) != sorted(names):
        R.fail(f"{kind}: exactly the requested quantities are listed", loc, f"listed {gn}, requested {names}")
        return
    R.ok(f"{kind}: exactly the requested quantities are listed")
    by = dict(zip(gn, ents))
    local = []
    sym_used = set()
    for n in names:
        e = by[n]
        outv = ROLES[n][2] if kind == "time integration" else INS[n]
        io = "output" if kind == "time integration" else "input"
        if kind == "time integration":
            for f, w in zip(("step_input_var", "accumulated_stage_var", "stage_output_var"), ROLES[n]):
                R.same(f"{n}: {f}", M.val(e, "translation_metadata", f), const(w) if w else NONE, loc)
        else:
            R.same(f"{n}: time_independent_input_var", M.val(e, "translation_metadata", "time_independent_input_var"), const(outv) if outv else NONE, loc)
        R.same(f"{n}: local", M.val(e, "array_metadata", "local"), const(outv is not None), loc)
        if outv is None:
            v = next(x for x in M.table.values() if n in x[1])
            R.same(f"{n}: global shape", M.val(e, "array_metadata", "global_shape"), mk("tuple", v[3]), loc)
            R.same(f"{n}: holds nothing here", T.sub(M.val(e, "array_metadata", "end_index"), M.val(e, "array_metadata", "start_index")), ZERO, loc, dims=D.dims)
            match = FALSE
        else:
            _, _, sh, gs, _ = M.table[outv]
            R.same(f"{n}: shape", M.val(e, "array_metadata", "shape"), mk("tuple", sh), loc)
            R.same(f"{n}: global shape", M.val(e, "array_metadata", "global_shape"), mk("tuple", gs), loc)
            local.append((n, e, product(sh)))
            if sh == gs:
                lo, hi = ZERO, product(sh)
                match = TRUE
            else:
                bv = T.fresh_bv()
                lo = T.msum(bv, mk("range", ZERO, M.rank), T.item(M.VS[io], (bv, M.idx[outv])))
                hi = T.add(lo, sh[0])
                match = FALSE
            facts = [T.lt(M.rank, T.sym("n_ranks", ()))]
            R.same(f"{n}: global start", M.val(e, "array_metadata", "global_start_index"), lo, loc, dims=D.dims, facts=facts)
            R.same(f"{n}: global end", M.val(e, "array_metadata", "global_end_index"), hi, loc, dims=D.dims, facts=facts)
        dist = M.val(e, "array_metadata", "distributed")
        wloc = where(D, "add_distributivity_information")
        cands = [s for s in M.reductions if T.lnot(T.land(match, s)) is dist and s not in sym_used] if match is TRUE else []
        if match is FALSE:
            R.same(f"{n}: distributed where a shape differs from the global one", dist, TRUE, wloc, dims=D.dims)
        elif cands:
            sym_used.add(cands[0])
            R.ok(f"{n}: distributed exactly if the shapes differ on some rank")
        else:
            R.same(f"{n}: distributed exactly if the shapes differ on some rank", dist, T.lnot(T.land(match, M.reductions[0])) if M.reductions else TRUE, wloc)
    # partition
    total = M.val(M.meta, size_field)
    label = f"{kind}: slices are contiguous, disjoint and cover the vector"
    if not local:
        R.same(f"{kind}: empty vector", total, ZERO, loc)
        return
    parts = [(n, M.val(e, "array_metadata", "start_index"), M.val(e, "array_metadata", "end_index"), size) for n, e, size in local]
    if total is None or any(x is None for q in parts for x in q):
        R.undecided(label, loc, "bounds not found")
        return
    seen = 0
    try:
        for m in R.models(facts=[T.lt(M.rank, T.sym("n_ranks", ()))], dims=D.dims):
            try:
                got = sorted((m(lo), m(hi), m(size), n) for n, lo, hi, size in parts)
                tot = m(total)
            except Reject:
                continue
            if not all(isinstance(x, (Fraction, int)) for q in got for x in q[:3]) or not isinstance(tot, (Fraction, int)):
                raise Undecided("bounds are not numbers")
            at = 0
            for lo, hi, size, n in got:
                if hi - lo != size:
                    R.fail(label, loc, f"{n} has length {hi - lo}, required {size}")
                    return
                if lo != at:
                    R.fail(label, loc, f"{n} starts at {lo}, required {at}")
                    return
                at = hi
            if tot != at:
                R.fail(label, loc, f"vector size {tot}, slices cover {at}")
                return
            seen += 1
    except Undecided as x:
        R.undecided(label, loc, str(x))
        return
    R.holds(label, True if seen > 4 else None, loc)


def good(R, root, name, only_user=False, ode=False):
    table, q, i = GOOD[name]
    with R.group(name + (", as discretized ODE" if ode else "")):
        M = Meta(root, table, q, i, ode)
        D = M.D
        R.absorb(D.E)
        loc = where(D, "extract_time_integration_metadata")
        iloc = where(D, "add_time_independent_input_metadata")
        for n, v in M.table.items():
            ks = M.E.keyset(M.tags[n], D.st)
            if ks is None or sorted(k.args[0] for k in ks) != sorted(v[1]):
                R.fail("tags of the model are not modified", loc, f"tags of {n} become {ks}")
            else:
                R.ok("tags of the model are not modified")
        if only_user:
            return
        out = M.outcome()
        if M.died:
            R.fail("consistent stage problem is accepted", out[-1][1] if out else loc, f"raises {out[-1][0] if out else '?'}")
            return
        live = [x for x in D.raises() if x.kind == "raise"]
        if live:
            R.undecided("consistent stage problem is accepted", out[0][1], "a guard of an error could not be decided: " + "; ".join(T.show(g, 80) for g in live[0].st.pc[-2:]))
        else:
            R.ok("consistent stage problem is accepted")
        R.same("time variable", M.val(M.meta, "time_variable"), const("g.t") if "g.t" in M.table else NONE, loc)
        block(R, M, "time integration", q, "time_integration_array_size", "time_integration_quantity_list", loc)
        block(R, M, "independent inputs", i, "time_independent_input_size", "time_independent_input_quantity_list", iloc)


def bad(R, root, name):
    table, q, i = BAD[name]
    with R.group(name):
        M = Meta(root, table, q, i)
        R.absorb(M.D.E)
        out = M.outcome()
        fn = "add_time_independent_input_metadata" if "independent" in name else "extract_time_integration_metadata"
        if not M.died:
            live = [x for x in M.D.raises() if x.kind == "raise"]
            unbound = [w for w in M.E.notes if w[0].startswith("unbound name")]
            if unbound and not live:
                R.fail("inconsistent stage problem is rejected with a setup error", f"{unbound[0][1][0]}:{unbound[0][1][1]}", unbound[0][0])
            elif live or M.E.notes:
                R.undecided("inconsistent stage problem is rejected", where(M.D, fn), "guard of an error not decided")
            else:
                R.fail("inconsistent stage problem is rejected", where(M.D, fn), "accepted")
            return
        nm, loc = out[-1] if out else ("?", where(M.D, fn))
        if nm in ("SetupError",) or any("SetupError" == getattr(c, "name", "") for c in getattr(M.E.cls(nm), "mro", ())):
            R.ok("inconsistent stage problem is rejected with a setup error")
        else:
            R.fail("inconsistent stage problem is rejected with a setup error", loc, f"raises {nm}")


def c16(R, root):
    for n in GOOD:
        good(R, root, n)
    for n in ("full", "no independent inputs"):
        good(R, root, n, ode=True)
    for n in BAD:
        bad(R, root, n)
