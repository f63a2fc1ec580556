"""C05, C21: ownership of state data and of user supplied objects."""

from __future__ import annotations

import itertools

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Undecided
from sa.interp import Dead
from sa.report import Anchor
from sa.terms import NONE, ONE, TRUE, ZERO, const, mk
from .ckpt import again, check_forward, check_reverse, strategies, setup as ckpt_setup, variants, earlier, run_forward
from .integ import CLS, Integ, VARIANTS, dirty, vname
from .rk import anchor_loc, run_step
from .states import disc_cls, make, tis


def root_of(ref):
    """identity of the memory behind an array reference"""
    return ref.args[0] if ref.op == "aref" else None


def kept(R, D, o, before, loc, what):
    """the state still uses the arrays it had"""
    now = D.leaves(o)
    for k, v in before.items():
        w = now.get(k)
        if w is None or w.op not in ("aref",):
            R.holds(f"{what}: storage of {k} kept", None if w is not None and w.op in ("ite", "unk", "hdr", "loopout") else False, loc, f"{k} is rebound to {T.show(w, 80) if w is not None else None}")
        else:
            R.holds(f"{what}: storage of {k} kept", w is v, loc, f"{k} is rebound to another array instead of being written in place")


def disjoint(R, D, objs, loc, what):
    """no two fields share memory"""
    seen, ok = {}, True
    for n, o in objs.items():
        for k, v in D.leaves(o).items():
            if v.op != "aref":
                continue
            r = root_of(v)
            if r in seen:
                ok = False
                R.fail(f"{what}: fields do not share memory", loc, f"{n}.{k} and {seen[r]} are the same array")
            seen[r] = f"{n}.{k}"
    if ok:
        R.ok(f"{what}: fields do not share memory", loc)


# ------------------------------------------------------------------------- C05

def states_own(R, root):
    for whole in (False, True):
        for emb in (False, True):
            anch = "TimeIntegrationState" if whole else disc_cls(emb)
            with R.group(("TimeIntegrationState of " if whole else "") + disc_cls(emb)):
                D = Drive(root)
                D.sizes()
                a, b = make(D, "A", emb, whole), make(D, "B", emb, whole)
                loc = anchor_loc(D, anch, "set")
                disjoint(R, D, {"new state": a, "other state": b}, loc, "construction")
                before = D.leaves(a)
                D.call(a, "set", b)
                kept(R, D, a, before, loc, "set")
                disjoint(R, D, {"state": a, "source": b}, loc, "set")
                d = D.call(a, "to_dict")
                loc = anchor_loc(D, anch, "from_dict")
                o = D.call_value(D.E.attr(D.cls_term(anch), "from_dict", D.st), d)
                if o.op == "obj":
                    disjoint(R, D, {"imported state": o, "exported state": a}, loc, "from_dict")
                R.absorb(D.E)


def steps_own(R, root):
    for emb in (False, True):
        cname = "StageOrderedEmbeddedRungeKuttaDiscretization" if emb else "StageOrderedRungeKuttaDiscretization"
        for which in ("compute_step", "compute_step_derivative", "compute_step_adjoint_derivative"):
            with R.group(f"{which}{' embedded' if emb else ''}"):
                D = run_step(R, root, emb, which)
                loc = anchor_loc(D, cname, which)
                objs = {"state": D.S}
                if D.P is not None:
                    objs["perturbation"] = D.P
                if D.out is not None and D.out not in objs.values():
                    objs["result"] = D.out
                # (a rebound field is harmless here as long as no two fields share an array:
                # the integrator copies the result into the live state)
                disjoint(R, D, objs, loc, which)


def starts_own(R, root):
    """states made from starting or finalization values do not live in the arrays of these values"""
    for emb in (False, True):
        cname = "StageOrderedEmbeddedRungeKuttaDiscretization" if emb else "StageOrderedRungeKuttaDiscretization"
        for which in ("starting_scheme", "starting_scheme_derivative", "finalization_scheme_adjoint_derivative"):
            with R.group(f"{which}{' embedded' if emb else ''}"):
                D = Drive(root)
                D.sizes()
                ode = D.ode()
                disc = D.new(cname, D.tableau(emb))
                names = ("initial_time", "initial_values", "independent_inputs") if "starting" in which else ("final_time", "final_values", "final_independent_outputs")
                cls = "TimeDiscretizationStartingValues" if "starting" in which else "TimeDiscretizationFinalizationValues"
                mk_v = lambda p: D.new(cls, **dict(zip(names, (D.scalar(p + ".t"), D.array(p + ".y", D.n), D.array(p + ".x", D.p if "starting" in which else D.q)))))
                V, W = mk_v("V"), mk_v("W")
                S = D.rk_state("S", emb)
                a = {"starting_scheme": (V,), "starting_scheme_derivative": (V, W)}.get(which, (S, W))
                loc = anchor_loc(D, cname, "time_discretization_" + which)
                o = D.call(disc, "time_discretization_" + which, ode, *a, D.scalar("h"))
                if o.op != "obj":
                    R.undecided("new state", loc, T.show(o, 100))
                    continue
                disjoint(R, D, {"new state": o, "given values": V, "given perturbations": W, "given state": S}, loc, which)
                R.absorb(D.E)


def integrator_own(R, root):
    for emb, ad, timed in VARIANTS[:3]:
        with R.group(f"integrator {vname(emb, ad, timed)}"):
            I = Integ(root, emb=emb, adaptive=ad, timed=timed)
            D = I.D
            objs = {"state": I.S, "perturbation": I.P}
            first = {n: dict(D.leaves(o)) for n, o in objs.items()}
            disjoint(R, D, objs, I.loc("setup"), "setup")
            step = D.scalar("step")
            X = I.vector("inputs", "input")
            runs = {
                "step function": lambda: D.call_value(I.run_step, step, I.S),
                "reverse step function": lambda: D.call_value(I.run_rev, step, I.S, I.P),
                "compute": lambda: D.call(I.o, "compute", X, I.vector("outputs", "output")),
                "forward mode": lambda: D.call(I.o, "compute_jacvec_product", X, I.vector("d_inputs", "input"), I.vector("d_outputs", "output", zero=True), const("fwd")),
                "reverse mode": lambda: D.call(I.o, "compute_jacvec_product", X, I.vector("d_inputs2", "input", zero=True), I.vector("d_outputs2", "output"), const("rev")),
            }
            for n, f in runs.items():
                n0 = len(D.E.effects)
                f()
                D.st.pc = ()
                loc = I.loc("compute" if n == "compute" else "compute_jacvec_product") if "function" not in n else n
                for k, o in objs.items():
                    kept(R, D, o, first[k], loc, f"{n}: {k}")
                disjoint(R, D, objs, loc, n)
                g = lambda x: D.E.get(D.st, ("f", I.ck.args[0], x))
                R.holds(f"{n}: the checkpointer keeps its states", g("state") is I.S and g("state_perturbation") is I.P, loc, "states of the checkpointer are replaced")
                for e in D.E.effects[n0:]:
                    if e.kind == "call" and e.name in ("iterate_forward", "iterate_reverse"):
                        s = e.raw[0]
                        want = I.S if e.name == "iterate_forward" else I.P
                        if s is not want and s.op == "obj":
                            ls = {root_of(v) for v in D.leaves(s).values() if v.op == "aref"}
                            lw = {root_of(v) for v in D.leaves(want).values() if v.op == "aref"}
                            R.holds(f"{n}: state given to {e.name} does not share memory with the live state", not ls & lw, e.where(), "partly shared arrays")
            R.absorb(D.E)


def pyrevolve_checkpoint(R, root):
    """get_data copies, get_data_location exposes the live arrays, in the same order"""
    for emb, (sizes, stages) in itertools.product((False, True), ((None, 2), ((1, 1, 1, 1), 2), ((2, 0, 0, 3), 2), ((1, 1, 1, 1), 1), ((2, 1, 0, 1), 1))):
        with R.group(f"RungeKuttaCheckpoint{' embedded' if emb else ''}{f' sizes {sizes}' if sizes else ''}{' one stage' if stages == 1 else ''}"):
            from .ckpt import STUBS

            D = Drive(root, stubs=STUBS["all"])
            D.sizes(stages=stages, concrete=sizes)
            S = tis(D, "S", emb)
            live = D.leaves(S)
            ck = D.new("RungeKuttaCheckpoint", S)
            for k, v in live.items():
                if v.op == "aref":
                    D.E.write_ref(v, T.sym("now." + k, tuple(T.shape(v))), D.st, None)
            loc = anchor_loc(D, "RungeKuttaCheckpoint", "get_data")
            data = D.call(ck, "get_data", D.scalar("timestep"))
            locs = D.call(ck, "get_data_location", D.scalar("timestep"))
            size = D.E.attr(ck, "size", D.st)
            R.absorb(D.E)
            seqs = [D.E.as_seq(x, D.st) for x in (data, locs)]
            seqs = [flat(x) for x in seqs]
            if any(s.op != "tuple" for s in seqs):
                # which arrays are saved is decided when saving and when restoring, at different contents
                cond = [c for s in seqs for c in selections(s)]
                by = [c for c in cond if any(x.op == "sym" and x.args[0].startswith("now.") for x in T.subterms(c))]
                if by:
                    R.fail("what is saved does not depend on the saved values", loc, f"selected by {T.show(by[0], 200)}")
                else:
                    R.undecided("data and locations", loc, "not literal lists: " + "; ".join(T.show(s, 600) for s in seqs if s.op != "tuple"))
                continue
            data, locs = (list(s.args[0]) for s in seqs)
            name = {root_of(v): k for k, v in live.items() if v.op == "aref"}
            lloc = anchor_loc(D, "RungeKuttaCheckpoint", "get_data_location")
            # every live array is exposed once, as a whole or row by row
            parts, foreign, odd = {}, 0, False
            for x in locs:
                if x.op != "aref":
                    odd = True
                elif root_of(x) not in name:
                    foreign += 1
                else:
                    parts.setdefault(name[root_of(x)], []).append(x.args[1])
            if odd:
                R.undecided("locations are the live arrays", lloc, "not array references")
            else:
                R.holds("locations are the live arrays", not foreign, lloc, f"{foreign} locations are not live arrays")
            for k, v in live.items():
                if v.op != "aref":
                    continue
                if any(T.numval(d) == 0 for d in T.shape(v)):
                    continue  # nothing to save
                idx = parts.get(k, [])
                if idx == [()] and len(set(map(str, idx))) == 1:
                    R.ok(f"{k} is saved and restored once")
                    continue
                rows = T.shape(v)[0]
                n = rows.args[0] if rows.op == "num" else None
                first = [p[0] for p in idx if len(p) == 1]
                nums = []
                for f in first:
                    f = f[1] if isinstance(f, tuple) and len(f) == 2 else f
                    nums.append(f.args[0] if isinstance(f, T.T) and f.op == "num" else None)
                if not idx:
                    R.fail(f"{k} is saved and restored once", lloc, "not exposed" if not odd else "not exposed (or not as array)") if not odd else None
                elif n is None or None in nums or len(first) != len(idx):
                    R.undecided(f"{k} is saved and restored once", lloc, f"parts {idx}")
                else:
                    R.holds(f"{k} is saved and restored once", sorted(nums) == list(range(int(n))), lloc, f"parts {nums} of {n} rows")
            R.holds("as many data as locations", len(data) == len(locs), loc, f"{len(data)} and {len(locs)}")
            for i, (y, x) in enumerate(zip(locs, data)):
                if x.op == "aref":
                    R.holds(f"saved item {i} is a copy", root_of(x) not in name, loc, f"the saved array is the live array {name.get(root_of(x))}")
                elif x.op in ("ite", "unk"):
                    R.undecided(f"saved item {i} is a copy", loc, T.show(x, 100))
                R.same(f"saved item {i} is the current content of its location", D.val(x), D.val(y), loc, dims=D.dims)
            tot = ZERO
            for k, v in live.items():
                if v.op == "aref":
                    sh = T.shape(v)
                    tot = T.add(tot, T.mul(*sh) if len(sh) > 1 else sh[0])
            R.same("size is the number of saved values", D.E.deref(size, D.st), tot, anchor_loc(D, "RungeKuttaCheckpoint", "size"), dims=D.dims)


def flat(s):
    if s.op != "concat":
        return s
    ps = [flat(x) for x in s.args[0]]
    if all(p.op == "tuple" for p in ps):
        return mk("tuple", tuple(x for p in ps for x in p.args[0]))
    return mk("concat", tuple(ps))


def selections(s):
    """conditions deciding which items a list has"""
    if s.op == "concat":
        return [c for x in s.args[0] for c in selections(x)]
    if s.op == "ite":
        a, b = flat(s.args[1]), flat(s.args[2])
        own = [] if a.op == b.op == "tuple" and len(a.args[0]) == len(b.args[0]) else [s.args[0]]
        return own + selections(a) + selections(b)
    return []


def c05(R, root):
    states_own(R, root)
    steps_own(R, root)
    starts_own(R, root)
    integrator_own(R, root)
    pyrevolve_checkpoint(R, root)
    for c in strategies(root):
        for v in variants(c):
            if not v[1]:
                check_forward(R, root, c, *v)
                check_reverse(R, root, c, *v)
        again(R, root, c, check_reverse)


# ------------------------------------------------------------------------- C21

def snapshot(D, v, st=None, depth=0, seen=None):
    """deep content of a value"""
    st = st or D.st
    E = D.E
    seen = {} if seen is None else seen
    if v in seen:
        return ("again", seen[v])
    if v.op == "obj":
        seen[v] = len(seen)
        return ("obj", v.args[0], tuple(sorted((k, snapshot(D, x, st, depth + 1, seen)) for k, x in D.fields(v, st).items())))
    if v.op == "list":
        seen[v] = len(seen)
        return ("list", snapshot(D, E.get(st, ("L", v.args[0])), st, depth + 1, seen))
    if v.op == "dict":
        seen[v] = len(seen)
        return ("dict", snapshot(D, E.get(st, ("D", v.args[0])), st, depth + 1, seen))
    if v.op == "tuple":
        return ("tuple",) + tuple(snapshot(D, x, st, depth + 1, seen) for x in v.args[0])
    if v.op == "dictv":
        return ("dictv",) + tuple((k.id, snapshot(D, x, st, depth + 1, seen)) for k, x in v.args[0])
    if v.op == "aref" and not isinstance(v.args[0], T.T):
        return ("array", v.args[0], E.get(st, ("a", v.args[0])).id)
    return ("value", v.id)


def differ(a, b, path=""):
    """first difference of two snapshots"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == "obj":
            da, db = dict(a[2]), dict(b[2])
            for k in sorted(set(da) | set(db)):
                r = differ(da.get(k), db.get(k), path + "." + k)
                if r:
                    return r
        elif len(a) == len(b):
            for k, (x, y) in enumerate(zip(a, b)):
                if isinstance(x, tuple) or isinstance(y, tuple):
                    r = differ(x, y, path + (f"[{k - 1}]" if a[0] in ("tuple", "dictv") else ""))
                    if r:
                        return r
    return path or "content"


CACHES = ("v", "fx")


class Watch:
    """user objects under observation"""

    def __init__(self, R, D, objs):
        self.R, self.D, self.objs = R, D, dict(objs)
        self.before = {n: snapshot(D, v) for n, v in self.objs.items()}
        self.pre = set(D.st.cells)

    def check(self, loc, what):
        R, D = self.R, self.D
        for n, v in self.objs.items():
            now = snapshot(D, v)
            r = differ(self.before[n], now, n)
            w = loc
            if r:
                es = [e for e in D.E.effects if e.kind in ("dictstore", "liststore", "append", "extend", "clear", "pop", "delete", "setattr", "write")]
                es = [e for e in es if e.recv is not None and e.recv is v] or []
                if es:
                    w = es[-1].where()
            R.holds(f"{what}: {n} is not modified", r is None, w, f"{r} is modified")
        # objects made when the package is imported are shared by all users
        bad = []
        for k, v in D.st.cells.items():
            g = D.E.gcells.get(k)
            if g is not None and g is not v and k[0] in ("f", "a", "L", "D"):
                bad.append(k)
        R.holds(f"{what}: shared defaults are not modified", not bad, loc, f"a module level or default object is modified: {bad[:3]}")


def integrator_user(R, root):
    for emb, ad, timed in VARIANTS[:3]:
        for cbs in ("user", "empty", "none"):
            with R.group(f"integrator {vname(emb, ad, timed)}, callbacks {cbs}"):
                I = Integ(root, emb=emb, adaptive=ad, timed=timed, callbacks=cbs, controllers=("c1", "c2"), rank=0, setup=False, bare=cbs == "none")
                D = I.D
                X, dX, dY = I.vector("inputs", "input"), I.vector("d_inputs", "input"), I.vector("d_outputs", "output")
                objs = {n: v for n, v in I.options.items() if v.op in ("obj", "list", "dict")}
                objs["options"] = D.E.get(D.st, ("f", I.o.args[0], "options"))
                objs.update({"inputs": X, "input seeds": dX, "output seeds": dY})
                W = Watch(R, D, objs)

                def setup():
                    D.call(I.o, "setup")
                    I.after_setup()

                for n, f in (
                    ("setup", setup),
                    ("compute", lambda: D.call(I.o, "compute", X, I.vector("outputs", "output"))),
                    ("forward mode", lambda: D.call(I.o, "compute_jacvec_product", X, dX, I.vector("y", "output", zero=True), const("fwd"))),
                    ("reverse mode", lambda: D.call(I.o, "compute_jacvec_product", X, I.vector("x", "input", zero=True), dY, const("rev"))),
                    ("second setup", setup),
                ):
                    f()
                    D.st.pc = ()
                    W.check(I.loc("setup" if "setup" in n else "compute" if n == "compute" else "compute_jacvec_product"), n)
                R.absorb(D.E)


def checkpointers_user(R, root):
    for c in strategies(root):
        if "evolve" not in c:
            kinds = [None]
        else:
            kinds = ["SingleLevel", "Memory", "Disk", "MultiLevel", "Base"]
        for kind in kinds:
            with R.group(f"{c}{' ' + kind if kind else ''}"):
                opts = {}

                def prepare(D):
                    E, st = D.E, D.st
                    d = lambda x: E.new_dict(mk("dictv", tuple((const(k), v) for k, v in x.items())), st)
                    o = {"n_checkpoints": D.dim("n_ck")}
                    if kind == "MultiLevel":
                        o = {"storage_list": d({"Numpy": d({"n_ckp": D.dim("k1")}), "Disk": d({"n_ckp": D.dim("k2")}), "Bytes": d({"n_ckp": D.dim("k3")})})}
                    return dict(revolver_type=const(kind), revolver_options=d(o))

                D = user_checkpointer(root, c, prepare if kind else None)
                W = D.W = Watch(R, D, D.user)
                loc = anchor_loc(D, c, "iterate_forward")
                D.make()
                W.check(anchor_loc(D, c, "__post_init__") if kind else loc, "construction")
                if kind in (None, "SingleLevel", "Memory"):
                    for w in ("forward", "reverse"):
                        try:
                            earlier(D, w)
                        except Dead:
                            pass
                        W.check(loc, w)
                R.absorb(D.E)


def user_checkpointer(root, cname, prepare):
    from .ckpt import STUBS

    D = Drive(root, stubs=STUBS["all"])
    D.sizes(stages=2)
    D.N = D.dim("N")
    crit = D.new("PredefinedNumberOfSteps", D.N)
    run, rev = D.state_func("run_step", 1), D.state_func("run_rev", 2)
    D.S, D.P, D.I0, D.F0 = (tis(D, x, False) for x in ("S", "P", "I0", "F0"))
    kw = prepare(D) if prepare else {}
    D.user = {"termination criterion": crit, **kw}
    D.user = {k: v for k, v in D.user.items() if v.op in ("obj", "dict", "list")}

    def build():
        D.ck = D.new(cname, termination_criterion=crit, run_step_func=run, run_step_jacvec_rev_func=rev, state=D.S, state_perturbation=D.P, **kw)
        D.st.pc = ()

    D.make = build
    return D


def steps_user(R, root):
    """the tableau is read only"""
    for emb in (False, True):
        cname = "StageOrderedEmbeddedRungeKuttaDiscretization" if emb else "StageOrderedRungeKuttaDiscretization"
        with R.group("tableau in " + cname):
            D = Drive(root)
            D.sizes()
            ode = D.ode()
            tab = D.tableau(emb)
            W = Watch(R, D, {"tableau": tab})
            disc = D.new(cname, tab)
            W.check(anchor_loc(D, cname, "__init__"), "construction")
            S, P, h = D.rk_state("S", emb), D.rk_state("P", emb), D.scalar("h")
            for which, a in (("compute_step", (S,)), ("compute_step_derivative", (S, P)), ("compute_step_adjoint_derivative", (S, P))):
                D.call(disc, which, ode, *a, h)
                W.check(anchor_loc(D, cname, which), which)
            R.absorb(D.E)
    with R.group("tableau methods"):
        for emb in (False, True):
            D = Drive(root)
            D.sizes()
            tab = D.tableau(emb)
            W = Watch(R, D, {"tableau": tab})
            c = D.cls("EmbeddedButcherTableau" if emb else "ButcherTableau")
            for m in ("is_explicit", "is_diagonally_implicit", "is_singly_diagonally_implicit", "is_implicit", "number_of_stages", "min_p_order", "max_p_order", "is_embedded"):
                if D.E.lookup(c, m) is None:
                    continue
                v = D.E.attr(tab, m, D.st)
                if v.op in ("bound", "func"):
                    try:
                        D.call_value(v)
                    except Dead:
                        pass
                D.st.pc = ()
                W.check(anchor_loc(D, c.name, m), m)
            R.absorb(D.E)


def controllers_user(R, root):
    """configurations handed to controllers and factories are read only"""
    import inspect

    from .control import TABLE, config

    for fn, ref in TABLE.items():
        with R.group("factory " + fn):
            D = Drive(root)
            cfg, _ = config(D)
            args = {n: D.scalar("arg." + n) for n in inspect.signature(ref).parameters}
            D.st.pc = ()
            W = Watch(R, D, {"configuration": cfg})
            f = D.func(fn)
            loc = f"src/rkopenmdao/error_controllers.py in {fn}"
            a = D.call_value(f, config=cfg, **args)
            D.st.pc = ()
            W.check(loc, "construction")
            W2 = Watch(R, D, {"configuration": cfg})  # (the base controller becomes part of the chain)
            b = D.call_value(f, config=cfg, base=a, **args)
            D.st.pc = ()
            W2.check(loc, "chaining")
            R.absorb(D.E)


def c21(R, root):
    integrator_user(R, root)
    checkpointers_user(R, root)
    steps_user(R, root)
    controllers_user(R, root)
    from .meta import GOOD, good

    for n in GOOD:
        good(R, root, n, only_user=True)
