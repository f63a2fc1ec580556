"""C18: the HDF5 writer and the readers."""

from __future__ import annotations

import itertools
from fractions import Fraction

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Undecided, num
from sa.interp import Dead
from sa.terms import FALSE, NONE, ONE, TRUE, ZERO, const, mk
from sa.trace import expand
from .own import snapshot, differ
from .rk import Bad, anchor_loc, decide, need
from .states import tis

STUBS = {"h5py": "h5_model.py"}
CLS = "OpenMDAOHDF5Callback"
# name: (local shape, global shape, first global flat index of the local part, distributed)
QUANTITIES = {
    "a": ((3,), (3,), 0, False),
    "b": ((2, 2), (2, 2), 0, False),
    "c": ((2,), (5,), 2, True),
    "d": ((2, 3), (4, 3), 3, True),
    "e": ((0,), (4,), 0, True),
    "f": ((1,), (1,), 0, False),
    "g": ((1, 2, 2), (3, 2, 2), 8, True),
}
OTHER = {  # the same quantities on another process
    "a": ((3,), (3,), 0, False),
    "b": ((2, 2), (2, 2), 0, False),
    "c": ((0,), (5,), 5, True),
    "d": ((1, 3), (4, 3), 9, True),
    "e": ((4,), (4,), 0, True),
    "f": ((1,), (1,), 0, False),
    "g": ((0, 2, 2), (3, 2, 2), 12, True),
}


def size(sh):
    n = 1
    for x in sh:
        n *= x
    return n


def keys_of(E, st, t, m=None, b=None):
    """path term -> tuple of strings, splitting h5py's path notation"""
    out = []
    for x in E.as_seq(t, st).args[0]:
        out.append(E.deref(x, st))
    return tuple(out)


class H5:
    """file system model: events during the analysis, replayed in a model"""

    def __init__(self, D, contents=None):
        self.D, self.E, self.contents = D, D.E, contents
        self.made = {}  # file -> names that certainly exist, while only known names were created
        self.file, self.unsure = None, False
        H = self.E.hooks
        for n in ("open", "close", "group", "require", "dataset", "redataset", "write"):
            H["ext:h5_native." + n] = H["ext:" + n] = (lambda E, st, f, recv, a, k, node, n=n: self.event(n, a, st, node))
        for n in ("get", "keys", "items", "values", "contains", "length", "shape"):
            H["ext:h5_native." + n] = (lambda E, st, f, recv, a, k, node, n=n: getattr(self, "x_" + n)(st, node, *a))
        for n in ("open", "close", "write"):
            H.pop("ext:" + n, None)

    def event(self, n, a, st, node):
        E = self.E
        vals = tuple(E.materialize(E.deref(x, st), st) for x in a)
        e = E.effect(st, "h5", n, None, vals, node=node)
        self.track(n, vals, e)
        return NONE

    def track(self, n, vals, e):
        """names that exist in the file, as long as they are known"""
        if n in ("write", "close"):
            return
        k = [x.args[0] for x in (vals[0].args[0] if n != "open" else vals[:2]) if x.op == "const"] if n == "open" or vals[0].op == "tuple" else []
        if n != "open":
            k += [vals[1].args[0]] if vals[1].op == "const" else []
        if e.guard or len(k) != (2 if n == "open" else len(vals[0].args[0]) + 1 if vals[0].op == "tuple" else -1):
            # under a condition, or a name that is not known: no statement about top level names is affected
            # as long as the place is below one of them
            if n == "open" or vals[0].op != "tuple" or not vals[0].args[0] or e.guard:
                self.unsure = True
            return
        if e.loops:
            self.unsure |= n == "open" or len(k) == 1
            return
        if n == "open":
            self.file = k[0]
            if k[1] in ("w", "x", "w-"):
                self.made[self.file] = set()
            self.made.setdefault(self.file, set())
        else:
            t = tuple(x for y in k for x in str(y).split("/") if x)
            self.made.setdefault(self.file, set()).update(t[:i] for i in range(1, len(t) + 1))

    def node(self, proto, path, st):
        o = self.E.new_obj(self.D.cls("Node"), st)
        st.cells[("f", o.args[0], "_path")] = mk("tuple", path)
        return o

    def x_get(self, st, node, proto, path, key):
        E = self.E
        k = E.deref(key, st)
        path = keys_of(E, st, path)
        if k.op == "fmt" or k.op == "const" and isinstance(k.args[0], str):
            parts = (k,)
            if k.op == "const":
                parts = tuple(const(x) for x in k.args[0].split("/") if x)
            if self.contents is not None and self.find(path + parts) is None:
                raise Dead() if not E.handlers else Dead()
            return self.node(proto, path + parts, st)
        d = self.find(path)
        if d is None:
            E.effect(st, "h5", "read", None, (mk("tuple", path), k), node=node)
            return E.unk("read of a dataset", node)
        if k.op == "tuple" and not k.args[0]:
            return d if T.shape(d) != (ONE,) else d
        return E.subscript(d, k.args[0] if k.op == "tuple" else (k,), st, node)

    def find(self, path):
        c = self.contents
        for p in path:
            if not isinstance(c, dict) or p.op != "const" or p.args[0] not in c:
                return None
            c = c[p.args[0]]
        return c

    def listing(self, path, st, node):
        d = self.find(keys_of(self.E, st, path))
        if not isinstance(d, dict):
            return None
        return sorted(d)  # h5py lists names alphabetically

    def x_keys(self, st, node, path):
        l = self.listing(path, st, node)
        return mk("tuple", tuple(const(k) for k in l)) if l is not None else self.E.unk("listing of a file", node)

    def x_values(self, st, node, proto, path):
        l = self.listing(path, st, node)
        p = keys_of(self.E, st, path)
        return mk("tuple", tuple(self.node(proto, p + (const(k),), st) for k in l)) if l is not None else self.E.unk("listing of a file", node)

    def x_items(self, st, node, proto, path):
        l = self.listing(path, st, node)
        p = keys_of(self.E, st, path)
        return mk("tuple", tuple(mk("tuple", (const(k), self.node(proto, p + (const(k),), st))) for k in l)) if l is not None else self.E.unk("listing of a file", node)

    def x_contains(self, st, node, path, name):
        l = self.listing(path, st, node)
        n = self.E.deref(name, st)
        if self.contents is None and n.op == "const" and not self.unsure:
            p = keys_of(self.E, st, path)
            full = tuple(p) + tuple(const(x) for x in n.args[0].split("/") if x)
            if len(full) == 1 and not self.E.loops:
                return const(tuple(x.args[0] for x in full) in self.made.get(self.file, ()))
        if l is None or n.op != "const":
            return self.E.unk("listing of a file", node)
        return const(self.find(keys_of(self.E, st, path) + tuple(const(x) for x in n.args[0].split("/") if x)) is not None)

    def x_length(self, st, node, path):
        l = self.listing(path, st, node)
        if l is not None:
            return const(len(l))
        d = self.find(keys_of(self.E, st, path))
        return T.shape(d)[0] if d is not None else self.E.unk("listing of a file", node)

    def x_shape(self, st, node, path):
        d = self.find(keys_of(self.E, st, path))
        if d is None or isinstance(d, dict):
            return self.E.unk("shape of a dataset", node)
        return mk("tuple", tuple(T.shape(d)))


# ------------------------------------------------------------------ replay in a model

def text(v):
    if isinstance(v, str):
        return v
    raise Undecided("name of a group or dataset")


def path_of(m, t, b):
    out = []
    for p in t.args[0] if t.op == "tuple" else ():
        out += [x for x in text(m.ev(p, b)).split("/") if x]
    if t.op != "tuple":
        raise Undecided("path")
    return tuple(out)


def coords(idx, shape):
    """(list of coordinates, result shape) of a basic index"""
    idx = list(idx)
    if any(x is Ellipsis for x in idx):
        i = idx.index(Ellipsis)
        idx[i:i + 1] = [slice(None)] * (len(shape) - len(idx) + 1)
    idx += [slice(None)] * (len(shape) - len(idx))
    if len(idx) > len(shape):
        raise IndexError
    per, rs = [], []
    for x, n in zip(idx, shape):
        if isinstance(x, slice):
            r = list(range(*x.indices(n)))
            rs.append(len(r))
            per.append(r)
        else:
            if not -n <= x < n:
                raise IndexError
            per.append([x % n])
    return list(itertools.product(*per)), tuple(rs)


def py_index(m, t, b):
    ts = t.args[0] if t.op == "tuple" else (t,)
    out = []
    for x in ts:
        if x.op == "slice":
            out.append(slice(*(None if y is NONE else int(num(m.ev(y, b))) for y in x.args)))
        elif x is T.FULL:
            out.append(slice(None))
        elif "llipsis" in T.show(x, 40):
            out.append(Ellipsis)
        else:
            v = m.ev(x, b)
            out.append(int(num(v)))
    return out


def flat(v):
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    return [v]


def shape_of(v):
    if isinstance(v, (list, tuple)):
        return (len(v),) + (shape_of(v[0]) if v else ())
    return ()


def replay(m, D, effects, fs=None):
    """state of the file system after the events; fs: name -> {path: dataset or group}"""
    fs = {} if fs is None else fs
    cur = None

    def site(e):
        names = [x for x in e.stack if not x.split(".")[0] in ("Node", "File")]
        x = names[-1] if names else ""
        c = x.split(".")
        return anchor_loc(D, c[-2], c[-1]) if len(c) > 1 and D.E.cls(c[-2]) is not None else e.where()

    for e, b in expand(m, effects):
        w = site(e)
        n, a = e.name, e.args
        if n == "open":
            name, mode = m.ev(a[0], b), m.ev(a[1], b)
            if cur is not None:
                raise Bad("file is closed before it is opened again", w, "left open")
            if mode in ("w", "x", "w-"):
                fs[name] = {}
            elif mode == "r":
                fs.setdefault(name, {})
            elif mode == "r+":
                if name not in fs:
                    raise Bad("file exists when it is opened for changes", w, f"{name} is opened with mode r+ before it is created")
            elif mode == "a":
                fs.setdefault(name, {})
            else:
                raise Undecided(f"file mode {mode}")
            cur, changeable = name, mode != "r"
            continue
        if n == "close":
            cur = None
            continue
        if cur is None:
            raise Bad("file is open while it is accessed", w, n)
        f = fs[cur]
        if not changeable and n in ("group", "require", "dataset", "redataset", "write"):
            raise Bad("file is open for changes while it is changed", w, f"{n} in a file opened with mode r")
        if n in ("group", "require", "dataset", "redataset"):
            p = path_of(m, a[0], b) + tuple(x for x in text(m.ev(a[1], b)).split("/") if x)
            if p in f:
                if n == "require":
                    continue
                if n == "redataset":
                    v = m.ev(a[2], b)
                    sh = tuple(int(num(x)) for x in (v if isinstance(v, (list, tuple)) else (v,)))
                    if isinstance(f[p], dict) and f[p]["shape"] == sh:
                        continue
                raise Bad("groups and datasets are created once", w, f"{'/'.join(p)} exists already")
            for k in range(1, len(p)):
                if f.setdefault(p[:k], "group") != "group":
                    raise Bad("groups and datasets are created once", w, f"{'/'.join(p[:k])} is a dataset")
            if n not in ("dataset", "redataset"):
                f[p] = "group"
                continue
            sh = None
            if a[2] is not NONE:
                v = m.ev(a[2], b)
                sh = tuple(int(num(x)) for x in (v if isinstance(v, (list, tuple)) else (v,)))
            data = None
            if a[4] is not NONE:
                data = m.ev(a[4], b)
                sh = shape_of(data) if sh is None else sh
            if sh is None:
                raise Undecided("shape of a dataset")
            f[p] = {"shape": sh, "dtype": T.show(a[3], 60), "data": dict.fromkeys(itertools.product(*map(range, sh)))}
            if data is not None:
                f[p]["data"] = dict(zip(f[p]["data"], flat(data)))
            continue
        if n == "write":
            p = path_of(m, a[0], b)
            if not isinstance(f.get(p), dict):
                raise Bad("datasets exist before they are written", w, "/".join(p))
            d = f[p]
            try:
                cs, rs = coords(py_index(m, a[1], b), d["shape"])
            except IndexError:
                raise Bad("values are written inside the dataset", w, f"index {T.show(a[1], 80)} of {'/'.join(p)} with shape {d['shape']}") from None
            v = m.ev(a[2], b)
            vs = flat(v)
            if len(vs) == 1:
                vs = vs * len(cs)
            if len(vs) != len(cs):
                raise Bad("values written fit the selected part", w, f"{len(vs)} values for {len(cs)} places of {'/'.join(p)}")
            vsh = tuple(x for x in shape_of(v) if x != 1)
            if isinstance(v, (list, tuple)) and len(flat(v)) > 1 and vsh != tuple(x for x in rs if x != 1):
                raise Bad("values written fit the selected part", w, f"shape {shape_of(v)} into {rs}")
            for c, x in zip(cs, vs):
                d["data"][c] = num(x)
            continue
    if cur is not None:
        raise Bad("file is closed afterwards", w, "left open")
    return fs


# ------------------------------------------------------------------------- writer

class Writer:
    def __init__(self, root, emb, quantities, period=None):
        D = self.D = Drive(root, stubs=STUBS)
        E = self.E = D.E
        st = D.st
        D.sizes(stages=2)
        self.q = quantities
        self.total = sum(size(v[0]) for v in quantities.values())
        D.n = const(self.total)
        D.p, D.q, D.l = (const(1),) * 3
        self.h5 = H5(D)
        tl, at = [], 0
        self.at = {}
        # the order of the parts in the flat vector differs from the order in the list
        for n, (sh, gs, g0, dist) in quantities.items():
            k = size(sh)
            t = lambda x: mk("tuple", tuple(map(const, x)))
            am = D.new("ArrayMetadata", shape=t(sh), global_shape=t(gs), local=const(k > 0 or dist), distributed=const(dist), start_index=const(at), end_index=const(at + k), global_start_index=const(g0), global_end_index=const(g0 + k))
            self.at[n] = at
            at += k
            tr = D.new("TimeIntegrationTranslationMetadata", step_input_var=const(n + "_old"), accumulated_stage_var=const(n + "_acc"), stage_output_var=const(n + "_stage"))
            tl.append(D.new("TimeIntegrationQuantity", name=const("q_" + n), type=const("time_integration"), array_metadata=am, translation_metadata=tr))
        lst = lambda xs: E.new_list(mk("tuple", tuple(xs)), st)
        meta = D.new("TimeIntegrationMetadata", time_variable=const("time"), time_integration_array_size=const(self.total), time_independent_input_size=ZERO, time_integration_quantity_list=lst(tl), time_independent_input_quantity_list=lst([]))
        self.ode = T.sym("ode")
        st.cells[("fx", self.ode, "time_integration_metadata")] = meta
        self.meta = meta
        self.emb = emb
        kw = {} if period is None else {"write_out_period": const(period)}
        self.o = D.new(CLS, filename=const("file.h5"), comm=T.sym("comm"), **kw)
        self.scheme = T.sym("scheme")
        self.S = tis(D, "S", emb)

    def refill(self, tag):
        D = self.D
        for k, v in D.leaves(self.S).items():
            if v.op == "aref":
                sh = T.shape(v)
                D.st.cells[("a", v.args[0])] = T.sym(f"{tag}.{k}", sh)

    def sym(self, tag, k):
        v = self.D.leaves(self.S)[k]
        return T.sym(f"{tag}.{k}", T.shape(v))


def history(R, root, emb, period, steps, repeat=False, again=()):
    """the steps are written in order; again: steps which are recomputed afterwards (checkpointing)"""
    with R.group(f"{'embedded' if emb else 'plain'}, period {period or 'default'}{', second run' if repeat else ''}{', recomputed steps' if again else ''}"):
        W = Writer(root, emb, QUANTITIES, period)
        D, E = W.D, W.E
        loc = {n: anchor_loc(D, CLS, n) for n in ("before_iteration", "after_iteration")}
        runs = ("first", "second") if repeat else ("first",)
        n0 = len(E.effects)
        for run in runs:
            # an earlier run into the same file was longer
            more = (period or 1) if run != runs[-1] else 0
            for it in (*range(1, steps + more + 1), *again):
                for which in ("before", "after"):
                    W.refill(f"{run}.{which}{it}")
                    pre = snapshot(D, W.S), snapshot(D, W.meta)
                    try:
                        D.call(W.o, which + "_iteration", const(it), W.S, W.ode, W.scheme)
                    except Dead:
                        R.fail("steps are written without error", loc[which + "_iteration"], f"raises in step {it}")
                        R.absorb(E)
                        return
                    r = differ(pre[0], snapshot(D, W.S), "state") or differ(pre[1], snapshot(D, W.meta), "metadata")
                    if r:
                        R.fail("the writer does not modify the integration state", loc[which + "_iteration"], f"{r} is modified in step {it}")
                        return
        R.ok("the writer does not modify the integration state")
        R.absorb(E)
        effects = [e for e in E.effects[n0:] if e.kind == "h5"]
        run = runs[-1]
        p = period or 1
        per = {"time", *("q_" + n for n in W.q)} | ({"error_measure"} if emb else set())

        def model(m):
            fs = replay(m, D, effects)
            if set(fs) != {"file.h5"}:
                raise Bad("the requested file is written", loc["before_iteration"], f"{sorted(map(str, fs))}")
            f = fs["file.h5"]
            want = {"0"} | {str(k) for k in range(1, steps + 1) if k % p == 0}
            got = {k[0] for k in f}
            if got != want:
                raise Bad("step 0 and exactly the multiples of the period are in the file", loc["before_iteration"], f"missing {sorted(want - got, key=int)}, superfluous {sorted(got - want)} of {steps} steps, period {p}")
            for k in sorted(want, key=int):
                names = {x[1] for x in f if len(x) > 1 and x[0] == k}
                if names != per:
                    raise Bad("each step has time, every quantity and the error measure of embedded schemes", loc["before_iteration"], f"step {k}: missing {sorted(per - names)}, superfluous {sorted(names - per)}")
                it = int(k)
                tag = f"{run}.after{max(it, 1)}"
                part = "start" if it == 0 else "final"
                t = flat(m(W.sym(tag, f"discretization_state.{part}_time")))
                need(f"time of step {k}", loc["after_iteration"], f[(k, "time")]["data"].get((0,)), t[0])
                y = flat(m(W.sym(tag, f"discretization_state.{part}_state")))
                for n, (sh, gs, g0, dist) in W.q.items():
                    d = f[(k, "q_" + n)]
                    if d["shape"] != gs:
                        raise Bad("datasets have the global shape", loc["before_iteration"], f"{n}: {d['shape']} instead of {gs}")
                    if not any(x in d["dtype"] for x in ("float64", "double", "float)", "None")) and d["dtype"] not in ("float", "'f8'", "f8", "'d'", "d"):
                        if any(x in d["dtype"] for x in ("float32", "float16", "int", "'f4'", "'f'")):
                            raise Bad("datasets have double precision", loc["before_iteration"], f"{n}: {d['dtype']}")
                    for j, c in enumerate(itertools.product(*map(range, gs))):
                        w = None
                        if g0 <= j < g0 + size(sh):
                            w = y[W.at[n] + j - g0]
                        v = d["data"][c]
                        if v is None or w is None:
                            if v is not w:
                                raise Bad("the local part of each quantity is written at its place", loc["after_iteration"], f"{n} in step {k}: place {c} {'is not written' if v is None else 'belongs to another process'}")
                        else:
                            need(f"value of quantity in step {'0' if it == 0 else 'n'}", loc["after_iteration"], v, w)
                if emb:
                    e = Fraction(0) if it == 0 else flat(m(W.sym(tag, "error_history")))[0]
                    need(f"error measure of step {'0' if it == 0 else 'n'}", loc["after_iteration"], f[(k, "error_measure")]["data"].get((0,)), e)

        decide(R, D, "content of the file", model, n=6)


# ------------------------------------------------------------------------ readers

READ = {"x": (3,), "y": (2, 2), "w": (3,)}


def contents(D, steps, quantities, err):
    c = {}
    for k in steps:
        g = c[str(k)] = {"time": T.sym(f"time{k}", (ONE,))}
        for q in quantities:
            g[q] = T.sym(f"{q}{k}", tuple(map(const, READ[q])))
        if err:
            g["error_measure"] = T.sym(f"err{k}", (ONE,))
    return c


def entry(E, st, d, key):
    if d.op == "dict":
        d = E.get(st, ("D", d.args[0]))
    if d.op not in ("dictv", "store", "mapstore", "ite"):
        return None
    v = E.dict_get(d, key, None)
    return v


def reader(R, root, quantities, steps):
    with R.group(f"read_hdf5_file of {len(quantities)} quantities, steps {steps}"):
        D = Drive(root, stubs=STUBS)
        E = D.E
        c = contents(D, steps, READ, True)
        H5(D, c)
        many = len(quantities) > 1

        def solution(E, st, f, recv, a, k, node):
            a = list(a) + list(k.values())
            vals = tuple(E.materialize(E.deref(x, st), st) for x in a)
            E.effect(st, "call", "solution", None, vals, node=node)
            parts = tuple(mk("app", f"solution:{q if many else 'only'}", tuple(map(const, READ[q])), vals) for q in quantities)
            return mk("tuple", parts) if many else parts[0]

        E.hooks["ext:user.solution"] = solution
        f = D.func("read_hdf5_file")
        loc = "src/rkopenmdao/file_writer.py in read_hdf5_file"
        lst = E.new_list(mk("tuple", tuple(map(const, quantities))), D.st)
        try:
            r = D.call_value(f, const("file.h5"), lst, mk("ext", "user.solution"))
        except Dead:
            R.fail("file is read", loc, "raises")
            return
        R.absorb(E)
        r = E.as_seq(r, D.st)
        if r.op != "tuple" or len(r.args[0]) != 3:
            R.undecided("returns time, errors and results", loc, T.show(r, 100))
            return
        time, errors, results = r.args[0]
        init = [c["0"][q] for q in quantities]
        y0 = mk("tuple", tuple(init)) if many else init[0]
        calls = [e for e in E.effects if e.kind == "call" and e.name == "solution"]
        for e in calls:
            y = e.args[1] if len(e.args) > 1 else NONE
            ys = list(y.args[0]) if y.op == "tuple" else [y]
            R.holds("the solution starts from the initial values of all quantities", len(ys) == len(quantities), e.where(), f"{len(ys)} initial values for {len(quantities)} quantities")
        for k in steps:
            v = entry(E, D.st, time, const(k))
            R.same(f"time of step {k}", D.val(v), T.item(c[str(k)]["time"], (ZERO,)), loc) if v is not None else R.fail("every step has a time", loc, f"step {k} missing")
            for i, q in enumerate(quantities):
                for what, d in (("value", results), ("error", errors)):
                    dq = entry(E, D.st, d, const(q))
                    v = entry(E, D.st, dq, const(k)) if dq is not None else None
                    if v is None:
                        R.fail(f"every step has a {what} of every quantity", loc, f"{q} in step {k} missing")
                        continue
                    want = c[str(k)][q]
                    if what == "error":
                        args = (T.item(c[str(k)]["time"], (ZERO,)), y0, T.item(c["0"]["time"], (ZERO,)))
                        want = T.tabs(T.sub(mk("app", f"solution:{q if many else 'only'}", tuple(map(const, READ[q])), args), want))
                    R.same(f"{what} of {q} in step {k}", D.val(v), want, loc)
        for what, d in (("time", time), ("value", results), ("error", errors)):
            cc = E.get(D.st, ("D", d.args[0])) if d.op == "dict" else d
            if cc.op == "dictv":
                n = len(steps) if what == "time" else len(quantities)
                R.holds(f"no superfluous {what}", len(cc.args[0]) == n, loc, f"{len(cc.args[0])} instead of {n} entries")


def last_error(R, root, steps):
    with R.group(f"read_last_local_error, steps {steps[-1]}"):
        D = Drive(root, stubs=STUBS)
        E = D.E
        c = contents(D, steps, READ, True)
        H5(D, c)
        loc = "src/rkopenmdao/file_writer.py in read_last_local_error"
        try:
            r = D.call_value(D.func("read_last_local_error"), const("file.h5"))
        except Dead:
            R.fail("file is read", loc, "raises")
            return
        R.absorb(E)
        R.same("error measure of the last step", D.val(r), T.item(c[str(steps[-1])]["error_measure"], (ZERO,)), loc)


def c18(R, root):
    for emb in (False, True):
        for period in (None, 1, 2, 3, 4, 5, 7):
            history(R, root, emb, period, 12 if period in (None, 1, 2, 3) else 9)
    history(R, root, True, 2, 5, repeat=True)
    history(R, root, False, None, 2, repeat=True)
    history(R, root, True, None, 4, again=(3, 2, 3))
    history(R, root, False, 2, 5, again=(4, 2, 3))
    for q in (("x",), ("y",), ("x", "y"), ("y", "x"), ("x", "w"), ("w", "y", "x")):
        for steps in ((0, 1, 2), tuple(range(13)), (0, 3, 6, 9, 12), (0,)):
            reader(R, root, q, steps)
    for steps in ((0, 1), tuple(range(13)), (0, 4, 8, 12), (0,), (0, 5, 10, 15, 100)):
        last_error(R, root, steps)
