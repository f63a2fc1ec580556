"""Models of builtins, containers and the numpy functions the package uses."""

from __future__ import annotations

import ast
import os

from . import terms as T
from .terms import FALSE, FULL, NONE, ONE, TRUE, ZERO, T as Term, const, mk

RNG = lambda n: mk("range", ZERO, n)


PRELUDE = {
    ("functools.reduce", 3): "reduce",
    ("functools.reduce", 2): "reduce_first",
    ("itertools.chain.from_iterable", 1): "from_iterable",
    ("itertools.accumulate", 1): "accumulate",
    ("itertools.starmap", 2): "starmap",
    ("itertools.pairwise", 1): "pairwise",
}
_PRE = []


def prelude(E, name, args, kwargs, st, node):
    """library functions that are analysed as if they were part of the package"""
    fn = PRELUDE.get((name, len(args)))
    if fn is None or kwargs:
        return None
    from .frontend import Module
    from .interp import FuncVal

    if not _PRE:
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", "prelude.py")
        with open(path, encoding="utf-8") as fh:
            _PRE.append(Module("sa_prelude", path, ast.parse(fh.read(), filename=path), False))
    mod = _PRE[0]
    return E.call_func(FuncVal(mod.env[fn][1], mod, None, None, fn), list(args), {}, st, node)


# ------------------------------------------------------------------ linear algebra


def _call(name, *args, **kw):
    return mk("call", mk("ext", name), tuple(args), tuple(sorted(kw.items())))


def matmul(a, b):
    sa, sb = T.shape(a), T.shape(b)
    if sa is None or sb is None or not sa or not sb:
        return _call("numpy.matmul", a, b)
    j = T.fresh_bv()
    if len(sa) == 1:
        return T.msum(j, RNG(_pick(sa[0], sb[0])), T.mul(T.item(a, (j,)), T.item(b, (j,))))
    if len(sa) == 2 and len(sb) <= 2:
        i = T.fresh_bv()
        body = T.msum(j, RNG(_pick(sa[1], sb[0])), T.mul(T.item(a, (i, j)), T.item(b, (j,))))
        return T.amap(i, RNG(sa[0]), body)
    return _call("numpy.matmul", a, b)


def _pick(x, y):
    """two dimensions that agree whenever the operation is defined"""
    for t in (x, y):
        if T.numval(t) is not None:
            return t
    for t, o in ((x, y), (y, x)):
        if T.contains_op(t, {"diml", "len", "slen"}) and not T.contains_op(o, {"diml", "len", "slen"}):
            return o
    return x


def einsum(spec, ops):
    spec = spec.replace(" ", "")
    if "." in spec:
        return None
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(",")
    if len(ins) != len(ops):
        return None
    dims, bvs = {}, {}
    for sub, o in zip(ins, ops):
        sh = T.shape(o)
        if o.op == "num":
            sh = None
        if sh is not None and len(sh) != len(sub):
            return None
        for k, c in enumerate(sub):
            d = sh[k] if sh is not None else mk("diml", o, k)
            dims[c] = d if c not in dims else _pick(dims[c], d)
            bvs.setdefault(c, T.fresh_bv())
    body = T.mul(*[T.item(o, tuple(bvs[c] for c in sub)) for sub, o in zip(ins, ops)])
    for c in bvs:
        if c not in out:
            body = T.msum(bvs[c], RNG(dims[c]), body)
    for c in reversed(out):
        body = T.amap(bvs[c], RNG(dims[c]), body)
    return body


def total_sum(v):
    sh = T.shape(v)
    if v.op == "tuple":
        return T.add(*[total_sum(x) for x in v.args[0]])
    if sh is None:
        return _call("numpy.sum", v)
    if not sh:
        return v
    j = T.fresh_bv()
    if v.op == "num":
        return T.mul(v, *sh)
    return T.msum(j, RNG(sh[0]), total_sum(T.item(v, (j,))))


def reduce_(v, kind):
    """max / min over all entries"""
    if v.op == "tuple":
        f = T.tmax if kind == "max" else T.tmin
        return f(*[reduce_(x, kind) for x in v.args[0]]) if v.args[0] else _call("empty-" + kind)
    sh = T.shape(v)
    if sh is None:
        return _call("numpy." + kind, v)
    if not sh or v.op == "num":
        return v
    j = T.fresh_bv()
    body = reduce_(T.item(v, (j,)), kind)
    if not T.contains(body, j):
        return body
    return mk("red" + kind, RNG(sh[0]), T.close(j, body), 1 + T.depth_of(body))


def anyall(v, kind):
    """numpy any/all of an elementwise condition"""
    if kind == "all":
        return T.lnot(anyall(T.lnot(T.truth(v)) if not v.op == "tuple" else mk("tuple", tuple(T.lnot(T.truth(x)) for x in v.args[0])), "any"))
    if v.op == "tuple":
        return T.lor(*[anyall(x, "any") for x in v.args[0]])
    if v.op == "or":
        return T.lor(*[anyall(x, "any") for x in v.args[0]])
    if v.op == "not" and v.args[0].op == "eq" and not T.shape(v.args[0]) == ():
        return v  # some entry differs == arrays differ
    sh = T.shape(v.args[0] if v.op == "not" else v)
    if sh is None:
        if v.op in ("not", "eq"):
            return v
        return mk("truth", _call("numpy.any", v))
    if not sh:
        return T.truth(v)
    j = T.fresh_bv()
    return T.many(j, RNG(sh[0]), anyall(T.item(v, (j,)) if v.op != "not" else T.lnot(T.item(v.args[0], (j,))), "any"))


# ------------------------------------------------------------------ helpers


def _d(E, v, st):
    return E.deref(v, st)


def _dd(E, v, st):
    """pure value of an argument (lists as tuples)"""
    if v.op in ("list", "tuple"):
        return E.deep(v, st)
    return E.deref(v, st)


def _kw(kwargs, args, k, name, default=None):
    if name in kwargs:
        return kwargs[name]
    if k is not None and len(args) > k:
        return args[k]
    return default


def to_shape(E, v, st):
    v = _dd(E, v, st)
    if v.op == "tuple":
        return tuple(v.args[0])
    if v.op in ("attr",) and v.args[1] == "shape":
        sh = T.shape(v.args[0])
        return sh
    if v.op == "ite":
        return None
    if T.is_num(v) or v.op in ("poly", "sym", "call", "attr", "item", "len", "diml", "bv", "res", "max", "min", "hdr"):
        return (v,)
    return None


def flat_values(v):
    return v


def reshape(E, base, shp, st):
    v = E.deref(base, st)
    sh = T.shape(base)
    if shp is None:
        return v
    if sh is not None and len(sh) == len(shp) and all(a is b for a, b in zip(sh, shp)):
        return base
    if sh is not None and len(sh) == 1 and len(shp) == 1:
        size_claim(E, sh, shp, st)
        return base
    if v.op == "num":
        return E.new_array(v, shp, st)
    size_claim(E, sh, shp, st)
    r = mk("reshape", v, tuple(shp))
    T.SHAPES[r] = tuple(shp)
    view(E, r, base)
    return r


def size_claim(E, sh, shp, st):
    """reshaping needs equal sizes; remembered for checks that decide it"""
    if sh is None or any(T.numval(x) == -1 for x in shp):
        return
    a, b = (T.mul(*x) if len(x) > 1 else x[0] if x else T.ONE for x in (sh, shp))
    if a is not b:
        E.size_claims.append((a, b, tuple(st.pc), tuple(E.loops), E.loc()))


def view(E, r, base):
    """the term stands for a view of an array object"""
    if base.op == "aref" and isinstance(base.args[0], int):
        E.views[r] = base


def array_method(E, base, name, args, kwargs, st, node):
    kw = Seen(kwargs)
    r = _array_method(E, base, name, args, kw, st, node)
    if r is not None and kw.unused():
        return E.unk(f"option {sorted(kw.unused())} of {name}", node)
    return r


def _array_method(E, base, name, args, kwargs, st, node):
    if name in ("asarray",):
        return None
    if name == "copy":
        v = E.deref(base, st)
        sh = T.shape(base)
        if base.op == "aref" and isinstance(base.args[0], Term) and sh is None:
            return v
        return E.new_array(v, sh if sh is not None else T.shape(v), st)
    if name in ("flatten", "ravel"):
        order = _kw(kwargs, args, 0, "order")
        v = E.deref(base, st)
        if order is not None and order.op == "const" and order.args[0] not in ("C", "A", "K"):
            return mk("call", mk("attr", v, "flatten"), (order,), ())
        sh = T.shape(base)
        if sh is not None and len(sh) > 1:
            r = mk("flat", v)
            T.SHAPES[r] = (T.mul(*sh),)
            if name == "ravel":
                view(E, r, base)
                return r
            return E.new_array(r, T.shape(r), st)
        return base if name == "ravel" else _array_method(E, base, "copy", args, kwargs, st, node)
    if name == "reshape":
        if kwargs.get("order") is not None and kwargs["order"] not in (const("C"), const("A")):
            return mk("call", mk("attr", E.deref(base, st), "reshape"), tuple(_dd(E, a, st) for a in args), tuple(sorted(kwargs.items())))
        shp = to_shape(E, args[0], st) if len(args) == 1 else tuple(_d(E, a, st) for a in args)
        if shp is not None and len(shp) == 1 and T.numval(shp[0]) == -1:
            return array_method(E, base, "ravel", [], {}, st, node)
        return reshape(E, base, shp, st)
    if name == "sum":
        ax = _kw(kwargs, args, 0, "axis")
        v = E.deref(base, st)
        return np_sum(E, v, ax, st)
    if name == "fill":
        E.write_ref(base, E.deref(args[0], st), st, node)
        return NONE
    if name == "dot":
        return matmul(E.deref(base, st), _dd(E, args[0], st))
    if name in ("max", "min") and not args and not kwargs:
        return reduce_(E.deref(base, st), name)
    if name in ("any", "all") and not args and not kwargs:
        return anyall(E.deref(base, st), name)
    if name == "prod" and not args:
        return _call("numpy.prod", E.deref(base, st))
    if name == "transpose" and not args:
        return E.array_attr(base, "T", st)
    if name == "view" and not args and not kwargs:
        return base
    if name in ("astype", "conj", "squeeze", "item", "tolist") and base.op != "list":
        v = E.deref(base, st)
        if name == "item" and not args:
            sh = T.shape(v)
            return T.item(v, (ZERO,)) if sh and len(sh) == 1 else v
        if name == "tolist":
            return v
        if name == "astype":
            d = lossy(kwargs.get("dtype", args[0] if args else None))
            v = cast(d, v) if d else v
            sh = T.shape(base)
            if base.op == "aref" and isinstance(base.args[0], int) and sh and kwargs.get("copy") is None:
                return E.new_array(v, sh, st)
            return v
        return v if name != "squeeze" else None
    if name == "clip" and len(args) == 2:
        v = E.deref(base, st)
        return T.tmax(E.deref(args[0], st), T.tmin(E.deref(args[1], st), v))
    if name == "mean" and not args:
        v = E.deref(base, st)
        return _call("numpy.mean", v)
    return None


def maybe_array_method(E, base, name, args, kwargs, st, node):
    """method of an external value that can only be an array (or a scalar)"""
    if name in ("flatten", "ravel", "fill", "dot", "astype", "tolist") or (name == "copy" and T.shape(base) is not None):
        return array_method(E, base if base.op == "aref" else mk("aref", base, ()), name, args, kwargs, st, node)
    if name == "reshape":
        r = array_method(E, mk("aref", base, ()), name, args, kwargs, st, node)
        return r
    if name in ("any", "all", "sum", "max", "min") and not args:
        return array_method(E, mk("aref", base, ()), name, args, kwargs, st, node)
    return None


def np_sum(E, v, ax, st):
    if ax is None or ax is NONE:
        return total_sum(v)
    a = T.numval(ax)
    sh = T.shape(v)
    if sh is not None and a is not None:
        a = int(a) if a >= 0 else int(a) + len(sh)
        j = T.fresh_bv()
        if a == 0:
            return T.msum(j, RNG(sh[0]), T.item(v, (j,)))
        if a == 1 and len(sh) == 2:
            i = T.fresh_bv()
            return T.amap(i, RNG(sh[0]), T.msum(j, RNG(sh[1]), T.item(v, (i, j))))
    return _call("numpy.sum", v, ax)


# ------------------------------------------------------------------ containers


def _plain_format(text, vals, kw):
    """text.format(...) whose fields are plain arguments, as a formatted string"""
    import string

    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(text):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if conv or "{" in (spec or "") or not (field == "" or field.isidentifier() or field.isdigit()):
                return None
            if field == "":
                x, auto = vals[auto], auto + 1
            elif field.isdigit():
                x = vals[int(field)]
            else:
                x = kw[field]
            parts.append(mk("call", mk("ext", "format"), (x, T.fmt(const(spec))), ()) if spec else x)
    except (ValueError, IndexError, KeyError):
        return None
    return T.fmt(*parts)


def builtin_method(E, base, name, args, kwargs, st, node):
    op = base.op
    if (op in ("tuple", "concat", "amap", "filt", "full", "prefix", "item") and name in ("append", "extend", "insert", "clear", "pop")) or (op == "dictv" and name in ("update", "setdefault", "clear", "pop")):
        # a container that is an element of another one
        if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Subscript)):
            return E.unk("write to an element of a value", node)
        ref = E.new_dict(base, st) if op == "dictv" else E.new_list(base, st)
        r = builtin_method(E, ref, name, args, kwargs, st, node)
        E.write_back(node.func.value, E.get(st, ("D" if op == "dictv" else "L", ref.args[0])), st)
        return r
    if op == "list":
        k = ("L", base.args[0])
        c = E.get(st, k)
        if name == "append":
            E.list_append(base, args[0], st, node)
            return NONE
        if name == "extend":
            E.list_extend(base, args[0], st, node)
            return NONE
        if name == "clear":
            E.effect(st, "clear", "clear", base, (), node=node)
            st.cells[k] = mk("tuple", ())
            return NONE
        if name == "copy":
            return E.new_list(c, st)
        if name == "pop":
            i = T.numval(args[0]) if args else -1
            E.effect(st, "pop", "pop", base, tuple(args), node=node)
            if i == -1:
                v = E.seq_last(c)
                st.cells[k] = E.seq_init(c)
                return v
            if i == 0:
                return _popleft(E, k, c, st)
            st.cells[k] = E.unk("pop", node)
            return E.unk("pop", node)
        if name == "popleft":
            return _popleft(E, k, c, st)
        if name in ("insert",):
            E.effect(st, "append", "insert", base, tuple(args), node=node)
            if T.numval(args[0]) == 0:
                st.cells[k] = E.concat(mk("tuple", (args[1],)), c)
            else:
                st.cells[k] = E.unk("insert", node)
            return NONE
        if name == "appendleft":
            E.effect(st, "append", "appendleft", base, tuple(args), node=node)
            st.cells[k] = E.concat(mk("tuple", (args[0],)), c)
            return NONE
        if name == "reverse":
            st.cells[k] = mk("tuple", tuple(reversed(c.args[0]))) if c.op == "tuple" else E.unk("reverse", node)
            return NONE
        if name in ("rotate",):
            r = T.numval(args[0]) if args else 1
            if c.op == "tuple" and r is not None and c.args[0]:
                xs = c.args[0]
                n = len(xs)
                r = int(r) % n
                st.cells[k] = mk("tuple", xs[n - r:] + xs[: n - r])
            else:
                st.cells[k] = E.unk("rotate", node)
            return NONE
        if name in ("sort", "remove"):
            E.effect(st, "liststore", name, base, tuple(args), node=node)
            st.cells[k] = E.unk(name, node)
            return NONE
        if name in ("index", "count"):
            return _call("list." + name, c, *[_dd(E, a, st) for a in args])
    if op in ("dict", "dictv") or (op in ("store", "mapstore") and E._dictish(base)):
        c = E.get(st, ("D", base.args[0])) if op == "dict" else base
        if op == "dict":
            r = _set_method(E, base, name, args, st, node)
            if r is not None:
                return r
        if name in ("items", "keys", "values"):
            return mk("it_" + name, base)
        if name in ("get", "pop", "setdefault"):
            key = E.deref(args[0], st)
            present = E.contains_(key, base, st)
            dflt = args[1] if len(args) > 1 else NONE
            v = E.dict_get(c, key, node) if present is not FALSE else None
            if name == "pop" and op == "dict":
                E.effect(st, "delete", "pop", base, (key,), node=node)
                if c.op == "dictv":
                    st.cells[("D", base.args[0])] = mk("dictv", tuple((kk, vv) for kk, vv in c.args[0] if kk is not key))
                elif present is not FALSE:
                    st.cells[("D", base.args[0])] = mk("dictdel", c, key)
            if name == "setdefault" and op == "dict" and present is not TRUE:
                nv = dflt if v is None else T.ite(present, v, dflt)
                E.store_sub(base, (key,), nv, st, node)
                return nv
            if present is TRUE:
                return v
            if present is FALSE:
                if name == "pop" and len(args) < 2:
                    E.sinks[-1].append(_raise(E, st, "KeyError", node))
                    from .interp import Dead
                    raise Dead()
                return dflt
            return T.ite(present, v, dflt)
        if name == "copy":
            return E.copy_dict(base, st)
        if name == "update" and op == "dict":
            items = []
            for a in args:
                if a.op == "dict":
                    ac = E.get(st, ("D", a.args[0]))
                else:
                    ac = a
                if ac.op == "dictv":
                    items += list(ac.args[0])
                else:
                    E.effect(st, "dictstore", "update", base, (ac,), node=node)
                    st.cells[("D", base.args[0])] = E.dict_merge(c, ac)
                    c = st.cells[("D", base.args[0])]
            for kk, vv in kwargs.items():
                if kk != "**":
                    items.append((const(kk), vv))
            for kk, vv in items:
                E.store_sub(base, (kk,), vv, st, node)
            return NONE
        if name == "clear" and op == "dict":
            E.effect(st, "clear", "clear", base, (), node=node)
            st.cells[("D", base.args[0])] = mk("dictv", ())
            return NONE
    if op == "const" and isinstance(base.args[0], str):
        vals = [E.deref(a, st) for a in args]
        if name == "join" and len(vals) == 1:
            seq = E.as_seq(args[0], st)
            if seq.op == "tuple":
                out = []
                for i, x in enumerate(seq.args[0]):
                    if i:
                        out.append(base)
                    out.append(E.deref(x, st))
                return T.fmt(*out)
            return _call("str.join", base, seq)
        if name == "format":
            f = _plain_format(base.args[0], vals, {k: E.deref(v, st) for k, v in kwargs.items()})
            if f is not None:
                return f
            return _call("str.format", base, *vals, **{k: E.deref(v, st) for k, v in kwargs.items()})
        if all(v.op in ("const", "num") for v in vals):
            try:
                py = [v.args[0] if v.op == "const" else int(v.args[0]) for v in vals]
                r = getattr(base.args[0], name)(*py)
                if isinstance(r, (str, bool, int)):
                    return const(r)
                if isinstance(r, (list, tuple)):
                    t = mk("tuple", tuple(const(x) for x in r))
                    return E.new_list(t, st) if isinstance(r, list) else t
            except Exception:  # noqa: BLE001
                pass
        return _call("str." + name, base, *vals)
    if op == "fmt":
        return _call("str." + name, base, *[E.deref(a, st) for a in args])
    if op == "tuple":
        if name in ("index", "count"):
            return _call("tuple." + name, base, *[E.deref(a, st) for a in args])
    return None


SET_OPS = {"intersection": "&", "difference": "-", "union": "|", "symmetric_difference": "^"}
SET_UPDATES = {"intersection_update": "&", "difference_update": "-", "symmetric_difference_update": "^"}


def _set_method(E, base, name, args, st, node):
    key = ("D", base.args[0])
    if name == "add":
        return E.store_sub(base, (E.deref(args[0], st),), TRUE, st, node) or NONE
    if name in ("discard", "remove"):
        return builtin_method(E, base, "pop", [args[0]] + ([NONE] if name == "discard" else []), {}, st, node) and NONE
    if name == "pop" and not args:
        ks = E.keyset(base, st)
        E.effect(st, "delete", "pop", base, (), node=node)
        if ks and len(ks) == 1:
            st.cells[key] = mk("dictv", ())
            return ks[0]
        st.cells[key] = E.unk("set.pop", node)
        return E.unk("set.pop", node)
    if name in SET_OPS or name in SET_UPDATES:
        r = base
        for a in args:
            other = b_set(E, [a], {}, st, node)
            r = E.setop((SET_OPS.get(name) or SET_UPDATES[name]), r, other, st)
        if name in SET_OPS:
            return r if r is not base else E.copy_dict(base, st)
        E.effect(st, "dictstore", name, base, (r,), node=node)
        st.cells[key] = E.get(st, ("D", r.args[0])) if r.op == "dict" else r
        return NONE
    if name in ("issubset", "issuperset", "isdisjoint"):
        x, y = E.keyset(base, st), E.keyset(b_set(E, args[:1], {}, st, node), st)
        if x is not None and y is not None and all(k.op in ("const", "num", "ext", "tuple") for k in x + y):
            x, y = set(x), set(y)
            return const(x <= y if name == "issubset" else x >= y if name == "issuperset" else not (x & y))
        return E.unk("set." + name, node)
    if name == "update" and args and all(a.op != "dict" for a in args):
        done = True
        for a in args:
            o = b_set(E, [a], {}, st, node)
            ks = E.keyset(o, st)
            if ks is None:
                return None
            for k in ks:
                E.store_sub(base, (k,), TRUE, st, node)
        return NONE
    return None


def _popleft(E, k, c, st):
    if c.op == "tuple" and c.args[0]:
        st.cells[k] = mk("tuple", c.args[0][1:])
        return c.args[0][0]
    if c.op == "concat" and c.args[0][0].op == "tuple":
        f = c.args[0][0]
        st.cells[k] = E.concat(mk("tuple", f.args[0][1:]), *c.args[0][1:])
        return f.args[0][0]
    v = T.item(c, (ZERO,))
    st.cells[k] = T.item(c, (mk("slice", ONE, NONE, NONE),))
    return v


def _raise(E, st, name, node):
    from .interp import Exit

    E.effect(st, "raise", name, None, (), node=node)
    return Exit("raise", st.copy(), mk("exc_inst", name), E.loc(node))


# ------------------------------------------------------------------ functions

NP_UNARY = {"exp", "log", "log10", "log2", "sin", "cos", "tan", "sinh", "cosh", "tanh", "ceil", "floor", "isnan", "isfinite", "sign", "isinf", "arctan", "arcsin", "arccos", "log1p", "expm1"}
PURE_EXT = {
    "numpy.isclose", "numpy.allclose", "numpy.linalg.norm", "numpy.unravel_index", "numpy.prod", "numpy.average", "numpy.mean",
    "numpy.cumsum", "numpy.ravel_multi_index", "numpy.argmax", "numpy.argmin", "numpy.tril", "numpy.triu", "numpy.diag", "numpy.diagonal",
    "numpy.isin", "numpy.setdiff1d", "numpy.union1d", "numpy.count_nonzero", "numpy.linspace", "numpy.median", "numpy.linalg.matrix_power",
    "math.isclose", "inspect.signature", "math.prod", "os.path.join", "os.path.exists", "os.path.dirname", "os.path.basename", "os.path.splitext", "os.path.split", "os.path.normpath", "os.fspath", "itertools.product", "round", "pow", "divmod",
    "sorted", "frozenset", "id", "hash", "repr", "format", "ord", "chr", "pathlib.Path", "Path", "numpy.finfo", "numpy.dtype", "str", "complex", "bytes",
    "vars", "dir", "numpy.hstack", "numpy.vstack", "numpy.stack", "numpy.column_stack", "numpy.tensordot", "numpy.outer", "numpy.inner", "numpy.ndindex", "map", "filter",
    "numpy.nditer", "numpy.ndenumerate", "numpy.meshgrid", "numpy.repeat", "numpy.tile", "numpy.trace", "numpy.triu_indices", "numpy.tril_indices", "numpy.nonzero",
    "numpy.identity", "numpy.eye", "re.compile", "re.match", "re.search", "numpy.moveaxis", "numpy.expand_dims", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze",
    "mpi4py.MPI.COMM_WORLD.Get_rank", "object",
}


# model classes standing for arbitrary implementations of an interface
MODELS = {"ModelCheckpointer": "CheckpointInterface", "ModelController": "ErrorController", "ModelCriterion": "TerminationCriterion", "ModelTimedCriterion": "TerminationCriterion"}


# classes no container, text or function other than their own kind is an instance of
CONCRETE = {"ndarray", "Number", "Real", "Integral", "Rational", "Complex", "float", "int", "bool", "complex", "str", "bytes", "generic", "floating", "integer", "list", "dict", "tuple", "set"}


def type_test(E, x, c, st):
    """isinstance(x, c)"""
    if c.op == "tuple":
        return T.lor(*[type_test(E, x, y, st) for y in c.args[0]])
    if x.op == "ite":
        return T.ite(x.args[0], type_test(E, x.args[1], c, st), type_test(E, x.args[2], c, st))
    if c.op == "setop":
        return T.lor(*[type_test(E, x, y, st) for y in c.args[1]])
    if x.op == "obj":
        k = E.objcls[x.args[0]]
        if c.op == "cls":
            if not E.is_subclass(k, E.funcs[c]) and k.name in MODELS and E.funcs[c].name not in MODELS:
                if E.funcs[c].name == MODELS[k.name]:
                    return TRUE
                # stands for any user object: may be of that class or not
                return T.gt0(T.sym(f"{k.name} is a {E.funcs[c].name}", ()))
            return const(E.is_subclass(k, E.funcs[c]))
        if c.op == "ext":
            if any(not hasattr(b, "mro") and b is c for b in k.mro):
                return TRUE
            return const(c.args[0] == "object")
    if x.op == "objv" and c.op == "cls":
        k = E.cls(x.args[0])
        if k is not None:
            return const(E.is_subclass(k, E.funcs[c]))
    name = c.args[0].split(".")[-1] if c.op == "ext" else None
    kinds = {
        "list": {"list"}, "dict": {"dict", "dictv"}, "tuple": {"tuple"}, "str": {"fmt"},
    }
    if x.op == "const":
        v = x.args[0]
        return const({"str": isinstance(v, str), "bool": isinstance(v, bool), "int": isinstance(v, bool), "NoneType": v is None}.get(name, False))
    if x.op == "num":
        if name in ("float",):
            return const(x.args[0].denominator != 1) if x.args[0].denominator != 1 else mk("isinst", x, c)
        if name in ("int", "Integral"):
            return const(x.args[0].denominator == 1) if x.args[0].denominator != 1 else mk("isinst", x, c)
        if name in ("str", "list", "dict", "tuple", "ndarray"):
            return FALSE
    if name in kinds and x.op in ("list", "dict", "dictv", "tuple", "fmt", "aref", "cls", "func", "bound", "amap", "poly"):
        return const(x.op in kinds[name])
    if name in CONCRETE and x.op in ("list", "dict", "dictv", "tuple", "fmt", "cls", "func", "bound", "partial"):
        return const(x.op in kinds.get(name, ()))
    if name in ("ndarray",) and x.op in ("aref", "amap"):
        if not (x.op == "aref" and isinstance(x.args[0], Term)):
            return TRUE
    if x.op in ("poly", "ite", "full", "app", "item", "sym", "setitem") and T.shape(x):
        # the value of an array expression
        if name == "ndarray":
            return TRUE
        if name in ("list", "dict", "tuple", "str", "float", "int", "bool") or c.op == "cls":
            return FALSE
    if c.op == "cls" and x.op in ("list", "dict", "tuple", "num", "fmt", "poly", "amap"):
        return FALSE
    if c.op == "cls" and x.op == "aref" and not isinstance(x.args[0], Term):
        return FALSE
    if x.op == "aref":
        x = E.deref(x, st)
    return mk("isinst", x, c)


def seq_fold(E, v, st):
    """('lit', [...]) or ('dom', bv, dom, elem, filt)"""
    d = E.iter_domain(v, st)
    if d[0] == "lit":
        return d
    if d[0] == "dom":
        bv = T.fresh_bv()
        return ("dom", bv, d[1], E.deref(d[2](bv), st), d[3](bv) if len(d) > 3 else TRUE)
    if d[0] == "seq":
        return ("seq", [seq_fold(E, x, st) for x in d[1]])
    return None


def fold_sum(E, f, st):
    if f[0] == "lit":
        return T.add(*[E.deref(x, st) for x in f[1]])
    if f[0] == "dom":
        _, bv, dom, el, g = f
        return T.msum(bv, dom, el if g is TRUE else T.ite(g, el, ZERO))
    return T.add(*[fold_sum(E, x, st) for x in f[1]])


def fold_any(E, f, st, neg=False):
    w = (lambda x: T.lnot(T.truth(x))) if neg else T.truth
    if f[0] == "lit":
        return T.lor(*[w(E.deref_truth(x, st)) for x in f[1]])
    if f[0] == "dom":
        _, bv, dom, el, g = f
        return T.many(bv, dom, T.land(g, w(el)))
    return T.lor(*[fold_any(E, x, st, neg) for x in f[1]])


def fold_ext(E, f, st, kind):
    fn = T.tmax if kind == "max" else T.tmin
    if f[0] == "lit":
        return fn(*[E.deref(x, st) for x in f[1]]) if f[1] else None
    if f[0] == "dom":
        _, bv, dom, el, g = f
        if g is not TRUE:
            return None
        return mk("red" + kind, T.base_dom(dom), T.close(bv, el), 1 + T.depth_of(el)) if T.contains(el, bv) else el
    ps = [fold_ext(E, x, st, kind) for x in f[1]]
    return None if any(p is None for p in ps) else fn(*ps)


def call_ext(E, f, args, kwargs, st, node):
    from .interp import BUILTIN_EXC, IGNORED_CALLS, Dead

    name = f.args[0]
    short = name.split(".")[-1]
    hook = E.hooks.get("ext:" + name)
    if hook is not None:
        r = hook(E, st, f, None, args, kwargs, node)
        if r is not None:
            return r
    if name in IGNORED_CALLS or short in ("super",):
        return NONE
    if name in PER_OBJECT:
        for i, a in enumerate(args):
            if a.op == "ite" and any(x.op in ("list", "dict", "obj", "aref") for x in a.args[1:]):
                alt = [E.call(f, list(args[:i]) + [x] + list(args[i + 1:]), dict(kwargs), st, node) for x in a.args[1:]]
                return T.ite(a.args[0], *alt)
    if name == "numpy.finfo" and (not args or args[0].op == "ext" and args[0].args[0] in ("float", "numpy.float64", "numpy.double", "numpy.float_") or args[0].op == "num"):
        return mk("ext", "sa.finfo")
    g = BUILTINS.get(name)
    if g is not None:
        r = g(E, args, kwargs, st, node)
        if r is not None:
            return r
    if name in BUILTIN_EXC:
        return mk("exc_inst", name, tuple(E.deref_arg(a, st) for a in args))
    if name in LOSSY_FN and len(args) == 1:
        return cast(LOSSY_FN[name], _dd(E, args[0], st))
    if name.startswith("numpy.") and name.endswith(".outer") and name.count(".") == 2:
        g = NP_OUTER.get(name.split(".")[1])
        out = kwargs.pop("out", None)
        if g is not None and not kwargs and len(args) == 2:
            return np_out(E, out, np_outer(E, args, {}, st, node, g), st, node)
        if out is not None:
            kwargs["out"] = out
    if name.startswith("numpy.") or name.startswith("math."):
        out = kwargs.get("out")
        if out is not None and out is not NONE and set(kwargs) == {"out"}:
            # the value of the function, written into an existing array
            r = call_ext(E, f, args, {}, st, node)
            return np_out(E, out, r, st, node)
        g = NUMPY.get(short) if name.count(".") == 1 or short not in NUMPY else NUMPY.get(name.split(".", 1)[1])
        if g is not None:
            kw = Seen(kwargs)
            r = g(E, args, kw, st, node)
            if r is not None:
                if kw.unused():
                    return E.unk(f"option {sorted(kw.unused())} of {name}", node)
                return with_dtype(E, short, r, args, kwargs, st)
        if short in NP_UNARY and len(args) == 1 and not Seen(kwargs).unused():
            v = _dd(E, args[0], st)
            r = mk("call", mk("ext", "fn." + short), (v,), ())
            sh = T.shape(v)
            if sh is not None:
                T.SHAPES[r] = sh
            return r
    if name in ("copy.deepcopy",):
        return E.deepcopy(args[0], st)
    if name == "copy.copy":
        return shallow(E, args[0], st)
    if name == "functools.partial":
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
    if name == "itertools.chain":
        return mk("it_chain", tuple(args))
    if name == "itertools.count":
        start = E.deref(args[0], st) if args else ZERO
        return mk("it_enum0", start) if False else mk("range", start, mk("ext", "inf"))
    if name == "collections.deque":
        c = E.as_seq(args[0], st) if args else mk("tuple", ())
        n = kwargs.get("maxlen", args[1] if len(args) > 1 else NONE)
        r = E.new_list(c, st)
        n = E.deref(n, st)
        if n is not NONE:
            # read as if it were unbounded; what is kept in it is checked against its bound
            if T.numval(n) is not None:
                E.bounded.append((r, int(T.numval(n)), E.loc(node)))
            if T.numval(n) is None or T.numval(n) <= 3:
                E.unk("bounded deque", node)
        return r
    if name in ("collections.defaultdict", "collections.OrderedDict"):
        a = args[1:] if short == "defaultdict" else args
        if not a:
            return E.new_dict(mk("dictv", ()), st)
        return E.copy_dict(a[0], st)
    if name == "contextlib.suppress":
        return mk("call", f, tuple(args), ())
    if name.startswith("object.") or name in ("object",):
        hook = E.hooks.get("ext:" + short)
        r = hook(E, st, f, None, args, kwargs, node) if hook is not None else None
        return r if r is not None else NONE
    if kwargs.get("out", NONE) is not NONE:
        return E.unk("write to an array by a library function", node)
    if name.startswith("numpy.") and (short in ("fill_diagonal", "put", "place", "putmask", "put_along_axis", "shuffle") or short == "at"):
        return E.unk("write to an array by a library function", node)
    r = prelude(E, name, args, kwargs, st, node)
    if r is not None:
        return r
    if name.startswith(("itertools.", "functools.", "operator.", "collections.", "heapq.", "bisect.", "statistics.", "fractions.")):
        # what it returns may give access to what it was given
        return E.unk("write through the result of library function " + name, node)
    if name == "dict.fromkeys":
        return dict_fromkeys(E, args, kwargs, st, node)
    if name == "typing.NamedTuple":
        return E.unk("named tuple", node)
    pure = name in PURE_EXT or (name.startswith("numpy.") and short not in ("copyto", "put", "save", "savez", "savetxt", "fill_diagonal", "place", "putmask")) or name.startswith("math.")
    return E.external(f, name, args, kwargs, st, node, pure=pure)


def shallow(E, v, st):
    if v.op == "list":
        return E.new_list(E.get(st, ("L", v.args[0])), st)
    if v.op == "dict":
        return E.copy_dict(v, st)
    if v.op == "obj":
        n = E.new_obj(E.objcls[v.args[0]], st)
        for k in [k for k in st.cells if k[0] == "f" and k[1] == v.args[0]]:
            st.cells[("f", n.args[0], k[2])] = st.cells[k]
        return n
    if v.op == "aref":
        return E.new_array(E.deref(v, st), T.shape(v), st)
    return v


def b_len(E, args, kwargs, st, node):
    v = args[0]
    if v.op == "list":
        return E.length(E.get(st, ("L", v.args[0])))
    if v.op == "dict":
        return _dlen(E.get(st, ("D", v.args[0])))
    if v.op == "obj" and E.named_tuple(v, st) is not None:
        return const(len(E.named_tuple(v, st).args[0]))
    if v.op == "obj":
        r = E.lookup(E.objcls[v.args[0]], "__len__")
        if r:
            return E.call_func(r[1], [v], {}, st, node)
    if v.op == "aref":
        sh = T.shape(v)
        if sh:
            return sh[0]
        v = E.deref(v, st)
    return E.length(v)


def _dlen(c):
    if c.op == "dictv":
        return const(len(c.args[0]))
    return mk("len", c)


def b_range(E, args, kwargs, st, node):
    a = [E.deref(x, st) for x in args]
    if len(a) == 1:
        return T.trange(ZERO, a[0])
    return T.trange(*a)


def b_reversed(E, args, kwargs, st, node):
    v = args[0]
    if v.op == "range":
        return mk("rev", v)
    if v.op == "rev":
        return v.args[0]
    if v.op == "tuple":
        return mk("tuple", tuple(reversed(v.args[0])))
    return mk("it_rev", v)


def _ordered(E, xs, key, st, node):
    """[(comparison key, value)] if all keys are literal, else None"""
    if xs.op != "tuple":
        return None
    out = []
    for x in xs.args[0]:
        k = E.deref(x if key is None or key is NONE else E.call(key, [x], {}, st, node), st)
        v = T.numval(k)
        if v is None and k.op == "const" and isinstance(k.args[0], str):
            v = k.args[0]
        if v is None or isinstance(v, bool):
            return None
        out.append((v, x))
    if len({isinstance(k, str) for k, _ in out}) > 1:
        return None
    return out


def b_sorted(E, args, kwargs, st, node):
    xs = E.as_seq(args[0], st)
    rev = kwargs.get("reverse", T.FALSE)
    if rev in (T.TRUE, T.FALSE):
        r = _ordered(E, xs, kwargs.get("key"), st, node)
        if r is not None:
            return E.new_list(mk("tuple", tuple(x for _, x in sorted(r, key=lambda x: x[0], reverse=rev is T.TRUE))), st)
    return E.new_list(_call("sorted", E.materialize(xs, st), **kwargs), st)


def f_unravel(E, args, kwargs, st, node):
    i = E.deref(_kw(kwargs, args, 0, "indices", NONE), st)
    sh = E.as_seq(_kw(kwargs, args, 1, "shape", NONE), st)
    if sh.op != "tuple":
        return None
    dims = [E.deref(x, st) for x in sh.args[0]]
    n, ds = T.numval(i), [T.numval(d) for d in dims]
    if n is not None and None not in ds:
        tot = 1
        for d in ds:
            tot *= int(d)
        if not 0 <= n < tot:
            from .interp import Dead

            E.sinks[-1].append(_raise(E, st, "ValueError", node))
            raise Dead()
    if len(dims) == 1:
        return mk("tuple", (i,))
    if n is None or None in ds:
        return None
    order = E.deref(_kw(kwargs, args, 2, "order", const("C")), st)
    if order.op != "const" or order.args[0] not in ("C", "F"):
        return None
    n, out = int(n), []
    for d in reversed(ds) if order.args[0] == "C" else ds:
        out.append(const(n % int(d)))
        n //= int(d)
    return mk("tuple", tuple(reversed(out) if order.args[0] == "C" else out))


def b_minmax(kind):
    def f(E, args, kwargs, st, node):
        if "key" in kwargs:
            xs = E.as_seq(args[0], st) if len(args) == 1 else mk("tuple", tuple(args))
            r = _ordered(E, xs, kwargs["key"], st, node)
            if not r:
                return E.unk("extremum by a key", node)
            best = (max if kind == "max" else min)(r, key=lambda x: x[0])
            return best[1]
        if len(args) == 1:
            r = _ordered(E, E.as_seq(args[0], st), None, st, node)
            if r and isinstance(r[0][0], str):
                return (max if kind == "max" else min)(r, key=lambda x: x[0])[1]
        if len(args) > 1:
            return (T.tmax if kind == "max" else T.tmin)(*[E.deref(a, st) for a in args])
        fo = seq_fold(E, args[0], st)
        r = fold_ext(E, fo, st, kind) if fo else None
        if r is None:
            return None
        if "default" in kwargs:
            n = E.length(E.as_seq(args[0], st))
            return T.ite(T.gt0(n), r, E.deref(kwargs["default"], st))
        return r

    return f


def b_sum(E, args, kwargs, st, node):
    fo = seq_fold(E, args[0], st)
    if fo is None:
        return None
    start = _kw(kwargs, args, 1, "start", ZERO)
    return T.add(E.deref(start, st), fold_sum(E, fo, st))


def b_any(E, args, kwargs, st, node):
    fo = seq_fold(E, args[0], st)
    return fold_any(E, fo, st) if fo else None


def b_all(E, args, kwargs, st, node):
    fo = seq_fold(E, args[0], st)
    return T.lnot(fold_any(E, fo, st, neg=True)) if fo else None


def b_isinstance(E, args, kwargs, st, node):
    return type_test(E, args[0], args[1], st)


def b_issubclass(E, args, kwargs, st, node):
    a, b = args
    if a.op == "cls" and b.op == "cls":
        return const(E.is_subclass(E.funcs[a], E.funcs[b]))
    return mk("truth", _call("issubclass", a, b))


def b_hasattr(E, args, kwargs, st, node):
    v, n = args[0], args[1]
    if v.op == "obj" and n.op == "const":
        if E.get(st, ("f", v.args[0], n.args[0])) is not None or E.lookup(E.objcls[v.args[0]], n.args[0]):
            return TRUE
        if E.objcls[v.args[0]].bases and any(not hasattr(b, "mro") and b.args[0] not in ("abc.ABC", "ABC", "object") for b in E.objcls[v.args[0]].mro):
            return mk("truth", _call("hasattr", v, n))
        return FALSE
    return mk("truth", _call("hasattr", E.deref_arg(v, st), n))


def b_getattr(E, args, kwargs, st, node):
    v, n = args[0], E.deref(args[1], st)
    if n.op == "const" and isinstance(n.args[0], str):
        if len(args) > 2:
            h = b_hasattr(E, [v, n], {}, st, node)
            if h is FALSE:
                return args[2]
            if h is TRUE:
                return E.attr(v, n.args[0], st, node)
            return T.ite(h, E.attr(v, n.args[0], st, node), args[2])
        return E.attr(v, n.args[0], st, node)
    return mk("getattr", E.deref_arg(v, st), n)


def b_setattr(E, args, kwargs, st, node):
    n = E.deref(args[1], st)
    if n.op == "const" and isinstance(n.args[0], str):
        E.set_attr(args[0], n.args[0], args[2], st, node)
        return NONE
    E.effect(st, "setattr", "?", args[0], (n, args[2]), node=node)
    E.unk("setattr", node)
    return NONE


def b_type(E, args, kwargs, st, node):
    v = args[0]
    if v.op == "obj":
        return E.cls_term(E.objcls[v.args[0]])
    if v.op == "objv":
        c = E.cls(v.args[0])
        if c:
            return E.cls_term(c)
    if v.op == "ite":
        return T.ite(v.args[0], b_type(E, [v.args[1]], {}, st, node), b_type(E, [v.args[2]], {}, st, node))
    return _call("type", E.deref_arg(v, st))


def b_tuple(E, args, kwargs, st, node):
    if not args:
        return mk("tuple", ())
    return E.as_seq(args[0], st)


def b_list(E, args, kwargs, st, node):
    return E.new_list(E.as_seq(args[0], st) if args else mk("tuple", ()), st)


def b_dict(E, args, kwargs, st, node):
    d = E.new_dict(mk("dictv", ()), st)
    if args:
        a = args[0]
        if a.op == "it_zip":
            a = E.as_seq(a, st)
        if a.op in ("tuple", "list") or (a.op == "tuple"):
            s = E.as_seq(a, st)
            if s.op == "tuple":
                for x in s.args[0]:
                    x = E.as_seq(x, st)
                    E.store_sub(d, (E.deref(x.args[0][0], st),), x.args[0][1], st, node)
                a = None
        if a is not None and (a.op in ("dict", "dictv")):
            d = E.copy_dict(a, st)
        elif a is not None:
            d = E.new_dict(a if a.op not in ("it_items",) else a.args[0], st)
    if kwargs:
        builtin_method(E, d, "update", [], {k: v for k, v in kwargs.items() if k != "**"}, st, node)
        if "**" in kwargs:
            k = ("D", d.args[0])
            st.cells[k] = E.dict_merge(st.cells[k], kwargs["**"])
    return d


def b_set(E, args, kwargs, st, node):
    if not args:
        return E.new_set([], st)
    v = args[0]
    keys = E.keyset(v, st)
    if keys is not None:
        return E.new_set(keys, st)
    if v.op == "dict":
        return _call("set", E.get(st, ("D", v.args[0])))
    s = E.as_seq(v, st) if v.op in ("list", "tuple") or v.op.startswith("it_") else v
    if s.op == "tuple":
        return E.new_set([E.deref(x, st) for x in s.args[0]], st)
    return _call("set", s if s.op != "it_keys" else s.args[0])


def b_num(E, args, kwargs, st, node):
    if not args:
        return ZERO
    v = E.deref(args[0], st)
    if v.op == "const" and isinstance(v.args[0], str):
        s = v.args[0].strip().lower()
        if s in ("inf", "infinity", "+inf"):
            return mk("ext", "inf")
        if s == "-inf":
            return T.neg(mk("ext", "inf"))
        if s == "nan":
            return mk("sym", "nan")
        try:
            return const(float(s)) if "." in s or "e" in s else const(int(s))
        except ValueError:
            return _call("float", v)
    sh = T.shape(v)
    if sh is not None and len(sh) == 1 and sh[0] is ONE:
        return T.item(v, (ZERO,))
    return v


def b_int(E, args, kwargs, st, node):
    if len(args) == 1:
        v = E.deref(args[0], st)
        if v.op == "const" and isinstance(v.args[0], str):
            try:
                return const(int(v.args[0]))
            except ValueError:
                return None
    v = b_num(E, args, kwargs, st, node)
    n = T.numval(v)
    if n is not None:
        return const(int(n))
    if T.is_boolish(v):
        return T.ite(v, ONE, ZERO)
    if T.integral(v):
        return v
    return _call("int", v)


def b_bool(E, args, kwargs, st, node):
    if not args:
        return FALSE
    return T.truth(E.deref_truth(args[0], st))


def b_str(E, args, kwargs, st, node):
    if not args:
        return const("")
    v = E.deref(args[0], st)
    if v.op == "const" and not isinstance(v.args[0], str):
        return const(str(v.args[0]))
    if v.op in ("const", "fmt"):
        return v
    return T.fmt(v)


def b_slice(E, args, kwargs, st, node):
    a = [E.deref(x, st) for x in args]
    if len(a) == 1:
        return E.mk_slice(NONE, a[0], NONE)
    if len(a) == 2:
        a.append(NONE)
    return E.mk_slice(*a)


def b_abs(E, args, kwargs, st, node):
    return T.tabs(_dd(E, args[0], st))


def b_enumerate(E, args, kwargs, st, node):
    s = _kw(kwargs, args, 1, "start", ZERO)
    return mk("it_enum", args[0], E.deref(s, st))


def dict_fromkeys(E, args, kwargs, st, node):
    d = E.iter_domain(args[0], st)
    if d[0] != "lit":
        return E.unk("dict.fromkeys", node)
    v = args[1] if len(args) > 1 else NONE
    r = E.new_dict(mk("dictv", ()), st)
    for k in d[1]:
        E.store_sub(r, (k,), v, st, node)
    return r


def b_next(E, args, kwargs, st, node):
    if args[0].op == "hdr":
        return E.unk("statement advancing an iterator in a loop", node)
    d = E.iter_domain(args[0], st)
    dflt = args[1] if len(args) > 1 else None
    name = node.args[0] if isinstance(node, ast.Call) and node.args and isinstance(node.args[0], (ast.Name, ast.Attribute)) else None
    if name is not None and d[0] != "lit":
        b = T.base_dom(d[1]) if d[0] == "dom" else None
        if b is None or d[1].op != "range" or len(d) > 3:
            return E.unk("statement advancing an iterator", node)
        bv = T.fresh_bv()
        E.assign(name, T.amap(bv, mk("range", T.add(b.args[0], T.ONE), b.args[1]), d[2](bv)), st)
    if d[0] == "lit":
        if d[1]:
            if name is not None:
                E.assign(name, mk("tuple", tuple(d[1][1:])), st)
            return d[1][0]
        return dflt
    if d[0] == "dom":
        bv = T.fresh_bv()
        from . import loops

        g = d[3](bv) if len(d) > 3 else TRUE
        el = d[2](bv)
        v = loops.first(bv, d[1], g, el)
        if dflt is None:
            return v
        return T.ite(T.many(bv, d[1], g), v, dflt)
    return None


def b_iter(E, args, kwargs, st, node):
    return args[0]


def b_map(E, args, kwargs, st, node):
    fo = E.iter_domain(args[1], st) if len(args) == 2 else None
    if fo and fo[0] == "lit":
        return mk("tuple", tuple(E.call(args[0], [x], {}, st, node) for x in fo[1]))
    return None


def b_vars(E, args, kwargs, st, node):
    if len(args) == 1 and args[0].op == "obj":
        return mk("objdict", args[0])
    return E.unk("attributes of an unresolved object", node)


def _dc_class(E, x):
    if x.op == "obj":
        return E.objcls[x.args[0]]
    return E.funcs[x] if x.op == "cls" else None


def b_dc_fields(E, args, kwargs, st, node):
    c = _dc_class(E, args[0]) if len(args) == 1 else None
    if c is None:
        return None
    return mk("tuple", tuple(mk("objv", "dataclasses.Field", ((const("name"), const(n)),)) for n in E.dataclass_fields(c)))


def b_dc_replace(E, args, kwargs, st, node):
    if len(args) != 1 or args[0].op != "obj" or "**" in kwargs:
        return None
    c = E.objcls[args[0].args[0]]
    kw = {}
    for n, (val, _k) in E.dataclass_fields(c).items():
        if E.field_spec(val).get("init") is not False:
            kw[n] = kwargs[n] if n in kwargs else E.attr(args[0], n, st, node)
    return E.construct(c, [], kw, st, node)


def b_filter(E, args, kwargs, st, node):
    from .interp import Exit

    lst = E.new_list(mk("tuple", ()), st)
    n0 = len(E.effects)
    held = []

    def bind(x, v):
        held[:] = [v]

    def add(x, v):
        E.list_append(lst, E.bindable(v, x), x, node)
        return [Exit("next", x)]

    def body(x):
        v = held[0]
        c = T.truth(E.deref_truth(v if args[0] is NONE else E.call(args[0], [v], {}, x, node), x))
        E.set_facts(x)
        c = E.simplify_cond(c)
        return E.branch(c, lambda y: add(y, v), lambda y: [Exit("next", y)], x)

    E.absorb(E.loop_iter(args[1], bind, body, lambda x: [Exit("next", x)], st, node), st)
    E.effects[n0:] = [e for e in E.effects[n0:] if not (e.kind == "append" and e.recv is lst)]
    return E.get(st, ("L", lst.args[0]))


def b_callable(E, args, kwargs, st, node):
    v = args[0]
    if v.op in ("func", "bound", "cls", "partial"):
        return TRUE
    d = E.deref_arg(v, st)
    if d.op in ("num", "const", "array", "list", "dict", "tuple"):
        return FALSE
    return mk("truth", _call("callable", d))


# pure functions of the content of their arguments: applied to every object an argument may be
PER_OBJECT = {"len", "sum", "any", "all", "max", "min", "list", "tuple", "dict", "set", "sorted", "bool", "float", "int", "isinstance", "type", "hasattr", "copy.copy", "copy.deepcopy"}
BUILTINS = {
    "len": b_len, "range": b_range, "reversed": b_reversed, "enumerate": b_enumerate,
    "zip": lambda E, a, k, st, n: mk("it_zip", tuple(a)),
    "sum": b_sum, "any": b_any, "all": b_all, "max": b_minmax("max"), "min": b_minmax("min"),
    "abs": b_abs, "isinstance": b_isinstance, "issubclass": b_issubclass, "hasattr": b_hasattr,
    "getattr": b_getattr, "setattr": b_setattr, "callable": b_callable, "type": b_type, "tuple": b_tuple,
    "list": b_list, "dict": b_dict, "set": b_set, "frozenset": b_set, "int": b_int, "float": b_num, "bool": b_bool, "str": b_str,
    "slice": b_slice, "next": b_next, "iter": b_iter, "map": b_map, "filter": b_filter, "vars": b_vars,
    "sorted": b_sorted,
    "numpy.unravel_index": f_unravel,
    "dataclasses.fields": b_dc_fields, "dataclasses.replace": b_dc_replace,
    "pow": lambda E, a, k, st, n: T.power(E.deref(a[0], st), E.deref(a[1], st)) if len(a) == 2 else None,
    "math.sqrt": lambda E, a, k, st, n: T.power(E.deref(a[0], st), const(_half())),
    "math.pow": lambda E, a, k, st, n: T.power(E.deref(a[0], st), E.deref(a[1], st)),
    "math.fabs": b_abs,
    "functools.reduce": lambda E, a, k, st, n: f_reduce(E, a, st, n),
    "operator.add": lambda E, a, k, st, n: T.add(E.deref(a[0], st), E.deref(a[1], st)),
    "operator.mul": lambda E, a, k, st, n: T.mul(E.deref(a[0], st), E.deref(a[1], st)),
    "operator.truediv": lambda E, a, k, st, n: E.binop("Div", E.deref(a[0], st), E.deref(a[1], st), st),
    "operator.matmul": lambda E, a, k, st, n: E.binop("MatMult", E.deref(a[0], st), E.deref(a[1], st), st),
    "operator.neg": lambda E, a, k, st, n: T.neg(E.deref(a[0], st)),
    "operator.sub": lambda E, a, k, st, n: T.sub(E.deref(a[0], st), E.deref(a[1], st)),
}


def _half():
    from fractions import Fraction

    return Fraction(1, 2)


def f_reduce(E, a, st, node):
    d = E.iter_domain(a[1], st)
    if d[0] == "lit":
        xs = list(d[1])
        acc = a[2] if len(a) > 2 else xs.pop(0)
        for x in xs:
            acc = E.call(a[0], [acc, x], {}, st, node)
        return acc
    return None


# ------------------------------------------------------------------ numpy functions

_LOSSY = {"float32", "float16", "single", "half", "int", "int8", "int16", "int32", "int64", "intp", "uint8", "uint16", "uint32", "uint64", "bool", "bool_", "f4", "f2", "i4", "i8", "longlong", "int_", "intc"}
LOSSY_FN = {"numpy." + n: n for n in ("float32", "float16", "single", "half")}
_CREATE = {"zeros": 1, "ones": 1, "empty": 1, "full": 2, "zeros_like": 1, "ones_like": 1, "empty_like": 1, "full_like": 2, "array": 1, "asarray": 1, "ascontiguousarray": 1}


def lossy(d):
    """name of a type that cannot hold every float"""
    if d is None:
        return None
    if d.op == "const" and isinstance(d.args[0], str):
        n = d.args[0]
    elif d.op == "ext":
        n = d.args[0].split(".")[-1]
    else:
        return None
    return n if n in _LOSSY else None


def cast(kind, v):
    if v.op == "num" and v.args[0].denominator == 1 and (v.args[0] in (0, 1) or not kind.startswith("bool")):
        return v
    if T.is_boolish(v):
        return v
    r = mk("cast", kind, v)
    sh = T.shape(v)
    if sh is not None:
        T.SHAPES[r] = sh
    return r


def with_dtype(E, short, r, args, kwargs, st):
    k = _CREATE.get(short)
    if k is None or r is None:
        return r
    d = lossy(kwargs.get("dtype", args[k] if len(args) > k else None))
    if d is None and short.endswith("_like") and "dtype" not in kwargs and args and args[0].op == "aref":
        d = E.lossy.get(args[0].args[0])
    if d is None:
        return r
    if r.op == "aref" and not isinstance(r.args[0], Term):
        c = st.cells.get(("a", r.args[0]))
        if short in ("asarray", "ascontiguousarray") and args and r is args[0]:
            return E.new_array(cast(d, E.deref(r, st)), T.shape(r), st)
        E.lossy[r.args[0]] = d
        if c is not None and c.op != "garbage":
            st.cells[("a", r.args[0])] = cast(d, c)
        return r
    return cast(d, r) if r.op != "aref" else r



def np_filled(val):
    def f(E, args, kwargs, st, node):
        shp = to_shape(E, _kw(kwargs, args, 0, "shape"), st)
        return E.new_array(val(), shp, st)

    return f


def np_like(val):
    def f(E, args, kwargs, st, node):
        a = args[0]
        sh = T.shape(a)
        if sh is None and a.op in ("list", "tuple"):
            sh = T.shape(_dd(E, a, st))
        if sh is None:
            v = E.deref(a, st)
            sh = T.shape(v)
        return E.new_array(val(), sh, st) if sh != () else val()

    return f


def _garbage(E):
    return mk("garbage", E.fresh())


def np_empty(E, args, kwargs, st, node):
    shp = to_shape(E, _kw(kwargs, args, 0, "shape"), st)
    g = _garbage(E)
    if shp is not None:
        T.SHAPES[g] = shp
    return E.new_array(g, shp, st)


def np_empty_like(E, args, kwargs, st, node):
    sh = T.shape(args[0])
    g = _garbage(E)
    if sh is not None:
        T.SHAPES[g] = sh
    return E.new_array(g, sh, st)


def np_full(E, args, kwargs, st, node):
    shp = to_shape(E, _kw(kwargs, args, 0, "shape"), st)
    v = E.deref(_kw(kwargs, args, 1, "fill_value"), st)
    return E.new_array(v, shp, st)


def np_full_like(E, args, kwargs, st, node):
    v = E.deref(_kw(kwargs, args, 1, "fill_value"), st)
    return E.new_array(v, T.shape(args[0]), st)


def np_array(E, args, kwargs, st, node):
    a = _kw(kwargs, args, 0, "object")
    v = E.materialize(a, st) if a.op in ("list", "tuple") else E.deref(a, st)
    if v.op in ("tuple",):
        v = E.deep(v, st)
    sh = T.shape(a) if a.op not in ("list",) else None
    if sh is None:
        sh = T.shape(v)
    if sh == ():
        return v
    if kwargs.get("copy") is FALSE and a.op == "aref":
        return a
    return E.new_array(v, sh, st)


def np_asarray(E, args, kwargs, st, node):
    a = args[0]
    if a.op == "aref":
        return a
    return np_array(E, args, {}, st, node)


class Seen(dict):
    """keyword arguments, remembering which of them are considered"""

    # without influence on values of finite numbers, or considered separately
    BENIGN = {"dtype", "copy", "order", "optimize", "equal_nan", "subok", "like", "casting", "device"}

    def __init__(self, kw):
        dict.__init__(self, kw)
        self.asked = set()
        self.every = False

    def unused(self):
        return set() if self.every else set(dict.keys(self)) - self.asked - self.BENIGN

    def get(self, k, d=None):
        self.asked.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.asked.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.asked.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.asked.add(k)
        return dict.pop(self, k, *d)

    def _all(name):
        def f(self, *a):
            self.every = True
            return getattr(dict, name)(self, *a)

        return f

    __iter__, __len__, items, keys, values = map(_all, ("__iter__", "__len__", "items", "keys", "values"))


def np_copyto(E, args, kwargs, st, node):
    w = _kw(kwargs, args, 3, "where")
    if _kw(kwargs, args, 2, "casting", NONE) not in (NONE, const("same_kind"), const("safe")):
        return E.unk("write to an array by a library function", node)
    if w is not None and E.deref(w, st) is not T.TRUE:
        v = call_ext(E, mk("ext", "numpy.where"), [w, args[1], args[0]], {}, st, node)
        E.write_ref(args[0], _dd(E, v, st), st, node)
        return NONE
    E.write_ref(args[0], _dd(E, args[1], st), st, node)
    return NONE


def np_sum_f(E, args, kwargs, st, node):
    v = args[0]
    if v.op not in ("aref", "poly", "sum", "sym", "res", "item", "attr", "call"):
        s = E.as_seq(v, st) if v.op in ("list",) or v.op.startswith("it_") else v
        v = E.deep(s, st) if s.op == "tuple" else E.deref(s, st)
    v = E.deref(v, st)
    if v.op in ("amap", "filt") and T.shape(v) is None:
        fo = seq_fold(E, v, st)
        if fo is not None:
            return fold_sum(E, fo, st)
    return np_sum(E, v, _kw(kwargs, args, 1, "axis"), st)


def np_einsum(E, args, kwargs, st, node):
    s = args[0]
    if s.op != "const":
        return None
    out = kwargs.get("out")
    r = einsum(s.args[0], [_dd(E, a, st) for a in args[1:]])
    if r is not None and out is not None:
        E.write_ref(out, r, st, node)
        return out
    return r


def np_roll(E, args, kwargs, st, node):
    v = _dd(E, args[0], st)
    k = E.deref(_kw(kwargs, args, 1, "shift"), st)
    sh = T.shape(args[0]) if args[0].op == "aref" else T.shape(v)
    if v.op == "num":
        return E.new_array(v, sh, st)
    kv = T.numval(k)
    n = T.numval(sh[0]) if sh else None
    if kv is not None and n is not None and n <= 16:
        n, kv = int(n), int(kv)
        return E.new_array(mk("tuple", tuple(T.item(v, (const((i - kv) % n),)) for i in range(n))), sh, st)
    r = mk("roll", v, k)
    return E.new_array(r, sh, st)


def np_bin(fn):
    def f(E, args, kwargs, st, node):
        r = fn(_dd(E, args[0], st), _dd(E, args[1], st))
        out = kwargs.get("out") or (args[2] if len(args) > 2 else None)
        if out is not None and out is not NONE:
            E.write_ref(out, r, st, node)
            return out
        return r

    return f


def np_sqrt(E, args, kwargs, st, node):
    from fractions import Fraction

    return T.power(_dd(E, args[0], st), const(Fraction(1, 2)))


def np_clip(E, args, kwargs, st, node):
    lo, hi = _kw(kwargs, args, 1, "a_min"), _kw(kwargs, args, 2, "a_max")
    v = _dd(E, args[0], st)
    if hi is not None and hi is not NONE:
        v = T.tmin(v, E.deref(hi, st))
    if lo is not None and lo is not NONE:
        v = T.tmax(v, E.deref(lo, st))
    return v


def np_any(kind):
    def f(E, args, kwargs, st, node):
        if kwargs or len(args) > 1:
            return None
        v = args[0]
        if v.op == "list":
            v = E.as_seq(v, st)
        return anyall(E.deref(v, st), kind)

    return f


def np_array_equal(E, args, kwargs, st, node):
    a, b = _dd(E, args[0], st), _dd(E, args[1], st)
    return T.eq(a, b)


def np_where(E, args, kwargs, st, node):
    if len(args) == 3:
        c = E.deref(args[0], st)
        if T.shape(c) == ():
            return T.ite(T.truth(c), E.deref(args[1], st), E.deref(args[2], st))
    return None


def np_concatenate(E, args, kwargs, st, node):
    if kwargs or len(args) > 1:
        return None
    s = E.as_seq(args[0], st)
    if s.op == "tuple":
        parts = [_dd(E, x, st) for x in s.args[0]]
        shs = [T.shape(p) for p in parts]
        r = E.concat(*parts)
        if all(x is not None and x for x in shs):
            sh = (T.add(*[x[0] for x in shs]),) + tuple(shs[0][1:])
            T.SHAPES[r] = sh if r not in T.SHAPES else T.SHAPES[r]
            return E.new_array(r, sh, st)
        return r
    return None


def np_norm(E, args, kwargs, st, node):
    return None


def np_dot(E, args, kwargs, st, node):
    return matmul(_dd(E, args[0], st), _dd(E, args[1], st))


def np_outer(E, args, kwargs, st, node, fn=T.mul):
    a, b = _dd(E, args[0], st), _dd(E, args[1], st)
    sa = T.shape(a)
    if sa is None or len(sa) != 1:
        return None
    i = T.fresh_bv()
    return T.amap(i, RNG(sa[0]), fn(T.item(a, (i,)), b))


NP_OUTER = {"multiply": T.mul, "add": T.add, "subtract": T.sub, "divide": T.div, "true_divide": T.div}


def np_out(E, out, r, st, node):
    """the result of a numpy function that is given the array to write it to"""
    if r is None:
        return E.unk("write to an array by a library function", node)
    if out is None or out is NONE:
        return r
    if out.op == "tuple" and len(out.args[0]) == 1:
        out = out.args[0][0]
    E.write_ref(out, E.deref(r, st), st, node)
    return out


def np_insert(E, args, kwargs, st, node):
    if kwargs or len(args) != 3:
        return None
    v, k, x = _dd(E, args[0], st), T.numval(_dd(E, args[1], st)), _dd(E, args[2], st)
    sh = T.shape(args[0]) if args[0].op == "aref" else T.shape(v)
    if sh is None or len(sh) != 1 or k is None or T.shape(x) or x.op in ("tuple", "amap", "concat"):
        return None
    n = T.numval(sh[0])
    if k and (n is None or not -n <= k <= n):
        return None
    k = int(k + n) if k < 0 else int(k)
    if n is not None and n <= 16:
        it = [v if v.op == "num" else T.item(v, (const(i),)) for i in range(int(n))]
        it.insert(k, x)
        r = mk("tuple", tuple(it))
    elif k:
        return None
    else:
        r = E.concat(mk("tuple", (x,)), mk("full", v, sh) if v.op == "num" else v)
        T.SHAPES.setdefault(r, (T.add(sh[0], ONE),))
    return E.new_array(r, (T.add(sh[0], ONE),), st)


def np_append(E, args, kwargs, st, node):
    if kwargs or len(args) != 2:
        return None
    v, x = _dd(E, args[0], st), _dd(E, args[1], st)
    sh, sx = T.shape(v), T.shape(x)
    if v.op == "num" or sh is None or len(sh) != 1 or sx is None or len(sx) > 1:
        return None
    r = E.concat(v, x if sx else mk("tuple", (x,)))
    n = T.add(sh[0], sx[0] if sx else ONE)
    T.SHAPES.setdefault(r, (n,))
    return E.new_array(r, (n,), st)


def np_tensordot(E, args, kwargs, st, node):
    a, b = _dd(E, args[0], st), _dd(E, args[1], st)
    ax = _kw(kwargs, args, 2, "axes")
    ax = E.deep(E.as_seq(ax, st), st) if ax is not None and ax.op in ("list", "tuple") else ax
    sa, sb = T.shape(a), T.shape(b)
    if sa is None or sb is None or ax is None:
        return None
    al = "abcdefgh"[: len(sa)]
    bl = "ijklmnop"[: len(sb)]
    if T.numval(ax) is not None:
        n = int(T.numval(ax))
        pa, pb = list(range(len(sa) - n, len(sa))), list(range(n))
    elif ax.op == "tuple" and len(ax.args[0]) == 2:
        pa, pb = [
            [int(T.numval(q)) for q in (x.args[0] if x.op == "tuple" else (x,))] for x in ax.args[0]
        ]
    else:
        return None
    bl = list(bl)
    for x, y in zip(pa, pb):
        bl[y] = al[x]
    out = "".join(c for k, c in enumerate(al) if k not in pa) + "".join(c for k, c in enumerate(bl) if k not in pb)
    return einsum(al + "," + "".join(bl) + "->" + out, [a, b])


def np_size(E, args, kwargs, st, node):
    a = args[0]
    sh = T.shape(a) if a.op != "list" else T.shape(E.deref(a, st))
    ax = args[1] if len(args) > 1 else kwargs.get("axis")
    if ax is not None and ax is not NONE:
        k = T.numval(E.deref(ax, st))
        if sh is None or k is None or not -len(sh) <= k < len(sh):
            return None
        return sh[int(k)]
    if sh is not None:
        return T.mul(*sh) if sh else ONE
    v = E.deref(a, st)
    return mk("attr", v, "size")


def np_shape(E, args, kwargs, st, node):
    sh = T.shape(args[0])
    if sh is None:
        sh = T.shape(_dd(E, args[0], st))
    return mk("tuple", tuple(sh)) if sh is not None else None


def np_prod(E, args, kwargs, st, node):
    v = args[0]
    s = _dd(E, v, st)
    if s.op == "tuple":
        return T.mul(*s.args[0]) if s.args[0] else ONE
    if s.op == "attr" and s.args[1] == "shape":
        return mk("attr", s.args[0], "size")
    return _call("numpy.prod", s)


def np_red(kind):
    def f(E, args, kwargs, st, node):
        if kwargs or len(args) > 1:
            return None
        return reduce_(_dd(E, args[0], st), kind)

    return f


def np_arange(E, args, kwargs, st, node):
    return b_range(E, args, {}, st, node)


NUMPY = {
    "zeros": np_filled(lambda: ZERO), "ones": np_filled(lambda: ONE), "empty": np_empty, "full": np_full,
    "zeros_like": np_like(lambda: ZERO), "ones_like": np_like(lambda: ONE), "empty_like": np_empty_like, "full_like": np_full_like,
    "array": np_array, "asarray": np_asarray, "ascontiguousarray": np_asarray, "copy": np_array, "copyto": np_copyto,
    "abs": b_abs, "absolute": b_abs, "fabs": b_abs, "sum": np_sum_f, "einsum": np_einsum, "dot": np_dot, "matmul": np_dot, "inner": np_dot, "vdot": np_dot,
    "outer": np_outer, "tensordot": np_tensordot, "roll": np_roll,
    "maximum": np_bin(T.tmax), "minimum": np_bin(T.tmin), "fmax": np_bin(T.tmax), "fmin": np_bin(T.tmin),
    "add": np_bin(T.add), "subtract": np_bin(T.sub), "multiply": np_bin(T.mul), "divide": np_bin(T.div), "true_divide": np_bin(T.div), "power": np_bin(T.power), "float_power": np_bin(T.power),
    "negative": lambda E, a, k, st, n: T.neg(_dd(E, a[0], st)),
    "square": lambda E, a, k, st, n: T.power(_dd(E, a[0], st), const(2)),
    "sqrt": np_sqrt, "clip": np_clip, "any": np_any("any"), "all": np_any("all"), "array_equal": np_array_equal,
    "equal": np_bin(T.eq), "not_equal": np_bin(lambda a, b: T.lnot(T.eq(a, b))), "greater": np_bin(lambda a, b: T.lt(b, a)), "less": np_bin(T.lt),
    "greater_equal": np_bin(lambda a, b: T.le(b, a)), "less_equal": np_bin(T.le),
    "logical_not": lambda E, a, k, st, n: T.lnot(T.truth(_dd(E, a[0], st))), "logical_and": np_bin(T.land), "logical_or": np_bin(T.lor),
    "where": np_where, "concatenate": np_concatenate, "insert": np_insert, "append": np_append, "size": np_size, "shape": np_shape, "prod": np_prod, "max": np_red("max"), "min": np_red("min"), "amax": np_red("max"), "amin": np_red("min"),
    "arange": np_arange, "float64": b_num, "transpose": lambda E, a, k, st, n: E.array_attr(a[0], "T", st) if len(a) == 1 else None,
    "ravel": lambda E, a, k, st, n: array_method(E, a[0] if a[0].op == "aref" else mk("aref", a[0], ()), "ravel", a[1:], k, st, n) if a[0].op not in ("list", "tuple") else None,
    "reshape": lambda E, a, k, st, n: array_method(E, a[0] if a[0].op == "aref" else mk("aref", a[0], ()), "reshape", a[1:], k, st, n),
    "pow": np_bin(T.power), "fsum": np_sum_f,
}
