"""Interprocedural value-graph analysis of the package source.

One abstract pass over the syntax tree: every variable, field, array and external
container is a cell holding a term; branches are joined with gates at every merge point
(no path enumeration), loops are summarised from one generic iteration, calls into the
package are inlined on the abstract state, calls out of the package become effect records.
"""

from __future__ import annotations

import ast
import builtins as _bi
import re
from fractions import Fraction

from . import terms as T
from .terms import (
    FALSE, FULL, NONE, ONE, TRUE, ZERO, T as Term, const, mk,
)


class Dead(Exception):
    """no normal continuation of the current statement"""


class GiveUp(Exception):
    """the analysis cannot represent this construct"""


class State:
    __slots__ = ("cells", "pc")

    def __init__(self, cells=None, pc=()):
        self.cells = cells if cells is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.cells), self.pc)

    def replace(self, other):
        self.cells = other.cells
        self.pc = other.pc

    def assume(self, c):
        c = T.truth(c)
        if c is TRUE:
            return
        if c.op == "and":
            for x in c.args[0]:
                self.assume(x)
            return
        if c not in self.pc:
            self.pc = self.pc + (c,)


class Exit:
    __slots__ = ("kind", "st", "val", "loc")

    def __init__(self, kind, st, val=None, loc=None):
        self.kind, self.st, self.val, self.loc = kind, st, val, loc


def _load(target):
    """the target of an assignment as an expression"""
    import copy

    t = copy.copy(target)
    t.ctx = ast.Load()
    return t


class Effect:
    """one interaction with the world outside the value graph"""

    def __init__(self, kind, name, recv, args, kwargs, st, loops, loc, res=None, handlers=(), stack=()):
        self.kind = kind
        self.name = name
        self.recv = recv
        self.args = tuple(args)
        self.kwargs = dict(kwargs)
        self.guard = tuple(st.pc)
        self.cells = dict(st.cells)
        self.loops = tuple(loops)
        self.loc = loc
        self.res = res
        self.handlers = tuple(handlers)
        self.stack = tuple(stack)
        self.aliases = {}
        self._sub = []

    def add_subst(self, m):
        if not m:
            return
        self._sub.append(m)
        s = lambda t: T.subst(t, m) if isinstance(t, Term) else t
        self.recv = s(self.recv)
        self.args = tuple(s(a) for a in self.args)
        self.kwargs = {k: s(v) for k, v in self.kwargs.items()}
        self.guard = tuple(x for x in (s(g) for g in self.guard) if x is not TRUE)
        self.loops = tuple((b, s(d), l) for b, d, l in self.loops)
        self.res = s(self.res)

    def cell(self, key, default=None):
        v = self.cells.get(key, default)
        if isinstance(v, Term):
            for m in self._sub:
                v = T.subst(v, m)
        return v

    def state(self):
        """snapshot as a State (with all substitutions applied lazily per cell)"""
        if self._sub:
            new = {}
            for k, v in self.cells.items():
                for m in self._sub:
                    v = T.subst(v, m)
                new[k] = v
            self.cells = new
            self._sub = []
        return State(dict(self.cells), self.guard)

    def where(self):
        f, l, q = self.loc
        return f"{f}:{l} in {q}"

    def __repr__(self):
        a = ", ".join([T.show(x, 120) if isinstance(x, Term) else str(x) for x in self.args] + [f"{k}={T.show(v, 120)}" for k, v in self.kwargs.items()])
        r = T.show(self.recv, 80) + "." if isinstance(self.recv, Term) else ""
        return f"<{self.kind} {r}{self.name}({a}) @{self.loc[1]}>"


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = []
        self.attrs = {}
        self.ann = []
        self.mro = [self]
        self.setters = {}


FLOAT_INFO = {f"{w}.{n}": Fraction(*v) for w in ("sys.float_info", "sa.finfo") for n, v in {"epsilon": (1, 2**52), "eps": (1, 2**52), "min": (1, 2**1022), "tiny": (1, 2**1022), "smallest_normal": (1, 2**1022), "smallest_subnormal": (1, 2**1074), "max": (2**1024 - 2**971,), "resolution": (1, 10**15)}.items()}
_COLLECTED = {}


def _collecting(fn):
    """the function returning the list of what a generator function yields"""
    if fn in _COLLECTED:
        return _COLLECTED[fn]
    import copy

    _COLLECTED[fn] = None
    good = True

    class Rewrite(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n

        visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Expr(self, n):
            v = n.value
            if isinstance(v, (ast.Yield, ast.YieldFrom)):
                arg = v.value if v.value is not None else ast.copy_location(ast.Constant(None), v)
                call = ast.Call(ast.Attribute(ast.Name("__yielded", ast.Load()), "append" if isinstance(v, ast.Yield) else "extend", ast.Load()), [arg], [])
                return ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.copy_location(call, v)), n))
            return self.generic_visit(n)

        def visit_Return(self, n):
            return ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name("__yielded", ast.Load())), n))

        def visit_Yield(self, n):
            nonlocal good
            good = False
            return n

        visit_YieldFrom = visit_Yield

    new = copy.deepcopy(fn)
    new.body = [Rewrite().visit(x) for x in new.body]
    first = ast.Assign([ast.Name("__yielded", ast.Store())], ast.List([], ast.Load()))
    last = ast.Return(ast.Name("__yielded", ast.Load()))
    new.body = [ast.copy_location(first, fn.body[0])] + new.body + [ast.copy_location(last, fn.body[-1])]
    new.decorator_list = []
    ast.fix_missing_locations(new)
    _COLLECTED[fn] = new if good else None
    return _COLLECTED[fn]


def _plain_yields(fn, context):
    """every yield is a statement of its own"""
    own = list(_own_nodes(fn))
    if not context and any(isinstance(n, ast.Try) for n in own):
        return False
    stm = [n.value for n in own if isinstance(n, ast.Expr)]
    return all(any(n is x for x in stm) for n in own if isinstance(n, (ast.Yield, ast.YieldFrom)))


def _leaves_body(stmts, loop):
    """whether a body can be left by break, return or, outside of a loop, continue"""

    def go(n, inner):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            return False
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, ast.Break) and not inner:
            return True
        if isinstance(n, ast.Continue) and not inner and not loop:
            return True
        if isinstance(n, (ast.For, ast.While)):
            return any(go(x, True) for x in n.body) or any(go(x, inner) for x in n.orelse)
        return any(go(x, inner) for x in ast.iter_child_nodes(n))

    return any(go(x, False) for x in stmts)


_MADE = {}


def _made(node, build):
    """a synthetic tree for a node, made once so that its nodes are stable"""
    r = _MADE.get(node)
    if r is None:
        r = build()
        for x in r if isinstance(r, (list, tuple)) else [r]:
            for y in x if isinstance(x, list) else [x]:
                ast.copy_location(y, node)
                ast.fix_missing_locations(y)
        _MADE[node] = r
    return r


def _name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def _yield_from(s):
    def build():
        n = f"__sub_{s.lineno}_{s.col_offset}"
        return [ast.For(_name(n, True), s.value.value, [ast.Expr(ast.copy_location(ast.Yield(_name(n)), s))], [])]

    return _made(s, build)


def _counting(s, name):
    def build():
        step = [ast.Assign([s.target], _name(name)), ast.AugAssign(_name(name, True), ast.Add(), ast.Constant(1))]
        return [ast.While(ast.Constant(True), [ast.copy_location(x, s) for x in step] + s.body, s.orelse)]

    return _made(s, build)


def _nested_with(s):
    def build():
        return ast.With([s.items[0]], [ast.copy_location(ast.With(s.items[1:], s.body), s)])

    return _made(s, build)


def _with_tail(s):
    """body and what follows it when the body ends with a return"""

    def build():
        last = s.body[-1]
        if not isinstance(last, ast.Return):
            return (list(s.body), [])
        n = f"__value_{s.lineno}_{s.col_offset}"
        keep = ast.copy_location(ast.Assign([_name(n, True)], last.value or ast.Constant(None)), last)
        return (list(s.body[:-1]) + [keep], [ast.copy_location(ast.Return(_name(n)), last)])

    return _made(s, build)


def _desugar_match(s):
    """if statements for a match statement; None where a pattern is not covered"""

    def load(path):
        return path()

    def test(p, subj):
        """(conditions, bindings) of a pattern"""
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(subj(), [ast.Eq()], [p.value])], []
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(subj(), [ast.Is()], [ast.Constant(p.value)])], []
        if isinstance(p, ast.MatchAs):
            c, b = test(p.pattern, subj) if p.pattern is not None else ([], [])
            return c, b + ([(p.name, subj)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            parts = [test(x, subj) for x in p.patterns]
            if any(b for _, b in parts):
                raise NotImplementedError
            if any(not c for c, _ in parts):
                return [], []
            return [ast.BoolOp(ast.Or(), [c[0] if len(c) == 1 else ast.BoolOp(ast.And(), c) for c, _ in parts])], []
        if isinstance(p, ast.MatchSequence) and isinstance(s.subject, ast.Tuple) and subj is whole and len(p.patterns) == len(s.subject.elts) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            c, b = [], []
            for k, x in enumerate(p.patterns):
                ck, bk = test(x, lambda k=k: ast.Subscript(whole(), ast.Constant(k), ast.Load()))
                c, b = c + ck, b + bk
            return c, b
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return [ast.Call(_name("isinstance"), [subj(), p.cls], [])], []
        raise NotImplementedError

    n = f"__match_{s.lineno}_{s.col_offset}"

    def whole():
        return _name(n)

    def build():
        rest = []
        for case in reversed(s.cases):
            c, b = test(case.pattern, whole)
            binds = [ast.Assign([_name(x, True)], subj()) for x, subj in b]
            if case.guard is not None and b:
                raise NotImplementedError
            if case.guard is not None:
                c = c + [case.guard]
            body = binds + list(case.body)
            for x in binds:
                ast.copy_location(x, case.body[0])
            if not c:
                rest = body
            else:
                rest = [ast.copy_location(ast.If(c[0] if len(c) == 1 else ast.BoolOp(ast.And(), c), body, rest), case.body[0])]
        return [ast.Assign([_name(n, True)], s.subject)] + rest

    try:
        return _made(s, build)
    except NotImplementedError:
        return None


class FuncVal:
    def __init__(self, node, module, cls, closure, name, kind="plain"):
        self.node, self.module, self.cls, self.closure = node, module, cls, closure
        self.name = name
        self.kind = kind
        self.defaults = None
        self.given = {}

    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name


class LoopInfo:
    def __init__(self):
        self.headers = {}
        self.entry = {}
        self.end = {}
        self.final = {}
        self.dom = None
        self.bv = None
        self.loc = None
        self.cond = None


PURE_METHODS = {
    "get_source", "get_nonlinear_vectors", "get_linear_vectors", "keys", "items", "values", "get",
    "get_io_metadata", "startswith", "endswith", "replace", "center", "format", "join", "split",
    "lower", "upper", "strip", "item", "mean", "tolist", "astype", "index", "count", "get_state_size",
    "get_independent_input_size", "get_independent_output_size", "get_linearization_point_size",
    "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "get_val", "bit_length",
    "is_integer", "nonzero", "squeeze", "std", "var", "cumsum", "cumprod", "argmax", "argmin",
    "number_of_stages", "min_p_order",
}

IGNORED_CALLS = {"print", "warnings.warn"}

BUILTIN_EXC = {n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}


class Engine:
    ALL = []

    def __init__(self, pkg, opaque=(), hooks=None, max_depth=60):
        self.pkg = pkg
        self.opaque = set(opaque)
        self.views = {}
        self.size_claims = []
        self.hooks = hooks or {}
        self.effects = []
        self.loops = []  # active loop contexts (bv, dom, lid)
        self.loopinfo = {}
        self.stack = []  # active function frames: (FuncVal, frame id)
        self.frames = {}  # frame id -> (FuncVal, module, closure)
        self.sinks = []  # raise sinks
        self.handlers = []
        self.gen_cb = {}
        self.classes = {}
        self.funcs = FuncTable()
        self.objcls = {}
        self.ashape = {}
        self.argstack = []
        self.entry_params = {}
        self.bounded = []
        self.user_objects = set()  # opaque objects with an identity
        self.unsound = []
        self.zeroed = {}  # place -> array that is multiplied by a literal zero
        Engine.ALL.append(self)
        self.lossy = {}  # arrays of a type that cannot hold every float
        self.gcells = {}
        self.notes = []
        self.max_depth = max_depth
        self.n_calls = 0
        self.analysed = set()
        self._n = 0
        self.objinfo = {}
        self.facts = []
        self.budget = 400000
        self.written = []
        self.path = []  # call sites leading to the current frame
        self.occ = {}
        self.sids = {}
        T.AREF_SHAPE = self._aref_shape

    # ------------------------------------------------------------------ helpers

    def fresh(self):
        self._n += 1
        return self._n

    def stable(self, kind, what):
        """id that is the same whenever the same place is visited again (loop passes)"""
        key = (kind, what, tuple(self.path), tuple(l for _, _, l in self.loops))
        n = self.occ.get(key, 0)
        self.occ[key] = n + 1
        k = (key, n)
        if k not in self.sids:
            self.sids[k] = self.fresh()
        return self.sids[k]

    def _aref_shape(self, aid):
        if isinstance(aid, Term):
            return T.SHAPES.get(aid)
        return self.ashape.get(aid)

    def loc(self, node=None):
        fv = self.stack[-1][0] if self.stack else None
        line = getattr(node, "lineno", 0) if node is not None else getattr(self, "_line", 0)
        if fv is None:
            return ("?", line, "?")
        import os
        return (os.path.relpath(fv.module.path, self.pkg.root), line, fv.qual())

    def effect(self, st, kind, name, recv=None, args=(), kwargs=None, node=None, res=None):
        e = Effect(kind, name, recv, args, kwargs or {}, st, self.loops, self.loc(node), res, self.handlers, [f.qual() for f, _ in self.stack])
        self.effects.append(e)
        return e

    def res(self, name, st, shape=None):
        r = mk("res", self.stable("res", (name, getattr(self, "_line", 0))), name, tuple(b for b, _, _ in self.loops))
        if shape is not None:
            T.SHAPES[r] = tuple(shape)
        return r

    def unk(self, why, node=None):
        self.notes.append((why, self.loc(node)))
        if why.split(" ")[0] in ("write", "statement", "yield", "generator", "delete", "assignment", "local"):
            # an effect that is not modelled: no violation may be concluded from this analysis
            self.unsound.append((why, self.loc(node)))
        return mk("unk", self.fresh(), why)

    # -------------------------------------------------------------- allocation

    def new_obj(self, cls, st):
        oid = self.fresh()
        self.objcls[oid] = cls
        return mk("obj", oid)

    def new_array(self, content, shape, st):
        aid = self.fresh()
        if shape is not None:
            self.ashape[aid] = tuple(shape)
        st.cells[("a", aid)] = content
        return mk("aref", aid, ())

    def new_list(self, content, st):
        lid = self.fresh()
        st.cells[("L", lid)] = content
        return mk("list", lid)

    def new_dict(self, content, st):
        did = self.fresh()
        st.cells[("D", did)] = content
        return mk("dict", did)

    # ---------------------------------------------------------- cells and deref

    def get(self, st, key, default=None):
        v = st.cells.get(key)
        if v is None:
            v = self.gcells.get(key)
        return default if v is None else v

    def content(self, st, base):
        """content of an external container"""
        v = self.get(st, ("x", base))
        if v is not None:
            return v
        for kind, _ in self.havoc_kinds():
            pass
        k = self.vec_kind(base)
        ep = self.get(st, ("epoch", k)) if k else None
        if ep is not None:
            return mk("after", ep, base)
        return base

    def havoc_kinds(self):
        return ()

    def vec_kind(self, base):
        """external vectors that a solver call rewrites"""
        if base.op == "item" and base.args[0].op == "call":
            f = base.args[0].args[0]
            n = f.args[-1] if f.op in ("attr", "ext") else None
            if n == "get_nonlinear_vectors":
                return "nl"
            if n == "get_linear_vectors":
                return "lin"
        return None

    def havoc(self, st, kind, res):
        for k in [k for k in st.cells if k[0] == "x" and self.vec_kind(k[1]) == kind]:
            del st.cells[k]
        st.cells[("epoch", kind)] = res

    def deref(self, v, st):
        """value of a reference (numbers, array contents, nested)"""
        op = v.op
        if op == "aref":
            aid, idx = v.args
            if isinstance(aid, Term):
                return T.item(self.content(st, aid), idx)
            c = self.get(st, ("a", aid))
            if c is None:
                return self.unk("missing array")
            return T.item(c, idx)
        if op == "ite":
            return T.ite(v.args[0], self.deref(v.args[1], st), self.deref(v.args[2], st))
        if op == "list":
            c = self.get(st, ("L", v.args[0]))
            return self.deep(c, st) if c is not None else v
        if op == "tuple":
            return self.deep(v, st)
        return v

    def deep(self, v, st, depth=0):
        if v.op == "tuple":
            return mk("tuple", tuple(self.deep(x, st, depth + 1) for x in v.args[0]))
        if v.op in ("aref", "ite", "list") and depth < 12:
            return self.deref(v, st)
        return v

    def materialize(self, v, st, depth=0, only=None):
        """reference structure -> pure value (objects become 'objv', dicts 'dictv')"""
        if depth > 10:
            return v
        op = v.op
        if op == "obj":
            oid = v.args[0]
            if only is not None and oid <= only:
                return v
            fields = sorted(((k[2], x) for k, x in st.cells.items() if k[0] == "f" and k[1] == oid), key=lambda p: p[0])
            if oid not in self.objcls:
                return v
            return mk("objv", self.objcls[oid].name, tuple((const(n), self.materialize(x, st, depth + 1, only)) for n, x in fields))
        if op == "dict":
            if only is not None and v.args[0] <= only:
                return v
            c = self.get(st, ("D", v.args[0]))
            return self.materialize(c, st, depth + 1, only) if c is not None else v
        if op == "list":
            if only is not None and v.args[0] <= only:
                return v
            c = self.get(st, ("L", v.args[0]))
            return self.materialize(c, st, depth + 1, only) if c is not None else v
        if op == "aref" and not isinstance(v.args[0], Term):
            if only is not None and v.args[0] <= only:
                return v
            if not v.args[1]:
                c = self.get(st, ("a", v.args[0]))
                if c is not None:
                    return self.based(("a", v.args[0]), c)
            return self.deref(v, st)
        if op == "dictv":
            return mk("dictv", tuple((k, self.materialize(x, st, depth + 1, only)) for k, x in v.args[0]))
        if op == "tuple":
            return mk("tuple", tuple(self.materialize(x, st, depth + 1, only) for x in v.args[0]))
        if op == "ite":
            return T.ite(v.args[0], self.materialize(v.args[1], st, depth + 1, only), self.materialize(v.args[2], st, depth + 1, only))
        if op in ("store", "mapstore", "concat", "amap", "filt", "flatmap", "full"):
            m = {}
            for x in T.subterms(v):
                if x is not v and x.op in ("dict", "dictv", "list", "obj", "aref") and not (x.op == "aref" and isinstance(x.args[0], Term)):
                    y = self.materialize(x, st, depth + 1, only)
                    if y is not x:
                        m[x] = y
            return T.subst(v, m) if m else v
        return v

    # ------------------------------------------------------------------ classes

    def cls(self, name):
        """ClassInfo by public name"""
        for (m, n), c in self.classes.items():
            if n == name:
                return c
        f = self.pkg.find_class(name)
        if f is None:
            return None
        return self.class_of(f[0], f[1])

    def class_of(self, module, node):
        key = (module.name, node.name)
        c = self.classes.get(key)
        if c is not None:
            return c
        c = ClassInfo(node.name, node, module)
        self.classes[key] = c
        st = State()
        for b in node.bases:
            c.bases.append(self.resolve_static(module, b))
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "plain"
                skip = False
                for d in s.decorator_list:
                    dn = _dotted(d)
                    if dn in ("staticmethod",):
                        kind = "static"
                    elif dn in ("classmethod",):
                        kind = "class"
                    elif dn in ("property", "functools.cached_property", "cached_property"):
                        kind = "property"
                    elif dn and dn.endswith(".setter"):
                        skip = True
                        c.setters[s.name] = FuncVal(s, module, c, None, s.name)
                if not skip:
                    c.attrs[s.name] = FuncVal(s, module, c, None, s.name, kind)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.ann.append((s.target.id, s.value))
                if s.value is not None:
                    c.attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
        c.mro = self._mro(c)
        return c

    def _mro(self, c):
        seqs = [list(b.mro) if isinstance(b, ClassInfo) else [b] for b in c.bases]
        seqs.append(list(c.bases))
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def resolve_static(self, module, node):
        """a name expression at module level as ClassInfo or ext term"""
        d = _dotted(node)
        if d is None:
            return mk("ext", "?" + ast.dump(node)[:40])
        parts = d.split(".")
        r = self.module_name(module, parts[0])
        for p in parts[1:]:
            if r is not None and isinstance(r, Term) and r.op == "ext":
                r = self.ext_attr(r, p)
        if isinstance(r, Term) and r.op == "cls":
            return self.funcs[r]
        return r if r is not None else mk("ext", d)

    def cls_term(self, c):
        t = mk("cls", c.module.name + "." + c.name)
        self.funcs[t] = c
        return t

    def func_term(self, fv):
        key = (id(fv.node), fv.closure)
        t = mk("func", f"{fv.module.name}.{fv.qual()}", str(fv.closure), fv.node.lineno if hasattr(fv.node, "lineno") else 0, getattr(fv.node, "col_offset", 0))
        if t not in self.funcs:
            self.funcs[t] = fv
        return t

    def lookup(self, c, name, after=None):
        """(ClassInfo, attr) following the MRO"""
        mro = c.mro
        if after is not None:
            mro = mro[mro.index(after) + 1 :] if after in mro else mro[1:]
        for k in mro:
            if isinstance(k, ClassInfo) and name in k.attrs:
                return k, k.attrs[name]
        return None

    def is_subclass(self, c, d):
        return d in c.mro

    # ---------------------------------------------------------------- name lookup

    def module_name(self, module, name):
        b = module.env.get(name)
        if b is None:
            return None
        kind = b[0]
        if kind == "func":
            return self.func_term(FuncVal(b[1], module, None, None, name))
        if kind == "class":
            return self.cls_term(self.class_of(module, b[1]))
        if kind == "import":
            if b[1] in self.pkg.modules:
                return mk("mod", b[1])
            return mk("ext", b[1])
        if kind == "from":
            _, base, nm = b
            if base + "." + nm in self.pkg.modules:
                return mk("mod", base + "." + nm)
            if base in self.pkg.modules:
                r = self.module_name(self.pkg.modules[base], nm)
                return r if r is not None else mk("ext", base + "." + nm)
            return mk("ext", (base + "." + nm) if base else nm)
        if kind == "expr":
            return self.module_value(module, name)
        return None

    def module_value(self, module, name):
        if not module.executed:
            module.executed = True
            self._exec_module(module)
        if module.frame is None:
            return None
        return self.gcells.get(("v", module.frame, name))

    def _exec_module(self, module):
        fid = self.fresh()
        module.frame = fid
        fv = FuncVal(module.tree, module, None, None, "<module>")
        self.frames[fid] = (fv, module, None)
        st = State()
        saved = (self.effects, self.loops, self.sinks, self.handlers)
        self.effects, self.loops, self.sinks, self.handlers = [], [], [[]], []
        self.stack.append((fv, fid))
        try:
            for s in module.tree.body:
                if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
                    continue
                try:
                    for ex in self.exec_stmt(s, st):
                        if ex.kind == "next":
                            st = ex.st
                except (Dead, GiveUp):
                    pass
                self.gcells.update(st.cells)
        finally:
            self.stack.pop()
            self.effects, self.loops, self.sinks, self.handlers = saved
        self.gcells.update(st.cells)

    def name(self, node, st):
        n = node.id
        fid = self.stack[-1][1]
        while fid is not None:
            v = self.get(st, ("v", fid, n))
            if v is not None:
                return v
            fv, module, closure = self.frames[fid]
            fid = closure
        module = self.stack[-1][0].module
        scope = getattr(self.stack[-1][0], "scope", None)
        if scope is not None and n in scope.attrs:
            a = scope.attrs[n]
            if isinstance(a, FuncVal):
                return self.func_term_m(a)
            if a is not self.stack[-1][0].node:
                return self.class_value(scope, n, a, st)
        v = self.module_name(module, n)
        if v is not None:
            return v
        if n == "NotImplemented":
            return mk("ext", "NotImplemented")
        if hasattr(_bi, n):
            return mk("ext", n)
        return self.unk("unbound name " + n, node)

    # ------------------------------------------------------------------ joining

    def join2(self, a, b, cond=None):
        """join two states; cond: literal that selects a (else derived from pcs)"""
        common = [x for x in a.pc if x in b.pc]
        ra = [x for x in a.pc if x not in common]
        rb = [x for x in b.pc if x not in common]
        ca, cb = T.land(*ra), T.land(*rb)
        c = ca if cond is None else cond
        if c is TRUE and cond is None:
            c = T.lnot(cb)
        self.set_facts(State({}, tuple(common)))
        cells = {}
        for k in a.cells.keys() | b.cells.keys():
            x, y = a.cells.get(k), b.cells.get(k)
            if x is y:
                cells[k] = x
            elif x is None or y is None:
                if k[0] == "memo":
                    continue
                if k[0] in ("v", "f", "a", "L", "D", "fa"):
                    cells[k] = x if y is None else y
                elif k[0] == "x":
                    dx = x if x is not None else self.content(a, k[1])
                    dy = y if y is not None else self.content(b, k[1])
                    cells[k] = self.gate(c, dx, dy, k)
                elif k[0] == "fx":
                    d = mk("attr", k[1], k[2])
                    cells[k] = self.gate(c, x or d, y or d, k)
                else:
                    cells[k] = x if y is None else y
            else:
                cells[k] = self.gate(c, x, y, k)
        extra = T.lor(ca, cb)
        pc = tuple(common)
        if extra is not TRUE:
            pc = pc + ((extra,) if extra.op != "and" else extra.args[0])
        return State(cells, pc)

    def gate(self, c, x, y, key=None):
        if key is not None and key[0] == "L" and x.op != y.op:
            pass
        return T.ite(c, x, y)

    def join(self, states):
        states = list(states)
        if not states:
            return None
        out = states[-1]
        for s in reversed(states[:-1]):
            out = self.join2(s, out)
        return out

    def join_vals(self, exits):
        """(state, value) of several return exits"""
        st, val = exits[-1].st, exits[-1].val
        for e in reversed(exits[:-1]):
            common = [x for x in e.st.pc if x in st.pc]
            self.set_facts(State({}, tuple(common)))
            ca = T.land(*[x for x in e.st.pc if x not in common])
            if ca is TRUE:
                ca = T.lnot(T.land(*[x for x in st.pc if x not in common]))
            val = T.ite(ca, e.val, val)
            st = self.join2(e.st, st)
        return st, val

    # ------------------------------------------------------------------ blocks

    def exec_block(self, stmts, st):
        """exits of a block; at most one of kind 'next'"""
        out = []
        cur = st
        for s in stmts:
            try:
                exits = self.exec_stmt(s, cur)
            except Dead:
                return out
            nxt = []
            for e in exits:
                (nxt if e.kind == "next" else out).append(e)
            if not nxt:
                return out
            cur = nxt[0].st if len(nxt) == 1 else self.join([e.st for e in nxt])
        out.append(Exit("next", cur))
        return out

    def set_facts(self, st):
        fs = list(st.pc) + list(self.facts)
        for bv, dom, _ in self.loops:
            d = T.base_dom(dom)
            if d.op == "range":
                fs.append(T.ge0(T.sub(bv, d.args[0])))
                fs.append(T.gt0(T.sub(d.args[1], bv)))
        T.FACTS[:] = [fs]

    def exec_stmt(self, s, st):
        self._line = getattr(s, "lineno", 0)
        self.budget -= 1
        if self.budget < 0:
            raise GiveUp("analysis budget")
        self.set_facts(st)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unk("statement " + type(s).__name__, s)
            return [Exit("next", st)]
        return m(s, st)

    def s_Pass(self, s, st):
        return [Exit("next", st)]

    s_Import = s_Global = s_Nonlocal = s_Pass

    def s_ImportFrom(self, s, st):
        fid = self.stack[-1][1]
        base = s.module or ""
        for a in s.names:
            r = None
            if base in self.pkg.modules:
                r = self.module_name(self.pkg.modules[base], a.name)
            st.cells[("v", fid, a.asname or a.name)] = r if r is not None else mk("ext", base + "." + a.name)
        return [Exit("next", st)]

    def s_Import(self, s, st):
        fid = self.stack[-1][1]
        for a in s.names:
            nm = a.name if a.asname else a.name.split(".")[0]
            st.cells[("v", fid, a.asname or nm)] = mk("mod", nm) if nm in self.pkg.modules else mk("ext", nm)
        return [Exit("next", st)]

    # bodies of loops and with statements over package generators, by the generator's frame
    gen_want = None

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [Exit("next", st)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            got = self.gen_cb.get(self.stack[-1][1])
            if got is None:
                self.unk("yield", s)
                return [Exit("next", st)]
            if isinstance(s.value, ast.YieldFrom):
                return self.exec_block(_yield_from(s), st)
            return self.resume(got, self.eval(s.value.value, st) if s.value.value is not None else NONE, st)
        self.eval(s.value, st)
        return [Exit("next", st)]

    def resume(self, got, v, st):
        """the consumer's body for one yielded value, in the consumer's frame"""
        callback, stack, handlers, keep = got
        inner = (self.stack, self.handlers)
        self.stack = list(stack)
        if not keep:
            self.handlers = handlers
        try:
            ex = callback(v, st)
        finally:
            self.stack, self.handlers = inner
        return [Exit("next", e.st) if e.kind == "continue" else e for e in ex]

    def over_generator(self, node, callback, st, context):
        """evaluates the call; True when it was a package generator whose values went to the callback"""
        saved = self.gen_want
        self.gen_want = want = [node, callback, context, False]
        try:
            v = self.eval(node, st)
        finally:
            self.gen_want = saved
        return want[3], v

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        v = self.bindable(v, st)
        for t in s.targets:
            self.assign(t, v, st)
        return [Exit("next", st)]

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.bindable(self.eval(s.value, st), st), st)
        return [Exit("next", st)]

    def bindable(self, v, st):
        """a pure array value that gets a name becomes an array object"""
        if v.op in ("aref", "obj", "list", "dict", "tuple", "const", "num", "func", "cls", "ext", "bound", "fmt", "objv", "dictv", "res", "item", "attr", "sym", "bv"):
            return v
        if T.is_boolish(v):
            return v
        sh = T.shape(v)
        if sh is not None and len(sh) > 0 and v.op in ("poly", "sum", "amap", "max", "min", "abs", "store", "mapstore", "roll", "concat", "ite"):
            if v.op == "ite" and any(x.op in ("aref", "obj", "list", "dict") for x in v.args[1:]):
                return v
            return self.new_array(v, sh, st)
        return v

    def scaled_away(self, old, st, node):
        """an array multiplied by a literal zero: 0 for numbers, but NaN and infinities of the old content stay"""
        c = self.deref(old, st)
        if T.numval(c) is None and c.op not in ("full", "zeros", "ones"):
            self.zeroed[self.loc(node)] = T.show(c, 80)

    def s_AugAssign(self, s, st):
        opn = type(s.op).__name__
        rhs = self.eval(s.value, st)
        if opn == "Mult" and isinstance(s.value, ast.Constant) and s.value.value == 0 and not isinstance(s.target, ast.Name):
            self.scaled_away(self.eval(ast.copy_location(_load(s.target), s.target), st), st, s)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            cur = self.attr(base, t.attr, st, s)
        else:
            base = self.eval(t.value, st)
            idx = self.index(t.slice, st)
            cur = self.subscript(base, idx, st, s)
            if cur.op == "aref":
                new = self.binop(opn, self.deref(cur, st), self.deref(rhs, st), st)
                self.write_ref(cur, new, st, s)
                return [Exit("next", st)]
            new = self.binop(opn, self.deref(cur, st), self.deref(rhs, st), st)
            self.store_sub(base, idx, new, st, s)
            return [Exit("next", st)]
        # name / attribute
        if cur.op == "aref" and T.shape(cur) != ():
            new = self.binop(opn, self.deref(cur, st), self.deref(rhs, st), st)
            self.write_ref(cur, new, st, s)
            return [Exit("next", st)]
        if cur.op == "ite" and any(x.op == "aref" for x in T.subterms(cur) if x.op in ("aref",)) and all(x.op == "aref" for x in _leaves(cur)):
            for g, leaf in _gated(cur):
                new = self.binop(opn, self.deref(leaf, st), self.deref(rhs, st), st)
                self.write_ref(leaf, T.ite(g, new, self.deref(leaf, st)), st, s)
            return [Exit("next", st)]
        if cur in self.views:
            self.write_view(cur, self.binop(opn, cur, self.deref(rhs, st), st), st, s)
            if isinstance(t, ast.Name):
                self.bind_name(t.id, self.review(cur, st), st)
            return [Exit("next", st)]
        if cur.op == "tuple" and opn == "Add" and rhs.op == "tuple":
            self.assign(t, mk("tuple", cur.args[0] + rhs.args[0]), st)
            return [Exit("next", st)]
        if cur.op == "list" and opn == "Add":
            self.list_extend(cur, rhs, st, s)
            return [Exit("next", st)]
        if cur.op == "dict" and opn == "BitOr":
            self.call_builtin_method(cur, "update", [rhs], {}, st, s)
            return [Exit("next", st)]
        new = self.binop(opn, self.deref(cur, st), self.deref(rhs, st), st)
        if isinstance(t, ast.Name):
            self.bind_name(t.id, new, st)
        else:
            self.set_attr(base, t.attr, new, st, s)
        return [Exit("next", st)]

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                idx = self.index(t.slice, st)
                self.effect(st, "delete", "del", base, idx, node=s)
                if base.op == "dict":
                    c = self.get(st, ("D", base.args[0]))
                    if c.op == "dictv":
                        st.cells[("D", base.args[0])] = mk("dictv", tuple((k, v) for k, v in c.args[0] if k is not idx[0]))
                    else:
                        st.cells[("D", base.args[0])] = self.unk("del")
                elif base.op == "list":
                    c = self.get(st, ("L", base.args[0]))
                    if T.numval(idx[0]) == -1:
                        st.cells[("L", base.args[0])] = self.seq_init(c)
                    elif idx[0] is FULL:
                        st.cells[("L", base.args[0])] = mk("tuple", ())
                    else:
                        st.cells[("L", base.args[0])] = self.unk("del")
            elif isinstance(t, ast.Name):
                pass
            else:
                self.unk("delete", s)
        return [Exit("next", st)]

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        return [Exit("return", st, v, self.loc(s))]

    def s_Raise(self, s, st):
        if s.exc is None:
            v = mk("ext", "reraise")
            if getattr(self, "cur_exc", None):
                v = self.cur_exc[-1] if self.cur_exc else v
        else:
            v = self.eval(s.exc, st)
        self.effect(st, "raise", self.exc_name(v), None, (v,), node=s)
        return [Exit("raise", st, v, self.loc(s))]

    def exc_name(self, v):
        if v.op == "obj":
            return self.objcls[v.args[0]].name
        if v.op == "cls":
            return self.funcs[v].name
        if v.op == "exc_inst":
            return v.args[0]
        if v.op == "ext":
            return v.args[0].split(".")[-1]
        if v.op == "res":
            return v.args[1].split(".")[-1]
        if v.op == "call" and v.args[0].op == "ext":
            return v.args[0].args[0]
        return "?"

    def s_Assert(self, s, st):
        c = T.truth(self.deref(self.eval(s.test, st), st))
        out = []
        if c is not TRUE:
            bad = st.copy()
            bad.assume(T.lnot(c))
            self.effect(bad, "raise", "AssertionError", None, (), node=s)
            out.append(Exit("raise", bad, mk("ext", "AssertionError"), self.loc(s)))
            st.assume(c)
        out.append(Exit("next", st))
        return out

    def s_FunctionDef(self, s, st):
        fid = self.stack[-1][1]
        fv = FuncVal(s, self.stack[-1][0].module, None, fid, s.name)
        t = mk("func", f"{fv.module.name}.{s.name}", str(fid), s.lineno, s.col_offset)
        self.funcs[t] = fv
        t = self.with_defaults(t, s.args, st)
        if s.decorator_list:
            for d in reversed(s.decorator_list):
                dn = _dotted(d if not isinstance(d, ast.Call) else d.func)
                if dn and dn.split(".")[-1] in ("wraps", "lru_cache", "cache"):
                    continue
                t = self.unk("decorated local function", s)
        st.cells[("v", fid, s.name)] = t
        return [Exit("next", st)]

    def s_ClassDef(self, s, st):
        self.unk("local class", s)
        return [Exit("next", st)]

    def s_Match(self, s, st):
        new = _desugar_match(s)
        if new is None:
            self.unk("match pattern", s)
            return [Exit("next", st)]
        return self.exec_block(new, st)

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        return self.branch(c, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x), st)

    def cond(self, node, st):
        c = T.truth(self.deref_truth(self.eval(node, st), st))
        self.set_facts(st)
        return self.simplify_cond(c)

    def simplify_cond(self, c):
        k = T.known(c)
        if k is not None:
            return const(k)
        if c.op == "and":
            parts = [x for x in c.args[0] if T.known(x) is not True]
            return T.land(*parts)
        if c.op == "or":
            parts = [x for x in c.args[0] if T.known(x) is not False]
            return T.lor(*parts)
        return c

    def deref_truth(self, v, st):
        if v.op == "list":
            c = self.get(st, ("L", v.args[0]))
            return self.truth_seq(c)
        if v.op == "dict":
            c = self.get(st, ("D", v.args[0]))
            if c.op == "dictv":
                return const(len(c.args[0]) > 0)
            return mk("truth", c)
        if v.op == "ite":
            return T.ite(v.args[0], T.truth(self.deref_truth(v.args[1], st)), T.truth(self.deref_truth(v.args[2], st)))
        return self.deref(v, st)

    def truth_seq(self, c):
        return T.gt0(self.length(c))

    def branch(self, c, then, other, st):
        if c is TRUE:
            return then(st)
        if c is FALSE:
            return other(st)
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(T.lnot(c))
        self.set_facts(a)
        ea = then(a)
        self.set_facts(b)
        eb = other(b)
        na = [e for e in ea if e.kind == "next"]
        nb = [e for e in eb if e.kind == "next"]
        out = [e for e in ea + eb if e.kind != "next"]
        if na and nb:
            x, y = na[0].st, nb[0].st
            only = self._pure_branch(st, x, y, c)
            out.append(Exit("next", self.join2(x, y, c if only else None)))
        elif na or nb:
            out.append((na or nb)[0])
        return out

    def _pure_branch(self, st, x, y, c):
        ca = [l for l in x.pc if l not in st.pc]
        cb = [l for l in y.pc if l not in st.pc]
        return T.land(*ca) is c and T.land(*cb) is T.lnot(c)

    def s_With(self, s, st):
        if len(s.items) > 1:
            return self.exec_block([_nested_with(s)], st)
        names, ends = [], []
        for item in s.items:
            if isinstance(item.context_expr, ast.Call):
                body, tail = _with_tail(s)
                ok = not _leaves_body(body, loop=False)

                def inside(v, x):
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, self.bindable(v, x), x)
                    return self.exec_block(body, x)

                ran, v = self.over_generator(item.context_expr, inside, st, True) if ok else (False, self.eval(item.context_expr, st))
                if ran:
                    return self.exec_block(tail, st)
            else:
                v = self.eval(item.context_expr, st)
            nm = ast.unparse(item.context_expr)
            if v.op in ("res", "call") and isinstance(v.args[1] if v.op == "res" else None, str) and v.args[1].split(".")[-1] == "suppress":
                self.handlers = self.handlers + [("with", ["suppress:" + nm])]
                names.append("h")
            if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0].split(".")[-1] == "suppress":
                self.handlers = self.handlers + [("with", ["suppress:" + nm])]
                names.append("h")
            if item.optional_vars is not None:
                w = v
                if v.op == "obj":
                    c = self.objcls[v.args[0]]
                    r = self.lookup(c, "__enter__")
                    if r:
                        w = self.call_func(r[1], [v], {}, st, s)
                self.assign(item.optional_vars, w, st)
            if v.op == "obj" and self.lookup(self.objcls[v.args[0]], "__exit__"):
                ends.append(v)
        ex = self.exec_block(s.body, st)
        for v in reversed(ends):
            r = self.lookup(self.objcls[v.args[0]], "__exit__")
            for x in ex:
                if x.kind != "raise":
                    self.call_func(r[1], [v, NONE, NONE, NONE], {}, x.st, s)
        for _ in names:
            self.handlers = self.handlers[:-1]
        return ex

    key_doubts = 0

    def s_Try(self, s, st):
        entry = st.copy()
        specs = []
        for h in s.handlers:
            if h.type is None:
                specs.append([("any", "BaseException")])
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                lst = []
                for t in ts:
                    v = self.eval(t, entry)
                    lst.append((v, self.exc_name(v)))
                specs.append(lst)
        saved = self.handlers
        self.handlers = saved + [("try", [n for sp in specs for _, n in sp], self.loc(s))]
        self.sinks.append([])
        n_eff = len(self.effects)
        doubts = self.key_doubts
        try:
            exits = self.exec_block(s.body, st)
        finally:
            self.handlers = saved
            sink = self.sinks.pop()
        raises = [e for e in exits if e.kind == "raise"] + sink
        rest = [e for e in exits if e.kind != "raise"]
        out = []
        if s.orelse:
            nx = [e for e in rest if e.kind == "next"]
            rest = [e for e in rest if e.kind != "next"]
            if nx:
                rest += self.exec_block(s.orelse, nx[0].st)
        handled = []
        for r in raises:
            done = False
            for h, sp in zip(s.handlers, specs):
                m = self.exc_match(r.val, sp)
                if m:
                    handled.append((h, r))
                    done = True
                    break
            if not done:
                out.append(r)
        # exceptions of calls outside the package
        lookups = any(n in ("any", "BaseException", "Exception", "LookupError", "IndexError", "KeyError", "TypeError", "?") for sp in specs for _, n in sp)
        ext_calls = [e for e in self.effects[n_eff:] if e.kind == "call"] or self._has_external(s.body, lookups)
        for h, sp in zip(s.handlers, specs):
            pkg_only = all(v != "any" and v.op == "cls" for v, _ in sp)
            if all(n == "KeyError" for _, n in sp) and self.key_doubts == doubts and not any(e.kind == "call" for e in self.effects[n_eff:]):
                continue
            if ext_calls and not pkg_only:
                lit = mk("truth", mk("exc", self.loc(s)[0], s.lineno, tuple(b for b, _, _ in self.loops)))
                e2 = entry.copy()
                e2.assume(lit)
                handled.append((h, Exit("raise", e2, mk("exc_inst", sp[0][1]), self.loc(s))))
                for e in rest:
                    e.st.assume(T.lnot(lit))
                break
        for h, r in handled:
            hs = r.st.copy()
            if h.name:
                hs.cells[("v", self.stack[-1][1], h.name)] = r.val
            if not hasattr(self, "cur_exc"):
                self.cur_exc = []
            self.cur_exc.append(r.val)
            try:
                rest += self.exec_block(h.body, hs)
            finally:
                self.cur_exc.pop()
        nx = [e for e in rest if e.kind == "next"]
        other = [e for e in rest if e.kind != "next"] + out
        if nx:
            j = self.join([e.st for e in nx])
            other.append(Exit("next", j))
        if s.finalbody:
            fin = []
            for e in other:
                for f in self.exec_block(s.finalbody, e.st):
                    if f.kind == "next":
                        fin.append(Exit(e.kind, f.st, e.val, e.loc))
                    else:
                        fin.append(f)
            other = fin
        rs = [e for e in other if e.kind == "raise"]
        return other

    s_TryStar = s_Try

    def _has_external(self, body, lookups=True):
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in BUILTIN_EXC:
                    continue
                if isinstance(n, ast.Call) or (lookups and isinstance(n, ast.Subscript)):
                    return True
        return False

    def exc_match(self, val, specs):
        name = self.exc_name(val)
        c = None
        if val.op == "obj":
            c = self.objcls[val.args[0]]
        elif val.op == "cls":
            c = self.funcs[val]
        for v, n in specs:
            if v == "any":
                return True
            if c is not None:
                if v.op == "cls" and self.is_subclass(c, self.funcs[v]):
                    return True
                if n in ("Exception", "BaseException"):
                    return True
                if any((not isinstance(k, ClassInfo)) and k.args[0].split(".")[-1] == n for k in c.mro):
                    return True
            else:
                if n in ("Exception", "BaseException") or n == name:
                    return True
                if name in BUILTIN_EXC and n in BUILTIN_EXC and issubclass(getattr(_bi, name), getattr(_bi, n)):
                    return True
        return False

    def s_Break(self, s, st):
        return [Exit("break", st)]

    def s_Continue(self, s, st):
        return [Exit("continue", st)]

    # ------------------------------------------------------------------- loops

    def s_For(self, s, st):
        if isinstance(s.iter, ast.Call) and not _leaves_body(s.body, loop=True):

            def each(v, x):
                self.assign(s.target, self.bindable(v, x), x)
                return self.exec_block(s.body, x)

            ran, it = self.over_generator(s.iter, each, st, False)
            if ran:
                return self.exec_block(s.orelse, st)
        else:
            it = self.eval(s.iter, st)
        if it.op == "range" and it.args[1].op == "ext":
            # endless: the counter is kept by hand
            name = f"__counter_{s.lineno}_{s.col_offset}"
            st.cells[("v", self.stack[-1][1], name)] = it.args[0]
            return self.exec_block(_counting(s, name), st)

        def bind(x, v):
            self.assign(s.target, v, x)

        return self.loop_iter(it, bind, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x), st, s)

    def iter_cases(self, it, st):
        """(condition, iterable, iterable) of an iterable which is one of two sequences of different lengths"""
        if it.op == "list":
            it = self.get(st, ("L", it.args[0]))
        if it.op == "ite":
            ls = [self.iter_domain(x, st) for x in it.args[1:]]
            if all(l[0] == "lit" for l in ls) and len(ls[0][1]) == len(ls[1][1]):
                return None
            return it.args
        if it.op in ("it_enum", "it_rev", "it_copy"):
            c = self.iter_cases(it.args[0], st)
            return c and (c[0], *(mk(it.op, x, *it.args[1:]) for x in c[1:]))
        return None

    def loop_iter(self, it, bind, body, orelse, st, node):
        cases = self.iter_cases(it, st)
        if cases:
            return self.branch(cases[0], *([lambda x, y=y: self.loop_iter(y, bind, body, orelse, x, node) for y in cases[1:]]), st)
        d = self.iter_domain(it, st)
        if d[0] == "lit":
            return self.loop_literal(d[1], bind, body, orelse, st)
        if d[0] == "seq":
            cur = st
            out = []
            for part in d[1]:
                ex = self.loop_iter(part, bind, body, lambda x: [Exit("next", x)], cur, node)
                nx = [e for e in ex if e.kind == "next"]
                out += [e for e in ex if e.kind != "next"]
                if not nx:
                    return out
                cur = nx[0].st
            for e in orelse(cur):
                out.append(e)
            return out
        _, dom, elem = d[:3]
        filt = d[3] if len(d) > 3 else None
        return self.run_loop(dom, elem, bind, body, orelse, st, node, None, filt)

    def loop_literal(self, elems, bind, body, orelse, st):
        out = []
        cur = st
        brk = []
        for v in elems:
            self.set_facts(cur)
            try:
                bind(cur, v)
                ex = body(cur)
            except Dead:
                return out + brk if not brk else out + [Exit("next", self.join(brk))]
            nx = []
            for e in ex:
                if e.kind in ("next", "continue"):
                    nx.append(e.st)
                elif e.kind == "break":
                    brk.append(e.st)
                else:
                    out.append(e)
            if not nx:
                cur = None
                break
            cur = self.join(nx)
        fin = []
        if cur is not None:
            for e in orelse(cur):
                if e.kind == "next":
                    fin.append(e.st)
                else:
                    out.append(e)
        fin = brk + fin
        if fin:
            out.append(Exit("next", self.join(fin)))
        return out

    def s_While(self, s, st):
        # the condition may be literally decidable for a few rounds
        return self.run_loop(None, None, None, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x), st, s, s.test)

    def run_loop(self, dom, elem, bind, body, orelse, st, node, cond_node, filt=None):
        from . import loops

        return loops.run_loop(self, dom, elem, bind, body, orelse, st, node, cond_node, filt)

    # -------------------------------------------------------------- iteration

    def iter_domain(self, it, st):
        if it.op == "objdict":
            return self.iter_domain(self.objdict_method(it, "keys", [], {}, st, None), st)
        return self.iter_domain_(it, st)

    def iter_domain_(self, it, st):
        """('lit', [...]) | ('dom', domain, elem(bv)[, filter(bv)]) | ('seq', [...])"""
        op = it.op
        if op == "obj" and self.named_tuple(it, st) is not None:
            return ("lit", list(self.named_tuple(it, st).args[0]))
        if op == "obj":
            r = self.lookup(self.objcls[it.args[0]], "__iter__")
            if r:
                return self.iter_domain(self.call_func(r[1], [it], {}, st, None), st)
        if op == "tuple":
            return ("lit", list(it.args[0]))
        if op in ("range", "rev", "rangestep"):
            b = T.base_dom(it)
            if b.op == "range":
                n = T.numval(T.dom_len(b))
                if n is not None and n <= 24:
                    ks = [T.add(b.args[0], const(k)) for k in range(max(0, int(n)))]
                    if op == "rev":
                        ks.reverse()
                    return ("lit", ks)
            if op == "rangestep":
                lo, hi, stp = (T.numval(x) for x in it.args)
                if None not in (lo, hi, stp) and stp != 0:
                    ks = list(range(int(lo), int(hi), int(stp)))
                    if len(ks) <= 64:
                        return ("lit", [const(k) for k in ks])
            return ("dom", it, lambda bv: bv)
        if op == "list":
            c = self.get(st, ("L", it.args[0]))
            return self.iter_seq(c, st)
        if op == "dict":
            c = self.get(st, ("D", it.args[0]))
            if c.op == "dictv":
                return ("lit", [k for k, _ in c.args[0]])
            return self.iter_domain(mk("it_keys", c), st)
        if op in ("it_items", "it_keys", "it_values"):
            d = it.args[0]
            if d.op == "dict":
                d = self.get(st, ("D", d.args[0]))
            if d.op == "dictv":
                if op == "it_items":
                    return ("lit", [mk("tuple", (k, v)) for k, v in d.args[0]])
                return ("lit", [k if op == "it_keys" else v for k, v in d.args[0]])
            if d.op in ("store", "mapstore") :
                parts = self.dict_parts(d)
                if parts is not None:
                    res = []
                    for p in parts:
                        if p[0] == "kv":
                            k, v = p[1], p[2]
                            x = mk("tuple", (k, v)) if op == "it_items" else (k if op == "it_keys" else v)
                            res.append(mk("tuple", (x,)))
                        else:
                            _, dm, bv, k, v = p
                            x = mk("tuple", (k, v)) if op == "it_items" else (k if op == "it_keys" else v)
                            res.append(T.amap(bv, dm, x))
                    return ("seq", res)
            n = mk("len", d)
            dom = mk("range", ZERO, n)

            def el(bv, d=d):
                k = mk("keyat", d, bv)
                v = T.item(d, (k,))
                return mk("tuple", (k, v)) if op == "it_items" else (k if op == "it_keys" else v)

            return ("dom", dom, el)
        if op == "it_enum":
            inner = self.iter_domain(it.args[0], st)
            start = it.args[1]
            if inner[0] == "lit":
                return ("lit", [mk("tuple", (T.add(start, const(k)), v)) for k, v in enumerate(inner[1])])
            if inner[0] == "dom" and len(inner) == 3:
                dom = inner[1]
                b = T.base_dom(dom)
                if b.op == "range" and dom.op == "range":
                    return ("dom", dom, lambda bv: mk("tuple", (T.add(start, T.sub(bv, b.args[0])), inner[2](bv))))
                if b.op == "range" and dom.op == "rev":
                    return ("dom", dom, lambda bv: mk("tuple", (T.add(start, T.sub(T.sub(b.args[1], ONE), bv)), inner[2](bv))))
            return ("dom", mk("range", ZERO, mk("len", it)), lambda bv: mk("tuple", (T.add(start, bv), T.item(it.args[0], (bv,)))))
        if op == "it_zip":
            parts = [self.iter_domain(x, st) for x in it.args[0]]
            if any(p[0] == "lit" for p in parts):
                n = min(len(p[1]) for p in parts if p[0] == "lit")
                cols = []
                for p, src in zip(parts, it.args[0]):
                    if p[0] == "lit":
                        cols.append(p[1][:n])
                    elif p[0] == "dom":
                        b = T.base_dom(p[1])
                        if b.op != "range" or len(p) > 3:
                            return self.iter_fallback(it)
                        if p[1].op == "range":
                            cols.append([p[2](T.add(b.args[0], const(k))) for k in range(n)])
                        else:
                            cols.append([p[2](T.sub(b.args[1], const(k + 1))) for k in range(n)])
                    else:
                        return self.iter_fallback(it)
                return ("lit", [mk("tuple", tuple(c[k] for c in cols)) for k in range(n)])
            if all(p[0] == "dom" and len(p) == 3 and T.base_dom(p[1]).op == "range" for p in parts):
                lens = [T.dom_len(T.base_dom(p[1])) for p in parts if p[1] is not INFRANGE]
                n = lens[0]
                if any(x is not n for x in lens[1:]):
                    known = [x for x in lens if not T.contains_op(x, {"len", "diml"})]
                    if known and all(x is known[0] for x in known):
                        n = known[0]
                    else:
                        n = T.tmin(*lens)
                revs = [p[1].op == "rev" for p in parts]
                if all(revs) and all(x is n for x in lens):
                    b0 = T.base_dom(parts[0][1])
                    return ("dom", parts[0][1], lambda bv: mk("tuple", tuple(p[2](T.add(T.base_dom(p[1]).args[0], T.sub(bv, b0.args[0]))) for p in parts)))

                def at(p, bv):
                    b = T.base_dom(p[1])
                    if p[1].op == "rev":
                        return p[2](T.sub(T.sub(b.args[1], ONE), bv))
                    return p[2](T.add(b.args[0], bv))

                return ("dom", mk("range", ZERO, n), lambda bv: mk("tuple", tuple(at(p, bv) for p in parts)))
            return self.iter_fallback(it)
        if op == "it_rev":
            inner = self.iter_domain(it.args[0], st)
            if inner[0] == "lit":
                return ("lit", list(reversed(inner[1])))
            if inner[0] == "dom":
                d = inner[1]
                nd = d.args[0] if d.op == "rev" else mk("rev", d)
                return ("dom", nd) + tuple(inner[2:])
            return self.iter_fallback(it)
        if op == "it_chain":
            parts = [self.iter_domain(x, st) for x in it.args[0]]
            if all(p[0] == "lit" for p in parts):
                return ("lit", [x for p in parts for x in p[1]])
            return ("seq", list(it.args[0]))
        if op == "it_copy":
            return self.iter_domain(it.args[0], st)
        if op == "ite":
            ls = [self.iter_domain(x, st) for x in (it.args[1], it.args[2])]
            if all(l[0] == "lit" for l in ls) and len(ls[0][1]) == len(ls[1][1]):
                return ("lit", [T.ite(it.args[0], a, b) for a, b in zip(ls[0][1], ls[1][1])])
            return self.iter_fallback(it)
        if op == "aref":
            sh = T.shape(it)
            aid, idx = it.args
            if sh is not None and sh:
                n = sh[0]
                mkel = lambda k: self.view(it, (k,), st)
                nv = T.numval(n)
                if nv is not None and nv <= 24:
                    return ("lit", [mkel(const(k)) for k in range(int(nv))])
                return ("dom", mk("range", ZERO, n), mkel)
            v = self.deref(it, st)
            return self.iter_seq(v, st) if v.op != "aref" else self.iter_fallback(it)
        return self.iter_seq(it, st)

    def iter_fallback(self, it):
        n = mk("len", it)
        return ("dom", mk("range", ZERO, n), lambda bv: T.item(it, (bv,)))

    def iter_seq(self, c, st):
        if c.op == "tuple":
            return ("lit", list(c.args[0]))
        if c.op == "amap":
            dom, bodyt, d = c.args
            if dom.op in ("range", "rev"):
                return ("dom", dom, lambda bv: T.subst(bodyt, {mk("bvc", d): bv}))
        if c.op == "filt":
            dom, trip, d = c.args
            return ("dom", dom, lambda bv: T.subst(trip, {mk("bvc", d): bv}).args[0][1], lambda bv: T.subst(trip, {mk("bvc", d): bv}).args[0][0])
        if c.op == "concat":
            return ("seq", list(c.args[0]))
        if c.op in ("range", "rev") or c.op.startswith("it_"):
            return self.iter_domain(c, st)
        if c.op == "dictv":
            return ("lit", [k for k, _ in c.args[0]])
        sh = T.shape(c)
        if sh is not None and sh:
            nv = T.numval(sh[0])
            if nv is not None and nv <= 24:
                return ("lit", [T.item(c, (const(k),)) for k in range(int(nv))])
            return ("dom", mk("range", ZERO, sh[0]), lambda bv: T.item(c, (bv,)))
        n = self.length(c)
        return ("dom", mk("range", ZERO, n), lambda bv: T.item(c, (bv,)))

    def dict_parts(self, d):
        """a dict built by stores as ordered parts"""
        out = []
        while True:
            if d.op == "dictv":
                out = [("kv", k, v) for k, v in d.args[0]] + out
                return out
            if d.op == "store" and len(d.args[1]) == 1:
                k, c = d.args[1][0], d.args[0]
                while c.op in ("store", "mapstore"):
                    if c.op == "mapstore" and not self._no_key(c, k):
                        return None  # may replace an entry
                    c = c.args[0]
                out.insert(0, ("kv", k, d.args[2]))
                d = d.args[0]
                continue
            if d.op == "mapstore":
                entry, dom, trip, dd = d.args
                bv = T.fresh_bv()
                t = T.subst(trip, {mk("bvc", dd): bv})
                if t.args[0][2] is not TRUE or len(t.args[0][0].args[0]) != 1:
                    return None
                out.insert(0, ("map", dom, bv, t.args[0][0].args[0][0], t.args[0][1]))
                d = entry
                continue
            return None

    def _no_key(self, c, k):
        """no entry written by the mapstore has the key"""
        r = T._mapstore_read(c, (k,))
        return r is not None and r.op == "item" and r.args[0] is c.args[0]

    def length(self, c):
        return T.tlen(c)

    def seq_init(self, c):
        """all but the last element"""
        if c.op == "tuple" and c.args[0]:
            return mk("tuple", c.args[0][:-1])
        if c.op == "concat" and c.args[0][-1].op == "tuple" and c.args[0][-1].args[0]:
            last = mk("tuple", c.args[0][-1].args[0][:-1])
            return self.concat(*c.args[0][:-1], last)
        return T.prefix(c, T.sub(self.length(c), ONE))

    def seq_last(self, c):
        if c.op == "tuple" and c.args[0]:
            return c.args[0][-1]
        if c.op == "concat" and c.args[0][-1].op == "tuple" and c.args[0][-1].args[0]:
            return c.args[0][-1].args[0][-1]
        if c.op == "prefix":
            return T.item(c.args[0], (T.sub(c.args[1], ONE),))
        return T.item(c, (T.sub(self.length(c), ONE),))

    def concat(self, *parts):
        out = []
        for p in parts:
            ps = p.args[0] if p.op == "concat" else (p,)
            for q in ps:
                if q.op == "tuple" and not q.args[0]:
                    continue
                if q.op == "tuple" and out and out[-1].op == "tuple":
                    out[-1] = mk("tuple", out[-1].args[0] + q.args[0])
                else:
                    out.append(q)
        if not out:
            return mk("tuple", ())
        if len(out) == 1:
            return out[0]
        return mk("concat", tuple(out))

    # ---------------------------------------------------------------- assigning

    def bind_name(self, n, v, st):
        fid = self.stack[-1][1]
        fv = self.stack[-1][0]
        nl = getattr(fv, "nonlocals", None)
        if nl is None:
            nl = set()
            gl = set()
            if isinstance(fv.node, (ast.FunctionDef,)):
                for x in ast.walk(fv.node):
                    if isinstance(x, ast.Nonlocal):
                        nl.update(x.names)
                    if isinstance(x, ast.Global):
                        gl.update(x.names)
            fv.nonlocals = nl
            fv.globals_ = gl
        if n in nl:
            f = self.frames[fid][2]
            while f is not None:
                if ("v", f, n) in st.cells:
                    st.cells[("v", f, n)] = v
                    return
                f = self.frames[f][2]
        st.cells[("v", fid, n)] = v

    def assign(self, target, v, st):
        if isinstance(target, ast.Name):
            self.bind_name(target.id, v, st)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, v, st)
        elif isinstance(target, ast.Attribute):
            base = self.eval(target.value, st)
            self.set_attr(base, target.attr, v, st, target)
        elif isinstance(target, ast.Subscript):
            base = self.eval(target.value, st)
            idx = self.index(target.slice, st)
            self.store_sub(base, idx, v, st, target)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st)
        else:
            self.unk("assignment target", target)

    def unpack(self, elts, v, st):
        seq = None
        if v.op == "tuple":
            seq = list(v.args[0])
        elif v.op == "list":
            c = self.get(st, ("L", v.args[0]))
            if c.op == "tuple":
                seq = list(c.args[0])
        elif v.op in ("it_values", "it_keys", "it_items", "dict", "it_zip", "it_enum", "it_map", "concat"):
            c = self.as_seq(v, st)
            if c.op == "tuple":
                seq = list(c.args[0])
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if seq is not None and star:
            i = star[0]
            after = len(elts) - i - 1
            mid = seq[i : len(seq) - after]
            vals = seq[:i] + [self.new_list(mk("tuple", tuple(mid)), st)] + (seq[len(seq) - after :] if after else [])
            for e, x in zip(elts, vals):
                self.assign(e, x, st)
            return
        if seq is not None:
            for e, x in zip(elts, seq):
                self.assign(e, x, st)
            return
        if v.op == "obj":
            d = self.iter_domain(v, st)
            if d[0] == "lit" and not star:
                return self.unpack(elts, mk("tuple", tuple(d[1])), st)
            v = self.unk("object that is unpacked")
        for k, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, self.unk("starred", e), st)
                continue
            self.assign(e, self.element(v, const(k), st), st)

    def element(self, v, k, st):
        if v.op == "aref":
            return self.view(v, (k,), st)
        if v.op == "ite":
            return T.ite(v.args[0], self.element(v.args[1], k, st), self.element(v.args[2], k, st))
        if v.op == "tuple":
            return T.item(v, (k,))
        return T.item(v, (k,))

    def set_attr(self, base, name, v, st, node):
        if base.op == "obj":
            oid = base.args[0]
            c = self.objcls[oid]
            for k in c.mro:
                if isinstance(k, ClassInfo) and name in k.setters:
                    self.call_func(k.setters[name], [base, v], {}, st, node)
                    return
            key = ("f", oid, name)
            old = self.get(st, key)
            st.cells[key] = v
            e = self.effect(st, "setattr", name, base, (v,), node=node)
            e.old = old
            return
        if base.op == "ite":
            for g, leaf in _gated(base):
                if leaf.op == "obj":
                    old = self.get(st, ("f", leaf.args[0], name))
                    st.cells[("f", leaf.args[0], name)] = v if old is None else T.ite(g, v, old)
                    self.effect(st, "setattr", name, leaf, (v,), node=node)
                elif leaf is not NONE:
                    st.cells[("fx", leaf, name)] = v
                    self.effect(st, "setattr", name, leaf, (v,), node=node)
            return
        if base.op == "aref":
            base = self.deref(base, st)
        if self.holds_refs(base):
            self.unk("write to an attribute of an unresolved reference", node)
        st.cells[("fx", base, name)] = v
        self.effect(st, "setattr", name, base, (v,), node=node)

    def store_sub(self, base, idx, v, st, node):
        if base.op == "aref":
            ref = self.compose(base, idx)
            if ref is None:
                self.write_ref(base, self.unk("index composition", node), st, node)
                return
            self.write_ref(ref, self.store_value(v, st, ref), st, node)
            return
        if base.op == "list":
            k = ("L", base.args[0])
            c = self.get(st, k)
            if idx[0] is FULL:
                st.cells[k] = self.as_seq(v, st)
            else:
                st.cells[k] = T.store(c, idx, v)
            self.effect(st, "liststore", "[]=", base, idx + (v,), node=node)
            return
        if base.op == "dict":
            k = ("D", base.args[0])
            c = self.get(st, k)
            st.cells[k] = self.dict_store(c, idx[0], v)
            self.effect(st, "dictstore", "[]=", base, idx + (v,), node=node)
            return
        if base.op == "ite":
            for g, leaf in _gated(base):
                if leaf is NONE:
                    continue
                sub = State(dict(st.cells), st.pc)
                self.store_sub(leaf, idx, v, sub, node)
                j = {}
                for kk in sub.cells.keys():
                    a, b = sub.cells[kk], st.cells.get(kk)
                    j[kk] = a if (b is None or a is b) else T.ite(g, a, b)
                st.cells = j
            return
        if base.op == "objdict":
            n = self.deref(idx[0], st)
            if base.args[0].op == "obj" and n.op == "const" and isinstance(n.args[0], str):
                self.set_attr(base.args[0], n.args[0], v, st, node)
            else:
                self.unk("write to the attributes of an object", node)
            return
        if base.op == "obj":
            r = self.lookup(self.objcls[base.args[0]], "__setitem__")
            if r:
                i = idx[0] if len(idx) == 1 else mk("tuple", idx)
                self.call_func(r[1], [base, i, v], {}, st, node)
                return
        if base in self.views:
            new = self.store_value(v, st)
            if not all(x is FULL for x in idx):
                new = T.store(base, idx, new)
            self.write_view(base, new, st, node)
            if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name):
                self.bind_name(node.value.id, self.review(base, st), st)
            return
        # an element of a list built from values
        if base.op in PURE_VALUES and isinstance(node, ast.Subscript) and isinstance(node.value, ast.Subscript):
            self.write_back(node.value, self.changed_item(base, idx, self.store_value(v, st), node), st)
            return
        if base.op in ("num", "tuple", "full", "dictv"):
            self.unk("write to an element of a value", node)
            return
        # pure value held in a variable: it becomes an array object
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and base.op in ("poly", "sum", "amap", "store", "mapstore", "max", "min", "abs", "roll", "concat"):
            ref = self.new_array(base, T.shape(base), st)
            self.bind_name(node.value.id, ref, st)
            self.store_sub(ref, idx, v, st, node)
            return
        root = base
        while root.op in ("aref", "item", "elem", "attr"):
            root = root.args[0]
        if root.op in ("unk", "hdr") or self.holds_refs(base) or base.op in ("poly", "sum", "amap", "store", "mapstore", "transpose", "roll", "concat", "call"):
            self.unk("write through an unresolved reference", node)
        self.write_ref(mk("aref", base, T.norm_index(idx)), self.store_value(v, st), st, node)

    def changed_item(self, base, idx, v, node):
        if base.op == "dictv":
            return self.dict_store(base, idx[0], v)
        if base.op == "num" or len(idx) == 0:
            return self.unk("write to an element of a value", node)
        n = T.numval(idx[0]) if len(idx) == 1 else None
        if base.op == "tuple" and n is not None and n.denominator == 1 and -len(base.args[0]) <= n < len(base.args[0]):
            xs = list(base.args[0])
            xs[int(n)] = v
            return mk("tuple", tuple(xs))
        return T.store(base, idx, v)

    def write_back(self, target, v, st):
        """the changed value of an element of a container"""
        base = self.eval(target.value, st)
        self.store_sub(base, self.index(target.slice, st), v, st, target)

    def holds_refs(self, t):
        """a term that selects among heap references"""
        return any(x.op in ("obj", "list", "dict") or (x.op == "aref" and not isinstance(x.args[0], Term)) for x in T.subterms(t))

    def write_view(self, t, new, st, node):
        """write the content of a reshaped view through to its array"""
        ref = self.views[t]
        if self.deref(ref, st) is not t.args[0]:
            self.unk("view of a changed array", node)
        sh = T.shape(ref)
        if new.op == "num" or T.shape(new) == ():
            back = new
        elif sh is None:
            back = self.unk("view of an array of unknown shape", node)
        elif len(sh) == 1:
            back = mk("flat", new)
            T.SHAPES[back] = sh
        else:
            back = mk("reshape", new, tuple(sh))
            T.SHAPES[back] = tuple(sh)
        self.write_ref(ref, back, st, node)

    def review(self, t, st):
        """the view after a write"""
        ref = self.views[t]
        r = mk(t.op, self.deref(ref, st), *t.args[1:])
        T.SHAPES[r] = T.shape(t)
        self.views[r] = ref
        return r

    def store_value(self, v, st, ref=None):
        v = self.deref(v, st)
        return v

    def dict_store(self, c, k, v):
        if c.op == "dictv" and (k.op in ("const", "num", "fmt") or True):
            items = list(c.args[0])
            for n, (kk, _) in enumerate(items):
                if kk is k:
                    items[n] = (k, v)
                    return mk("dictv", tuple(items))
            if k.op in ("const", "num"):
                return mk("dictv", tuple(items + [(k, v)]))
        return mk("store", c, (k,), v) if not (c.op == "store" and c.args[1] == (k,)) else mk("store", c.args[0], (k,), v)

    def dict_merge(self, c, d):
        """content c updated with the entries of content d"""
        if c.op == "dictv" and not c.args[0]:
            return d
        if d.op == "dictv":
            for k, v in d.args[0]:
                c = self.dict_store(c, k, v)
            return c
        if d.op in ("store", "mapstore") and self._dictish(d):
            # the same stores on top of c
            low = self.dict_merge(c, d.args[0])
            if d.op == "store":
                return self.dict_store(low, d.args[1][0], d.args[2])
            return mk("mapstore", low, *d.args[1:])
        return mk("dictmerge", c, d)

    def compose(self, ref, idx):
        aid, i0 = ref.args
        if not i0:
            return mk("aref", aid, T.norm_index(idx))
        if all(x.op != "slice" and x is not NONE for x in i0):
            return mk("aref", aid, T.norm_index(i0 + tuple(idx)))
        dummy = mk("sym", "$compose")
        t = T.item(T.item(dummy, i0), idx)
        if t is dummy:
            return mk("aref", aid, ())
        if t.op == "item" and t.args[0] is dummy:
            return mk("aref", aid, t.args[1])
        return None

    def write_ref(self, ref, v, st, node):
        """store value v through an array reference"""
        if ref.op == "ite":
            for g, leaf in _gated(ref):
                if leaf.op == "aref":
                    self.write_ref(leaf, T.ite(g, v, self.deref(leaf, st)), st, node)
            return
        if ref.op != "aref":
            self.unk("write through " + ref.op, node)
            return
        aid, idx = ref.args
        if isinstance(aid, Term):
            key = ("x", aid)
            base = self.content(st, aid)
        else:
            key = ("a", aid)
            base = self.get(st, key)
            if aid in self.lossy:
                from . import npmodel

                v = npmodel.cast(self.lossy[aid], v)
        if not idx:
            new = self.full_write(v, ref)
        else:
            # a one-element vector stored into a scalar place is its element
            sh_t, sh_v = T.shape(ref), T.shape(v)
            if sh_v is not None and len(sh_v) == 1 and sh_v[0] is ONE and (sh_t == () or (sh_t is None and idx[-1].op != "slice")):
                v = T.item(v, (ZERO,))
            new = T.store(self.based(key, base), idx, v) if isinstance(base, Term) else v
        e = self.effect(st, "write", "[]=", ref, (v,), node=node)
        st.cells[key] = new
        self.written.append((key, idx))

    def based(self, key, c):
        """content of an array with its shape, where the content is one broadcast number"""
        if key[0] == "a" and c is not None and T.shape(c) == () and c.op != "full":
            sh = self._aref_shape(key[1])
            if sh:
                return T.full(c, sh)
        return c

    def full_write(self, v, ref):
        sh = T.shape(ref)
        sv = T.shape(v)
        if sh is not None and sv is not None and len(sh) == len(sv) + 1 and T.numval(sh[0]) is None and v.op != "num" and len(sv) >= 1:
            bv = T.fresh_bv()
            return T.amap(bv, mk("range", ZERO, sh[0]), v)
        return v

    # ------------------------------------------------------------------ indexing

    def index(self, node, st):
        """tuple of index components"""
        if isinstance(node, ast.Tuple):
            return tuple(self.index1(e, st) for e in node.elts)
        v = self.index1(node, st)
        if v.op == "tuple" and self._index_of == "tuple":
            return tuple(v.args[0]) if v.args[0] else (v,)
        return (v,)

    def index1(self, node, st):
        if isinstance(node, ast.Slice):
            lo, hi, stp = (NONE if x is None else self.deref(self.eval(x, st), st) for x in (node.lower, node.upper, node.step))
            return self.mk_slice(lo, hi, stp)
        v = self.eval(node, st)
        self._index_of = v.op
        if v.op == "list":
            v = self.deref(v, st)
        if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] == "slice":
            a = v.args[1]
            a = (NONE, a[0], NONE) if len(a) == 1 else (a + (NONE, NONE))[:3]
            return self.mk_slice(*a)
        return self.deref(v, st)

    def mk_slice(self, lo, hi, stp):
        if lo is ZERO:
            lo = NONE
        if stp is ONE:
            stp = NONE
        return mk("slice", lo, hi, stp)

    def norm_neg(self, idx, sh):
        if sh is None:
            return idx
        out = []
        for k, i in enumerate(idx):
            n = T.numval(i) if i.op != "slice" else None
            if n is not None and n < 0 and k < len(sh) and NONE not in idx[:k] and const(Ellipsis) not in idx[:k]:
                out.append(T.add(sh[k], i))
            elif i.op == "slice" and k < len(sh):
                lo, hi, s_ = i.args
                if hi is sh[k]:
                    hi = NONE
                if T.numval(lo) is not None and T.numval(lo) < 0:
                    lo = T.add(sh[k], lo)
                if hi is not NONE and T.numval(hi) is not None and T.numval(hi) < 0:
                    hi = T.add(sh[k], hi)
                out.append(self.mk_slice(lo, hi, s_))
            else:
                out.append(i)
        return tuple(out)

    def view(self, ref, idx, st):
        sh = T.shape(ref)
        idx = self.norm_neg(idx, sh)
        r = self.compose(ref, idx)
        if r is None:
            return T.item(self.deref(ref, st), idx)
        sh = T.shape(r)
        if sh == ():
            return self.deref(r, st)
        fancy = any(i.op not in ("slice", "num", "bv", "const", "fmt") and i is not NONE and (T.shape(i) or ()) != () for i in idx)
        if fancy:
            return self.deref(r, st)
        if sh is None and r.args[1]:
            last = r.args[1][-1]
            if last.op != "slice" and last.op not in ("const", "fmt") and not isinstance(r.args[0], int):
                if T.numval(last) is not None:
                    return self.deref(r, st)
        return r

    def objdict_method(self, base, name, args, kwargs, st, node):
        o = base.args[0]
        if o.op != "obj":
            return self.unk("attributes of an unresolved object", node)
        if name == "update" and len(args) <= 1:
            pairs = []
            if args:
                a = self.materialize(self.get(st, ("D", args[0].args[0])), st) if args[0].op == "dict" else args[0]
                d = self.iter_domain(a, st) if a.op != "dictv" else None
                if a.op == "dictv":
                    pairs = list(a.args[0])
                elif d[0] == "lit" and all(x.op == "tuple" and len(x.args[0]) == 2 for x in d[1]):
                    pairs = [x.args[0] for x in d[1]]
                else:
                    return self.unk("attributes of an object", node)
            if any(k.op != "const" for k, _ in pairs) or "**" in kwargs:
                return self.unk("attributes of an object", node)
            for k, v in pairs:
                self.set_attr(o, k.args[0], v, st, node)
            for k, v in kwargs.items():
                self.set_attr(o, k, v, st, node)
            return NONE
        if name in ("get", "__getitem__") and args and args[0].op == "const" and self.get(st, ("f", o.args[0], args[0].args[0])) is not None:
            return self.attr(o, args[0].args[0], st, node)
        if name == "__contains__" and args and args[0].op == "const":
            return const(self.get(st, ("f", o.args[0], args[0].args[0])) is not None)
        if name in ("items", "keys", "values", "copy"):
            fs = [(k[2], v) for k, v in st.cells.items() if k[0] == "f" and k[1] == o.args[0]]
            d = self.new_dict(mk("dictv", tuple((const(k), v) for k, v in fs)), st)
            return d if name == "copy" else mk("it_" + name, d)
        return self.unk("attributes of an object", node)

    def subscript(self, base, idx, st, node):
        op = base.op
        if op == "objdict":
            return self.objdict_method(base, "__getitem__", [self.deref(idx[0], st)], {}, st, node)
        if op == "aref":
            return self.view(base, idx, st)
        if op == "list":
            c = self.get(st, ("L", base.args[0]))
            if idx[0].op == "slice":
                if idx[0] is FULL:
                    return self.new_list(c, st)
                if idx[0].args[2] is not NONE and T.numval(idx[0].args[2]) == -1 and idx[0].args[0] is NONE and idx[0].args[1] is NONE:
                    return mk("it_rev", base)
                return self.new_list(T.item(c, idx), st)
            if T.numval(idx[0]) == -1:
                return self.seq_last(c)
            return T.item(c, idx)
        if op == "tuple":
            i = idx[0]
            if i.op == "slice" and i.args[2] is not NONE and T.numval(i.args[2]) == -1 and i.args[0] is NONE and i.args[1] is NONE:
                return mk("tuple", tuple(reversed(base.args[0])))
            return T.item(base, idx)
        if op == "dict":
            c = self.get(st, ("D", base.args[0]))
            return self.dict_get(c, idx[0], node)
        if op in ("dictv",):
            return self.dict_get(base, idx[0], node)
        if op == "ite":
            return T.ite(base.args[0], self.subscript(base.args[1], idx, st, node), self.subscript(base.args[2], idx, st, node))
        if op == "obj":
            r = self.lookup(self.objcls[base.args[0]], "__getitem__")
            t = self.named_tuple(base, st)
            if t is not None:
                return self.subscript(t, idx, st, node)
            if r:
                i = idx[0] if len(idx) == 1 else mk("tuple", idx)
                return self.call_func(r[1], [base, i], {}, st, node)
        if op in ("store", "mapstore") and self._dictish(base):
            return self.dict_get(base, idx[0], node)
        if op in ("range",) and T.numval(idx[0]) is not None:
            return T.add(base.args[0], idx[0])
        if op == "ext" and base.args[0] in ("numpy.r_", "numpy.c_", "numpy.s_", "numpy.ix_", "numpy.mgrid", "numpy.ogrid"):
            return self.unk(base.args[0], node)
        if op in ("cls", "ext"):
            return base
        if op in ("poly", "sum", "num", "amap", "max", "min", "abs", "store", "mapstore", "roll", "concat", "transpose", "prefix"):
            return T.item(base, self.norm_neg(idx, T.shape(base)))
        # external container
        k = idx[-1]
        ref = mk("aref", base, T.norm_index(idx))
        if k.op != "slice" and k.op not in ("const", "fmt") and T.numval(k) is not None:
            return self.deref(ref, st)
        if not T.norm_index(idx):
            return mk("aref", base, ())
        return ref

    def named_tuple(self, obj, st):
        c = self.objcls.get(obj.args[0])
        if c is None or not any(not isinstance(k, ClassInfo) and k.args[0].split(".")[-1] == "NamedTuple" for k in c.mro):
            return None
        vs = [self.get(st, ("f", obj.args[0], n)) for n in self.dataclass_fields(c)]
        return None if None in vs else mk("tuple", tuple(vs))

    def _dictish(self, t):
        while t.op in ("store", "mapstore"):
            t = t.args[0]
        return t.op == "dictv"

    def dict_get(self, c, k, node=None):
        if c.op == "dictv":
            for kk, v in c.args[0]:
                if kk is k:
                    return v
            if k.op in ("const", "num") and all(kk.op in ("const", "num") for kk, _ in c.args[0]):
                return mk("keyerror", k)
            if k.op == "fmt":
                if all(T._idx_relation(kk, k, None) == "disjoint" for kk, _ in c.args[0]):
                    return mk("keyerror", k)
            return mk("item", c, (k,))
        if c.op == "store":
            if c.args[1] == (k,):
                return c.args[2]
            r = T._idx_relation(c.args[1][0], k, None)
            if r == "disjoint":
                return self.dict_get(c.args[0], k)
            return mk("item", c, (k,))
        if c.op == "mapstore":
            r = T._mapstore_read(c, (k,))
            if r is not None and r.op == "item" and r.args[0] is c.args[0]:
                return self.dict_get(c.args[0], k)
            if r is not None:
                return r
            return mk("item", c, (k,))
        if c.op == "ite":
            return T.ite(c.args[0], self.dict_get(c.args[1], k), self.dict_get(c.args[2], k))
        return T.item(c, (k,))

    # ---------------------------------------------------------------- attributes

    def ext_attr(self, base, name):
        d = base.args[0] + "." + name
        if d in ("numpy.inf", "numpy.Inf", "math.inf"):
            return mk("ext", "inf")
        if d == "numpy.newaxis":
            return NONE
        if d in FLOAT_INFO:
            return const(FLOAT_INFO[d])
        if name in ("__name__", "__qualname__") and d.startswith("user."):
            return T.sym(d)  # of any class of the user
        return mk("ext", d)

    def attr(self, base, name, st, node=None):
        op = base.op
        if op == "obj":
            oid = base.args[0]
            v = self.get(st, ("f", oid, name))
            if v is not None:
                return v
            c = self.objcls[oid]
            r = self.lookup(c, name)
            if r is not None:
                k, a = r
                if isinstance(a, FuncVal):
                    if a.kind == "property":
                        v = self.call_func(a, [base], {}, st, node)
                        if _cached(a.node) == "property":
                            st.cells[("f", oid, name)] = v
                        return v
                    if a.kind == "static":
                        return self.func_term_m(a)
                    if a.kind == "class":
                        return mk("bound", self.cls_term(c), self.func_term_m(a))
                    return mk("bound", base, self.func_term_m(a))
                return self.class_value(k, name, a, st)
            if name == "__class__":
                return self.cls_term(c)
            if name == "__dict__":
                return mk("objdict", base)
            v = self.get(st, ("fx", base, name))
            return v if v is not None else mk("attr", base, name)
        if op == "objv":
            for k, v in base.args[1]:
                if k.args[0] == name:
                    return v
            c = self.cls(base.args[0])
            r = self.lookup(c, name) if c else None
            if r is not None and isinstance(r[1], FuncVal):
                return mk("bound", base, self.func_term_m(r[1]))
            return mk("attr", base, name)
        if op == "cls":
            c = self.funcs[base]
            if name == "__name__":
                return const(c.name)
            r = self.lookup(c, name)
            if r is not None:
                k, a = r
                if isinstance(a, FuncVal):
                    if a.kind == "class":
                        return mk("bound", base, self.func_term_m(a))
                    return self.func_term_m(a)
                return self.class_value(k, name, a, st)
            return mk("attr", base, name)
        if op == "mod":
            r = self.module_name(self.pkg.modules[base.args[0]], name)
            if r is not None:
                return r
            if base.args[0] + "." + name in self.pkg.modules:
                return mk("mod", base.args[0] + "." + name)
            return mk("ext", base.args[0] + "." + name)
        if op == "ext":
            return self.ext_attr(base, name)
        if op == "super":
            obj, after = base.args
            c = self.funcs[obj] if obj.op == "cls" else self.objcls.get(obj.args[0])
            if c is None:
                return mk("attr", obj, name)
            r = self.lookup(c, name, self.funcs[after])
            if r is None:
                return mk("ext", "object." + name)
            k, a = r
            if isinstance(a, FuncVal):
                if a.kind == "static":
                    return self.func_term_m(a)
                if a.kind == "property":
                    return self.call_func(a, [obj], {}, st, node)
                if a.kind == "class" and obj.op != "cls":
                    obj = self.cls_term(c)
                return mk("bound", obj, self.func_term_m(a))
            return self.class_value(k, name, a, st)
        if op == "ite":
            return T.ite(base.args[0], self.attr(base.args[1], name, st, node), self.attr(base.args[2], name, st, node))
        if op in ("aref", "poly", "sum", "amap", "store", "mapstore", "abs", "max", "min", "num", "roll", "concat", "transpose") :
            r = self.array_attr(base, name, st)
            if r is not None:
                return r
            if op == "aref" and name not in ARRAY_METHODS and isinstance(base.args[0], Term):
                return self.attr(self.deref(base, st), name, st, node)
            return mk("attr", base, name)
        if op in ("list", "dict", "tuple", "dictv", "const", "fmt") or op.startswith("it_"):
            return mk("attr", base, name)
        if base is NONE:
            return mk("attr", base, name)
        v = self.get(st, ("fx", base, name))
        if v is not None:
            return v
        # external attribute; shape information may be known
        if name in ("shape", "size", "T", "ndim"):
            r = self.array_attr(base, name, st)
            if r is not None:
                return r
        return mk("attr", base, name)

    def array_attr(self, base, name, st):
        sh = T.shape(base)
        if name == "shape":
            if sh is not None:
                return mk("tuple", tuple(sh))
            return mk("attr", self.deref(base, st), "shape") if base.op == "aref" else None
        if name == "size":
            if sh is not None:
                return T.mul(*sh) if sh else ONE
            return mk("attr", self.deref(base, st), "size") if base.op == "aref" else None
        if name == "ndim":
            return const(len(sh)) if sh is not None else None
        if name == "T":
            v = self.deref(base, st)
            if sh is not None and len(sh) <= 1:
                return base
            return mk("transpose", v)
        if name in ("real",):
            return base
        if name == "dtype":
            return mk("attr", mk("ext", "array"), "dtype")
        if name == "flat":
            return base
        return None

    def class_value(self, c, name, node, st):
        key = ("cv", c.module.name, c.name, name)
        v = self.gcells.get(key)
        if v is None:
            v = self.eval_static(node, c.module, st, c)
            self.gcells[key] = v
        return v

    def eval_static(self, node, module, st, cls=None):
        """evaluate an expression in the scope of a module or class body (defaults, class attributes)"""
        fv = FuncVal(node, module, None, None, "<static>")
        fv.scope = cls
        fid = self.fresh()
        self.frames[fid] = (fv, module, None)
        self.stack.append((fv, fid))
        try:
            s2 = State({}, ())
            v = self.eval(node, s2)
            self.gcells.update(s2.cells)
            return v
        finally:
            self.stack.pop()

    def func_term_m(self, fv):
        t = mk("func", f"{fv.module.name}.{fv.qual()}", "", fv.node.lineno, fv.node.col_offset)
        self.funcs[t] = fv
        return t

    # --------------------------------------------------------------- expressions

    def eval(self, node, st) -> Term:
        self.budget -= 1
        if self.budget < 0:
            raise GiveUp("analysis budget")
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return self.unk("expression " + type(node).__name__, node)
        return m(node, st)

    def e_Constant(self, node, st):
        return const(node.value)

    def e_Name(self, node, st):
        return self.name(node, st)

    def e_Attribute(self, node, st):
        return self.attr(self.eval(node.value, st), node.attr, st, node)

    def e_Subscript(self, node, st):
        base = self.eval(node.value, st)
        idx = self.index(node.slice, st)
        if self.handlers:
            self.key_lookup(base, idx, st, node)
        return self.subscript(base, idx, st, node)

    def key_lookup(self, base, idx, st, node):
        """inside a try: raise KeyError for a key known to be missing, note lookups that may raise"""
        if base.op == "dict" and len(idx) == 1:
            r = self.contains_(idx[0], base, st)
            if r is FALSE:
                from .npmodel import _raise

                self.sinks[-1].append(_raise(self, st, "KeyError", node))
                raise Dead()
            if r is TRUE:
                return
        elif base.op in ("tuple", "list", "const") or (base.op == "aref" and not isinstance(base.args[0], Term)):
            return
        self.key_doubts += 1

    def e_Tuple(self, node, st):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                s = self.as_seq(self.eval(e.value, st), st)
                if s.op == "tuple":
                    out.extend(s.args[0])
                    continue
                return self.unk("star in tuple", node)
            out.append(self.eval(e, st))
        return mk("tuple", tuple(out))

    def e_List(self, node, st):
        parts = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                parts.append(self.as_seq(self.eval(e.value, st), st))
            else:
                parts.append(mk("tuple", (self.eval(e, st),)))
        return self.new_list(self.concat(*parts) if parts else mk("tuple", ()), st)

    def e_Set(self, node, st):
        return self.new_set([self.deref(self.eval(e, st), st) for e in node.elts], st)

    # sets are dicts of their elements
    def new_set(self, keys, st):
        keys = list(dict.fromkeys(keys))
        users = getattr(self, "user_objects", ())
        if len(keys) > 1 and all(k in users or k.op == "const" and isinstance(k.args[0], str) for k in keys):
            # the order of such a set differs from process to process: not the one it was filled in
            keys.reverse()
        return self.new_dict(mk("dictv", tuple((k, TRUE) for k in keys)), st)

    def keyset(self, v, st):
        """elements of a set or of dict keys, None if they are not all known"""
        if v.op == "it_keys":
            v = v.args[0]
        if v.op == "dict":
            v = self.get(st, ("D", v.args[0]))
        if v.op == "dictv":
            return [k for k, _ in v.args[0]]
        return None

    def setop(self, sym, a, b, st):
        x, y = self.keyset(a, st), self.keyset(b, st)
        if x is None or y is None or any(k.op not in ("const", "num", "ext", "tuple") for k in x + y):
            f = lambda v: self.get(st, ("D", v.args[0])) if v.op == "dict" else self.deref(v, st)
            return mk("setop", sym, (f(a), f(b)))
        if sym == "&":
            return self.new_set([k for k in x if k in y], st)
        if sym == "-":
            return self.new_set([k for k in x if k not in y], st)
        if sym == "|":
            return self.new_set(x + y, st)
        return self.new_set([k for k in x if k not in y] + [k for k in y if k not in x], st)

    def e_Dict(self, node, st):
        c = mk("dictv", ())
        for k, v in zip(node.keys, node.values):
            if k is None:
                d = self.eval(v, st)
                dc = self.get(st, ("D", d.args[0])) if d.op == "dict" else d
                c = self.dict_merge(c, dc)
                continue
            kk = self.deref(self.eval(k, st), st)
            vv = self.bindable(self.eval(v, st), st)
            c = self.dict_store(c, kk, vv)
        return self.new_dict(c, st)

    def e_JoinedStr(self, node, st):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st)
                x = self.deref(x, st)
                if v.format_spec is not None or v.conversion != -1:
                    x = mk("call", mk("ext", "format"), (x, self.eval(v.format_spec, st) if v.format_spec is not None else const(v.conversion)), ())
                parts.append(x)
        return T.fmt(*parts)

    def e_FormattedValue(self, node, st):
        return T.fmt(self.deref(self.eval(node.value, st), st))

    def e_Starred(self, node, st):
        return self.eval(node.value, st)

    def e_NamedExpr(self, node, st):
        v = self.eval(node.value, st)
        self.assign(node.target, v, st)
        return v

    def e_Lambda(self, node, st):
        fid = self.stack[-1][1]
        fv = FuncVal(node, self.stack[-1][0].module, self.stack[-1][0].cls, fid, "<lambda>")
        t = mk("func", f"{fv.module.name}.<lambda>", str(fid), node.lineno, node.col_offset)
        self.funcs[t] = fv
        return self.with_defaults(t, node.args, st)

    def with_defaults(self, t, a, st):
        """the defaults of a closure are evaluated where it is defined"""
        pos = a.posonlyargs + a.args
        ds = list(zip(pos[len(pos) - len(a.defaults) :], a.defaults)) if a.defaults else []
        ds += [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        if all(isinstance(d, ast.Constant) for _, d in ds):
            return t
        return mk("func", *t.args, tuple((p.arg, self.bindable(self.eval(d, st), st)) for p, d in ds))

    def e_UnaryOp(self, node, st):
        v = self.eval(node.operand, st)
        if isinstance(node.op, ast.Not):
            return T.lnot(T.truth(self.deref_truth(v, st)))
        v = self.deref(v, st)
        if isinstance(node.op, ast.USub):
            return T.neg(v)
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(node.op, ast.Invert) and not T.is_boolish(v) and T.shape(v):
            return mk("call", mk("ext", "numpy.logical_not"), (v,), ())
        return mk("call", mk("ext", "invert"), (v,), ()) if not T.is_boolish(v) else T.lnot(v)

    def e_BinOp(self, node, st):
        a = self.eval(node.left, st)
        b = self.eval(node.right, st)
        opn = type(node.op).__name__
        if opn == "Mult":
            for x, y, n in ((a, b, node.left), (b, a, node.right)):
                if isinstance(n, ast.Constant) and n.value == 0 and (y.op == "aref" or y in self.views or T.shape(self.deref(y, st)) not in (None, ())):
                    self.scaled_away(y, st, node)
        if opn == "Add":
            if a.op == "list" or b.op == "list":
                return self.new_list(self.concat(self.as_seq(a, st), self.as_seq(b, st)), st)
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", a.args[0] + b.args[0])
        if opn == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.op in ("list", "tuple"):
                    seq = self.as_seq(x, st)
                    n = T.numval(self.deref(y, st))
                    if seq.op == "tuple":
                        if n is not None and n < 64:
                            r = mk("tuple", seq.args[0] * int(n))
                        elif len(seq.args[0]) == 1:
                            bv = T.fresh_bv()
                            r = T.amap(bv, mk("range", ZERO, self.deref(y, st)), seq.args[0][0])
                            if r.op not in ("amap", "full"):
                                e = seq.args[0][0]
                                r = mk("full", e, (self.deref(y, st),)) if e.op == "num" or e is NONE else mk("repeat", seq, self.deref(y, st))
                        else:
                            r = mk("repeat", seq, self.deref(y, st))
                    else:
                        r = mk("repeat", seq, self.deref(y, st))
                    return self.new_list(r, st) if x.op == "list" else r
        if opn in ("BitAnd", "BitXor", "Sub") and (a.op in ("dict", "it_keys") or b.op in ("dict", "it_keys")):
            return self.setop({"BitAnd": "&", "BitXor": "^", "Sub": "-"}[opn], a, b, st)
        if opn == "BitOr" and (a.op == "dict" or b.op == "dict"):
            d = self.copy_dict(a, st)
            self.call_builtin_method(d, "update", [b], {}, st, node)
            return d
        r = self.binop(opn, self.deref(a, st), self.deref(b, st), st)
        if r.op in ("item", "sym", "res", "attr") and T.shape(r):
            return self.new_array(r, T.shape(r), st)  # an operation that does not change the values makes a copy
        return r

    def binop(self, opn, a, b, st):
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x.op == "obj":
                nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul"}.get(opn)
                r = self.lookup(self.objcls[x.args[0]], f"__{'r' if flip else ''}{nm}__")
                if r:
                    return self.call_func(r[1], [x, y], {}, st, None)
        if opn == "Add":
            if any(x.op in ("const", "fmt") and not (x in (TRUE, FALSE)) for x in (a, b)) :
                if all(x.op in ("const", "fmt") or not T.is_num(x) for x in (a, b)) and (self._str(a) or self._str(b)):
                    return T.fmt(a, b)
            a, b = self.num(a), self.num(b)
            return T.add(a, b)
        if opn == "Div" and (self._path(a) or self._str(b)):
            return self.path_join(a, b)
        if opn in ("Sub", "Mult", "Div", "Pow"):
            if opn == "Mult" and (self._str(a) or self._str(b)):
                if a.op == "const" and T.is_num(b):
                    return const(a.args[0] * int(T.numval(b)))
                if b.op == "const" and T.is_num(a):
                    return const(b.args[0] * int(T.numval(a)))
                return mk("call", mk("ext", "strmul"), (a, b), ())
            if opn == "Sub" and (a.op == "setop" or b.op == "setop" or (a.op == "call" and a.args[0] is mk("ext", "set"))):
                return mk("setop", "-", (a, b))
            a, b = self.num(a), self.num(b)
            return {"Sub": T.sub, "Mult": T.mul, "Div": T.div, "Pow": T.power}[opn](a, b)
        if opn == "MatMult":
            from . import npmodel

            return npmodel.matmul(a, b)
        if opn in ("FloorDiv", "Mod"):
            x, y = T.numval(a), T.numval(b)
            if opn == "Mod" and (self._str(a)):
                if a.op == "const":
                    vals = list(b.args[0]) if b.op == "tuple" else [b]
                    parts = re.split("(%[ds])", a.args[0])
                    if len(parts) // 2 == len(vals) and not any("%" in x for x in parts[::2]):
                        return T.fmt(*[const(x) if i % 2 == 0 else vals[i // 2] for i, x in enumerate(parts) if i % 2 or x])
                return mk("call", mk("ext", "str.mod"), (a, b), ())
            if x is not None and y:
                return const(x // y if opn == "FloorDiv" else x % y)
            return mk("call", mk("ext", opn), (a, b), ())
        if opn in ("BitAnd", "BitOr", "BitXor"):
            if T.is_boolish(a) and T.is_boolish(b):
                return {"BitAnd": T.land, "BitOr": T.lor}.get(opn, lambda x, y: T.lnot(T.eq(x, y)))(a, b)
            sym = {"BitAnd": "&", "BitOr": "|", "BitXor": "^"}[opn]
            return mk("setop", sym, tuple(sorted((a, b), key=lambda t: t.id)))
        return mk("call", mk("ext", opn), (a, b), ())

    def num(self, v):
        return v

    def _path(self, v):
        return self._str(v) or v.op == "call" and v.args[0] is mk("ext", "os.path.join")

    def path_join(self, *parts):
        """path of its components"""
        out = []
        for p in parts:
            out.extend(p.args[1] if p.op == "call" and p.args[0] is mk("ext", "os.path.join") else (p,))
        return mk("call", mk("ext", "os.path.join"), tuple(out), ())

    def _str(self, v):
        return v.op == "fmt" or (v.op == "const" and isinstance(v.args[0], str))

    def e_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)
        first = self.eval(node.values[0], st)
        for nxt in node.values[1:]:
            c = T.truth(self.deref_truth(first, st))
            self.set_facts(st)
            c = self.simplify_cond(c)
            go = c if is_and else T.lnot(c)
            if go is FALSE:
                return first
            if go is TRUE:
                first = self.eval(nxt, st)
                continue
            s2 = st.copy()
            s2.assume(go)
            s3 = st.copy()
            s3.assume(T.lnot(go))
            self.set_facts(s2)
            try:
                second = self.eval(nxt, s2)
            except Dead:
                st.replace(s3)
                self.set_facts(st)
                continue
            self.set_facts(st)
            c2 = T.truth(self.deref_truth(second, s2))
            fv = first if not (T.is_boolish(c) and first.op not in ("tuple",)) else first
            changed = s2.cells.keys() != st.cells.keys() or any(s2.cells[k] is not st.cells.get(k) for k in s2.cells)
            if changed:
                st.replace(self.join2(s2, s3, go))
            else:
                st.pc = s3.pc if False else st.pc
            if T.is_boolish(self.deref(first, st)) or T.is_boolish(self.deref(second, st)) or first.op in ("gt0",):
                first = T.land(c, c2) if is_and else T.lor(c, c2)
            else:
                first = T.ite(go, second, first)
        return first

    def e_IfExp(self, node, st):
        c = self.cond(node.test, st)
        if c is TRUE:
            return self.eval(node.body, st)
        if c is FALSE:
            return self.eval(node.orelse, st)
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(T.lnot(c))
        va = vb = None
        self.set_facts(a)
        try:
            va = self.eval(node.body, a)
            va = self.bindable(va, a)
        except Dead:
            pass
        self.set_facts(b)
        try:
            vb = self.eval(node.orelse, b)
            vb = self.bindable(vb, b)
        except Dead:
            pass
        if va is None and vb is None:
            raise Dead()
        if va is None or vb is None:
            st.replace(b if va is None else a)
            self.set_facts(st)
            return vb if va is None else va
        same = all(a.cells.get(k) is v for k, v in b.cells.items()) and len(a.cells) == len(b.cells)
        st.replace(self.join2(a, b, c))
        self.set_facts(st)
        return T.ite(c, va, vb)

    def e_Compare(self, node, st):
        left = self.eval(node.left, st)
        out = []
        for op, rn in zip(node.ops, node.comparators):
            right = self.eval(rn, st)
            out.append(self.compare(type(op).__name__, left, right, st))
            left = right
        return out[0] if len(out) == 1 else T.land(*out)

    def compare(self, opn, a, b, st):
        if opn in ("Is", "IsNot"):
            r = self.is_same(a, b, st)
            return r if opn == "Is" else T.lnot(r)
        if opn in ("In", "NotIn"):
            r = self.contains_(a, b, st)
            return r if opn == "In" else T.lnot(r)
        if "dict" in (a.op, b.op) or "it_keys" in (a.op, b.op):
            x, y = self.keyset(a, st), self.keyset(b, st)
            if x is not None and y is not None and all(k.op in ("const", "num", "ext", "tuple") for k in x + y):
                if opn in ("Lt", "LtE", "Gt", "GtE"):
                    if opn in ("Gt", "GtE"):
                        x, y = y, x
                    return const(set(x) <= set(y) and (opn in ("LtE", "GtE") or set(x) != set(y)))
                if set(x) != set(y):
                    return const(opn == "NotEq")
        a, b = self.deref(a, st), self.deref(b, st)
        if opn in ("Eq", "NotEq"):
            if a.op == "ite" and b.op in ("const", "num"):
                r = T.ite(a.args[0], self.compare("Eq", a.args[1], b, st), self.compare("Eq", a.args[2], b, st))
            else:
                r = self.equal_vals(a, b, st)
            return r if opn == "Eq" else T.lnot(r)
        if a.op == "tuple" or b.op == "tuple":
            if not (a.op == b.op == "tuple" and len(a.args[0]) == len(b.args[0])):
                return self.unk("comparison of sequences")
            lt, strict = (lambda x, y: T.lt(x, y) if opn in ("Lt", "LtE") else T.lt(y, x)), opn in ("Lt", "Gt")
            r = FALSE if strict else TRUE
            for x, y in reversed(list(zip(a.args[0], b.args[0]))):
                r = T.lor(lt(x, y), T.land(self.equal_vals(x, y, st), r))
            return r
        if opn == "Lt":
            return T.lt(a, b)
        if opn == "LtE":
            return T.le(a, b)
        if opn == "Gt":
            return T.lt(b, a)
        return T.le(b, a)

    def equal_vals(self, a, b, st):
        ninf = T.neg(mk("ext", "inf"))
        if a.op == "obj" and b.op == "obj" and a is not b:
            return mk("eq", tuple(sorted((a, b), key=lambda t: t.id)))
        return T.eq(a, b)

    def is_same(self, a, b, st):
        if a is b:
            return TRUE
        refs = ("obj", "list", "dict", "cls", "func", "bound", "tuple", "objv", "dictv")
        for x, y in ((a, b), (b, a)):
            if y is NONE:
                if x.op in refs or x.op in ("num", "poly", "fmt", "aref", "amap", "sum") or (x.op == "const" and x is not NONE) or T.is_boolish(x):
                    if x.op == "aref" and isinstance(x.args[0], Term):
                        return T.eq(self.deref(x, st), NONE)
                    return FALSE
                if x.op == "ite":
                    return T.ite(x.args[0], self.is_same(x.args[1], NONE, st), self.is_same(x.args[2], NONE, st))
        if a.op in refs and b.op in refs:
            return FALSE
        return T.eq(self.deref(a, st), self.deref(b, st))

    def contains_(self, a, b, st):
        a = self.deref(a, st)
        if b.op == "dict":
            return self.key_in(a, self.get(st, ("D", b.args[0])))
        if b.op == "obj":
            for n in ("__contains__", "__iter__"):
                r = self.lookup(self.objcls[b.args[0]], n)
                if r:
                    v = self.call_func(r[1], [b] + ([a] if n == "__contains__" else []), {}, st, None)
                    return T.truth(self.deref_truth(v, st)) if n == "__contains__" else self.contains_(a, v, st)
        if b.op == "list":
            b = self.get(st, ("L", b.args[0]))
        if b.op in ("it_keys",):
            return self.contains_(a, b.args[0], st)
        if b.op == "tuple":
            return T.lor(*[self.equal_vals(a, self.deref(x, st), st) for x in b.args[0]])
        if b.op == "ite":
            return T.ite(b.args[0], self.contains_(a, b.args[1], st), self.contains_(a, b.args[2], st))
        b = self.deref(b, st)
        if b.op == "const" and a.op == "const" and isinstance(b.args[0], str) and isinstance(a.args[0], str):
            return const(a.args[0] in b.args[0])
        return mk("in", a, b)

    def key_in(self, a, c):
        """is a key of a dict content"""
        if c.op == "dictv":
            rel = [TRUE if k is a else (FALSE if T._idx_relation(k, a, None) == "disjoint" else None) for k, _ in c.args[0]]
            if any(r is TRUE for r in rel):
                return TRUE
            if all(r is FALSE for r in rel):
                return FALSE
        if c.op == "store":
            if c.args[1] == (a,):
                return TRUE
            if T._idx_relation(c.args[1][0], a, None) == "disjoint":
                return self.key_in(a, c.args[0])
        if c.op == "mapstore":
            r = T._mapstore_read(c, (a,))
            if r is not None and r.op == "item" and r.args[0] is c.args[0]:
                return self.key_in(a, c.args[0])
        if c.op == "ite":
            return T.ite(c.args[0], self.key_in(a, c.args[1]), self.key_in(a, c.args[2]))
        return mk("in", a, c)

    # ------------------------------------------------------------ comprehensions

    def e_ListComp(self, node, st):
        seq = self.comp(node, st)
        return self.new_list(seq, st)

    def e_GeneratorExp(self, node, st):
        return self.comp(node, st)

    def e_SetComp(self, node, st):
        seq = self.comp(node, st)
        if seq.op == "tuple":
            return self.new_set([self.deref(x, st) for x in seq.args[0]], st)
        return mk("call", mk("ext", "set"), (seq,), ())

    def e_DictComp(self, node, st):
        g = node.generators
        if len(g) != 1:
            return self.unk("dict comprehension", node)
        d = self.new_dict(mk("dictv", ()), st)

        def bind(x, v):
            self.assign(g[0].target, v, x)

        def body(x):
            for c in g[0].ifs:
                cc = self.cond(c, x)
                if cc is FALSE:
                    return [Exit("next", x)]
                if cc is not TRUE:
                    y = x.copy()
                    y.assume(cc)
                    k = self.deref(self.eval(node.key, y), y)
                    v = self.eval(node.value, y)
                    self.store_sub(d, (k,), v, y, node)
                    z = x.copy()
                    z.assume(T.lnot(cc))
                    return [Exit("next", self.join2(y, z, cc))]
            k = self.deref(self.eval(node.key, x), x)
            v = self.bindable(self.eval(node.value, x), x)
            self.store_sub(d, (k,), v, x, node)
            return [Exit("next", x)]

        ex = self.loop_iter(self.eval(g[0].iter, st), bind, body, lambda x: [Exit("next", x)], st, node)
        self.absorb(ex, st)
        return d

    def absorb(self, exits, st):
        nx = [e for e in exits if e.kind == "next"]
        for e in exits:
            if e.kind == "raise":
                self.sinks[-1].append(e)
        if not nx:
            raise Dead()
        st.replace(nx[0].st)

    def comp(self, node, st):
        """comprehension as a sequence value"""
        lst = self.new_list(mk("tuple", ()), st)

        def gen(k, x):
            if k == len(node.generators):
                v = self.eval(node.elt, x)
                v = self.bindable(v, x)
                self.list_append(lst, v, x, node)
                return [Exit("next", x)]
            g = node.generators[k]
            it = self.eval(g.iter, x)

            def bind(y, v):
                self.assign(g.target, v, y)

            def body(y):
                cc = TRUE
                for c in g.ifs:
                    cc = T.land(cc, self.cond(c, y))
                if cc is FALSE:
                    return [Exit("next", y)]
                if cc is TRUE:
                    return gen(k + 1, y)
                return self.branch(cc, lambda z: gen(k + 1, z), lambda z: [Exit("next", z)], y)

            return self.loop_iter(it, bind, body, lambda z: [Exit("next", z)], x, node)

        # comprehension variables live in their own scope: save shadowed names
        fid = self.stack[-1][1]
        names = {n.id for g in node.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: st.cells.get(("v", fid, n)) for n in names}
        n_eff = len(self.effects)
        self.absorb(gen(0, st), st)
        self.effects[n_eff:] = [e for e in self.effects[n_eff:] if not (e.kind == "append" and e.recv is lst)]
        for n, v in saved.items():
            if v is None:
                st.cells.pop(("v", fid, n), None)
            else:
                st.cells[("v", fid, n)] = v
        return self.get(st, ("L", lst.args[0]))

    # ------------------------------------------------------------------- lists

    def as_seq(self, v, st):
        if v.op == "list":
            return self.get(st, ("L", v.args[0]))
        if v.op in ("tuple", "amap", "concat", "filt", "prefix"):
            return v
        if v.op == "ite":
            return T.ite(v.args[0], self.as_seq(v.args[1], st), self.as_seq(v.args[2], st))
        d = self.iter_domain(v, st)
        if d[0] == "lit":
            return mk("tuple", tuple(d[1]))
        if d[0] == "dom" and len(d) == 3:
            bv = T.fresh_bv()
            el = d[2](bv)
            return T.amap(bv, d[1], el) if not (el.op == "item" and el.args[1] == (bv,) and d[1].op == "range" and not T.contains(el.args[0], bv)) else el.args[0]
        if d[0] == "dom":
            bv = T.fresh_bv()
            return loops_filt(bv, d[1], d[3](bv), d[2](bv))
        if d[0] == "seq":
            return self.concat(*[self.as_seq(x, st) for x in d[1]])
        return v

    def list_append(self, ref, v, st, node):
        k = ("L", ref.args[0])
        self.effect(st, "append", "append", ref, (v,), node=node)
        st.cells[k] = self.concat(self.get(st, k), mk("tuple", (v,)))

    def list_extend(self, ref, v, st, node):
        k = ("L", ref.args[0])
        self.effect(st, "extend", "extend", ref, (v,), node=node)
        st.cells[k] = self.concat(self.get(st, k), self.as_seq(v, st))

    def copy_dict(self, d, st):
        if d.op == "dict":
            return self.new_dict(self.get(st, ("D", d.args[0])), st)
        return self.new_dict(d, st)

    # ------------------------------------------------------------------- calls

    def e_Call(self, node, st):
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == "super":
            fv, fid = self.stack[-1]
            if not node.args:
                f2, c2 = fv, fid
                while f2.cls is None and self.frames[c2][2] is not None:
                    c2 = self.frames[c2][2]
                    f2 = self.frames[c2][0]
                first = f2.node.args.posonlyargs + f2.node.args.args
                me = self.get(st, ("v", c2, first[0].arg))
                return mk("super", me, self.cls_term(f2.cls))
            a = [self.eval(x, st) for x in node.args]
            return mk("super", a[1], a[0])
        f = self.eval(node.func, st)
        args, kwargs = self.eval_args(node, st)
        self._line = node.lineno
        return self.call(f, args, kwargs, st, node)

    def eval_args(self, node, st):
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                s = self.as_seq(self.eval(a.value, st), st)
                if s.op == "tuple":
                    args.extend(s.args[0])
                else:
                    args.append(mk("star", s))
            else:
                args.append(self.bindable(self.eval(a, st), st))
        kwargs = {}
        for k in node.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                c = self.get(st, ("D", v.args[0])) if v.op == "dict" else v
                if c.op == "dictv":
                    for kk, vv in c.args[0]:
                        kwargs[str(kk.args[0])] = vv
                else:
                    kwargs["**"] = c
            else:
                kwargs[k.arg] = self.bindable(v, st)
        return args, kwargs

    def call(self, f, args, kwargs, st, node):
        op = f.op
        more = kwargs.get("**")
        if more is not None and more.op == "ite" and all(x.op in ("ite", "dictv") for x in more.args[1:]):
            # the keyword arguments differ with a condition
            def with_(d):
                kw = {k: v for k, v in kwargs.items() if k != "**"}
                if d.op == "dictv":
                    kw.update((str(k.args[0]), v) for k, v in d.args[0])
                else:
                    kw["**"] = d
                return kw

            return self.split_value(more.args[0], lambda z: self.call(f, args, with_(more.args[1]), z, node), lambda z: self.call(f, args, with_(more.args[2]), z, node), st)
        for n, a in enumerate(args):
            if a.op == "star" and a.args[0].op == "ite" and all(x.op == "tuple" for x in a.args[0].args[1:]):
                c, x, y = a.args[0].args
                put = lambda v: list(args[:n]) + list(v.args[0]) + list(args[n + 1 :])
                return self.split_value(c, lambda z: self.call(f, put(x), kwargs, z, node), lambda z: self.call(f, put(y), kwargs, z, node), st)
        if op == "unk":
            return self.unk("statement calling " + str(f.args[1]), node)
        if op == "func":
            fv = self.funcs[f]
            return self.call_func(fv, args, kwargs, st, node)
        if op == "bound":
            fv = self.funcs[f.args[1]]
            return self.call_func(fv, [f.args[0]] + list(args), kwargs, st, node)
        if op == "cls":
            return self.construct(self.funcs[f], args, kwargs, st, node)
        if op == "partial":
            g, pa, pk = f.args
            kw = {k: v for k, v in pk}
            kw.update(kwargs)
            return self.call(g, list(pa) + list(args), kw, st, node)
        if op == "obj":
            r = self.lookup(self.objcls[f.args[0]], "__call__")
            if r is not None:
                return self.call_func(r[1], [f] + list(args), kwargs, st, node)
            return self.external(f, None, args, kwargs, st, node)
        if op == "ite":
            return self.call_gated(f, args, kwargs, st, node)
        if op == "attr":
            base, name = f.args
            return self.call_method(base, name, args, kwargs, st, node)
        if op == "ext":
            return self.call_ext(f, args, kwargs, st, node)
        if op == "aref":
            return self.call(self.deref(f, st), args, kwargs, st, node)
        return self.external(f, None, args, kwargs, st, node)

    def call_gated(self, f, args, kwargs, st, node):
        c, x, y = f.args
        if x is NONE or y is NONE:
            # calling None would raise: the other alternative is the only normal one
            good = y if x is NONE else x
            lit = T.lnot(c) if x is NONE else c
            bad = st.copy()
            bad.assume(T.lnot(lit))
            self.sinks[-1].append(Exit("raise", bad, mk("ext", "TypeError"), self.loc(node)))
            st.assume(lit)
            return self.call(good, args, kwargs, st, node)
        return self.split_value(c, lambda z: self.call(x, args, kwargs, z, node), lambda z: self.call(y, args, kwargs, z, node), st)

    def split_value(self, c, then, other, st):
        """value of a computation that differs with a condition"""
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(T.lnot(c))
        va = vb = None
        try:
            va = then(a)
        except Dead:
            pass
        try:
            vb = other(b)
        except Dead:
            pass
        if va is None and vb is None:
            raise Dead()
        if va is None or vb is None:
            st.replace(b if va is None else a)
            return vb if va is None else va
        pure = self._pure_branch(st, a, b, c)
        st.replace(self.join2(a, b, c if pure else None))
        return T.ite(c, va, vb)

    def construct(self, c, args, kwargs, st, node):
        if c.name in self.opaque:
            r = self.res(c.name, st)
            self.effect(st, "call", c.name, None, [self.deref_arg(a, st) for a in args], {k: self.deref_arg(v, st) for k, v in kwargs.items()}, node, r)
            return r
        obj = self.new_obj(c, st)
        if any((not isinstance(k, ClassInfo)) and k.args[0].split(".")[-1] in ("Exception", "BaseException", "ValueError", "AssertionError", "RuntimeError", "TypeError") for k in c.mro):
            st.cells[("f", obj.args[0], "args")] = mk("tuple", tuple(args))
            return obj
        if any((not isinstance(k, ClassInfo)) and "Enum" in k.args[0] for k in c.mro):
            return self.unk("member of an enumeration by its value", node)
        init = None
        for k in c.mro:
            if not isinstance(k, ClassInfo):
                continue
            if "__init__" in k.attrs:
                init = ("explicit", k.attrs["__init__"])
                break
            dc = _dataclass(k.node)
            if dc is not None and dc.get("init", True):
                init = ("dataclass", k)
                break
        if init is None:
            return obj
        if init[0] == "explicit":
            self.call_func(init[1], [obj] + list(args), kwargs, st, node)
        else:
            self.dataclass_init(init[1], obj, list(args), dict(kwargs), st, node)
        self.objinfo[obj.args[0]] = self.loc(node)
        return obj

    def dataclass_fields(self, c):
        out = {}
        for k in reversed(c.mro):
            if not isinstance(k, ClassInfo) or _dataclass(k.node) is None:
                continue
            for name, val in k.ann:
                out[name] = (val, k)
        return out

    def dataclass_init(self, c, obj, args, kwargs, st, node):
        oid = obj.args[0]
        pos = list(args)
        dc = _dataclass(c.node) or {}
        for name, (val, k) in self.dataclass_fields(c).items():
            spec = self.field_spec(val)
            if spec.get("init") is False:
                if "default" in spec:
                    st.cells[("f", oid, name)] = self.eval_static(spec["default"], k.module, st, k)
                elif "factory" in spec:
                    st.cells[("f", oid, name)] = self.call(self.eval_in(spec["factory"], k.module, st), [], {}, st, node)
                continue
            if pos and not dc.get("kw_only"):
                v = pos.pop(0)
            elif name in kwargs:
                v = kwargs.pop(name)
            elif "default" in spec:
                v = self.class_value(k, name, spec["default"], st)
            elif "factory" in spec:
                v = self.call(self.eval_in(spec["factory"], k.module, st), [], {}, st, node)
            else:
                if "**" in kwargs:
                    v = T.item(kwargs["**"], (const(name),))
                else:
                    v = self.unk("missing argument " + name, node)
            st.cells[("f", oid, name)] = v
        r = self.lookup(self.objcls[oid], "__post_init__")
        if r is not None:
            self.call_func(r[1], [obj], {}, st, node)

    def eval_in(self, node, module, st):
        fv = FuncVal(node, module, None, None, "<static>")
        fid = self.fresh()
        self.frames[fid] = (fv, module, None)
        self.stack.append((fv, fid))
        try:
            return self.eval(node, st)
        finally:
            self.stack.pop()

    def field_spec(self, val):
        if val is None:
            return {}
        if isinstance(val, ast.Call) and _dotted(val.func) in ("field", "dataclasses.field"):
            out = {}
            for k in val.keywords:
                if k.arg == "default":
                    out["default"] = k.value
                elif k.arg == "default_factory":
                    out["factory"] = k.value
                elif k.arg == "init":
                    out["init"] = bool(getattr(k.value, "value", True))
            return out
        return {"default": val}

    def bind_params(self, fv, args, kwargs, st, fid, node):
        a = fv.node.args
        pos = list(a.posonlyargs) + list(a.args)
        vals = {}
        rest = list(args)
        star = None
        if any(x.op == "star" for x in rest):
            raise GiveUp("star args")
        for p in pos:
            if rest:
                vals[p.arg] = rest.pop(0)
        extra_kw = {}
        names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in names:
                vals[k] = v
            else:
                extra_kw[k] = v
        if fv.defaults is None:
            fv.defaults = {}
            dpos = pos[len(pos) - len(a.defaults) :] if a.defaults else []
            for p, d in zip(dpos, a.defaults):
                fv.defaults[p.arg] = d
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    fv.defaults[p.arg] = d
        for p in pos + list(a.kwonlyargs):
            if p.arg not in vals:
                if p.arg in fv.given:
                    vals[p.arg] = fv.given[p.arg]
                elif p.arg in fv.defaults:
                    d = fv.defaults[p.arg]
                    key = ("dv", id(d))
                    v = self.gcells.get(key)
                    if v is None:
                        if fv.closure is not None:
                            v = self.eval_closure_default(d, fv, st)
                        else:
                            v = self.eval_static(d, fv.module, st, fv.cls)
                        self.gcells[key] = v
                    if "**" in kwargs:
                        c = kwargs["**"]
                        v = T.ite(mk("in", const(p.arg), c), T.item(c, (const(p.arg),)), v)
                    vals[p.arg] = v
                elif "**" in kwargs:
                    vals[p.arg] = T.item(kwargs["**"], (const(p.arg),))
                else:
                    vals[p.arg] = self.unk("missing argument " + p.arg, node)
        for k, v in vals.items():
            st.cells[("v", fid, k)] = self.bindable(v, st)
        if a.vararg:
            st.cells[("v", fid, a.vararg.arg)] = mk("tuple", tuple(rest))
        if a.kwarg:
            c = mk("dictv", tuple((const(k), v) for k, v in extra_kw.items()))
            if "**" in kwargs:
                c = kwargs["**"] if not extra_kw else self.dict_merge(c, kwargs["**"])
            st.cells[("v", fid, a.kwarg.arg)] = self.new_dict(c, st)

    def eval_closure_default(self, d, fv, st):
        return self.eval(d, st)

    def call_func(self, fv, args, kwargs, st, node):
        key = (fv.node, fv.closure)
        inplace = None
        hook = self.hooks.get(fv.qual()) or self.hooks.get(fv.name if fv.cls is None else "." + fv.name)
        if hook is not None:
            r = hook(self, st, args, kwargs, node)
            if r is not None:
                return r
        if _cached(fv.node) == "function":
            memo = ("memo", id(fv.node), tuple(args), tuple(sorted(kwargs.items())))
            v = self.get(st, memo)
            if v is None:
                v = self.call_body(fv, args, kwargs, st, node)
                st.cells[memo] = v
            return v
        return self.call_body(fv, args, kwargs, st, node)

    def call_body(self, fv, args, kwargs, st, node):
        inplace = None
        active = [i for f, i in self.stack if f.node is fv.node]
        limit = getattr(self, "rec_limit", {}).get(fv.name, getattr(self, "rec_default", 1))
        if (len(active) >= limit and not self.descends(fv, args, kwargs)) or len(self.stack) > self.max_depth:
            return self.rec_call(fv, args, kwargs, st, node)
        if isinstance(fv.node, ast.FunctionDef) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(fv.node)):
            want = self.gen_want
            context = any((_dotted(d) or "").split(".")[-1] == "contextmanager" for d in fv.node.decorator_list)
            if want is not None and want[0] is node and want[2] == context and _plain_yields(fv.node, context):
                want[3] = True
                inplace = want
            else:
                g = self.try_generator(fv, args, kwargs, st, node) if not context else None
                if g is not None:
                    return g
                return self.unk("generator function " + fv.name, node)
        self.n_calls += 1
        self.analysed.add((fv.module.name, fv.qual()))
        fid = self.fresh()
        self.frames[fid] = (fv, fv.module, fv.closure)
        self.bind_params(fv, args, kwargs, st, fid, node)
        if getattr(self, "arbitrary_depth", False):
            self.generalize_counters(fv, fid, active, st)
        if inplace is not None:
            self.gen_cb[fid] = (inplace[1], tuple(self.stack), list(self.handlers), inplace[2])
        want, self.gen_want = self.gen_want, None
        self.stack.append((fv, fid))
        self.argstack.append((fv.node, tuple(args) + tuple(kwargs.values())))
        self.path.append((getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), fv.qual()))
        self.sinks.append([])
        pc0 = st.pc
        try:
            if isinstance(fv.node, ast.Lambda):
                v = self.eval(fv.node.body, st)
                exits = [Exit("return", st, v)]
            else:
                exits = self.exec_block(fv.node.body, st)
        except Dead:
            exits = []
        finally:
            self.path.pop()
            self.argstack.pop()
            self.stack.pop()
            self.gen_want = want
            sink = self.sinks.pop()
        rets = [e for e in exits if e.kind == "return"]
        for e in exits:
            if e.kind == "next":
                rets.append(Exit("return", e.st, NONE))
        raises = [e for e in exits if e.kind == "raise"] + sink
        if self.sinks:
            self.sinks[-1].extend(raises)
        if not rets:
            raise Dead()
        if len(rets) == 1:
            st2, v = rets[0].st, rets[0].val
        else:
            st2, v = self.join_vals(rets)
        # drop the frame's variables unless a closure may still need them
        if not _makes_closure(fv.node):
            cells = {k: x for k, x in st2.cells.items() if not (k[0] == "v" and k[1] == fid)}
            st2 = State(cells, st2.pc)
        st.replace(st2)
        self.set_facts(st)
        return v

    def generalize_counters(self, fv, fid, active, st):
        """a counter handed on by a recursive call stands for the counter of any later activation"""
        own = {k[2]: v for k, v in st.cells.items() if k[0] == "v" and k[1] == fid}
        self.entry_params[fid] = own
        if not active:
            return
        prev = self.entry_params.get(active[-1], {})
        for n, v in own.items():
            o = prev.get(n)
            if o is not None and o.op == "num" and v.op == "num" and v.args[0] == o.args[0] + 1:
                t = T.sym(f"{T.COUNT}{fv.qual()}.{n}", ())
                T.INTS.add(t)
                f = T.ge0(T.sub(t, v))
                if f not in self.facts:
                    self.facts.append(f)
                st.cells[("v", fid, n)] = own[n] = t

    def descends(self, fv, args, kwargs):
        """recursion over a finite structure of the heap: a part not visited by an enclosing activation"""
        prev = [a for n, a in self.argstack if n is fv.node]
        if not prev or len(prev) > 12:
            return False
        if fv.cls is not None and args and args[0].op == "obj" and all(a and a[0] is not args[0] for a in prev):
            return True  # a method of another, existing object
        now = [a for a in list(args) + list(kwargs.values()) if a.op in ("dict", "dictv", "aref", "list", "tuple") or a.op in ("poly", "full", "app", "amap", "sym", "item") and T.shape(a)]
        old = set(x for a in prev for x in a)
        return bool(now) and all(x not in old for x in now)

    def try_generator(self, fv, args, kwargs, st, node):
        """a generator function read as the list of what it yields, where it has no effects of its own"""
        fn = _collecting(fv.node)
        if fn is None:
            return None
        g = FuncVal(fn, fv.module, fv.cls, fv.closure, fv.name, fv.kind)
        g.defaults = fv.defaults
        g.given = fv.given
        n0 = len(self.effects)
        first = self.fresh()
        r = self.call_func(g, args, kwargs, st, node)
        own = lambda l: l is r or l is not None and l.op == "list" and isinstance(l.args[0], int) and l.args[0] > first
        if any(not (e.kind in ("append", "extend") and own(e.recv)) for e in self.effects[n0:]):
            return self.unk("generator function with effects " + fv.name, node)
        return r

    def rec_call(self, fv, args, kwargs, st, node):
        """recursive call: recorded, everything reachable from its arguments is unknown afterwards"""
        h = getattr(self, "rec_hook", None)
        e = self.effect(st, "reccall", fv.qual(), None, args, kwargs, node)
        r = self.res("rec:" + fv.name, st)
        e.res = r
        if h is not None:
            x = h(self, fv, args, kwargs, st, e)
            if x is not None:
                return x
        self.havoc_reachable(list(args) + list(kwargs.values()), st, r)
        return r

    def havoc_reachable(self, roots, st, tag, skip=()):
        seen = set()
        stack = list(roots)
        while stack:
            v = stack.pop()
            if v in seen:
                continue
            seen.add(v)
            if v.op == "obj":
                for k in list(st.cells):
                    if k[0] == "f" and k[1] == v.args[0]:
                        x = st.cells[k]
                        if x.op in ("obj", "aref", "list", "dict", "bound", "func", "cls", "ext", "tuple"):
                            stack.append(x)
                        else:
                            st.cells[k] = mk("hv", tag, str(k[1]), k[2])
            elif v.op == "aref" and isinstance(v.args[0], int):
                k = ("a", v.args[0])
                n = mk("hv", tag, "a", v.args[0])
                sh = self.ashape.get(v.args[0])
                if sh is not None:
                    T.SHAPES[n] = sh
                st.cells[k] = n
            elif v.op == "list":
                c = st.cells.get(("L", v.args[0]))
                if c is not None:
                    for x in T.subterms(c):
                        if x.op in ("obj", "aref", "list", "dict"):
                            stack.append(x)
                    if c.op != "tuple":
                        st.cells[("L", v.args[0])] = mk("hv", tag, "L", v.args[0])
            elif v.op == "dict":
                c = st.cells.get(("D", v.args[0]))
                if c is not None:
                    for x in T.subterms(c):
                        if x.op in ("obj", "aref", "list", "dict"):
                            stack.append(x)
            elif v.op in ("bound",):
                stack.append(v.args[0])
            elif v.op in ("tuple",):
                stack.extend(v.args[0])

    # ------------------------------------------------- external functions/methods

    def deref_arg(self, a, st):
        """argument of an external call: array content by value, objects by reference"""
        if a.op == "aref":
            return self.deref(a, st)
        if a.op in ("ite", "tuple", "list"):
            return self.deep(a, st)
        return a

    def external(self, f, name, args, kwargs, st, node, pure=False, shape=None):
        """call leaving the package"""
        if f.op == "attr":
            recv, nm = f.args
        else:
            recv, nm = None, (f.args[0] if f.op == "ext" else None)
        a = tuple(self.deref_arg(x, st) for x in args)
        kw = {k: self.deref_arg(v, st) for k, v in kwargs.items()}
        label = nm or name or "call"
        hook = self.hooks.get("ext:" + str(label).split(".")[-1])
        if hook is not None:
            r = hook(self, st, f, recv, args, kwargs, node)
            if r is not None:
                return r
        if pure:
            r = mk("call", f if recv is None or recv.op != "aref" else mk("attr", self.deref(recv, st), nm), a, tuple(sorted(kw.items())))
            if shape is not None:
                T.SHAPES[r] = tuple(shape)
            return r
        r = self.res(str(label) if nm else (T.show(f, 60)), st)
        e = self.effect(st, "call", str(label) if nm else "()", recv if recv is not None else f, a, kw, node, r)
        e.raw = (tuple(args), dict(kwargs))
        nl = str(label).split(".")[-1]
        if nl in ("run_solve_nonlinear", "run_model", "run_apply_nonlinear"):
            self.havoc(st, "nl", r)
        elif nl in ("run_solve_linear", "run_apply_linear"):
            self.havoc(st, "lin", r)
        return r

    def call_method(self, base, name, args, kwargs, st, node):
        from . import npmodel

        if base.op == "aref" and isinstance(base.args[0], Term):
            # a view into an external container or an external array
            r = npmodel.array_method(self, base, name, args, kwargs, st, node)
            if r is not None:
                return r
            v = self.deref(base, st)
            if v is not base and v.op != "aref":
                f = self.attr(v, name, st, node)
                if f.op != "attr" or f.args[0] is not base:
                    return self.call(f, args, kwargs, st, node) if f.op != "attr" else self.call_method(v, name, args, kwargs, st, node)
        if base.op in ("aref", "poly", "sum", "amap", "store", "mapstore", "abs", "max", "min", "num", "roll", "concat", "transpose") or T.is_boolish(base):
            r = npmodel.array_method(self, base, name, args, kwargs, st, node)
            if r is not None:
                return r
            return self.external(mk("attr", self.deref(base, st), name), name, args, kwargs, st, node, pure=name in PURE_METHODS)
        if base.op == "objdict":
            return self.objdict_method(base, name, [self.deref(a, st) if a.op != "dict" else a for a in args], kwargs, st, node)
        if base.op in ("list", "dict", "tuple", "dictv", "const", "fmt", "setop", "objv") or base.op.startswith("it_") or (base.op == "item" and base.args[0].op == "hdr" and base.args[0].args[1].startswith("L:")):
            r = self.call_builtin_method(base, name, args, kwargs, st, node)
            if r is not None:
                return r
        if base.op == "ite":
            return self.call_gated(T.ite(base.args[0], self.attr(base.args[1], name, st, node), self.attr(base.args[2], name, st, node)), args, kwargs, st, node)
        if name in ("items", "keys", "values") and not args:
            return mk("it_" + name, base)
        if name == "get" and args and base.op not in ("res",):
            k = self.deref(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            return T.ite(mk("in", k, base), T.item(base, (k,)), d)
        # arrays of external origin
        r = npmodel.maybe_array_method(self, base, name, args, kwargs, st, node)
        if r is not None:
            return r
        if name == "asarray":
            cp = kwargs.get("copy") or (args[0] if args else FALSE)
            ref = mk("aref", base, ())
            return self.deref(ref, st) if cp is TRUE else ref
        if name == "set_val" and len(args) == 1 and self.vec_kind(base):
            self.write_ref(mk("aref", base, ()), self.deref(args[0], st), st, node)
            return NONE
        if name in ("set_var",) and len(args) == 2:
            self.write_ref(mk("aref", base, (self.deref(args[0], st),)), self.deref(args[1], st), st, node)
            return NONE
        f = mk("attr", base, name)
        return self.external(f, name, args, kwargs, st, node, pure=name in PURE_METHODS)

    def call_builtin_method(self, base, name, args, kwargs, st, node):
        from . import npmodel

        return npmodel.builtin_method(self, base, name, args, kwargs, st, node)

    def call_ext(self, f, args, kwargs, st, node):
        from . import npmodel

        return npmodel.call_ext(self, f, args, kwargs, st, node)

    # --------------------------------------------------------------- deep copy

    def deepcopy(self, v, st, memo=None):
        memo = {} if memo is None else memo
        if v in memo:
            return memo[v]
        op = v.op
        if v in self.user_objects:
            memo[v] = mk("app", "deepcopy", None, (v,))
            return memo[v]
        if op == "obj":
            c = self.objcls[v.args[0]]
            r = self.lookup(c, "__deepcopy__")
            n = self.new_obj(c, st)
            memo[v] = n
            for k in [k for k in st.cells if k[0] == "f" and k[1] == v.args[0]]:
                st.cells[("f", n.args[0], k[2])] = self.deepcopy(st.cells[k], st, memo)
            self.objinfo[n.args[0]] = ("copyof", v)
            return n
        if op == "aref" and not isinstance(v.args[0], Term):
            aid, idx = v.args
            if not idx:
                n = self.new_array(self.get(st, ("a", aid)), self.ashape.get(aid), st)
            else:
                n = self.new_array(self.deref(v, st), T.shape(v), st)
            memo[v] = n
            return n
        if op == "aref":
            return self.deref(v, st)
        if op == "list":
            n = self.new_list(mk("tuple", ()), st)
            memo[v] = n
            c = self.get(st, ("L", v.args[0]))
            st.cells[("L", n.args[0])] = self.deepcopy(c, st, memo)
            return n
        if op == "dict":
            n = self.new_dict(mk("dictv", ()), st)
            memo[v] = n
            c = self.get(st, ("D", v.args[0]))
            st.cells[("D", n.args[0])] = self.deepcopy(c, st, memo)
            return n
        if op == "dictv":
            return mk("dictv", tuple((k, self.deepcopy(x, st, memo)) for k, x in v.args[0]))
        if op == "tuple":
            return mk("tuple", tuple(self.deepcopy(x, st, memo) for x in v.args[0]))
        if op == "ite":
            return T.ite(v.args[0], self.deepcopy(v.args[1], st, memo), self.deepcopy(v.args[2], st, memo))
        if op == "bound":
            return mk("bound", self.deepcopy(v.args[0], st, memo), v.args[1])
        return v


def _cached(node):
    for d in getattr(node, "decorator_list", ()):
        n = (_dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1]
        if n in ("lru_cache", "cache"):
            return "function"
        if n == "cached_property":
            return "property"
    return None


class FuncTable(dict):
    """functions by their terms; defaults of closures are a part of the term"""

    def __missing__(self, t):
        if t.op == "func" and len(t.args) > 4:
            g = self[mk("func", *t.args[:4])]
            f = FuncVal(g.node, g.module, g.cls, g.closure, g.name, g.kind)
            f.given = {k: v for k, v in t.args[4]}
            self[t] = f
            return f
        raise KeyError(t)


PURE_VALUES = ("num", "tuple", "full", "dictv", "poly", "sum", "amap", "store", "mapstore", "concat", "filt", "item", "ite")


def loops_filt(bv, dom, cond, el):
    from . import loops

    return loops.filt(bv, dom, cond, el)


INFRANGE = mk("range", ZERO, mk("ext", "inf"))

ARRAY_METHODS = {"flatten", "ravel", "reshape", "copy", "sum", "fill", "dot", "max", "min", "any", "all", "prod", "transpose", "astype", "tolist", "squeeze", "asarray", "conj", "item", "mean", "clip", "round", "put", "itemset", "resize", "sort"}


def _leaves(t):
    if t.op == "ite":
        return _leaves(t.args[1]) + _leaves(t.args[2])
    return [t]


def _gated(t, g=TRUE):
    if t.op == "ite":
        return _gated(t.args[1], T.land(g, t.args[0])) + _gated(t.args[2], T.land(g, T.lnot(t.args[0])))
    return [(g, t)]


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = _dotted(n.value)
        return None if b is None else b + "." + n.attr
    if isinstance(n, ast.Subscript):
        return _dotted(n.value)
    return None


def _dataclass(node):
    if any((_dotted(b) or "").split(".")[-1] == "NamedTuple" for b in node.bases):
        return {}
    for d in node.decorator_list:
        if isinstance(d, ast.Call) and _dotted(d.func) in ("dataclass", "dataclasses.dataclass"):
            return {k.arg: getattr(k.value, "value", True) for k in d.keywords}
        if _dotted(d) in ("dataclass", "dataclasses.dataclass"):
            return {}
    return None


def _own_nodes(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


_CL = {}


def _makes_closure(node):
    r = _CL.get(node)
    if r is None:
        r = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(node) if n is not node)
        _CL[node] = r
    return r
