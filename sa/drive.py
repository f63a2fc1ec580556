"""Symbolic entry points: the public API called on symbolic objects."""

from __future__ import annotations

import ast
import os

from . import terms as T
from .frontend import Module, Package
from .interp import ClassInfo, Dead, Engine, FuncVal, State
from .report import Anchor
from .terms import FALSE, NONE, ONE, TRUE, ZERO, T as Term, const, mk

_PKG = {}


def package(root, stubs=None):
    key = (root, tuple(sorted((stubs or {}).items())))
    if key not in _PKG:
        _PKG[key] = Package(root)
        for name, f in (stubs or {}).items():
            path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", f)
            with open(path, encoding="utf-8") as fh:
                _PKG[key].modules[name] = Module(name, path, ast.parse(fh.read(), filename=path), False)
    p = _PKG[key]
    for m in p.modules.values():
        m.executed = False
        m.frame = None
    return p


class Drive:
    def __init__(self, root, opaque=(), hooks=None, stubs=None):
        T.reset()
        T.FACTS.clear()
        T.BV_DOM.clear()
        self.root = root
        self.pkg = package(root, stubs)
        self.E = Engine(self.pkg, opaque=opaque, hooks=hooks or {})
        self.st = State()
        E = self.E
        mod = self.pkg.modules.get("rkopenmdao") or next(iter(self.pkg.modules.values()))
        fv = FuncVal(ast.parse("def driver(): pass").body[0], mod, None, None, "driver")
        E.stack.append((fv, 0))
        E.frames[0] = (fv, mod, None)
        E.sinks.append([])
        self.dims = set()

    # ---------------------------------------------------------------- symbols

    def dim(self, name):
        t = T.sym(name, ())
        T.INTS.add(t)
        self.dims.add(t)
        f = T.gt0(t)
        g = T.ge0(T.sub(t, ONE))
        for x in (f, g):
            if x not in self.E.facts:
                self.E.facts.append(x)
        return t

    def scalar(self, name):
        return T.sym(name, ())

    def array(self, name, *shape):
        """array object with symbolic content"""
        return self.E.new_array(T.sym(name, shape), shape, self.st)

    # ------------------------------------------------------------------ calls

    def cls(self, name):
        c = self.E.cls(name)
        if c is None:
            raise Anchor(f"class {name} not found")
        return c

    def cls_term(self, name):
        return self.E.cls_term(self.cls(name))

    def func(self, name):
        f = self.pkg.find_func(name)
        if f is None:
            raise Anchor(f"function {name} not found")
        return self.E.module_name(f[0], name)

    def value(self, name):
        """module level value by its public name"""
        for m in self.pkg.modules.values():
            if name in m.env:
                v = self.E.module_name(m, name)
                if v is not None:
                    return v
        raise Anchor(f"name {name} not found")

    def new(self, cname, *args, **kw):
        return self.E.construct(self.cls(cname), list(args), kw, self.st, None)

    def method(self, obj, name):
        if obj.op == "obj":
            c = self.E.objcls[obj.args[0]]
            if self.E.lookup(c, name) is None and self.E.get(self.st, ("f", obj.args[0], name)) is None:
                raise Anchor(f"{c.name}.{name} not found")
        return self.E.attr(obj, name, self.st)

    def call(self, obj, name, *args, **kw):
        """call a method; Dead propagates as exception 'Dead'"""
        f = self.method(obj, name)
        self.E.set_facts(self.st)
        return self.E.call(f, list(args), kw, self.st, None)

    def call_value(self, f, *args, **kw):
        self.E.set_facts(self.st)
        return self.E.call(f, list(args), kw, self.st, None)

    # ----------------------------------------------------------------- reading

    def field(self, obj, name, st=None):
        """pure value of a field"""
        st = st or self.st
        v = self.E.get(st, ("f", obj.args[0], name))
        if v is None:
            return None
        return self.E.materialize(self.E.deref(v, st), st)

    def fields(self, obj, st=None):
        st = st or self.st
        return {k[2]: v for k, v in st.cells.items() if k[0] == "f" and k[1] == obj.args[0]}

    def val(self, ref, st=None):
        st = st or self.st
        return self.E.materialize(self.E.deref(ref, st), st)

    def effects(self, *kinds, name=None):
        return [e for e in self.E.effects if (not kinds or e.kind in kinds) and (name is None or e.name == name)]

    def raises(self):
        return [x for x in self.E.sinks[0]]

    # ------------------------------------------------------ package specific

    def sizes(self, stages=None, concrete=None):
        """symbolic sizes, or given ones (state, independent inputs, outputs, linearization point)"""
        self.n, self.p, self.q, self.l, self.s = (self.dim(x) for x in ("n_state", "n_in", "n_out", "n_lin", "n_stages"))
        if concrete is not None:
            self.n, self.p, self.q, self.l = (const(x) for x in concrete)
        if stages is not None:
            self.s = const(stages)
        n, p, q, l = self.n, self.p, self.q, self.l
        for k, v in {
            "stage_update": (n,), "stage_state": (n,), "step_input": (n,), "stage_input": (n,),
            "independent_input": (p,), "independent_output": (q,), "linearization_point": (l,), "time": (),
        }.items():
            T.ATTR_SHAPES[k] = v

    def ode(self, name="ode"):
        """opaque ODE with symbolic sizes"""
        o = T.sym(name)
        for m, v in (("get_state_size", self.n), ("get_independent_input_size", self.p), ("get_independent_output_size", self.q), ("get_linearization_point_size", self.l)):
            self.E.hooks["ext:" + m] = (lambda E, st, f, recv, a, k, node, v=v: v)
        return o

    def tableau(self, embedded=False):
        """tableau object with symbolic coefficients (validation guards are kept apart)"""
        s = self.s
        self.A, self.b, self.c = T.sym("A", (s, s)), T.sym("b", (s,)), T.sym("c", (s,))
        kw = dict(
            butcher_matrix=self.E.new_array(self.A, (s, s), self.st),
            butcher_weight_vector=self.E.new_array(self.b, (s,), self.st),
            butcher_time_stages=self.E.new_array(self.c, (s,), self.st),
            p=self.scalar("p_order"),
        )
        if embedded:
            self.bh = T.sym("b_hat", (s,))
            kw["butcher_adaptive_weights"] = self.E.new_array(self.bh, (s,), self.st)
            kw["phat"] = self.scalar("phat_order")
        t = self.new("EmbeddedButcherTableau" if embedded else "ButcherTableau", **kw)
        self.st.pc = ()
        return t

    def leaves(self, o, prefix="", st=None):
        """every data field of an object, recursively: path -> reference"""
        out = {}
        for k, v in self.fields(o, st).items():
            if v.op == "obj":
                out.update(self.leaves(v, prefix + k + ".", st))
            else:
                out[prefix + k] = v
        return out

    def state_func(self, name, nstates, fresh=False, emb=False):
        """user supplied step function: (iteration, state, ...) -> state; its results are arbitrary
        functions of the iteration and the contents of all its arguments"""
        ext = mk("ext", "user." + name)

        def hook(E, st, f, recv, args, kwargs, node):
            args = list(args) + list(kwargs.values())
            it = E.deref(args[0], st)
            vals = tuple(E.materialize(a, st) for a in args[1:])
            E.effect(st, "call", name, None, (it,) + vals, node=node)
            dst = args[nstates]
            if dst.op != "obj":
                return None
            new = {}
            for path, ref in self.leaves(dst, st=st).items():
                if ref.op == "aref":
                    sh = T.shape(ref)
                    new[path] = mk("app", name + ":" + path, tuple(sh) if sh is not None else None, (it,) + vals)
            out = E.deepcopy(dst, st) if fresh else dst
            for path, ref in self.leaves(out, st=st).items():
                if path in new:
                    E.write_ref(ref, new[path], st, node)
            return out

        self.E.hooks["ext:user." + name] = hook
        return ext

    def fill(self, obj, prefix):
        """symbolic content for every array field of an object"""
        for name, v in self.fields(obj).items():
            if v.op == "aref" and not isinstance(v.args[0], Term):
                sh = self.E.ashape.get(v.args[0])
                self.st.cells[("a", v.args[0])] = T.sym(f"{prefix}.{name}", sh) if sh is not None else T.sym(f"{prefix}.{name}")

    def rk_state(self, prefix, embedded=False):
        o = self.new(
            "EmbeddedRungeKuttaDiscretizationState" if embedded else "RungeKuttaDiscretizationState",
            ode_state_size=self.n, independent_input_size=self.p, independent_output_size=self.q,
            number_of_stages=self.s, linearization_point_size=self.l,
        )
        self.fill(o, prefix)
        return o


def where(e):
    return e.where() if hasattr(e, "where") else str(e)
