"""C26: exceptions reach the caller.

Part one is a flow analysis over the syntax trees of the package: for every construct that can
stop an exception (handlers, suppress, finally blocks that leave, __exit__ methods) it computes
which operations the guarded code reaches over the call graph, and whether every way through the
construct raises again. Part two decides with the abstract interpreter that unusable requests end
in an exception."""

from __future__ import annotations

import ast
import os

from sa import terms as T
from sa.drive import Drive
from sa.interp import Dead
from sa.report import Anchor
from sa.terms import NONE, const, mk
from .ckpt import setup, strategies
from .rk import anchor_loc

# operations of the stage problem, user code, checkpointing and file access
OPERATIONS = set(
    """run_solve_nonlinear run_linearize run_solve_linear run_apply_linear run_apply_nonlinear run_model run_driver setup final_setup
    compute_update compute_update_derivative compute_update_adjoint_derivative compute_state_norm compute_step compute_step_derivative
    compute_step_adjoint_derivative before_iteration after_iteration iterate_forward iterate_reverse create_checkpointer apply apply_forward
    apply_reverse is_iteration_finished get_measure allreduce File create_group create_dataset require_group require_dataset
    compute compute_jacvec_product compute_partials solve_nonlinear solve_linear linearize apply_nonlinear apply_linear
    run_step_func run_step_jacvec_rev_func error_controller _error_controller add_input add_output get_io_metadata""".split()
)
LOOKUP = {"KeyError", "IndexError", "AttributeError", "LookupError", "ImportError", "ModuleNotFoundError", "StopIteration"}
BROAD = {"BaseException", "Exception"}
PURE = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__) | {"get", "keys", "values", "items", "append", "format", "join", "split", "copy", "flatten", "ravel", "reshape", "startswith", "endswith"}


class Flow:
    def __init__(self, root):
        self.D = Drive(root)
        self.root = root
        self.pkg = self.D.pkg
        self.funcs = {}  # name -> [(module, class node or None, function node)]
        self.owner = {}
        self.classes = {}
        for m in self.pkg.modules.values():
            self.walk(m, m.tree, None, None)

    def walk(self, m, node, cls, fn):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                self.classes.setdefault(n.name, (m, n))
                self.walk(m, n, n, None)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs.setdefault(n.name, []).append((m, cls, n))
                self.owner[n] = (m, cls, fn)
                self.walk(m, n, cls, n)
            else:
                self.owner[n] = (m, cls, fn)
                self.walk(m, n, cls, fn)

    def bases(self, name, seen=()):
        """names of a class and of all its bases (package classes and built-in exceptions)"""
        out = {name}
        if name in self.classes and name not in seen:
            for b in self.classes[name][1].bases:
                out |= self.bases(last(b), seen + (name,))
        else:
            import builtins

            c = getattr(builtins, name, None)
            if isinstance(c, type):
                out |= {x.__name__ for x in c.__mro__}
        return out

    def calls(self, nodes):
        """names called below the given nodes (nested function bodies included: they may run)"""
        out = []
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Call):
                    out.append((last(x.func), x))
                elif isinstance(x, (ast.With, ast.AsyncWith)):
                    pass
        return out

    def reach(self, nodes):
        """operations reached from the nodes: {operation: path of names}, and unresolved names"""
        ops, unknown, seen = {}, set(), set()
        todo = [(nodes, ())]
        while todo:
            ns, path = todo.pop()
            for name, _ in self.calls(ns):
                if name in OPERATIONS and name not in ops:
                    ops[name] = path + (name,)
                if name in self.funcs:
                    if name not in seen:
                        seen.add(name)
                        for m, c, f in self.funcs[name]:
                            todo.append((f.body, path + (name,)))
                elif name in self.classes:
                    for k in ("__init__", "__post_init__"):
                        for m, c, f in self.funcs.get(k, ()):
                            if c is not None and c.name in self.bases(name) and (name, k) not in seen:
                                seen.add((name, k))
                                todo.append((f.body, path + (name,)))
                elif name not in PURE:
                    unknown.add(name)
        return ops, unknown

    def always_raises(self, body, depth=0):
        """every way through the statements raises"""
        for s in body:
            if isinstance(s, ast.Raise):
                return True
            if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
                return False
            if isinstance(s, ast.If) and s.orelse and self.always_raises(s.body, depth) and self.always_raises(s.orelse, depth):
                return True
            if isinstance(s, ast.If) and any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in ast.walk(s)):
                return False
            if isinstance(s, (ast.With, ast.AsyncWith)) and self.always_raises(s.body, depth):
                return True
            if isinstance(s, ast.Try) and (self.always_raises(s.finalbody, depth) or self.always_raises(s.body, depth) and all(self.always_raises(h.body, depth) for h in s.handlers)):
                return True
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and depth < 4:
                fs = self.funcs.get(last(s.value.func), ())
                if fs and all(self.always_raises(f.body, depth + 1) for _, _, f in fs):
                    return True
        return False

    def where(self, n):
        m, c, f = self.owner[n]
        nm = ".".join(x.name for x in (c, f) if x is not None)
        return f"{os.path.relpath(m.path, self.root)}:{n.lineno}" + (f" in {nm}" if nm else "")

    def run_scope(self, n):
        """part of setup or of a run (helpers for example data in utils are not)"""
        return not self.owner[n][0].name.startswith(self.pkg.pkg + ".utils.problems")

    def controller(self, n, seen=()):
        """code of the controllers: a method of one, or a function used by these only"""
        m, c, f = self.owner[n]
        if c is not None and "ErrorController" in self.bases(c.name):
            return True
        if f is None or c is not None or f.name in seen:
            return False
        users = [x for mm in self.pkg.modules.values() for x in ast.walk(mm.tree) if isinstance(x, ast.Call) and last(x.func) == f.name]
        return bool(users) and all(self.controller(x, seen + (f.name,)) for x in users)


def last(n):
    if isinstance(n, ast.Attribute):
        return n.attr
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Call):
        return last(n.func)
    if isinstance(n, ast.Subscript):
        return last(n.value)
    return "?"


def caught(h):
    if h is None:
        return {"BaseException"}
    return {last(x) for x in (h.elts if isinstance(h, ast.Tuple) else [h])}


def kept(fl, h):
    """the handler keeps the exception for a later raise in the same function"""
    f = fl.owner[h][2]
    if f is None or not h.name:
        return False
    names = set()
    for x in ast.walk(h):
        if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == h.name for y in ast.walk(x.value)):
            names |= {last(t) for t in x.targets}
        if isinstance(x, ast.Call) and any(isinstance(y, ast.Name) and y.id == h.name for a in x.args for y in ast.walk(a)) and isinstance(x.func, ast.Attribute):
            names.add(last(x.func.value))
    return any(isinstance(x, ast.Raise) and x.exc is not None and any(isinstance(y, (ast.Name, ast.Attribute)) and last(y) in names for y in ast.walk(x.exc)) for x in ast.walk(f))


def stops(R, fl, label, node, classes, guarded, raises, keeps=False):
    """one construct that stops exceptions of the given classes raised by the guarded statements"""
    w = fl.where(node)
    ops, unknown = fl.reach(guarded)
    if raises:
        R.ok(label, w, "every way through it raises again")
        return
    path = lambda: "reaches " + ", ".join(" -> ".join(p) for p in list(ops.values())[:3])
    names = ", ".join(sorted(classes))
    if keeps:
        R.undecided(label, w, f"{names} kept for a later raise")
        return
    if classes and all("OuterErrorControllerError" in fl.bases(c) for c in classes) and fl.controller(node):
        R.ok(label, w, "hand-over between controllers of a chain, for their own signal only")
        return
    broad = bool(classes & BROAD) or any(c in fl.classes and "BaseException" in fl.bases(c) for c in classes)
    if broad and (ops or unknown):
        R.fail(label, w, f"catches {names} and goes on; {path() if ops else 'covers calls of ' + ', '.join(sorted(unknown)[:4])}")
    elif not fl.run_scope(node):
        R.ok(label, w, f"{names} in a helper outside of setup and runs")
    elif ops:
        R.fail(label, w, f"catches {names} and goes on; {path()}")
    elif classes <= LOOKUP and not unknown:
        R.ok(label, w, f"{names} of a lookup, no operation of a run is guarded")
    else:
        R.undecided(label, w, f"catches {names}; calls of {', '.join(sorted(unknown)[:4])}")


def handlers(R, root):
    fl = Flow(root)
    n = calls = 0
    for m in fl.pkg.modules.values():
        if ".tests." in m.name:
            continue
        for x in ast.walk(m.tree):
            calls += isinstance(x, ast.Call)
            if isinstance(x, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                n += 1
                for h in x.handlers:
                    stops(R, fl, "exceptions are not dropped by a handler", h, caught(h.type), x.body, fl.always_raises(h.body), kept(fl, h))
                leave = leaves(x.finalbody)
                if leave is not None:
                    ops, unknown = fl.reach(x.body + x.orelse + [s for h in x.handlers for s in h.body])
                    R.holds("a finally block does not replace an exception", not (ops or unknown), fl.where(leave), "leaves the finally block")
            elif isinstance(x, (ast.With, ast.AsyncWith)):
                for it in x.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and last(c.func) == "suppress":
                        n += 1
                        stops(R, fl, "exceptions are not suppressed", x, {last(a) for a in c.args}, x.body, False)
            elif isinstance(x, ast.FunctionDef) and x.name in ("__exit__", "__aexit__"):
                n += 1
                bad = [r for r in ast.walk(x) if isinstance(r, ast.Return) and r.value is not None and not (isinstance(r.value, ast.Constant) and not r.value.value)]
                sure = [r for r in bad if isinstance(r.value, ast.Constant)]
                R.holds("a context manager does not swallow exceptions", True if not bad else False if sure else None, fl.where(x), "returns a true value")
    R.ok("constructs that stop exceptions", how=f"{n} constructs in {len(fl.pkg.modules)} modules with {calls} calls")


def leaves(body):
    """statement leaving a finally block other than by its end"""

    def go(ss, loop):
        for s in ss:
            if isinstance(s, ast.Return) or not loop and isinstance(s, (ast.Break, ast.Continue)):
                return s
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            inner = loop or isinstance(s, (ast.For, ast.While))
            for f in ("body", "orelse", "finalbody"):
                r = go(getattr(s, f, []) or [], inner)
                if r is not None:
                    return r
            for h in getattr(s, "handlers", []):
                r = go(h.body, inner)
                if r is not None:
                    return r
        return None

    return go(body, False)


# ------------------------------------------------------------------------- refusals

def ends(R, D, label, where, want, steps):
    """the given calls end in an exception iff wanted"""
    died = None
    try:
        for s in steps:
            s()
            if D.st.pc and any(T.truth(g) is T.FALSE for g in D.st.pc):
                raise Dead()
    except Dead:
        died = True
    R.absorb(D.E)
    may = bool([x for x in D.raises() if x.kind == "raise"])
    if want:
        R.holds(label, True if died else None if may else False, where, "accepted without an exception")
    else:
        R.holds(label, not died, where, "raises an exception")
    return died


def refusals(R, root):
    found = strategies(root)
    for c in ("NoCheckpointer", "AllCheckpointer", "PyrevolveCheckpointer"):
        if c not in found:
            raise Anchor(c)
    with R.group("reverse mode"):
        for c in found:
            D = setup(root, c, "steps")
            ends(R, D, f"{c}: reverse iteration {'is refused' if c == 'NoCheckpointer' else 'is possible'}", anchor_loc(D, c, "iterate_reverse"), c == "NoCheckpointer", [
                lambda: D.call(D.ck, "create_checkpointer"), lambda: D.call(D.ck, "iterate_forward", D.I), lambda: D.call(D.ck, "iterate_reverse", D.F)])
    with R.group("PyrevolveCheckpointer"):
        c = "PyrevolveCheckpointer"
        for kind in ("Memory", "SingleLevel", "Disk", "Base", "MultiLevel", "memory", "Unknown", ""):
            opts = {}
            D, steps = revolve(root, c, const(kind), opts)
            ends(R, D, f"revolver type {kind!r} is {'accepted' if kind[:1].isupper() and kind != 'Unknown' else 'refused'}", anchor_loc(D, c, "__init__" if D.E.lookup(D.cls(c), "__init__") else "create_checkpointer"), not (kind[:1].isupper() and kind != "Unknown"), steps)
        for st in ("Numpy", "Disk", "Bytes", "numpy", "Tape"):
            D, steps = revolve(root, c, const("MultiLevel"), {st: ()})
            ends(R, D, f"storage type {st!r} is {'accepted' if st in ('Numpy', 'Disk', 'Bytes') else 'refused'}", anchor_loc(D, c, "create_checkpointer"), st not in ("Numpy", "Disk", "Bytes"), steps)
        D, steps = revolve(root, c, const("Memory"), {}, crit="time")
        ends(R, D, "a termination criterion without a known number of steps is refused", anchor_loc(D, c, "create_checkpointer"), True, steps)


def revolve(root, cname, kind, storages, crit="steps"):
    D = setup(root, "AllCheckpointer", "steps", stub="all")
    E = D.E
    st = D.st
    criterion = D.new("PredefinedFinalTime", D.scalar("T")) if crit == "time" else D.new("PredefinedNumberOfSteps", D.N)
    kw = {}
    if storages:
        lit = lambda **x: E.new_dict(mk("dictv", tuple((const(k), v) for k, v in x.items())), st)
        kw["revolver_options"] = lit(storage_list=lit(**{k: lit() for k in storages}))
    run, rev = D.state_func("run_step", 1, False), D.state_func("run_rev", 2, False)
    box = {}

    def make():
        box["o"] = D.new(cname, termination_criterion=criterion, run_step_func=run, run_step_jacvec_rev_func=rev, state=D.S, state_perturbation=D.P, revolver_type=kind, **kw)

    return D, [make, lambda: D.call(box["o"], "create_checkpointer")]


def options(R, root):
    """options that cannot be used are refused when they are set"""
    with R.group("options"):

        def declared():
            D = Drive(root)
            D.o = D.new("RungeKuttaIntegrator")
            D.st.cells[("f", D.o.args[0], "options")] = T.sym("options")
            n0 = len(D.E.effects)
            D.call(D.o, "initialize")
            D.st.pc = ()
            out = {}
            for e in D.E.effects[n0:]:
                if e.kind == "call" and e.name == "declare":
                    nm = e.args[0] if e.args else e.kwargs.get("name", NONE)
                    if nm.op == "const":
                        out[nm.args[0]] = e
            return D, out

        D, out = declared()
        for o, kinds in {"time_stage_problem": None, "butcher_tableau": {"ButcherTableau"}, "integration_config": {"IntegrationConfig"}, "time_integration_quantities": {"list"}, "error_measurer": {"ErrorMeasurer"}}.items():
            e = out.get(o)
            if e is None:
                R.undecided(f"option {o}", "", "declaration not found")
                continue
            R.holds(f"option {o} is restricted to the type it is used as", True if any(k in e.kwargs for k in ("types", "check_valid", "values")) else False, e.where(), "declared without a type")
        cases = []
        for good, v in ((True, lambda D: D.cls_term("AllCheckpointer")), (True, lambda D: D.cls_term("PyrevolveCheckpointer")), (False, lambda D: D.cls_term("ButcherTableau"))):
            cases.append(("checkpointing_type", good, v))

        def controller(D, result):
            D.E.hooks["ext:user.factory"] = D.E.hooks["ext:factory"] = lambda E, st, f, recv, a, k, node: result(D, st)
            return D.E.new_list(mk("tuple", (mk("ext", "user.factory"),)), D.st)

        cases.append(("error_controller", False, lambda D: controller(D, lambda D, st: const(3))))
        cases.append(("error_controller", False, lambda D: controller(D, lambda D, st: D.tab)))
        cases.append(("error_controller", False, lambda D: D.E.new_list(mk("tuple", (const(3),)), D.st)))
        for k, (o, good, v) in enumerate(cases):
            D, out = declared()
            D.sizes()
            D.tab = D.tableau(False)
            e = out.get(o)
            f = e.kwargs.get("check_valid") if e is not None else None
            if f is None:
                R.undecided(f"option {o}", "", "declaration not found")
                continue
            val = v(D)
            ends(R, D, f"option {o}: {'usable' if good else 'unusable'} value {k + 1} is {'accepted' if good else 'refused'}", e.where(), not good, [lambda: D.call_value(f, const(o), val)])


def c26(R, root):
    options(R, root)
    handlers(R, root)
    refusals(R, root)
    from .integ import refuses_implicit

    refuses_implicit(R, root)
