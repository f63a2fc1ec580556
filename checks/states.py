"""C04, C05: copying, exporting, owning state data."""

from __future__ import annotations

from sa import evalt
from sa import terms as T
from sa.drive import Drive
from sa.evalt import Undecided
from sa.report import Anchor
from sa.terms import ONE, ZERO, mk
from .rk import Bad, anchor_loc, decide, need

CONTENT = {False: [
    "start_state", "stage_states", "stage_updates", "final_state", "independent_inputs", "stage_independent_outputs", "final_independent_outputs",
    "start_time", "stage_times", "final_time", "step_size", "linearization_points",
]}
CONTENT[True] = CONTENT[False] + ["embedded_state", "error_estimate"]
TIS = ["step_size_suggestion", "step_size_history", "error_history"]


def disc_cls(emb):
    return "EmbeddedRungeKuttaDiscretizationState" if emb else "RungeKuttaDiscretizationState"


def tis(D, prefix, emb):
    ds = D.rk_state(prefix, emb)
    o = D.new("TimeIntegrationState", ds, D.array(prefix + ".step_size_suggestion", ONE), D.array(prefix + ".step_size_history", T.const(2)), D.array(prefix + ".error_history", T.const(2)))
    return o


def obj_field(D, o, name, st=None):
    return D.E.get(st or D.st, ("f", o.args[0], name))


def leaves(D, o, prefix=""):
    return D.leaves(o, prefix)


def syms(prefix, emb, whole):
    names = CONTENT[emb]
    d = {("discretization_state." if whole else "") + k: mk("sym", f"{prefix}.{k}") for k in names}
    if whole:
        d.update({k: mk("sym", f"{prefix}.{k}") for k in TIS})
    return d


def make(D, prefix, emb, whole):
    return tis(D, prefix, emb) if whole else D.rk_state(prefix, emb)


def covers(R, D, got, want, loc, what):
    miss = [k for k in want if k not in got]
    for k in miss:
        raise Anchor(f"state field {k}")
    for k in got:
        if k in want:
            R.same(f"{what} {k}", D.val(got[k]), want[k], loc, dims=D.dims)


def coinciding(R, D, got, want, loc):
    """a field is copied as well when other fields already agree"""
    for k in want:
        if k not in got or want[k].op != "sym":
            continue
        twins = {mk("sym", "A." + w.args[0].split(".", 1)[1]): w for j, w in want.items() if j != k and w.op == "sym" and w.args[0].startswith("B.")}
        twins = {T.sym(a.args[0], T.shape(w)): w for a, w in twins.items()}
        v = T.subst(D.val(got[k]), twins)
        R.same(f"copies {k} when all other fields agree", v, want[k], loc, dims=D.dims)


def extra(D, o, emb, whole, prefix):
    """fields the state classes have besides the documented ones take part as well"""
    w = syms(prefix, emb, whole)
    for k, v in leaves(D, o).items():
        if k not in w and v.op == "aref":
            w[k] = D.val(v)
    return w


def c04(R, root):
    evalt.ANY_VALUE = True
    for whole in (False, True):
        for emb in (False, True):
            cname = ("TimeIntegrationState of " if whole else "") + disc_cls(emb)
            anch = "TimeIntegrationState" if whole else disc_cls(emb)
            with R.group(cname + ".set"):
                D = Drive(root)
                D.sizes()
                a, b = make(D, "A", emb, whole), make(D, "B", emb, whole)
                loc = anchor_loc(D, anch, "set")
                before = leaves(D, a)
                want = extra(D, b, emb, whole, "B")
                D.call(a, "set", b)
                after = leaves(D, a)
                for k in before:
                    R.holds(f"storage of {k} kept", after.get(k) is before[k], loc, f"field {k} is rebound to {T.show(after.get(k), 100) if after.get(k) is not None else None} instead of being written in place")
                covers(R, D, after, want, loc, "copies")
                coinciding(R, D, after, want, loc)
                covers(R, D, leaves(D, b), want, loc, "source keeps")
                for e in D.E.sinks[0]:
                    if e.kind == "raise":
                        R.fail("set refuses", loc, T.show(e.val, 100))
                R.absorb(D.E)
            with R.group(cname + ".dict"):
                D = Drive(root)
                D.sizes()
                a = make(D, "A", emb, whole)
                loc = anchor_loc(D, anch, "to_dict")
                want = extra(D, a, emb, whole, "A")
                d = D.call(a, "to_dict")
                dv = D.val(d)
                ex = exported(dv)
                for k, w in want.items():
                    base = w.args[0] if w.op == "sym" else None
                    if base is not None:
                        R.holds(f"exposes {k}", True if base in ex else (None if T.contains_op(dv, ("unk", "hdr", "loopout")) else False), loc, f"{k} does not occur in the exported dict")
                covers(R, D, leaves(D, a), want, loc, "export keeps")
                loc = anchor_loc(D, anch, "from_dict")
                o = D.call_value(D.E.attr(D.cls_term(anch), "from_dict", D.st), d)
                if o.op != "obj":
                    R.undecided("import", loc, T.show(o, 200))
                    R.absorb(D.E)
                    continue
                R.holds("kind", D.E.objcls[o.args[0]].name == anch, loc, f"import yields a {D.E.objcls[o.args[0]].name}")
                if whole:
                    ds = obj_field(D, o, "discretization_state")
                    if ds is None or ds.op != "obj":
                        R.undecided("kind of discretization state", loc, T.show(ds, 200))
                        continue
                    R.holds("kind of discretization state", D.E.objcls[ds.args[0]].name == disc_cls(emb), loc, f"import yields a {D.E.objcls[ds.args[0]].name}")
                got = leaves(D, o)
                for k in want:
                    if k not in got:
                        R.fail(f"imports {k}", loc, "field missing in the imported state")
                        continue
                    R.same(f"round trip {k}", D.val(got[k]), want[k], loc, dims=D.dims)
                R.absorb(D.E)


def exported(t):
    """names of the symbols occurring in a term"""
    return {x.args[0] for x in T.subterms(t) if x.op == "sym"}
