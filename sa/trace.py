"""Expansion of effect summaries in a model: the ordered list of interactions."""

from __future__ import annotations

from . import terms as T
from .evalt import Reject, Undecided


def expand(m, effects, bind=None, depth=0):
    """[(effect, bind)] in program order; loops are unrolled over their evaluated domains"""
    bind = bind or {}
    out = []
    i = 0
    effects = list(effects)
    while i < len(effects):
        e = effects[i]
        if len(e.loops) <= depth:
            ok = True
            for g in e.guard:
                if not m.truth(g, bind):
                    ok = False
                    break
            if ok:
                out.append((e, dict(bind)))
            i += 1
            continue
        lid = e.loops[depth][2]
        j = i
        while j < len(effects) and len(effects[j].loops) > depth and effects[j].loops[depth][2] == lid:
            j += 1
        bv, dom, _ = e.loops[depth]
        for k in (m.loop_seq(lid, dom, bind) if lid in T.LOOPS and (T.LOOPS[lid].stops or dom.op == "while") else m.seq(dom, bind)):
            out += expand(m, effects[i:j], {**bind, bv: k}, depth + 1)
        i = j
    return out


def arg(D, m, eb, k, name=None):
    """evaluated argument of an expanded effect (objects materialised in the effect's state)"""
    e, b = eb
    if name is not None and name in e.kwargs:
        v = e.kwargs[name]
    elif k is not None and k < len(e.args):
        v = e.args[k]
    else:
        return None
    v = D.E.materialize(D.E.deref(v, e.state()), e.state())
    return m.ev(v, b)


def argterm(D, e, k, name=None):
    if name is not None and name in e.kwargs:
        v = e.kwargs[name]
    elif k is not None and k < len(e.args):
        v = e.args[k]
    else:
        return None
    return D.E.materialize(D.E.deref(v, e.state()), e.state())
