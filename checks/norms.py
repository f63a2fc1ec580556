"""C23: norms of states and error measures."""

from __future__ import annotations

from fractions import Fraction

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Fails, Reject, _norm, num, same
from sa.interp import Dead
from sa.terms import NONE, ONE, ZERO, const, mk
from .ode import CLS, Ode
from .rk import Bad, anchor_loc, decide, need

INF = mk("ext", "inf")
ORDERS = {"2": const(2), "default": None, "1": ONE, "3": const(3), "5/2": const(Fraction(5, 2)), "1/2": const(Fraction(1, 2)), "-1": T.neg(ONE), "0": ZERO, "inf": INF, "-inf": T.neg(INF)}
VALUE = {"default": Fraction(2), "inf": float("inf"), "-inf": float("-inf"), "5/2": Fraction(5, 2), "1/2": Fraction(1, 2)}
RANKS = 3


def norm_of_state(R, root, order, exclusions, dist, names=()):
    with R.group(f"order {order}, excluded {exclusions and list(exclusions)}, distributed {sorted(dist)}"):
        kw = {}
        if ORDERS[order] is not None:
            kw["norm_order"] = ORDERS[order]
        if exclusions is not None:
            kw["norm_exclusions"] = list(exclusions)
        O = Ode(root, dist=dist, names=names, **kw)
        D, E = O.D, O.E
        x = T.sym("x", (O.n,))
        others = [T.sym(f"x_on_rank{k}", (O.n,)) for k in range(1, RANKS)]

        def reduce(E, st, f, recv, a, k, node):
            a = list(a) + list(k.values())
            if len(a) > 1 and E.deref(a[1], st).op == "ite":
                o = E.deref(a[1], st)
                return T.ite(o.args[0], reduce(E, st, f, recv, [a[0], o.args[1]], {}, node), reduce(E, st, f, recv, [a[0], o.args[2]], {}, node))
            v = E.materialize(E.deref(a[0], st), st)
            op = T.show(a[1], 80) if len(a) > 1 else "SUM"
            vs = [v] + [T.subst(v, {x: o}) for o in others]
            E.effect(st, "call", "allreduce", recv, (v,), node=node)
            if "SUM" in op:
                return T.add(*vs)
            name = "max" if "MAX" in op else "min" if "MIN" in op else None
            if name is None:
                return E.unk("reduction " + op, node)
            return E.call(mk("ext", name), vs, {}, st, node)

        E.hooks["ext:allreduce"] = reduce
        st = D.new("DiscretizedODEResultState", stage_update=D.array("unused1", O.n), stage_state=E.new_array(x, (O.n,), D.st), independent_output=D.array("unused2", ZERO))
        loc = anchor_loc(D, CLS, "compute_state_norm")
        try:
            got = E.materialize(E.deref(D.call(O.o, "compute_state_norm", st), D.st), D.st)
        except Dead:
            R.fail("norm is computed", loc, "raises")
            return
        R.absorb(E)

        def model(m):
            n = int(m(O.n))
            rnd = m.rng
            val = [Fraction(rnd.randint(-9, 9) or 4) for _ in range(n)]
            if order in ("0", "2") and n:
                val[rnd.randrange(n)] = Fraction(0)
                if rnd.random() < 0.2:
                    val = [Fraction(0)] * n
            per = [val]
            for _ in others:
                w = list(val)
                for nm, sh, inp, loc_, lo, hi in O.tq:
                    if nm in dist:
                        for i in range(int(m(lo)), int(m(hi))):
                            w[i] = Fraction(rnd.randint(-9, 9) or 5)
                per.append(w)
            for s, v in zip([x] + others, per):
                m.fixed[s] = v
            m.memo.clear()
            try:
                g = m(got)
            except Fails as e:
                raise Bad("norm is defined", loc, str(e)) from e
            full = []
            for nm, sh, inp, loc_, lo, hi in O.tq:
                if nm in (exclusions or ()):
                    continue
                lo, hi = int(m(lo)), int(m(hi))
                for w in (per if nm in dist else per[:1]):
                    full += w[lo:hi]
            if not full:
                if order in ("inf", "-inf"):
                    return
                want = Fraction(0)
            else:
                want = _norm(full, {"ord": VALUE.get(order) if order in VALUE else Fraction(int(order))})
            need("norm of the whole state vector", loc, g, want)

        decide(R, D, "norm", model, n=12)


def measures(R, root):
    for cname in ("SimpleErrorMeasurer", "ImprovedErrorMeasurer"):
        for given in ((False, True) if cname.startswith("I") else (False,)):
            with R.group(cname + (" with parameters" if given else "")):
                D = Drive(root)
                E = D.E
                D.sizes()
                ode = T.sym("ode")

                def norm(E, st, f, recv, a, k, node):
                    o = (list(a) + list(k.values()))[0]
                    v = D.field(o, "stage_state", st)
                    return mk("app", "norm", (), (v,))

                E.hooks["ext:compute_state_norm"] = norm
                eta, eps = (D.scalar("eta"), D.scalar("eps")) if given else (const(Fraction(1, 10**6)),) * 2
                kw = dict(eta=eta, eps=eps) if given else {}
                o = D.new(cname, **kw)
                st = [D.new("DiscretizedODEResultState", stage_update=D.array(t + ".u", D.n), stage_state=D.array(t, D.n), independent_output=D.array(t + ".o", D.q)) for t in ("estimate", "state")]
                got = E.materialize(E.deref(D.call(o, "get_measure", st[0], st[1], ode), D.st), D.st)
                R.absorb(E)
                ne, ns = (mk("app", "norm", (), (T.sym(t, (D.n,)),)) for t in ("estimate", "state"))
                want = ne if cname.startswith("S") else T.div(ne, T.add(ns, T.div(eta, eps)))
                R.same("measure", got, want, anchor_loc(D, cname, "get_measure"), dims=D.dims)


def c23(R, root):
    for o in ORDERS:
        for excl, dist in ((None, {"c", "d"}), (("b",), {"c", "d"}), (("aa", "dd", "x"), {"c"}), (("d",), {"c", "d", "a"}), (("a", "c", "b"), {"d"}), ((), set())):
            norm_of_state(R, root, o, excl, dist)
    with R.group("names that are parts of others"):
        for names, excl in (({"b": "ac", "d": "ca"}, ("a",)), ({"b": "ac", "d": "ca"}, ("c",)), ({"a": "b1", "d": "1b"}, ("b",))):
            norm_of_state(R, root, "2", excl, {"ca"}, names)
    measures(R, root)
    from .integ import one_step

    with R.group("adaptive step"):
        one_step(R, root, "step", emb=True, adaptive=True, timed=True)
