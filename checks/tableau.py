"""C19, C20: shipped tableaux, validation and classification of tableaux."""

from __future__ import annotations

from fractions import Fraction
from itertools import combinations_with_replacement

from sa import terms as T
from sa.drive import Drive
from sa.evalt import Model, Reject, Undecided, num
from sa.interp import Dead
from sa.report import Anchor
from sa.terms import NONE, ONE, ZERO, const, mk
from .rk import Bad, anchor_loc, decide, need
from .control import attr

SHIPPED = """explicit_euler implicit_euler implicit_midpoint third_order_two_stage_sdirk runge_kutta_four
fifth_order_five_stage_sdirk embedded_heun_euler embedded_second_order_two_stage_sdirk
embedded_second_order_three_stage_esdirk embedded_third_order_three_stage_sdirk1
embedded_third_order_three_stage_sdirk2 embedded_third_order_three_stage_esdirk
embedded_third_order_four_stage_sdirk embedded_third_order_second_weak_stage_order_four_stage_dirk
embedded_third_order_third_weak_stage_order_four_stage_dirk embedded_third_order_four_stage_esdirk
embedded_third_order_five_stage_esdirk embedded_fourth_order_four_stage_sdirk
embedded_fourth_order_five_stage_sdirk embedded_fourth_order_five_stage_esdirk
embedded_fourth_order_six_stage_esdirk embedded_fourth_order_third_weak_stage_order_six_stage_dirk
embedded_runge_kutta_fehlberg embedded_fifth_order_six_stage_esdirk""".split()

# order and embedded order of the shipped schemes, as published
ORDERS = {"first": 1, "second": 2, "third": 3, "fourth": 4, "fifth": 5}


def trees(order):
    """rooted trees with the given number of nodes, as sorted tuples of subtrees"""
    if order == 1:
        return [()]
    out = set()

    def parts(n, big):
        if n == 0:
            yield ()
            return
        for k in range(min(n, big), 0, -1):
            for rest in parts(n - k, k):
                yield (k,) + rest

    def build(p):
        if not p:
            yield ()
            return
        for t in trees(p[0]):
            for rest in build(p[1:]):
                yield (t,) + rest

    for p in parts(order - 1, order - 1):
        for b in build(p):
            out.add(tuple(sorted(b)))
    return sorted(out)


def size(t):
    return 1 + sum(size(x) for x in t)


def density(t):
    d = size(t)
    for x in t:
        d *= density(x)
    return d


def weights(t, A):
    """elementary weight vector of a tree"""
    s = len(A)
    out = [Fraction(1)] * s
    for x in t:
        w = weights(x, A)
        v = [sum(A[i][j] * w[j] for j in range(s)) for i in range(s)]
        out = [a * b for a, b in zip(out, v)]
    return out


def exact(v):
    """coefficients as rationals (floats are exact rationals of the folded value)"""
    if isinstance(v, list):
        return [exact(x) for x in v]
    v = num(v)
    return Fraction(v)


def order_conditions(A, b, p):
    """worst defect of the order conditions up to order p, and where"""
    worst = (0.0, None)
    for q in range(1, p + 1):
        for t in trees(q):
            w = weights(t, A)
            d = abs(float(sum(x * y for x, y in zip(b, w)) - Fraction(1, density(t))))
            if d > worst[0]:
                worst = (d, (q, t))
    return worst


def found(D):
    """names of all module level tableaux of the package"""
    names = []
    for m in D.pkg.modules.values():
        if not m.name.startswith("rkopenmdao"):
            continue
        for n in m.env:
            if n.startswith("_") or n in names or m.env[n][0] in ("class", "func"):
                continue
            try:
                v = D.E.module_name(m, n)
            except (Dead, Anchor):
                continue
            if isinstance(v, T.T) and v.op == "obj" and D.E.is_subclass(D.E.objcls[v.args[0]], D.cls("ButcherTableau")):
                names.append((n, v, m))
    return names


def c19(R, root):
    D = Drive(root)
    D.cls("ButcherTableau")
    have = {n: (v, m) for n, v, m in found(D)}
    for n in SHIPPED:
        if n not in have:
            raise Anchor(f"tableau {n} not found")
    R.absorb(D.E)
    m = Model("c19")
    for n, (o, mod) in have.items():
        with R.group(n):
            loc = f"{mod.name.replace('.', '/')}.py: {n}"
            st = D.st
            try:
                val = {}
                emb = D.E.is_subclass(D.E.objcls[o.args[0]], D.cls("EmbeddedButcherTableau"))
                for k in ["butcher_matrix", "butcher_weight_vector", "butcher_time_stages", "p"] + (["butcher_adaptive_weights", "phat"] if emb else []):
                    val[k] = exact(m(attr(D, o, k)))
            except (Undecided, Reject) as x:
                R.undecided("coefficients", loc, str(x))
                continue
            A, b, c = val["butcher_matrix"], val["butcher_weight_vector"], val["butcher_time_stages"]
            s = len(b)
            R.holds("square and matching sizes", len(A) == s and all(len(r) == s for r in A) and len(c) == s, loc, f"{len(A)} x {[len(r) for r in A]}, {s}, {len(c)}")
            if not (len(A) == s and all(len(r) == s for r in A) and len(c) == s):
                continue
            for i in range(s):
                d = abs(float(sum(A[i]) - c[i]))
                R.holds(f"row sum {i + 1}", d <= 1e-10, loc, f"row {i + 1} of the matrix sums to {float(sum(A[i])):.15g}, time stage is {float(c[i]):.15g}")
            up = [(i, j) for i in range(s) for j in range(i + 1, s) if A[i][j] != 0]
            R.holds("explicit or diagonally implicit", not up, loc, f"non-zero entries above the diagonal: {up}")
            p = int(val["p"])
            d, w = order_conditions(A, b, p)
            R.holds(f"order {p}", d <= 1e-10, loc, f"order condition of tree {w} violated by {d:.3g}")
            name = [v for k, v in ORDERS.items() if k in n.split("_")[:2]]
            if name and n in SHIPPED:
                R.holds("declares the order of its name", p == name[0], loc, f"declared order {p}")
            if emb:
                bh, ph = val["butcher_adaptive_weights"], int(val["phat"])
                R.holds("embedded weights match in size", len(bh) == s, loc)
                if len(bh) != s:
                    continue
                d, w = order_conditions(A, bh, ph)
                R.holds(f"embedded order {ph}", d <= 1e-10, loc, f"order condition of tree {w} violated by {d:.3g}")
                R.holds("main and embedded weights differ", any(abs(float(x - y)) > 1e-9 for x, y in zip(b, bh)), loc)


# ------------------------------------------------------------------------------ C20

def construct(D, emb, stages=True):
    d = {k: D.dim("n_" + k) for k in ("r", "c", "w", "t", "e")}
    A, b, c = T.sym("A", (d["r"], d["c"])), T.sym("b", (d["w"],)), T.sym("c", (d["t"],))
    sy = {"A": A, "b": b, "c": c, "p": D.scalar("p")}
    kw = dict(
        butcher_matrix=D.E.new_array(A, (d["r"], d["c"]), D.st),
        butcher_weight_vector=D.E.new_array(b, (d["w"],), D.st),
        butcher_time_stages=D.E.new_array(c, (d["t"],), D.st) if stages else NONE,
        p=sy["p"],
    )
    if emb:
        sy["e"] = T.sym("b_hat", (d["e"],))
        sy["ph"] = D.scalar("phat")
        kw["butcher_adaptive_weights"] = D.E.new_array(sy["e"], (d["e"],), D.st)
        kw["phat"] = sy["ph"]
    n0 = len(D.E.effects)
    t = D.new("EmbeddedButcherTableau" if emb else "ButcherTableau", **kw)
    return t, d, sy, D.E.effects[n0:]


def arr(r, *shp):
    if not shp:
        return Fraction(r.randint(-9, 9), 8)
    return [arr(r, *shp[1:]) for _ in range(shp[0])]


def validation(R, root, emb, stages):
    cname = "EmbeddedButcherTableau" if emb else "ButcherTableau"
    with R.group(f"{cname}[{'time stages given' if stages else 'no time stages'}]"):
        D = Drive(root)

        def warn(E, st, f, recv, args, kwargs, node):
            E.effect(st, "call", "warn", None, (), node=node)
            return NONE

        D.E.hooks["ext:warnings.warn"] = warn
        loc = anchor_loc(D, cname, "__init__")
        try:
            t, d, sy, effs = construct(D, emb, stages)
        except Dead:
            R.undecided("construction", loc, "no normal return")
            return
        R.absorb(D.E)
        raises = D.raises()
        warns = [e for e in effs if e.name == "warn"]

        def model(m):
            r = m.rng
            s = r.randint(1, 3)
            v = {"r": s, "c": s, "w": s, "t": s, "e": s}
            bad = None
            if r.random() < 0.6:
                bad = r.choice(["r", "c", "w"] + (["t"] if stages else []) + (["e"] if emb else []))
                v[bad] = r.choice([x for x in (1, 2, 3, 4) if x != s])
            for k, x in v.items():
                m.fixed[d[k]] = Fraction(x)
            A = arr(r, v["r"], v["c"])
            c = [sum(row, Fraction(0)) for row in A]
            c = (c + arr(r, 8))[: v["t"]]
            b = arr(r, v["w"])
            b[-1] += 1 - sum(b)
            dev_b = dev_c = False
            if bad is None:
                if r.random() < 0.4:
                    dev_b = True
                    b[r.randrange(s)] += r.choice([-1, 1]) * Fraction(1, 100)
                if stages and r.random() < 0.5:
                    dev_c = True
                    x = r.choice([-1, 1]) * r.choice([Fraction(1, 100), Fraction(1, 1000), Fraction(3)])
                    i = r.randrange(s)
                    c[i] += x
                    if s > 1 and r.random() < 0.4:
                        # opposite deviations of two rows
                        c[(i + 1) % s] -= x
            m.fixed.update({sy["A"]: A, sy["b"]: b, sy["c"]: c})
            if emb:
                m.fixed[sy["e"]] = arr(r, v["e"])
            m.memo.clear()

            def hit(g):
                # a shape error inside a condition is an error raised by numpy
                try:
                    return all(m.truth(x) for x in g)
                except Reject:
                    return bad is not None

            got = any(hit(x.st.pc) for x in raises)
            need("mismatching sizes are rejected with an error, matching ones accepted", loc, got, bad is not None)
            if bad is None:
                w = any(all(m.truth(g) for g in e.guard) for e in warns)
                need("warns iff the weights or a row sum deviate", warns[0].where() if warns else loc, w, dev_b or dev_c)
                need("matrix is kept", loc, m(D.field(t, "butcher_matrix")), A)
                need("weights are kept", loc, m(D.field(t, "butcher_weight_vector")), b)
                need("time stages", loc, m(D.field(t, "butcher_time_stages")), c if stages else [sum(row, Fraction(0)) for row in A])
                if emb:
                    need("embedded weights are kept", loc, m(D.field(t, "butcher_adaptive_weights")), m.fixed[sy["e"]])

        decide(R, D, "validation", model, need_models=30, n=150)


def sparse(m, s):
    """matrices of every structure"""
    r = m.rng
    kind = r.choice(["e", "d", "d1", "i", "i", "i1", "any"])
    A = [[Fraction(0)] * s for _ in range(s)]
    for i in range(s):
        for j in range(s):
            x = Fraction(r.choice([-3, -1, 1, 2, 5]), r.choice([1, 4, 1000, 10**9, 10**17]))
            if j < i and r.random() < 0.7:
                A[i][j] = x
            if j == i and kind in ("d", "i") and r.random() < 0.8:
                A[i][j] = x
            if j > i and kind == "i" and r.random() < 0.6:
                A[i][j] = x
            if kind == "any" and r.random() < 0.2:
                A[i][j] = x
    if r.random() < 0.4 and s > 1:
        # entries that cancel in sums
        cells = [(i, j) for i in range(s) for j in range(s) if kind == "i" or j < i or j == i and kind in ("d", "any")]
        if kind in ("d", "i", "any") and r.random() < 0.5:
            cells = [(i, i) for i in range(s)]
        elif kind == "i" and r.random() < 0.5:
            cells = [(i, j) for i, j in cells if j > i]
        A = [[A[i][j] if j < i else Fraction(0) for j in range(s)] for i in range(s)]
        if len(cells) > 1:
            (a, b), (c, d) = r.sample(cells, 2)
            line = r.choice([0, 0, 1, None])  # within a row, within a column, anywhere
            same = [q for q in cells if line is not None and q[line] == (a, b)[line] and q != (a, b)]
            if same:
                c, d = r.choice(same)
            x = r.choice([Fraction(1, 2), Fraction(-3), Fraction(1, 7)])
            A[a][b], A[c][d] = x, -x
    k = r.randrange(s)
    if kind == "d1":
        A[k][k] = Fraction(1, 3)
    if kind == "i1" and s > 1:
        a, b = sorted(r.sample(range(s), 2))
        A[a][b] = r.choice([Fraction(1, 3), Fraction(-1, 10**7), Fraction(1, 10**17)])
    return A


def classification(R, root, emb):
    cname = "EmbeddedButcherTableau" if emb else "ButcherTableau"
    with R.group(f"{cname} classification"):
        D = Drive(root)
        s = D.s = D.dim("n_stages")
        t = D.tableau(emb)
        got = {k: D.val(D.call(t, k)) for k in ("is_explicit", "is_diagonally_implicit", "is_implicit", "number_of_stages", "min_p_order")}
        got["p"] = attr(D, t, "p")
        got["is_embedded"] = attr(D, t, "is_embedded")
        got["len"] = D.val(D.call(t, "__len__"))
        if emb:
            got["phat"] = attr(D, t, "phat")
        R.absorb(D.E)
        L = {k: anchor_loc(D, cname, k if k != "len" else "__len__") for k in got}

        def model(m):
            n = m.rng.randint(1, 4)
            m.fixed[s] = Fraction(n)
            A = sparse(m, n)
            m.fixed[D.A] = A
            m.fixed[T.sym("p_order", ())] = Fraction(m.rng.randint(1, 6))
            if emb:
                m.fixed[T.sym("phat_order", ())] = Fraction(m.rng.randint(1, 6))
            m.memo.clear()
            ex = all(A[i][j] == 0 for i in range(n) for j in range(i, n))
            lo = all(A[i][j] == 0 for i in range(n) for j in range(i + 1, n))
            need("explicit iff nothing on or above the diagonal", L["is_explicit"], m.truth(got["is_explicit"]), ex)
            need("diagonally implicit iff not explicit and nothing above the diagonal", L["is_diagonally_implicit"], m.truth(got["is_diagonally_implicit"]), lo and not ex)
            need("implicit otherwise", L["is_implicit"], m.truth(got["is_implicit"]), not lo)
            need("number of stages", L["number_of_stages"], m(got["number_of_stages"]), Fraction(n))
            need("length", L["len"], m(got["len"]), Fraction(n))
            p = m(T.sym("p_order", ()))
            need("order", L["p"], m(got["p"]), p)
            need("is_embedded", L["is_embedded"], m.truth(got["is_embedded"]), emb)
            if emb:
                ph = m(T.sym("phat_order", ()))
                need("embedded order", L["phat"], m(got["phat"]), ph)
                need("minimal order", L["min_p_order"], m(got["min_p_order"]), min(p, ph))
            else:
                need("minimal order", L["min_p_order"], m(got["min_p_order"]), p)

        decide(R, D, "classification", model, need_models=30, n=400)


def derived(R, root):
    with R.group("EmbeddedButcherTableau derived tableaux"):
        D = Drive(root)
        s = D.s = D.dim("n_stages")
        t = D.tableau(True)
        p, ph = T.sym("p_order", ()), T.sym("phat_order", ())
        for name, b, q in (("main_method", D.b, p), ("embedded_method", D.bh, ph)):
            loc = anchor_loc(D, "EmbeddedButcherTableau", name)
            x = D.E.attr(t, name, D.st)
            D.st.pc = ()
            if x.op != "obj":
                R.undecided(name, loc, T.show(x, 100))
                continue
            R.same(f"{name} matrix", D.field(x, "butcher_matrix"), D.A, loc, dims=D.dims)
            R.same(f"{name} weights", D.field(x, "butcher_weight_vector"), b, loc, dims=D.dims)
            R.same(f"{name} time stages", D.field(x, "butcher_time_stages"), D.c, loc, dims=D.dims)
            R.same(f"{name} order", attr(D, x, "p"), q, loc)
            R.holds(f"{name} is not embedded", D.E.objcls[x.args[0]] is D.cls("ButcherTableau"), loc)
        t0 = D.tableau(False)
        A2, b2, c2 = D.A, D.b, D.c
        e = D.array("new_weights", s)
        q = D.scalar("new_phat")
        loc = anchor_loc(D, "EmbeddedButcherTableau", "from_butchertableau")
        x = D.call_value(D.E.attr(D.cls_term("EmbeddedButcherTableau"), "from_butchertableau", D.st), t0, e, phat=q)
        if x.op != "obj":
            R.undecided("from_butchertableau", loc, T.show(x, 100))
            return
        R.absorb(D.E)
        for k, w in (("butcher_matrix", A2), ("butcher_weight_vector", b2), ("butcher_time_stages", c2), ("butcher_adaptive_weights", T.sym("new_weights", (s,)))):
            R.same(f"from_butchertableau {k}", D.field(x, k), w, loc, dims=D.dims)
        R.same("from_butchertableau order", attr(D, x, "p"), p, loc)
        R.same("from_butchertableau embedded order", attr(D, x, "phat"), q, loc)


def c20(R, root):
    for emb in (False, True):
        for stages in (True, False):
            validation(R, root, emb, stages)
        classification(R, root, emb)
    derived(R, root)
    refuses(R, root)


def refuses(R, root):
    """the integrator refuses fully implicit tableaux"""
    try:
        from . import integ
    except ImportError:
        return
    integ.refuses_implicit(R, root)
