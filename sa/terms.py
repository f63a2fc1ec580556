"""Value-graph terms in normal form.

Every abstract value of the analysis is a hash-consed term ``T``.  Numeric terms are kept
as polynomials (rational coefficients, symbolic exponents) over opaque atoms; reductions,
array maps and stores have binders that are closed canonically, so that two terms that
denote the same polynomial/reduction expression are the same object.
"""

from __future__ import annotations

from fractions import Fraction
from typing import Callable, Iterable, Optional

_TABLE: dict = {}
_NEXT = [0]


class T:
    __slots__ = ("op", "args", "id", "_depth", "_bvs")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


def _key(a):
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    if isinstance(a, T):
        return a
    return (type(a).__name__, a)


def mk(op: str, *args) -> T:
    k = (op, _key(args))
    t = _TABLE.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _NEXT[0]
        t._depth = None
        t._bvs = None
        _NEXT[0] += 1
        _TABLE[k] = t
    return t


LOOPS: dict = {}  # loop id -> LoopInfo (recurrences of the headers)


def reset():
    """Forget all shapes (terms themselves may be shared between runs)."""
    SHAPES.clear()
    HDR_SHAPES.clear()
    ATTR_SHAPES.clear()
    LOOPS.clear()
    for memo in (_NOT, _AND, _OR, _POS):
        memo.clear()


# ----------------------------------------------------------------------------- leaves


def const(v) -> T:
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("const", v)
    if isinstance(v, (int, Fraction)):
        return mk("num", Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("ext", "inf") if v == float("inf") else mk("sym", repr(v))
        return mk("num", Fraction(repr(v)))
    return mk("const", repr(v))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)
FULL = mk("slice", NONE, NONE, NONE)


def sym(name: str, shape=None) -> T:
    t = mk("sym", name)
    if shape is not None:
        SHAPES[t] = tuple(shape)
    return t


COUNT = "#count:"  # prefix of symbols that stand for any count from one on
INTS: set = set()  # symbols that denote whole numbers


def integral(v) -> bool:
    """v denotes a whole number"""
    if v.op == "num":
        return v.args[0].denominator == 1
    if v.op in ("bv", "bvc", "len", "domlen"):
        return True
    if v.op == "sym":
        return v in INTS
    if v.op == "poly":
        return all(c.denominator == 1 and all(integral(a) and e.op == "num" and e.args[0].denominator == 1 and e.args[0] > 0 for a, e in m) for m, c in v.args[0])
    if v.op == "call" and v.args[0].op == "ext":
        return v.args[0].args[0] == "int" or (v.args[0].args[0] in ("numpy.prod", "math.prod") and integral(v.args[1][0]))
    if v.op == "tuple":
        return all(integral(x) for x in v.args[0])
    if v.op == "ite":
        return integral(v.args[1]) and integral(v.args[2])
    if v.op == "item":
        return v.args[0] in INTS
    return False


_FRESH = [0]


def fresh_bv() -> T:
    _FRESH[0] += 1
    return mk("bv", _FRESH[0])


def is_num(t) -> bool:
    return t.op == "num"


def numval(t) -> Optional[Fraction]:
    if t.op == "num":
        return t.args[0]
    if t is TRUE:
        return Fraction(1)
    if t is FALSE:
        return Fraction(0)
    return None


# ------------------------------------------------------------------- generic traversal


def children(a) -> Iterable[T]:
    if isinstance(a, T):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from children(x)


def subterms(t: T) -> Iterable[T]:
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x.args))


def contains(t: T, x: T) -> bool:
    return any(s is x for s in subterms(t))


def contains_any(t: T, xs) -> bool:
    xs = set(xs)
    return any(s in xs for s in subterms(t))


def contains_op(t: T, ops) -> bool:
    return any(s.op in ops for s in subterms(t))


def depth_of(t: T) -> int:
    if t._depth is None:
        d = 0
        if t.op == "bvc":
            d = t.args[0]
        for c in children(t.args):
            d = max(d, depth_of(c))
        t._depth = d
    return t._depth


def subst(t: T, mapping: dict, memo=None) -> T:
    if memo is None:
        memo = {}
    if t in mapping:
        return mapping[t]
    r = memo.get(t)
    if r is not None:
        return r

    def go(a):
        if isinstance(a, T):
            return subst(a, mapping, memo)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a

    new = go(t.args)
    if _same(new, t.args):
        r = t
    else:
        r = rebuild(t.op, new)
        if t in SHAPES and r not in SHAPES and r.op in ("sym", "res", "call", "attr"):
            SHAPES[r] = tuple(subst(s, mapping, memo) for s in SHAPES[t])
    memo[t] = r
    return r


def _same(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, T):
        return a is b
    return a == b


def rebuild(op, args) -> T:
    f = _REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


# ---------------------------------------------------------------------------- shapes

SHAPES: dict = {}
# shape of a loop variable in any round of its loop
HDR_SHAPES: dict = {}
ATTR_SHAPES: dict = {}
AREF_SHAPE: Callable = lambda aid: None


def shape(t: T):
    """Tuple of dimension terms, or None if unknown."""
    if t in SHAPES:
        return SHAPES[t]
    op = t.op
    if op in ("num", "bv", "bvc"):
        return ()
    if op == "hdr":
        return HDR_SHAPES.get(t.args[:2])
    if op == "aref":
        s = AREF_SHAPE(t.args[0])
        if s is None:
            return None
        return index_shape(s, t.args[1])
    if op == "item":
        s = shape(t.args[0])
        if s is None:
            return None
        return index_shape(s, t.args[1])
    if op == "poly":
        best = ()
        for mono, _ in t.args[0]:
            for atom, _e in mono:
                s = shape(atom)
                if s is None:
                    return None
                if len(s) > len(best):
                    best = s
                elif len(s) == len(best) and ONE in best and s != best:
                    best = tuple(y if x is ONE else x for x, y in zip(best, s))
        return best
    if op == "full":
        return tuple(t.args[1])
    if op == "app":
        return tuple(t.args[1]) if t.args[1] is not None else None
    if op == "sum":
        return shape(t.args[1])
    if op == "amap":
        s = shape(t.args[1])
        return None if s is None else (dom_len(t.args[0]),) + s
    if op in ("store", "mapstore", "roll"):
        return shape(t.args[0])
    if op == "ite":
        a, b = shape(t.args[1]), shape(t.args[2])
        if a and b and len(a) == len(b) and any(numval(x) is not None and numval(y) is not None and x is not y for x, y in zip(a, b)):
            return None
        return a if a is not None else b
    if op == "attr":
        return ATTR_SHAPES.get(t.args[1])
    if op in ("gt0", "ge0", "and", "or", "not", "any", "eq", "isinst", "in", "truth", "abs1"):
        return () if op not in ("gt0", "ge0", "eq") else _bool_shape(t)
    if op in ("max", "min", "abs"):
        best = ()
        for c in children(t.args):
            s = shape(c)
            if s is None:
                return None
            if len(s) > len(best):
                best = s
        return best
    if op == "tuple":
        if not t.args[0]:
            return (ZERO,)
        s = shape(t.args[0][0])
        return None if s is None else (const(len(t.args[0])),) + s
    if op == "transpose":
        s = shape(t.args[0])
        return None if s is None else tuple(reversed(s))
    if op == "flat":
        s = shape(t.args[0])
        if s is not None and len(s) == 1:
            return s
        return None
    if op == "diml":
        return ()
    return None


def _bool_shape(t):
    for c in children(t.args):
        s = shape(c)
        if s is None:
            return None
        if s:
            return s
    return ()


def index_shape(s, idx):
    out = []
    pos = 0
    idx = list(idx)
    if any(i is const(Ellipsis) for i in idx):
        k = [n for n, i in enumerate(idx) if i is const(Ellipsis)][0]
        nreal = sum(1 for i in idx if i is not NONE) - 1
        idx[k : k + 1] = [FULL] * max(0, len(s) - nreal)
    for i in idx:
        if i is NONE:
            out.append(ONE)
            continue
        if pos >= len(s):
            return None
        if i.op == "slice":
            out.append(slice_len(i, s[pos]))
        else:
            isx = shape(i)
            if isx is None or len(isx) > 0:
                return None
        pos += 1
    out.extend(s[pos:])
    return tuple(out)


def slice_len(sl, dim):
    lo, hi, st = sl.args
    if st is not NONE and st is not ONE:
        return mk("slen", sl, dim)
    lo = ZERO if lo is NONE else lo
    hi = dim if hi is NONE else hi
    if numval(hi) is not None and numval(hi) < 0:
        hi = add(dim, hi)
    if numval(lo) is not None and numval(lo) < 0:
        lo = add(dim, lo)
    return sub(hi, lo)


def dim(t: T, axis: int) -> T:
    s = shape(t)
    if s is None or axis >= len(s):
        return mk("diml", t, axis)
    return s[axis]


# ------------------------------------------------------------------------ polynomials


def _poly_of(t: T):
    """dict mono -> Fraction"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, ONE),): Fraction(1)}


def _mono_key(m):
    return tuple((a.id, e.id) for a, e in m)


def _from_poly(p: dict) -> T:
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] is ONE:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: _mono_key(mc[0])))
    return mk("poly", items)


def add(*ts: T) -> T:
    p: dict = {}
    for t in ts:
        for m, c in _poly_of(t).items():
            p[m] = p.get(m, Fraction(0)) + c
    return _from_poly(p)


def neg(t: T) -> T:
    return scale(t, Fraction(-1))


def scale(t: T, c: Fraction) -> T:
    return _from_poly({m: k * c for m, k in _poly_of(t).items()})


def sub(a: T, b: T) -> T:
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d: dict = {}
    for a, e in m1 + m2:
        d[a] = add(d[a], e) if a in d else e
    out = []
    extra = []
    for a, e in d.items():
        if e is ZERO:
            continue
        if a.op == "poly" and is_num(e) and e.args[0].denominator == 1 and e.args[0] > 0:
            extra.append(power(a, e))
            continue
        if a.op == "num" and is_num(e) and e.args[0].denominator == 1:
            extra.append(const(a.args[0] ** int(e.args[0])))
            continue
        out.append((a, e))
    out.sort(key=lambda ae: (ae[0].id, ae[1].id))
    return tuple(out), extra


def mul(*ts: T) -> T:
    acc = {(): Fraction(1)}
    for t in ts:
        p = _poly_of(t)
        new: dict = {}
        for m1, c1 in acc.items():
            for m2, c2 in p.items():
                m, extra = _mono_mul(m1, m2)
                if extra:
                    e = mul(*extra)
                    for m3, c3 in _poly_of(e).items():
                        mm, ex2 = _mono_mul(m, m3)
                        if ex2:
                            mm = m + m3
                        new[mm] = new.get(mm, Fraction(0)) + c1 * c2 * c3
                else:
                    new[m] = new.get(m, Fraction(0)) + c1 * c2
        acc = new
    return _from_poly(acc)


def div(a: T, b: T) -> T:
    if is_num(b) and b.args[0] == 0:
        return mk("divzero", a)
    return mul(a, power(b, const(-1)))


def power(b: T, e: T) -> T:
    if e is ZERO:
        return ONE
    if e is ONE:
        return b
    ev = numval(e)
    bv = numval(b)
    if bv is not None:
        if ev is not None and ev.denominator == 1:
            if bv == 0 and ev < 0:
                return mk("divzero", ONE)
            return const(bv ** int(ev))
        if bv == 1:
            return ONE
        if bv == 0 and ev is not None and ev > 0:
            return ZERO
        return _from_poly({((mk("num", bv), e),): Fraction(1)})
    if b.op == "ite" and False:
        pass
    p = _poly_of(b)
    if len(p) == 1:
        (m, c), = p.items()
        out = [power(mk("num", c), e)] if c != 1 else []
        for a, ex in m:
            ne = mul(ex, e)
            if is_num(ne) and ne.args[0].denominator == 1 and ne.args[0] > 0 and a.op == "poly":
                out.append(power(a, ne))
            elif ne is not ZERO:
                out.append(_from_poly({((a, ne),): Fraction(1)}))
        return mul(*out) if out else ONE
    if ev is not None and ev.denominator == 1 and 0 < ev <= 8:
        r = ONE
        for _ in range(int(ev)):
            r = mul(r, b)
        return r
    # multi-term base: make it monic (for integer exponents) so that scalings cancel
    if ev is not None and ev.denominator == 1:
        lead = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))[-1][1]
        if lead != 1:
            monic = scale(b, 1 / lead)
            return mul(const(lead ** int(ev)), _from_poly({((monic, e),): Fraction(1)}))
    return _from_poly({((b, e),): Fraction(1)})


def ratio(t: T):
    """t as (numerator poly term, denominator poly term)."""
    num, den = ZERO, ONE
    for m, c in _poly_of(t).items():
        n, d = const(c), ONE
        for a, e in m:
            ev = numval(e)
            if ev is not None and ev.denominator == 1 and ev < 0:
                base = a
                for _ in range(int(-ev)):
                    d = mul(d, base)
            else:
                n = mul(n, power(a, e))
        # num/den + n/d
        if d is den:
            num = add(num, n)
        else:
            num = add(mul(num, d), mul(n, den))
            den = mul(den, d)
    return num, den


def rat_equal(a: T, b: T) -> bool:
    d = sub(a, b)
    for _ in range(6):
        if d is ZERO:
            return True
        n, den = ratio(d)
        if n is ZERO:
            return True
        if n is d:
            return False
        # nested quotients may remain in the numerator
        if any(
            numval(e) is not None and numval(e) < 0
            for m, _ in (n.args[0] if n.op == "poly" else ())
            for _a, e in m
        ):
            d = n
            continue
        return False
    return False


# ------------------------------------------------------------------------- booleans


def _norm_pos(p: T):
    """scale by a positive rational so that the leading coefficient is +-1"""
    r = _POS.get(p)
    if r is None:
        r = _POS[p] = _norm_pos1(p)
    return r


def _norm_pos1(p: T):
    items = _poly_of(p)
    if not items:
        return ZERO
    lead = sorted(items.items(), key=lambda mc: _mono_key(mc[0]))[-1][1]
    return scale(p, 1 / abs(lead))


def gt0(p: T) -> T:
    v = numval(p)
    if v is not None:
        return const(v > 0)
    return mk("gt0", _norm_pos(p))


def ge0(p: T) -> T:
    v = numval(p)
    if v is not None:
        return const(v >= 0)
    return mk("ge0", _norm_pos(p))


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return ge0(sub(b, a))


NONNUM = {"const", "fmt", "tuple", "dict", "list", "obj", "cls", "func", "bound", "ext", "set"}


def eq(a: T, b: T) -> T:
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return const(a.args[0] == b.args[0] and type(a.args[0]) is type(b.args[0]))
    if a in (TRUE, FALSE) and is_boolish(b):
        return b if a is TRUE else lnot(b)
    if b in (TRUE, FALSE) and is_boolish(a):
        return a if b is TRUE else lnot(a)
    na, nb = a.op in ("num", "poly", "sum"), b.op in ("num", "poly", "sum")
    if na or nb:
        if a.op in ("const",) or b.op in ("const",):
            return FALSE
        d = sub(a, b)
        v = numval(d)
        if v is not None:
            return const(v == 0)
        inf = mk("ext", "inf")
        if all(x in (inf, neg(inf)) or x.op == "num" for x in (a, b)):
            return FALSE
        d = _norm_pos(d)
        n = _norm_pos(neg(d))
        d = d if d.id < n.id else n
        return mk("eq", (d, ZERO))
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        return land(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    for x, y in ((a, b), (b, a)):
        if x.op in ("obj", "list", "dict", "aref", "cls", "func") and y is NONE:
            return FALSE
    return mk("eq", tuple(sorted((a, b), key=lambda t: t.id)))


BOOL_OPS = {"gt0", "ge0", "eq", "not", "and", "or", "any", "isinst", "in", "truth", "is"}


def is_boolish(t):
    return t.op in BOOL_OPS or t is TRUE or t is FALSE


_NOT: dict = {}
_AND: dict = {}
_OR: dict = {}
_POS: dict = {}


def lnot(c: T) -> T:
    r = _NOT.get(c)
    if r is None:
        r = _NOT[c] = _lnot(c)
    return r


def _lnot(c: T) -> T:
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "gt0":
        return ge0(neg(c.args[0]))
    if c.op == "ge0":
        return gt0(neg(c.args[0]))
    if c.op == "and":
        return lor(*[lnot(x) for x in c.args[0]])
    if c.op == "or":
        return land(*[lnot(x) for x in c.args[0]])
    if c.op == "num":
        return const(c.args[0] == 0)
    if c.op == "const":
        return const(not c.args[0])
    if c.op == "tuple":
        return const(len(c.args[0]) == 0)
    if c.op == "ite":
        return ite(c.args[0], lnot(truth(c.args[1])), lnot(truth(c.args[2])))
    if c.op in ("obj", "func", "cls", "bound"):
        return FALSE
    return mk("not", c)


def truth(c: T) -> T:
    if is_boolish(c):
        return c
    if c.op == "num":
        return const(c.args[0] != 0)
    if c.op == "const":
        return const(bool(c.args[0]))
    if c.op == "tuple":
        return const(len(c.args[0]) != 0)
    if c.op in ("obj", "func", "cls", "bound", "ext"):
        return TRUE
    if c.op == "ite":
        return ite(c.args[0], truth(c.args[1]), truth(c.args[2]))
    return mk("truth", c)


def land(*cs: T) -> T:
    r = _AND.get(cs)
    if r is None:
        r = _AND[cs] = _land(*cs)
    return r


def lor(*cs: T) -> T:
    r = _OR.get(cs)
    if r is None:
        r = _OR[cs] = _lor(*cs)
    return r


def _land(*cs: T) -> T:
    out = []
    for c in cs:
        c = truth(c)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            out.extend(c.args[0])
        else:
            out.append(c)
    s = set(out)
    for c in s:
        if lnot(c) in s:
            return FALSE
    # absorption: drop or-clauses containing a present literal, shorten others
    res = set()
    for c in s:
        if c.op == "or":
            lits = c.args[0]
            if any(l in s for l in lits):
                continue
            new = [l for l in lits if lnot(l) not in s]
            if len(new) != len(lits):
                c2 = lor(*new)
                if c2 is FALSE:
                    return FALSE
                if c2 is not TRUE:
                    res.add(c2)
                continue
        res.add(c)
    if not res:
        return TRUE
    if len(res) == 1:
        return next(iter(res))
    return mk("and", tuple(sorted(res, key=lambda t: t.id)))


def _lor(*cs: T) -> T:
    out = []
    for c in cs:
        c = truth(c)
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == "or":
            out.extend(c.args[0])
        else:
            out.append(c)
    s = set(out)
    for c in s:
        if lnot(c) in s:
            return TRUE
    res = set()
    for c in s:
        if c.op == "and":
            lits = c.args[0]
            if any(l in s for l in lits):
                continue
            new = [l for l in lits if lnot(l) not in s]
            if len(new) != len(lits):
                c2 = land(*new)
                if c2 is TRUE:
                    return TRUE
                if c2 is not FALSE:
                    res.add(c2)
                continue
        res.add(c)
    if not res:
        return FALSE
    if len(res) == 1:
        return next(iter(res))
    return mk("or", tuple(sorted(res, key=lambda t: t.id)))


def ite(c: T, a: T, b: T) -> T:
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "ge0" and gt0(neg(c.args[0])).id < c.id and False:
        pass
    if is_boolish(a) and is_boolish(b):
        return lor(land(c, a), land(lnot(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    # x == v ? a : b   where b[x:=v] is a
    if c.op == "eq":
        r = _eq_collapse(c, a, b)
        if r is not None:
            return r
    if c.op == "and":
        # ite(p and q, a, b) with b's own conditions left alone
        pass
    # order based forms: max / min
    if c.op in ("gt0", "ge0") and numeric(a) and numeric(b):
        d = _norm_pos(sub(a, b))
        if d is c.args[0]:
            return tmax(a, b)
        if d is _norm_pos(neg(c.args[0])):
            return tmin(a, b)
    # keep a canonical polarity
    n = lnot(c)
    if n.id < c.id:
        return mk("ite", n, b, a)
    return mk("ite", c, a, b)


def numeric(t):
    return t.op not in ("const", "fmt", "tuple", "dict", "list", "obj", "cls", "func", "bound", "set", "unk")


def _eq_collapse(c, a, b):
    x, y = c.args[0]
    cands = []
    if y is ZERO and x.op in ("poly",):
        # linear in some atom
        for m, k in x.args[0]:
            if len(m) == 1 and m[0][1] is ONE:
                rest = sub(x, scale(m[0][0], k))
                if not contains(rest, m[0][0]):
                    cands.append((m[0][0], scale(rest, -1 / k)))
    else:
        for u, v in ((x, y), (y, x)):
            if u.op not in ("num", "const"):
                cands.append((u, v))
    for u, v in cands:
        if contains(v, u):
            continue
        if subst(b, {u: v}) is subst(a, {u: v}):
            return b
    return None


def tmax(*ts):
    return _lattice("max", ts)


def tmin(*ts):
    return _lattice("min", ts)


def _lattice(op, ts):
    out = set()
    nums = []
    for t in ts:
        if t.op == op:
            for x in t.args[0]:
                (nums if is_num(x) else out).append(x) if False else None
                if is_num(x):
                    nums.append(x.args[0])
                else:
                    out.add(x)
        elif is_num(t):
            nums.append(t.args[0])
        else:
            out.add(t)
    inf = mk("ext", "inf")
    ninf = neg(inf)
    if op == "max":
        if inf in out:
            return inf
        out.discard(ninf)
    else:
        if ninf in out:
            return ninf
        out.discard(inf)
    if nums:
        out.add(const(max(nums) if op == "max" else min(nums)))
    if len(out) == 1:
        return next(iter(out))
    # differences that are known constants
    lst = sorted(out, key=lambda t: t.id)
    drop = set()
    for i, a in enumerate(lst):
        for b in lst[i + 1 :]:
            if a in drop or b in drop:
                continue
            v = numval(sub(a, b))
            if v is not None:
                if (v >= 0) == (op == "max"):
                    drop.add(b)
                else:
                    drop.add(a)
    lst = [x for x in lst if x not in drop]
    if len(lst) == 1:
        return lst[0]
    return mk(op, tuple(lst))


def tabs(t):
    v = numval(t)
    if v is not None:
        return const(abs(v))
    n = neg(t)
    p = t if t.id < n.id else n
    # make it sign canonical
    items = _poly_of(t)
    if items:
        lead = sorted(items.items(), key=lambda mc: _mono_key(mc[0]))[-1][1]
        p = t if lead > 0 else n
    return mk("abs", p)


# ------------------------------------------------------------- domains and reductions


def trange(lo, hi, step=ONE):
    if step is ONE:
        return mk("range", lo, hi)
    sv = numval(step)
    if sv == -1:
        # lo, lo-1, ..., hi+1
        return mk("rev", mk("range", add(hi, ONE), add(lo, ONE)))
    return mk("rangestep", lo, hi, step)


def dom_len(dom):
    if dom.op == "range":
        return sub(dom.args[1], dom.args[0])
    if dom.op == "rev":
        return dom_len(dom.args[0])
    return mk("domlen", dom)


def base_dom(dom):
    return dom.args[0] if dom.op == "rev" else dom


def close(bv: T, body: T):
    d = 1 + depth_of(body)
    return subst(body, {bv: mk("bvc", d)})


def open_(t_dom_len_body: T, at: T, depth: int):
    return subst(t_dom_len_body, {mk("bvc", depth): at})


def msum(bv: T, dom: T, body: T) -> T:
    dom = base_dom(dom)
    if dom.op == "range":
        lo, hi = dom.args
        if lo is not ZERO:
            body = subst(body, {bv: add(bv, lo)})
            dom = mk("range", ZERO, sub(hi, lo))
            hi = sub(hi, lo)
        n = numval(hi)
        if n is not None and n <= 0:
            return ZERO
        if n is not None and n <= 8 and n.denominator == 1:
            return add(*[subst(body, {bv: const(k)}) for k in range(int(n))])
    total = []
    for m, c in _poly_of(body).items():
        inside, outside = [], []
        for a, e in m:
            f = _from_poly({((a, e),): Fraction(1)})
            if contains(a, bv) or contains(e, bv):
                inside.append(f)
            else:
                outside.append(f)
        if not inside:
            total.append(mul(const(c), *outside, dom_len(dom)))
            continue
        core = mul(*inside)
        cb = close(bv, core)
        s = mk("sum", dom, cb, 1 + depth_of(core))
        total.append(mul(const(c), s, *outside))
    return add(*total) if total else ZERO


def _rebuild_sum(dom, body, d):
    bv = fresh_bv()
    return msum(bv, dom, subst(body, {mk("bvc", d): bv}))


def many(bv, dom, cond):
    """exists bv in dom: cond"""
    cond = truth(cond)
    if cond is FALSE:
        return FALSE
    dom = base_dom(dom)
    if dom.op == "range":
        lo, hi = dom.args
        if lo is not ZERO:
            cond = subst(cond, {bv: add(bv, lo)})
            dom = mk("range", ZERO, sub(hi, lo))
            hi = sub(hi, lo)
        n = numval(hi)
        if n is not None and n <= 0:
            return FALSE
        if n is not None and n <= 8:
            return lor(*[subst(cond, {bv: const(k)}) for k in range(int(n))])
    if cond.op == "or":
        return lor(*[many(bv, dom, c) for c in cond.args[0]])
    if not contains(cond, bv):
        return land(cond, gt0(dom_len(dom)))
    if cond.op == "and":
        ins = [c for c in cond.args[0] if contains(c, bv)]
        outs = [c for c in cond.args[0] if not contains(c, bv)]
        if outs:
            return land(many(bv, dom, land(*ins)), *outs)
    cb = close(bv, cond)
    return mk("any", dom, cb, 1 + depth_of(cond))


def _rebuild_any(dom, body, d):
    bv = fresh_bv()
    return many(bv, dom, subst(body, {mk("bvc", d): bv}))


def amap(bv, dom, body):
    """sequence/array whose entry at position k of dom is body[k]"""
    if dom.op == "range" and dom.args[0] is not ZERO:
        body = subst(body, {bv: add(bv, dom.args[0])})
        dom = mk("range", ZERO, sub(dom.args[1], dom.args[0]))
    if dom.op == "range":
        n = numval(dom.args[1])
        if n is not None and 0 <= n <= 8:
            return mk("tuple", tuple(subst(body, {bv: const(k)}) for k in range(int(n))))
        if n is not None and n < 0:
            return mk("tuple", ())
    # eta: map i -> X[i] over the whole first axis is X
    if dom.op == "range" and body.op == "item" and body.args[1] and body.args[1][0] is bv:
        base = body.args[0]
        if not contains(base, bv) and len(body.args[1]) == 1:
            s = shape(base)
            if s is not None and s and s[0] is dom.args[1]:
                return base
    if dom.op == "range" and body.op != "item":
        st_ = _strip_trailing(body, bv, dom.args[1])
        if st_ is not None:
            return st_
    if not contains(body, bv) and dom.op == "range":
        s = shape(body)
        if is_num(body):
            return body
    cb = close(bv, body)
    return mk("amap", dom, cb, 1 + depth_of(cb) if not contains_op(cb, {"bvc"}) else _binder(cb, bv, body))


def _strip_trailing(body, bv, n):
    """map i: e(X[.., i], Y[.., i])  ->  e(X, Y) elementwise"""
    if not contains(body, bv) or shape(body) != ():
        return None
    ok = [True]
    memo = {}

    def go(t):
        if not ok[0]:
            return t
        if t in memo:
            return memo[t]
        if not contains(t, bv):
            memo[t] = t
            return t
        if t.op == "item" and t.args[1][-1] is bv and not contains(t.args[0], bv) and not any(contains(i, bv) for i in t.args[1][:-1]):
            if any(i.op == "slice" or i is NONE for i in t.args[1][:-1]):
                ok[0] = False
                return t
            sh = shape(t.args[0])
            k = len(t.args[1]) - 1
            if sh is None or k != len(sh) - 1 or sh[k] is not n:
                ok[0] = False
                return t
            r = item(t.args[0], t.args[1][:-1])
            memo[t] = r
            return r
        if t.op in ("poly", "sum", "abs", "max", "min"):
            def rec(a):
                if isinstance(a, T):
                    return go(a)
                if isinstance(a, tuple):
                    return tuple(rec(x) for x in a)
                return a
            if t.op == "sum" and contains(t.args[0], bv):
                ok[0] = False
                return t
            if t.op == "poly":
                for m, _c in t.args[0]:
                    for a, e in m:
                        if contains(e, bv):
                            ok[0] = False
                            return t
            r = rebuild(t.op, rec(t.args))
            memo[t] = r
            return r
        ok[0] = False
        return t

    r = go(body)
    return r if ok[0] else None


def _binder(cb, bv, body):
    return 1 + depth_of(body)


def _rebuild_amap(dom, body, d):
    bv = fresh_bv()
    return amap(bv, dom, subst(body, {mk("bvc", d): bv}))


def map_at(m: T, k: T) -> T:
    dom, body, d = m.args
    if dom.op == "rev":
        inner = dom.args[0]
        k = sub(add(inner.args[1], const(-1)), k) if inner.op == "range" else k
    return subst(body, {mk("bvc", d): k})


# ---------------------------------------------------------------------------- indexing


def norm_index(idx) -> tuple:
    """tuple of index components; trailing full slices dropped"""
    out = list(idx)
    while out and out[-1] is FULL:
        out.pop()
    while out and out[-1] is const(Ellipsis):
        out.pop()
        while out and out[-1] is FULL:
            out.pop()
    return tuple(norm_slice(i) for i in out)


def norm_slice(i):
    if i.op == "slice":
        lo, hi, st = i.args
        if lo is ZERO:
            lo = NONE
        if st is ONE:
            st = NONE
        return mk("slice", lo, hi, st)
    return i


FACTS: list = []  # stack of lists of boolean facts


class facts:
    def __init__(self, *fs):
        self.fs = fs

    def __enter__(self):
        FACTS.append(list(self.fs))

    def __exit__(self, *a):
        FACTS.pop()


def _known(c: T):
    """True/False/None for a boolean term under the current facts"""
    c = truth(c)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    n = lnot(c)
    allf = [f for fs in FACTS for f in fs]
    if c in allf:
        return True
    if n in allf:
        return False
    for target, res in ((c, True), (n, False)):
        if target.op in ("gt0", "ge0"):
            for f in allf:
                if f.op in ("gt0", "ge0"):
                    v = numval(sub(target.args[0], f.args[0]))
                    if v is not None:
                        # f: p>=0 (or >0), target p+v
                        if target.op == "ge0" and v >= 0:
                            return res
                        if target.op == "gt0" and (v > 0 or (v >= 0 and f.op == "gt0")):
                            return res
            # sums of two facts
            for i, f in enumerate(allf):
                for g in allf[i + 1 :]:
                    if f.op in ("gt0", "ge0") and g.op in ("gt0", "ge0"):
                        v = numval(sub(target.args[0], add(f.args[0], g.args[0])))
                        if v is not None:
                            strict = f.op == "gt0" or g.op == "gt0"
                            if target.op == "ge0" and v >= 0:
                                return res
                            if target.op == "gt0" and (v > 0 or (v >= 0 and strict)):
                                return res
    for target, res in ((c, False), (n, True)):
        if target.op == "eq":
            x, y = target.args[0]
            if numeric(x) and numeric(y) and not shape(x) and not shape(y):
                d = sub(x, y)
                if d.op in ("poly", "sym", "num", "len") and (_known(gt0(d)) is True or _known(gt0(neg(d))) is True):
                    return res
        if target.op == "truth" and target.args[0].op in ("poly", "sym", "len") and numeric(target.args[0]) and not shape(target.args[0]):
            # a number other than zero
            d = target.args[0]
            if _known(gt0(d)) is True or _known(gt0(neg(d))) is True:
                return not res
    return None


known = _known


def _idx_relation(a: T, b: T, dimt: Optional[T]):
    """Relation of two index components: 'same', 'disjoint', 'inside' (scalar b inside
    slice a), or None."""
    if a is b:
        return "same"
    if a.op != "slice" and b.op != "slice":
        if a.op == "const" and b.op == "const":
            return "disjoint"
        if a.op in ("const", "fmt") or b.op in ("const", "fmt"):
            return _str_relation(a, b)
        an, bn = numval(a), numval(b)
        if an is not None and bn is not None:
            d = numval(dimt) if dimt is not None else None
            if d is not None:
                an2 = an + d if an < 0 else an
                bn2 = bn + d if bn < 0 else bn
                return "same" if an2 == bn2 else "disjoint"
            return "disjoint" if an != bn and (an >= 0) == (bn >= 0) else None
        k = _known(eq(a, b)) if (a.op in ("poly", "num", "bv", "bvc", "sym") and b.op in ("poly", "num", "bv", "bvc", "sym")) else None
        v = numval(sub(a, b))
        if v is not None and v != 0:
            return "disjoint"
        if k is True:
            return "same"
        if k is False:
            return "disjoint"
        if _known(lt(a, b)) is True or _known(lt(b, a)) is True:
            return "disjoint"
        return None
    if a.op == "slice" and b.op != "slice":
        lo, hi, st = a.args
        if st is not NONE:
            return None
        lo = ZERO if lo is NONE else lo
        if numval(hi) is not None and numval(hi) < 0 and dimt is not None:
            hi = add(dimt, hi)
        if numval(lo) is not None and numval(lo) < 0 and dimt is not None:
            lo = add(dimt, lo)
        bb = b
        if numval(b) is not None and numval(b) < 0 and dimt is not None:
            bb = add(dimt, b)
        lo_ok = True if lo is ZERO else _known(le(lo, bb))
        hi_ok = True if hi is NONE else _known(lt(bb, hi))
        if lo_ok is True and hi_ok is True:
            return "inside"
        if lo_ok is False or hi_ok is False:
            return "disjoint"
        return None
    return None


def _str_relation(a, b):
    """string patterns: disjoint if constant suffix/prefix parts differ"""

    def parts(t):
        if t.op == "fmt":
            return list(t.args[0])
        return [t]

    pa, pb = parts(a), parts(b)
    la, lb = pa[-1], pb[-1]
    if la.op == "const" and lb.op == "const":
        x, y = str(la.args[0]), str(lb.args[0])
        if not (x.endswith(y) or y.endswith(x)):
            return "disjoint"
    fa, fb = pa[0], pb[0]
    if fa.op == "const" and fb.op == "const":
        x, y = str(fa.args[0]), str(fb.args[0])
        if not (x.startswith(y) or y.startswith(x)):
            return "disjoint"
    # same shape of pattern, all equal but one constant part
    if len(pa) == len(pb):
        diff = [(p, q) for p, q in zip(pa, pb) if p is not q]
        if len(diff) == 1:
            p, q = diff[0]
            if p.op == "const" and q.op == "const":
                return "disjoint"
            r = _idx_relation(p, q, None) if p.op not in ("const", "fmt") and q.op not in ("const", "fmt") else None
            if r == "disjoint":
                return "disjoint"
    return None


ARRAY_INDEX = {"numpy." + n for n in ("nonzero", "flatnonzero", "where", "argwhere", "argsort", "triu_indices", "tril_indices", "triu_indices_from", "tril_indices_from", "unique", "isin", "logical_not", "logical_and", "logical_or", "logical_xor", "isclose", "arange", "diag_indices", "flip", "invert", "isfinite", "isnan", "not_equal", "equal", "greater", "less", "greater_equal", "less_equal")}


def array_index(i: T) -> bool:
    """the index selects several elements: a mask or a list of positions"""
    op = i.op
    if op in ("num", "const", "bv", "bvc", "slice", "sym", "fmt"):
        return op == "sym" and bool(shape(i))
    if op in ("gt0", "ge0", "eq"):
        return any(bool(shape(c)) for c in children(i.args))
    if op in ("not", "and", "or"):
        return any(array_index(c) for c in children(i.args))
    if op == "call":
        return i.args[0].op == "ext" and i.args[0].args[0] in ARRAY_INDEX
    if op == "item":
        b = i.args[0]
        return b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] in ("numpy.nonzero", "numpy.where", "numpy.triu_indices", "numpy.tril_indices", "numpy.triu_indices_from", "numpy.tril_indices_from") and len(i.args[1]) == 1 and i.args[1][0].op != "bv"
    return bool(shape(i))


def item(base: T, idx) -> T:
    idx = norm_index(idx)
    if not idx:
        return base
    op = base.op
    if op == "num":
        return base
    if op != "full" and any(array_index(i) for i in idx):
        return mk("item", base, idx)
    if op == "full":
        return base.args[0]
    if op in ("item", "poly", "sum", "sym", "res", "ite", "attr", "call", "abs", "max", "min", "hv") and shape(base) == ():
        return base
    if op == "tuple":
        i = idx[0]
        n = len(base.args[0])
        v = numval(i)
        if v is not None and v.denominator == 1 and -n <= v < n:
            return item(base.args[0][int(v)], idx[1:])
        if i.op == "slice":
            lo, hi, st = i.args
            try:
                s = slice(*[None if x is NONE else int(numval(x)) for x in (lo, hi, st)])
                sub_ = mk("tuple", tuple(base.args[0][s]))
                if idx[1:]:
                    return mk("tuple", tuple(item(x, idx[1:]) for x in sub_.args[0]))
                return sub_
            except TypeError:
                pass
        if len(idx) >= 1 and base.args[0] and all(x is base.args[0][0] for x in base.args[0]):
            return item(base.args[0][0], idx[1:])
        return mk("item", base, idx)
    if op == "item":
        merged = _merge_item(base, idx)
        if merged is not None:
            return merged
    if op == "aref":
        return mk("item", base, idx)
    if op == "amap":
        if idx[0].op != "slice" and idx[0] is not NONE:
            return item(map_at(base, idx[0]), idx[1:])
        if idx[0].op == "slice" and base.args[0].op == "range":
            lo, hi, st = idx[0].args
            if st is NONE:
                lo = ZERO if lo is NONE else lo
                hi = base.args[0].args[1] if hi is NONE else hi
                if numval(hi) is not None and numval(hi) < 0:
                    hi = add(base.args[0].args[1], hi)
                bv = fresh_bv()
                return amap(bv, mk("range", lo, hi), item(map_at(base, bv), idx[1:]))
    if op == "store":
        b, sidx, val = base.args
        r = _store_hit(b, sidx, idx)
        if r == "same":
            return val
        if r == "disjoint":
            return item(b, idx)
        if isinstance(r, tuple) and r[0] == "inside":
            return item(val, r[1])
        return mk("item", base, idx)
    if op == "mapstore":
        r = _mapstore_read(base, idx)
        if r is not None:
            return r
        return mk("item", base, idx)
    if op == "ite":
        return ite(base.args[0], item(base.args[1], idx), item(base.args[2], idx))
    if op == "roll":
        x, k = base.args
        s = shape(x)
        v = numval(idx[0]) if idx[0].op != "slice" else None
        kv = numval(k)
        if kv is not None and v is not None and len(idx) == 1:
            n = numval(s[0]) if s else None
            if n is not None:
                return item(x, (const((v - kv) % n),))
    if op == "concat":
        # concat of tuples/sequences
        parts = base.args[0]
        v = numval(idx[0]) if idx[0].op != "slice" else None
        if v is not None and v >= 0:
            pos = int(v)
            for p in parts:
                n = len(p.args[0]) if p.op == "tuple" else (numval(dim(p, 0)))
                if n is None:
                    break
                if pos < n:
                    return item(p, (const(pos),) + idx[1:])
                pos -= int(n)
    if op == "prefix" and idx[0].op != "slice":
        v = numval(idx[0])
        if v is not None and v < 0:
            return item(base.args[0], (add(base.args[1], idx[0]),) + idx[1:])
        return item(base.args[0], idx)
    if op == "transpose" and len(idx) == 2 and idx[0] is FULL:
        return item(base.args[0], (idx[1],))
    if op == "transpose" and len(idx) == 2 and all(i.op != "slice" for i in idx):
        return item(base.args[0], (idx[1], idx[0]))
    if op == "poly":
        r = _item_poly(base, idx)
        if r is not None:
            return r
    if op in ("max", "min", "abs"):
        s = shape(base)
        if s is not None and len(s) >= len([i for i in idx if i is not NONE]):
            parts = base.args[0] if op != "abs" else (base.args[0],)
            ss = [shape(p) for p in parts]
            if all(x is not None for x in ss):
                new = [item(p, idx) if len(x) == len(s) else p for p, x in zip(parts, ss)]
                return {"max": tmax, "min": tmin}[op](*new) if op != "abs" else tabs(new[0])
    if op in ("gt0", "ge0", "eq"):
        s = shape(base)
        if s:
            if op == "eq":
                ps = base.args[0]
                return eq(*[item(p, idx) if shape(p) else p for p in ps])
            return {"gt0": gt0, "ge0": ge0}[op](item(base.args[0], idx))
    if op == "sum":
        s = shape(base)
        if s is not None and s:
            bv = fresh_bv()
            body = subst(base.args[1], {mk("bvc", base.args[2]): bv})
            ib = item(body, idx)
            return msum(bv, base.args[0], ib)
    return mk("item", base, idx)


def _merge_item(base, idx):
    """(X[i0])[i1] -> X[i0, i1] / slice composition"""
    x, i0 = base.args
    out = []
    rest = list(idx)
    for comp in i0:
        if comp is NONE:
            if not rest:
                out.append(comp)
                continue
            r = rest.pop(0)
            if r.op == "slice" or r is NONE:
                return None
            continue
        if comp.op == "slice":
            if not rest:
                out.append(comp)
                continue
            r = rest.pop(0)
            if r is NONE:
                return None
            if r is FULL:
                out.append(comp)
                continue
            lo, hi, st = comp.args
            if st is not NONE:
                return None
            lo2 = ZERO if lo is NONE else lo
            if numval(lo2) is not None and numval(lo2) < 0:
                return None
            if r.op == "slice":
                rlo, rhi, rst = r.args
                if rst is not NONE:
                    return None
                for v in (rlo, rhi):
                    if v is not NONE and numval(v) is not None and numval(v) < 0:
                        return None
                nlo = add(lo2, rlo) if rlo is not NONE else lo2
                nhi = add(lo2, rhi) if rhi is not NONE else hi
                out.append(norm_slice(mk("slice", nlo, nhi, NONE)))
            else:
                if numval(r) is not None and numval(r) < 0:
                    if hi is NONE or (numval(hi) is not None and numval(hi) < 0):
                        return None
                    out.append(add(hi, r))
                else:
                    out.append(add(lo2, r))
        else:
            s = shape(comp)
            if s is not None and len(s) > 0:
                return None
            if comp.op in ("const", "fmt"):
                # mapping access: following index is a separate access
                out.append(comp)
                return mk("item", x, i0) if not idx else mk("item2", x, i0, idx) if False else None
            out.append(comp)
    out.extend(rest)
    return item(x, tuple(out))


def _item_poly(base, idx):
    monos = base.args[0]
    full_rank = shape(base)
    if full_rank is None or not full_rank:
        return None
    n = len(full_rank)
    if len([i for i in idx if i is not NONE]) > n:
        return None
    total = []
    for m, c in monos:
        fs = []
        for a, e in m:
            s = shape(a)
            es = shape(e)
            if s is None or es is None or es:
                return None
            if not s:
                fs.append(_from_poly({((a, e),): Fraction(1)}))
            elif len(s) == n:
                one = [k for k in range(min(n, len(idx))) if s[k] is ONE and full_rank[k] is not ONE]
                if one:
                    if NONE in idx or any(i.op == "slice" and i is not FULL for i in idx):
                        return None
                    at = tuple(ZERO if k in one and i.op != "slice" else i for k, i in enumerate(idx))
                    fs.append(power(item(a, at), e))
                    continue
                fs.append(power(item(a, idx), e))
            elif len(s) < n:
                # broadcasting against trailing axes
                k = n - len(s)
                if any(i.op == "slice" and i is not FULL for i in idx[:k]):
                    pass
                fs.append(power(item(a, idx[k:]), e))
            else:
                return None
        total.append(mul(const(c), *fs))
    return add(*total)


def _store_hit(b, sidx, idx):
    """how does reading idx relate to a store at sidx"""
    if any(array_index(i) for i in sidx):
        return None
    shp = shape(b)
    rel = []
    inner = []
    n = min(len(sidx), len(idx))
    for k in range(n):
        d = shp[k] if shp is not None and k < len(shp) else None
        r = _idx_relation(sidx[k], idx[k], d)
        if r == "disjoint":
            return "disjoint"
        rel.append(r)
        if sidx[k].op == "slice":
            if r == "same":
                inner.append(FULL)
            elif r == "inside":
                lo = sidx[k].args[0]
                lo = ZERO if lo is NONE else lo
                dd = d
                if numval(lo) is not None and numval(lo) < 0:
                    if dd is None:
                        rel.append(None)
                        continue
                    lo = add(dd, lo)
                ii = idx[k]
                if numval(ii) is not None and numval(ii) < 0 and dd is not None:
                    ii = add(dd, ii)
                inner.append(sub(ii, lo))
            else:
                rel.append(None)
    if any(r is None for r in rel):
        return None
    if len(sidx) > len(idx):
        return None
    rest = idx[len(sidx):]
    inner.extend(rest)
    inner = norm_index(inner)
    if not inner:
        return "same"
    return ("inside", inner)


def full(v: T, dims) -> T:
    """array with one number in every place"""
    return mk("full", v, tuple(dims))


def store(base: T, idx, val: T) -> T:
    idx = norm_index(idx)
    if not idx:
        return val
    if base.op == "store" and base.args[1] == idx:
        base = base.args[0]
    # writing back the value already there
    if item(base, idx) is val and base.op != "num":
        return base
    shp = shape(base)
    if base.op == "tuple" and len(idx) >= 1:
        v = numval(idx[0]) if idx[0].op != "slice" else None
        n = len(base.args[0])
        if v is not None and -n <= v < n:
            lst = list(base.args[0])
            lst[int(v)] = store(lst[int(v)], idx[1:], val) if idx[1:] else val
            return mk("tuple", tuple(lst))
    # one-element arrays: the store replaces everything
    if shp is not None and len(shp) == len(idx) and all(s is ONE for s in shp) and all(i.op != "slice" and numval(i) in (0, -1) for i in idx):
        return val
    return mk("store", base, idx, val)


def mapstore(entry: T, dom: T, bv: T, idx: tuple, val: T, guard: T) -> T:
    """for bv in dom: if guard: entry[idx] = val   (idx injective in bv)"""
    bd = base_dom(dom)
    if bd.op == "range":
        n = numval(dom_len(bd))
        if n is not None and n <= 0:
            return entry
        if n is not None and n <= 8:
            out = entry
            for k in range(int(n)):
                m = {bv: add(bd.args[0], const(k))}
                v = store(out, tuple(subst(i, m) for i in idx), subst(val, m))
                out = ite(subst(guard, m), v, out)
            return out
        # full cover of the first axis
        if guard is TRUE and len(idx) == 1 and idx[0] is bv:
            s = shape(entry)
            if s is not None and s and bd.args[0] is ZERO and bd.args[1] is s[0]:
                return amap(bv, bd, val)
    trip = mk("tuple", (mk("tuple", tuple(idx)), val, guard))
    cb = close(bv, trip)
    d = 1 + depth_of(trip)
    return mk("mapstore", entry, bd, cb, d)


def _rebuild_mapstore(entry, dom, trip, d):
    bv = fresh_bv()
    t = subst(trip, {mk("bvc", d): bv})
    if t.op != "tuple" or len(t.args[0]) != 3:
        return mk("mapstore", entry, dom, trip, d)
    return mapstore(entry, dom, bv, t.args[0][0].args[0], t.args[0][1], t.args[0][2])


def _unify(pattern: T, target: T, var: T):
    """value of var such that pattern[var] is target, or None"""
    if pattern is var:
        return target
    if pattern.op == "poly" and contains(pattern, var):
        # linear
        for m, k in pattern.args[0]:
            if len(m) == 1 and m[0][0] is var and m[0][1] is ONE:
                rest = sub(pattern, scale(var, k))
                if contains(rest, var):
                    return None
                return scale(sub(target, rest), 1 / k)
        return None
    if pattern.op == target.op and pattern.op == "fmt":
        pa, pb = pattern.args[0], target.args[0]
        if len(pa) != len(pb):
            return None
        sol = None
        for x, y in zip(pa, pb):
            if x is y:
                continue
            s = _unify(x, y, var)
            if s is None or (sol is not None and s is not sol):
                return None
            sol = s
        return sol
    if pattern.op == "fmt" and target.op == "const" and isinstance(target.args[0], str):
        ps = pattern.args[0]
        if len(ps) == 2 and ps[0].op == "const" and target.args[0].startswith(str(ps[0].args[0])):
            tail = target.args[0][len(str(ps[0].args[0])):]
            if tail.isdigit():
                return _unify(ps[1], const(int(tail)), var)
    if pattern.op == target.op == "attr" or pattern.op == target.op == "item":
        if len(pattern.args) == len(target.args):
            sol = None
            for x, y in zip(pattern.args, target.args):
                if x is y or (not isinstance(x, T) and _same(x, y)):
                    continue
                if isinstance(x, T) and isinstance(y, T):
                    s = _unify(x, y, var)
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    s = None
                    for p, q in zip(x, y):
                        if p is q:
                            continue
                        s = _unify(p, q, var)
                        if s is None:
                            return None
                else:
                    return None
                if s is None or (sol is not None and s is not sol):
                    return None
                sol = s
            return sol
    return None


def _mapstore_read(base, idx):
    entry, dom, trip, d = base.args
    bv = fresh_bv()
    t = subst(trip, {mk("bvc", d): bv})
    sidx, val, guard = t.args[0][0].args[0], t.args[0][1], t.args[0][2]
    if not sidx:
        return None
    k = None
    if len(idx) >= len(sidx):
        for s, i in zip(sidx, idx):
            if contains(s, bv):
                k = _unify(s, i, bv)
                break
    if k is not None:
        m = {bv: k}
        s2 = tuple(subst(s, m) for s in sidx)
        if all(a is b for a, b in zip(s2, idx)):
            inside = TRUE
            if dom.op == "range":
                lo_ok = TRUE if k.op in ("bv", "bvc") and dom.args[0] is ZERO else ge0(sub(k, dom.args[0]))
                hi_ok = gt0(sub(dom.args[1], k))
                kl, kh = _known(lo_ok), _known(hi_ok)
                if kl is False or kh is False:
                    return item(entry, idx)
                if not (kl is True and kh is True):
                    # index variables range over the array they index
                    if not _covers(k, dom):
                        return None
            v = item(subst(val, m), idx[len(sidx):])
            g = subst(guard, m)
            gk = _known(g)
            if gk is True:
                return v
            if gk is False:
                return item(entry, idx)
            return ite(g, v, item(entry, idx))
        return None
    # no unifier: disjoint?
    for s, i in zip(sidx, idx):
        if not contains(s, bv):
            if _idx_relation(s, i, None) == "disjoint":
                return item(entry, idx)
        elif _str_relation_any(s, i, bv) == "disjoint":
            return item(entry, idx)
    return None


def _str_relation_any(s, i, bv):
    if s.op == "fmt" or i.op == "fmt" or (s.op == "const" or i.op == "const"):
        if i.op == "const" and isinstance(i.args[0], str) and s.op == "fmt":
            first = s.args[0][0]
            if first.op == "const" and not i.args[0].startswith(str(first.args[0])):
                return "disjoint"
            last = s.args[0][-1]
            if last.op == "const" and not i.args[0].endswith(str(last.args[0])):
                return "disjoint"
            # stage_{i} against a constant with a non-numeric tail
            if first.op == "const" and len(s.args[0]) == 2:
                tail = i.args[0][len(str(first.args[0])):]
                if not tail.lstrip("-").isdigit() and s.args[0][1].op in ("bv", "bvc", "poly"):
                    return "disjoint"
    return None


BV_DOM: dict = {}  # bv -> domain (for loop variables currently in scope)


def _covers(k, dom):
    """k is a loop variable whose own domain is contained in dom"""
    if k.op == "bv" and k in BV_DOM:
        d = base_dom(BV_DOM[k])
        if d is dom:
            return True
        if d.op == dom.op == "range":
            lo = _known(ge0(sub(d.args[0], dom.args[0])))
            hi = _known(ge0(sub(dom.args[1], d.args[1])))
            return lo is True and hi is True
    return False


# ------------------------------------------------------------------------- strings


def fmt(*parts) -> T:
    out = []
    for p in parts:
        if p.op == "fmt":
            out.extend(p.args[0])
        else:
            out.append(p)
    merged = []
    for p in out:
        if p.op == "num" and p.args[0].denominator == 1:
            p = const(str(p.args[0]))
        if p.op == "const" and merged and merged[-1].op == "const":
            merged[-1] = const(str(merged[-1].args[0]) + str(p.args[0]))
        else:
            merged.append(p)
    merged = [p for p in merged if not (p.op == "const" and p.args[0] == "")]
    if not merged:
        return const("")
    if len(merged) == 1 and merged[0].op == "const":
        return const(str(merged[0].args[0]))
    return mk("fmt", tuple(merged))


def tlen(c: T) -> T:
    """number of elements of a sequence value"""
    op = c.op
    if op in ("tuple", "dictv"):
        return const(len(c.args[0]))
    if op == "amap":
        return dom_len(base_dom(c.args[0]))
    if op == "concat":
        return add(*[tlen(x) for x in c.args[0]])
    if op == "ite":
        return ite(c.args[0], tlen(c.args[1]), tlen(c.args[2]))
    if op == "const" and isinstance(c.args[0], str):
        return const(len(c.args[0]))
    if op == "item" and len(c.args[1]) == 1 and c.args[1][0].op == "slice":
        return slice_len(c.args[1][0], tlen(c.args[0]))
    if op == "prefix":
        return c.args[1]
    if op in ("range", "rev"):
        return dom_len(c)
    if op in ("it_items", "it_keys", "it_values", "it_rev", "it_enum"):
        return tlen(c.args[0])
    sh = shape(c)
    if sh:
        return sh[0]
    return mk("len", c)


def prefix(c: T, n: T) -> T:
    if c.op == "prefix":
        return prefix(c.args[0], n)
    if tlen(c) is n:
        return c
    v = numval(n)
    if c.op == "tuple" and v is not None:
        return mk("tuple", c.args[0][: int(v)])
    return mk("prefix", c, n)


_REBUILD = {
    "len": tlen,
    "prefix": prefix,
    "poly": lambda items: add(*[mul(const(c), *[power(a, e) for a, e in m]) for m, c in items]),
    "gt0": gt0,
    "ge0": ge0,
    "eq": lambda ab: eq(*ab),
    "not": lnot,
    "and": lambda cs: land(*cs),
    "or": lambda cs: lor(*cs),
    "truth": truth,
    "ite": ite,
    "max": lambda ts: tmax(*ts),
    "min": lambda ts: tmin(*ts),
    "abs": tabs,
    "sum": _rebuild_sum,
    "any": _rebuild_any,
    "amap": _rebuild_amap,
    "mapstore": _rebuild_mapstore,
    "item": item,
    "store": store,
    "fmt": lambda ps: fmt(*ps),
}


# ------------------------------------------------------------------ equality deciding


def conditions(t: T):
    """conditions of ite gates and boolean atoms used numerically"""
    out = []
    for s in subterms(t):
        if s.op == "ite":
            c = s.args[0]
            stack = [c]
            while stack:
                x = stack.pop()
                if x.op in ("and", "or"):
                    stack.extend(x.args[0])
                elif x.op == "not":
                    stack.append(x.args[0])
                elif x not in out:
                    out.append(x)
    return out


def assume(t: T, lit: T, value: bool) -> T:
    m = {lit: const(value)}
    n = lnot(lit)
    m[n] = const(not value)
    return subst(t, m)


def equal(a: T, b: T, depth: int = 8) -> bool:
    """Semantic equality as far as the normal forms (with case split on gates) show."""
    if a is b:
        return True
    if a.op not in ("const", "fmt") and b.op not in ("const", "fmt") and numeric(a) and numeric(b):
        if not is_boolish(a) and not is_boolish(b) and rat_equal(a, b):
            return True
    if depth <= 0:
        return False
    cs = conditions(a) or conditions(b)
    if not cs and (is_boolish(a) or is_boolish(b)):
        cs = [x for x in _bool_atoms(a) + _bool_atoms(b)]
        if not cs:
            return False
    if not cs:
        cs = [x for x in list(subterms(a)) + list(subterms(b)) if x.op in ("gt0", "ge0") ]
        if not cs:
            return False
    c = min(cs, key=lambda t: t.id)
    for v in (True, False):
        if not equal(assume(a, c, v), assume(b, c, v), depth - 1):
            return False
    return True


def _bool_atoms(t):
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op in ("and", "or"):
            stack.extend(x.args[0])
        elif x.op == "not":
            stack.append(x.args[0])
        elif x in (TRUE, FALSE):
            continue
        elif is_boolish(x) or x.op == "truth":
            out.append(x)
    return out


# ----------------------------------------------------------------------------- display


def show(t, lim=600) -> str:
    s = _show(t, 0)
    return s if len(s) <= lim else s[: lim - 3] + "..."


def _show(t, lvl) -> str:
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(_show(x, lvl + 1) for x in t) + ")"
        return str(t)
    if lvl > 14:
        return "…"
    op, a = t.op, t.args
    if op == "num":
        return str(a[0])
    if op == "const":
        return repr(a[0])
    if op in ("sym",):
        return str(a[0])
    if op == "bv":
        return f"i{a[0]}"
    if op == "bvc":
        return f"b{a[0]}"
    if op == "poly":
        out = []
        for m, c in a[0]:
            fs = []
            for x, e in m:
                sx = _show(x, lvl + 1)
                if x.op == "poly":
                    sx = f"({sx})"
                fs.append(sx if e is ONE else f"{sx}^{_show(e, lvl+1)}" if is_num(e) else f"{sx}^({_show(e, lvl+1)})")
            txt = "*".join(fs)
            if c == 1 and txt:
                out.append(txt)
            elif c == -1 and txt:
                out.append("-" + txt)
            else:
                out.append(str(c) + ("*" + txt if txt else ""))
        return " + ".join(out).replace("+ -", "- ")
    if op == "slice":
        lo, hi, st = ("" if x is NONE else _show(x, lvl + 1) for x in a)
        return f"{lo}:{hi}" + (f":{st}" if st else "")
    if op == "item":
        return _show(a[0], lvl + 1) + "[" + ", ".join(_show(x, lvl + 1) for x in a[1]) + "]"
    if op == "attr":
        return _show(a[0], lvl + 1) + "." + a[1]
    if op == "sum":
        return f"SUM(b{a[2]} in {_show(a[0], lvl+1)}: {_show(a[1], lvl+1)})"
    if op == "any":
        return f"ANY(b{a[2]} in {_show(a[0], lvl+1)}: {_show(a[1], lvl+1)})"
    if op == "amap":
        return f"MAP(b{a[2]} in {_show(a[0], lvl+1)}: {_show(a[1], lvl+1)})"
    if op == "range":
        return f"range({_show(a[0],lvl+1)},{_show(a[1],lvl+1)})"
    if op == "gt0":
        return f"({_show(a[0], lvl+1)} > 0)"
    if op == "ge0":
        return f"({_show(a[0], lvl+1)} >= 0)"
    if op == "eq":
        return f"({_show(a[0][0], lvl+1)} == {_show(a[0][1], lvl+1)})"
    if op == "fmt":
        return "f'" + "".join(str(p.args[0]) if p.op == "const" else "{" + _show(p, lvl + 1) + "}" for p in a[0]) + "'"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(_show(x, lvl + 1) for x in a[0]) + ")"
    if op == "ext":
        return a[0]
    if op == "call":
        return _show(a[0], lvl + 1) + "(" + ", ".join([_show(x, lvl + 1) for x in a[1]] + [f"{k}={_show(v, lvl+1)}" for k, v in a[2]]) + ")"
    if op == "res":
        return f"{a[1]}#{a[0]}" + ("(" + ",".join(_show(x, lvl + 1) for x in a[2]) + ")" if a[2] else "")
    return op + "(" + ", ".join(_show(x, lvl + 1) for x in a) + ")"
