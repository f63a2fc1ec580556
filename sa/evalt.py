"""Interpretation of value-graph terms in small random models of their free symbols.

Two terms whose normal forms differ are only called different when some model of the
symbols (sizes, coefficients, uninterpreted calls) separates them; terms that agree in
every sampled model are treated as equal.  Nothing of the analysed program is executed:
the models interpret the terms of the value graph.
"""

from __future__ import annotations

import hashlib
import itertools
import math
from fractions import Fraction
import random

from . import terms as T
from .terms import NONE, ONE, TRUE, ZERO, T as Term, const, mk


class Undecided(Exception):
    pass


class Reject(Exception):
    """model outside the assumptions (division by zero, empty reduction ...)"""


class Fails(Reject):
    """the evaluated code raises here"""


UNMODELLED = {"getattr", "rangestep", "repeat", "setop", "slen", "while", "partial", "super", "dict", "list", "mod"}
OPAQUE = {"unk", "star", "dictmerge", "dictdel"}


class Op:
    """opaque value: equal iff built from equal parts; usable as a number"""

    __slots__ = ("h",)

    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return isinstance(o, Op) and self.h == o.h

    def __hash__(self):
        return hash(self.h)

    def __repr__(self):
        return "#" + self.h[:6]


INF = float("inf")


def hsh(x):
    return hashlib.md5(canon(x).encode()).hexdigest()


def canon(v):
    if isinstance(v, Op):
        return "#" + v.h
    if isinstance(v, bool):
        return "T" if v else "F"
    if v is None:
        return "None"
    if isinstance(v, (int, Fraction)):
        f = Fraction(v)
        return f"{f.numerator}/{f.denominator}"
    if isinstance(v, float):
        if v == INF or v == -INF or v != v:
            return repr(v)
        f = Fraction(v).limit_denominator(10**6)
        if abs(float(f) - v) <= 1e-12 * max(1.0, abs(v)):
            return f"{f.numerator}/{f.denominator}"
        return f"{v:.8e}"
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(f"{canon(k)}:{canon(x)}" for k, x in v.items()) + "}"
    if isinstance(v, slice):
        return f"sl({canon(v.start)},{canon(v.stop)},{canon(v.step)})"
    return repr(v)


def same(a, b):
    if isinstance(a, list) or isinstance(b, list) or isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        # scalar against array: broadcast content
        arr, sc = (a, b) if isinstance(a, (list, tuple)) else (b, a)
        if isinstance(sc, (int, Fraction, float)) and not isinstance(sc, bool):
            return all(same(x, sc) for x in arr)
        return False
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b if isinstance(a, bool) and isinstance(b, bool) else (num(a) == num(b) if _isnum(a) and _isnum(b) else a == b)
    if _isnum(a) and _isnum(b):
        a, b = num(a), num(b)
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
            if a == b:
                return True
            if math.isinf(a) or math.isinf(b):
                return False
            return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        return a == b
    if isinstance(a, slice) and isinstance(b, slice):
        return (a.start or 0, a.stop, a.step or 1) == (b.start or 0, b.stop, b.step or 1)
    return a == b


def _isnum(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def num(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, (Fraction, float)):
        return v
    if isinstance(v, Op):
        n = int(v.h[:8], 16)
        return Fraction(n % 4001 - 2000, 137) or Fraction(1, 3)
    if v is None or isinstance(v, (str, dict, slice)):
        raise Reject("not a number")
    return v


def _uniform(v):
    """a constant array counts as its broadcast number"""
    if isinstance(v, list) and v:
        ys = [_uniform(x) for x in v]
        y = ys[0]
        if not isinstance(y, (list, dict, str)) and all(not isinstance(z, (list, dict, str)) and canon(z) == canon(y) for z in ys):
            return y
    return v


def bcast(f, *xs):
    """apply f elementwise with numpy broadcasting on nested lists"""
    if not any(isinstance(x, (list, tuple)) for x in xs):
        return f(*[num(x) for x in xs])
    ds = [depth(x) for x in xs]
    d = max(ds)
    n = max((len(x) for x, k in zip(xs, ds) if k == d), default=0)
    lens = {len(x) for x, k in zip(xs, ds) if k == d}
    if 0 in lens and lens <= {0, 1}:
        return []
    out = []
    for i in range(n):
        row = []
        for x, k in zip(xs, ds):
            if k < d:
                row.append(x)
            elif len(x) == 1:
                row.append(x[0])
            elif len(x) == n:
                row.append(x[i])
            else:
                raise Reject("shape mismatch")
        out.append(bcast(f, *row))
    return out


def depth(x):
    d = 0
    while isinstance(x, (list, tuple)):
        d += 1
        if not x:
            return d
        x = x[0]
    return d


def _add(a, b):
    return a + b


def _mul(a, b):
    if (isinstance(a, float) and math.isinf(a) and b == 0) or (isinstance(b, float) and math.isinf(b) and a == 0):
        return Fraction(0)
    return a * b


def _pow(a, e):
    if isinstance(e, Fraction) and e.denominator == 1 and abs(e) < 60:
        if a == 0 and e < 0:
            raise Reject("division by zero")
        return a ** int(e)
    if isinstance(a, float) and math.isinf(a):
        return INF if e > 0 else Fraction(0)
    if a < 0:
        raise Reject("root of a negative number")
    if a == 0:
        if e < 0:
            raise Reject("division by zero")
        return Fraction(0)
    if isinstance(e, float) and math.isinf(e):
        raise Reject("infinite exponent")
    try:
        return float(a) ** float(e)
    except OverflowError as x:
        raise Reject("overflow") from x


def zeros(s):
    return Fraction(0) if not s else [zeros(s[1:]) for _ in range(s[0])]


def nearly(r, v, zero=False):
    """v but for some entries that differ a little (or are close to zero)"""
    if isinstance(v, list):
        return [nearly(r, x, zero) for x in v]
    if r.random() < 0.5:
        e = Fraction(r.choice([1, -1]), 10 ** r.choice([2, 3, 6, 9, 13]))
        return e if zero else v + e
    return v


# names a user supplied class may have
CLASS_NAMES = ["UserClass", "NoCheckpointer", "AllCheckpointer", "PyrevolveCheckpointer"]


class Model:
    allow_rec = False
    def __init__(self, seed, dims=(), fixed=None, maxdim=3, shapes=True):
        self.rng = random.Random(seed)
        self.seed = seed
        self.dims = set(dims)
        self.fixed = dict(fixed or {})
        self.maxdim = maxdim
        self.memo = {}
        self.small = self.rng.random() < 0.5
        # models in which whole arrays vanish (conditions such as "anything to do?" hold in these)
        self.sparse = self.rng.random() < 0.3
        # models in which unrelated data of one shape coincide, or nearly coincide
        self.twin = random.Random(f"{seed}:twin").random() < 0.25
        # models with entries close to zero
        self.tiny = random.Random(f"{seed}:tiny").random() < 0.12
        self.bits = {}
        self.vh = {}

    # ------------------------------------------------------------- random data

    def scalar(self, key):
        r = random.Random(f"{self.seed}:{key}")
        if self.small:
            return Fraction(r.randint(-2, 3))
        return Fraction(r.randint(-40, 60), r.choice([3, 5, 7, 8]))

    def rnd(self, key, shp):
        if shp is None or len(shp) == 0:
            return self.scalar(key)
        return self._arr(key, shp)

    def data(self, name, shp):
        """content of a symbol"""
        if self.twin:
            r = random.Random(f"{self.seed}:twin:{name}")
            c = r.random()
            if c < 0.55:
                flat = [d for d in shp if d != 1]
                v = self.rnd(f"twin:{r.choice('ab')}:{flat}", shp)
                return v if c < 0.3 else nearly(r, v)
        if self.tiny:
            r = random.Random(f"{self.seed}:tiny:{name}")
            if r.random() < 0.5:
                return nearly(r, self.rnd("sym:" + name, shp), True)
        return self.rnd("sym:" + name, shp)

    def _arr(self, key, shp):
        if not shp:
            return self.scalar(key)
        return [self._arr(f"{key},{i}", shp[1:]) for i in range(shp[0])]

    def dimval(self, t):
        r = random.Random(f"{self.seed}:dim:{t}")
        return Fraction(r.randint(1, self.maxdim))

    def shp(self, t, bind):
        s = T.shape(t)
        if s is None:
            return None
        out = []
        for d in s:
            v = self.ev(d, bind)
            v = num(v)
            if v != int(v) or v < 0 or v > 60:
                raise Reject("bad dimension")
            out.append(int(v))
        return out

    def apph(self, name, vals):
        """key of an arbitrary function of the given values"""
        parts = []
        for v in vals:
            if isinstance(v, (list, dict)):
                k = self.vh.get(id(v))
                if k is None:
                    u = _uniform(v)
                    k = self.vh[id(v)] = (hsh(u) if isinstance(u, (list, dict)) else canon(u), v)
                parts.append(k[0])
            else:
                parts.append(canon(v))
        return hashlib.md5(("app:" + name + "|" + "|".join(parts)).encode()).hexdigest()

    def linear(self, name, keys, vec):
        """product of an arbitrary square matrix (lin:...) or its transpose (linT:...) with a vector"""
        h = self.apph("lin:" + name.partition(":")[2], keys)
        n = len(vec)
        M = self._arr(h, [n, n])
        if name.startswith("linT"):
            return [sum((M[j][i] * vec[j] for j in range(n)), Fraction(0)) for i in range(n)]
        return [sum((M[i][j] * vec[j] for j in range(n)), Fraction(0)) for i in range(n)]

    # -------------------------------------------------------------- evaluation

    def __call__(self, t, bind=None):
        return self.ev(t, bind or {})

    def ev(self, t, bind):
        if t in self.fixed:
            return self.fixed[t]
        if t.op == "bv" or t.op == "bvc":
            if t in bind:
                return bind[t]
            if t.op == "bv" and t in T.BV_DOM:
                raise Undecided("free index " + str(t))
            raise Undecided("free index " + str(t))
        key = t
        if bind and t.op not in ("num", "const", "sym"):
            bvs = _bound(t)
            if bvs:
                key = (t,) + tuple((b, bind[b]) for b in bvs if b in bind)
        try:
            r = self.memo.get(key, self)
        except TypeError:
            key, r = None, self
        if r is not self:
            if isinstance(r, Exception):
                raise r
            return r
        try:
            v = self._ev(t, bind)
        except (Undecided, Reject) as x:
            if key is not None:
                self.memo[key] = x
            raise
        except RecursionError as x:
            raise Undecided("recursion") from x
        if key is not None:
            self.memo[key] = v
        return v

    def truth(self, t, bind=None):
        v = self.ev(t, bind or {})
        return self.tv(v, t)

    def tv(self, v, t=None):
        if isinstance(v, bool):
            return v
        if isinstance(v, Op):
            return int(v.h[8:10], 16) % 2 == 0
        if v is None:
            return False
        if isinstance(v, (list, tuple, dict, str)):
            if isinstance(v, list) and len(v) > 1:
                raise Reject("truth value of an array")
            if isinstance(v, list) and len(v) == 1:
                # an array of one entry, or a sequence of one item
                if self.tv(v[0]):
                    return True
                if t is None or T.shape(t) is None:
                    raise Undecided("truth of a sequence or array")
                return False
            return bool(len(v))
        return v != 0

    def seq(self, dom, bind):
        """list of index values of a domain, in iteration order"""
        if dom.op == "rev":
            return list(reversed(self.seq(dom.args[0], bind)))
        if dom.op in ("range", "rangestep"):
            a = [num(self.ev(x, bind)) for x in dom.args]
            if any(isinstance(x, float) for x in a):
                raise Undecided("infinite domain")
            if any(x != int(x) for x in a):
                raise Reject("fractional range")
            r = range(*[int(x) for x in a])
            if len(r) > 400:
                raise Reject("long range")
            return [Fraction(k) for k in r]
        if dom.op == "while":
            return self.loop_seq(dom.args[0], dom, bind, dom.args[1])
        v = self.ev(dom, bind)
        if isinstance(v, (list, tuple)):
            return list(v)
        raise Undecided("domain " + dom.op)

    # -------------------------------------------------------------------- loops

    def loop(self, lid):
        info = T.LOOPS.get(lid)
        if info is None:
            raise Undecided("loop")
        return info

    def loop_bind(self, info, outer, bind):
        """bindings of the enclosing loops of a loop term"""
        return {b: self.ev(o, bind) for b, o in zip(info.outer, outer)}

    def loop_seq(self, lid, dom, bind, outer=None):
        """iterations of a loop, ended by its exits"""
        info = self.loop(lid)
        b0 = self.loop_bind(info, info.outer if outer is None else outer, bind)
        key = ("seq", lid, _vkey(list(b0.values())), dom.op)
        if key in self.memo:
            return self.memo[key]
        if dom.op == "while":
            it, cap = range(40), True
        else:
            it, cap = self.seq(dom, bind), False
        out = []
        for i in it:
            i = Fraction(i)
            b = {**b0, info.bv: i}
            if dom.op == "while" and info.is_while and info.cond is not None and not self.truth(info.cond, b):
                cap = False
                break
            out.append(i)
            if any(self.truth(c, b) for c in info.stops):
                cap = False
                break
        if cap:
            raise Reject("long loop")
        self.memo[key] = out
        return out

    def header(self, t, bind):
        """value of a cell at the head of an iteration: the recurrence evaluated"""
        lid, k, outer = t.args
        info = self.loop(lid)
        vals = [self.ev(o, bind) for o in outer]
        key = ("hdr", lid, k, _vkey(vals))
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        b0 = dict(zip(info.outer, vals[:-1]))
        at = vals[-1]
        kk = info.kkeys.get(k) if hasattr(info, "kkeys") else None
        if kk is None:
            raise Undecided("loop header " + k)
        prev = self.prev(info, at, b0)
        try:
            if prev is None:
                e = info.entry.get(kk)
                if e is None:
                    raise Undecided("no entry value " + k)
                v = self.ev(e, b0)
                v = self.full(v, t, bind)
            else:
                e = info.end.get(kk)
                if e is None or (e.op == "aref" and isinstance(e.args[0], int) and e is not info.entry.get(kk)):
                    raise Undecided("no end value " + k)
                v = self.ev(e, {**b0, info.bv: prev})
        except (Undecided, Reject) as x:
            self.memo[key] = x
            raise
        self.memo[key] = v
        return v

    def prev(self, info, at, b0):
        dom = info.dom
        if dom.op == "while":
            return at - 1 if at > 0 else None
        s = self.seq(dom, b0)
        for j, x in enumerate(s):
            if same(x, at):
                return s[j - 1] if j else None
        raise Reject("iteration outside the loop")

    def loopout(self, t, bind):
        lid, k, outer = t.args
        info = self.loop(lid)
        b0 = self.loop_bind(info, outer, bind)
        s = self.loop_seq(lid, info.dom, b0, info.outer)
        brk = k.endswith("!")
        k = k.rstrip("!")
        kk = info.kkeys.get(k)
        if brk and s:
            b = {**b0, info.bv: s[-1]}
            for c, v in info.brk.get(k, []):
                if self.truth(c, b):
                    if v is None:
                        break
                    return self.ev(v, b)
        if kk is None:
            e = info.entry_cells.get(k)
            if e is None:
                raise Undecided("loop value " + k)
            return self.ev(e, b0)
        if brk and s and any(self.truth(c, b) for c, _ in info.brk.get(k, [])):
            return self.header(mk("hdr", lid, k, tuple(info.outer) + (info.bv,)), b)
        if not s:
            e = info.entry.get(kk)
            if e is None:
                raise Reject("undefined after an empty loop")
            return self.full(self.ev(e, b0), t, bind)
        e = info.end.get(kk)
        if e is None or (e.op == "aref" and isinstance(e.args[0], int) and e is not info.entry.get(kk)) or (e.op == "hdr" and e.args[1] != k):
            raise Undecided("loop value " + k)
        return self.ev(e, {**b0, info.bv: s[-1]})

    def index(self, v, idx, bind, t=None):
        """v[idx] with evaluated index components"""
        if not idx:
            return v
        if isinstance(v, Op) or isinstance(v, str):
            if isinstance(v, str) and len(idx) == 1 and (isinstance(idx[0], (slice, int)) or _isnum(idx[0])):
                try:
                    return v[idx[0] if isinstance(idx[0], slice) else int(idx[0])]
                except IndexError:
                    raise Reject("index out of range")
            if isinstance(v, Op):
                return Op(hsh(["item", v, [self._ikey(i) for i in idx]]))
        if isinstance(v, dict):
            k = idx[0]
            k = _dk(k)
            if k not in v:
                raise Reject("missing key")
            return self.index(v[k], idx[1:], bind)
        i = idx[0]
        if i is None:
            return [self.index(v, idx[1:], bind)]
        if not isinstance(v, (list, tuple)):
            if _isnum(v):
                return v  # broadcast content
            raise Reject("index of a scalar")
        if i is Ellipsis:
            n = depth(v) - sum(1 for x in idx[1:] if x is not None)
            return self.index(v, [slice(None)] * n + list(idx[1:]), bind)
        if isinstance(i, slice):
            sub = v[i]
            return [self.index(x, idx[1:], bind) for x in sub] if len(idx) > 1 else list(sub)
        if isinstance(i, (list, tuple)):
            if i and all(isinstance(k, bool) for k in i):
                if len(i) != len(v):
                    raise Reject("mask of another length")
                i = [k for k, on in enumerate(i) if on]
            elif i and all(isinstance(k, (list, tuple)) for k in i) and all(isinstance(z, bool) for k in i for z in k) and len(idx) == 1:
                return [x for r, k in zip(v, i) for x, on in zip(r, k) if on]
            rest = list(idx[1:])
            if rest and isinstance(rest[0], (list, tuple)) and not any(isinstance(z, bool) for z in rest[0]) and len(rest[0]) == len(i):
                return [self.index(v, [k, z] + rest[1:], bind) for k, z in zip(i, rest[0])]
            return [self.index(v, [k] + rest, bind) for k in i]
        if isinstance(i, str) or isinstance(i, Op):
            return Op(hsh(["item", v, [self._ikey(k) for k in idx]]))
        k = num(i)
        if k != int(k):
            raise Reject("fractional index")
        k = int(k)
        if not -len(v) <= k < len(v):
            raise Reject("index out of range")
        return self.index(v[k], idx[1:], bind)

    def _ikey(self, i):
        return i if not isinstance(i, slice) else ["slice", i.start or 0, i.stop, i.step or 1]

    def store(self, v, idx, val):
        if not idx:
            if isinstance(v, (list, tuple)) and not isinstance(val, (list, tuple, dict)):
                return [self.store(x, (), val) for x in v] if _isnum(val) or isinstance(val, Op) else val
            if isinstance(v, (list, tuple)) and isinstance(val, (list, tuple)) and depth(val) < depth(v):
                return [self.store(x, (), val) for x in v]
            return val
        i = idx[0]
        if isinstance(v, dict):
            d = dict(v)
            d[_dk(i)] = self.store(d.get(_dk(i)), idx[1:], val) if idx[1:] else val
            return d
        if isinstance(v, Op) or _isnum(v) or v is None:
            if _isnum(v):
                raise Undecided("store into broadcast content")
            return Op(hsh(["store", v, [self._ikey(k) for k in idx], val]))
        if isinstance(i, slice):
            out = list(v)
            ks = list(range(len(v)))[i]
            for n, k in enumerate(ks):
                if isinstance(val, (list, tuple)) and depth(val) >= depth(v) - sum(1 for z in idx[1:] if not isinstance(z, slice)):
                    if len(val) == 1:
                        out[k] = self.store(v[k], idx[1:], val[0])
                    elif len(val) == len(ks):
                        out[k] = self.store(v[k], idx[1:], val[n])
                    else:
                        raise Reject("shape mismatch")
                else:
                    out[k] = self.store(v[k], idx[1:], val)
            return out
        if isinstance(i, (list, tuple)):
            ks = [k for k, on in enumerate(i) if on] if i and all(isinstance(k, bool) for k in i) else [int(num(k)) for k in i]
            if any(isinstance(z, (list, tuple)) for z in idx[1:]):
                raise Undecided("paired index lists")
            out = list(v)
            for n, k in enumerate(ks):
                if not -len(v) <= k < len(v):
                    raise Reject("index out of range")
                part = val
                if isinstance(val, (list, tuple)) and depth(val) >= depth(v) - sum(1 for z in idx[1:] if not isinstance(z, slice)):
                    if len(val) not in (1, len(ks)):
                        raise Reject("shape mismatch")
                    part = val[0] if len(val) == 1 else val[n]
                out[k] = self.store(out[k], idx[1:], part)
            return out
        if isinstance(i, (str, Op)):
            return Op(hsh(["store", v, [self._ikey(k) for k in idx], val]))
        k = num(i)
        if k != int(k) or not -len(v) <= int(k) < len(v):
            raise Reject("index out of range")
        out = list(v)
        out[int(k)] = self.store(v[int(k)], idx[1:], val)
        return out

    def full(self, v, t, bind):
        """broadcast scalar content of a base to its shape"""
        if _isnum(v) or isinstance(v, Op):
            s = self.shp(t, bind)
            if s:
                def rep(k):
                    return [rep(k + 1) for _ in range(s[k])] if k < len(s) else v
                return rep(0)
        return v

    def _idx(self, idx, bind):
        out = []
        for i in idx:
            if i.op == "slice":
                out.append(self._slice(i, bind))
            elif i is NONE:
                out.append(None)
            elif i is const(Ellipsis):
                out.append(Ellipsis)
            else:
                out.append(self.ev(i, bind))
        return out

    def _slice(self, i, bind):
        vs = []
        for x in i.args:
            if x is NONE:
                vs.append(None)
            else:
                v = num(self.ev(x, bind))
                if isinstance(v, float) or v != int(v):
                    raise Reject("slice")
                vs.append(int(v))
        return slice(*vs)

    def opaque(self, t, bind, parts=None):
        """uninterpreted function of the evaluated arguments"""
        key = ["op", t.op] + ([self._part(a, bind) for a in t.args] if parts is None else parts)
        s = self.shp(t, bind)
        h = hsh(key)
        if s:
            return self.rnd(h, s)
        if s == []:
            return self.rnd(h, [])
        return Op(hashlib.md5(f"{self.seed}:{h}".encode()).hexdigest())

    def _part(self, a, bind):
        if isinstance(a, Term):
            return self.ev(a, bind)
        if isinstance(a, tuple):
            return [self._part(x, bind) for x in a]
        return str(a)

    def _ev(self, t, bind):
        op, a = t.op, t.args
        if op in OPAQUE or (op == "res" and isinstance(a[1], str) and a[1].startswith("rec:")):
            raise Undecided(op + " " + T.show(t, 80))
        if op == "num":
            return a[0]
        if op == "const":
            return a[0]
        if op == "sym":
            if t in self.dims:
                return self.dimval(a[0])
            s = self.shp(t, bind)
            if s is None and a[0].endswith(("__name__", "__qualname__")):
                return random.Random(f"{self.seed}:name:{a[0]}").choice(CLASS_NAMES)
            if s is None:
                return Op(hashlib.md5(f"{self.seed}:sym:{a[0]}".encode()).hexdigest())
            if a[0].startswith(T.COUNT):
                r = random.Random(f"{self.seed}:{a[0]}")
                return Fraction(r.choice([1, 2, 3, 5, 10, 11, 20, 26, 51, 101, 1001, 10**6]))
            if t in T.INTS:
                return bcast(lambda x: Fraction(abs(int(x * 7)) % 5), self.rnd("sym:" + str(a[0]), s))
            if s and self.sparse and random.Random(f"{self.seed}:zero:{a[0]}").random() < 0.4:
                return zeros(s)
            return self.data(str(a[0]), s)
        if op == "hdr":
            return self.header(t, bind)
        if op == "loopout":
            return self.loopout(t, bind)
        if op == "lastit":
            info = self.loop(a[0])
            q = self.loop_seq(a[0], info.dom, bind, a[1])
            if not q:
                raise Reject("empty loop")
            return q[-1]
        if op == "ext":
            if a[0] == "inf":
                return INF
            return Op(hashlib.md5(("ext" + a[0]).encode()).hexdigest())
        if op == "poly":
            tot = None
            for m, c in a[0]:
                v = c
                for x, e in m:
                    xv = self.ev(x, bind)
                    ev_ = self.ev(e, bind)
                    if ev_ != 1:
                        xv = bcast(_pow, xv, ev_)
                    v = bcast(_mul, v, xv)
                tot = v if tot is None else bcast(_add, tot, v)
            return tot
        if op == "sum":
            dom, body, d = a
            k = mk("bvc", d)
            tot = Fraction(0)
            for i in self.seq(dom, bind):
                v = self.ev(body, {**bind, k: i})
                tot = bcast(_add, tot, v)
            return tot
        if op == "any":
            dom, body, d = a
            k = mk("bvc", d)
            return any(self.truth(body, {**bind, k: i}) for i in self.seq(dom, bind))
        if op == "amap":
            dom, body, d = a
            k = mk("bvc", d)
            return [self.ev(body, {**bind, k: i}) for i in self.seq(dom, bind)]
        if op in ("redmax", "redmin"):
            dom, body, d = a
            k = mk("bvc", d)
            vs = [num(self.ev(body, {**bind, k: i})) for i in self.seq(dom, bind)]
            if not vs:
                raise Reject("empty reduction")
            return max(vs) if op == "redmax" else min(vs)
        if op == "filt":
            dom, trip, d = a
            k = mk("bvc", d)
            out = []
            for i in self.seq(dom, bind):
                b = {**bind, k: i}
                if self.truth(trip.args[0][0], b):
                    out.append(self.ev(trip.args[0][1], b))
            return out
        if op == "first":
            dom, trip, d = a
            k = mk("bvc", d)
            for i in self.seq(dom, bind):
                b = {**bind, k: i}
                if self.truth(trip.args[0][0], b):
                    return self.ev(trip.args[0][1], b)
            raise Reject("no such element")
        if op == "mapstore":
            entry, dom, trip, d = a
            k = mk("bvc", d)
            v = self.full(self.ev(entry, bind), entry, bind)
            for i in self.seq(dom, bind):
                b = {**bind, k: i}
                if self.truth(trip.args[0][2], b):
                    v = self.store(v, self._idx(trip.args[0][0].args[0], b), self.ev(trip.args[0][1], b))
            return v
        if op == "hv" and not self.allow_rec:
            raise Undecided("unknown after a recursive call")
        if op == "app" and a[0].startswith(("lin:", "linT:")):
            # arbitrary linear operator (square): all values but the last select it
            return self.linear(a[0], [self.ev(x, bind) for x in a[2][:-1]], self.full(self.ev(a[2][-1], bind), a[2][-1], bind))
        if op == "app":
            h = self.apph(a[0], [self.ev(x, bind) for x in a[2]])
            if a[1] is None:
                return Op(hashlib.md5(f"{self.seed}:{h}".encode()).hexdigest())
            return self.rnd(h, self.shp(t, bind))
        if op == "full":
            return self.full(self.ev(a[0], bind), t, bind)
        if op == "store":
            v = self.full(self.ev(a[0], bind), a[0], bind)
            return self.store(v, self._idx(a[1], bind), self.ev(a[2], bind))
        if op == "item":
            v = self.ev(a[0], bind)
            return self.index(v, self._idx(a[1], bind), bind, t)
        if op == "ite":
            return self.ev(a[1], bind) if self.truth(a[0], bind) else self.ev(a[2], bind)
        if op == "gt0":
            return bcast(lambda x: x > 0, self.ev(a[0], bind))
        if op == "ge0":
            return bcast(lambda x: x >= 0, self.ev(a[0], bind))
        if op == "eq":
            x, y = self.ev(a[0][0], bind), self.ev(a[0][1], bind)
            if isinstance(x, Op) and _isnum(y):
                x = num(x)
            if isinstance(y, Op) and _isnum(x):
                y = num(y)
            return same(x, y)
        if op == "not":
            v = self.ev(a[0], bind)
            return not self.tv(v)
        if op == "and":
            return all(self.truth(x, bind) for x in a[0])
        if op == "or":
            return any(self.truth(x, bind) for x in a[0])
        if op == "truth":
            return self.truth(a[0], bind)
        if op in ("isinst", "in"):
            if op == "in":
                c = self.ev(a[1], bind)
                x = self.ev(a[0], bind)
                if isinstance(c, dict):
                    return _dk(x) in c
                if isinstance(c, (list, tuple)):
                    return any(same(x, y) for y in c)
            return self.tv(Op(hashlib.md5(f"{self.seed}:".encode() + hsh(["op", op] + [self._part(x, bind) for x in a]).encode()).hexdigest()))
        if op == "max":
            return bcast(lambda *x: max(x), *[self.ev(x, bind) for x in a[0]])
        if op == "min":
            return bcast(lambda *x: min(x), *[self.ev(x, bind) for x in a[0]])
        if op == "cast":
            return bcast(lambda x: self.scalar(hsh(["cast", a[0], x])), self.ev(a[1], bind))
        if op == "abs":
            return bcast(abs, self.ev(a[0], bind))
        if op == "tuple":
            return [self.ev(x, bind) for x in a[0]]
        if op == "dictv":
            return {_dk(self.ev(k, bind)): self.ev(v, bind) for k, v in a[0]}
        if op == "objv":
            return {"__class__": a[0], **{k.args[0]: self.ev(v, bind) for k, v in a[1]}}
        if op == "attr":
            b = self.ev(a[0], bind)
            if isinstance(b, dict) and a[1] in b:
                return b[a[1]]
            s = self.shp(t, bind)
            h = hsh(["attr", b, a[1]])
            if s is not None:
                return self.rnd(h, s)
            return Op(hashlib.md5(f"{self.seed}:{h}".encode()).hexdigest())
        if op == "fmt":
            return "".join(_s(self.ev(x, bind)) for x in a[0])
        if op == "concat":
            out = []
            for x in a[0]:
                v = self.ev(x, bind)
                if not isinstance(v, (list, tuple)):
                    s = self.shp(x, bind)
                    if s and _isnum(v):
                        v = [v] * s[0]
                    else:
                        raise Undecided("concat")
                out.extend(v)
            return out
        if op == "prefix":
            v = self.ev(a[0], bind)
            n = num(self.ev(a[1], bind))
            if isinstance(v, (list, tuple)) and n == int(n) and n >= 0:
                return list(v)[: int(n)]
            raise Reject("prefix")
        if op == "len":
            v = self.ev(a[0], bind)
            if isinstance(v, (list, tuple, str, dict)):
                return Fraction(len(v))
            return Fraction(int(hsh(["len", v])[:4], 16) % 3 + 1)
        if op in ("range", "rev"):
            return self.seq(t, bind)
        if op == "domlen":
            return Fraction(len(self.seq(a[0], bind)))
        if op == "slice":
            return self._slice(t, bind)
        if op == "transpose":
            v = self.ev(a[0], bind)
            if isinstance(v, list) and depth(v) == 2:
                return [list(r) for r in zip(*v)]
            return v
        if op == "flat":
            v = self.ev(a[0], bind)
            return flat(v)
        if op == "reshape":
            v = flat(self.ev(a[0], bind))
            shp = [num(self.ev(x, bind)) for x in a[1]]
            if isinstance(v, Op) or any(x != int(x) for x in shp):
                return self.opaque(t, bind)
            shp = [int(x) for x in shp]
            if -1 in shp:
                k = 1
                for x in shp:
                    if x != -1:
                        k *= x
                shp[shp.index(-1)] = len(v) // max(k, 1)
            return unflat(v, shp)
        if op == "roll":
            v = self.ev(a[0], bind)
            k = int(num(self.ev(a[1], bind)))
            if isinstance(v, list) and v:
                k %= len(v)
                return v[len(v) - k:] + v[: len(v) - k]
            return v
        if op == "flatmap":
            v = self.ev(a[0], bind)
            return [y for x in v for y in x]
        if op == "keyat":
            d = self.ev(a[0], bind)
            if isinstance(d, dict):
                return list(d)[int(num(self.ev(a[1], bind)))]
            return self.opaque(t, bind)
        if op in ("it_items", "it_keys", "it_values"):
            d = self.ev(a[0], bind)
            if isinstance(d, dict):
                return [list(x) for x in d.items()] if op == "it_items" else list(d.keys() if op == "it_keys" else d.values())
            return self.opaque(t, bind)
        if op == "call":
            return self._call(t, bind)
        if op == "res":
            # result of an external interaction: a function of its place in the run
            if str(a[0]).startswith("rec:") and not self.allow_rec:
                raise Undecided("recursive call " + str(a[0]))
            key = ["res", str(a[0]), a[1], [self.ev(x, bind) for x in a[2]]]
            s = self.shp(t, bind)
            h = hsh(key)
            if s is not None:
                return self.rnd(h, s)
            return Op(hashlib.md5(f"{self.seed}:{h}".encode()).hexdigest())
        if op == "divzero":
            raise Fails("division by zero")
        if op == "keyerror":
            raise Reject("missing key")
        if op == "diml":
            v = self.ev(a[0], bind)
            for _ in range(a[1]):
                if isinstance(v, list) and v:
                    v = v[0]
            if isinstance(v, list):
                return Fraction(len(v))
            raise Undecided("unknown dimension")
        if op in UNMODELLED or op.startswith("it_"):
            raise Undecided(op + " " + T.show(t, 80))
        return self.opaque(t, bind)

    def _call(self, t, bind):
        f, args, kw = t.args
        if f.op == "ext":
            n = f.args[0]
            vs = [self.ev(x, bind) for x in args]
            if n in FN1 and len(vs) == 1:
                return bcast(FN1[n], vs[0])
            if n == "int" and len(vs) == 1 and _isnum(vs[0]):
                return Fraction(int(vs[0]))
            if n == "numpy.prod" and isinstance(vs[0], list):
                r = Fraction(1)
                for x in flat(vs[0]):
                    r = r * num(x)
                return r
            if n in ("FloorDiv", "Mod") and all(_isnum(v) for v in vs):
                if vs[1] == 0:
                    raise Reject("division by zero")
                return vs[0] // vs[1] if n == "FloorDiv" else vs[0] % vs[1]
            if n == "set" and isinstance(vs[0], (list, tuple, dict)):
                return sorted(list(vs[0]), key=canon)
            if n == "numpy.mean" and isinstance(vs[0], list) and vs[0]:
                fl = flat(vs[0])
                r = Fraction(0)
                for x in fl:
                    r = r + num(x)
                return r / len(fl)
            if n in ("numpy.linalg.norm",) and len(vs) == 1 and isinstance(vs[0], list):
                return _norm(flat(vs[0]), dict((k, self.ev(v, bind)) for k, v in kw))
            if n == "numpy.linalg.norm" and len(vs) == 2 and isinstance(vs[0], list):
                return _norm(flat(vs[0]), {"ord": vs[1]})
            kws = {k: self.ev(v, bind) for k, v in kw}
            if n.startswith("str.") and vs and isinstance(vs[0], str) and not kws:
                return str_method(vs[0], n[4:], vs[1:])
            if n == "format" and len(vs) == 2 and _isnum(vs[0]) and isinstance(vs[1], str):
                return format_number(vs[0], vs[1])
            fn = LIB.get(n)
            if fn is not None:
                try:
                    return fn(vs, kws)
                except (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, OverflowError) as e:
                    if isinstance(e, (Undecided, Reject)):
                        raise
                    raise Undecided(f"library function {n}") from e
            if n in UNINTERPRETED:
                return self.opaque(t, bind)
            raise Undecided(f"library function {n}")
        if f.op == "attr" and isinstance(f.args[1], str):
            v = self.ev(f.args[0], bind)
            if isinstance(v, str) and not kw:
                return str_method(v, f.args[1], [self.ev(x, bind) for x in args])
            if isinstance(v, list):
                # method of an array
                if f.args[1] in ("flatten", "ravel"):
                    sh = T.shape(f.args[0])
                    o = self.ev(args[0], bind) if args else self.ev(dict(kw)["order"], bind) if dict(kw) else "C"
                    return _flatten(v, o, sh is not None and len(sh) == 1)
                fn = LIB.get("numpy." + f.args[1])
                if fn is None:
                    raise Undecided(f"array method {f.args[1]}")
                try:
                    return fn([v] + [self.ev(x, bind) for x in args], {k: self.ev(x, bind) for k, x in kw})
                except (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, OverflowError) as e:
                    if isinstance(e, (Undecided, Reject)):
                        raise
                    raise Undecided(f"array method {f.args[1]}") from e
        return self.opaque(t, bind)


def _norm(v, kw):
    o = kw.get("ord")
    xs = [abs(num(x)) for x in v]
    if o is None or o == 2:
        return _pow(sum((x * x for x in xs), Fraction(0)), Fraction(1, 2))
    if o in (INF, -INF) and not xs:
        raise Fails("zero-size array to a reduction without identity")
    if o == INF:
        return max(xs)
    if o == -INF:
        return min(xs)
    if o == 0:
        return Fraction(sum(1 for x in xs if x != 0))
    tot = Fraction(0)
    for x in xs:
        tot = tot + _pow(x, num(o))
    return _pow(tot, 1 / num(o) if not isinstance(num(o), float) else 1 / num(o))


# ------------------------------------------------------------ library functions

UNINTERPRETED = {"inspect.signature"}


def _l1(x):
    """one dimensional list of numbers"""
    if not isinstance(x, (list, tuple)):
        raise TypeError("list")
    return [num(v) for v in flat(x)]


def _mat(x):
    if not isinstance(x, (list, tuple)) or any(not isinstance(r, (list, tuple)) for r in x):
        raise TypeError("matrix")
    return [list(r) for r in x]


def _only(kw, *names):
    if any(k not in names for k in kw):
        raise TypeError("keyword")


def _at(vs, kw, i, name, default=None):
    return vs[i] if len(vs) > i else kw.get(name, default)


def _cum(op):
    def g(vs, kw):
        _only(kw, "axis")
        ax = _at(vs, kw, 1, "axis")
        x = vs[0]
        if ax is not None and depth(x) != 1:
            raise TypeError("axis")
        out, acc = [], None
        for v in _l1(x):
            acc = v if acc is None else (acc + v if op == "+" else acc * v)
            out.append(acc)
        return out

    return g


def _tri(keep):
    def g(vs, kw):
        _only(kw, "k")
        k = int(num(_at(vs, kw, 1, "k", Fraction(0))))
        return [[v if keep(i, j, k) else Fraction(0) for j, v in enumerate(r)] for i, r in enumerate(_mat(vs[0]))]

    return g


def _diag(vs, kw):
    _only(kw, "k", "offset")
    k = int(num(vs[1] if len(vs) > 1 else kw.get("k", kw.get("offset", Fraction(0)))))
    x = vs[0]
    if depth(x) == 1:
        n = len(x) + abs(k)
        return [[x[min(i, j)] if j - i == k else Fraction(0) for j in range(n)] for i in range(n)]
    m = _mat(x)
    return [r[i + k] for i, r in enumerate(m) if 0 <= i + k < len(r)]


def _eye(vs, kw):
    _only(kw, "dtype")
    n = int(num(vs[0]))
    return [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]


def _outer(vs, kw):
    _only(kw)
    return [[num(a) * num(b) for b in _l1(vs[1])] for a in _l1(vs[0])]


def _stack(vs, kw):
    _only(kw, "axis")
    if int(num(_at(vs, kw, 1, "axis", Fraction(0)))) != 0:
        raise TypeError("axis")
    return [list(x) if isinstance(x, (list, tuple)) else x for x in vs[0]]


def _vstack(vs, kw):
    _only(kw)
    out = []
    for x in vs[0]:
        if depth(x) == 1:
            out.append(list(x))
        else:
            out += _mat(x)
    return out


def _hstack(vs, kw):
    _only(kw)
    if any(depth(x) != 1 for x in vs[0]):
        raise TypeError("rank")
    return [v for x in vs[0] for v in x]


def _around(vs, kw):
    d = int(num(_at(vs, kw, 1, "ndigits", kw.get("decimals", Fraction(0)))))
    return bcast(lambda x: Fraction(round(Fraction(x) * 10 ** d)) / 10 ** d, vs[0])


def _clip(vs, kw):
    _only(kw)
    x, lo, hi = vs
    f = lambda v, a, b: min(max(v, a), b)
    return bcast(f, x, -INF if lo is None else lo, INF if hi is None else hi)


def _repeat(vs, kw):
    _only(kw)
    n = int(num(vs[1]))
    return [v for v in _l1(vs[0]) for _ in range(n)]


def _tile(vs, kw):
    _only(kw)
    return _l1(vs[0]) * int(num(vs[1]))


def _arg(best):
    def g(vs, kw):
        _only(kw)
        x = _l1(vs[0])
        return Fraction(x.index(best(x)))

    return g


def _f32(vs, kw):
    import struct

    _only(kw)
    return bcast(lambda x: Fraction(struct.unpack("f", struct.pack("f", float(x)))[0]), vs[0])


def _closeto(vs, kw):
    _only(kw, "rtol", "atol")
    r, a = num(_at(vs, kw, 2, "rtol", Fraction(1, 10 ** 5))), num(_at(vs, kw, 3, "atol", Fraction(1, 10 ** 8)))
    return bcast(lambda x, y: abs(x - y) <= a + r * abs(y), vs[0], vs[1])


def _mclose(vs, kw):
    _only(kw, "rel_tol", "abs_tol")
    x, y = num(vs[0]), num(vs[1])
    return abs(x - y) <= max(num(kw.get("rel_tol", Fraction(1, 10 ** 9))) * max(abs(x), abs(y)), num(kw.get("abs_tol", Fraction(0))))


def _avg(vs, kw):
    _only(kw, "weights")
    x = _l1(vs[0])
    w = _l1(kw["weights"]) if "weights" in kw else [Fraction(1)] * len(x)
    return sum(a * b for a, b in zip(x, w)) / sum(w)


def _plain(f, *names):
    def g(vs, kw):
        _only(kw, *names)
        return f(*vs)

    return g


def _path(name):
    import posixpath

    def f(vs, kws):
        if len(vs) != 1 or not isinstance(vs[0], str):
            raise Undecided("path function " + name)
        r = getattr(posixpath, name)(vs[0])
        return list(r) if isinstance(r, tuple) else r

    return f


LIB = {
    "numpy.logical_not": _plain(lambda x: bcast(lambda v: not v, x)), "numpy.broadcast_to": lambda vs, kw: bcast(lambda a, b: a, vs[0], zeros([int(num(d)) for d in _l1(_at(vs, kw, 1, "shape"))])),
    "numpy.cumsum": _cum("+"), "numpy.cumprod": _cum("*"), "numpy.triu": _tri(lambda i, j, k: j - i >= k), "numpy.tril": _tri(lambda i, j, k: j - i <= k),
    "numpy.diag": _diag, "numpy.diagonal": _diag, "numpy.trace": _plain(lambda m: sum((num(r[i]) for i, r in enumerate(_mat(m)) if i < len(r)), Fraction(0))),
    "numpy.eye": _eye, "numpy.identity": _eye, "numpy.outer": _outer, "numpy.stack": _stack, "numpy.vstack": _vstack, "numpy.hstack": _hstack,
    "round": _around, "numpy.round": _around, "numpy.around": _around, "numpy.rint": _around, "numpy.clip": _clip, "numpy.repeat": _repeat, "numpy.tile": _tile,
    "numpy.argmax": _arg(max), "numpy.argmin": _arg(min), "numpy.count_nonzero": _plain(lambda x: Fraction(sum(1 for v in flat([x]) if num(v) != 0))),
    "numpy.float32": _f32, "numpy.single": _f32, "numpy.isclose": _closeto, "numpy.allclose": lambda vs, kw: all(flat([_closeto(vs, kw)])), "math.isclose": _mclose,
    "numpy.average": _avg, "numpy.sort": _plain(lambda x: sorted(_l1(x))), "numpy.flip": _plain(lambda x: list(reversed(x))), "numpy.diff": _plain(lambda x: [b - a for a, b in zip(_l1(x), _l1(x)[1:])]),
    "numpy.median": _plain(lambda x: (sorted(_l1(x))[(len(x) - 1) // 2] + sorted(_l1(x))[len(x) // 2]) / 2),
    "math.prod": _plain(lambda x: _prod(x)), "numpy.prod": _plain(lambda x: _prod(x)), "numpy.sum": _plain(lambda x: sum(_l1(x), Fraction(0))), "numpy.max": _plain(lambda x: max(_l1(x))), "numpy.min": _plain(lambda x: min(_l1(x))), "numpy.any": _plain(lambda x: any(bool(v) for v in flat([x]))), "numpy.all": _plain(lambda x: all(bool(v) for v in flat([x]))),
    "numpy.floor_divide": _plain(lambda a, b: bcast(lambda x, y: x // y, a, b)), "numpy.mod": _plain(lambda a, b: bcast(lambda x, y: x % y, a, b)), "numpy.trunc": _plain(lambda x: bcast(lambda v: Fraction(int(v)), x)), "math.trunc": _plain(lambda x: Fraction(int(num(x)))),
    "numpy.nan_to_num": _plain(lambda x: x, "copy"), "numpy.squeeze": _plain(lambda x: _squeeze(x)), "numpy.atleast_1d": _plain(lambda x: x if isinstance(x, list) else [x]),
    "numpy.inner": _plain(lambda a, b: sum((x * y for x, y in zip(_l1(a), _l1(b))), Fraction(0))), "sorted": _plain(lambda x: sorted(_l1(x))),
    "divmod": _plain(lambda a, b: [num(a) // num(b), num(a) % num(b)]), "numpy.nonzero": _plain(lambda x: [[Fraction(i) for i, v in enumerate(_l1(x)) if v != 0]]),
    "numpy.linspace": _plain(lambda a, b, n: [num(a) + (num(b) - num(a)) * i / (int(num(n)) - 1) for i in range(int(num(n)))] if num(n) > 1 else [num(a)]),
    "numpy.ravel_multi_index": _plain(lambda ix, sh: _ravel_index(ix, sh)), **{"os.path." + n: _path(n) for n in ("dirname", "basename", "splitext", "split", "normpath")}, "os.fspath": _path("normpath"),
    "os.path.join": _plain(lambda *p: "/".join(p) if all(isinstance(x, str) for x in p) else _no()),
}


def _no():
    raise TypeError("value")


def _F(x):
    return Fraction(int(x)) if isinstance(x, bool) else Fraction(x)


def _red(fn):
    """reduction over everything, or over one axis of a matrix"""

    def g(vs, kw):
        _only(kw, "axis", "initial")
        ax = _at(vs, kw, 1, "axis")
        if kw.get("initial") is not None:
            raise TypeError("initial")
        x = vs[0]
        if ax is None or depth(x) == 1:
            return fn(_l1(x))
        m = _mat(x)
        if depth(x) != 2:
            raise TypeError("rank")
        return [fn([num(v) for v in r]) for r in (m if int(num(ax)) in (1, -1) else [list(c) for c in zip(*m)])]

    return g


def _where(vs, kw):
    _only(kw)
    if len(vs) == 1:
        return [[Fraction(i) for i, v in enumerate(_bools(vs[0])) if v]]
    return bcast(lambda c, a, b: a if c else b, *vs)


def _bools(x):
    return [bool(v) if isinstance(v, bool) else num(v) != 0 for v in flat(x)]


def _argsort(vs, kw):
    _only(kw, "kind", "stable")
    x = _l1(vs[0])
    return [Fraction(i) for i in sorted(range(len(x)), key=lambda i: x[i])]


def _searchsorted(vs, kw):
    import bisect

    _only(kw, "side")
    f = bisect.bisect_right if kw.get("side", "left") == "right" else bisect.bisect_left
    x = _l1(vs[0])
    return bcast(lambda v: Fraction(f(x, v)), vs[1])


def _unique(vs, kw):
    _only(kw)
    return sorted(set(_l1(vs[0])))


def _take(vs, kw):
    _only(kw, "axis")
    ax = _at(vs, kw, 2, "axis")
    if ax is not None and int(num(ax)) != 0 or (ax is None and depth(vs[0]) != 1):
        raise TypeError("axis")
    f = lambda i: vs[0][int(num(i))]
    return [f(i) for i in vs[1]] if isinstance(vs[1], list) else f(vs[1])


def _delete(vs, kw):
    _only(kw, "axis")
    n = len(vs[0])
    if depth(vs[0]) != 1 and kw.get("axis") != 0:
        raise TypeError("axis")
    drop = {int(num(i)) % n for i in (vs[1] if isinstance(vs[1], list) else [vs[1]])}
    return [v for i, v in enumerate(vs[0]) if i not in drop]


def _append(vs, kw):
    _only(kw)
    return _l1(vs[0]) + (_l1(vs[1]) if isinstance(vs[1], list) else [num(vs[1])])


def _split(vs, kw):
    _only(kw)
    x, at = vs
    if isinstance(at, list):
        at = [int(num(i)) for i in at]
    else:
        k = int(num(at))
        if len(x) % k:
            raise ValueError("split")
        at = [len(x) // k * i for i in range(1, k)]
    at = [0] + at + [len(x)]
    return [x[a:b] for a, b in zip(at, at[1:])]


def _colstack(vs, kw):
    _only(kw)
    return [list(r) for r in zip(*[_l1(x) for x in vs[0]])] if all(depth(x) == 1 for x in vs[0]) else _no()


def _swap(vs, kw):
    if depth(vs[0]) != 2:
        raise TypeError("rank")
    return [list(c) for c in zip(*vs[0])]


def _rot(k):
    def g(vs, kw):
        _only(kw)
        return [list(reversed(r)) for r in _mat(vs[0])] if k else list(reversed(vs[0]))

    return g


def _flip(vs, kw):
    _only(kw, "axis")
    ax = _at(vs, kw, 1, "axis")
    if ax is None and depth(vs[0]) > 1:
        return [list(reversed(r)) for r in reversed(vs[0])]
    if ax is None or int(num(ax)) == 0:
        return list(reversed(vs[0]))
    return [list(reversed(r)) for r in _mat(vs[0])]


def _roll(vs, kw):
    _only(kw, "axis")
    k = int(num(_at(vs, kw, 1, "shift")))
    ax = _at(vs, kw, 2, "axis")
    x = vs[0]
    if depth(x) > 1 and (ax is None or int(num(ax)) != 0):
        raise TypeError("axis")
    k %= max(len(x), 1)
    return x[-k:] + x[:-k] if k else list(x)


def _solve(vs, kw):
    _only(kw)
    a, b = _mat(vs[0]), vs[1]
    vec = depth(b) == 1
    m = [list(map(num, r)) + ([num(b[i])] if vec else [num(v) for v in b[i]]) for i, r in enumerate(a)]
    n = len(a)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i] != 0), None)
        if p is None:
            raise Reject("singular matrix")
        m[i], m[p] = m[p], m[i]
        m[i] = [v / m[i][i] for v in m[i]]
        for r in range(n):
            if r != i and m[r][i] != 0:
                m[r] = [x - m[r][i] * y for x, y in zip(m[r], m[i])]
    out = [r[n:] for r in m]
    return [r[0] for r in out] if vec else out


def _inv(vs, kw):
    n = len(vs[0])
    return _solve([vs[0], [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]], {})


def _det(vs, kw):
    m, d = [list(map(num, r)) for r in _mat(vs[0])], Fraction(1)
    n = len(m)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            m[i], m[p], d = m[p], m[i], -d
        d = d * m[i][i]
        for r in range(i + 1, n):
            q = m[r][i] / m[i][i]
            m[r] = [x - q * y for x, y in zip(m[r], m[i])]
    return d


def _kron(vs, kw):
    _only(kw)
    return [a * b for a in _l1(vs[0]) for b in _l1(vs[1])] if depth(vs[0]) == depth(vs[1]) == 1 else _no()


def _matmul(vs, kw):
    a, b = vs
    dot = lambda x, y: sum((num(p) * num(q) for p, q in zip(x, y)), Fraction(0)) if len(x) == len(y) else _no()
    if not isinstance(a, list) or not isinstance(b, list):
        return bcast(lambda x, y: x * y, a, b)
    cols = [list(c) for c in zip(*b)] if depth(b) == 2 else None
    if depth(a) == 1:
        return dot(a, b) if cols is None else [dot(a, c) for c in cols]
    return [dot(r, b) if cols is None else [dot(r, c) for c in cols] for r in a]


def _var(vs, kw):
    _only(kw)
    x = _l1(vs[0])
    mu = sum(x) / len(x)
    return sum((v - mu) ** 2 for v in x) / len(x)


def _std(vs, kw):
    v = _var(vs, kw)
    return _pow(v, Fraction(1, 2)) if "_pow" in globals() else float(v) ** 0.5


def _polyval(vs, kw):
    r = Fraction(0)
    for c in _l1(vs[0]):
        r = bcast(lambda q, x: q * x + c, r, vs[1])
    return r


def _arange(vs, kw):
    _only(kw, "dtype")
    v = [num(x) for x in vs]
    a, b, d = (Fraction(0), v[0], Fraction(1)) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else Fraction(1))
    out = []
    while (a < b if d > 0 else a > b) and len(out) < 200:
        out.append(a)
        a += d
    return out


def _array_equal(vs, kw):
    a, b = vs
    return canon(a) == canon(b)


def _tri_idx(up):
    def g(vs, kw):
        _only(kw, "k")
        n, k = int(num(vs[0])), int(num(_at(vs, kw, 1, "k", Fraction(0))))
        ix = [(i, j) for i in range(n) for j in range(n) if (j - i >= k if up else j - i <= k)]
        return [[Fraction(i) for i, _ in ix], [Fraction(j) for _, j in ix]]

    return g


def _tri_idx_from(up):
    return lambda vs, kw: _tri_idx(up)([Fraction(len(vs[0]))] + list(vs[1:]), kw)


def _mi(fn):
    def g(vs, kw):
        _only(kw)
        return Fraction(fn(*[int(num(v)) for v in vs]))

    return g


def _b2(fn):
    def g(vs, kw):
        _only(kw)
        return bcast(fn, *vs)

    return g


def _ipow(x, y):
    return _pw(x, y)


def _pw(x, y):
    if y == int(y):
        if x == 0 and y < 0:
            raise Reject("division by zero")
        return Fraction(x) ** int(y)
    if x < 0:
        raise Reject("root of a negative number")
    return float(x) ** float(y)


def _divz(x, y):
    if y == 0:
        raise Reject("division by zero")
    return x / y


def _bool2(fn):
    return _b2(lambda a, b: fn(bool(a) if isinstance(a, bool) else a != 0, bool(b) if isinstance(b, bool) else b != 0))


LIB.update({
    "numpy.flatnonzero": _plain(lambda x: [Fraction(i) for i, v in enumerate(_bools(x)) if v]),
    "numpy.argwhere": _plain(lambda x: [[Fraction(i)] for i, v in enumerate(_bools(x)) if v] if depth(x) == 1 else _no()),
    "numpy.where": _where, "numpy.argsort": _argsort, "numpy.searchsorted": _searchsorted, "numpy.unique": _unique, "numpy.take": _take,
    "numpy.delete": _delete, "numpy.append": _append, "numpy.split": _split, "numpy.array_split": lambda vs, kw: _split(vs, kw) if isinstance(vs[1], list) or len(vs[0]) % int(num(vs[1])) == 0 else _no(),
    "numpy.column_stack": _colstack, "numpy.swapaxes": _swap, "numpy.transpose": lambda vs, kw: _swap(vs, kw) if len(vs) == 1 and not kw and depth(vs[0]) == 2 else (vs[0] if depth(vs[0]) == 1 else _no()),
    "numpy.flipud": _rot(0), "numpy.fliplr": _rot(1), "numpy.flip": _flip, "numpy.roll": _roll,
    "numpy.linalg.solve": _solve, "numpy.linalg.inv": _inv, "numpy.linalg.det": _det, "numpy.kron": _kron, "numpy.matmul": _matmul, "numpy.dot": _matmul, "numpy.vdot": lambda vs, kw: _matmul([_l1(vs[0]), _l1(vs[1])], kw),
    "numpy.var": _var, "numpy.polyval": _polyval, "numpy.arange": _arange, "numpy.array_equal": _array_equal, "numpy.array_equiv": _array_equal,
    "numpy.triu_indices": _tri_idx(True), "numpy.tril_indices": _tri_idx(False), "numpy.triu_indices_from": _tri_idx_from(True), "numpy.tril_indices_from": _tri_idx_from(False),
    "numpy.isin": _b2(lambda x, *y: _no()), "numpy.setdiff1d": _plain(lambda a, b: sorted(set(_l1(a)) - set(_l1(b)))), "numpy.union1d": _plain(lambda a, b: sorted(set(_l1(a)) | set(_l1(b)))), "numpy.intersect1d": _plain(lambda a, b: sorted(set(_l1(a)) & set(_l1(b)))),
    "numpy.ptp": _plain(lambda x: max(_l1(x)) - min(_l1(x))), "numpy.hypot": _b2(lambda a, b: (float(a) ** 2 + float(b) ** 2) ** 0.5), "math.hypot": _b2(lambda a, b: (float(a) ** 2 + float(b) ** 2) ** 0.5),
    "numpy.square": _b2(lambda x: x * x), "numpy.reciprocal": _b2(lambda x: _divz(Fraction(1), x)), "numpy.positive": _b2(lambda x: x), "numpy.fix": _b2(lambda x: Fraction(int(x))),
    "numpy.power": _b2(_pw), "numpy.float_power": _b2(_pw), "numpy.divide": _b2(_divz), "numpy.true_divide": _b2(_divz), "numpy.remainder": _b2(lambda a, b: a % b), "numpy.fmod": _b2(lambda a, b: a - b * int(a / b)), "math.fmod": _b2(lambda a, b: a - b * int(a / b)),
    "numpy.copysign": _b2(lambda a, b: abs(a) if b >= 0 else -abs(a)), "math.copysign": _b2(lambda a, b: abs(a) if b >= 0 else -abs(a)),
    "numpy.heaviside": _b2(lambda a, b: b if a == 0 else Fraction(int(a > 0))), "numpy.logical_xor": _bool2(lambda a, b: a != b), "numpy.logical_and": _bool2(lambda a, b: a and b), "numpy.logical_or": _bool2(lambda a, b: a or b),
    "numpy.sum": _red(lambda x: sum(x, Fraction(0))), "numpy.nansum": _red(lambda x: sum(x, Fraction(0))), "numpy.mean": _red(lambda x: sum(x, Fraction(0)) / len(x)), "numpy.nanmax": _red(max), "numpy.nanmin": _red(min), "numpy.max": _red(max), "numpy.min": _red(min), "numpy.amax": _red(max), "numpy.amin": _red(min),
    "math.fsum": _plain(lambda x: sum(_l1(x), Fraction(0))), "math.gcd": _mi(math.gcd), "math.comb": _mi(math.comb), "math.perm": _mi(math.perm), "math.factorial": _mi(math.factorial), "math.isqrt": _mi(math.isqrt), "math.lcm": _mi(math.lcm),
    "math.dist": _plain(lambda a, b: float(sum((x - y) ** 2 for x, y in zip(_l1(a), _l1(b)))) ** 0.5), "math.cbrt": _plain(lambda x: math.copysign(abs(float(x)) ** (1 / 3), float(x))), "numpy.cbrt": _b2(lambda x: math.copysign(abs(float(x)) ** (1 / 3), float(x))),
    "numpy.bincount": _plain(lambda x: [Fraction(sum(1 for v in _l1(x) if v == i)) for i in range(int(max(_l1(x))) + 1)]), "numpy.ones_like": _b2(lambda x: Fraction(1)), "numpy.atleast_2d": _plain(lambda x: x if depth(x) > 1 else [x if isinstance(x, list) else [x]]),
    "numpy.expand_dims": lambda vs, kw: [vs[0]] if int(num(_at(vs, kw, 1, "axis"))) == 0 else ([[v] for v in vs[0]] if depth(vs[0]) == 1 else _no()),
    "operator.mul": _plain(lambda a, b: a * b), "operator.add": _plain(lambda a, b: a + b), "operator.sub": _plain(lambda a, b: a - b), "operator.truediv": _plain(_divz), "operator.neg": _plain(lambda a: -a),
})
del LIB["numpy.isin"]
LIB["numpy.isin"] = _plain(lambda x, y: bcast(lambda v: v in _l1(y), x))


def _flatten(x, order, vector=False):
    """elements of an array in C or Fortran order; an array of unknown rank may be a matrix"""
    if order in ("C", "A", "K") or vector:
        return flat([x])
    if order != "F":
        raise TypeError("order")
    if depth(x) == 1:
        if len(x) >= 4 and len(x) % 2 == 0:
            return x[0::2] + x[1::2]
        return list(x)
    rows = [_flatten(r, "F") if isinstance(r, list) and depth(r) > 1 else list(r) for r in x]
    return [r[j] for j in range(len(rows[0])) for r in rows]


def _reshape(vs, kw):
    _only(kw, "order", "newshape", "shape")
    shp = vs[1:] if len(vs) > 1 else [kw.get("newshape", kw.get("shape"))]
    if len(shp) == 1 and isinstance(shp[0], (list, tuple)):
        shp = list(shp[0])
    shp = [int(num(v)) for v in shp]
    fl = _flatten(vs[0], kw.get("order", "C")) if kw.get("order", "C") in ("C", "A", "K") else None
    if fl is None:
        if depth(vs[0]) != 1 or len(shp) != 2 or kw["order"] != "F":
            _no()
        fl = list(vs[0])
        if -1 in shp:
            shp[shp.index(-1)] = len(fl) // shp[1 - shp.index(-1)]
        return [[fl[j * shp[0] + i] for j in range(shp[1])] for i in range(shp[0])]
    if -1 in shp:
        k = 1
        for d in shp:
            k *= d if d != -1 else 1
        shp[shp.index(-1)] = len(fl) // k if k else 0
    k = 1
    for d in shp:
        k *= d
    if k != len(fl):
        raise Fails("cannot reshape")

    def cut(fl, shp):
        if len(shp) <= 1:
            return list(fl)
        k = len(fl) // shp[0] if shp[0] else 0
        return [cut(fl[i * k:(i + 1) * k], shp[1:]) for i in range(shp[0])]

    return cut(fl, shp)


def _einsum(vs, kw):
    """explicit and implicit subscripts, concrete operands"""
    _only(kw, "optimize")
    spec, ops = vs[0].replace(" ", ""), vs[1:]
    if "." in spec:
        raise TypeError("ellipsis")
    lhs, _, out = spec.partition("->")
    ins = lhs.split(",")
    if "->" not in spec:
        out = "".join(sorted(c for c in set(lhs.replace(",", "")) if lhs.count(c) == 1))
    if len(ins) != len(ops):
        raise TypeError("operands")
    size = {}
    for idx, x in zip(ins, ops):
        for c in idx:
            if not isinstance(x, list):
                raise Reject("an extent is lost in an empty array")
            if size.setdefault(c, len(x)) != len(x):
                raise Fails("operands could not be broadcast together")
            x = x[0] if x else None
    summed = [c for c in size if c not in out]

    def entry(env):
        tot = Fraction(0)
        for combo in itertools.product(*(range(size[c]) for c in summed)):
            e = dict(env, **dict(zip(summed, combo)))
            v = Fraction(1)
            for idx, x in zip(ins, ops):
                for c in idx:
                    x = x[e[c]]
                v = v * num(x)
            tot = tot + v
        return tot

    def build(cs, env):
        if not cs:
            return entry(env)
        return [build(cs[1:], dict(env, **{cs[0]: i})) for i in range(size[cs[0]])]

    return build(out, {})


LIB["numpy.einsum"] = _einsum
LIB["numpy.reshape"] = _reshape
LIB["numpy.ravel"] = lambda vs, kw: _flatten(vs[0], _at(vs, kw, 1, "order", "C"))


def _prod(x):
    r = Fraction(1)
    for v in _l1(x):
        r = r * v
    return r


def _squeeze(x):
    while isinstance(x, list) and len(x) == 1:
        x = x[0]
    return x


def _ravel_index(ix, sh):
    r = Fraction(0)
    for i, n in zip(ix, sh):
        r = r * num(n) + num(i)
    return r


def _f(fn):
    def g(x):
        try:
            return fn(float(x))
        except (OverflowError, ValueError) as e:
            raise Reject("domain") from e

    return g


# treat values as possibly not finite where only their transport matters
ANY_VALUE = False


def _nonfinite(x, kind, r):
    if ANY_VALUE and isinstance(x, Fraction):
        h = (x.numerator * 7 + x.denominator) % 5
        return h < 2 and (kind == 1 or (kind == 2) == (h == 0))
    return r


FN1 = {"fn.arctan": _f(math.atan), "fn.arcsin": _f(math.asin), "fn.arccos": _f(math.acos), "fn.log10": _f(math.log10), "fn.log2": _f(math.log2), "fn.log1p": _f(math.log1p), "fn.expm1": _f(math.expm1), "fn.exp": _f(math.exp), "fn.log": _f(math.log), "fn.sin": _f(math.sin), "fn.cos": _f(math.cos), "fn.tan": _f(math.tan), "fn.sinh": _f(math.sinh), "fn.cosh": _f(math.cosh), "fn.tanh": _f(math.tanh), "fn.floor": lambda x: Fraction(math.floor(x)), "fn.ceil": lambda x: Fraction(math.ceil(x)), "fn.sign": lambda x: Fraction((x > 0) - (x < 0)), "fn.isnan": lambda x: _nonfinite(x, 2, x != x), "fn.isfinite": lambda x: not _nonfinite(x, 1, isinstance(x, float) and (math.isinf(x) or x != x)), "fn.isinf": lambda x: _nonfinite(x, 3, isinstance(x, float) and math.isinf(x))}



def _dk(k):
    if isinstance(k, (list, tuple)):
        return tuple(_dk(x) for x in k)
    return k


STR_METHODS = {"replace", "lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "startswith", "endswith", "find", "rfind", "partition", "rpartition", "removesuffix", "removeprefix", "title", "capitalize", "count", "zfill", "isdigit", "casefold"}


def str_method(v, name, args):
    """method of a text value"""
    if name in ("joinpath", "with_suffix", "with_name", "as_posix") and all(isinstance(x, str) for x in args):
        # a path is read as its text
        import pathlib

        return str(getattr(pathlib.PurePosixPath(v), name)(*args))
    if name not in STR_METHODS:
        raise Undecided("text method " + name)
    try:
        r = getattr(v, name)(*[int(x) if _isnum(x) and not isinstance(x, bool) else tuple(x) if isinstance(x, list) else x for x in args])
    except (TypeError, ValueError) as e:
        raise Undecided("text method " + name) from e
    return Fraction(r) if type(r) is int else list(r) if isinstance(r, tuple) else r


def format_number(v, spec):
    if spec[-1:] in "dxob" and v == int(v):
        return format(int(v), spec)
    if spec[-1:] in "eEfFgG%":
        return format(float(v), spec)
    raise Undecided("number format " + spec)


def _s(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return str(int(v))
    if isinstance(v, (Op, list, dict)):
        return canon(v)
    return str(v)


def flat(v):
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            f = flat(x)
            if isinstance(f, list):
                out.extend(f)
            else:
                out.append(f)
        return out
    return v


def unflat(v, shp):
    if not isinstance(v, list):
        return v
    n = 1
    for x in shp:
        n *= x
    if n != len(v):
        raise Reject("reshape")
    if len(shp) <= 1:
        return list(v)
    step = n // shp[0] if shp[0] else 0
    return [unflat(v[i * step:(i + 1) * step], shp[1:]) for i in range(shp[0])]


def _vkey(vals):
    return tuple(v if isinstance(v, Fraction) else canon(v) for v in vals)


_HB: dict = {}


def _bound(t):
    """the bound indices a term mentions"""
    r = _HB.get(t)
    if r is None:
        if t.op in ("bv", "bvc"):
            r = (t,)
        else:
            out = {}
            for c in T.children(t.args):
                for b in _bound(c):
                    out[b] = None
            r = tuple(out)
        _HB[t] = r
    return r
