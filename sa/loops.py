"""Summaries of loops from one generic iteration."""

from __future__ import annotations

import ast

from . import terms as T
from .terms import FALSE, FULL, NONE, ONE, TRUE, ZERO, T as Term, const, mk


def filt(bv, dom, cond, el):
    trip = mk("tuple", (cond, el))
    cb = T.close(bv, trip)
    return mk("filt", dom, cb, 1 + T.depth_of(trip))


def first(bv, dom, cond, val):
    """val at the first index where cond holds"""
    trip = mk("tuple", (cond, val))
    cb = T.close(bv, trip)
    return mk("first", dom, cb, 1 + T.depth_of(trip))


def _new_ids(t, mark):
    for s in T.subterms(t):
        if s.op in ("obj", "list", "dict") and s.args[0] > mark:
            return True
        if s.op == "aref" and isinstance(s.args[0], int) and s.args[0] > mark:
            return True
    return False


class _Pass:
    pass


def run_loop(E, dom, elem, bind, body, orelse, st, node, cond_node, filter_=None):
    from .interp import Dead, Exit, LoopInfo, State

    entry = st.copy()
    lid = E.stable("loop", (getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
    bv = T.fresh_bv()
    is_while = cond_node is not None
    outer = tuple(b for b, _, _ in E.loops)
    n_eff = len(E.effects)
    n_sink = len(E.sinks[-1])
    n_wr = len(E.written)
    mark = E._n
    occ0 = dict(E.occ)
    active = {fid for _, fid in E.stack}
    for fid in list(active):
        c = E.frames[fid][2]
        while c is not None:
            active.add(c)
            c = E.frames[c][2]
    base_dom = dom if dom is not None else mk("while", lid, outer)

    def default(k, s):
        if k[0] == "x":
            return E.content(s, k[1])
        if k[0] == "fx":
            return mk("attr", k[1], k[2])
        return None

    def relevant(k, s0):
        if k in entry.cells:
            return True
        if k[0] == "v":
            return k[1] in active
        if k[0] in ("x", "fx"):
            return not T.contains(k[1], bv) and not _new_ids(k[1], mark)
        if k[0] == "epoch":
            return True
        if k[0] in ("f", "a", "L", "D"):
            return k in E.gcells
        return False

    def make_h(k):
        h = mk("hdr", lid, _kstr(k), outer + (bv,))
        if k[0] == "a" and k[1] in E.ashape:
            T.SHAPES[h] = T.HDR_SHAPES[h.args[:2]] = E.ashape[k[1]]
        elif k[0] in ("v", "f"):
            e = entry.cells.get(k)
            if e is not None:
                sh = T.shape(e)
                if sh is not None:
                    T.SHAPES[h] = sh
        return h

    def one(headers, d):
        """one generic iteration; returns _Pass"""
        del E.effects[n_eff:]
        del E.sinks[-1][n_sink:]
        del E.written[n_wr:]
        E.occ = dict(occ0)
        p = _Pass()
        h = entry.copy()
        for k, v in headers.items():
            if v is not None:
                h.cells[k] = v
        p.head = h.copy()
        T.BV_DOM[bv] = d
        E.loops.append((bv, d, lid))
        p.cond = TRUE
        p.exit_state = p.head
        try:
            E.set_facts(h)
            exits = []
            try:
                if is_while:
                    c = E.cond(cond_node, h)
                    p.cond = c
                    p.exit_state = h.copy()
                    if c is FALSE:
                        exits = []
                        raise Dead()
                    h.assume(c)
                    exits = body(h)
                else:
                    el = elem(bv)
                    bind(h, el)
                    if filter_ is not None:
                        fc = filter_(bv)
                        exits = E.branch(fc, body, lambda x: [Exit("next", x)], h)
                    else:
                        exits = body(h)
            except Dead:
                pass
        finally:
            E.loops.pop()
            E.set_facts(entry)
        p.ends = [e.st for e in exits if e.kind in ("next", "continue")]
        p.breaks = [e for e in exits if e.kind == "break"]
        p.returns = [e for e in exits if e.kind == "return"]
        p.raises = [e for e in exits if e.kind == "raise"]
        p.sink = E.sinks[-1][n_sink:]
        del E.sinks[-1][n_sink:]
        p.end = E.join(p.ends) if p.ends else None
        return p

    def changes(p):
        out = set()
        for s in ([p.end] if p.end is not None else []) + ([p.exit_state] if is_while else []):
            for k, v in s.cells.items():
                hv = p.head.cells.get(k)
                if hv is None:
                    hv = E.gcells.get(k)
                if hv is None:
                    hv = default(k, p.head)
                if v is not hv and relevant(k, s):
                    out.add(k)
            for k in p.head.cells:
                if k not in s.cells and k[0] == "x":
                    out.add(k)
        return out

    headers = {}
    p = None
    for _ in range(10):
        p = one(headers, base_dom)
        if is_while and p.cond is FALSE and not headers:
            # never entered
            for e in p.sink:
                E.sinks[-1].append(e)
            return orelse(p.exit_state)
        new = [k for k in changes(p) if k not in headers]
        if not new:
            break
        for k in new:
            headers[k] = make_h(k)
    info = LoopInfo()
    info.bv, info.loc = bv, E.loc(node)
    info.outer = outer
    info.stops = []
    info.dom = base_dom
    info.is_while = is_while
    info.brk = {}
    E.loopinfo[lid] = info
    T.LOOPS[lid] = info

    # ---- the body never completes: at most one iteration
    if p.end is None:
        info.stops = [TRUE]
        return _once(E, p, entry, base_dom, bv, is_while, orelse, Exit, State)

    # ---- closed forms of header values
    def entval(k):
        v = entry.cells.get(k)
        if v is None:
            v = E.gcells.get(k)
        if v is None:
            v = default(k, entry)
        if v is not None and v.op == "aref" and isinstance(v.args[0], int) and k[0] == "v" and rebound(k):
            v = E.deref(v, entry)
        return v

    def fresh(e):
        if e.op == "ite":
            return fresh(e.args[1]) and fresh(e.args[2])
        return e.op == "aref" and isinstance(e.args[0], int) and e.args[0] > mark and not e.args[1]

    def rebound(k):
        """a variable that holds an array before the loop and a new value after every iteration"""
        e = p.end.cells.get(k) if p.end is not None else None
        if e is None or len(k) < 3 or not fresh(e):
            return False
        if E.deref(e, p.end).op in ("unk", "call", "hv", "res"):
            return False
        for n in ast.walk(node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == k[2]:
                return False
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == k[2]:
                return False
        return True

    def endval(k):
        """value at the end of an iteration; a fresh array of every iteration by its content"""
        e = p.end.cells.get(k)
        v = entry.cells.get(k)
        if k[0] == "v" and e is not None and v is not None and (v.op == "aref" or T.numeric(v)) and rebound(k):
            return E.deref(e, p.end)
        return e

    hdr = {}  # key -> closed form at iteration bv
    acc = {}  # key -> summand of an accumulation
    Hs = {headers[k]: k for k in headers}

    def unsolved(t, solved):
        return any(s in Hs and Hs[s] not in solved for s in T.subterms(t) if s.op == "hdr")

    lo, hi, rev = _bounds(base_dom)

    def closed_forms(d):
        lo, hi, rev = _bounds(d)
        solved = {}
        progress = True
        while progress:
            progress = False
            sub = {headers[k]: v for k, v in solved.items()}
            for k in headers:
                if k in solved:
                    continue
                H = headers[k]
                ent = entval(k)
                e = endval(k)
                if e is None:
                    continue
                e = T.subst(e, sub) if sub else e
                if e is H:
                    if ent is not None:
                        solved[k] = ent
                        progress = True
                    continue
                # pop
                if e.op == "prefix" and e.args[0] is H and e.args[1] is T.sub(T.tlen(H), ONE) and ent is not None:
                    if not rev:
                        solved[k] = T.prefix(ent, T.sub(T.sub(T.tlen(ent), bv), T.neg(lo)))
                        progress = True
                    continue
                dl = delta(e, H)
                if dl is not None and not unsolved(dl, solved) and not T.contains(dl, H) and ent is not None and T.numeric(ent):
                    if not T.contains(dl, bv):
                        cnt = T.sub(bv, lo) if not rev else T.sub(T.sub(hi, ONE), bv)
                        solved[k] = T.add(ent, T.mul(dl, cnt))
                        progress = True
                    elif not _new_ids(dl, mark) and T.base_dom(d).op in ("range", "while"):
                        j = T.fresh_bv()
                        rng = mk("range", lo, bv) if not rev else mk("range", T.add(bv, ONE), hi)
                        solved[k] = T.add(ent, T.msum(j, rng, T.subst(dl, {bv: j})))
                        acc[k] = dl
                        progress = True
                    continue
                if not T.contains(e, H) and not unsolved(e, solved) and ent is not None and not _new_ids(e, mark) and k[0] in ("v", "f", "a") and T.base_dom(d).op in ("range", "while"):
                    prev = T.subst(e, {bv: T.sub(bv, ONE) if not rev else T.add(bv, ONE)})
                    g = T.gt0(T.sub(bv, lo)) if not rev else T.gt0(T.sub(T.sub(hi, ONE), bv))
                    solved[k] = T.ite(g, prev, ent)
                    progress = True
        return solved

    forced_exit = is_while and p.cond is TRUE
    if forced_exit:
        hdr = {}
    else:
        hdr = closed_forms(base_dom)
    dom2 = base_dom
    if is_while and not forced_exit:
        c = T.subst(p.cond, {headers[k]: v for k, v in hdr.items()})
        n = _count(c, bv)
        if n is not None and not any(s in Hs and Hs[s] not in hdr for s in T.subterms(n)):
            dom2 = mk("range", ZERO, n)
            hdr = closed_forms(dom2)
    # ---- final pass with the closed forms in place
    hmap = {k: hdr.get(k, headers[k]) for k in headers}
    p = one(hmap, dom2)
    if p.end is None:
        info.stops = [TRUE]
        return _once(E, p, entry, dom2, bv, is_while, orelse, Exit, State)
    late = [k for k in changes(p) if k not in headers]
    for k in late:
        headers[k] = make_h(k)
    lo, hi, rev = _bounds(dom2)
    n_iter = T.dom_len(T.base_dom(dom2))
    nonempty = T.gt0(n_iter) if T.base_dom(dom2).op == "range" else T.gt0(mk("domlen", dom2))
    kn = T.known(nonempty)
    if kn is True:
        nonempty = TRUE
    last = T.sub(hi, ONE) if not rev else lo
    if T.base_dom(dom2).op != "range":
        last = T.sub(mk("domlen", dom2), ONE)
    info.dom = dom2
    info.headers = dict(hmap)
    info.keys = dict(headers)
    info.entry = {k: entval(k) for k in headers}
    info.end = {k: endval(k) for k in headers}
    for k, v in info.end.items():
        if v is not None and v.op in ("concat", "store", "mapstore", "tuple", "ite", "dictv"):
            info.end[k] = E.materialize(v, p.end, only=mark)
    info.cond = p.cond
    info.breaks = p.breaks
    info.forced_exit = forced_exit
    info.p = p
    info.kkeys = {_kstr(k): k for k in headers}
    info.entry_cells = {_kstr(k): v for k, v in entry.cells.items()}

    final = {}
    store_sub = {}
    for k in headers:
        H = headers[k]
        ent = entval(k)
        e = endval(k)
        if e is None:
            continue
        if k in hdr:
            h = hdr[k]
            if e is h:
                final[k] = h if not T.contains(h, bv) else (ent if ent is not None else h)
                if T.contains(h, bv):
                    final[k] = T.ite(nonempty, T.subst(h, {bv: last}), ent) if ent is not None else h
                continue
            if ent is not None and T.numeric(ent) and not (e.op == "prefix"):
                if k in acc and T.base_dom(dom2).op == "range" and T.equal(e, T.add(h, acc[k])):
                    final[k] = T.add(ent, T.msum(bv, T.base_dom(dom2), acc[k]))
                    continue
                # value after the last iteration: header form advanced by one iteration
                adv = T.add(bv, ONE) if not rev else T.sub(bv, ONE)
                nxt = T.subst(h, {bv: adv})
                if T.equal(nxt, e) and delta_closed(h, ent, bv, lo):
                    end_at = hi if not rev else T.sub(lo, ONE)
                    if T.base_dom(dom2).op != "range":
                        end_at = mk("domlen", dom2)
                    final[k] = T.subst(h, {bv: end_at})
                    continue
            if e.op == "prefix":
                end_at = hi if T.base_dom(dom2).op == "range" else mk("domlen", dom2)
                final[k] = T.subst(h, {bv: end_at})
                continue
            v = T.subst(e, {bv: last})
            final[k] = v if ent is None else T.ite(nonempty, v, ent)
            continue
        # 'last value' cells
        if not T.contains(e, H) and not _has_hdr(e, Hs):
            if k[0] == "v" and ent is None:
                final[k] = E.materialize(e, p.end, only=mark) if False else T.subst(e, {bv: last})
                continue
            if not _new_ids(e, mark):
                v = T.subst(e, {bv: last})
                final[k] = v if ent is None else T.ite(nonempty, v, ent)
                continue
        # appends
        ap = appended(e, H)
        if ap is not None and ent is not None and k[0] == "L":
            el, g = ap
            el = [E.materialize(x, p.end, only=mark) for x in el]
            if not any(_has_hdr(x, Hs) for x in el) and not _has_hdr(g, Hs):
                if g is TRUE and len(el) == 1:
                    m = T.amap(bv, dom2, el[0])
                    pre = lambda: T.amap(bv, dom2, el[0])
                    final[k] = E.concat(ent, m)
                elif len(el) == 1:
                    final[k] = E.concat(ent, filt(bv, dom2, g, el[0]))
                else:
                    final[k] = E.concat(ent, mk("flatmap", T.amap(bv, dom2, mk("tuple", tuple(el))) if g is TRUE else filt(bv, dom2, g, mk("tuple", tuple(el)))))
                continue
        # boolean accumulation
        if T.is_boolish(e) and ent is not None:
            ba = bool_accum(e, H)
            if ba is not None and not _has_hdr(ba[1], Hs):
                kind, c = ba
                final[k] = T.lor(ent, T.many(bv, dom2, c)) if kind == "or" else T.land(ent, T.lnot(T.many(bv, dom2, T.lnot(c))))
                continue
        # max/min accumulation
        if e.op in ("max", "min") and H in e.args[0] and ent is not None:
            rest = [x for x in e.args[0] if x is not H]
            if not any(T.contains(x, H) or _has_hdr(x, Hs) for x in rest):
                body_ = rest[0] if len(rest) == 1 else mk(e.op, tuple(rest))
                red = mk("red" + e.op, T.base_dom(dom2), T.close(bv, body_), 1 + T.depth_of(body_)) if T.contains(body_, bv) else body_
                f = T.tmax if e.op == "max" else T.tmin
                final[k] = f(ent, red)
                continue
        # indexed stores
        ss = stores(e, H)
        if ss is not None and ent is not None and (k[0] in ("a", "x", "D", "L")):
            ent = E.based(k, ent)
            r = solve_stores(E, ss, H, ent, bv, dom2, Hs, p.end, mark, nonempty, last)
            if r is not None:
                final[k] = r
                store_sub[H] = (k, ss, ent)
                continue
        lo_t = mk("loopout", lid, _kstr(k), outer)
        if H in T.SHAPES:
            T.SHAPES[lo_t] = T.SHAPES[H]
        final[k] = lo_t
    info.final = dict(final)

    # header symbols of store cells inside recorded effects
    if store_sub:
        m = {}
        for H, (k, ss, ent) in store_sub.items():
            m[H] = prefix_value(ss, H, ent, bv, dom2)
        m = {a: b for a, b in m.items() if b is not None}
        if m:
            for eff in E.effects[n_eff:]:
                eff.add_subst(m)

    out = []
    after = entry.copy()
    # new heap cells stay visible (generic iteration)
    for k, v in p.end.cells.items():
        if k not in after.cells and k not in headers and not (k[0] == "v" and k[1] not in active):
            after.cells[k] = v
    for k, v in final.items():
        after.cells[k] = v
    if is_while:
        # effects of evaluating the condition once more
        for k, v in p.exit_state.cells.items():
            if k not in after.cells:
                after.cells[k] = v
    hpc = set(p.head.pc)
    cpc = set(hpc)
    if is_while:
        tmp = State({}, p.head.pc)
        tmp.assume(p.cond)
        cpc |= set(tmp.pc)

    def rel(s):
        return T.land(*[x for x in s.pc if x not in cpc])

    info.stops = [rel(e.st) for e in p.breaks + p.returns + p.raises + p.sink]

    if forced_exit:
        # the loop is left only from inside: the exit iteration is named
        ex = {bv: mk("lastit", lid, outer)}

        def at_exit(e):
            return State({k: T.subst(v, ex) for k, v in e.st.cells.items()}, tuple(x for x in (T.subst(c, ex) for c in e.st.pc) if x is not TRUE))

        for e in p.raises:
            out.append(Exit("raise", at_exit(e), T.subst(e.val, ex) if isinstance(e.val, Term) else e.val, e.loc))
        for e in p.sink:
            E.sinks[-1].append(Exit("raise", at_exit(e), e.val, e.loc))
        for e in p.returns:
            out.append(Exit("return", at_exit(e), T.subst(e.val, ex), e.loc))
        if p.breaks:
            out.append(Exit("next", E.join([at_exit(e) for e in p.breaks])))
        return out

    miss = []

    def lift(e, keep_val=True):
        c = rel(e.st)
        m = T.many(bv, dom2, c)
        s2 = State(dict(e.st.cells), entry.pc)
        s2.assume(m)
        return c, m, s2

    for e in p.raises:
        c, m, s2 = lift(e)
        out.append(Exit("raise", s2, e.val, e.loc))
        miss.append(T.lnot(m))
    for e in p.sink:
        c, m, s2 = lift(e)
        E.sinks[-1].append(Exit("raise", s2, e.val, e.loc))
        miss.append(T.lnot(m))
    for e in p.returns:
        c, m, s2 = lift(e)
        v = e.val
        if T.contains(v, bv):
            v = first(bv, dom2, c, E.materialize(v, e.st, only=mark))
        out.append(Exit("return", s2, v, e.loc))
        miss.append(T.lnot(m))
    unchanged = all(final.get(k) is entval(k) or (k[0] == "v" and entval(k) is None) or (k[0] == "v" and _is_loop_target(k, node)) for k in final)
    nxt_states = []
    for e in p.breaks:
        c, m, s2 = lift(e)
        if unchanged:
            s3 = after.copy()
            for k, v in e.st.cells.items():
                if k in entry.cells or (k[0] == "v" and k[1] in active):
                    if v is not p.head.cells.get(k):
                        s3.cells[k] = first(bv, dom2, c, E.materialize(v, e.st, only=mark)) if T.contains(v, bv) else v
                elif k not in s3.cells:
                    s3.cells[k] = v
            s3.pc = entry.pc
            s3.assume(m)
            nxt_states.append(s3)
        else:
            s3 = after.copy()
            for k in set(final) | {k for k, v in e.st.cells.items() if k in entry.cells and v is not p.head.cells.get(k)}:
                if k[0] == "v" and entval(k) is None:
                    continue
                t = mk("loopout", lid, _kstr(k) + "!", outer)
                info.brk.setdefault(_kstr(k), []).append((c, e.st.cells.get(k)))
                if k[0] == "a" and k[1] in E.ashape:
                    T.SHAPES[t] = E.ashape[k[1]]
                s3.cells[k] = t
            s3.pc = entry.pc
            tot = [m]
            for e2 in p.breaks:
                if e2 is not e:
                    c2, m2, _ = lift(e2)
                    tot.append(m2)
                    for k in list(s3.cells):
                        if s3.cells[k].op == "loopout" and s3.cells[k].args[0] == lid:
                            info.brk.setdefault(_kstr(k), []).append((c2, e2.st.cells.get(k)))
            s3.assume(T.lor(*tot))
            nxt_states.append(s3)
            miss.append(T.lnot(T.lor(*tot)))
            break
        miss.append(T.lnot(m))
    if after is not None:
        for m in miss:
            after.assume(m)
        fall = orelse(after)
        out += [e for e in fall if e.kind != "next"]
        nxt_states += [e.st for e in fall if e.kind == "next"]
    if nxt_states:
        out.append(Exit("next", E.join(nxt_states)))
    return out


def _is_loop_target(k, node):
    import ast

    tg = getattr(node, "target", None)
    if tg is None:
        return False
    return any(isinstance(n, ast.Name) and n.id == k[2] for n in ast.walk(tg))


def _keep(pc, base, bv, Hs):
    return tuple(pc)


def _once(E, p, entry, dom, bv, is_while, orelse, Exit, State):
    """loop whose body never falls through: runs at most once"""
    lo, hi, rev = _bounds(dom)
    start = lo if not rev else T.sub(hi, ONE)
    m = {bv: start}
    out = []
    sub = lambda t: T.subst(t, m)

    def fix(s):
        return State({k: sub(v) for k, v in s.cells.items()}, tuple(x for x in (sub(c) for c in s.pc) if x is not TRUE))

    if T.base_dom(dom).op == "range":
        ne = T.gt0(T.dom_len(T.base_dom(dom)))
    else:
        ne = p.cond
    for e in p.raises + p.returns:
        s = fix(e.st)
        s.assume(ne)
        out.append(Exit(e.kind, s, sub(e.val), e.loc))
    for e in p.sink:
        s = fix(e.st)
        s.assume(ne)
        E.sinks[-1].append(Exit("raise", s, e.val, e.loc))
    nx = []
    for e in p.breaks:
        s = fix(e.st)
        s.assume(ne)
        nx.append(s)
    if ne is not TRUE and T.known(ne) is not True:
        s = entry.copy()
        s.assume(T.lnot(ne))
        for e in orelse(s):
            if e.kind == "next":
                nx.append(e.st)
            else:
                out.append(e)
    if nx:
        out.append(Exit("next", E.join(nx)))
    return out


def _kstr(k):
    return ":".join(str(x) if not isinstance(x, Term) else f"t{x.id}" for x in k)


def _bounds(dom):
    b = T.base_dom(dom)
    if b.op == "range":
        return b.args[0], b.args[1], dom.op == "rev"
    return ZERO, mk("domlen", dom), False


def _has_hdr(t, Hs):
    return any(s in Hs for s in T.subterms(t) if s.op == "hdr")


def delta(e, H):
    """c with e = H + c"""
    if e is H:
        return ZERO
    if e.op == "ite":
        a, b = delta(e.args[1], H), delta(e.args[2], H)
        if a is None or b is None:
            return None
        return T.ite(e.args[0], a, b)
    if e.op == "poly":
        d = dict(e.args[0])
        if d.get(((H, ONE),)) == 1:
            c = T.sub(e, H)
            if not T.contains(c, H):
                return c
    return None


def delta_closed(h, ent, bv, lo):
    return T.equal(T.subst(h, {bv: lo}), ent)


def _count(c, bv):
    """n with (c holds iff bv < n) for a linear condition decreasing in bv"""
    if c.op in ("gt0", "ge0"):
        p = c.args[0]
        items = dict(p.args[0]) if p.op == "poly" else {((p, ONE),): 1}
        k = items.get(((bv, ONE),))
        if k is None or k >= 0:
            return None
        rest = T.sub(p, T.scale(bv, k))
        if T.contains(rest, bv):
            return None
        if k != -1:
            return None
        return rest if c.op == "gt0" else T.add(rest, ONE)
    if c.op == "not" and c.args[0].op == "eq":
        a, b = c.args[0].args[0]
        d = T.sub(a, b)
        items = dict(d.args[0]) if d.op == "poly" else {}
        k = items.get(((bv, ONE),))
        if k in (1, -1):
            rest = T.scale(T.sub(d, T.scale(bv, k)), -1 / k)
            if not T.contains(rest, bv):
                return rest
    return None


def appended(e, H, g=TRUE):
    if e.op == "concat" and e.args[0][0] is H and all(x.op == "tuple" for x in e.args[0][1:]):
        els = [y for x in e.args[0][1:] for y in x.args[0]]
        if any(T.contains(y, H) for y in els):
            return None
        return els, g
    if e.op == "ite":
        a, b = e.args[1], e.args[2]
        if b is H:
            r = appended(a, H, T.land(g, e.args[0]))
            return r
        if a is H:
            return appended(b, H, T.land(g, T.lnot(e.args[0])))
        ra, rb = appended(a, H), appended(b, H)
        if ra and rb and ra[1] is TRUE and rb[1] is TRUE and len(ra[0]) == len(rb[0]):
            return [T.ite(e.args[0], x, y) for x, y in zip(ra[0], rb[0])], g
    return None


def bool_accum(e, H):
    h = T.truth(H)
    if e.op in ("or", "and"):
        parts = e.args[0]
        if h in parts or H in parts:
            rest = [x for x in parts if x is not h and x is not H]
            f = T.lor if e.op == "or" else T.land
            c = f(*rest)
            if not T.contains(c, H):
                return e.op, c
    return None


def stores(e, H, g=TRUE):
    """[(idx, value, guard)] if e is H updated at indices, else None"""
    if e is H:
        return []
    if e.op == "store":
        r = stores(e.args[0], H, g)
        if r is None:
            return None
        return r + [(e.args[1], e.args[2], g)]
    if e.op == "ite":
        a = stores(e.args[1], H, T.land(g, e.args[0]))
        b = stores(e.args[2], H, T.land(g, T.lnot(e.args[0])))
        if a is None or b is None:
            return None
        # common prefix of both branches
        return a + [x for x in b if x not in a]
    return None


def own_reads(val, H, idx, ent):
    """replace reads of H at the written index by the entry value"""
    m = {}
    for s in T.subterms(val):
        if s.op == "item" and s.args[0] is H:
            n = len(idx)
            if s.args[1][:n] == idx:
                m[s] = T.item(ent, s.args[1])
    return T.subst(val, m) if m else val


def _injective(idx, bv):
    """different iterations write different places"""
    for i in idx:
        if i is bv:
            return True
        if i.op == "poly" and T.contains(i, bv):
            if any(len(m) == 1 and m[0][0] is bv and m[0][1] is ONE for m, _ in i.args[0]) and sum(T.contains(x, bv) for m, _ in i.args[0] for x, _e in m) == 1:
                return True
        if i.op == "fmt" and any(x is bv for x in i.args[0]):
            return True
        if i.op == "item" and i.args[1] and i.args[1][-1] is bv and i.args[0].op == "keyat":
            return True
        if i.op == "keyat" and i.args[1] is bv:
            return True
    return False


def _separate(ss, bv):
    """stores of one iteration never meet places written in another one"""
    dep = [idx for idx, _, _ in ss if any(T.contains(i, bv) for i in idx)]
    if not dep:
        return True
    if len(dep) != len(ss):
        fixed = [idx for idx, _, _ in ss if idx not in dep]
        for f in fixed:
            for d in dep:
                if not any(x.op == "const" and y.op in ("const", "fmt") and x is not y for x, y in zip(f, d)):
                    return False
    if not all(_injective(i, bv) for i in dep):
        return False
    for a in dep:
        for b in dep:
            if a is b or a == b:
                continue
            n = min(len(a), len(b))
            if a[:n] == b[:n]:
                continue
            if not any((T.is_num(x) or x.op == "const") and (T.is_num(y) or y.op == "const") and x is not y for x, y in zip(a, b)):
                return False
    return True


def solve_stores(E, ss, H, ent, bv, dom, Hs, end, mark, nonempty, last):
    out = ent
    if not _separate(ss, bv):
        return None
    for idx, val, g in ss:
        val = E.materialize(val, end, only=mark)
        if any(_has_hdr(i, Hs) for i in idx):
            return None
        dep = any(T.contains(i, bv) for i in idx)
        if dep:
            val = own_reads(val, H, idx, ent)
            g = own_reads(g, H, idx, ent)
            if _has_hdr(val, Hs) or _has_hdr(g, Hs):
                return None
            out = T.mapstore(out, dom, bv, idx, val, g)
        else:
            cur = T.item(H, idx)
            if g is TRUE and not _has_hdr(val, Hs):
                v = T.subst(val, {bv: last})
                out = T.ite(nonempty, _st(out, idx, v), out)
                continue
            # accumulation into a fixed place
            if cur.op == "item":
                d = delta(val, cur)
                if d is not None and not _has_hdr(d, Hs) and not _has_hdr(g, Hs):
                    d = T.ite(g, d, ZERO)
                    out = _st(out, idx, T.add(T.item(ent, idx), T.msum(bv, dom, d)))
                    continue
            return None
    return out


def _st(base, idx, v):
    return T.store(base, idx, v)


def prefix_value(ss, H, ent, bv, dom):
    """content at the head of iteration bv"""
    b = T.base_dom(dom)
    if b.op != "range":
        return None
    j = T.fresh_bv()
    rng = mk("range", b.args[0], bv) if dom.op == "range" else mk("range", T.add(bv, ONE), b.args[1])
    out = ent
    for idx, val, g in ss:
        if not any(T.contains(i, bv) for i in idx):
            return None
        val = own_reads(val, H, idx, ent)
        if T.contains(val, H) or T.contains(g, H):
            return None
        m = {bv: j}
        out = T.mapstore(out, rng, j, tuple(T.subst(i, m) for i in idx), T.subst(val, m), T.subst(g, m))
    return out
