"""Loop summaries: the effect of a loop is described at a symbolic iteration index and the
recurrences of the loop-carried values are put in closed form (sums, products, quantifiers,
comprehensions, concatenations, offsets, powers); what has no closed form becomes an
`iter` term.  Loops with a small constant trip count are summarised by composing the
body summaries."""
from .terms import *
from . import terms as X
from .front import USIZE, UNK, BOOL as TBOOL, FELT
from .interp import LoopCtl, Diverge, TooDeep, It, Ref, py, un, is_ref, Frame_

WHILE_LIMIT = 300


def run_loop(ip, n, body, e=None, label=None, is_loop=False):
    k = ival(n)
    if k is not None and k <= X.UNROLL:
        return unrolled(ip, max(int(k), 0), body, label, False)
    if n is INF:
        r = unrolled(ip, WHILE_LIMIT, body, label, True)
        if r is not None:
            return r[0]
    return symbolic(ip, n, body, e, label, is_loop)


# ------------------------------------------------------------------ constant trip count
def unrolled(ip, n, body, label, probe):
    entry = len(ip.path)
    base_path = list(ip.path)
    saved = ip.loops
    snap = ip.snapshot()
    marks = mark(ip)
    ctl = LoopCtl(label, entry)
    ip.loops = saved + [ctl]
    fr = ip.frame
    nret = len(fr.returns)
    alive = True
    try:
        for i in range(n):
            ctl.conts = []
            nb = len(ctl.breaks)
            ip.loop_idx.append(INT(i))
            try:
                body(INT(i))
                ip.record(ctl.conts, entry, UNIT)
            except Diverge:
                pass
            finally:
                ip.loop_idx.pop()
            if probe and ctl.conts and (len(ctl.breaks) > nb or len(fr.returns) > nret):
                # undecided whether the loop goes on
                rollback(ip, marks)
                del fr.returns[nret:]
                ip.restore(snap)
                return None
            if not ctl.conts:
                alive = False
                break
            N = Or(*[c[0] for c in ctl.conts])
            pa = ctl.conts[0][3]
            ip.merge_exits(ctl.conts, entry)
            ip.path = base_path[:entry] + ([N] if N is not TRUE else [])
        else:
            if probe:
                rollback(ip, marks)
                del fr.returns[nret:]
                ip.restore(snap)
                return None
    finally:
        ip.loops = saved
    exits = list(ctl.breaks)
    if alive:
        exits.append((And(*ip.path[entry:]), UNIT, ip.store, list(ip.path), list(ip.assumed), list(ip.reach)))
    if not exits:
        raise Diverge()
    T_ = Or(*[x[0] for x in exits])
    v = ip.merge_exits(exits, entry)
    ip.path = base_path[:entry] + ([T_] if T_ is not TRUE else [])
    return (v,) if probe else v


def mark(ip):
    return len(ip.obls), len(ip.notes), len(ip.prints), ip.site, ip.ncell, len(ip.effects)


def rollback(ip, m):
    del ip.obls[m[0]:]
    del ip.notes[m[1]:]
    del ip.prints[m[2]:]
    ip.site = m[3]
    ip.ncell = m[4]
    del ip.effects[m[5]:]


# ------------------------------------------------------------------ leaves of the state
def diff(a, b, path, out):
    """paths at which the value changed"""
    if a is b:
        return
    if a.op == b.op:
        if a.op == "struct" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
            for (k, x), (_, y) in zip(a.args[1], b.args[1]):
                diff(x, y, path + (("f", k),), out)
            return
        if a.op == "tuple" and len(a.args) == len(b.args) and a.args:
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                diff(x, y, path + (("f", str(i)),), out)
            return
        if a.op == "lst" and len(a.args[0]) == len(b.args[0]) and len(a.args[0]) <= 80:
            for i, (x, y) in enumerate(zip(a.args[0], b.args[0])):
                diff(x, y, path + (("l", i),), out)
            return
    out.add(path)


def getp(v, path):
    for el in path:
        if el[0] == "f":
            v = field(v, el[1])
        else:
            v = v.args[0][el[1]] if v.op == "lst" else idx(v, INT(el[1]))
    return v


def putp(v, path, x):
    if not path:
        return x
    el = path[0]
    if el[0] == "f":
        return set_field(v, el[1], putp(field(v, el[1]), path[1:], x))
    return upd(v, INT(el[1]), putp(v.args[0][el[1]] if v.op == "lst" else idx(v, INT(el[1])), path[1:], x))


def prefix_free(paths):
    """drop paths below another one"""
    ps = sorted(paths, key=len)
    out = []
    for p in ps:
        if not any(p[:len(q)] == q for q in out):
            out.append(p)
    return out


class Leaf:
    def __init__(s, cell, path, v0, sym_, kind):
        s.cell, s.path, s.v0, s.h, s.kind = cell, path, v0, sym_, kind
        s.U = None
        s.closed = None     # lam k -> value before iteration k


# ------------------------------------------------------------------ symbolic trip count
def symbolic(ip, n, body, e, label, is_loop):
    snap = ip.snapshot()
    marks = mark(ip)
    fr = ip.frame
    nret = len(fr.returns)
    saved_loops = ip.loops
    entry = len(snap[1])
    k = fresh("k", USIZE)
    mods = {}        # cell -> set of paths
    leaves = {}

    def initial(overrides=None):
        st = dict(snap[0])
        for c, ps in mods.items():
            v = st[c]
            for p in ps:
                lf = leaves[(c, p)]
                x = hv(ip, lf) if not overrides or (c, p) not in overrides else overrides[(c, p)]
                v = putp(v, p, x) if p else x
            st[c] = v
        return st

    def one(overrides=None):
        rollback(ip, marks)
        del fr.returns[nret:]
        ip.store = initial(overrides)
        ip.path = list(snap[1])
        ip.assumed = list(snap[2])
        ip.reach = list(snap[3])
        if n is not INF:
            ip.assumed.append(lt(k, n))
        ctl = LoopCtl(label, entry)
        ip.loops = saved_loops + [ctl]
        ip.loop_idx.append(k)
        try:
            try:
                body(k)
                ip.record(ctl.conts, entry, UNIT)
            except Diverge:
                pass
        finally:
            ip.loops = saved_loops
            ip.loop_idx.pop()
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        nxt = None
        if ctl.conts:
            ip.merge_exits(list(ctl.conts), entry)
            nxt = ip.store
        return nxt, ctl.breaks, rets, [x[0] for x in ctl.conts]

    res = None
    for _ in range(10):
        cur = initial()
        nxt, brks, rets, conts = one()
        if nxt is None:
            break
        new = False
        for c in snap[0]:
            a, b = cur.get(c), nxt.get(c)
            if a is b or b is None:
                continue
            out = set()
            diff(a, b, (), out)
            if not out:
                continue
            known = mods.get(c, [])
            allp = prefix_free(set(known) | out)
            if set(allp) != set(known):
                new = True
                for p in allp:
                    if (c, p) not in leaves:
                        leaves[(c, p)] = mkleaf(ip, c, p, getp(snap[0][c], p))
                mods[c] = allp
        res = (nxt, brks, rets, conts)
        if not new:
            break
    else:
        ip.note("loop state does not stabilise", e)
    if nxt is None:
        # the first iteration always leaves the loop
        rollback(ip, marks)
        del fr.returns[nret:]
        ip.restore(snap)
        mods.clear()

        def first_iter():
            return unrolled(ip, 1, body, label, False)
        if n is INF:
            return first_iter()
        return ip.branch(lt(ZERO, n), first_iter, lambda: UNIT)

    nxt, brks, rets, conts = res
    ls = [leaves[(c, p)] for c in mods for p in mods[c]]
    for lf in ls:
        lf.U = leafval(ip, lf, getp(nxt[lf.cell], lf.path))
    # parser rule: a byte cursor over a concatenation of segments
    for lf in ls:
        if lf.kind == "seq" and n is not INF and not simple_slice(lf.U, lf.h):
            seg = segment(lf.v0, n)
            if seg is None:
                continue
            tail = fresh("tail", ip.typeof(lf.h))
            r2 = one({(lf.cell, lf.path): wrapv(ip, lf, cat([app(seg[0], k), tail]))})
            if r2[0] is None:
                continue
            u2 = leafval(ip, lf, getp(r2[0][lf.cell], lf.path))
            if u2 is tail:
                nxt, brks, rets, conts = r2
                j = fresh("j", USIZE)
                kk = fresh("k", USIZE)
                lf.closed = lam(kk, cat([flat(sub(n, kk), lam(j, app(seg[0], add(kk, j))))] + seg[1]))
                lf.tail = tail
                for l2 in ls:
                    if l2 is not lf:
                        l2.U = leafval(ip, l2, getp(nxt[l2.cell], l2.path))
    tails = {lf.tail: app(lf.closed, add(k, ONE)) for lf in ls if getattr(lf, "tail", None) is not None}
    for lf in ls:
        if tails and lf.closed is None and lf.U is not None:
            lf.U = subst(lf.U, tails)
    solve(ip, ls, k, n)

    def at(t):
        m = {}
        for lf in ls:
            if lf.kind != "tr":
                m[lf.h] = app(lf.closed, t)
        m[k] = t
        if tails:
            for a_, b_ in tails.items():
                m[a_] = subst(b_, {k: t})
        return m

    def sub_at(x, t):
        return substv(ip, x, at(t))

    # exits
    hk = {lf.h: app(lf.closed, k) for lf in ls if lf.kind != "tr"}
    hk.update(tails)

    def cond_at_k(c):
        return subst(c, hk)
    def joined(rs):
        """all the ways out of one kind as one"""
        rs = [(And(*(x[3][entry:] + x[5][len(snap[3]):])),) + tuple(x[1:]) for x in rs]
        if len(rs) < 2:
            return rs
        c = Or(*[x[0] for x in rs])
        sv = ip.snapshot()
        try:
            v = ip.merge_exits(rs, entry)
            return [(c, v, ip.store, list(snap[1]) + [c], list(ip.assumed), list(ip.reach))]
        finally:
            ip.restore(sv)
    exits = [(cond_at_k(x[0]), x, "b") for x in joined(brks)] + [(cond_at_k(x[0]), x, "r") for x in joined(rets)]
    exits = [x for x in exits if x[0] is not FALSE]
    # keep source order between breaks and returns is irrelevant: conditions are disjoint
    normal_store = None
    E = Or(*[x[0] for x in exits]) if exits else FALSE

    def exit_store(t, raw):
        """store when iteration t is left through an exit whose store is raw"""
        st = dict(snap[0])
        m = at(t)
        for c in st:
            v = raw.get(c)
            if v is None:
                continue
            if c in mods:
                x = v
                for lf in ls:
                    if lf.cell == c and lf.kind == "tr":
                        ev = getp(v, lf.path)
                        pre = app_tr(lf, t)
                        x = putp(x, lf.path, tr_cat(pre, substv(ip, ev, m)))
                st[c] = substv(ip, x, m)
            elif v is not st[c]:
                st[c] = substv(ip, v, m)
        return st

    def final_store(t):
        st = dict(snap[0])
        for lf in ls:
            v = app_tr(lf, t) if lf.kind == "tr" else wrapv(ip, lf, app(lf.closed, t))
            st[lf.cell] = putp(st[lf.cell], lf.path, v) if lf.path else v
        return st

    # obligations at the final state description
    finish_obls(ip, marks, hk, k, n, E)
    ip.restore(snap)
    out = []
    if E is not FALSE:
        lamE = lam(k, E)
        kf = first_index(ip, n, lamE)
        anyE = Any(n, lamE) if n is not INF else TRUE
        for c, x, kind in exits:
            ck = subst(c, {k: kf})
            if len(exits) == 1:
                cc = anyE
            else:
                cc = And(anyE, ck)
            if cc is FALSE:
                continue
            val = substv(ip, x[1], at(kf)) if x[1] is not None else None
            st = exit_store(kf, x[2])
            if kind == "r":
                fc = And(*snap[1][fr.entry:], cc)
                fr.returns.append((fc, val, st, list(snap[1]) + [cc], list(snap[2]), list(snap[3])))
            else:
                out.append((cc, val, st, list(snap[1]) + [cc], list(snap[2]), list(snap[3])))
        nrm = negate(anyE)
    else:
        nrm = TRUE
    if n is not INF and nrm is not FALSE:
        out.append((nrm, UNIT, final_store(n), list(snap[1]) + ([nrm] if nrm is not TRUE else []), list(snap[2]), list(snap[3])))
    if not out:
        raise Diverge()
    base = list(snap[1])
    T_ = Or(*[x[0] for x in out])
    v = ip.merge_exits(out, entry)
    ip.path = base + ([T_] if T_ is not TRUE else [])
    return v


def finish_obls(ip, marks, hk, k, n, E):
    """express the obligations of the body with the closed forms"""
    for o in ip.obls[marks[0]:]:
        if o.cond is TRUE:
            continue
        if hk:
            o.cond = subst(o.cond, hk)
            o.facts = tuple(subst(f, hk) for f in o.facts)
            o.loops = tuple((a, b if b is None else subst(b, hk), subst(c, hk)) for a, b, c in o.loops)
        o.loops += ((k, None if n is INF else n, E),)


def substv(ip, v, m):
    """substitution that also rewrites positions inside references"""
    if v is None:
        return None
    if v.op == "py":
        u = un(v)
        if isinstance(u, Ref):
            return py(Ref(u.cell, tuple(tuple(subst(y, m) if isinstance(y, T) else y for y in el) for el in u.path)))
        return v
    if v.op in ("tuple", "struct", "enum") and ip.has_py(v):
        if v.op == "tuple":
            return mk("tuple", *[substv(ip, x, m) for x in v.args])
        if v.op == "struct":
            return struct(v.args[0], {a: substv(ip, b, m) for a, b in v.args[1]})
        return enum(v.args[0], v.args[1], [substv(ip, x, m) for x in v.args[2]])
    return subst(v, m)


def mkleaf(ip, c, p, v0):
    if v0.op == "tr":
        return Leaf(c, p, v0, fresh("tr"), "tr")
    u = un(v0)
    if isinstance(u, It):
        if u.seq is not None:
            ty = ip.typeof(u.seq)
            return Leaf(c, p, u.seq, fresh("h", ty), "it")
        return Leaf(c, p, v0, fresh("h"), "py")
    if u is not None:
        return Leaf(c, p, v0, fresh("h"), "py")
    ty = ip.typeof(v0)
    if v0.op == "undef":
        return Leaf(c, p, v0, fresh("h"), "undef")
    if is_bool(v0):
        ty = TBOOL
    if ty[0] == "seq" and ty[2] is not None and v0.op in ("lst",):
        ty = ("seq", ty[1], None)
    if ty[0] == "int" and ty[1] is None:
        ty = ("int", "usize") if X.nonneg(v0) else ("int", None)
    h = fresh("h", ty if ty != UNK else None)
    return Leaf(c, p, v0, h, "seq" if ty[0] == "seq" or v0.op in ("lst", "cat", "flat", "arr", "slice") else "val")


def hv(ip, lf):
    if lf.kind == "tr":
        return mk("tr", ())
    return wrapv(ip, lf, lf.h)


def wrapv(ip, lf, v):
    if lf.kind == "it":
        return py(ip.std.seq_it(v))
    if lf.kind == "py":
        return ip.unsup("loop-carried opaque value")
    return v


def leafval(ip, lf, v):
    if lf.kind == "it":
        u = un(v)
        if isinstance(u, It) and u.seq is not None:
            return u.seq
        return mk("unsup", "iterator state", 0)
    if v.op == "py":
        u = un(v)
        if isinstance(u, It) and lf.kind in ("seq",):
            return ip.std.collect(u)
        return mk("unsup", "loop-carried opaque value", 0)
    # refine the type of the carried symbol
    if lf.h not in X._types or X._types.get(lf.h) == ("int", None) or (X._types.get(lf.h, UNK)[0] == "seq" and X._types[lf.h][1] == UNK):
        ty = ip.typeof(v)
        if ty != UNK and lf.kind != "tr":
            if ty[0] == "seq":
                ty = ("seq", ty[1], None)
            X._types[lf.h] = ty
    return v


def app_tr(lf, t):
    return app(lf.closed, t) if lf.closed is not None else lf.v0


def tr_cat(a, b):
    if b.op != "tr":
        return b
    return mk("tr", a.args[0] + b.args[0])


def segment(v0, n):
    """v0 = seg(0) ++ ... ++ seg(n-1) ++ rest"""
    ps = X.parts(v0)
    if not ps:
        return None
    f = ps[0]
    if f.op == "flat" and f.args[0] is n:
        return f.args[1], ps[1:]
    return None


def simple_slice(U, h):
    if U is None:
        return False
    if U is h:
        return True
    if U.op == "slice" and U.args[0] is h and h not in (fv(U.args[1])):
        return True
    if U.op == "cat" and h in U.args[0]:
        return True
    return False


# ------------------------------------------------------------------ recurrences
def solve(ip, ls, k, n):
    closed = {}
    for lf in ls:
        if lf.closed is not None:
            closed[lf.h] = app(lf.closed, k)
    todo = [lf for lf in ls if lf.closed is None]
    for lf in todo:
        if lf.kind == "tr":
            if lf.U.op != "tr":
                lf.U = mk("tr", (mk("ev", "unsup", lf.U),))
    trs = [lf for lf in todo if lf.kind == "tr"]
    todo = [lf for lf in todo if lf.kind != "tr"]
    while todo:
        progress = False
        hs = {lf.h for lf in todo}
        for lf in list(todo):
            U = subst(lf.U, closed)
            deps = fv(U) & hs
            if deps <= {lf.h}:
                c = solve1(ip, lf.h, lf.v0, U, k, n)
                if c is None:
                    c = iter_term(ip, lf.h, lf.v0, U, k)
                lf.closed = lam(k, c)
                closed[lf.h] = c
                todo.remove(lf)
                progress = True
                break
        if progress:
            continue
        # values whose update does not mention their own previous value
        for lf in list(todo):
            U = subst(lf.U, closed)
            # length-only dependencies between sequences
            m = len_subst(U, [x for x in todo], closed, k, ip)
            if m:
                U2 = subst(U, m)
                if fv(U2) & hs <= {lf.h}:
                    c = solve1(ip, lf.h, lf.v0, U2, k, n)
                    if c is not None:
                        lf.closed = lam(k, c)
                        closed[lf.h] = c
                        todo.remove(lf)
                        progress = True
                        break
        if progress:
            continue
        # simultaneous recurrence over what is left of one strongly connected group
        grp = scc(todo, closed)
        us = [subst(lf.U, closed) for lf in grp]
        st = fresh("st", ("tuple", tuple(ip.typeof(lf.h) for lf in grp)))
        m = {lf.h: mk("field", st, str(i)) for i, lf in enumerate(grp)}
        stepb = mk("tuple", *[subst(u, m) for u in us])
        body = lam(k, lam(st, stepb))
        v0 = mk("tuple", *[lf.v0 for lf in grp])
        it = mk("iter", k, v0, body)
        for i, lf in enumerate(grp):
            c = mk("field", it, str(i))
            lf.closed = lam(k, c)
            closed[lf.h] = c
            todo.remove(lf)
    for lf in trs:
        ev = subst(lf.U, closed)
        kk = fresh("k", USIZE)
        lf.closed = lam(kk, tr_cat(lf.v0, mk("tr", (mk("evloop", kk, lam(k, ev)),)) if ev.args[0] else mk("tr", ())))


def scc(todo, closed):
    hs = {lf.h: lf for lf in todo}
    dep = {lf.h: set(fv(subst(lf.U, closed))) & set(hs) for lf in todo}

    def reach(a):
        seen = set()
        st = [a]
        while st:
            x = st.pop()
            for y in dep[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    rs = {h: reach(h) for h in hs}
    # a source component: depends only on itself
    best = None
    for h in hs:
        comp = {x for x in rs[h] if h in rs[x]} | {h}
        ext = set().union(*[dep[x] for x in comp]) - comp
        if not ext:
            if best is None or len(comp) < len(best):
                best = comp
    comp = best or set(hs)
    return [lf for lf in todo if lf.h in comp]


def len_subst(U, todo, closed, k, ip):
    m = {}
    for lf in todo:
        L = mk("len", lf.h)
        if X.contains(U, L) and lf.U is not None:
            c = len_closed(lf, closed, k)
            if c is not None:
                m[L] = c
    return m


def len_closed(lf, closed, k):
    lu = length(subst(lf.U, closed))
    L = mk("len", lf.h)
    d = sub(lu, L)
    if lf.h in fv(d):
        return None
    return add(length(lf.v0), Sum(k, lam(k, d)))


def iter_term(ip, h, v0, U, k):
    return mk("iter", k, v0, lam(k, lam(h, U)))


def solve1(ip, h, v0, U, k, n):
    """closed form (in k) of the value before iteration k"""
    if U is h:
        return v0
    f = fv(U)
    if h not in f:
        prev = subst(U, {k: sub(k, ONE)})
        if v0.op == "undef":
            return prev
        # a value that already follows the pattern before the first iteration
        if subst(prev, {k: ZERO}) is v0:
            return prev
        return ite(eq(k, ZERO), v0, prev)
    ty = ip.typeof(h)
    r = None
    if ty == TBOOL or is_bool(v0):
        r = solve_bool(h, v0, U, k)
    elif ty[0] == "seq" or U.op in ("cat", "upd", "slice", "arr", "flat"):
        r = solve_seq(ip, h, v0, U, k, n)
    elif ty[0] in ("map", "set") or U.op in ("mapins", "mapext", "setins"):
        r = solve_map(ip, h, v0, U, k)
    elif U.op == "struct" or U.op == "tuple":
        r = None
    else:
        r = solve_num(ip, h, v0, U, k)
    return r


def solve_bool(h, v0, U, k):
    j = fresh("j", USIZE)
    if U.op == "and" and h in U.args[0]:
        rest = [x for x in U.args[0] if x is not h]
        if not any(h in fv(x) for x in rest):
            return And(v0, All(k, lam(j, subst(And(*rest), {k: j}))))
    if U.op == "or" and h in U.args[0]:
        rest = [x for x in U.args[0] if x is not h]
        if not any(h in fv(x) for x in rest):
            return Or(v0, Any(k, lam(j, subst(Or(*rest), {k: j}))))
    # an update that is false (true) whenever the previous value was
    f, t = subst(U, {h: FALSE}), subst(U, {h: TRUE})
    if f is FALSE and h not in fv(t):
        return And(v0, All(k, lam(j, subst(t, {k: j}))))
    if t is TRUE and h not in fv(f):
        return Or(v0, Any(k, lam(j, subst(f, {k: j}))))
    return None


def coeffs_of(U, h):
    """U as polynomial in h: {power: coefficient}, None when h is used otherwise"""
    out = {}
    for m, c in to_poly(U).items():
        e_h = 0
        rest = []
        for a, e in m:
            if a is h:
                if not isinstance(e, int) or e < 0:
                    return None
                e_h = e
            else:
                if h in fv(a) or (isinstance(e, T) and h in fv(e)):
                    return None
                rest.append((a, e))
        out.setdefault(e_h, {})[frozenset(rest)] = c
    return {e: from_poly(p) for e, p in out.items()}


def solve_num(ip, h, v0, U, k):
    if U.op == "idiv" and U.args[0] is h and h not in fv(U.args[1]):
        j = fresh("j", USIZE)
        return idiv(v0, Prod(k, lam(j, subst(U.args[1], {k: j}))))
    if U.op in ("max", "min") and h in U.args[0]:
        rest = [x for x in U.args[0] if x is not h]
        if any(h in fv(x) for x in rest):
            return None
        j = fresh("j", USIZE)
        f = Max if U.op == "max" else Min
        q = arr(k, lam(j, subst(f(*rest), {k: j})))
        return ite(eq(k, ZERO), v0, f(v0, mk(U.op + "of", q)))
    if U.op in ("int", "poly", "sym") or ip.is_field(U) or ip.typeof(U)[0] == "int":
        co = coeffs_of(U, h)
        if co is None:
            return None
        if set(co) <= {0, 1}:
            a1 = co.get(1, ZERO)
            a0 = co.get(0, ZERO)
            j = fresh("j", USIZE)
            if a1 is ONE:
                return add(v0, Sum(k, lam(j, subst(a0, {k: j}))))
            if a0 is ZERO:
                return mul(v0, Prod(k, lam(j, subst(a1, {k: j}))))
            if k not in fv(a1):
                s = Sum(k, lam(j, mul(subst(a0, {k: j}), power(a1, sub(sub(k, ONE), j)))))
                return add(mul(v0, power(a1, k)), s)
            return None
        if len(co) == 1:
            (e, c), = co.items()
            if c is ONE and e >= 2:
                return power(v0, power(INT(e), k))
    return None


def solve_map(ip, h, v0, U, k):
    items = []
    t = U
    while t is not h:
        if t.op == "mapins" or t.op == "setins":
            items.append(mk("tuple", *t.args[1:]) if t.op == "mapins" else t.args[1])
            t = t.args[0]
        elif t.op == "mapext":
            return None
        else:
            return None
    items.reverse()
    body = lst(items)
    if h in fv(body):
        return None
    j = fresh("j", USIZE)
    r = mk("mapext" if U.op == "mapins" else "setext", v0, flat(k, lam(j, subst(body, {k: j}))))
    if h in X._types:
        X._types[r] = X._types[h]
    return r


def upd_chain(U, h):
    out = []
    while U.op == "upd":
        out.append((U.args[1], U.args[2]))
        U = U.args[0]
    return (out[::-1]) if U is h else None


def solve_seq(ip, h, v0, U, k, n):
    j = fresh("j", USIZE)
    L = mk("len", h)
    if U.op == "cat":
        ps = list(U.args[0])
        if ps[0] is h:
            rest = cat(ps[1:])
            if h in fv(rest):
                rest = resolve_self(ip, h, v0, rest, k)
                if rest is None:
                    return None
                if isinstance(rest, tuple):
                    return rest[0]
            return cat([v0, flat(k, lam(j, subst(rest, {k: j})))])
        if ps[-1] is h:
            rest = cat(ps[:-1])
            if h in fv(rest):
                return None
            return cat([flat(k, lam(j, subst(rest, {k: sub(sub(k, ONE), j)}))), v0])
        # in-place block: h[..c] ++ X ++ h[c+len X..]
        r = splice_form(ps, h, L)
        if r is not None:
            c, Xs = r
            m = length(Xs)
            Ls = length(v0)
            c2 = subst(c, {L: Ls})
            Xs = subst(Xs, {L: Ls})
            m = subst(m, {L: Ls})
            if h not in fv(c2):
                c0 = subst(c2, {k: ZERO})
                if sub(c2, c0) is mul(k, m) and k not in fv(m):
                    X2 = reads_initial(Xs, h, v0, k, c2, m)
                    if X2 is not None:
                        return cat([slc(v0, ZERO, c0), flat(k, lam(j, subst(X2, {k: j}))), slc(v0, add(c0, mul(k, m)), Ls)])
        return None
    if U.op == "slice" and U.args[0] is h:
        lo, hi = U.args[1], U.args[2]
        if h not in fv(lo) and hi is L:
            off = Sum(k, lam(j, subst(lo, {k: j})))
            return slc(v0, off, length(v0))
        if lo is ZERO and h not in fv(sub(L, hi)):
            d = Sum(k, lam(j, subst(sub(L, hi), {k: j})))
            return slc(v0, ZERO, sub(length(v0), d))
        return None
    ch = upd_chain(U, h)
    if ch:
        Ls = length(v0)
        m = len(ch)
        ch = [(subst(i, {L: Ls}), subst(v, {L: Ls})) for i, v in ch]
        i0 = ch[0][0]
        if h in fv(i0):
            return None
        if all(sub(i, i0) is INT(q) for q, (i, v) in enumerate(ch)):
            c0 = subst(i0, {k: ZERO})
            if sub(i0, c0) is mul(k, INT(m)):
                Xs = lst([v for i, v in ch])
                X2 = reads_initial(Xs, h, v0, k, i0, INT(m))
                if X2 is not None:
                    return cat([slc(v0, ZERO, c0), flat(k, lam(j, subst(X2, {k: j}))), slc(v0, add(c0, mul(k, INT(m))), Ls)])
                # value computed from the previous element
                if m == 1:
                    r = scan_form(ip, h, v0, ch[0][1], k, c0)
                    if r is not None:
                        return cat([slc(v0, ZERO, c0), r, slc(v0, add(c0, k), Ls)])
        if m == 1 and k not in fv(i0):
            # repeatedly the same position
            y = fresh("y", ip.typeof(idx(h, i0)))
            v = subst(ch[0][1], {idx(h, i0): y})
            if h not in fv(v):
                c = solve1(ip, y, idx(v0, i0), v, k, n)
                if c is not None:
                    return upd(v0, i0, c)
        return None
    if U.op == "arr":
        # element-wise recurrence
        m = subst(U.args[0], {L: length(v0)})
        if k in fv(m) or h in fv(m):
            return None
        i, b = open_lam(U.args[1], "i", USIZE)
        b = subst(b, {L: length(v0)})
        y = fresh("y", ip.typeof(b))
        b2 = subst(b, {mk("idx", h, i): y})
        if h in fv(b2):
            return None
        c = solve1(ip, y, idx(v0, i), b2, k, n)
        if c is None:
            c = iter_term(ip, y, idx(v0, i), b2, k)
        return ite(eq(k, ZERO), v0, arr(m, lam(i, c))) if length(v0) is not m else arr(m, lam(i, c))
    if U.op == "ite":
        # conditional in-place update / append
        c, a, b = U.args
        if h not in fv(c):
            for x, y, neg_ in ((a, b, False), (b, a, True)):
                if y is h:
                    ch = upd_chain(x, h)
                    if ch and len(ch) == 1:
                        i, v = ch[0]
                        g = negate(c) if neg_ else c
                        return solve_seq(ip, h, v0, mk("upd", h, i, ite(g, v, mk("idx", h, i))), k, n)
    return None


def splice_form(ps, h, L):
    if len(ps) >= 2 and ps[0].op == "slice" and ps[0].args[0] is h and ps[0].args[1] is ZERO:
        c = ps[0].args[2]
        last = ps[-1]
        if last.op == "slice" and last.args[0] is h and last.args[2] is L:
            Xs = cat(ps[1:-1])
            if sub(last.args[1], c) is length(Xs):
                return c, Xs
        Xs = cat(ps[1:])
        if add(c, length(Xs)) is L:
            return c, Xs
    last = ps[-1]
    if last.op == "slice" and last.args[0] is h and last.args[2] is L:
        Xs = cat(ps[:-1])
        if length(Xs) is last.args[1]:
            return ZERO, Xs
    return None


def reads_initial(Xs, h, v0, k, c, m):
    """replace reads h[i] of not yet written positions (i >= c) by v0[i]"""
    if h not in fv(Xs):
        return Xs
    reads = set()

    def walk(t, seen):
        if t in seen or h not in fv(t):
            return True
        seen.add(t)
        if t.op in ("idx",) and t.args[0] is h and h not in fv(t.args[1]):
            reads.add(t)
            return True
        if t.op == "slice" and t.args[0] is h and h not in fv(t.args[1]) and h not in fv(t.args[2]):
            reads.add(t)
            return True
        if t is h:
            return False
        return all(walk(x, seen) for x in children(t))
    if not walk(Xs, set()):
        return None
    mp = {}
    for r in reads:
        i = r.args[1]
        # bound variables of enclosing binders only add non-negative amounts
        d = sub(i, c)
        if not X.nonneg(bv_nonneg(d)):
            return None
        mp[r] = idx(v0, i) if r.op == "idx" else slc(v0, i, r.args[2])
    return subst(Xs, mp)


def bv_nonneg(d):
    m = {}
    for v in fv(d):
        if v.op == "bv":
            m[v] = fresh("b", USIZE)
    return subst(d, m) if m else d


def scan_form(ip, h, v0, v, k, c0):
    """upd(h, c0+k, g(h[c0+k-1], v0[c0+k])): a scan"""
    prev = mk("idx", h, sub(add(c0, k), ONE))
    if not X.contains(v, prev):
        return None
    y = fresh("y", ip.typeof(prev))
    v2 = subst(v, {prev: y})
    v2 = reads_initial(v2, h, v0, k, add(c0, k), ONE)
    if v2 is None or h in fv(v2):
        return None
    first = idx(v0, sub(c0, ONE))
    c = solve1(ip, y, first, v2, k, None)
    if c is None:
        c = iter_term(ip, y, first, v2, k)
    j = fresh("j", USIZE)
    return arr(k, lam(j, subst(c, {k: add(j, ONE)})))


def resolve_self(ip, h, v0, rest, k):
    """appended values that look at the sequence built so far (its length, its last element)"""
    L = mk("len", h)
    d = sub(length(rest), ZERO)
    if X.contains(rest, L):
        if h in fv(d):
            return None
        j = fresh("j", USIZE)
        lc = add(length(v0), Sum(k, lam(j, subst(d, {k: j}))))
        rest = subst(rest, {L: lc})
        if h not in fv(rest):
            return rest
    else:
        j = fresh("j", USIZE)
        lc = add(length(v0), Sum(k, lam(j, subst(d, {k: j}))))
    last = mk("idx", h, sub(lc, ONE))
    if rest.op == "lst" and len(rest.args[0]) == 1 and ival(length(v0)) is not None and ival(length(v0)) >= 1:
        g = rest.args[0][0]
        y = fresh("y", ip.typeof(last))
        g2 = subst(g, {last: y})
        if h not in fv(g2):
            first = idx(v0, sub(length(v0), ONE))
            c = solve1(ip, y, first, g2, k, None)
            if c is None:
                c = iter_term(ip, y, first, g2, k)
            j = fresh("j", USIZE)
            return (cat([v0, arr(k, lam(j, subst(c, {k: add(j, ONE)})))]),)
        # reads of already known earlier elements h[i], i < len: keep as iter
    return None


# ------------------------------------------------------------------ searching
def first_index(ip, n, L):
    """smallest i < n with L(i)"""
    v, b = open_lam(L, "i", USIZE)
    r = first_closed(b, v, ip)
    if r is not None and n is INF:
        return r
    t = mk("first", n, L)
    X._types[t] = USIZE
    return t


def clamp(z, ip):
    """a search that succeeds at once stops at 0"""
    if X.nonneg(z) or X.nonneg(bv_nonneg(z)):
        return z
    if ip is not None and ip.implied(add(z, ONE)):
        return z
    return Max(ZERO, z)


def first_closed(b, v, ip=None):
    if b is TRUE:
        return ZERO
    if b.op == "pos":
        co = coeffs_of(b.args[0], v)
        if co is not None and set(co) <= {0, 1} and 1 in co and co[1].op == "int" and co[1].args[0] > 0:
            c = co[1]
            z = sub(ONE, co.get(0, ZERO))
            # smallest i with c*i >= z
            if c is ONE:
                return clamp(z, ip)
            return idiv(add(clamp(z, ip), c, INT(-1)), c)
    if b.op == "eq0":
        co = coeffs_of(b.args[0], v)
        if co is not None and set(co) <= {0, 1} and 1 in co and co[1].op == "int":
            return mul(neg(co.get(0, ZERO)), inv(co[1])) if abs(co[1].args[0]) == 1 else None
    if b.op == "or":
        rs = [first_closed(x, v, ip) for x in b.args[0]]
        if all(r is not None for r in rs):
            return Min(*rs)
    return None


def iterate(ip, n, x0, step):
    """step applied n times to x0"""
    k = fresh("k", USIZE)
    h = fresh("h", ip.typeof(x0))
    U = step(k, h)
    c = solve1(ip, h, x0, U, k, n)
    if c is None:
        c = iter_term(ip, h, x0, U, k)
    return subst(c, {k: n})


def iter_cons(n, v0, L):
    if ival(n) == 0:
        return v0
    kk = ival(n)
    if kk is not None and 0 < kk <= 8:
        v = v0
        for i in range(int(kk)):
            v = app(app(L, INT(i)), v)
        return v
    return mk("iter", n, v0, L)


def first_cons(n, L):
    v, b = open_lam(L, "i", USIZE)
    if b is TRUE:
        return ZERO
    if n is INF:
        r = first_closed(b, v)
        if r is not None:
            return r
    return mk("first", n, L)


X.register("iter", iter_cons)
X.register("first", first_cons)
