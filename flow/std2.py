"""More of the standard library: adaptors and helpers refactored code may switch to."""
from .terms import *
from . import terms as X
from .front import UNK, USIZE, BOOL as TBOOL, WIDTH
from .interp import It, Clo, FnV, Ref, py, un, is_ref


class Entry:
    """std map entry: place of the map and the key"""

    def __init__(s, pl, k):
        s.pl, s.k = pl, k


class More:
    def entry(s, en, m, a, dv):
        ip = s.ip
        here = ip.deref(ip.read(en.pl))
        old = s.map_get(here, en.k)
        has = isv(old, "Some")
        if m in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key"):
            def new():
                if m == "or_insert":
                    x = s.plain(a[0])
                elif m == "or_default":
                    ty = ip.typeof(here)
                    x = s.default_of(ty[2] if ty[0] == "map" else UNK)
                else:
                    x = s.plain_keep(ip.apply(a[0], [en.k] if m.endswith("key") else []))
                cur = ip.deref(ip.read(en.pl))
                ip.write(en.pl, mk("mapins", cur, en.k, x))
                return UNIT
            ip.branch(has, lambda: UNIT, new)
            return py(en.pl.sub(("m", en.k)))
        if m == "and_modify":
            ip.branch(has, lambda: ip.apply(a[0], [py(en.pl.sub(("m", en.k)))]), lambda: UNIT)
            return dv
        if m == "key":
            return en.k
        return ip.opaque("m:entry." + m, [en.k])

    # ---------------------------------------------------------------- helpers
    def fn1(s, f):
        """closure as a pure python function on values"""
        ip = s.ip
        return lambda *x: s.plain_keep(ip.apply(f, list(x)))

    def pure(s, f):
        ip = s.ip
        snap = ip.snapshot()
        r = f()
        ip.restore(snap)
        return r

    def first_where(s, n, cond):
        """smallest index below n satisfying cond, or n"""
        from . import loops
        ip = s.ip
        v = fresh("i", USIZE)
        l = lam(v, s.pure(lambda: ip.deref(cond(v))))
        k = loops.first_index(ip, n, l)
        return (k, TRUE) if n is INF else (ite(ip.simp(Any(n, l)), k, n), ip.simp(Any(n, l)))

    def split_n(s, v, c):
        return mk("tuple", *[ite(c, x, y) for x, y in v])

    # ---------------------------------------------------------------- sequences
    def s_binary_search_with(s, v, below, equal):
        n = length(v)
        k, _ = s.first_where(n, lambda i: negate(below(idx(v, i))))
        hit = And(lt(k, n), equal(idx(v, k)))
        return ite(hit, Ok(k), Err(k))

    def s_binary_search(s, v, a, h, e, pl):
        x = s.ip.deref(a[0])
        return s.s_binary_search_with(v, lambda y: s.less(y, x), lambda y: eq(y, x))

    def s_binary_search_by_key(s, v, a, h, e, pl):
        x = s.ip.deref(a[0])
        f = s.fn1(a[1])
        return s.s_binary_search_with(v, lambda y: s.less(f(y), x), lambda y: eq(f(y), x))

    def s_binary_search_by(s, v, a, h, e, pl):
        f = s.fn1(a[0])
        return s.s_binary_search_with(v, lambda y: isv(f(y), "Less"), lambda y: isv(f(y), "Equal"))

    def less(s, a, b):
        return s.ip.binop("<", a, b, {})

    def s_partition_point(s, v, a, h, e, pl):
        f = s.fn1(a[0])
        return s.first_where(length(v), lambda i: negate(f(idx(v, i))))[0]

    def s_rotate_left(s, v, a, h, e, pl):
        k = s.ip.deref(a[0])
        s.ip.oblige(le(k, length(v)), "rotate", e, "rotation within len")
        return s.wr(pl, cat([slc(v, k, length(v)), slc(v, ZERO, k)]))

    def s_rotate_right(s, v, a, h, e, pl):
        k = s.ip.deref(a[0])
        s.ip.oblige(le(k, length(v)), "rotate", e, "rotation within len")
        m = sub(length(v), k)
        return s.wr(pl, cat([slc(v, m, length(v)), slc(v, ZERO, m)]))

    def s_map(s, v, a, h, e, pl):
        r = s.i_map(s.to_it(v), a, h, e, pl)
        ty = s.ip.typeof(v)
        if v.op == "lst" or (ty[0] == "seq" and isinstance(ty[2], int)):
            return s.collect(un(r))  # array::map
        return r

    def s_repeat(s, v, a, h, e, pl):
        k = s.ip.deref(a[0])
        i = fresh("i", USIZE)
        return flat(k, lam(i, v))

    def s_ends_with(s, v, a, h, e, pl):
        w = s.plain(a[0])
        n = length(v)
        return And(le(length(w), n), eq(slc(v, sub(n, length(w)), n), w))

    def s_get_unchecked(s, v, a, h, e, pl):
        return s.s_get(v, a, h, e, pl).args[1].args[2][0] if False else idx(v, s.ip.deref(a[0]))

    def s_is_sorted(s, v, a, h, e, pl):
        i = fresh("i", USIZE)
        n = s.natsub(length(v), ONE)
        return All(n, lam(i, negate(s.less(idx(v, add(i, ONE)), idx(v, i)))))

    def s_rchunks(s, v, a, h, e, pl):
        k = s.ip.deref(a[0])
        s.ip.oblige(negate(eq0(k)), "chunks", e, "chunk size non-zero")
        L = length(v)
        n = idiv(add(L, k, INT(-1)), k)
        return py(It(n, lambda i: (TRUE, slc(v, s.natsub(L, mul(add(i, ONE), k)), sub(L, mul(i, k))))))

    def const_arg(s, e):
        """the constant between the angle brackets of a method call"""
        if e is None or not e.get("g"):
            return None
        g = e["g"][0]
        try:
            k = s.ip.deref(s.ip.eval(g["e"] if "e" in g else g))
        except Exception:
            return None
        return k if ival(k) is not None else None

    def chunk(s, name, v, a, h, e, f):
        k = s.const_arg(e)
        if k is None:
            return s.ip.opaque("m:" + name, [v] + a)
        return ite(le(k, length(v)), Some(f(k, length(v))), NONE)

    def s_first_chunk(s, v, a, h, e, pl):
        return s.chunk("first_chunk", v, a, h, e, lambda k, n: slc(v, ZERO, k))

    def s_last_chunk(s, v, a, h, e, pl):
        return s.chunk("last_chunk", v, a, h, e, lambda k, n: slc(v, sub(n, k), n))

    def s_split_first_chunk(s, v, a, h, e, pl):
        return s.chunk("split_first_chunk", v, a, h, e, lambda k, n: mk("tuple", slc(v, ZERO, k), slc(v, k, n)))

    def s_split_last_chunk(s, v, a, h, e, pl):
        return s.chunk("split_last_chunk", v, a, h, e, lambda k, n: mk("tuple", slc(v, ZERO, sub(n, k)), slc(v, sub(n, k), n)))

    def s_array_chunks(s, v, a, h, e, pl):
        k = s.const_arg(e)
        if k is None:
            return s.ip.opaque("m:array_chunks", [v] + a)
        return s.s_chunks(v, [k], h, dict(e, m="chunks_exact"), pl)

    def s_select_nth_unstable(s, v, a, h, e, pl):
        return s.ip.opaque("m:select_nth_unstable", [v] + a)

    def s_iter_rev(s, v):
        n = length(v)
        return arr_f(n, lambda i: idx(v, sub(sub(n, ONE), i)))

    def keep(s, v, cond):
        """elements at the indices satisfying cond"""
        n = length(v)
        i = fresh("i", USIZE)
        c = s.pure(lambda: s.ip.deref(cond(i)))
        return s.typed(flat(n, lam(i, ite(c, lst([idx(v, i)]), EMPTY))), v)

    def s_retain(s, v, a, h, e, pl):
        f = s.fn1(a[0])
        if v.op == "lst" and not v.args[0]:
            return UNIT
        return s.wr(pl, s.keep(v, lambda i: f(idx(v, i))))

    def s_dedup_by_key(s, v, a, h, e, pl):
        f = s.fn1(a[0])
        return s.wr(pl, s.keep(v, lambda i: Or(eq0(i), negate(eq(f(idx(v, i)), f(idx(v, sub(i, ONE))))))))

    def s_dedup_by(s, v, a, h, e, pl):
        return s.wr(pl, s.ip.opaque("m:dedup_by", [v, s.ip.freeze_fn(a[0], 2)], s.ip.typeof(v)))

    def s_swap_remove(s, v, a, h, e, pl):
        i = s.ip.deref(a[0])
        s.ip.check_index(v, i, e)
        last = sub(length(v), ONE)
        s.wr(pl, slc(upd(v, i, idx(v, last)), ZERO, last))
        return idx(v, i)

    def s_resize_with(s, v, a, h, e, pl):
        n = s.ip.deref(a[0])
        x = s.fn1(a[1])()
        if x.op == "call" and x.args[0].startswith("default:"):
            x = s.default_of(s.elem(v))
        return s.s_resize(v, [n, x], h, e, pl)

    def span(s, v, x):
        u = un(s.ip.deref(x))
        n = length(v)
        if u is None or not getattr(u, "range", None):
            return None
        lo, hi = u.range
        return lo, (n if hi is None else hi)

    def s_extend_from_within(s, v, a, h, e, pl):
        r = s.span(v, a[0])
        if r is None:
            return s.wr(pl, s.ip.opaque("m:extend_from_within", [v] + a, s.ip.typeof(v)))
        s.ip.oblige(And(le(r[0], r[1]), le(r[1], length(v))), "slice", e, "range within len")
        return s.wr(pl, cat([v, slc(v, r[0], r[1])]))

    def s_copy_within(s, v, a, h, e, pl):
        r = s.span(v, a[0])
        t = s.ip.deref(a[1])
        if r is None:
            return s.wr(pl, s.ip.opaque("m:copy_within", [v] + a, s.ip.typeof(v)))
        k = sub(r[1], r[0])
        s.ip.oblige(And(le(r[0], r[1]), le(r[1], length(v)), le(add(t, k), length(v))), "slice", e, "range within len")
        return s.wr(pl, cat([slc(v, ZERO, t), slc(v, r[0], r[1]), slc(v, add(t, k), length(v))]))

    def s_fill_with(s, v, a, h, e, pl):
        x = s.fn1(a[0])()
        return s.wr(pl, arr_f(length(v), lambda i: x))

    def s_pop_front(s, v, a, h, e, pl):
        n = length(v)
        c = s.ip.simp(lt(ZERO, n))
        s.wr(pl, ite(c, slc(v, ONE, n), v))
        return ite(c, Some(idx(v, ZERO)), NONE)

    def s_pop_back(s, v, a, h, e, pl):
        return s.s_pop(v, a, h, e, pl)

    def s_back(s, v, a, h, e, pl):
        return s.s_last(v, a, h, e, pl)

    def s_front(s, v, a, h, e, pl):
        return s.s_first(v, a, h, e, pl)

    def opt_ref(s, c, pl, i, v):
        c = s.ip.simp(c)
        if pl is None:
            return ite(c, Some(idx(v, i)), NONE)
        return ite(c, Some(py(pl.sub(("i", i)))), NONE)

    def s_last_mut(s, v, a, h, e, pl):
        n = length(v)
        return s.opt_ref(lt(ZERO, n), pl, sub(n, ONE), v)

    s_back_mut = s_last_mut

    def s_first_mut(s, v, a, h, e, pl):
        return s.opt_ref(lt(ZERO, length(v)), pl, ZERO, v)

    s_front_mut = s_first_mut

    def s_get_mut(s, v, a, h, e, pl):
        r = s.span(v, a[0])
        if r is not None:
            if pl is None:
                return s.s_get(v, a, h, e, pl)
            c = s.ip.simp(And(le(r[0], r[1]), le(r[1], length(v))))
            return ite(c, Some(py(pl.sub(("s", r[0], r[1])))), NONE)
        i = s.ip.deref(a[0])
        return s.opt_ref(And(le(ZERO, i), lt(i, length(v))), pl, i, v)

    def s_split_at_mut(s, v, a, h, e, pl):
        if pl is None:
            return s.s_split_at(v, a, h, e, pl)
        i = s.ip.deref(a[0])
        s.ip.oblige(le(i, length(v)), "split_at", e, "split position within len")
        return mk("tuple", py(pl.sub(("s", ZERO, i))), py(pl.sub(("s", i, length(v)))))

    def s_split_first_mut(s, v, a, h, e, pl):
        n = length(v)
        if pl is None:
            return s.s_split_first(v, a, h, e, pl)
        return ite(s.ip.simp(lt(ZERO, n)), Some(mk("tuple", py(pl.sub(("i", ZERO))), py(pl.sub(("s", ONE, n))))), NONE)

    def s_split_last_mut(s, v, a, h, e, pl):
        n = length(v)
        if pl is None:
            return s.s_split_last(v, a, h, e, pl)
        m = sub(n, ONE)
        return ite(s.ip.simp(lt(ZERO, n)), Some(mk("tuple", py(pl.sub(("i", m))), py(pl.sub(("s", ZERO, m))))), NONE)

    def s_chunks_mut(s, v, a, h, e, pl):
        if pl is None:
            return s.s_chunks(v, a, h, dict(e or {}, m="chunks"), pl)
        k = s.ip.deref(a[0])
        s.ip.oblige(negate(eq0(k)), "chunks", e, "chunk size non-zero")
        L = length(v)
        n = idiv(L, k)
        exact = mul(n, k) is L
        if not exact:
            n = idiv(add(L, k, INT(-1)), k)
        end = (lambda i: mul(add(i, ONE), k)) if exact else (lambda i: Min(mul(add(i, ONE), k), L))
        return py(It(n, lambda i: (TRUE, py(pl.sub(("s", mul(i, k), end(i)))))))

    s_par_chunks_mut = s_chunks_mut

    def s_par_chunks(s, v, a, h, e, pl):
        return s.s_chunks(v, a, h, dict(e or {}, m="chunks"), pl)

    s_par_chunks_exact = lambda s, v, a, h, e, pl: s.s_chunks(v, a, h, e, pl)

    def s_chunks_exact_mut(s, v, a, h, e, pl):
        if pl is None:
            return s.s_chunks(v, a, h, e, pl)
        k = s.ip.deref(a[0])
        s.ip.oblige(negate(eq0(k)), "chunks", e, "chunk size non-zero")
        return py(It(idiv(length(v), k), lambda i: (TRUE, py(pl.sub(("s", mul(i, k), mul(add(i, ONE), k)))))))

    def s_reserve(s, v, a, h, e, pl):
        if a:
            s.ip.alloc(s.ip.deref(a[0]), e)
        return UNIT

    s_reserve_exact = s_shrink_to_fit = s_shrink_to = s_reserve

    def s_capacity(s, v, a, h, e, pl):
        return s.ip.opaque("m:capacity", [v], USIZE)

    # ---------------------------------------------------------------- orderings
    def ordering(s, m, v, a):
        ip = s.ip
        L, E, G = (enum("Ordering", x) for x in ("Less", "Equal", "Greater"))
        is_ = lambda x: isv(v, x)
        if m == "reverse":
            return ite(is_("Less"), G, ite(is_("Greater"), L, E))
        if m in ("then", "then_with"):
            return ip.branch(is_("Equal"), lambda: ip.deref(a[0]) if m == "then" else s.fn1(a[0])(), lambda: v)
        t = {"is_lt": is_("Less"), "is_gt": is_("Greater"), "is_eq": is_("Equal"), "is_le": negate(is_("Greater")),
             "is_ge": negate(is_("Less")), "is_ne": negate(is_("Equal"))}
        return t.get(m)

    # ---------------------------------------------------------------- iterators
    def i_eq(s, it, a, h, e, pl):
        other = s.to_it(a[0])
        if other is None:
            return s.ip.opaque("m:eq", [s.collect(it)] + a)
        return eq(s.collect(it), s.collect(other))

    def i_ne(s, it, a, h, e, pl):
        return negate(s.i_eq(it, a, h, e, pl))

    def i_skip_while(s, it, a, h, e, pl):
        it = s.materialise(it)
        f = s.fn1(a[0])
        k, _ = s.first_where(it.n, lambda i: negate(f(it.get(i)[1])))
        return py(It(INF if it.n is INF else sub(it.n, k), lambda i: it.get(add(i, k))))

    def i_map_while(s, it, a, h, e, pl):
        ip = s.ip
        it = s.materialise(it)
        f = s.fn1(a[0])
        k, _ = s.first_where(it.n, lambda i: negate(isv(f(it.get(i)[1]), "Some")))
        return py(It(k, lambda i: (TRUE, payload(f(it.get(i)[1]), "Some"))))

    def i_reduce(s, it, a, h, e, pl):
        ip = s.ip
        q = s.collect(it)
        n = length(q)
        c = ip.simp(lt(ZERO, n))
        if c is FALSE:
            return NONE

        def some():
            rest = s.seq_it(slc(q, ONE, n))
            return Some(s.reduce(rest, idx(q, ZERO), lambda acc, v: ip.apply(a[0], [acc, v])))
        return ip.branch(c, some, lambda: NONE)

    def i_try_fold(s, it, a, h, e, pl):
        ip = s.ip
        init = ip.deref(a[0])
        snap = ip.snapshot()
        no, nn = len(ip.obls), len(ip.notes)
        q = s.materialise(it)
        r = ip.deref(ip.apply(a[1], [init, q.get(ZERO)[1]]))
        ip.restore(snap)
        del ip.obls[no:]
        del ip.notes[nn:]
        opt = s.is_option(r)
        if not opt and not s.is_result(r):
            hh = h[1] if h and h[0] == "wrap" else h
            if not (hh and hh[0] == "adt" and hh[1] in ("Option", "Result")):
                return ip.opaque("try_fold", [s.collect(q), ip.freeze_fn(a[1], 2)])
            opt = hh[1] == "Option"
        good = "Some" if opt else "Ok"
        wrap = Some if opt else Ok
        return s.reduce(q, wrap(init), lambda acc, v: ip.branch(
            isv(ip.deref(acc), good), lambda: ip.deref(ip.apply(a[1], [payload(ip.deref(acc), good), v])), lambda: ip.deref(acc)))

    def i_peek(s, it, a, h, e, pl):
        it = s.materialise(it)
        n = it.n
        c = s.ip.simp(lt(ZERO, n)) if n is not INF else TRUE
        if c is FALSE:
            return NONE
        return ite(c, Some(s.ip.deref(it.get(ZERO)[1])), NONE)

    def i_rposition(s, it, a, h, e, pl):
        it = s.materialise(it)
        f = s.fn1(a[0])
        n = it.n
        back = lambda i: sub(sub(n, ONE), i)
        k, c = s.first_where(n, lambda i: f(it.get(back(i))[1]))
        return ite(c, Some(back(k)), NONE)

    def i_rfind(s, it, a, h, e, pl):
        r = s.i_rev(it, [], None, e, None)
        return s.i_find(un(r), a, h, e, None)

    def i_min_by(s, it, a, h, e, pl):
        q = s.collect(it)
        return s.end_of(q, s.sort_key(a[0], True, q), ZERO)

    def i_max_by(s, it, a, h, e, pl):
        q = s.collect(it)
        return s.end_of(q, s.sort_key(a[0], True, q), sub(length(q), ONE))

    def i_min_by_key(s, it, a, h, e, pl):
        q = s.collect(it)
        return s.end_of(q, s.sort_key(a[0], False, q), ZERO)

    def i_max_by_key(s, it, a, h, e, pl):
        q = s.collect(it)
        return s.end_of(q, s.sort_key(a[0], False, q), sub(length(q), ONE))

    def end_of(s, q, key, i):
        t = s.typed(mk("sorted", q, key), q)
        return ite(s.ip.simp(lt(ZERO, length(q))), Some(idx(t, i)), NONE)

    def i_is_sorted(s, it, a, h, e, pl):
        return s.s_is_sorted(s.collect(it), a, h, e, pl)

    def i_minmax(s, it, a, h, e, pl):
        return s.ip.opaque("m:minmax", [s.collect(it)])

    def i_lt(s, it, a, h, e, pl):
        other = s.to_it(a[0])
        return s.less(s.collect(it), s.collect(other))

    def i_collect_vec(s, it, a, h, e, pl):
        return s.collect(it)

    def i_join(s, it, a, h, e, pl):
        return s.ip.opaque("join", [s.collect(it)] + a, ("str",))

    def i_fold_first(s, it, a, h, e, pl):
        return s.i_reduce(it, a, h, e, pl)

    def i_sum_checked(s, it, a, h, e, pl):
        return s.i_sum(it, a, h, e, pl)

    # ---------------------------------------------------------------- integers
    def int2(s, m, v, a, hint, ty, w):
        """further integer methods; None when unknown"""
        ip = s.ip
        d = lambda i: ip.deref(a[i])
        signed = ty[0] == "int" and bool(ty[1]) and ty[1][0] == "i"
        if m in ("rotate_left", "rotate_right") and not signed:
            k = imod(d(0), INT(w))
            if m == "rotate_right":
                k = imod(sub(INT(w), k), INT(w))
            return add(trunc(shl(v, k), w), shr(v, sub(INT(w), k), w))
        if m in ("wrapping_shl", "wrapping_shr") and not signed:
            k = imod(d(0), INT(w))
            return trunc(shl(v, k), w) if m == "wrapping_shl" else shr(v, k, w)
        if m == "next_multiple_of":
            k = d(0)
            return mul(idiv(add(v, k, INT(-1)), k), k)
        if m == "checked_next_power_of_two":
            from .std import npow2
            r = npow2(v)
            return ite(lt(r, INT(1 << w)), Some(r), NONE)
        if m == "signum":
            return ite(eq0(v), ZERO, ite(lt(ZERO, v), ONE, INT(-1)))
        if m == "wrapping_neg":
            if signed:
                return ite(eq(v, INT(-(1 << (w - 1)))), v, neg(v))
            return trunc(neg(v), w)
        if m == "checked_neg":
            if signed:
                return ite(eq(v, INT(-(1 << (w - 1)))), NONE, Some(neg(v)))
            return ite(eq0(v), Some(ZERO), NONE)
        if m == "saturating_mul" and not signed:
            return Min(mul(v, d(0)), INT((1 << w) - 1))
        if m == "overflowing_mul" and not signed:
            r = mul(v, d(0))
            return mk("tuple", trunc(r, w), le(INT(1 << w), r))
        if m == "div_euclid" and not signed:
            return idiv(v, d(0))
        if m == "checked_ilog2" or m == "checked_log2":
            r = mk("call", "ilog2", v)
            X._types[r] = ("int", "u32")
            return ite(eq0(v), NONE, Some(r))
        if m == "swap_bytes":
            return dec("be", enc("le", INT(w // 8), v), INT(w // 8), "u")
        if m == "to_be":
            return dec("be", enc("le", INT(w // 8), v), INT(w // 8), "u")
        if m == "to_le":
            return v
        if m == "isqrt":
            return None
        if m in ("add_assign",):
            return None
        return None

    # ---------------------------------------------------------------- Option / Result
    def opt2(s, m, v, a, hint, e, pl, is_opt):
        ip = s.ip
        good = "Some" if is_opt else "Ok"
        c = isv(v, good)
        ap = s.fn1(a[0]) if a and isinstance(un(ip.deref(a[0])), (Clo, FnV)) else None
        if m in ("iter", "into_iter", "iter_mut"):
            it = It(ONE, lambda i: (c, payload(v, good)))
            it.guarded = True
            return py(it)
        if m == "xor":
            w = ip.deref(a[0])
            d = isv(w, "Some")
            return ite(And(c, negate(d)), v, ite(And(negate(c), d), w, NONE))
        if m in ("get_or_insert", "get_or_insert_with") and pl is not None:
            x = ip.deref(a[0]) if m == "get_or_insert" else None
            nv = ite(c, v, Some(x)) if x is not None else ip.branch(c, lambda: v, lambda: Some(ap()))
            ip.write(pl, nv)
            return py(pl.sub(("v", "Some", 0)))
        if m == "is_none_or":
            return ip.branch(c, lambda: ap(payload(v, good)), lambda: TRUE)
        if m == "is_err_and":
            return ip.branch(c, lambda: FALSE, lambda: ap(payload(v, "Err")))
        if m == "unwrap_err" or m == "expect_err":
            ip.oblige(negate(c), "unwrap", e or {}, m)
            return payload(v, "Err")
        if m == "unwrap_unchecked":
            return payload(v, good)
        if m == "inspect_err" or m == "inspect":
            return v
        if m == "transpose":
            return None
        return None


OPT2 = {"iter", "into_iter", "iter_mut", "xor", "get_or_insert", "get_or_insert_with", "is_none_or", "is_err_and", "unwrap_err",
        "expect_err", "unwrap_unchecked", "inspect_err"}
INT2 = {"rotate_left", "rotate_right", "wrapping_shl", "wrapping_shr", "next_multiple_of", "checked_next_power_of_two", "signum",
        "wrapping_neg", "checked_neg", "saturating_mul", "overflowing_mul", "div_euclid", "checked_ilog2", "swap_bytes", "to_be", "to_le"}
