"""Value-flow summaries: evaluates function bodies over canonical terms.

Both arms of a conditional are analysed and joined with gated values (ite), loops are
summarised over a symbolic iteration index (sums, products, quantifiers, comprehensions,
recurrences), in-crate calls are inlined, everything outside the crate is a model
(std.py) or an uninterpreted function.  Nothing is executed.
"""
from .terms import *
from . import terms as X
from .front import Ctx, UNK, FELT, USIZE, BOOL as TBOOL, WIDTH, generic_names, INTS, ty_text
import itertools

U8S = ("seq", ("int", "u8"), None)


# ------------------------------------------------------------------ python values inside terms
class PyV:
    _n = itertools.count()

    def __init__(s):
        s.uid = "py%d" % next(PyV._n)


class Ref(PyV):
    def __init__(s, cell, path=()):
        s.cell, s.path = cell, tuple(path)
        s.uid = ("ref", cell, s.path)

    def __eq__(s, o):
        return isinstance(o, Ref) and s.uid == o.uid

    def __hash__(s):
        return hash(s.uid)

    def sub(s, *el):
        return Ref(s.cell, s.path + el)


class Clo(PyV):
    def __init__(s, params, body, env, frame):
        super().__init__()
        s.params, s.body, s.env, s.frame = params, body, env, frame


class FnV(PyV):
    """function value: f(interp, args, hint) -> T"""

    def __init__(s, name, f, fn=None):
        super().__init__()
        s.name, s.f, s.fn = name, f, fn


class It(PyV):
    """iterator: n steps (may be INF); get(i) -> (guard, value)"""

    def __init__(s, n, get, back=None):
        super().__init__()
        s.n, s.get, s.back = n, get, back
        s.seq = None      # underlying plain sequence when get is idx(seq, i)
        s.chain = None    # list of iterators run one after the other
        s.nest = None     # (outer iterator, inner iterator of an element)
        s.guarded = False  # elements may be absent
        s.range = None


class TyV(PyV):
    def __init__(s, ty):
        super().__init__()
        s.ty = ty


FOREIGN = {}
# result types of the virtual machine's interface
_U, _N = ("unk",), ("int", "usize")
API = {
    "m:get_range_check_builtin": ("adt", "Result", (_U, _U)),
    "m:get_memory_segment_addresses": ("tuple", (_N, ("adt", "Option", (_N,)))),
    "m:get_segment_size": ("adt", "Option", (_N,)),
    "m:get_segment_used_size": ("adt", "Option", (_N,)),
    "m:data_len": _N,
    "m:get_relocated_trace": ("adt", "Result", (("seq", ("adt", "cairo_vm::vm::trace::trace_entry::TraceEntry", ()), None), _U)),
    "cairo_run::cairo_run": ("adt", "Result", (("tuple", (_U, _U)), _U)),
    "CairoRunner::new": ("adt", "Result", (_U, _U)),
}


def py(o):
    return mk("py", o)


def un(t):
    return t.args[0] if t.op == "py" else None


def is_ref(t):
    return t.op == "py" and isinstance(t.args[0], Ref)


# ------------------------------------------------------------------ control
class Diverge(Exception):
    pass


class TooDeep(Exception):
    pass


class Frame_:
    def __init__(s, fn, ctx, ret):
        s.fn, s.ctx, s.ret = fn, ctx, ret
        s.returns = []
        s.entry = 0
        s.env = None
        s.recv = None
        s.cells = None


class LoopCtl:
    def __init__(s, label, entry):
        s.label, s.entry = label, entry
        s.breaks, s.conts = [], []
        s.frame = None


class Obl:
    __slots__ = ("kind", "cond", "facts", "file", "ln", "fn", "what", "loops")

    def __init__(s, kind, cond, facts, file, ln, fn, what):
        s.kind, s.cond, s.facts, s.file, s.ln, s.fn, s.what = kind, cond, facts, file, ln, fn, what
        s.loops = ()       # enclosing symbolic loops, innermost first: (index, count or None, leaves-after)


ENUM_DISC = {}
_fp_memo = {}
CALLTY = {}


def calltype(name, ty):
    CALLTY[name] = ty


class Interp:
    def __init__(s, crate, models=None, overflow=False):
        s.crate = crate
        s.store = {}
        s.ncell = 0
        s.path = []        # branch conditions
        s.assumed = []     # facts that hold because execution continued
        s.reach = []       # what the path conditions forget at joins where an alternative went elsewhere
        s.frames = []
        s.loops = []
        s.obls = []
        s.casts = None
        s.notes = []
        s.seen_fns = {}
        s.calls = []       # (caller qual, callee name)
        s.env = None
        s.frame = None
        s.loop_idx = []
        s.site = 0
        s.events_on = True
        s.depth = 0
        s.overflow = overflow
        s.last_store = {}
        s.cellty = {}      # cell -> integer type it was declared with
        s.hooks = {}       # qual or name -> python model for in-crate function
        s.opaque_fns = set()
        s.generic_impl = {}
        s.budget = 400000
        s.steps = 0
        s.parser = 0
        s.prints = []
        s.effects = []     # (name, arguments, path) of calls that act on the world
        s.texts = False    # evaluate the arguments of print macros
        X.set_type_hook(s.typeof)
        X._variant_hook[0] = s.variants
        X._len_hook[0] = s.len_hook
        s._tymemo = {}
        s._fi = None
        _fp_memo.clear()
        from . import std
        s.std = std.Std(s)

    # ------------------------------------------------------------ helpers
    def note(s, what, e=None):
        f = s.frame
        s.notes.append((what, f.fn.file if f and f.fn else "?", e.get("ln") if isinstance(e, dict) else None,
                        f.fn.qual if f and f.fn else "?"))

    def unsup(s, what, e=None):
        s.note(what, e)
        s.site += 1
        s.mark("unsup:" + str(what))
        return mk("unsup", what, s.site)

    def newcell(s, v):
        s.ncell += 1
        s.store[s.ncell] = v
        s.cellty.pop(s.ncell, None)
        return s.ncell

    # ------------------------------------------------------------ types
    def variants(s, x):
        t = s.typeof(x)
        if t[0] == "adt":
            if t[1] in ("Option",):
                return ["Some", "None"]
            if t[1] in ("Result",):
                return ["Ok", "Err"]
            r = s.crate.enums.get(t[1])
            if r:
                return [v["n"] for v in r[0]["v"]]
        return []

    def len_hook(s, t):
        ty = s.typeof(t)
        if ty[0] == "seq" and isinstance(ty[2], int):
            return INT(ty[2])
        if ty[0] == "seq" and isinstance(ty[2], T):
            return ty[2]
        return None

    def typeof(s, t):
        r = X._types.get(t)
        if r is not None:
            return r
        r = s._tymemo.get(t)
        if r is None:
            r = s._typeof(t)
            if r != UNK:
                s._tymemo[t] = r
        return r

    def _typeof(s, t):
        o, a = t.op, t.args
        if o == "int":
            return ("int", None)
        if is_bool(t):
            return TBOOL
        if o == "field":
            return s.crate.field_ty(s.typeof(a[0]), a[1])
        if o == "setf":
            return s.typeof(a[0])
        if o == "idx":
            ty = s.typeof(a[0])
            if ty[0] == "seq":
                return ty[1]
            return UNK
        if o in ("slice", "upd", "sorted", "setslice", "uniq", "filled"):
            ty = s.typeof(a[0])
            return ("seq", ty[1], None) if ty[0] == "seq" and o in ("slice", "uniq") else ty
        if o == "arr":
            v, b = open_lam(a[1], "t", USIZE)
            return ("seq", s.typeof(b), None)
        if o == "flat":
            v, b = open_lam(a[1], "t", USIZE)
            ty = s.typeof(b)
            return ("seq", ty[1], None) if ty[0] == "seq" else ty
        if o == "lst":
            return ("seq", s.typeof(a[0][0]) if a[0] else UNK, len(a[0]))
        if o == "cat":
            for p in a[0]:
                ty = s.typeof(p)
                if ty[0] == "seq" and ty[1] != UNK:
                    return ("seq", ty[1], None)
            return ("seq", UNK, None)
        if o in ("interp", "polyc", "pevenpart", "poddpart", "X"):
            return ("poly",)
        if o in ("peval", "root"):
            return FELT
        if o == "enc":
            return U8S
        if o == "dec":
            w = ival(a[2])
            return ("int", {1: "u8", 2: "u16", 4: "u32", 8: "u64", 16: "u128"}.get(w, "u64") if a[3] == "u" else "i64")
        if o == "struct":
            return ("adt", a[0], ())
        if o == "tuple":
            return ("tuple", tuple(s.typeof(x) for x in a))
        if o == "enum":
            if a[0] == "Option":
                return ("adt", "Option", (s.typeof(a[2][0]),) if a[2] else (UNK,))
            if a[0] == "Result":
                return ("adt", "Result", (s.typeof(a[2][0]) if a[1] == "Ok" and a[2] else UNK,
                                          s.typeof(a[2][0]) if a[1] == "Err" and a[2] else UNK))
            return ("adt", a[0], ())
        if o == "ite":
            x = s.typeof(a[1])
            y = s.typeof(a[2])
            if x[0] == "adt" and x[1] in ("Option", "Result") and y[0] == "adt":
                return ("adt", x[1], tuple(p if p != UNK else q for p, q in zip(x[2], y[2])))
            if x == UNK or (x[0] == "int" and x[1] is None):
                return y
            if x[0] == "seq" and y[0] == "seq":
                return ("seq", y[1] if x[1] == UNK else x[1], x[2] if x[2] == y[2] else None)
            return x
        if o == "payload":
            ty = s.typeof(a[0])
            if ty[0] == "adt":
                if ty[1] == "Option" and ty[2]:
                    return ty[2][0]
                if ty[1] == "Result" and len(ty[2]) > 1:
                    return ty[2][0] if a[1] == "Ok" else ty[2][1]
                r = s.crate.enums.get(ty[1])
                if r:
                    for v in r[0]["v"]:
                        if v["n"] == a[1] and a[2] < len(v["f"]):
                            return s.crate.ty(v["f"][a[2]]["t"], Ctx(r[1], {}, ty))
            return UNK
        if o == "poly":
            best = ("int", None)
            for m, c in a[0]:
                for x, e in m:
                    ty = s.typeof(x)
                    if ty == FELT or ty == ("poly",):
                        if best != ("poly",):
                            best = ty
                    elif ty[0] == "int" and ty[1] and best == ("int", None):
                        best = ty
            return best
        if o == "X":
            return ("poly",)
        if o == "chal":
            return X.CHAL_TY.get(a[0], FELT)
        if o in ("emb", "root"):
            return FELT
        if o in ("ind", "bit"):
            return ("int", None)
        if o == "len":
            return USIZE
        if o in ("mod", "idiv", "sum", "prod"):
            b = a[0] if o in ("mod", "idiv") else open_lam(a[1], "t", USIZE)[1]
            return s.typeof(b)
        if o in ("min", "max"):
            for x in a[0]:
                ty = s.typeof(x)
                if ty[0] == "int" and ty[1]:
                    return ty
            return ("int", None)
        if o == "first":
            return USIZE
        if o == "iter":
            ty = s.typeof(a[1])
            if ty[0] == "seq":
                if ty[1] == UNK:
                    v, b = open_lam(a[2], "t", USIZE)
                    v, b = open_lam(b, "t", ty)
                    ty = s.typeof(b)
                ty = ("seq", ty[1] if ty[0] == "seq" else UNK, None)
            return ty
        if o in ("mapnew", "setnew"):
            return X.MAPTY.get(a[0].args[0], UNK) if a else UNK
        if o in ("mapins", "setins", "mapext", "setext", "mapdel"):
            ty = s.typeof(a[0])
            if o == "mapins" and ty[0] == "map":
                ty = ("map", s.typeof(a[1]) if ty[1] == UNK else ty[1], s.typeof(a[2]) if ty[2] == UNK else ty[2]) + tuple(ty[3:])
            if o == "setins" and ty[0] == "set" and ty[1] == UNK:
                ty = ("set", s.typeof(a[1])) + tuple(ty[2:])
            return ty
        if o in ("call", "bcall"):
            if a[0] == "dedup":
                ty = s.typeof(a[1])
                return ("seq", ty[1], None) if ty[0] == "seq" else ty
            return CALLTY.get(a[0], UNK)
        if o == "trunc":
            return ("int", {8: "u8", 16: "u16", 32: "u32", 64: "u64"}.get(a[1], "u64"))
        if o == "tr":
            return ("transcript",)
        if o == "mapget":
            ty = s.typeof(a[0])
            return ("adt", "Option", (ty[2],)) if ty[0] == "map" else UNK
        if o in ("mapins", "mapext", "mapdel"):
            ty = s.typeof(a[0])
            if ty[0] != "map" and o == "mapins":
                ty = ("map", s.typeof(a[1]), s.typeof(a[2]))
            return ty
        return UNK

    def is_field(s, t):
        ty = s.typeof(t)
        return ty in (FELT, ("poly",))

    # ------------------------------------------------------------ facts
    def facts(s):
        return s.path + s.assumed

    def simp(s, c):
        """simplify a condition under the known facts"""
        if c.op == "bool":
            return c
        vs = fv(c)
        for f in itertools.chain(s.path, s.assumed):
            if not (fv(f) & vs):
                continue
            c = assume(c, f, True)
            if c.op == "bool":
                return c
        return s.lin(c)

    def fact_polys(s, f):
        """[(poly of d-1, monomials)] for every d > 0 known from the condition f"""
        r = _fp_memo.get(f)
        if r is None:
            r = []
            if f.op == "and":
                for x in f.args[0]:
                    r += s.fact_polys(x)
            elif f.op == "pos":
                r.append(X.padd(X.to_poly(f.args[0]), {X.NOMONO: -1}))
            elif f.op == "eq0":
                q = X.to_poly(f.args[0])
                if not any(s.is_field(a) for m in q for a, _ in m):
                    r.append(q)
                    r.append(X.padd({}, q, -1))
            _fp_memo[f] = r
        return r

    def fact_index(s):
        k = (tuple(s.path), tuple(s.assumed))
        if s._fi is not None and s._fi[0] == k:
            return s._fi[1]
        ix = {}
        for f in itertools.chain(s.path, s.assumed):
            for q in s.fact_polys(f):
                for m in q:
                    ix.setdefault(m, []).append(q)
        s._fi = (k, ix)
        return ix

    def lin(s, c):
        if c.op == "and":
            return And(*[s.lin(x) for x in c.args[0]])
        if c.op == "or":
            return Or(*[s.lin(x) for x in c.args[0]])
        if c.op == "pos":
            if s.implied(c.args[0]):
                return TRUE
            if s.implied(sub(ONE, c.args[0])):
                return FALSE
        if c.op == "eq0":
            d = c.args[0]
            if s.implied(d) or s.implied(neg(d)):
                return FALSE
            if s.implied(add(d, ONE)) and s.implied(sub(ONE, d)):
                return TRUE
        return c

    def implied(s, d):
        """d > 0 follows from at most three of the known facts plus non-negative terms"""
        if pos(d) is TRUE:
            return True
        ix = s.fact_index()
        if not ix:
            return False
        return s._impl(X.padd(X.to_poly(d), {X.NOMONO: -1}), ix, 3, [150])

    def _impl(s, q, ix, depth, fuel):
        bad = None
        for m, c in q.items():
            if c < 0 or not all(X.nonneg_atom(a) for a, _ in m):
                if m or bad is None:
                    bad = m
                if m:
                    break
        if bad is None:
            return True
        if depth == 0:
            return False
        c0 = q[bad]
        for f in ix.get(bad, ()):
            if (f[bad] < 0) != (c0 < 0):
                continue
            fuel[0] -= 1
            if fuel[0] < 0:
                return False
            r = X.padd(q, f, -1)
            if s._impl(r, ix, depth - 1, fuel):
                return True
            # an integral multiple of the fact
            k = c0 / f[bad] if f[bad] else 0
            if k > 1 and k == int(k) and s._impl(X.padd(q, f, -int(k)), ix, depth - 1, fuel):
                return True
        return False

    def simpv(s, t):
        """decide indicator atoms of a value under the facts"""
        conds = set()

        def walk(x, seen):
            if x in seen:
                return
            seen.add(x)
            if x.op == "ind":
                conds.add(x.args[0])
            if x.op == "ite":
                conds.add(x.args[0])
            for c in X.children(x):
                if c.op != "lam":
                    walk(c, seen)
        walk(t, set())
        for c in conds:
            d = s.simp(c)
            if d is TRUE:
                t = assume(t, c, True)
            elif d is FALSE:
                t = assume(t, c, False)
        return t

    def assume_ok(s, c):
        if c is not TRUE:
            s.assumed.append(c)

    def narrow(s, v, src, ty, e):
        """a cast of v to an integer type of 16 bits or fewer"""
        if s.casts is not None:
            fn = s.frame.fn if s.frame else None
            if fn is not None and fn.file != "spec":
                s.casts.append((fn, v, src, ty, tuple(s.path) + tuple(s.reach), e))

    def oblige(s, c, kind, e, what=""):
        """panic unless c"""
        c2 = s.simp(c)
        if c2 is TRUE:
            s.obls.append(Obl(kind, TRUE, (), s.frame.fn.file if s.frame.fn else "?", e.get("ln") if isinstance(e, dict) else None,
                              s.frame.fn.qual if s.frame.fn else "?", what))
            return
        fn = s.frame.fn
        s.obls.append(Obl(kind, c2, tuple(s.path) + tuple(s.reach), fn.file if fn else "?", e.get("ln") if isinstance(e, dict) else None,
                          fn.qual if fn else "?", what))
        if c2 is FALSE:
            raise Diverge()
        s.assumed.append(c2)

    # ------------------------------------------------------------ branching
    def snapshot(s):
        return dict(s.store), list(s.path), list(s.assumed), list(s.reach)

    def restore(s, snap):
        s.store, s.path, s.assumed, s.reach = dict(snap[0]), list(snap[1]), list(snap[2]), list(snap[3])

    def branch(s, c, then, els):
        """join of two alternatives; returns value"""
        c = s.simp(c)
        if c is TRUE:
            return then()
        if c is FALSE:
            return els()
        snap = s.snapshot()
        outs = []
        for cond, f in ((c, then), (negate(c), els)):
            s.restore(snap)
            s.path.append(cond)
            try:
                v = f()
                outs.append((cond, v, s.store, list(s.path), list(s.assumed), list(s.reach)))
            except Diverge:
                outs.append(None)
        a, b = outs
        if a is None and b is None:
            raise Diverge()
        if a is None or b is None:
            w = a or b
            s.store, s.path, s.assumed, s.reach = w[2], w[3], w[4], w[5]
            return w[1]
        s.restore(snap)
        n, m = len(snap[1]) + 1, len(snap[3])
        if len(a[3]) > n or len(b[3]) > n or len(a[5]) > m or len(b[5]) > m:
            s.reach.append(Or(And(*(a[3][n - 1:] + a[5][m:])), And(*(b[3][n - 1:] + b[5][m:]))))
        base = snap[0]
        st = {}
        sa, sb = a[2], b[2]
        for k in base:
            x, y = sa.get(k), sb.get(k)
            if x is y:
                st[k] = x
            else:
                st[k] = s.join(c, x, y)
        # cells created inside a branch may be referenced from escaping closures/refs
        for k in sa:
            if k not in st:
                st[k] = sa[k]
        for k in sb:
            if k not in st:
                st[k] = sb[k]
        s.store = st
        common = set(a[4][len(snap[2]):]) & set(b[4][len(snap[2]):])
        s.assumed = snap[2] + [f for f in a[4][len(snap[2]):] if f in common]
        return s.join(c, a[1], b[1])

    def join(s, c, x, y):
        if x is y:
            return x
        if x is None:
            return y
        if y is None:
            return x
        if x.op == "tr" and y.op == "tr":
            return s.join_tr(c, x, y)
        ux, uy = un(x), un(y)
        if ux is not None or uy is not None:
            if isinstance(ux, It) and isinstance(uy, It):
                return py(It(s.join(c, ux.n, uy.n), lambda i: s.guarded_join(c, ux, uy, i)))
            if isinstance(ux, It) or isinstance(uy, It):
                a = s.std.to_it(x)
                b = s.std.to_it(y)
                if a is not None and b is not None:
                    return py(It(s.join(c, a.n, b.n), lambda i: s.guarded_join(c, a, b, i)))
            if isinstance(ux, Clo) and isinstance(uy, Clo) or isinstance(ux, FnV) or isinstance(uy, FnV):
                return py(FnV("joined", lambda ip, args, hint: s.branch(c, lambda: s.apply(x, args), lambda: s.apply(y, args))))
            if ux is not None and uy is not None and isinstance(ux, Ref) and isinstance(uy, Ref):
                # reading through either; writes unsupported
                return ite(c, s.deref(x), s.deref(y))
            return s.unsup("join of opaque values")
        if x.op in ("struct", "tuple", "enum") and x.op == y.op and s.has_py(x):
            if x.op == "tuple" and len(x.args) == len(y.args):
                return mk("tuple", *[s.join(c, p, q) for p, q in zip(x.args, y.args)])
            if x.op == "struct" and x.args[0] == y.args[0]:
                d, f = dict(x.args[1]), dict(y.args[1])
                return struct(x.args[0], {k: s.join(c, d[k], f[k]) for k in d})
            if x.op == "enum" and x.args[:2] == y.args[:2]:
                return enum(x.args[0], x.args[1], [s.join(c, p, q) for p, q in zip(x.args[2], y.args[2])])
        if x.op == "struct" and y.op != "struct":
            y = s.expand(y)
        if y.op == "struct" and x.op != "struct":
            x = s.expand(x)
        return ite(c, x, y)

    def expand(s, t):
        """eta-expand an opaque struct/tuple value"""
        ty = s.typeof(t)
        if ty[0] == "adt" and ty[1] in s.crate.structs and t.op != "struct":
            it, m = s.crate.structs[ty[1]]
            return struct(ty[1], {(f["n"] or str(i)): field(t, f["n"] or str(i)) for i, f in enumerate(it["f"])})
        if ty[0] == "tuple" and t.op != "tuple":
            return mk("tuple", *[field(t, str(i)) for i in range(len(ty[1]))])
        return t

    def guarded_join(s, c, a, b, i):
        ga, va = a.get(i)
        gb, vb = b.get(i)
        return ite(c, ga, gb), s.join(c, va, vb)

    def has_py(s, t):
        if t.op == "py":
            return True
        if t.op in ("tuple", "struct", "enum"):
            return any(s.has_py(x) for x in X.children(t))
        return False

    def join_tr(s, c, x, y):
        ex, ey = x.args[0], y.args[0]
        k = 0
        while k < len(ex) and k < len(ey) and ex[k] is ey[k]:
            k += 1
        if k == len(ex) == len(ey):
            return x
        return mk("tr", ex[:k] + (mk("evif", c, mk("tr", ex[k:]), mk("tr", ey[k:])),))

    # ------------------------------------------------------------ places
    def read(s, r):
        v = s.store[r.cell]
        for el in r.path:
            v = s.deref(v)
            v = s.proj(v, el)
        return v

    def proj(s, v, el):
        k = el[0]
        if k == "f":
            return s.getf(v, el[1])
        if k == "i":
            return idx(v, el[1])
        if k == "s":
            return slc(v, el[1], el[2])
        if k == "v":
            return payload(v, el[1], el[2])
        if k == "m":
            return payload(s.std.map_get(v, el[1]), "Some")
        raise AssertionError(el)

    def getf(s, v, n):
        v = s.deref(v)
        return field(v, n)

    def deref(s, v):
        n = 0
        while is_ref(v):
            v = s.read(un(v))
            n += 1
            if n > 50:
                raise TooDeep()
        return v

    def write(s, r, val):
        base = s.store[r.cell]
        s.store[r.cell] = s.setp(base, r.path, val, r)

    def setp(s, v, path, val, r):
        if not path:
            if is_ref(v) and not is_ref(val):
                s.write(un(v), val)
                return v
            return val
        if is_ref(v):
            q = un(v)
            s.write(Ref(q.cell, q.path + tuple(path)), val)
            return v
        el = path[0]
        k = el[0]
        if k == "f":
            cur = field(v, el[1])
            nv = s.setp(cur, path[1:], val, r)
            if nv is cur:
                return v
            if v.op not in ("struct", "tuple"):
                v = s.expand(v)
            if v.op == "ite":
                return ite(v.args[0], s.setp(v.args[1], path, val, r), s.setp(v.args[2], path, val, r))
            return set_field(v, el[1], nv)
        if k == "i":
            cur = idx(v, el[1])
            nv = s.setp(cur, path[1:], val, r)
            if nv is cur:
                return v
            return upd(v, el[1], nv)
        if k == "s":
            cur = slc(v, el[1], el[2])
            nv = s.setp(cur, path[1:], val, r)
            if nv is cur:
                return v
            # whole-range replacement
            return cat([slc(v, ZERO, el[1]), nv, slc(v, el[2], length(v))])
        if k == "v":
            cur = payload(v, el[1], el[2])
            nv = s.setp(cur, path[1:], val, r)
            if v.op == "enum":
                a = list(v.args[2])
                if v.args[1] == el[1]:
                    a[el[2]] = nv
                return enum(v.args[0], v.args[1], a)
            if v.op == "ite":
                return ite(v.args[0], s.setp(v.args[1], path, val, r) if isv(v.args[1], el[1]) is not FALSE else v.args[1],
                           s.setp(v.args[2], path, val, r) if isv(v.args[2], el[1]) is not FALSE else v.args[2])
            ty = s.typeof(v)
            nm = ty[1] if ty[0] == "adt" else "?"
            return enum(nm, el[1], [nv])
        if k == "m":
            nv = s.setp(s.proj(v, el), path[1:], val, r)
            return mk("mapins", v, el[1], nv)
        raise AssertionError(el)

    def place(s, e):
        """Ref for a place expression, or None"""
        k = e["k"]
        if k == "path" and len(e["p"]) == 1:
            c = s.lookup(e["p"][0]["n"])
            if c is not None:
                v = s.store[c]
                if is_ref(v):
                    return un(v)
                return Ref(c)
            return None
        if k == "field":
            p = s.place(e["e"])
            if p is None:
                v = s.eval(e["e"])
                if is_ref(v):
                    p = un(v)
                else:
                    p = Ref(s.newcell(v))
            p = s.norm_ref(p)
            return s.norm_ref(p.sub(("f", e["n"])))
        if k == "index":
            p = s.place(e["e"])
            if p is None:
                v = s.eval(e["e"])
                p = un(v) if is_ref(v) else Ref(s.newcell(v))
            p = s.norm_ref(p)
            base = s.deref(s.read(p))
            if base.op in ("mapnew", "mapins") or s.typeof(base)[0] == "map":
                key_ = s.deref(s.eval(e["i"]))
                return p.sub(("m", key_))
            if e["i"]["k"] == "range":
                lo, hi = s.range_bounds(e["i"], base, e)
                return p.sub(("s", lo, hi))
            i = s.deref(s.eval(e["i"], USIZE))
            ui = un(i)
            if isinstance(ui, It):
                return None
            s.check_index(base, i, e)
            return p.sub(("i", i))
        if k == "un" and e["op"] == "*":
            p = s.place(e["e"])
            if p is not None:
                return s.norm_ref(p)
            v = s.eval(e["e"])
            if is_ref(v):
                return un(v)
            return None
        if k == "block" and len(e["s"]) == 1 and e["s"][0]["k"] == "expr" and not e["s"][0]["semi"]:
            return s.place(e["s"][0]["e"])
        return None

    def norm_ref(s, p):
        """follow a reference stored in the place itself"""
        for _ in range(50):
            v = s.read(p)
            if is_ref(v):
                p = un(v)
            else:
                break
        return p

    def check_index(s, base, i, e):
        s.oblige(And(lt(i, length(base)), le(ZERO, i)), "index", e, "index < len")

    def range_bounds(s, r, base, e):
        lo = s.deref(s.eval(r["lo"], USIZE)) if r.get("lo") else ZERO
        n = length(base)
        if r.get("hi"):
            hi = s.deref(s.eval(r["hi"], USIZE))
            if r["incl"]:
                hi = add(hi, ONE)
        else:
            hi = n
        lo, hi = s.simpv(lo), s.simpv(hi)
        s.oblige(And(le(lo, hi), le(hi, n)), "slice", e, "range within len")
        return lo, hi

    # ------------------------------------------------------------ environment
    def lookup(s, n):
        for sc in reversed(s.env):
            if n in sc:
                return sc[n]
        return None

    def bind(s, n, v):
        s.env[-1][n] = s.newcell(v)

    @property
    def ctx(s):
        return s.frame.ctx

    def ty(s, t):
        return s.crate.ty(t, s.ctx) if t is not None else UNK

    # ------------------------------------------------------------ functions
    def run_fn(s, fn, args, generics=None, selfty=None, hint=None, node=None):
        """inline an in-crate function"""
        if s.depth > 60:
            raise TooDeep()
        for f in s.frames:
            if f.fn is fn and s.frames.count(f) and sum(1 for g in s.frames if g.fn is fn) > 3:
                return s.unsup("recursion in %s" % fn.qual, node)
        h = s.hooks.get(fn.qual) or s.hooks.get(fn.name)
        if h is not None:
            r = h(s, args, fn)
            if r is not None:
                return r
        s.seen_fns[fn.qual] = fn
        g = dict(generics or {})
        sig = fn.sig
        names = generic_names(sig.get("g"))
        if selfty is None and fn.impl is not None:
            ctx0 = Ctx(fn.mod, {n: ("param", n) for n in generic_names(fn.impl.get("g"))}, None)
            selfty = s.crate.ty(fn.impl["ty"], ctx0)
        for n in generic_names(fn.impl.get("g")) if fn.impl else []:
            g.setdefault(n, ("param", n))
        for n in names:
            g.setdefault(n, ("param", n))
        if fn.trait is not None:
            g.setdefault("Self", selfty or ("param", "Self"))
        ctx = Ctx(fn.mod, g, selfty)
        fr = Frame_(fn, ctx, None)
        fr.ret = s.crate.ty(sig["out"], ctx) if sig["out"] is not None else ("tuple", ())
        saved = (s.frame, s.env, s.loops)
        s.frames.append(fr)
        s.frame = fr
        s.env = [{}]
        s.loops = []
        s.depth += 1
        fr.entry = len(s.path)
        fr.cells = s.ncell
        try:
            body = fn.item["b"]
            ai = 0
            for p, a in zip(sig["in"], args):
                if p.get("self"):
                    s.env[-1]["self"] = s.newcell(a)
                else:
                    ty = s.crate.ty(p["t"], ctx)
                    if a.op == "sym" and X._types.get(a) is None:
                        X._types[a] = ty
                    s.adopt(a, ty)
                    c, binds = s.match(p["p"], a, None, ty)
                    for n, v in binds:
                        s.bind(n, v)
                    s.declare(p["p"], ty)
            s.const_generics(sig, args)
            val = None
            try:
                val = s.block(body, fr.ret)
                fr.returns.append((And(*s.path[fr.entry:]), val, s.store, list(s.path), list(s.assumed), list(s.reach)))
            except Diverge:
                pass
            return s.finish(fr)
        finally:
            s.depth -= 1
            s.frames.pop()
            s.frame, s.env, s.loops = saved

    def const_generics(s, sig, args):
        """a const parameter is the length of the arrays it is the size of"""
        def find_(t, n, v):
            k = t.get("k")
            if k == "tref":
                return find_(t["t"], n, v)
            if k in ("tarray", "tslice"):
                if k == "tarray" and t["n"].get("k") == "path" and [x["n"] for x in t["n"]["p"]] == [n]:
                    return length(v)
                return find_(t["t"], n, idx(v, ZERO))
            if k == "path" and t["p"][-1]["n"] == "Vec" and t["p"][-1].get("g"):
                return find_(t["p"][-1]["g"][0], n, idx(v, ZERO))
            return None
        for g in sig.get("g") or []:
            if not g.get("const"):
                continue
            for p, a in zip(sig["in"], args):
                if p.get("self"):
                    continue
                try:
                    r = find_(p["t"], g["n"], s.deref(a))
                except Exception:
                    r = None
                if r is not None:
                    s.bind(g["n"], r)
                    break

    def finish(s, fr):
        rs = fr.returns
        if not rs:
            raise Diverge()
        if len(s.frames) == 1:
            s.last_store = rs[-1][2]
        return s.merge_exits(rs, fr.entry, fr.cells)

    def transcripts(s):
        """transcripts alive on the last way out of the analysed function"""
        out = []
        for c in sorted(s.last_store):
            v = s.last_store[c]
            if isinstance(v, T) and v.op == "tr" and v not in out:
                out.append(s.freeze(v))
        return out

    def merge_exits(s, rs, entry, cells=None):
        """join the ways out of a body; rs in program order"""
        if len(rs) == 1:
            c, v, st, pa, asm, s.reach = rs[0]
            s.store, s.assumed = st, asm
            s.path = pa[:entry]
            if c is not TRUE:
                s.assumed = s.assumed + [c]
            return v
        ps = [tuple(r[3][entry:]) for r in rs]
        vals = [r[1] for r in rs]
        live = any(v is not None and s.has_py(v) for v in vals)
        val = s.tree(list(zip(ps, vals)))
        ks = {}
        for r in rs:
            for k, x in r[2].items():
                ks.setdefault(k, x)
        st = dict(rs[-1][2])
        for k in ks:
            xs = [r[2].get(k) for r in rs]
            if all(x is xs[0] for x in xs):
                st[k] = xs[0]
                continue
            if cells is not None and k > cells and not live:
                st[k] = next(x for x in reversed(xs) if x is not None)
                continue
            st[k] = s.tree([(p, x) for p, x in zip(ps, xs) if x is not None])
        s.store = st
        s.path = rs[-1][3][:entry]
        com = None
        for r in rs:
            z = set(r[4])
            com = z if com is None else com & z
        s.assumed = [f for f in rs[0][4] if f in com]
        n = 0
        while all(len(r[5]) > n and r[5][n] is rs[0][5][n] for r in rs):
            n += 1
        s.reach = list(rs[0][5][:n])
        if cells is None and any(len(r[5]) > n for r in rs):
            s.reach.append(Or(*[And(*(r[3][entry:] + r[5][n:])) for r in rs]))
        return val

    def tree(s, xs):
        """xs: [(conditions on the way, value)], the first alternative that applies is taken"""
        p, v = xs[0]
        if all(y is v for _, y in xs):
            return v
        if not p:
            return v
        c = p[0]
        n = negate(c)
        if all(q and (q[0] is c or q[0] is n) for q, _ in xs):
            a = [(q[1:], y) for q, y in xs if q[0] is c]
            b = [(q[1:], y) for q, y in xs if q[0] is not c]
            if not b:
                return s.tree(a)
            x, y = s.tree(a), s.tree(b)
        else:
            # leave the common part of the first alternatives to a sub-tree
            k = 1
            while k < len(xs) and xs[k][0] and (xs[k][0][0] is c):
                k += 1
            if k > 1 and k < len(xs) and s.covers([q[1:] for q, _ in xs[:k]]):
                x, y = s.tree([(q[1:], z) for q, z in xs[:k]]), s.tree(xs[k:])
            elif len(xs) == 1:
                return v
            else:
                c = And(*p)
                x, y = v, s.tree(xs[1:])
        if x is None or y is None:
            return x if y is None else y
        return s.join(c, x, y)

    def covers(s, ps):
        """the conditions are exhaustive"""
        if any(not p for p in ps):
            return True
        if not ps:
            return False
        c = ps[0][0]
        n = negate(c)
        if not all(p[0] is c or p[0] is n for p in ps):
            return False
        return s.covers([p[1:] for p in ps if p[0] is c]) and s.covers([p[1:] for p in ps if p[0] is n])

    def call_value(s, v, args, hint=None, node=None):
        return s.apply(v, args, hint, node)

    def apply(s, v, args, hint=None, node=None):
        v = s.deref(v)
        u = un(v)
        if isinstance(u, FnV):
            return u.f(s, args, hint)
        if isinstance(u, Clo):
            saved = (s.env, s.frame, s.loops)
            s.env = list(u.env) + [{}]
            fr = Frame_(u.frame.fn, u.frame.ctx, None)
            fr.entry = len(s.path)
            fr.cells = s.ncell
            fr.ret = None
            s.frame = fr
            s.frames.append(fr)
            s.loops = []
            s.depth += 1
            if s.depth > 80:
                s.depth -= 1
                s.frames.pop()
                s.env, s.frame, s.loops = saved
                raise TooDeep()
            try:
                for p, a in zip(u.params, args):
                    c, binds = s.match(p, a, None, None)
                    for n, b in binds:
                        s.bind(n, b)
                try:
                    val = s.eval(u.body, hint)
                    fr.returns.append((And(*s.path[fr.entry:]), val, s.store, list(s.path), list(s.assumed), list(s.reach)))
                except Diverge:
                    pass
                return s.finish(fr)
            finally:
                s.depth -= 1
                s.frames.pop()
                s.env, s.frame, s.loops = saved
        if v.op in ("unsup",):
            return v
        return s.opaque("apply", [v] + list(args))

    def opaque(s, name, args, ty=None):
        """uninterpreted pure function"""
        if ty is None or ty == ("unk",):
            ty = API.get(name, ty)
        if ty is not None:
            calltype(name, ty)
        a = [s.freeze(x) for x in args]
        s.mark(name)
        return mk("call", name, *a)

    def effect(s, name, args, ty=None):
        a = [s.freeze(x) for x in args]
        s.effects.append((name, a, tuple(s.path) + tuple(s.reach)))
        r = mk("call", name, *a)
        if ty is not None:
            calltype(name, ty)
            X._types[r] = ty
        return r

    def mark(s, name):
        """the analysed code calls something that has no model"""
        f = s.frame
        fn = f.fn if f else None
        if fn is not None and fn.file != "spec" and fn.mod.path[:1] != ["spec"]:
            FOREIGN.setdefault(name, set()).add(fn.qual)

    def freeze(s, v):
        """replace python values by terms as far as possible"""
        v = s.deref(v)
        if v.op == "py":
            u = un(v)
            if isinstance(u, It):
                r = s.std.collect(u)
                return r
            if isinstance(u, (Clo, FnV)):
                return s.freeze_fn(v)
            return mk("call", "py", STR(type(u).__name__))
        if v.op == "tuple" and s.has_py(v):
            return mk("tuple", *[s.std.stored(x) if isinstance(un(s.deref(x)), It) else s.freeze(x) for x in v.args])
        return v

    def freeze_fn(s, v, arity=1, ty=None):
        ty = None if ty == UNK else ty
        a = [fresh("a", ty) for _ in range(arity)]
        u = un(v)
        if isinstance(u, Clo):
            a = [fresh("a", ty) for _ in u.params]
        snap = s.snapshot()
        no, nn = len(s.obls), len(s.notes)
        try:
            r = s.freeze(s.apply(v, a))
        except Diverge:
            r = mk("bot")
        s.restore(snap)
        for x in reversed(a):
            r = lam(x, r)
        return r

    # ------------------------------------------------------------ blocks and statements
    def block(s, b, hint=None):
        if b["k"] != "block":
            return s.eval(b, hint)
        s.env = s.env + [{}]
        val = UNIT
        try:
            st = b["s"]
            for it in st:
                if it["k"] == "item" and s.crate.on(it["i"].get("at")):
                    s.local_item(it["i"])
            for i, it in enumerate(st):
                k = it["k"]
                s.steps += 1
                if s.steps > s.budget:
                    raise TooDeep()
                if k == "item":
                    continue
                if not s.crate.on(it.get("at")):
                    continue
                if k == "let":
                    s.let(it)
                    val = UNIT
                elif k == "expr":
                    if not s.crate.on(it["e"].get("at")):
                        continue
                    last = i == len(st) - 1 and not it["semi"]
                    v = s.eval(it["e"], hint if last else None)
                    val = v if last else UNIT
            return val
        finally:
            s.env = s.env[:-1]

    def static_int(s, e):
        """the integer type the text gives an expression whose value carries none"""
        k = e.get("k") if e else None
        if k in ("paren", "ref") or (k == "un" and e.get("op") in ("*", "-", "!")):
            return s.static_int(e.get("e"))
        if k == "cast":
            t = s.ty(e["t"])
            return t if t[0] == "int" and t[1] else None
        if k == "int":
            return ("int", e["suf"]) if e.get("suf") else None
        if k == "bin" and e.get("op") in ("+", "-", "*", "/", "%", "&", "|", "^"):
            return s.static_int(e.get("l")) or s.static_int(e.get("r"))
        if k == "if":
            return s.static_int(e["t"]) or s.static_int(e.get("e"))
        if k == "match":
            for a in e["arms"]:
                r = s.static_int(a["b"]) if a["b"].get("k") in ("int", "cast", "block", "if", "match", "paren", "call", "mcall") else None
                if r:
                    return r
            return None
        if k == "block":
            st = e.get("s") or []
            if st and st[-1].get("k") == "expr" and not st[-1].get("semi"):
                t = st[-1]["e"]
                if len(st) == 1 or t.get("k") in ("int", "cast"):
                    return s.static_int(t)
            return None
        if k in ("mcall", "call"):
            return s.static_call_int(e)
        if k == "field":
            b = e
            while b.get("k") == "field":
                b = b["e"]
            if b.get("k") == "path" and len(b["p"]) == 1 and s.lookup(b["p"][0]["n"]) is not None:
                try:
                    t = s.typeof(s.deref(s.read(s.place(e))))
                    if t == ("int", None):
                        t = s.crate.field_ty(s.typeof(s.deref(s.read(s.place(e["e"])))), e["n"])
                except Exception:
                    return None
                return t if t[0] == "int" and t[1] else None
            return None
        if k == "path" and not e.get("qself"):
            if len(e["p"]) == 1:
                c = s.lookup(e["p"][0]["n"])
                if c is not None:
                    return s.cellty.get(c)
            names = [x["n"] for x in e["p"]]
            try:
                r = s.crate.resolve(s.ctx.mod, names)
                if r[0] in ("const", "static"):
                    t = s.crate.ty(r[1]["t"], Ctx(r[2], {}, None))
                    return t if t[0] == "int" and t[1] else None
            except Exception:
                pass
        return None

    def static_call_int(s, e):
        if e["k"] == "mcall":
            name = e["m"]
            if name in ("len", "count", "capacity"):
                return USIZE
            if name in ("count_ones", "count_zeros", "leading_zeros", "trailing_zeros", "leading_ones", "trailing_ones", "ilog2", "ilog10"):
                return ("int", "u32")
            if name in ("min", "max", "pow", "clamp", "clone", "to_owned", "abs", "next_power_of_two", "swap_bytes", "reverse_bits") or \
                    name.startswith(("wrapping_", "saturating_", "rotate_")):
                return s.static_int(e.get("r"))
            cands = [f for f in s.crate.fns if f.name == name and f.impl is not None]
        else:
            if e["f"].get("k") != "path":
                return None
            p = [x["n"] for x in e["f"]["p"]]
            name = p[-1]
            if len(p) >= 2 and p[-2] in WIDTH:
                return ("int", p[-2]) if name.startswith("from") else None
            cands = [f for f in s.crate.fns if f.name == name]
        ts = set()
        for f in cands:
            o = f.sig["out"]
            ts.add(s.crate.ty(o, Ctx(f.mod, {}, None)) if o is not None else ("tuple", ()))
        if len(ts) == 1:
            t = ts.pop()
            return t if t[0] == "int" and t[1] else None
        return None

    def adopt(s, v, ty):
        """a value no model gives a type takes the one it is declared with"""
        while ty and ty[0] == "ref":
            ty = ty[1]
        if not ty or ty[0] not in ("int", "felt", "seq", "map", "adt") or ty == ("int", None):
            return
        try:
            v = s.deref(v)
        except Exception:
            return
        if v.op in ("call", "field", "payload", "idx") and s.typeof(v) == UNK:
            X._types[v] = ty

    def declare(s, p, ty):
        while p["k"] in ("ptype", "pref"):
            p = p["p"]
        while ty and ty[0] in ("ref",):
            ty = ty[1]
        if p["k"] == "pid" and ty and ty[0] == "int" and ty[1] and p["n"] in s.env[-1]:
            s.cellty[s.env[-1][p["n"]]] = ty

    def local_item(s, it):
        if it["k"] in ("const", "static"):
            s.env[-1][it["n"]] = s.newcell(s.eval(it["e"], s.ty(it["t"])))
            s.declare({"k": "pid", "n": it["n"]}, s.ty(it["t"]))
        elif it["k"] == "fn":
            from .front import Fn
            f = Fn(it["sig"]["n"], it, s.frame.ctx.mod)
            s.env[-1][f.name] = s.newcell(py(FnV(f.name, lambda ip, args, hint, f=f: ip.run_fn(f, args), f)))
        elif it["k"] == "use":
            m = s.frame.ctx.mod
            for u in it["u"]:
                p = u["path"]
                if p and p[-1] != "*":
                    m.uses.setdefault(u["as"], p)

    def let(s, it):
        p = it["p"]
        hint = None
        if p["k"] == "ptype":
            hint = s.ty(p["t"])
        if it["e"] is None:
            for n in pat_names(p):
                s.bind(n, mk("undef"))
            return
        if it.get("else"):
            v = s.eval(it["e"], hint)
            c, binds = s.match(p, v, s.scrut_place(it["e"], v), hint)
            fr_env = s.env[-1]

            def ok():
                for n, b in binds:
                    fr_env[n] = s.newcell(b)
                return UNIT

            def no():
                s.eval(it["else"])
                raise Diverge()
            # bind outside of the branch so that the names survive
            cc = s.simp(c)
            if cc is TRUE:
                ok()
                return
            s.branch(negate(cc), no, lambda: UNIT)
            for n, b in binds:
                fr_env[n] = s.newcell(b)
            return
        v = s.eval(it["e"], hint)
        if hint is not None and v.op == "sym" and X._types.get(v) is None:
            X._types[v] = hint
        c, binds = s.match(p, v, None, hint)
        for n, b in binds:
            s.bind(n, b)
        if hint:
            s.adopt(v, hint)
        s.declare(p, hint or s.static_int(it["e"]))

    def scrut_place(s, e, v):
        if is_ref(v):
            return un(v)
        if e["k"] in ("path", "field", "index", "un"):
            try:
                return s.place(e)
            except Diverge:
                return None
        return None

    # ------------------------------------------------------------ patterns
    def match(s, p, v, place=None, ty=None):
        """(condition, [(name, value)])"""
        k = p["k"]
        if k == "pid":
            n = p["n"]
            if p.get("sub"):
                c, b = s.match(p["sub"], v, place, ty)
                return c, [(n, v)] + b
            # a constant or unit variant?
            if n[:1].isupper() and not p.get("mut") and not p.get("ref"):
                r = s.crate.resolve(s.ctx.mod, [n])
                if n == "None":
                    return isv(s.deref(v), "None"), []
                if r[0] in ("const", "static"):
                    return eq(s.deref(v), s.eval({"k": "path", "p": [{"n": n}]})), []
                if r[0] == "in" and r[1][0] == "enum":
                    return isv(s.deref(v), n), []
            if p.get("ref") and p.get("mut") and place is not None:
                return TRUE, [(n, py(place))]
            return TRUE, [(n, v)]
        if k == "pwild" or k == "prest":
            return TRUE, []
        if k == "ptype":
            return s.match(p["p"], v, place, s.ty(p["t"]))
        if k == "pref":
            return s.match(p["p"], s.deref(v), None, ty)
        if is_ref(v):
            place = un(v)
            byref = True
        else:
            byref = place is not None and False
        dv = s.deref(v)

        def subv(el):
            if is_ref(v):
                r = s.norm_ref(place).sub(el)
                x = s.read(r)
                if is_ref(x):
                    return x
                return py(r)
            return s.proj(dv, el)

        if k == "ptuple":
            cs, bs = [], []
            a = p["a"]
            n = len(a)
            items = list(enumerate(a))
            ty_ = s.typeof(dv)
            tot = len(dv.args) if dv.op == "tuple" else (len(ty_[1]) if ty_[0] == "tuple" else n)
            for i, q in items:
                if q["k"] == "prest":
                    for j in range(i + 1, n):
                        c, b = s.match(a[j], subv(("f", str(tot - (n - j)))))
                        cs.append(c)
                        bs += b
                    break
                c, b = s.match(q, subv(("f", str(i))))
                cs.append(c)
                bs += b
            return And(*cs), bs
        if k == "pts":
            names = [x["n"] for x in p["path"]["p"]]
            n = names[-1]
            if n in ("Some", "Ok", "Err") or s.is_variant(names):
                cs, bs = [isv(dv, n)], []
                if cs[0] is FALSE:
                    # still bind names
                    return FALSE, [(x, mk("undef")) for q in p["a"] for x in pat_names(q)]
                for i, q in enumerate(p["a"]):
                    c, b = s.match(q, subv(("v", n, i)))
                    cs.append(c)
                    bs += b
                return And(*cs), bs
            cs, bs = [], []
            for i, q in enumerate(p["a"]):
                c, b = s.match(q, subv(("f", str(i))))
                cs.append(c)
                bs += b
            return And(*cs), bs
        if k == "pstruct":
            names = [x["n"] for x in p["path"]["p"]]
            cs, bs = [], []
            if s.is_variant(names):
                cs.append(isv(dv, names[-1]))
                fields = s.variant_fields(names)
                for f in p["f"]:
                    i = fields.index(f["n"]) if f["n"] in fields else 0
                    c, b = s.match(f["p"], subv(("v", names[-1], i)))
                    cs.append(c)
                    bs += b
                return And(*cs), bs
            for f in p["f"]:
                c, b = s.match(f["p"], subv(("f", f["n"])))
                cs.append(c)
                bs += b
            return And(*cs), bs
        if k == "ppath":
            names = [x["n"] for x in p["path"]["p"]]
            if names[-1] == "None" or s.is_variant(names):
                return isv(dv, names[-1]), []
            return eq(dv, s.eval({"k": "path", "p": p["path"]["p"], "ln": None})), []
        if k == "plit":
            return eq(dv, s.eval(p["e"])), []
        if k == "prange":
            cs = []
            if p["lo"]:
                cs.append(le(s.eval(p["lo"]), dv))
            if p["hi"]:
                h = s.eval(p["hi"])
                cs.append(le(dv, h) if p["incl"] else lt(dv, h))
            return And(*cs), []
        if k == "por":
            cs = []
            names = None
            alts = []
            for q in p["a"]:
                c, b = s.match(q, v, place, ty)
                alts.append((c, dict(b)))
                cs.append(c)
            out = []
            for n in alts[0][1]:
                val = alts[-1][1].get(n, mk("undef"))
                for c, b in reversed(alts[:-1]):
                    val = s.join(c, b.get(n, mk("undef")), val)
                out.append((n, val))
            return Or(*cs), out
        if k == "pslice":
            a = p["a"]
            n = length(dv)
            rest = [i for i, q in enumerate(a) if q["k"] == "prest" or (q["k"] == "pid" and q.get("sub") and q["sub"]["k"] == "prest")]
            cs, bs = [], []
            if rest:
                j = rest[0]
                after = len(a) - j - 1
                cs.append(le(INT(len(a) - 1), n))
                for i in range(j):
                    c, b = s.match(a[i], subv(("i", INT(i))))
                    cs.append(c)
                    bs += b
                if a[j]["k"] == "pid":
                    bs.append((a[j]["n"], slc(dv, INT(j), sub(n, INT(after)))))
                for i in range(after):
                    c, b = s.match(a[j + 1 + i], subv(("i", sub(n, INT(after - i)))))
                    cs.append(c)
                    bs += b
            else:
                cs.append(eq(n, INT(len(a))))
                for i, q in enumerate(a):
                    c, b = s.match(q, subv(("i", INT(i))))
                    cs.append(c)
                    bs += b
            return And(*cs), bs
        s.note("pattern " + k, p)
        return mk("call", "pattern?", s.freeze(dv)), [(n, mk("undef")) for n in pat_names(p)]

    def is_variant(s, names):
        r = s.crate.resolve(s.ctx.mod, names) if names[0] != "Self" else ("in", ("enum",), [names[-1]])
        if r[0] == "in" and r[1][0] == "enum":
            return True
        if names[0] == "Self" and len(names) == 2:
            return True
        if r[0] == "ext" and len(names) >= 2 and names[-1][:1].isupper() and names[-2][:1].isupper():
            return True
        return False

    def variant_fields(s, names):
        e = s.enum_item(names)
        if e is None:
            return []
        for v in e[0]["v"]:
            if v["n"] == names[-1]:
                return [f["n"] for f in v["f"]]
        return []

    def enum_item(s, names):
        if names[0] == "Self" and s.ctx.selfty and s.ctx.selfty[0] == "adt":
            return s.crate.enums.get(s.ctx.selfty[1])
        r = s.crate.resolve(s.ctx.mod, names)
        if r[0] == "in" and r[1][0] == "enum":
            return (r[1][1], r[1][2])
        return None

    # ------------------------------------------------------------ expressions
    def eval(s, e, hint=None):
        s.steps += 1
        if s.steps > s.budget:
            raise TooDeep()
        k = e["k"]
        f = getattr(s, "e_" + k, None)
        if f is None:
            return s.unsup("expr " + k, e)
        return f(e, hint)

    def rv(s, e, hint=None):
        """evaluate and strip references"""
        return s.deref(s.eval(e, hint))

    def e_int(s, e, hint):
        return INT(int(e["v"]))

    def e_bool(s, e, hint):
        return BOOL(e["v"])

    def e_str(s, e, hint):
        return STR(e["v"])

    def e_char(s, e, hint):
        return STR(e["v"])

    def e_bytestr(s, e, hint):
        return lst([INT(b) for b in e["v"]])

    def e_float(s, e, hint):
        from fractions import Fraction
        try:
            return INT(Fraction(e["v"].replace("_", "").rstrip("f3264")))
        except Exception:
            return s.unsup("float", e)

    def e_path(s, e, hint):
        p = e["p"]
        if len(p) == 1 and not e.get("qself"):
            c = s.lookup(p[0]["n"])
            if c is not None:
                return s.store[c]
        return s.std.path_value(e, hint)

    def e_tuple(s, e, hint):
        hs = hint[1] if hint and hint[0] == "tuple" and len(hint[1]) == len(e["a"]) else [None] * len(e["a"])
        return mk("tuple", *[s.eval(x, h) for x, h in zip(e["a"], hs)])

    def e_array(s, e, hint):
        h = hint[1] if hint and hint[0] == "seq" else None
        return lst([s.deref_keep(s.eval(x, h)) for x in e["a"]])

    def deref_keep(s, v):
        return s.deref(v) if is_ref(v) else v

    def e_repeat(s, e, hint):
        n = s.rv(e["n"])
        v = s.rv(e["e"])
        return arr_f(n, lambda i: v)

    def e_block(s, e, hint):
        if e.get("label"):
            return s.labeled_block(e, hint)
        return s.block(e, hint)

    def labeled_block(s, e, hint):
        ctl = LoopCtl(e["label"], len(s.path))
        s.loops = s.loops + [ctl]
        try:
            try:
                v = s.block(e, hint)
                ctl.breaks.append((And(*s.path[ctl.entry:]), v, s.store, list(s.path), list(s.assumed), list(s.reach)))
            except Diverge:
                pass
        finally:
            s.loops = s.loops[:-1]
        if not ctl.breaks:
            raise Diverge()
        return s.merge_exits(ctl.breaks, ctl.entry)

    def e_field(s, e, hint):
        p = s.place(e)
        v = s.read(p)
        return v

    def e_index(s, e, hint):
        p = s.place(e)
        if p is None:
            return s.unsup("index by iterator", e)
        if p.path and p.path[-1][0] == "m":
            m = s.read(Ref(p.cell, p.path[:-1]))
            o = s.std.map_get(s.deref(m), p.path[-1][1])
            s.oblige(isv(o, "Some"), "map index", e, "key present")
            return payload(o, "Some")
        return s.read(p)

    def e_ref(s, e, hint):
        if e["mut"]:
            p = s.place(e["e"])
            if p is not None:
                return py(s.norm_ref(p))
            v = s.eval(e["e"], hint)
            if is_ref(v) or isinstance(un(v), (It, Clo)):
                return v
            return py(Ref(s.newcell(v)))
        v = s.eval(e["e"], hint)
        return v

    def e_un(s, e, hint):
        op = e["op"]
        if op == "*":
            v = s.eval(e["e"], hint)
            if is_ref(v):
                return s.read(un(v))
            return v
        v = s.rv(e["e"], hint)
        if op == "!":
            if is_bool(v) or s.typeof(v) == TBOOL or v.op in ("ite",):
                return negate(v)
            ty = s.typeof(v)
            if ty[0] == "int" and ty[1]:
                w = WIDTH[ty[1]]
                return sub(INT((1 << w) - 1), v)
            return negate(v)
        if op == "-":
            return neg(v)
        return s.unsup("unary " + op, e)

    def e_bin(s, e, hint):
        op = e["op"]
        if op in ("&&", "||"):
            l = s.rv(e["l"])
            if op == "&&":
                return s.branch(l, lambda: s.rv(e["r"]), lambda: FALSE)
            return s.branch(l, lambda: TRUE, lambda: s.rv(e["r"]))
        if op.endswith("=") and op not in ("==", "<=", ">=", "!="):
            r = s.rv(e["r"])
            p = s.place(e["l"])
            if p is None:
                v = s.eval(e["l"])
                if not is_ref(v):
                    return s.unsup("assignment target", e)
                p = un(v)
            p = s.norm_ref(p)
            cur = s.deref(s.read(p))
            s.write(p, s.binop(op[:-1], cur, r, e))
            return UNIT
        if op in ("==", "!=", "<", ">", "<=", ">="):
            l = s.rv(e["l"])
            r = s.rv(e["r"], s.typeof(l) if s.typeof(l) != UNK else None)
        else:
            l = s.rv(e["l"], hint)
            r = s.rv(e["r"], hint)
        return s.binop(op, l, r, e)

    def binop(s, op, l, r, e=None):
        if l.op == "py" or r.op == "py":
            l, r = s.freeze(l), s.freeze(r)
        if op == "==":
            return eq(l, r)
        if op == "!=":
            return negate(eq(l, r))
        if op in ("<", ">", "<=", ">="):
            if s.typeof(l) == FELT or s.typeof(r) == FELT or l.op in X.NONNUM or r.op in X.NONNUM:
                a, b = (l, r) if op in ("<", "<=") else (r, l)
                if op in ("<", ">"):
                    return mk("bcall", "lt", a, b)
                return negate(mk("bcall", "lt", b, a))
            return {"<": lt, ">": lambda a, b: lt(b, a), "<=": le, ">=": lambda a, b: le(b, a)}[op](l, r)
        if is_bool(l) or is_bool(r):
            if op == "&":
                return And(l, r)
            if op == "|":
                return Or(l, r)
            if op == "^":
                return negate(eq(l, r))
        if op == "&" and (s.typeof(l) == TBOOL or s.typeof(r) == TBOOL):
            return And(s.as_bool(l), s.as_bool(r))
        if op == "|" and (s.typeof(l) == TBOOL or s.typeof(r) == TBOOL):
            return Or(s.as_bool(l), s.as_bool(r))
        if op == "+":
            if l.op == "str" or s.typeof(l) == ("str",):
                return mk("call", "strcat", l, r)
            s.fits(op, l, r, add(l, r), e)
            for x in (l, r):
                # a negative number cast to an unsigned type is meant to wrap
                if not s.overflow and x.op == "wrapcast" and x.args[1][0] == "u":
                    return s.std.tagged(trunc(add(l, r), WIDTH[x.args[1]]), ("int", x.args[1]))
            return add(l, r)
        if op == "-":
            tl, tr = s.typeof(l), s.typeof(r)
            if s.overflow and not (tl in (FELT, ("poly",)) or tr in (FELT, ("poly",)) or s.mixes(l) or s.mixes(r)):
                ul = tl[0] == "int" and (tl[1] is None or tl[1][0] == "u")
                ur = tr[0] == "int" and (tr[1] is None or tr[1][0] == "u")
                if ul and ur and not (tl[1] is None and tr[1] is None):
                    s.oblige(le(r, l), "sub overflow", e, "subtraction does not underflow")
            return sub(l, r)
        if op == "*":
            s.fits(op, l, r, mul(l, r), e)
            return mul(l, r)
        if op == "/":
            if s.is_field(l) or s.is_field(r):
                return mul(l, inv(r))
            s.oblige(negate(eq0(r)), "div", e or {}, "divisor non-zero")
            if s.signed(l) or s.signed(r):
                if ival(r) is None or ival(r) < 0:
                    return s.opaque("signed_div", [l, r], s.typeof(l))
                return ite(le(ZERO, l), idiv(l, r), neg(idiv(neg(l), r)))
            return idiv(l, r)
        if op == "%":
            s.oblige(negate(eq0(r)), "div", e or {}, "divisor non-zero")
            if s.signed(l) or s.signed(r):
                if ival(r) is None or ival(r) < 0:
                    return s.opaque("signed_rem", [l, r], s.typeof(l))
                return ite(le(ZERO, l), imod(l, r), neg(imod(neg(l), r)))
            return imod(l, r)
        if op in ("<<", ">>") and s.overflow:
            ty = s.typeof(l)
            ty = ty if ty[0] == "int" and ty[1] and l.op != "int" else s.static_int((e or {}).get("l")) or ty
            if ty[0] == "int" and ty[1] in WIDTH:
                s.oblige(lt(r, INT(WIDTH[ty[1]])), "shift overflow", e, "the shift stays within the width")
        if op == "<<":
            v = shl(l, r)
            ty = s.typeof(l)
            ty = s.static_int((e or {}).get("l")) or (ty if ty[0] == "int" and WIDTH.get(ty[1], 0) >= 64 else UNK)
            w = WIDTH.get(ty[1]) if ty[0] == "int" and ty[1] and ty[1][0] == "u" else None
            if w and v.op != "int" and l is not ONE and not s.below(l, w, ival(r)):
                return X.trunc(v, w)
            return v
        if op == ">>":
            ty = s.typeof(l)
            return shr(l, r, WIDTH.get(ty[1], 64) if ty[0] == "int" else 256)
        if op == "&":
            ty = s.typeof(l)
            return band(l, r, WIDTH.get(ty[1], 64) if ty[0] == "int" else 256)
        if op == "|":
            return bor(l, r)
        if op == "^":
            return bxor(l, r)
        return s.unsup("operator " + op, e)

    def below(s, t, w, k):
        """t shifted by k fits w bits, by the width of the type its value comes from"""
        if k is None:
            return False
        if t.op == "int":
            return int(t.args[0]) << int(k) < 1 << w
        b = X.bitval(t)
        if b is not None:
            return all(j + k < w for j in b)
        if t.op == "ind":
            return k < w
        ty = s.typeof(t)
        return ty[0] == "int" and bool(ty[1]) and ty[1][0] == "u" and WIDTH[ty[1]] + k <= w

    def alloc(s, n, e):
        """no memory holds more than 2^40 items: the allocator panics or aborts"""
        if s.overflow and ival(n) is None:
            s.oblige(le(n, INT(1 << 40)), "allocation size", e, "the memory asked for is bounded")

    def mixes(s, t):
        """a field element that small integers were put into has terms of the field"""
        if t.op == "ite":
            return any(s.typeof(x) == FELT or s.mixes(x) for x in t.args[1:])
        if t.op != "poly":
            return False
        return any(a.op == "emb" or s.typeof(a) == FELT for m, _ in t.args[0] for a, _ in m)

    def fits(s, op, l, r, v, e):
        """a sum or product of unsigned integers has to fit its type"""
        if not s.overflow or ival(v) is not None or ival(l) == 0 or ival(r) == 0:
            return
        tl, tr = s.typeof(l), s.typeof(r)
        if tl[0] != "int" or tr[0] != "int" or s.mixes(l) or s.mixes(r):
            return
        ws = {t[1] for t, x in ((tl, l), (tr, r)) if t[1] is not None and ival(x) is None}
        if len(ws) == 1:
            w = ws.pop()
            if w[0] == "u":
                s.oblige(lt(v, INT(1 << WIDTH[w])), {"+": "add", "*": "mul"}[op] + " overflow", e, "the result fits its type")

    def signed(s, t):
        ty = s.typeof(t)
        return ty[0] == "int" and bool(ty[1]) and ty[1][0] == "i" and ival(t) is None

    def as_bool(s, t):
        if is_bool(t) or t.op == "ite":
            return t
        return t if t.op in ("sym", "field", "idx", "payload", "call") else t

    def e_assign(s, e, hint):
        if e["l"]["k"] in ("tuple", "path") and (e["l"]["k"] == "tuple" or e["l"]["p"][0]["n"] == "_"):
            v = s.eval(e["r"])
            s.assign_pat(e["l"], v)
            return UNIT
        cur = None
        h = None
        if e["l"]["k"] == "path":
            c = s.lookup(e["l"]["p"][0]["n"])
            if c is not None and s.store[c].op != "undef":
                h = s.typeof(s.store[c])
                h = None if h == UNK else h
        v = s.eval(e["r"], h)
        s.assign_to(e["l"], v)
        return UNIT

    def assign_pat(s, l, v):
        if l["k"] == "tuple":
            for i, x in enumerate(l["a"]):
                s.assign_pat(x, s.getf(v, str(i)))
            return
        if l["k"] == "path" and l["p"][0]["n"] == "_":
            return
        s.assign_to(l, v)

    def assign_to(s, l, v):
        if l["k"] == "path" and len(l["p"]) == 1:
            c = s.lookup(l["p"][0]["n"])
            if c is not None:
                s.store[c] = v      # rebinding the variable (a &mut variable is rebound, not written through)
                return
        p = s.place(l)
        if p is None:
            v2 = s.eval(l)
            if is_ref(v2):
                p = un(v2)
            else:
                s.unsup("assignment target", l)
                return
        if is_ref(v) and not (isinstance(v, Ref)):
            pass
        s.write(p, v)

    def e_if(s, e, hint):
        return s.cond(e["c"], lambda: s.block(e["t"], hint), lambda: s.eval(e["e"], hint) if e["e"] else UNIT)

    def cond(s, c, then, els):
        """evaluate a condition (with let-conditions) and branch"""
        if c["k"] == "letc":
            v = s.eval(c["e"])
            pl = s.scrut_place(c["e"], v)
            cc, binds = s.match(c["p"], v, pl)

            def t():
                s.env = s.env + [{}]
                try:
                    for n, b in binds:
                        s.bind(n, b)
                    return then()
                finally:
                    s.env = s.env[:-1]
            return s.branch(cc, t, els)
        if c["k"] == "bin" and c["op"] == "&&" and has_let(c):
            return s.cond(c["l"], lambda: s.cond(c["r"], then, els), els)
        v = s.rv(c)
        if not is_bool(v) and v.op not in ("ite",) and v.op in ("int", "poly"):
            v = eq0(sub(v, ONE))
        return s.branch(v, then, els)

    def e_letc(s, e, hint):
        v = s.eval(e["e"])
        c, b = s.match(e["p"], v)
        return c

    def e_match(s, e, hint):
        v = s.eval(e["e"])
        arms = [a for a in e["arms"] if s.crate.on(a.get("at"))]
        pl = s.scrut_place(e["e"], v) if is_ref(v) else None

        def go(i):
            if i >= len(arms):
                raise Diverge()
            a = arms[i]
            c, binds = s.match(a["p"], v, pl)
            last = i == len(arms) - 1

            def body():
                s.env = s.env + [{}]
                try:
                    for n, b in binds:
                        s.bind(n, b)
                    if a.get("g"):
                        return s.cond(a["g"], lambda: s.eval(a["b"], hint), lambda: go(i + 1))
                    return s.eval(a["b"], hint)
                finally:
                    s.env = s.env[:-1]
            if last and not a.get("g"):
                s.assume_ok(s.simp(c))
                return body()
            return s.branch(c, body, lambda: go(i + 1))
        return go(0)

    def e_closure(s, e, hint):
        return py(Clo(e["p"], e["b"], list(s.env), s.frame))

    def e_return(s, e, hint):
        fr = s.frame
        v = s.eval(e["e"], fr.ret) if e.get("e") else UNIT
        s.do_return(v)

    def do_return(s, v):
        fr = s.frame
        if is_ref(v):
            pass
        s.record(fr.returns, fr.entry, v)
        raise Diverge()

    def record(s, lst_, entry, v):
        lst_.append((And(*s.path[entry:]), v, s.store, list(s.path), list(s.assumed), list(s.reach)))

    def find_loop(s, label):
        for c in reversed(s.loops):
            if label is None or c.label == label:
                return c
        return None

    def e_break(s, e, hint):
        c = s.find_loop(e.get("label"))
        v = s.eval(e["e"]) if e.get("e") else UNIT
        if c is None:
            raise Diverge()
        s.record(c.breaks, c.entry, v)
        raise Diverge()

    def e_continue(s, e, hint):
        c = s.find_loop(e.get("label"))
        if c is not None:
            s.record(c.conts, c.entry, UNIT)
        raise Diverge()

    def e_try(s, e, hint):
        h = ("adt", "Result", (hint, UNK)) if hint else None
        if hint:
            h = ("wrap", hint)
        v = s.rv(e["e"], h)
        return s.question(v, e)

    def question(s, v, e):
        if v.op in ("unsup",):
            return v
        ty = s.typeof(v)
        if v.op == "enum":
            good = v.args[1] in ("Ok", "Some")
            opt = v.args[0] == "Option"
        else:
            opt = ty[0] == "adt" and ty[1] == "Option"
            good = None
        okv, badv = ("Some", "None") if opt else ("Ok", "Err")
        c = isv(v, okv)

        def bad():
            if opt:
                s.do_return(NONE)
            p = payload(v, "Err")
            s.do_return(Err(s.std.convert_err(p)))
        s.branch(negate(c), bad, lambda: UNIT)
        return payload(v, okv)

    def e_cast(s, e, hint):
        v = s.rv(e["e"])
        t = s.ty(e["t"])
        if t == UNK:
            return v
        return s.std.cast(v, t, e)

    def e_struct(s, e, hint):
        names = [x["n"] for x in e["path"]["p"]]
        fs = {}
        if s.is_variant(names) and s.enum_item(names) is not None:
            en = s.enum_item(names)
            fields = s.variant_fields(names)
            vals = {f["n"]: s.eval(f["e"]) for f in e["f"]}
            nm = "::".join(en[1].path + [en[0]["n"]])
            return enum(nm, names[-1], [s.deref_keep(vals[n]) for n in fields])
        t = s.crate.ty({"k": "path", "p": e["path"]["p"]}, s.ctx)
        name = t[1] if t[0] == "adt" else names[-1]
        for f in e["f"]:
            if not s.crate.on(f.get("at")):
                continue
            h = s.crate.field_ty(("adt", name, ()), f["n"])
            v = s.eval(f["e"], h if h != UNK else None)
            v = s.deref_keep(v) if is_ref(v) and not s.keeps_ref(name, f["n"]) else v
            if isinstance(un(v), It) and h != UNK and h[0] == "seq":
                v = s.std.collect(un(v))
            elif isinstance(un(v), It) and h != UNK and h[0] == "range":
                v = s.std.stored(v)
            fs[f["n"]] = v
        if e.get("rest"):
            b = s.expand(s.rv(e["rest"]))
            if name in s.crate.structs:
                for f in s.crate.structs[name][0]["f"]:
                    fs.setdefault(f["n"], field(b, f["n"]))
            elif b.op == "struct":
                for k_, v_ in b.args[1]:
                    fs.setdefault(k_, v_)
        return struct(name, fs)

    def keeps_ref(s, name, f):
        r = s.crate.structs.get(name)
        if r:
            for x in r[0]["f"]:
                if x["n"] == f:
                    return x["t"]["k"] == "tref" and x["t"]["mut"]
        return False

    def e_range(s, e, hint):
        lo = s.rv(e["lo"]) if e.get("lo") else ZERO
        if e.get("hi"):
            hi = s.rv(e["hi"])
            if e["incl"]:
                hi = add(hi, ONE)
            n = s.std.natsub(hi, lo)
        else:
            n = INF
            hi = None
        it = It(n, lambda i: (TRUE, add(lo, i)))
        it.range = (lo, hi)
        return py(it)

    def e_mac(s, e, hint):
        return s.std.macro(e, hint)

    def e_call(s, e, hint):
        return s.std.call(e, hint)

    def e_mcall(s, e, hint):
        return s.std.mcall(e, hint)

    def e_other(s, e, hint):
        return s.unsup("expr " + e.get("s", "")[:40], e)

    e_litother = e_other

    # ------------------------------------------------------------ loops
    def e_for(s, e, hint):
        v = s.eval(e["e"])
        it = s.std.to_it(v)
        if it is None:
            s.unsup("for over " + (s.deref(v).op), e)
            return UNIT

        def body(i):
            g, x = it.get(i)

            def run():
                s.env = s.env + [{}]
                try:
                    c, binds = s.match(e["p"], x)
                    for n, b in binds:
                        s.bind(n, b)
                    s.block(e["b"])
                finally:
                    s.env = s.env[:-1]
                return UNIT
            if g is TRUE:
                return run()
            return s.branch(g, run, lambda: UNIT)
        s.run_loop(it.n, body, e, e.get("label"))
        return UNIT

    def e_while(s, e, hint):
        def body(i):
            def brk():
                s.record(s.loops[-1].breaks, s.loops[-1].entry, UNIT)
                raise Diverge()
            return s.cond(e["c"], lambda: s.block(e["b"]), brk)
        s.run_loop(INF, body, e, e.get("label"), pre_break=True)
        return UNIT

    def e_loop(s, e, hint):
        def body(i):
            return s.block(e["b"])
        return s.run_loop(INF, body, e, e.get("label"), is_loop=True)

    def run_loop(s, n, body, e=None, label=None, pre_break=False, is_loop=False):
        from . import loops
        return loops.run_loop(s, n, body, e, label, is_loop)

    # ------------------------------------------------------------ transcript
    def is_transcript(s, r):
        v = s.deref(s.read(r))
        return v.op == "tr" or s.typeof(v) == ("transcript",)

    def tr_append(s, r, data):
        t = s.deref(s.read(r))
        if t.op != "tr":
            t = mk("tr", (mk("base", t),))
        s.write(r, mk("tr", t.args[0] + (mk("ev", "app", data),)))

    def tr_challenge(s, r, kind="chal", ty=None, data=()):
        if isinstance(r, T):
            r = un(r)
        t = s.deref(s.read(r))
        if t.op != "tr":
            t = mk("tr", (mk("base", t),))
        s.site += 1
        ch = mk("chal", "c%d" % s.site, *s.loop_idx)
        if ty:
            X._types[ch] = ty
            X.CHAL_TY[ch.args[0]] = ty
        s.write(r, mk("tr", t.args[0] + (mk("ev", kind, ch) if not data else mk("ev", kind, ch, *data),)))
        return ch


def has_let(c):
    if c["k"] == "letc":
        return True
    if c["k"] == "bin" and c["op"] == "&&":
        return has_let(c["l"]) or has_let(c["r"])
    return False


def pat_names(p):
    k = p["k"]
    if k == "pid":
        out = [p["n"]]
        if p.get("sub"):
            out += pat_names(p["sub"])
        return out
    out = []
    for q in p.get("a") or []:
        out += pat_names(q)
    if k == "pstruct":
        for f in p["f"]:
            out += pat_names(f["p"])
    if k in ("pref", "ptype"):
        out += pat_names(p["p"])
    return out
