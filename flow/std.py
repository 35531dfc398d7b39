"""Value-level models of what lies outside the crate: integers, Option/Result, vectors,
iterators, maps, field elements, polynomials, and the external functions the crate calls.
Anything without a model becomes an uninterpreted function of its arguments."""
from .terms import *
from . import terms as X
from .front import UNK, FELT, USIZE, BOOL as TBOOL, WIDTH, Ctx, Fn, generic_names, INTS, ty_text
import re
from .interp import FOREIGN, It, Clo, FnV, Ref, TyV, PyV, py, un, is_ref, Diverge, TooDeep, pat_names, calltype
from .std2 import More, Entry, OPT2, INT2

FBYTES = sym("FELT_BYTES", USIZE)
U8 = ("int", "u8")
POLY = ("poly",)
XVAR = mk("X")
IDENT = {"clone", "to_owned", "as_ref", "as_slice", "as_bytes", "borrow", "to_vec", "into_boxed_slice", "by_ref",
         "as_mut", "as_mut_slice", "iter_ref", "into_vec", "as_str", "to_path_buf", "into_inner", "borrow_mut", "as_deref",
         "into_owned", "copied_ref", "inspect", "into_bytes"}


# ------------------------------------------------------------------ sequence helpers
def seqmap(s, f):
    """pure element-wise map"""
    o = s.op
    if o == "lst":
        return lst([f(x) for x in s.args[0]])
    if o == "arr":
        v = fresh("i", USIZE)
        return arr(s.args[0], lam(v, f(app(s.args[1], v))))
    if o == "flat":
        v = fresh("i", USIZE)
        return flat(s.args[0], lam(v, seqmap(app(s.args[1], v), f)))
    if o == "cat":
        return cat([seqmap(p, f) for p in s.args[0]])
    if o == "ite":
        return ite(s.args[0], seqmap(s.args[1], f), seqmap(s.args[2], f))
    return arr_f(length(s), lambda i: f(idx(s, i)))


def peval(p, x):
    """value of polynomial p (over X) at x"""
    if p is XVAR:
        return x
    o = p.op
    if o == "int":
        return p
    if o == "poly":
        r = {}
        for m, c in p.args[0]:
            q = INT(c)
            for a, e in m:
                q = mul(q, power(peval(a, x), e))
            r = padd_(r, q)
        return from_poly(r)
    if not has_x(p):
        return p
    if o == "sum":
        v, b = open_lam(p.args[1], "i", USIZE)
        return Sum(p.args[0], lam(v, peval(b, x)))
    if o == "prod":
        v, b = open_lam(p.args[1], "i", USIZE)
        return Prod(p.args[0], lam(v, peval(b, x)))
    if o == "ite":
        return ite(p.args[0], peval(p.args[1], x), peval(p.args[2], x))
    return mk("peval", p, x)


def padd_(r, t):
    return X.padd(r, to_poly(t))


def has_x(p):
    """may the term denote a non-constant polynomial?"""
    if p is XVAR:
        return True
    if X.type_hook(p) == POLY:
        return True
    if p.op in ("poly", "sum", "prod", "ite", "lam"):
        return any(has_x(c) for c in children(p))
    return False


X.register("peval", peval)


def npow2(x):
    k = ival(x)
    if k is not None:
        return INT(1 << (max(1, int(k)) - 1).bit_length())
    return mk("call", "next_pow2", x)


def polyc(cs):
    """polynomial with the given coefficient sequence"""
    if cs.op == "lst":
        return add(*[mul(c, power(XVAR, i)) for i, c in enumerate(cs.args[0])]) if cs.args[0] else ZERO
    if cs.op == "arr":
        v = fresh("i", USIZE)
        return Sum(cs.args[0], lam(v, mul(app(cs.args[1], v), power(XVAR, v))))
    if cs.op == "coeffs":
        return cs.args[0]
    return mk("polyc", cs)


def has_break(b):
    """break / continue to an outer loop, or break, inside a loop body"""
    if isinstance(b, dict):
        if b.get("k") in ("break", "continue"):
            return True
        if b.get("k") == "closure":
            return False
        return any(has_break(v) for v in b.values())
    if isinstance(b, list):
        return any(has_break(x) for x in b)
    return False


X._types[mk("X")] = POLY


OPS_TRAITS = {"ByteConversion", "Iterator", "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator", "Extend", "Into", "ToString", "ToOwned",
              "AsRef", "AsMut", "Borrow", "PartialEq", "PartialOrd", "Ord", "Clone", "Itertools", "ParallelIterator",
              "IntoParallelIterator", "IntoParallelRefIterator", "IndexedParallelIterator"}


class Std(More):
    def __init__(s, ip):
        s.ip = ip
        s.crate = ip.crate

    # ================================================================ iterators
    def to_it(s, v):
        if v.op == "py":
            u = un(v)
            if isinstance(u, It):
                return u
            if isinstance(u, Ref):
                d = s.ip.deref(v)
                if isinstance(un(d), It):
                    return un(d)
                if s.seqish(d):
                    r = s.ip.norm_ref(u)
                    it = It(length(d), lambda i: (TRUE, py(r.sub(("i", i)))))
                    return it
                return s.to_it(d)
            return None
        if v.op == "unsup":
            return None
        ty = s.ip.typeof(v)
        if ty[0] == "adt" and ty[1] == "Option":
            it = It(INT(1), lambda i: (isv(v, "Some"), payload(v, "Some")))
            it.guarded = True
            return it
        if ty[0] in ("map", "set") or v.op in ("mapnew", "mapins", "mapfrom", "mapext", "setfrom", "setnew", "setins"):
            v2 = s.entries(v)
            return s.seq_it(v2)
        if v.op == "struct" and v.args[0] == "Range":
            lo, hi = field(v, "start"), field(v, "end")
            it = It(s.natsub(hi, lo), lambda i: (TRUE, add(lo, i)))
            it.range = (lo, hi)
            return it
        if s.seqish(v) or ty[0] in ("seq", "unk", "iter"):
            return s.seq_it(v)
        if ty[0] == "range":
            lo, hi = field(v, "start"), field(v, "end")
            it = It(s.natsub(hi, lo), lambda i: (TRUE, add(lo, i)))
            return it
        return None

    def seqish(s, v):
        return v.op in ("lst", "arr", "cat", "slice", "flat", "upd", "enc", "sorted", "uniq", "entries") or s.ip.typeof(v)[0] == "seq" \
            or (v.op == "ite" and s.seqish(v.args[1]) and s.seqish(v.args[2]))

    def seq_it(s, v):
        it = It(length(v), lambda i: (TRUE, idx(v, i)))
        it.seq = v
        return it

    def entries(s, m):
        ty = s.ip.typeof(m)
        if m.op == "setfrom":
            return mk("entries", m)
        t = mk("entries", m)
        if ty[0] == "map":
            X._types[t] = ("seq", ("tuple", (ty[1], ty[2])), None)
        elif ty[0] == "set":
            X._types[t] = ("seq", ty[1], None)
        return t

    def drive(s, it, f):
        """run f over every element in order (f has effects on the store)"""
        if getattr(it, "chain", None):
            for p in it.chain:
                s.drive(p, f)
            return
        if getattr(it, "nest", None):
            outer, inner = it.nest

            def g(v):
                x = inner(v)
                i2 = s.to_it(x)
                if i2 is None:
                    s.ip.unsup("nested iterator over " + s.ip.deref(x).op)
                    return
                s.drive(i2, f)
            s.drive(outer, g)
            return

        def body(i):
            g, v = it.get(i)
            if g is TRUE:
                f(v)
                return UNIT
            return s.ip.branch(g, lambda: (f(v), UNIT)[1], lambda: UNIT)
        s.ip.run_loop(it.n, body)

    def collect(s, it):
        if it.seq is not None:
            return it.seq
        ip = s.ip
        c = ip.newcell(EMPTY)

        def f(v):
            v = ip.deref(v)
            if isinstance(un(v), It):
                v = s.collect(un(v))
            if v.op == "tuple" and ip.has_py(v):
                v = mk("tuple", *[s.plain(x) for x in v.args])
            ip.store[c] = cat([ip.store[c], lst([v])])
        s.drive(it, f)
        return ip.store[c]

    def plain(s, v):
        v = s.ip.deref(v)
        if isinstance(un(v), It):
            return s.collect(un(v))
        return v

    def stored(s, v):
        """a value put into a container or a field: a range keeps its bounds"""
        v = s.ip.deref(v)
        u = un(v)
        if isinstance(u, It):
            if u.range and u.range[1] is not None:
                return struct("Range", {"start": u.range[0], "end": u.range[1]})
            return s.collect(u)
        return v

    def materialise(s, it):
        """positional view: an It whose elements are addressed by index"""
        if getattr(it, "chain", None) or getattr(it, "nest", None) or getattr(it, "guarded", False):
            return s.seq_it(s.collect(it))
        return it

    def mapped(s, it, f):
        """lazy map"""
        if getattr(it, "chain", None):
            r = It(it.n, None)
            r.chain = [s.mapped(p, f) for p in it.chain]
            return r
        if getattr(it, "nest", None):
            outer, inner = it.nest
            r = It(it.n, None)
            r.nest = (outer, lambda v: py(s.mapped(s.must_it(inner(v)), f)))
            return r

        def get(i):
            g, v = it.get(i)
            return g, f(v)
        r = It(it.n, get)
        r.guarded = getattr(it, "guarded", False)
        return r

    def must_it(s, v):
        it = s.to_it(v)
        if it is None:
            s.ip.unsup("iterate " + s.ip.deref(v).op)
            return It(ZERO, lambda i: (TRUE, mk("undef")))
        return it

    def natsub(s, hi, lo):
        if hi.op == "inf":
            return INF
        if lo is ZERO:
            return hi
        d = sub(hi, lo)
        if X.nonneg(d) or s.ip.implied(add(d, ONE)):
            return d
        if lo.op == "int" and hi.op == "int":
            return ZERO
        return Max(ZERO, d)

    # ================================================================ maps
    def map_get(s, m, k):
        m = s.ip.deref(m)
        k = s.ip.deref(k)
        if m.op == "mapnew":
            return NONE
        if m.op == "mapins":
            b, k2, v = m.args
            e = eq(k, k2)
            if e is TRUE:
                return Some(v)
            if e is FALSE:
                return s.map_get(b, k)
            return ite(e, Some(v), s.map_get(b, k))
        if m.op == "mapfrom" and m.args[0].op == "lst":
            r = NONE
            for p in m.args[0].args[0]:
                e = eq(field(p, "0"), k)
                r = Some(field(p, "1")) if e is TRUE else (r if e is FALSE else ite(e, Some(field(p, "1")), r))
            return r
        if m.op == "ite":
            return ite(m.args[0], s.map_get(m.args[1], k), s.map_get(m.args[2], k))
        t = mk("mapget", m, k)
        ty = s.ip.typeof(m)
        if ty[0] == "map":
            X._types[t] = ("adt", "Option", (ty[2],))
        return t

    # ================================================================ names
    def path_value(s, e, hint):
        ip = s.ip
        p = e["p"]
        names = [x["n"] for x in p]
        if names == ["None"]:
            return NONE
        if len(names) == 1 and names[0] in ("Some", "Ok", "Err"):
            nm = names[0]
            en = "Option" if nm == "Some" else "Result"
            return py(FnV(nm, lambda ip, a, h: enum(en, nm, [ip.deref(a[0])])))
        if len(names) == 2 and names[1] in ("MAX", "MIN", "BITS") and names[0] in WIDTH:
            w = WIDTH[names[0]]
            sg = names[0][0] == "i"
            return INT({"MAX": (1 << (w - sg)) - 1, "MIN": -(1 << (w - 1)) if sg else 0, "BITS": w}[names[1]])
        r = s.resolve(e)
        k = r[0]
        if k in ("const", "static"):
            return s.const(r[1], r[2])
        if k == "fn":
            f = r[1]
            return py(FnV(f.name, lambda ip, a, h: ip.run_fn(f, a, None, None, h), f))
        if k == "struct":
            nm = "::".join(r[2].path + [r[1]["n"]])
            if not r[1]["f"]:
                return struct(nm, {})
            return py(FnV(nm, lambda ip, a, h: struct(nm, {str(i): ip.deref(x) for i, x in enumerate(a)})))
        if k == "in":
            (kk, it, m), rest = r[1], r[2]
            if kk == "enum":
                for v in it["v"]:
                    if v["n"] == rest[0]:
                        nm = "::".join(m.path + [it["n"]])
                        X.ENUMS.setdefault(nm, [w["n"] for w in it["v"]])
                        if v["f"]:
                            return py(FnV(nm, lambda ip, a, h: enum(nm, v["n"], [ip.deref(x) for x in a])))
                        return enum(nm, v["n"])
            t = ip.crate.ty({"k": "path", "p": p[:-1]}, ip.ctx)
            return s.assoc_value(t, names[-1], e, hint)
        if len(names) >= 2 or e.get("qself"):
            t = s.path_type(e)
            return s.assoc_value(t, names[-1], e, hint)
        return mk("call", "const:" + "::".join(names))

    def path_type(s, e):
        if e.get("qself"):
            return s.ip.ty(e["qself"])
        p = e["p"]
        return s.ip.crate.ty({"k": "path", "p": p[:-1]}, s.ip.ctx)

    def resolve(s, e):
        ip = s.ip
        names = [x["n"] for x in e["p"]]
        if e.get("qself"):
            return ("ext", names, None)
        if names[0] == "Self" or names[0] in ip.ctx.generics:
            return ("ext", names, None)
        return ip.crate.resolve(ip.ctx.mod, names)

    def const(s, it, m):
        ip = s.ip
        memo = getattr(s, "_cm", None)
        if memo is None:
            memo = s._cm = {}
        kk = (tuple(m.path), it["n"])
        if kk in memo:
            return memo[kk]
        memo[kk] = mk("call", "const:" + it["n"])
        saved = (ip.frame, ip.env, ip.loops)
        from .interp import Frame_
        ip.frame = Frame_(None, Ctx(m, {}, None), None)
        ip.env = [{}]
        ip.loops = []
        ip.frames.append(ip.frame)
        try:
            v = ip.eval(it["e"], ip.crate.ty(it["t"], ip.frame.ctx))
            v = ip.deref(v)
        except Diverge:
            v = mk("bot")
        finally:
            ip.frames.pop()
            ip.frame, ip.env, ip.loops = saved
        memo[kk] = v
        return v

    def assoc_value(s, t, n, e, hint):
        ip = s.ip
        short = t[1].split("::")[-1] if t[0] == "adt" else None
        if t[0] == "adt":
            for it, m in ip.crate.impls.get(short, []):
                for x in it["i"]:
                    if x["k"] == "const" and x["n"] == n:
                        return s.const(x, m)
            en = ip.crate.enums.get(t[1])
            if en:
                for v in en[0]["v"]:
                    if v["n"] == n:
                        X.ENUMS.setdefault(t[1], [w["n"] for w in en[0]["v"]])
                        if v["f"]:
                            return py(FnV(n, lambda ip, a, h: enum(t[1], n, [ip.deref(x) for x in a])))
                        return enum(t[1], n)
            f = s.find_method(t, n)
            if f is not None:
                return py(FnV(n, lambda ip, a, h: s.invoke(f, a, t, h, e), f))
        if n.isupper() or (n.upper() == n):
            tn = ty_name(t)
            return mk("call", "const:%s::%s" % (tn, n))
        if n[:1].isupper() and t[0] == "adt":
            return enum(t[1], n)
        return py(FnV(n, lambda ip, a, h: s.static_call(t, n, a, h, e)))

    # ---------------------------------------------------------------- methods of in-crate types
    def find_method(s, t, n):
        if t[0] != "adt":
            return None
        short = t[1].split("::")[-1]
        best = None
        for f in s.crate.fns:
            if f.name != n or f.impl is None:
                continue
            if ty_text(f.impl["ty"]) != short:
                continue
            if t[1] in s.crate.structs or t[1] in s.crate.enums:
                own = s.crate.resolve(f.mod, [short])
                if own[0] in ("struct", "enum") and "::".join(own[2].path + [own[1]["n"]]) != t[1]:
                    continue
            if f.impl.get("tr") is None:
                return f
            best = best or f
        if best is not None:
            return best
        # default method of an implemented trait
        for f in s.crate.fns:
            if f.name == n and f.trait is not None:
                for it, m in s.crate.trait_impls.get(f.trait["n"], []):
                    if ty_text(it["ty"]) == short:
                        return f
        return None

    def trait_method(s, n):
        """(trait item, fn item, Mod, Fn or None)"""
        for q, (it, m) in s.crate.traits.items():
            for x in it["i"]:
                if x["k"] == "fn" and x["sig"]["n"] == n:
                    f = None
                    if x.get("b"):
                        for g in s.crate.fns:
                            if g.trait is it and g.name == n:
                                f = g
                    return it, x, m, f
        return None

    def invoke(s, f, args, t, hint, e, g=None):
        ip = s.ip
        gens = dict(g or {})
        selfty = None
        if f.impl is not None:
            for nme, ty in zip(generic_names(f.impl.get("g")), t[2] if t and t[0] == "adt" else ()):
                if ty != UNK:
                    gens.setdefault(nme, ty)
            selfty = None
        if f.trait is not None:
            selfty = t
        # turbofish generics
        if e is not None:
            tf = e.get("g")
            if tf is None and e.get("k") == "call" and e["f"].get("k") == "path":
                tf = e["f"]["p"][-1].get("g")
            if tf:
                for nme, ta in zip(generic_names(f.sig.get("g")), tf):
                    if isinstance(ta, dict) and ta.get("k") in ("path", "ttuple", "tref"):
                        gens[nme] = ip.ty(ta)
        # generics carried over from the caller when they have the same name (A, F, ...)
        if ip.frame is not None:
            for nme in generic_names(f.sig.get("g")) + (generic_names(f.impl.get("g")) if f.impl else []):
                if nme not in gens and nme in ip.ctx.generics:
                    gens[nme] = ip.ctx.generics[nme]
        return ip.run_fn(f, args, gens, selfty, hint, e)

    # ================================================================ calls
    def call(s, e, hint):
        ip = s.ip
        fe = e["f"]
        if fe["k"] == "path":
            p = fe["p"]
            names = [x["n"] for x in p]
            if len(p) == 1 and not fe.get("qself"):
                c = ip.lookup(names[0])
                if c is not None:
                    f = ip.store[c]
                    args = [ip.eval(a) for a in e["a"]]
                    return ip.apply(f, args, hint, e)
                n = names[0]
                if n in ("Some", "Ok", "Err"):
                    h = None
                    if hint and hint[0] == "adt" and hint[1] in ("Option", "Result") and hint[2]:
                        h = hint[2][0] if n != "Err" else None
                    elif hint and hint[0] == "wrap":
                        h = hint[1] if n != "Err" else None
                    v = ip.eval(e["a"][0], h)
                    if not (isinstance(un(v), Ref)):
                        pass
                    v = ip.deref(v) if n == "Err" else v
                    if is_ref(v):
                        v = ip.deref(v)
                    return enum("Option" if n == "Some" else "Result", n, [v])
            r = s.resolve(fe)
            k = r[0]
            if k == "fn":
                f = r[1]
                args = s.eval_args(e["a"], f, None)
                return s.invoke(f, args, None, hint, e)
            if k == "struct":
                nm = "::".join(r[2].path + [r[1]["n"]])
                ft = [s.crate.field_ty(("adt", nm, ()), str(i)) for i in range(len(e["a"]))]
                return struct(nm, {str(i): s.plain_keep(ip.eval(a, ft[i] if ft[i] != UNK else None)) for i, a in enumerate(e["a"])})
            if k == "in" and r[1][0] == "enum":
                it, m = r[1][1], r[1][2]
                for v in it["v"]:
                    if v["n"] == r[2][0]:
                        nm = "::".join(m.path + [it["n"]])
                        X.ENUMS.setdefault(nm, [w["n"] for w in it["v"]])
                        return enum(nm, v["n"], [ip.deref(ip.eval(a)) for a in e["a"]])
            if names[-1] in ("size_of", "swap", "replace", "take", "drop", "identity", "black_box") and not fe.get("qself") \
                    and k != "fn" and (len(names) == 1 or names[-2] in ("mem", "hint")):
                args = [ip.eval(a) for a in e["a"]]
                return s.ext_call("::".join(names), args, hint, fe)
            if len(names) >= 2 or fe.get("qself"):
                t = s.path_type(fe)
                n = names[-1]
                if t[0] == "adt":
                    en = s.crate.enums.get(t[1])
                    if en and any(v["n"] == n for v in en[0]["v"]):
                        return enum(t[1], n, [ip.deref(ip.eval(a)) for a in e["a"]])
                    f = s.find_method(t, n)
                    if f is not None and t[1] in (list(s.crate.structs) + list(s.crate.enums)):
                        args = s.eval_args(e["a"], f, t)
                        return s.invoke(f, args, t, hint, e)
                if t[0] in ("param",) or (t[0] == "adt" and t[1] in s.crate.traits):
                    return s.trait_call(t, n, e, hint)
                if names[-2:-1] in (["cmp"], ["iter"], ["mem"], ["hint"], ["array"], ["process"], ["fs"], ["env"]) and not fe.get("qself"):
                    return s.ext_call("::".join(names), [ip.eval(a) for a in e["a"]], hint, fe)
                hs = s.arg_hints(t, n, hint)
                args = [ip.eval(a, hs[i] if hs and i < len(hs) else None) for i, a in enumerate(e["a"])]
                return s.static_call(t, n, args, hint, fe)
            args = [ip.eval(a) for a in e["a"]]
            full = "::".join(r[1]) if k == "ext" else "::".join(names)
            return s.ext_call(full, args, hint, fe)
        f = ip.eval(fe)
        args = [ip.eval(a) for a in e["a"]]
        return ip.apply(f, args, hint, e)

    def plain_keep(s, v):
        return s.ip.deref(v) if is_ref(v) else v

    def eval_args(s, args, f, t, skip_self=False):
        """evaluate arguments using the parameter types as hints"""
        ip = s.ip
        ctx = Ctx(f.mod, {n: ("param", n) for n in generic_names(f.sig.get("g"))}, t)
        ps = [p for p in f.sig["in"]]
        if skip_self and ps and ps[0].get("self"):
            ps = ps[1:]
        out = []
        for i, a in enumerate(args):
            h = None
            mut = False
            if i < len(ps) and not ps[i].get("self"):
                h = s.crate.ty(ps[i]["t"], ctx)
                mut = ps[i]["t"]["k"] == "tref" and ps[i]["t"]["mut"]
                if h == UNK or h[0] == "param":
                    h = None
            v = ip.eval(a, h)
            if is_ref(v) and not mut and i < len(ps) and not ps[i].get("self") and ps[i]["t"]["k"] in ("tref", "path") \
                    and not (ps[i]["t"]["k"] == "path"):
                v = ip.deref(v)
            if h is not None and h[0] == "seq" and isinstance(un(v), It):
                v = s.collect(un(v))
            out.append(v)
        return out

    def arg_hints(s, t, n, hint):
        if n in ("from_be_bytes", "from_le_bytes", "from_ne_bytes") and t[0] == "int":
            return [("seq", U8, WIDTH[t[1]] // 8)]
        if t == POLY and n == "new":
            return [("seq", FELT, None)]
        if t == FELT and n == "from":
            return [None]
        return None

    def trait_call(s, t, n, e, hint):
        """A::method(...) on a generic parameter"""
        ip = s.ip
        tm = s.trait_method(n)
        args = [ip.eval(a) for a in e["a"]]
        if tm is None:
            return s.static_call(t, n, args, hint, e["f"])
        it, x, m, f = tm
        has_self = x["sig"]["in"] and x["sig"]["in"][0].get("self")
        if has_self:
            return s.trait_method_call(args[0], t, n, args[1:], hint, e)
        conc = ip.generic_impl.get(t[1]) if len(t) > 1 else None
        if conc is not None:
            f2 = s.find_method(conc, n)
            if f2:
                return s.invoke(f2, args, conc, hint, e)
        if f is not None:
            return s.invoke(f, args, t, hint, e)
        ctx = Ctx(m, {}, t)
        return ip.opaque("%s" % n, args, s.crate.ty(x["sig"]["out"], ctx))

    def trait_method_call(s, recv, t, n, args, hint, e):
        ip = s.ip
        h = ip.hooks.get(n)
        it, x, m, f = s.trait_method(n)
        conc = ip.generic_impl.get(t[1]) if len(t) > 1 else None
        if conc is not None:
            f2 = s.find_method(conc, n)
            if f2:
                return s.invoke(f2, [recv] + args, conc, hint, e)
        if h is not None:
            r = h(ip, [recv] + args, f)
            if r is not None:
                return r
        if f is not None:
            return s.invoke(f, [recv] + args, t, hint, e)
        # writes through &mut arguments: transcript -> event; other -> havoc
        ctx = Ctx(m, {}, t)
        out = s.crate.ty(x["sig"]["out"], ctx) if x["sig"]["out"] is not None else ("tuple", ())
        plain = []
        ps = [p for p in x["sig"]["in"] if not p.get("self")]
        trs = []
        for p, a in zip(ps, args):
            if is_ref(a) and p["t"]["k"] == "tref" and p["t"]["mut"]:
                trs.append(un(a))
            else:
                plain.append(ip.freeze(a))
        rv = ip.freeze(recv)
        if trs and ip.is_transcript(trs[0]):
            ch = ip.tr_challenge(trs[0], "trait:" + n, out)
            return ch
        r = ip.opaque(n, [rv] + plain, out)
        for q in trs:
            # output parameter
            v = ip.deref(ip.read(q))
            nv = ip.opaque(n + ".out", [rv] + plain + [v], ip.typeof(v))
            ip.write(q, nv)
        sr = x["sig"]["in"][0]
        if sr.get("mut") and sr.get("ref") and is_ref(recv):
            ip.write(un(recv), ip.opaque(n + ".self", [rv] + plain, ip.typeof(rv)))
        return r

    def is_result(s, t):
        ty = s.ip.typeof(t)
        return ty[0] == "adt" and ty[1] == "Result" or t.op == "enum" and t.args[0] == "Result" or \
            t.op == "ite" and (s.is_result(t.args[1]) or s.is_result(t.args[2]))

    def is_option(s, t):
        ty = s.ip.typeof(t)
        return ty[0] == "adt" and ty[1] == "Option" or t.op == "enum" and t.args[0] == "Option" or \
            t.op == "ite" and (s.is_option(t.args[1]) or s.is_option(t.args[2]))

    def convert_err(s, p):
        ip = s.ip
        ret = ip.frame.ret
        tgt = ret[2][1] if ret and ret[0] == "adt" and ret[1] == "Result" and len(ret[2]) > 1 else None
        if ret and ret[0] == "wrap":
            tgt = None
        src = ip.typeof(p)
        if tgt and tgt[0] == "adt" and src != tgt:
            for it, m in s.crate.trait_impls.get("From", []):
                if ty_text(it["ty"]) == tgt[1].split("::")[-1]:
                    for f in s.crate.fns:
                        if f.impl is it and f.name == "from":
                            pt = s.crate.ty(f.sig["in"][0]["t"], Ctx(m, {}, tgt))
                            if pt == src or (pt[0] == src[0] == "adt" and pt[1] == src[1]):
                                return ip.run_fn(f, [p])
        return p

    # ---------------------------------------------------------------- numeric casts
    def cast(s, v, t, e):
        ip = s.ip
        src = ip.typeof(v)
        if t[0] == "int" and WIDTH.get(t[1], 64) <= 16 and v.op != "enum" and not is_bool(v) and src != TBOOL:
            ip.narrow(v, src, t[1], e)
        if t[0] == "int" and t[1] and t[1][0] == "u" and src == ("int", None) and v.op in ("poly", "ite") and e is not None:
            # a signed value whose term has lost its type
            st = ip.static_int(e.get("e"))
            if st and st[1] and st[1][0] == "i":
                src = st
        if t[0] == "int":
            if is_bool(v) or src == TBOOL:
                return ind(v)
            if v.op == "enum":
                d = s.disc(v)
                return d if d is not None else ip.opaque("disc", [v], t)
            if src[0] == "adt" and src[1] in s.crate.enums:
                return s.disc_opaque(v, src[1])
            if src == ("int", None) and v.op not in ("int", "poly", "dec", "ind", "bit", "len") and t[1][0] == "u" and WIDTH.get(t[1], 64) < 64:
                return trunc(v, WIDTH[t[1]])
            if src[0] == "int" and src[1] and t[1] in WIDTH:
                w1, w2 = WIDTH.get(src[1], 64), WIDTH[t[1]]
                if src[1][0] == "i" or t[1][0] == "i":
                    if src[1][0] == "i" and t[1][0] == "u":
                        return s.tagged(mk("wrapcast", v, t[1]), t) if ival(v) is None else INT(int(ival(v)) % (1 << w2))
                    if t[1][0] == "i" and src[1][0] == "u" and w2 <= w1:
                        return s.tagged(mk("wrapcast", v, t[1]), t) if not (ival(v) is not None and ival(v) < (1 << (w2 - 1))) else v
                    return v
                if w2 < w1:
                    return trunc(v, w2)
            elif v.op in ("poly", "dec") and t[1] in WIDTH and WIDTH[t[1]] < 64:
                b = bitval(v)
                if b is not None and max(b, default=0) < WIDTH[t[1]]:
                    return v
                if v.op == "poly":
                    return trunc(v, WIDTH[t[1]])
            if v.op == "sym" and src == UNK:
                X._types[v] = t
            elif src == UNK and v.op in ("call", "idx", "field", "payload", "mapget", "iter") and t[1] in WIDTH and t[1][0] == "u" and WIDTH[t[1]] < 64:
                return trunc(v, WIDTH[t[1]])
            return v
        return v

    def disc(s, v):
        r = s.crate.enums.get(v.args[0])
        if not r:
            return None
        cur = -1
        for x in r[0]["v"]:
            if x.get("d"):
                k = s.crate.const_int(x["d"], Ctx(r[1], {}, None))
                cur = k if k is not None else cur + 1
            else:
                cur += 1
            if x["n"] == v.args[1]:
                return INT(cur)
        return None

    def disc_opaque(s, v, en):
        r = s.crate.enums[en]
        t = None
        for x in reversed(r[0]["v"]):
            d = s.disc(enum(en, x["n"]))
            t = d if t is None else ite(isv(v, x["n"]), d, t)
        return t

    # ================================================================ static functions
    def static_call(s, t, n, args, hint, e):
        ip = s.ip
        d = lambda i: ip.deref(args[i])
        if n[:1].isupper() and t[0] == "adt" and n.upper() != n and t[1] != "Cow":
            return enum(t[1], n, [s.plain(x) for x in args])
        if t[0] == "int":
            w = WIDTH[t[1]] // 8
            if n in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
                k = ival(length(d(0)))
                if k is not None and k != w:
                    # the array was made by a fallible conversion of a slice of another length
                    ip.oblige(FALSE, "unwrap", e or {}, "%d bytes are converted to an array of %d" % (k, w))
                r = dec("be" if n == "from_be_bytes" else "le", d(0), INT(w), "i" if t[1][0] == "i" else "u")
                if r.op in ("dec", "sym") and r not in X._types:
                    X._types[r] = t
                return r
            if n == "from":
                v = d(0)
                return ind(v) if is_bool(v) or ip.typeof(v) == TBOOL else v
            if n in ("max_value", "min_value"):
                return INT((1 << WIDTH[t[1]]) - 1 if n[1] == "a" else 0)
            if n == "try_from":
                return s.try_int(d(0), t[1])
            if n == "default":
                return ZERO
            if n == "from_str_radix":
                return ip.opaque("from_str_radix", args, ("adt", "Result", (t, UNK)))
            # Type::method(x, ..)
            return s.method(n, args[0], args[1:], hint, e)
        if t == FELT or (t[0] == "adt" and t[1] in ("FieldElement", "FE", "Felt252")):
            r = s.felt_static(n, args, hint)
            if r is not None:
                return r
            if args:
                return s.method(n, args[0], args[1:], hint, e)
        if t == POLY:
            r = s.poly_static(n, args, hint)
            if r is not None:
                return r
            if args:
                return s.method(n, args[0], args[1:], hint, e)
        if t[0] == "seq":
            if n in ("new", "with_capacity", "default"):
                if n == "with_capacity" and args:
                    ip.alloc(d(0), e)
                r = EMPTY
                return r
            if n == "from":
                return s.plain(args[0])
            if args:
                return s.method(n, args[0], args[1:], hint, e)
        if t[0] in ("map", "set") and hint and hint[0] == t[0] and hint[1] != UNK and t[1] == UNK:
            t = hint
        if t[0] == "map":
            if n in ("new", "with_capacity", "default"):
                if n == "with_capacity" and args:
                    ip.alloc(d(0), e)
                return X.mapnew(t)
            if n in ("from", "from_iter"):
                return s.tagged(mk("mapfrom", s.plain(args[0])), t)
        if t[0] == "set":
            if n in ("new", "with_capacity", "default"):
                if n == "with_capacity" and args:
                    ip.alloc(d(0), e)
                return X.mapnew(t)
            if n in ("from", "from_iter"):
                return s.tagged(mk("setfrom", s.plain(args[0])), t)
        if t == ("str",):
            if n == "new":
                return STR("")
            if n == "from":
                return d(0)
        nm = ty_name(t)
        segs = [x["n"] for x in e["p"]] if isinstance(e, dict) and e.get("p") else []
        if n == "new" and len(args) == 1 and len(segs) > 1 and segs[-2] in WRAPPERS:
            return args[0] if isinstance(un(args[0]), (Clo, FnV)) else d(0)
        if n in ("Borrowed", "Owned") and len(args) == 1 and len(segs) > 1 and segs[-2] == "Cow":
            return s.plain(args[0])
        if n == "clone" and len(args) == 1 and len(segs) > 1 and segs[-2] in WRAPPERS:
            return d(0)
        if n == "get_primitive_root_of_unity":
            r = mk("root", d(0))
            X._types[r] = FELT
            return Ok(r)
        if n == "field_bit_size":
            return sym("FIELD_BITS", USIZE)
        if nm == "Keccak256" and n == "digest":
            return ip.opaque("keccak256", args, ("seq", U8, 32))
        if nm.endswith("DefaultTranscript") and n == "new":
            return mk("tr", ())
        if nm in ("Instant",):
            return mk("call", "instant")
        if nm == "File" and n in ("open", "create") and len(args) == 1:
            return ip.effect("File::" + n, args, ("adt", "Result", (("adt", "File", ()), UNK)))
        if nm in ("BufWriter", "BufReader") and n == "new" and ip.typeof(d(0)) == ("adt", "File", ()):
            return d(0)
        if nm in ("UnsignedInteger", "U64", "U128", "U256", "U384"):
            # values below the modulus are what the field representatives are
            if n in ("from_hex", "from_hex_unchecked") and d(0).op == "str":
                try:
                    x = INT(int(d(0).args[0], 16))
                    return x if n.endswith("unchecked") else Ok(x)
                except ValueError:
                    pass
            if n in ("from_u64", "from_u128", "from") and len(args) == 1 and ip.typeof(d(0))[0] == "int":
                return d(0)
        if nm.endswith("MerkleTree") and n in ("build", "new"):
            return ip.opaque("merkle_build", args, ("adt", "MerkleTree", ()))
        if t[0] == "adt" and t[1] in ("Option",) and n in ("Some",):
            return Some(d(0))
        if n == "default" and not args:
            return s.default_of(t)
        if n == "clone" and len(args) == 1:
            return d(0)
        if t[0] == "adt" and args:
            tm = s.trait_method(n)
            if tm and tm[1]["sig"]["in"] and tm[1]["sig"]["in"][0].get("self"):
                return s.method(n, args[0], args[1:], hint, e)
        if n in ("drop",):
            return UNIT
        if n == "from" and len(args) == 1 and t[0] == "adt":
            f = s.find_method(t, "from")
            if f:
                return s.invoke(f, args, t, hint, e)
        if args and t[0] == "adt" and t[1] not in s.crate.structs and t[1] not in s.crate.enums:
            # Trait::method(x, ..) of a trait defined elsewhere
            t0 = ip.typeof(d(0))
            if t0[0] == "adt" and (t0[1] in s.crate.structs or t0[1] in s.crate.enums):
                f = s.find_method(t0, n)
                if f is not None:
                    return s.invoke(f, args, t0, hint, e)
            if nm in OPS_TRAITS:
                return s.method(n, args[0], args[1:], hint, e)
        return ip.opaque("%s::%s" % (nm, n), args, s.static_out(t, n, hint))

    def static_out(s, t, n, hint):
        if n in ("new", "from", "default", "build"):
            return t
        if hint and hint[0] not in ("wrap",):
            return hint
        return UNK

    def tagged(s, v, t):
        X._types[v] = t
        return v

    def default_of(s, t):
        if t[0] == "int":
            return ZERO
        if t == TBOOL:
            return FALSE
        if t[0] == "felt":
            return ZERO
        if t[0] == "seq":
            return EMPTY
        if t[0] in ("map", "set"):
            return X.mapnew(t)
        if t[0] == "str":
            return STR("")
        if t[0] == "adt" and t[1] == "Option":
            return NONE
        if t[0] == "tuple":
            return mk("tuple", *[s.default_of(x) for x in t[1]])
        if t[0] == "adt" and t[1] in s.crate.structs:
            it, m = s.crate.structs[t[1]]
            return struct(t[1], {(f["n"] or str(i)): s.default_of(s.crate.ty(f["t"], Ctx(m, {}, t))) for i, f in enumerate(it["f"])})
        return s.ip.opaque("default:" + ty_name(t), [], t)

    def felt_static(s, n, args, hint):
        ip = s.ip
        d = lambda i: ip.deref(args[i])
        if n == "zero":
            return ZERO
        if n == "one":
            return ONE
        if n in ("from", "new", "from_raw"):
            v = d(0)
            if is_bool(v) or ip.typeof(v) == TBOOL:
                return ind(v)
            if ip.typeof(v) == FELT:
                return v
            if v.op == "ref":
                return v
            return emb(v)
        if n in ("from_hex", "from_hex_unchecked"):
            v = d(0)
            if v.op == "str":
                try:
                    x = INT(int(v.args[0], 16))
                    return x if n == "from_hex_unchecked" else Ok(x)
                except ValueError:
                    pass
            r = ip.opaque("felt_from_hex", [v], FELT)
            return r if n == "from_hex_unchecked" else ip.opaque("felt_from_hex", [v], ("adt", "Result", (FELT, UNK)))
        if n in ("from_bytes_be", "from_bytes_le"):
            v = s.plain(args[0])
            kind = "be" if n.endswith("be") else "le"
            r = s.felt_dec(kind, v)
            return r
        if n == "inplace_batch_inverse":
            if is_ref(args[0]):
                r = un(args[0])
                cur = ip.deref(ip.read(r))
                ip.write(r, seqmap(cur, inv))
                return Ok(UNIT)
        return None

    def felt_dec(s, kind, v):
        """Result<FieldElement, ByteConversionError>: needs at least FELT_BYTES bytes"""
        ip = s.ip
        n = length(v)
        b = v if n is FBYTES else slc(v, ZERO, FBYTES)
        r = dec(kind, b, FBYTES)
        if r.op == "dec":
            X._types[r] = FELT
        if n is FBYTES:
            return Ok(r)
        c = ip.simp(le(FBYTES, n))
        return ite(c, Ok(r), Err(enum("ByteConversionError", "FromBEBytesError" if kind == "be" else "FromLEBytesError")))

    def poly_static(s, n, args, hint):
        ip = s.ip
        d = lambda i: ip.deref(args[i])
        if n == "new":
            return polyc(s.plain(args[0]))
        if n == "zero":
            return ZERO
        if n == "new_monomial":
            return mul(d(0), power(XVAR, d(1)))
        if n in ("interpolate_fft", "interpolate_offset_fft"):
            off = d(1) if len(args) > 1 else ONE
            r = mk("interp", s.plain(args[0]), off)
            X._types[r] = POLY
            return Ok(r)
        if n == "pad_with_zero_coefficients":
            return mk("tuple", d(0), d(1))
        if n == "interpolate":
            r = mk("call", "lagrange", s.plain(args[0]), s.plain(args[1]))
            X._types[r] = POLY
            return Ok(r)
        return None

    def try_int(s, v, name):
        ip = s.ip
        ty = ip.typeof(v)
        w = WIDTH[name]
        if ty[0] == "int" and ty[1] and ty[1][0] == "u" and name[0] == "u" and WIDTH[ty[1]] <= w:
            return Ok(v)
        return ite(And(le(ZERO, v), lt(v, INT(1 << w))), Ok(v), Err(mk("call", "TryFromIntError")))

    # ---------------------------------------------------------------- free external functions
    def ext_call(s, full, args, hint, e):
        ip = s.ip
        last = full.split("::")[-1]
        tail = "::".join(full.split("::")[-2:])
        if tail == "env::args":
            t = mk("call", "env::args")
            X._types[t] = ("seq", ("str",), None)
            return py(s.seq_it(t))
        if tail == "fs::write" and len(args) == 2:
            return ip.effect("fs::write", [args[0], args[1]], ("adt", "Result", (("tuple", ()), UNK)))
        if tail in ("fs::read", "fs::read_to_string") and len(args) == 1:
            return ip.effect(tail, args, ("adt", "Result", (("seq", U8, None) if last == "read" else ("str",), UNK)))
        if last == "get_powers_of_primitive_root_coset" or last == "get_powers_of_primitive_root":
            n, cnt = ip.deref(args[0]), ip.deref(args[1])
            off = ip.deref(args[2]) if last.endswith("coset") else ONE
            w = mk("root", n)
            X._types[w] = FELT
            return Ok(arr_f(cnt, lambda i: mul(off, power(w, i))))
        if last == "compose_fft":
            return ip.opaque(last, args, POLY)
        if last == "repeat":
            v = args[0]
            return py(It(INF, lambda i: (TRUE, v)))
        if last == "once":
            v = args[0]
            return py(It(ONE, lambda i: (TRUE, v)))
        if last == "empty":
            return py(s.seq_it(EMPTY))
        if last == "successors":
            return py(s.successors(ip.deref(args[0]), args[1]))
        if last == "zip":
            return s.method("zip", args[0], [args[1]], hint, e)
        if last == "chain":
            return s.method("chain", args[0], [args[1]], hint, e)
        if full in ("num_integer::div_ceil", "num_integer::div_floor", "num_integer::Integer::div_ceil", "num_integer::Integer::div_floor") \
                and len(args) == 2:
            a, b = ip.deref(args[0]), ip.deref(args[1])
            return idiv(add(a, b, INT(-1)), b) if full.endswith("ceil") else idiv(a, b)
        if last in ("min", "max") and len(args) == 2:
            return (Min if last == "min" else Max)(ip.deref(args[0]), ip.deref(args[1]))
        if last == "swap":
            a, b = un(args[0]), un(args[1])
            x, y = ip.deref(ip.read(a)), ip.deref(ip.read(b))
            ip.write(a, y)
            ip.write(b, x)
            return UNIT
        if last in ("replace", "take") and is_ref(args[0]):
            a = un(args[0])
            x = ip.deref(ip.read(a))
            ip.write(a, ip.deref(args[1]) if last == "replace" else s.default_of(ip.typeof(x)))
            return x
        if last == "size_of":
            t = ip.ty(e["p"][-1]["g"][0]) if e["p"][-1].get("g") else UNK
            if t[0] == "int":
                return INT(WIDTH[t[1]] // 8)
            return mk("call", "size_of", STR(ty_name(t)))
        if last == "drop":
            return UNIT
        if last == "Reverse" and len(args) == 1:
            return mk("struct", "Reverse", (("0", s.plain(args[0])),))
        if last == "repeat_with":
            return py(It(INF, lambda i: (TRUE, ip.apply(args[0], []))))
        if last == "repeat_n":
            v = args[0]
            return py(It(ip.deref(args[1]), lambda i: (TRUE, v)))
        if last in ("identity", "black_box"):
            return args[0]
        if last == "exit":
            ip.prints.append(("exit", ip.deref(args[0]), tuple(ip.path) + tuple(ip.reach), ip.frame.fn.qual, ()))
            raise Diverge()
        if last == "from_fn" and len(args) == 1:
            n = hint[2] if hint and hint[0] == "seq" and isinstance(hint[2], int) else None
            if n is not None:
                return s.collect(It(INT(n), lambda i: (TRUE, ip.apply(args[0], [i]))))
        return ip.opaque(full, args, hint if hint and hint[0] != "wrap" else UNK)

    def successors(s, first, f):
        ip = s.ip
        # x0, f(x0), ...: elements while Some
        c = ip.newcell(payload(first, "Some"))
        v = fresh("x", ip.typeof(payload(first, "Some")))
        nxt = ip.freeze(ip.apply(f, [v]))
        isS = isv(nxt, "Some")
        step = payload(nxt, "Some")
        if isS is TRUE:
            # pure recurrence: closed form through the loop solver
            from . import loops

            def get(i):
                r = loops.iterate(ip, i, payload(first, "Some"), lambda k, h: subst(step, {v: h}))
                return TRUE, r
            return It(INF, get)
        return It(INF, lambda i: (mk("bcall", "succ_some", i), mk("call", "succ", first, lam(v, nxt), i)))

    # ================================================================ methods
    def mcall(s, e, hint):
        ip = s.ip
        m = e["m"]
        rh = None
        if hint is not None:
            if m in ("unwrap", "expect", "unwrap_or_default", "unwrap_or", "unwrap_or_else"):
                rh = ("wrap", hint)
            elif m in ("map_err", "ok_or", "ok_or_else", "ok", "clone", "to_owned", "cloned", "copied", "into_iter"):
                rh = hint
        re_ = e["r"]
        pl = None
        v = None
        st = None
        if re_["k"] in ("path", "field", "index", "un"):
            pl = ip.place(re_)
            if pl is not None and pl.path and pl.path[-1][0] == "i":
                # static element type of the indexed sequence
                bt = ip.typeof(ip.deref(ip.read(Ref(pl.cell, pl.path[:-1]))))
                if bt[0] == "seq":
                    st = bt[1]
            if pl is not None and pl.path and pl.path[-1][0] == "m":
                v = ip.eval(re_, rh)
            elif pl is not None:
                v = ip.read(pl)
            else:
                v = ip.eval(re_, rh)
        else:
            v = ip.eval(re_, rh)
        if is_ref(v):
            pl = ip.norm_ref(un(v))
        dv = ip.deref(v)
        return s.dispatch(m, v, dv, pl, e, hint, None, st)

    def dispatch(s, m, v, dv, pl, e, hint, args=None, st=None):
        ip = s.ip
        ty = ip.typeof(dv)
        if st is not None and st[0] == "int" and st[1] and (ty == UNK or (ty[0] == "int" and not ty[1])):
            ty = st
        ea = e.get("a") or [] if args is None else None
        recv = py(pl) if pl is not None else dv
        # in-crate type
        if ty[0] == "adt" and (ty[1] in s.crate.structs or ty[1] in s.crate.enums):
            f = s.find_method(ty, m)
            if f is not None:
                a = s.eval_args(ea, f, ty, True) if args is None else args
                sr = f.sig["in"][0] if f.sig["in"] else {}
                r0 = recv if (sr.get("self") and sr.get("mut") and sr.get("ref")) else dv
                return s.invoke(f, [r0] + a, ty, hint, e if args is None else None)
            if m in ("clone", "to_owned", "borrow", "as_ref", "into"):
                if m == "into":
                    return s.m_into(dv, hint)
                return dv
        if dv.op == "tr" or ty == ("transcript",):
            a = [ip.eval(x) for x in ea] if args is None else args
            return s.transcript(m, pl, a, hint)
        if ty[0] == "param" or (ty[0] == "adt" and ty[1] in s.crate.traits):
            tm = s.trait_method(m)
            if tm is not None:
                # arguments typed by the trait signature
                a = []
                if args is None:
                    ps = [p for p in tm[1]["sig"]["in"] if not p.get("self")]
                    for i, x in enumerate(ea):
                        a.append(ip.eval(x))
                else:
                    a = args
                return s.trait_method_call(recv if pl is not None else dv, ty, m, a, hint, e)
        a = s.eval_margs(m, dv, ty, ea, hint) if args is None else args
        return s.method(m, v, a, hint, e, pl, st)

    def eval_margs(s, m, dv, ty, ea, hint):
        ip = s.ip
        h = None
        if m in ("unwrap_or", "push", "insert", "resize", "extend_from_slice", "contains", "fill"):
            if ty[0] == "seq":
                h = ty[1]
        if m == "unwrap_or":
            h = hint
        return [ip.eval(x, h if h != UNK else None) for x in ea]

    def transcript(s, m, pl, a, hint):
        ip = s.ip
        if m == "append":
            ip.tr_append(pl, s.plain(a[0]))
            return UNIT
        if m == "challenge":
            return ip.tr_challenge(pl, "chal", ("seq", U8, 32))
        if m == "clone":
            return ip.deref(ip.read(pl))
        return ip.opaque("transcript." + m, [ip.read(pl)] + a)

    def method(s, m, v, a, hint, e=None, pl=None, st=None):
        ip = s.ip
        if pl is None and is_ref(v):
            pl = ip.norm_ref(un(v))
        dv = ip.deref(v)
        u = un(dv)
        ty = ip.typeof(dv)
        if st is not None and st[0] == "int" and st[1] and (ty == UNK or (ty[0] == "int" and not ty[1])):
            ty = st
        if dv.op == "unsup" and m not in IDENT:
            return ip.opaque("m:" + m, [dv] + a)
        if isinstance(u, It):
            f = getattr(s, "i_" + m, None)
            if f is not None:
                return f(u, a, hint, e, pl)
            if m in IDENT or m in ("iter", "into_iter", "iter_mut", "cloned", "copied", "peekable", "par_iter", "into_par_iter", "fuse"):
                return dv
            dv = s.collect(u)
            ty = ip.typeof(dv)
        if isinstance(u, (Clo, FnV)):
            return dv
        if ty == ("adt", "File", ()):
            f = dv.args[0].args[1] if dv.op == "payload" and dv.args[0].op == "call" and len(dv.args[0].args) == 2 else dv
            if m in ("write_all", "write") and len(a) == 1:
                return ip.effect("File::write_all", [f, a[0]], ("adt", "Result", (("tuple", ()), UNK)))
            if m == "read_to_end" and len(a) == 1 and is_ref(a[0]):
                r = ip.effect("fs::read", [f], ("adt", "Result", (("seq", U8, None), UNK)))
                b = un(a[0])
                ip.write(b, ite(isv(r, "Ok"), cat([ip.deref(ip.read(b)), payload(r, "Ok")]), ip.deref(ip.read(b))))
                return ite(isv(r, "Ok"), Ok(length(payload(r, "Ok"))), Err(payload(r, "Err")))
            if m in ("flush", "sync_all"):
                return Ok(UNIT)
        if ty == ("adt", "Ordering", ()) or dv.op == "enum" and dv.args[0] == "Ordering":
            r = s.ordering(m, dv, a)
            if r is not None:
                return r
        if isinstance(u, Entry):
            return s.entry(u, m, a, dv)
        if m in ("unwrap", "expect", "map_err", "ok_or", "ok", "ok_or_else", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "is_some",
                 "is_none", "is_ok", "is_err", "and_then", "or_else", "err", "is_some_and", "map_or", "map_or_else", "is_ok_and") or \
                (m in ("map", "filter", "take", "cloned", "copied", "as_ref", "as_mut", "as_deref", "as_deref_mut", "zip", "or", "and", "replace", "insert", "flatten", "then_some") and (s.is_option(dv) or s.is_result(dv))) or \
                (m in OPT2 and (s.is_option(dv) or s.is_result(dv))):
            return s.opt(m, dv, a, hint, e, pl)
        if ty[0] in ("map", "set") or dv.op in ("mapnew", "mapins", "mapfrom", "mapext", "setfrom", "setnew", "setins"):
            r = s.mapm(m, dv, a, hint, e, pl)
            if r is not None:
                return r
        if ty == FELT or ty == POLY or (dv.op in ("poly", "int") and m in FELT_M) or \
                m in ("evaluate_fft", "evaluate_offset_fft", "even_odd_decomposition", "ruffini_division_inplace"):
            r = s.felt(m, dv, a, hint, e, pl)
            if r is not None:
                return r
        if ty[0] == "int" or dv.op == "int" or m in INT_M or (m in INT2 and m[:6] != "rotate"):
            r = s.intm(m, dv, a, hint, e, pl, ty)
            if r is not None:
                return r
        if is_bool(dv) or ty == TBOOL:
            if m in ("then", "then_some"):
                return ip.branch(dv, lambda: Some(ip.deref(ip.apply(a[0], [])) if m == "then" else ip.deref(a[0])), lambda: NONE)
            if m == "not":
                return negate(dv)
        if m in ("borrow_mut", "as_mut", "as_mut_slice", "as_mut_ptr", "get_mut", "make_mut", "deref_mut", "make_contiguous") and pl is not None and not a:
            return py(pl)
        if m in IDENT:
            return dv
        if m == "into":
            return s.m_into(dv, hint)
        if m == "try_into":
            return s.m_try_into(dv, hint)
        if m == "hash":
            return UNIT
        if m == "get" and not a:
            return dv  # Cell
        if m == "set" and len(a) == 1 and pl is not None and not (s.seqish(dv) or ty[0] in ("seq", "map", "set", "adt")):
            ip.write(pl, s.plain(a[0]))
            return UNIT
        if m in ("lock", "write", "read") and not a and pl is not None:
            return Ok(py(pl))
        if ty == ("str",) or dv.op == "str":
            return s.strm(m, dv, a, hint, e)
        sf = getattr(s, "s_" + m, None)
        if sf is not None and (s.seqish(dv) or ty in (UNK, ("iter",)) or ty[0] in ("seq",)):
            return sf(dv, a, hint, e, pl)
        itf = getattr(s, "i_" + m, None)
        if itf is not None and (s.seqish(dv) or ty == UNK or ty[0] in ("range", "iter") or (dv.op == "struct" and dv.args[0] == "Range")):
            it = s.to_it(v if is_ref(v) and m not in ("fold",) else dv)
            if it is not None:
                return itf(it, a, hint, e, pl)
        # unknown receiver type: a unique in-crate method of that name
        if ty == UNK or ty[0] == "adt":
            c = [f for f in s.crate.fns if f.name == m and f.impl is not None and f.sig["in"] and f.sig["in"][0].get("self")]
            if len(c) == 1 and ty == UNK:
                f = c[0]
                sr = f.sig["in"][0]
                return s.invoke(f, [py(pl) if pl is not None and sr.get("mut") and sr.get("ref") else dv] + a, None, hint, e)
        if m in ("elapsed", "as_secs", "as_millis", "as_nanos", "as_secs_f64"):
            return mk("call", "duration")
        if m in ("get_proof_by_pos",):
            return ip.opaque("merkle_proof", [dv] + a, ("adt", "Option", (("adt", "Proof", ()),)))
        if m == "verify":
            return mk("bcall", "merkle_verify", *[ip.freeze(x) for x in [dv] + a])
        if m in ("cmp", "partial_cmp"):
            return ip.opaque("cmp", [dv] + a, ("adt", "Ordering", ()))
        if m in ("write_all", "write", "flush"):
            return s.write_all(m, dv, a, pl)
        out = hint if hint and hint[0] not in ("wrap",) else UNK
        if m in ("to_string",):
            out = ("str",)
        if m in ("eq", "ne"):
            c = eq(dv, ip.deref(a[0]))
            return c if m == "eq" else negate(c)
        # &mut arguments are outputs, and so may be the receiver
        res = ip.opaque("m:" + m, [dv] + a, out)
        if pl is not None and (s.seqish(dv) or ty[0] in ("seq", "map", "set")):
            ip.write(pl, ip.opaque("m:" + m + ".recv", [dv] + a, ty))
        for x in a:
            if is_ref(x):
                old = ip.deref(x)
                ip.write(un(x), ip.opaque("m:" + m + ".out", [dv] + a, ip.typeof(old)))
        return res

    def write_all(s, m, dv, a, pl):
        ip = s.ip
        if not a:
            if s.seqish(dv):
                return Ok(UNIT)
            return ip.opaque("flush", [dv], ("adt", "Result", (("tuple", ()), UNK)))
        if s.seqish(dv) and pl is not None:
            ip.write(pl, cat([dv, s.plain(a[0])]))
            return Ok(UNIT)
        if pl is not None:
            ip.write(pl, mk("call", "written", dv, s.plain(a[0])))
        return ip.opaque("write_all", [dv] + a, ("adt", "Result", (("tuple", ()), UNK)))

    # ---------------------------------------------------------------- conversions
    def m_into(s, v, hint):
        ip = s.ip
        ty = ip.typeof(v)
        if v.op == "repr" and hint and hint[0] == "int" and WIDTH.get(hint[1], 64) <= 64 and hint[1][0] == "u":
            return trunc(v, WIDTH.get(hint[1], 64))  # the low limb, cut to the width
        if hint in (FELT,) and ty[0] == "int":
            return emb(v)
        if hint == FELT and (is_bool(v) or ty == TBOOL):
            return ind(v)
        if hint and hint[0] == "int" and (is_bool(v) or ty == TBOOL):
            return ind(v)
        if hint and hint[0] == "adt" and (hint[1] in s.crate.structs or hint[1] in s.crate.enums) and ty != hint:
            f = s.find_method(hint, "from")
            if f:
                return ip.run_fn(f, [v])
        if ty[0] == "adt":
            for it, m in s.crate.trait_impls.get("Into", []):
                if ty_text(it["ty"]) == ty[1].split("::")[-1]:
                    for f in s.crate.fns:
                        if f.impl is it and f.name == "into":
                            return ip.run_fn(f, [v])
        return v

    def m_try_into(s, v, hint):
        ip = s.ip
        h = hint
        if h and h[0] == "wrap":
            h = h[1]
        if h and h[0] == "adt" and h[1] == "Result" and h[2]:
            h = h[2][0]
        if h and h[0] == "seq" and isinstance(h[2], int):
            n = length(v)
            return ite(ip.simp(eq(n, INT(h[2]))), Ok(v), Err(mk("call", "TryFromSliceError")))
        if h and h[0] == "int":
            return s.try_int(v, h[1])
        if h and h[0] == "adt" and (h[1] in s.crate.structs or h[1] in s.crate.enums):
            f = s.find_method(h, "try_from")
            if f:
                return ip.run_fn(f, [v])
        if s.seqish(v):
            # array whose length is inferred from a later use: the slice length itself
            if ival(length(v)) is not None:
                return Ok(v)
            ip.note("try_into without a known target")
            return ip.opaque("try_into", [v], ("adt", "Result", (ip.typeof(v), UNK)))
        return ip.opaque("try_into", [v], ("adt", "Result", (h or UNK, UNK)))

    def strm(s, m, v, a, hint, e):
        if m in ("to_string", "clone", "into", "trim", "as_str", "to_owned"):
            return v
        if m == "len":
            return length(v)
        if m == "push_str":
            return UNIT
        if m in ("contains", "starts_with", "ends_with", "is_empty"):
            return mk("bcall", "str." + m, v, *[s.ip.freeze(x) for x in a])
        return s.ip.opaque("str." + m, [v] + a, ("str",) if m in ("strip_prefix", "trim_start_matches", "replace") else UNK)

    # ---------------------------------------------------------------- Option / Result
    def opt(s, m, v, a, hint, e, pl):
        ip = s.ip
        is_opt = s.is_option(v)
        good = "Some" if is_opt else "Ok"
        if not is_opt and not s.is_result(v) and m in ("ok_or", "ok_or_else", "is_some", "is_none"):
            is_opt, good = True, "Some"
        c = isv(v, good)
        pay = lambda: payload(v, good)
        wrap = Some if is_opt else Ok

        def bad():
            return NONE if is_opt else Err(payload(v, "Err"))
        ap = lambda f, *x: s.plain_keep(ip.apply(f, list(x)))
        if m in ("unwrap", "expect"):
            ip.oblige(c, "unwrap", e or {}, m)
            r = ip.simpv(pay()) if False else pay()
            if hint and hint[0] == "adt" and r.op == "payload" and ip.typeof(r) == UNK:
                X._types[r] = hint
            return r
        if m == "map":
            return ip.branch(c, lambda: wrap(s.frz(ap(a[0], pay()))), bad)
        if m == "map_err":
            return ip.branch(c, lambda: Ok(pay()), lambda: Err(ap(a[0], payload(v, "Err"))))
        if m == "ok_or":
            return ite(c, Ok(pay()), Err(ip.deref(a[0])))
        if m == "ok_or_else":
            return ip.branch(c, lambda: Ok(pay()), lambda: Err(ap(a[0])))
        if m == "ok":
            return ite(c, Some(pay()), NONE)
        if m == "err":
            return ite(c, NONE, Some(payload(v, "Err")))
        if m in ("is_some", "is_ok"):
            return c
        if m in ("is_none", "is_err"):
            return negate(c)
        if m == "unwrap_or":
            return ite(c, pay(), ip.deref(a[0]))
        if m == "unwrap_or_else":
            return ip.branch(c, pay, lambda: ap(a[0], *([] if is_opt else [payload(v, "Err")])))
        if m == "unwrap_or_default":
            t = ip.typeof(pay())
            if t == UNK and hint:
                t = hint
            return ite(c, pay(), s.default_of(t))
        if m == "and_then":
            return ip.branch(c, lambda: ap(a[0], pay()), bad)
        if m == "or_else":
            return ip.branch(c, lambda: wrap(pay()), lambda: ap(a[0], *([] if is_opt else [payload(v, "Err")])))
        if m == "or":
            return ite(c, wrap(pay()), ip.deref(a[0]))
        if m == "and":
            return ite(c, ip.deref(a[0]), bad())
        if m == "filter":
            return ip.branch(c, lambda: ip.branch(ip.deref(ip.apply(a[0], [pay()])), lambda: Some(pay()), lambda: NONE), lambda: NONE)
        if m in ("is_some_and", "is_ok_and"):
            return ip.branch(c, lambda: ap(a[0], pay()), lambda: FALSE)
        if m == "map_or":
            return ip.branch(c, lambda: ap(a[1], pay()), lambda: ip.deref(a[0]))
        if m == "map_or_else":
            return ip.branch(c, lambda: ap(a[1], pay()), lambda: ap(a[0]))
        if m in ("as_mut", "as_deref_mut") and pl is not None and is_opt:
            return ite(ip.simp(c), Some(py(pl.sub(("v", "Some", 0)))), NONE)
        if m in ("cloned", "copied", "as_ref", "as_mut", "as_deref", "as_deref_mut"):
            return v
        if m == "take" and pl is not None:
            ip.write(pl, NONE)
            return v
        if m in ("insert", "replace") and pl is not None:
            ip.write(pl, Some(ip.deref(a[0])))
            return v
        if m == "flatten":
            return ite(c, pay(), NONE)
        if m == "zip":
            w = ip.deref(a[0])
            return ite(And(c, isv(w, "Some")), Some(mk("tuple", pay(), payload(w, "Some"))), NONE)
        r = s.opt2(m, v, a, hint, e, pl, is_opt)
        if r is not None:
            return r
        return ip.opaque("m:" + m, [v] + a)

    def frz(s, v):
        v = s.ip.deref(v)
        return v

    # ---------------------------------------------------------------- maps and sets
    def mapm(s, m, v, a, hint, e, pl):
        ip = s.ip
        d = lambda i: ip.deref(a[i])
        isset = ip.typeof(v)[0] == "set" or v.op.startswith("set")
        if m == "get":
            return s.map_get(v, d(0))
        if m in ("contains_key", "contains"):
            if isset:
                return mk("bcall", "set_has", v, d(0))
            return isv(s.map_get(v, d(0)), "Some")
        if m == "insert":
            if isset:
                if pl is not None:
                    ip.write(pl, mk("setins", v, d(0)))
                return mk("bcall", "set_new", v, d(0))
            old = s.map_get(v, d(0))
            if pl is not None:
                ip.write(pl, mk("mapins", v, d(0), s.stored(a[1])))
            return old
        if m == "len":
            return length(v)
        if m == "is_empty":
            return eq0(length(v))
        if m == "reserve" and a:
            ip.alloc(d(0), e)
            return UNIT
        if m in ("iter", "into_iter"):
            return py(s.seq_it(s.entries(v)))
        if m in ("keys", "into_keys"):
            return py(s.seq_it(seqmap(s.entries(v), lambda x: field(x, "0"))))
        if m in ("values", "into_values"):
            return py(s.seq_it(seqmap(s.entries(v), lambda x: field(x, "1"))))
        if m in IDENT:
            return v
        if m == "extend":
            if pl is not None:
                ip.write(pl, mk("mapext", v, s.plain(a[0])))
            return UNIT
        if m == "remove":
            if pl is not None:
                ip.write(pl, mk("mapdel", v, d(0)))
            return s.map_get(v, d(0))
        if m == "get_mut" and pl is not None and not isset:
            k = d(0)
            return ip.branch(isv(s.map_get(v, k), "Some"), lambda: enum("Option", "Some", [py(pl.sub(("m", k)))]), lambda: NONE)
        if m == "entry" and pl is not None:
            return py(Entry(pl, d(0)))
        if m == "contains" and not isset:
            return None
        return None

    # ---------------------------------------------------------------- field elements and polynomials
    def felt(s, m, v, a, hint, e, pl):
        ip = s.ip
        d = lambda i: ip.deref(a[i])
        if m == "square":
            return mul(v, v)
        if m == "inv":
            return inv(v)
        if m == "pow":
            return power(v, d(0))
        if m == "double":
            return add(v, v)
        if m in ("to_bytes_be", "to_bytes_le", "to_le_bytes", "to_be_bytes"):
            return enc("be" if "be" in m[3:] else "le", FBYTES, v)
        if m in ("representative", "canonical"):
            r = representative(v)
            if r.op == "repr":
                X._types[r] = ("adt", "BaseType", ())
            return r
        if m in ("evaluate",):
            return peval(v, d(0))
        if m in ("coefficients",):
            r = mk("coeffs", v)
            X._types[r] = ("seq", FELT, None)
            return r
        if m == "leading_coefficient":
            return ip.opaque("lead", [v], FELT)
        if m == "degree":
            return ip.opaque("degree", [v], USIZE)
        if m == "even_odd_decomposition":
            ev, od = mk("pevenpart", v), mk("poddpart", v)
            X._types[ev] = X._types[od] = POLY
            return mk("tuple", ev, od)
        if m == "ruffini_division_inplace":
            if pl is not None:
                b = d(0)
                ip.write(pl, mul(sub(v, peval(v, b)), inv(sub(XVAR, b))))
            return UNIT
        if m == "ruffini_division":
            b = d(0)
            return mul(sub(v, peval(v, b)), inv(sub(XVAR, b)))
        if m in ("evaluate_fft", "evaluate_offset_fft"):
            blow, n = d(0), d(1)
            off = d(2) if len(a) > 2 else ONE
            r = s.fft_eval(v, blow, n, off)
            return Ok(r)
        if m in ("evaluate_slice",):
            return seqmap(s.plain(a[0]), lambda x: peval(v, x))
        if m in ("clone", "to_owned", "borrow", "as_ref"):
            return v
        if m == "into":
            return v
        if m in ("add", "mul", "sub", "div"):
            return ip.binop({"add": "+", "mul": "*", "sub": "-", "div": "/"}[m], v, d(0), e)
        if m == "eq":
            return eq(v, d(0))
        if m in ("to_string",):
            return ip.opaque("to_string", [v], ("str",))
        if m == "value":
            return mk("call", "felt_value", v)
        return None

    def fft_eval(s, p, blow, n, off):
        ip = s.ip
        if n.op == "enum":
            base = payload(n, "Some") if n.args[1] == "Some" else npow2(length(mk("coeffs", p)))
        else:
            base = ite(isv(n, "Some"), payload(n, "Some"), npow2(length(mk("coeffs", p))))
        ln = mul(base, blow)
        w = mk("root", mk("call", "log2", ln))
        X._types[w] = FELT
        return arr_f(ln, lambda i: peval(p, mul(off, power(w, i))))

    # ---------------------------------------------------------------- integers
    def intm(s, m, v, a, hint, e, pl, ty):
        ip = s.ip
        d = lambda i: ip.deref(a[i])
        # the text of the receiver knows its width better than a value that went through casts
        st = ip.static_int(e.get("r")) if e is not None else None
        name = st[1] if st else ty[1] if ty[0] == "int" and ty[1] else None
        if name is None and hint and hint[0] == "int" and hint[1] and m[:3] != "to_":
            name = hint[1]
        w = WIDTH.get(name, 64)
        if m in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
            if ty[0] not in ("int", "unk") :
                return None
            n = INT(w // 8) if name else ip.opaque("width of an integer", [v], USIZE)
            return enc("be" if m == "to_be_bytes" else "le", n, v)
        if m == "pow":
            return power(v, d(0))
        if m == "next_power_of_two":
            return npow2(v)
        if m == "is_power_of_two":
            k = ival(v)
            if k is not None:
                return BOOL(k > 0 and (int(k) & (int(k) - 1)) == 0)
            return mk("bcall", "is_pow2", v)
        if m in ("trailing_zeros", "leading_zeros", "count_ones", "leading_ones", "trailing_ones", "ilog2", "count_zeros"):
            r = mk("call", m + ("" if m in ("trailing_zeros", "count_ones", "ilog2") else str(w)), v)
            k = ival(v)
            if m == "ilog2" or m == "trailing_zeros":
                if k and m == "trailing_zeros":
                    return INT((int(k) & -int(k)).bit_length() - 1)
                if k and m == "ilog2":
                    return INT(int(k).bit_length() - 1)
            X._types[r] = ("int", "u32")
            return r
        if m == "checked_sub":
            return ite(le(d(0), v), Some(sub(v, d(0))), NONE)
        if m in ("checked_add", "checked_mul"):
            r = add(v, d(0)) if m == "checked_add" else mul(v, d(0))
            c = lt(r, INT(1 << w))
            return ite(c, Some(r), NONE)
        if m in ("checked_div", "checked_rem"):
            return ite(eq0(d(0)), NONE, Some(idiv(v, d(0)) if m == "checked_div" else imod(v, d(0))))
        if m == "checked_add_signed":
            r = add(v, d(0))
            return ite(And(le(ZERO, r), lt(r, INT(1 << w))), Some(r), NONE)
        if m in ("checked_shl", "checked_shr"):
            k = d(0)
            return ite(lt(k, INT(w)), Some(trunc(shl(v, k), w) if m == "checked_shl" else shr(v, k, w)), NONE)
        if m == "checked_pow":
            r = power(v, d(0))
            return ite(lt(r, INT(1 << w)), Some(r), NONE)
        if m in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
            r = {"a": add, "s": sub, "m": mul}[m[9]](v, d(0))
            return r if ip.implied(add(r, ONE)) and m == "wrapping_sub" else trunc(r, w)
        if m == "saturating_sub":
            return s.natsub(v, d(0)) if ip.implied(add(sub(v, d(0)), ONE)) else Max(ZERO, sub(v, d(0)))
        if m in ("saturating_add",):
            return Min(add(v, d(0)), INT((1 << w) - 1))
        if m == "overflowing_sub":
            c = lt(v, d(0))
            if ival(d(0)) == 1 << (w - 1) and w == 8 and X._is_bitpoly(v):
                top = X._top_bit(v)
                if top is not None:
                    return mk("tuple", add(v, INT(128), mul(INT(-256), top)), c)
            return mk("tuple", ite(c, add(sub(v, d(0)), INT(1 << w)), sub(v, d(0))), c)
        if m == "overflowing_add":
            r = add(v, d(0))
            c = le(INT(1 << w), r)
            return mk("tuple", ite(c, sub(r, INT(1 << w)), r), c)
        if m in ("min", "max") and a:
            return (Min if m == "min" else Max)(v, d(0))
        if m in ("unsigned_abs", "abs"):
            return ite(le(ZERO, v), v, neg(v))
        if m == "abs_diff":
            return ite(le(v, d(0)), sub(d(0), v), sub(v, d(0)))
        if m == "div_ceil":
            return idiv(add(v, d(0), INT(-1)), d(0))
        if m == "rem_euclid":
            return imod(v, d(0))
        if m == "is_multiple_of":
            return eq0(imod(v, d(0)))
        if m in ("clone", "to_owned", "borrow", "into_inner"):
            return v
        if m == "to_string":
            return ip.opaque("to_string", [v], ("str",))
        if m in ("cmp", "partial_cmp"):
            return ip.opaque("cmp", [v] + a, ("adt", "Ordering", ()))
        if m in ("add", "mul", "sub", "div") and a and ty[0] == "int":
            return ip.binop({"add": "+", "mul": "*", "sub": "-", "div": "/"}[m], v, d(0), e or {})
        if m == "eq" and a:
            return eq(v, d(0))
        if m == "clamp":
            return Max(d(0), Min(v, d(1)))
        if m in INT2:
            return s.int2(m, v, a, hint, ty, w)
        return None

    # ================================================================ sequences (mutating / positional)
    def s_len(s, v, a, h, e, pl):
        return length(v)

    def s_is_empty(s, v, a, h, e, pl):
        return eq0(length(v))

    def wr(s, pl, v):
        if pl is None:
            return UNIT
        s.ip.write(pl, v)
        return UNIT

    def s_push(s, v, a, h, e, pl):
        return s.wr(pl, cat([v, lst([s.plain(a[0])])]))

    s_push_back = s_push

    def s_push_front(s, v, a, h, e, pl):
        return s.wr(pl, cat([lst([s.plain(a[0])]), v]))

    def s_pop(s, v, a, h, e, pl):
        n = length(v)
        c = s.ip.simp(lt(ZERO, n))
        last = sub(n, ONE)
        s.wr(pl, ite(c, slc(v, ZERO, last), v))
        return ite(c, Some(idx(v, last)), NONE)

    def s_insert(s, v, a, h, e, pl):
        i = s.ip.deref(a[0])
        s.ip.oblige(le(i, length(v)), "insert", e, "insert position within len")
        return s.wr(pl, cat([slc(v, ZERO, i), lst([s.plain(a[1])]), slc(v, i, length(v))]))

    def s_remove(s, v, a, h, e, pl):
        i = s.ip.deref(a[0])
        s.ip.check_index(v, i, e)
        s.wr(pl, cat([slc(v, ZERO, i), slc(v, add(i, ONE), length(v))]))
        return idx(v, i)

    def s_extend(s, v, a, h, e, pl):
        it = s.to_it(a[0])
        w = s.plain(a[0])
        if isinstance(un(w), It):
            w = s.collect(un(w))
        cur = s.ip.deref(s.ip.read(pl)) if pl is not None else v
        return s.wr(pl, cat([cur, w]))

    s_extend_from_slice = s_extend
    s_write_all_vec = s_extend

    def s_append(s, v, a, h, e, pl):
        w = s.plain(a[0])
        s.wr(pl, cat([v, w]))
        if is_ref(a[0]):
            s.ip.write(un(a[0]), EMPTY)
        return UNIT

    def s_resize(s, v, a, h, e, pl):
        n = s.ip.deref(a[0])
        x = s.ip.deref(a[1])
        ln = length(v)
        s.ip.alloc(n, e)
        c = s.ip.simp(le(ln, n))
        d = sub(n, ln)
        grow = cat([v, arr_f(d, lambda i: x)])
        return s.wr(pl, grow if c is TRUE else ite(c, grow, slc(v, ZERO, n)))

    def s_truncate(s, v, a, h, e, pl):
        n = s.ip.deref(a[0])
        c = s.ip.simp(le(n, length(v)))
        return s.wr(pl, slc(v, ZERO, n) if c is TRUE else ite(c, slc(v, ZERO, n), v))

    def s_clear(s, v, a, h, e, pl):
        return s.wr(pl, EMPTY)

    def s_first(s, v, a, h, e, pl):
        return ite(s.ip.simp(lt(ZERO, length(v))), Some(idx(v, ZERO)), NONE)

    def s_last(s, v, a, h, e, pl):
        n = length(v)
        return ite(s.ip.simp(lt(ZERO, n)), Some(idx(v, sub(n, ONE))), NONE)

    def s_get(s, v, a, h, e, pl):
        ip = s.ip
        i = a[0]
        u = un(ip.deref(i))
        n = length(v)
        if isinstance(u, It) and u.range:
            lo, hi = u.range
            if hi is None:
                hi = n
            c = ip.simp(And(le(lo, hi), le(hi, n)))
            return ite(c, Some(slc(v, lo, hi)), NONE)
        i = ip.deref(i)
        c = ip.simp(And(le(ZERO, i), lt(i, n)))
        return ite(c, Some(idx(v, i)), NONE)

    def s_split_at(s, v, a, h, e, pl):
        i = s.ip.deref(a[0])
        s.ip.oblige(le(i, length(v)), "split_at", e, "split position within len")
        return mk("tuple", slc(v, ZERO, i), slc(v, i, length(v)))

    def s_split_first(s, v, a, h, e, pl):
        return ite(lt(ZERO, length(v)), Some(mk("tuple", idx(v, ZERO), slc(v, ONE, length(v)))), NONE)

    def s_split_last(s, v, a, h, e, pl):
        n = length(v)
        return ite(lt(ZERO, n), Some(mk("tuple", idx(v, sub(n, ONE)), slc(v, ZERO, sub(n, ONE)))), NONE)

    def s_split_off(s, v, a, h, e, pl):
        i = s.ip.deref(a[0])
        s.wr(pl, slc(v, ZERO, i))
        return slc(v, i, length(v))

    def s_copy_from_slice(s, v, a, h, e, pl):
        w = s.plain(a[0])
        s.ip.oblige(eq(length(v), length(w)), "copy_from_slice", e, "lengths equal")
        return s.wr(pl, w)

    s_clone_from_slice = s_copy_from_slice

    def s_contains(s, v, a, h, e, pl):
        ip = s.ip
        u = v
        x = ip.deref(a[0])
        n = length(v)
        if v.op == "lst":
            return Or(*[eq(y, x) for y in v.args[0]])
        w = fresh("i", USIZE)
        return Any(n, lam(w, eq(idx(v, w), x)))

    def s_concat(s, v, a, h, e, pl):
        if v.op == "lst":
            return cat(list(v.args[0]))
        w = fresh("i", USIZE)
        return flat(length(v), lam(w, idx(v, w)))

    def s_swap(s, v, a, h, e, pl):
        i, j = s.ip.deref(a[0]), s.ip.deref(a[1])
        s.ip.check_index(v, i, e)
        s.ip.check_index(v, j, e)
        x, y = idx(v, i), idx(v, j)
        return s.wr(pl, upd(upd(v, i, y), j, x))

    def s_reverse(s, v, a, h, e, pl):
        n = length(v)
        return s.wr(pl, arr_f(n, lambda i: idx(v, sub(sub(n, ONE), i))))

    def s_fill(s, v, a, h, e, pl):
        x = s.ip.deref(a[0])
        return s.wr(pl, arr_f(length(v), lambda i: x))

    def s_iter(s, v, a, h, e, pl):
        return py(s.seq_it(v))

    def s_into_iter(s, v, a, h, e, pl):
        return py(s.seq_it(v))

    s_par_iter = s_iter
    s_into_par_iter = s_iter

    def s_iter_mut(s, v, a, h, e, pl):
        if pl is None:
            return py(s.seq_it(v))
        return py(It(length(v), lambda i: (TRUE, py(pl.sub(("i", i))))))

    s_par_iter_mut = s_iter_mut

    def s_drain(s, v, a, h, e, pl):
        u = un(s.ip.deref(a[0]))
        n = length(v)
        lo, hi = u.range if u is not None and u.range else (ZERO, n)
        hi = hi if hi is not None else n
        s.wr(pl, cat([slc(v, ZERO, lo), slc(v, hi, n)]))
        return py(s.seq_it(slc(v, lo, hi)))

    def s_splice(s, v, a, h, e, pl):
        u = un(s.ip.deref(a[0]))
        n = length(v)
        lo, hi = u.range
        hi = hi if hi is not None else n
        w = s.plain(a[1])
        if isinstance(un(w), It):
            w = s.collect(un(w))
        s.ip.oblige(And(le(lo, hi), le(hi, n)), "splice", e, "range within len")
        s.wr(pl, cat([slc(v, ZERO, lo), w, slc(v, hi, n)]))
        return py(s.seq_it(slc(v, lo, hi)))

    def s_windows(s, v, a, h, e, pl):
        k = s.ip.deref(a[0])
        n = s.natsub(add(length(v), ONE), k)
        return py(It(n, lambda i: (TRUE, slc(v, i, add(i, k)) if ival(k) is None else lst([idx(v, add(i, INT(j))) for j in range(int(ival(k)))]))))

    def s_chunks(s, v, a, h, e, pl):
        k = s.ip.deref(a[0])
        s.ip.oblige(negate(eq0(k)), "chunks", e, "chunk size non-zero")
        L = length(v)
        n = idiv(L, k)
        if mul(n, k) is not L and e is not None and e.get("m") == "chunks":
            n2 = idiv(add(L, k, INT(-1)), k)
            return py(It(n2, lambda i: (TRUE, slc(v, mul(i, k), Min(mul(add(i, ONE), k), L)))))
        it = It(n, lambda i: (TRUE, slc(v, mul(i, k), mul(add(i, ONE), k))))
        it.rest = slc(v, mul(n, k), L)
        return py(it)

    s_chunks_exact = s_chunks

    def i_remainder(s, it, a, h, e, pl):
        r = getattr(it, "rest", None)
        return r if r is not None else s.ip.opaque("m:remainder", [py(it)], UNK)

    i_into_remainder = i_remainder

    def s_join(s, v, a, h, e, pl):
        return s.ip.opaque("join", [v] + a, ("str",))

    def keyed(s, a, kind):
        if not a:
            return STR(kind)
        return mk("tuple", STR(kind), s.ip.freeze_fn(a[0], 1))

    def s_sort(s, v, a, h, e, pl):
        t = mk("sorted", v, s.keyed(a, {"sort": "asc", "sort_unstable": "asc"}.get((e or {}).get("m"), "by")))
        return s.wr(pl, t)

    s_sort_unstable = s_sort

    def s_sort_by(s, v, a, h, e, pl):
        return s.wr(pl, mk("sorted", v, s.sort_key(a[0], True, v)))

    s_sort_unstable_by = s_sort_by

    def s_sort_by_key(s, v, a, h, e, pl):
        return s.wr(pl, mk("sorted", v, s.sort_key(a[0], False, v)))

    s_sort_unstable_by_key = s_sort_by_key

    def sort_key(s, f, cmp, v):
        """canonical comparator: \\a b. cmp(key a, key b)"""
        fn = s.ip.freeze_fn(f, 2 if cmp else 1, s.elem(v))
        if not cmp:
            x, k = open_lam(fn, "a", s.elem(v))
            a, b = fresh("a", s.elem(v)), fresh("b", s.elem(v))
            return lam(a, lam(b, mk("call", "cmp", subst(k, {x: a}), subst(k, {x: b}))))
        return fn

    def s_dedup(s, v, a, h, e, pl):
        return s.wr(pl, mk("call", "dedup", v))

    def s_starts_with(s, v, a, h, e, pl):
        w = s.plain(a[0])
        return And(le(length(w), length(v)), eq(slc(v, ZERO, length(w)), w))

    def s_to_be_bytes(s, v, a, h, e, pl):
        return s.ip.opaque("to_be_bytes", [v], ("seq", U8, None))

    # ================================================================ iterator adaptors
    def i_iter(s, it, a, h, e, pl):
        return py(it)

    def i_map(s, it, a, h, e, pl):
        ip = s.ip
        return py(s.mapped(it, lambda v: ip.apply(a[0], [v])))

    def i_filter(s, it, a, h, e, pl):
        ip = s.ip
        it = s.materialise(it) if getattr(it, "chain", None) or getattr(it, "nest", None) else it

        def get(i):
            g, v = it.get(i)
            c = ip.deref(ip.apply(a[0], [v]))
            return And(g, c), v
        r = It(it.n, get)
        r.guarded = True
        return py(r)

    def i_filter_map(s, it, a, h, e, pl):
        ip = s.ip

        def get(i):
            g, v = it.get(i)
            c = ip.deref(ip.apply(a[0], [v]))
            return And(g, isv(c, "Some")), payload(c, "Some")
        it = s.materialise(it) if getattr(it, "chain", None) or getattr(it, "nest", None) else it
        r = It(it.n, get)
        r.guarded = True
        return py(r)

    def i_flat_map(s, it, a, h, e, pl):
        ip = s.ip
        r = It(None, None)
        r.nest = (it, lambda v: ip.apply(a[0], [v]))
        return py(r)

    def i_flatten(s, it, a, h, e, pl):
        r = It(None, None)
        r.nest = (it, lambda v: s.flat_el(v))
        return py(r)

    def flat_el(s, v):
        d = s.ip.deref(v)
        if s.is_result(d):
            it = It(INT(1), lambda i: (isv(d, "Ok"), payload(d, "Ok")))
            it.guarded = True
            return py(it)
        return d

    def i_enumerate(s, it, a, h, e, pl):
        it = s.materialise(it)

        def get(i):
            g, v = it.get(i)
            return g, mk("tuple", i, v)
        return py(It(it.n, get))

    def i_zip(s, it, a, h, e, pl):
        it = s.materialise(it)
        o = s.to_it(a[0])
        if o is None:
            return s.ip.unsup("zip with " + s.ip.deref(a[0]).op, e)
        o = s.materialise(o)

        def get(i):
            g, v = it.get(i)
            g2, w = o.get(i)
            return And(g, g2), mk("tuple", v, w)
        return py(It(Min(it.n, o.n), get))

    i_zip_eq = i_zip

    def i_chain(s, it, a, h, e, pl):
        o = s.to_it(a[0])
        if o is None:
            return s.ip.unsup("chain", e)
        r = It(None, None)
        r.chain = (it.chain if getattr(it, "chain", None) else [it]) + (o.chain if getattr(o, "chain", None) else [o])
        return py(r)

    def i_rev(s, it, a, h, e, pl):
        it = s.materialise(it)
        n = it.n
        return py(It(n, lambda i: it.get(sub(sub(n, ONE), i))))

    def i_skip(s, it, a, h, e, pl):
        it = s.materialise(it)
        k = s.ip.deref(a[0])
        return py(It(s.natsub(it.n, k), lambda i: it.get(add(i, k))))

    def i_take(s, it, a, h, e, pl):
        it = s.materialise(it)
        k = s.ip.deref(a[0])
        r = It(Min(it.n, k), it.get)
        return py(r)

    def i_step_by(s, it, a, h, e, pl):
        it = s.materialise(it)
        k = s.ip.deref(a[0])
        s.ip.oblige(negate(eq0(k)), "step_by", e, "step non-zero")
        n = INF if it.n is INF else (idiv(it.n, k) if idiv(it.n, k).op not in ("idiv", "int") else idiv(add(it.n, k, INT(-1)), k))
        return py(It(n, lambda i: it.get(mul(i, k))))

    def i_cycle(s, it, a, h, e, pl):
        it = s.materialise(it)
        n = it.n
        return py(It(INF, lambda i: it.get(i if n is INF else imod(i, n))))

    def i_cloned(s, it, a, h, e, pl):
        return py(s.mapped(it, lambda v: s.ip.deref(v))) if it.seq is None else py(it)

    i_copied = i_cloned

    def i_by_ref(s, it, a, h, e, pl):
        return py(it)

    def i_peekable(s, it, a, h, e, pl):
        return py(it)

    def i_into_iter(s, it, a, h, e, pl):
        return py(it)

    def i_scan(s, it, a, h, e, pl):
        ip = s.ip
        c = ip.newcell(ip.deref(a[0]))
        acc = ip.newcell(EMPTY)

        def f(v):
            r = ip.deref(ip.apply(a[1], [py(Ref(c)), v]))
            # the scan stops at the first None; all-Some bodies only
            if isv(r, "Some") is not TRUE:
                ip.unsup("scan that stops early", e)
            ip.store[acc] = cat([ip.store[acc], lst([payload(r, "Some")])])
        s.drive(it, f)
        return py(s.seq_it(ip.store[acc]))

    def i_take_while(s, it, a, h, e, pl):
        ip = s.ip
        it = s.materialise(it)
        if it.n is INF:
            v = fresh("i", USIZE)
            c = ip.deref(ip.apply(a[0], [it.get(v)[1]]))
            from . import loops
            n = loops.first_index(ip, INF, lam(v, negate(c)))
            return py(It(n, it.get))
        v = fresh("i", USIZE)
        c = ip.deref(ip.apply(a[0], [it.get(v)[1]]))
        from . import loops
        n = Min(it.n, loops.first_index(ip, it.n, lam(v, negate(c))))
        return py(It(n, it.get))

    def i_next(s, it, a, h, e, pl):
        ip = s.ip
        it = s.materialise(it)
        n = it.n
        c = ip.simp(lt(ZERO, n)) if n is not INF else TRUE
        if c is FALSE:
            return NONE
        g, v = it.get(ZERO)
        if pl is not None and pl.cell in ip.store and isinstance(un(ip.store[pl.cell]), It):
            r = It(s.natsub(n, ONE) if n is not INF else INF, lambda i: it.get(add(i, ONE)))
            if it.seq is not None:
                r.seq = slc(it.seq, ONE, length(it.seq))
            ip.store[pl.cell] = py(r)
        return ite(c, Some(ip.deref(v)), NONE)

    def i_nth(s, it, a, h, e, pl):
        it = s.materialise(it)
        k = s.ip.deref(a[0])
        return ite(s.ip.simp(lt(k, it.n)), Some(s.ip.deref(it.get(k)[1])), NONE)

    def i_last(s, it, a, h, e, pl):
        it = s.materialise(it)
        n = it.n
        c = s.ip.simp(lt(ZERO, n))
        return ite(c, Some(s.ip.deref(it.get(sub(n, ONE))[1])), NONE)

    # ---------------------------------------------------------------- consumers
    def i_collect(s, it, a, h, e, pl):
        ip = s.ip
        if e is not None and e.get("g"):
            t = ip.ty(e["g"][0])
            if t != UNK:
                h = t
        w = False
        if h and h[0] == "wrap":
            # `collect()?` or `collect().unwrap()`
            h = ("adt", "Result", (h[1], UNK))
        if h and h[0] == "adt" and h[1] in ("Result", "Option"):
            return s.collect_result(it, h)
        q = s.collect(it)
        if h and h[0] in ("map", "set"):
            t = mk(h[0] + "from", q)
            X._types[t] = h
            return t
        if h and h[0] == "str":
            return ip.opaque("string", [q], ("str",))
        if h and h[0] == "seq" and h[1] and h[1][0] == "int" and h[1][1]:
            ty = ip.typeof(q)
            if ty[0] == "seq" and ty[1] == UNK and q.op in ("arr", "lst"):
                # the values are converted to the element type of the result
                q = seqmap(q, lambda x: s.m_into(x, h[1]) if x.op == "repr" else x)
        return q

    def collect_result(s, it, h):
        ip = s.ip
        q = s.collect(it)
        okv, wrap = ("Ok", Ok) if h[1] == "Result" else ("Some", Some)
        inner = seqmap(q, lambda x: payload(x, okv))
        if h[2] and h[2][0][0] == "map":
            inner = mk("mapfrom", inner)
        if h[2] and h[2][0] == ("tuple", ()):
            inner = UNIT
        c = s.all_of(q, lambda x: isv(x, okv))
        c = ip.simp(c)
        if c is TRUE:
            return wrap(inner)
        if okv == "Some":
            return ite(c, Some(inner), NONE)
        v = fresh("i", USIZE)
        from . import loops
        k = loops.first_index(ip, length(q), lam(v, negate(isv(idx(q, v), "Ok"))))
        return ite(c, Ok(inner), Err(payload(idx(q, k), "Err")))

    def all_of(s, q, f):
        if q.op == "lst":
            return And(*[f(x) for x in q.args[0]])
        if q.op == "cat":
            return And(*[s.all_of(p, f) for p in q.args[0]])
        if q.op == "flat":
            v = fresh("i", USIZE)
            return All(q.args[0], lam(v, s.all_of(app(q.args[1], v), f)))
        if q.op == "ite":
            return ite(q.args[0], s.all_of(q.args[1], f), s.all_of(q.args[2], f))
        v = fresh("i", USIZE)
        return All(length(q), lam(v, f(idx(q, v))))

    def reduce(s, it, init, f):
        ip = s.ip
        c = ip.newcell(init)

        def g(v):
            ip.store[c] = ip.deref(f(ip.store[c], v))
        s.drive(it, g)
        return ip.store[c]

    def i_fold(s, it, a, h, e, pl):
        ip = s.ip
        init = a[0] if is_ref(a[0]) and False else ip.deref(a[0])
        return s.reduce(it, init, lambda acc, v: ip.apply(a[1], [acc, v]))

    def i_sum(s, it, a, h, e, pl):
        return s.reduce(it, ZERO, lambda acc, v: add(acc, s.ip.deref(v)))

    def i_product(s, it, a, h, e, pl):
        return s.reduce(it, ONE, lambda acc, v: mul(acc, s.ip.deref(v)))

    def i_count(s, it, a, h, e, pl):
        if not (getattr(it, "guarded", False) or getattr(it, "chain", None) or getattr(it, "nest", None)):
            return it.n
        return s.reduce(it, ZERO, lambda acc, v: add(acc, ONE))

    def i_len(s, it, a, h, e, pl):
        return s.materialise(it).n

    def i_all(s, it, a, h, e, pl):
        ip = s.ip
        return s.reduce(it, TRUE, lambda acc, v: ip.branch(acc, lambda: ip.deref(ip.apply(a[0], [v])), lambda: FALSE))

    def i_any(s, it, a, h, e, pl):
        ip = s.ip
        return s.reduce(it, FALSE, lambda acc, v: ip.branch(acc, lambda: TRUE, lambda: ip.deref(ip.apply(a[0], [v]))))

    def i_for_each(s, it, a, h, e, pl):
        ip = s.ip
        s.drive(it, lambda v: ip.apply(a[0], [v]))
        return UNIT

    def i_try_for_each(s, it, a, h, e, pl):
        ip = s.ip
        q = s.collect(s.mapped(it, lambda v: ip.apply(a[0], [v])))
        return s.collect_result(s.seq_it(q), ("adt", "Result", (("tuple", ()), UNK)))

    def i_max(s, it, a, h, e, pl):
        q = s.collect(it)
        return s.extreme("maxof", q)

    def i_min(s, it, a, h, e, pl):
        q = s.collect(it)
        return s.extreme("minof", q)

    def extreme(s, op, q):
        ip = s.ip
        if q.op == "lst" and q.args[0]:
            return Some((Max if op == "maxof" else Min)(*q.args[0]))
        ty = ip.typeof(q)
        t = mk(op, q)
        if ty[0] == "seq":
            X._types[t] = ty[1]
        n = length(q)
        c = ip.simp(lt(ZERO, n))
        return ite(c, Some(t), NONE)

    def elem(s, q):
        ty = s.ip.typeof(q)
        return ty[1] if ty[0] == "seq" else UNK

    def i_position(s, it, a, h, e, pl):
        ip = s.ip
        it = s.materialise(it)
        v = fresh("i", USIZE)
        from . import loops
        snap = ip.snapshot()
        c = lam(v, ip.deref(ip.apply(a[0], [it.get(v)[1]])))
        ip.restore(snap)
        k = loops.first_index(ip, it.n, c)
        if it.n is INF:
            return Some(k)
        return ite(ip.simp(Any(it.n, c)), Some(k), NONE)

    def i_find(s, it, a, h, e, pl):
        ip = s.ip
        it = s.materialise(it)
        v = fresh("i", USIZE)
        from . import loops
        snap = ip.snapshot()
        c = lam(v, ip.deref(ip.apply(a[0], [ip.deref(it.get(v)[1])])))
        ip.restore(snap)
        k = loops.first_index(ip, it.n, c)
        x = ip.deref(it.get(k)[1])
        if it.n is INF:
            return Some(x)
        return ite(ip.simp(Any(it.n, c)), Some(x), NONE)

    def i_find_map(s, it, a, h, e, pl):
        ip = s.ip
        it = s.materialise(it)
        v = fresh("i", USIZE)
        from . import loops
        r = ip.deref(ip.apply(a[0], [it.get(v)[1]]))
        c = lam(v, isv(r, "Some"))
        k = loops.first_index(ip, it.n, c)
        x = subst(r, {v: k})
        return ite(Any(it.n, c) if it.n is not INF else TRUE, x, NONE)

    def i_unzip(s, it, a, h, e, pl):
        q = s.collect(it)
        return mk("tuple", seqmap(q, lambda x: field(x, "0")), seqmap(q, lambda x: field(x, "1")))

    i_multiunzip = i_unzip

    def i_partition(s, it, a, h, e, pl):
        ip = s.ip
        q = s.collect(it)
        f = lambda neg_: s.collect(un(s.i_filter(s.seq_it(q), [py(FnV("p", lambda ip, x, h: negate(ip.deref(ip.apply(a[0], x))) if neg_ else ip.apply(a[0], x)))], None, e, None)))
        return mk("tuple", f(False), f(True))

    def i_unique(s, it, a, h, e, pl):
        q = s.collect(it)
        return py(s.seq_it(s.typed(mk("uniq", q), q)))

    def i_unique_by(s, it, a, h, e, pl):
        q = s.collect(it)
        return py(s.seq_it(s.typed(mk("uniq", q, s.ip.freeze_fn(a[0])), q)))

    def typed(s, t, like):
        ty = s.ip.typeof(like)
        if ty[0] == "seq":
            X._types[t] = ("seq", ty[1], None)
        return t

    def i_sorted(s, it, a, h, e, pl):
        q = s.collect(it)
        return py(s.seq_it(s.typed(mk("sorted", q, STR("asc")), q)))

    def i_sorted_by(s, it, a, h, e, pl):
        q = s.collect(it)
        return py(s.seq_it(s.typed(mk("sorted", q, s.sort_key(a[0], True, q)), q)))

    def i_tuple_windows(s, it, a, h, e, pl):
        it = s.materialise(it)
        return py(It(s.natsub(it.n, ONE), lambda i: (TRUE, mk("tuple", it.get(i)[1], it.get(add(i, ONE))[1]))))

    def i_contains(s, it, a, h, e, pl):
        if it.range is not None:
            lo, hi = it.range
            x = s.ip.deref(a[0])
            return And(le(lo, x), lt(x, hi) if hi is not None else TRUE)
        return s.s_contains(s.collect(it), a, h, e, pl)

    def i_is_empty(s, it, a, h, e, pl):
        return eq0(s.materialise(it).n)

    # ================================================================ macros
    def macro(s, e, hint):
        ip = s.ip
        n = e["n"].split("::")[-1] if isinstance(e["n"], str) else e["n"]
        a = e.get("a")
        if n == "vec":
            if e.get("rep"):
                ve, ne = e["rep"]
                h = hint[1] if hint and hint[0] == "seq" else None
                v = s.plain(ip.eval(ve, h))
                k = ip.rv(ne)
                ip.alloc(k, e)
                return arr_f(k, lambda i: v)
            h = hint[1] if hint and hint[0] == "seq" else None
            return lst([s.plain(ip.eval(x, h)) for x in a or []])
        if n == "matches":
            v = ip.eval(e["e"])
            c, b = ip.match(e["p"], v)
            if e.get("g"):
                def t():
                    ip.env = ip.env + [{}]
                    try:
                        for nm, x in b:
                            ip.bind(nm, x)
                        return ip.rv(e["g"])
                    finally:
                        ip.env = ip.env[:-1]
                return ip.branch(c, t, lambda: FALSE)
            return c
        if n in ("assert", "debug_assert"):
            if n == "assert" or ip.crate.debug:
                c = ip.rv(a[0])
                ip.oblige(c, "assert", e, "assertion")
            return UNIT
        if n in ("assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne"):
            if n.startswith("assert") or ip.crate.debug:
                c = eq(ip.rv(a[0]), ip.rv(a[1]))
                ip.oblige(negate(c) if n.endswith("ne") else c, "assert", e, "assertion")
            return UNIT
        if n in ("panic", "unreachable", "todo", "unimplemented"):
            ip.oblige(FALSE, "panic", e, n)
            raise Diverge()
        if n in ("println", "print", "eprintln", "eprint", "info", "error", "warn", "debug", "trace", "log"):
            txt = a[0]["v"] if a and a[0].get("k") == "str" else ""
            vals = []
            if ip.texts:
                vals = [ip.lookup(x) for x in re.findall(r"\{(\w+)[^{}]*\}", txt)]
                vals = [ip.freeze(ip.store[x]) for x in vals if x is not None]
                for x in a[1:]:
                    known = {k: set(v) for k, v in FOREIGN.items()}
                    vals.append(ip.freeze(ip.rv(x["e"] if x.get("k") == "assign" and "e" in x else x)))
                    FOREIGN.clear()
                    FOREIGN.update(known)
            ip.prints.append((n, txt, tuple(ip.path) + tuple(ip.reach), ip.frame.fn.qual if ip.frame.fn else "?", tuple(vals)))
            return UNIT
        if n in ("format", "concat", "env", "stringify", "file", "line", "include_str"):
            t = e.get("t", "")
            return mk("call", n, STR(str(t)))
        if n in ("write", "writeln"):
            return Ok(UNIT)
        if n == "cfg" and a:
            return TRUE if all(ip.crate.cfg_expr(x) for x in a) else FALSE
        if n == "dbg" and len(a or []) == 1:
            return ip.eval(a[0], hint)
        return ip.unsup("macro " + str(n), e)


WRAPPERS = {"Box", "Rc", "Arc", "Cell", "RefCell", "Mutex", "RwLock", "OnceCell", "ManuallyDrop", "Pin"}
FELT_M = {"square", "inv", "double", "to_bytes_be", "to_bytes_le", "representative", "evaluate", "coefficients", "ruffini_division_inplace", "ruffini_division", "evaluate_fft", "evaluate_offset_fft",
          "even_odd_decomposition", "evaluate_slice", "degree"}
INT_M = {"to_be_bytes", "to_le_bytes", "next_power_of_two", "is_power_of_two", "trailing_zeros", "leading_zeros", "checked_sub",
         "checked_add", "checked_mul", "checked_add_signed", "checked_shl", "wrapping_sub", "wrapping_add", "saturating_sub",
         "overflowing_sub", "unsigned_abs", "abs_diff", "div_ceil"}


def ty_name(t):
    if t[0] == "adt":
        return t[1].split("::")[-1]
    if t[0] == "int":
        return t[1] or "int"
    if t[0] == "param":
        return t[1]
    return t[0]
