"""S32: no count, index, address or value is silently cut to 16 bits or fewer."""
import signal
import time

from .. import interp, terms as X
from ..front import WIDTH
from ..interp import Diverge, TooDeep

META = {
    "level": "proof",
    "explanation": "Every integer cast to a type of 16 bits or fewer is evaluated in the value-flow summary of the function it is in "
                   "(and, when it depends on what that function is given, of the functions that call it, up to three levels): the range of its operand (by interval arithmetic over masks, shifts, "
                   "remainders, bits and the types of what it reads) has to fit the type. Lengths, fields of inputs and answers of "
                   "the machine have the whole range of their types; a parameter of a function called from elsewhere is judged at "
                   "its callers, and an operand a branch condition speaks about is not judged.",
}
FLOOR = 3
INF = float("inf")
SMALL = ("trailing_zeros", "count_ones", "ilog2", "ilog10", "leading_zeros64", "leading_zeros32", "leading_zeros16", "leading_zeros8")


def width(t):
    return WIDTH.get(t[1]) if t and t[0] == "int" and t[1] else None


def hi(v, ty, params, depth=0, path=()):
    """an upper bound for v that is reached, INF when it passes every small type, None when unknown"""
    go = lambda x: hi(x, ty, params, depth + 1, path)
    o = v.op
    if depth > 60:
        return None
    n = X.ival(v)
    if n is not None:
        return int(n)
    if o in ("ind", "bit", "isbit"):
        return 1
    if o == "len":
        x = v.args[0]
        t = ty(x)
        if t and t[0] == "seq" and isinstance(t[2], int):
            return t[2]
        if x.op in ("mapext", "mapins") and hasattr(x.args[0], "op"):
            return INF if go(X.mk("len", x.args[0])) == INF else None
        if x.op == "mapfrom":
            return go(X.length(x.args[0])) if hasattr(X, "length") else None
        return INF if x.op in ("sym", "field", "idx", "payload", "call") else None
    if o == "trunc":
        a = go(v.args[0])
        return None if a is None else min(a, 2 ** v.args[1] - 1)
    if o == "ite":
        a, b = go(v.args[1]), go(v.args[2])
        # a comparison may choose the smaller one
        return None if a is None or b is None or INF in (a, b) else max(a, b)
    if o in ("min", "max") and len(v.args) == 2:
        a, b = go(v.args[0]), go(v.args[1])
        if a is None or b is None:
            return None
        return min(a, b) if o == "min" else max(a, b)
    if o in ("mod", "idiv", "shr") and len(v.args) == 2:
        a, k = go(v.args[0]), X.ival(v.args[1])
        if a is None or k is None or k <= 0:
            return None
        return min(a, k - 1) if o == "mod" else a if a == INF else a // k if o == "idiv" else a >> k
    if o == "band":
        l = [go(x) for x in v.args if hasattr(x, "op")]
        return None if not l or None in l else min(l)
    if o in ("bor", "bxor"):
        l = [go(x) for x in v.args if hasattr(x, "op")]
        return None if not l or None in l else INF if INF in l else 2 ** max(int(x).bit_length() for x in l) - 1
    if o == "poly":
        b = X.bitval(v)
        if b is not None:
            return 2 ** (max(b, default=-1) + 1) - 1
        s = 0
        for m, c in X.to_poly(v).items():
            if c < 0:
                # a difference reaches what its minuend does when the two are read separately
                if not all(a.op in ("field", "payload", "len", "idx", "call", "ind") or a.op == "ite" and any(X.ival(b) == 0 for b in a.args[1:]) for a, _ in m):
                    return None
                continue
            t = c
            for a, e in m:
                h = go(a)
                if h is None:
                    return None
                t = INF if h == INF else t * h ** e
            s += t
        return s if s == INF or all(c >= 0 for c in X.to_poly(v).values()) else None
    if o == "dec" and len(v.args) > 2:
        n = v.args[2] if isinstance(v.args[2], int) else X.ival(v.args[2]) if hasattr(v.args[2], "op") else None
        return None if n is None else 256 ** n - 1 if n <= 2 else INF
    if o == "call" and v.args[0] in SMALL:
        return 128
    if o in ("sym", "field", "idx", "payload", "mapget", "call", "app"):
        if o == "sym" and v.args[0] in params:
            return None
        if o == "sym" and "@" in str(v.args[0]):
            # the index of a loop goes as far as the sequence it walks over
            over = [t.args[0] for p in path for t in X.find(p, lambda t: t.op == "idx" and t.args[1] is v)]
            return INF if any(x.op in ("sym", "field", "payload") and ty(x) and ty(x)[0] == "seq" and not isinstance(ty(x)[2], int) for x in over) else None
        t = ty(v)
        w = width(t)
        if w is None and of_machine(v):
            return INF
        if w is None or t[1][0] == "i" or w == 32:
            return None         # orders of roots and the like are kept in 32 bits
        return 2 ** w - 1 if w <= 16 else INF
    return None


def of_machine(v):
    """part of an answer of the machine"""
    while v.op in ("field", "payload", "idx") and hasattr(v.args[0], "op"):
        v = v.args[0]
    return v.op == "call" and str(v.args[0]).startswith("m:")


def pieces(v):
    """v is put together from bits or bytes of something"""
    if v.op in ("bit", "dec"):
        return True
    if v.op == "poly":
        return any(pieces(a) for m in X.to_poly(v) for a, _ in m)
    return v.op in ("ite", "trunc", "min", "max") and any(pieces(a) for a in v.args if hasattr(a, "op"))


def atoms(v, depth=0):
    if v.op in ("sym", "field", "idx", "payload", "mapget", "call", "len", "app"):
        return {v}
    out = set()
    for x in v.args:
        for y in x if isinstance(x, tuple) else (x,):
            if hasattr(y, "op"):
                out |= atoms(y)
    if v.op == "poly":
        for m in X.to_poly(v):
            for a, _ in m:
                out |= atoms(a)
    return out


def sites(b, out):
    """casts to a small type in a body, and the names it mentions"""
    if isinstance(b, dict):
        if b.get("k") in ("bin", "assignop", "opassign") and (b.get("op") in ("&", ">>", "<<", "|", "&=", ">>=") or b.get("op") in ("%", "/", "/=") and any(n in str(b) for n in ("256", "0x100", "65536"))):
            out["bits"] = True
        if b.get("k") == "cast":
            out["casts"].append(b)
        for k in ("n", "m"):
            if isinstance(b.get(k), str):
                out["names"].add(b[k])
        for x in b.values():
            sites(x, out)
    elif isinstance(b, (list, tuple)):
        for x in b:
            sites(x, out)


def check(ck):
    ck.casts = True
    for tag, kw in (("", {}), (" (parallel)", {"features": ("parallel",)})):
        ck.guarded("casts" + tag, lambda: config(ck, tag, kw), "src")


class Slow(Exception):
    pass


class limit:
    """a bound on the time and the memory one summary takes"""
    def __init__(s, seconds):
        s.seconds = seconds

    def __enter__(s):
        def late(*_):
            raise Slow("not summarised in %d s" % s.seconds)
        s.old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, s.seconds)

    def __exit__(s, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, s.old)


def config(ck, tag, kw):
    c = ck.crate(**kw)
    fns = [f for f in c.fns if f.file and "/example/" not in f.file and f.item.get("b") is not None and not any("test" in p for p in f.mod.path)]
    info = {}
    for f in fns:
        o = info[f.qual] = {"casts": [], "names": set(), "bits": False}
        sites(f.item["b"], o)
    todo = [f for f in fns if any(is_small(b) for b in info[f.qual]["casts"])]
    bad, ok, unk = {}, {}, {}
    seen = set()
    end = time.time() + 250
    for level in range(4):
        ask = set()          # functions a cast in which depends on what they are given
        for f in todo:
            seen.add(f.qual)
            if time.time() > end:
                ck.extra.setdefault("not summarised", {})[f.qual] = "out of time"
                continue
            called = any(f.name in info[g.qual]["names"] for g in fns if g is not f)
            judge(ck, c, f, info, called, bad, ok, unk, ask)
        todo = [f for f in fns if f.qual not in seen and info[f.qual]["names"] & ask]
        if not todo:
            break
    for k in sorted(set(bad) | set(ok) | set(unk)):
        q, t = k
        ck.ob("cast:%s as %s%s" % (q, t, tag), False if k in bad else True if k in ok and k not in unk else None, bad.get(k) or ("fits in %d evaluations" % ok[k] if k in ok and k not in unk else unk[k]), q)


def judge(ck, c, f, info, called, bad, ok, unk, ask):
    known = {k: set(v) for k, v in interp.FOREIGN.items()}
    try:
        with limit(40):
            _, ip, _ = ck.run(c, f)
    except (Diverge, TooDeep, Exception) as y:
        ck.extra.setdefault("not summarised", {})[f.qual] = str(y)[:100]
        return
    finally:
        interp.FOREIGN.clear()
        interp.FOREIGN.update(known)
    params = {p["p"].get("n") for p in f.sig["in"] if not p.get("self")}
    for g, v, src, t, path, e in ip.casts or []:
        key = (g.qual, t)
        w = WIDTH[t] - (t[0] == "i")
        h = hi(v, ip.typeof, params if called else set(), path=path)
        given = called and any(x.op == "sym" and x.args[0] in params for x in X.find(v, lambda t: t.op == "sym"))
        if h is not None and h >= 2 ** w and (v.op in ("bor", "band", "bxor", "shr", "idiv", "mod", "trunc") or pieces(v) or info[g.qual]["bits"] or info[f.qual]["bits"]):
            h = None            # bytes or bits are taken out of a wider value here
            given = False
        if h is not None and h < 2 ** w:
            ok[key] = ok.get(key, 0) + 1
        elif h is None and given:
            ask.add(f.name)
            ok.setdefault(key, 0)
        elif h is None:
            unk.setdefault(key, "operand %s" % str(v)[:120])
        elif any(mentions(p, atoms(v)) for p in path):
            unk.setdefault(key, "guarded operand %s" % str(v)[:120])
        else:
            bad.setdefault(key, "%s is cut to %s in %s: it reaches %s" % (str(v)[:160], t, f.qual, "any length or value" if h == INF else h))


def is_small(b):
    s = str(b.get("t"))
    return any("'%s'" % n in s for n in ("u8", "u16", "i8", "i16"))


def constants(t, out):
    n = X.ival(t)
    if isinstance(n, int):
        out.add(abs(n))
    elif t.op == "poly":
        for m, c in X.to_poly(t).items():
            out.add(abs(c))
            for a, _ in m:
                constants(a, out)
    else:
        for x in t.args:
            for y in x if isinstance(x, tuple) else (x,):
                if hasattr(y, "op"):
                    constants(y, out)
    return out


def mentions(p, at):
    """a path condition that bounds one of the atoms"""
    if p.op in ("and", "or", "not", "ite", "ind"):
        return any(mentions(x, at) for a in p.args for x in (a if isinstance(a, (tuple, frozenset)) else (a,)) if hasattr(x, "op"))
    return bool(atoms(p) & at) and any(n > 1 for n in constants(p, set()))
