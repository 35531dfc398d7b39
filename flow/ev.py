"""Fingerprints of terms (random interpretation, Gulwani & Necula): two summaries whose
normal forms differ are mapped to hash values by interpreting every operator over random
finite structures.  Inputs and uninterpreted functions get pseudo-random values derived
from their name and arguments; equal terms always get equal fingerprints, different
functions get different ones with overwhelming probability (Schwartz-Zippel).  No program
code is involved: only the canonical terms computed by the value-flow analysis."""
import hashlib
import re
from fractions import Fraction
from . import terms as X
from .terms import T, INF, fv
from .front import UNK, FELT

P = (1 << 251) + 17 * (1 << 192) + 1
MAXLOOP = 3000


class Undecided(Exception):
    pass


class Fp:
    __slots__ = ("v",)

    def __init__(s, v):
        s.v = v % P

    def __eq__(s, o):
        return isinstance(o, Fp) and s.v == o.v

    def __hash__(s):
        return hash(("fp", s.v))

    def __repr__(s):
        return "F%d" % s.v


def pmul(a, b):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return strip([x % P for x in r])


def strip(a):
    while a and not a[-1]:
        a.pop()
    return a


def pdiv(a, b):
    """exact quotient of a by the monic polynomial b, or None"""
    a = list(a)
    q = [0] * max(len(a) - len(b) + 1, 0)
    for i in range(len(a) - len(b), -1, -1):
        c = a[i + len(b) - 1] % P
        if c:
            q[i] = c
            for j, y in enumerate(b):
                a[i + j] = (a[i + j] - c * y) % P
    return None if any(a) else strip(q)


class Rf:
    """polynomial in X over the field, possibly still divided by some monic factors"""
    __slots__ = ("n", "d")

    def __init__(s, n, d=None):
        s.n, s.d = n, d or {}

    def __repr__(s):
        return "X%r" % (s.ck(),)

    def red(s):
        for f in list(s.d):
            while f in s.d:
                q = pdiv(s.n, f)
                if q is None:
                    break
                s.n = q
                s.d[f] -= 1
                if not s.d[f]:
                    del s.d[f]
        return s

    def ck(s):
        s.red()
        if not s.d and len(s.n) < 2:
            return ("n", s.n[0] if s.n else 0)
        return ("p", tuple(s.n), tuple(sorted(s.d.items())))

    def norm(s):
        if not s.d and len(s.n) < 2:
            return Fp(s.n[0] if s.n else 0)
        return s

    def coeffs(s):
        s.red()
        if s.d:
            raise Undecided("not a polynomial")
        return s.n

    def __eq__(s, o):
        return isinstance(o, Rf) and s.ck() == o.ck()

    def __hash__(s):
        return hash(s.ck())

    def at(s, x):
        s.red()
        r = 0
        for c in reversed(s.n):
            r = (r * x + c) % P
        for f, e in s.d.items():
            v = 0
            for c in reversed(f):
                v = (v * x + c) % P
            r = r * pow(v, (P - 2) * e, P) % P
        return Fp(r)


def rf(v):
    if isinstance(v, Rf):
        return v
    if isinstance(v, Fraction):
        v = v.numerator * pow(v.denominator, P - 2, P)
    v = (v.v if isinstance(v, Fp) else v) % P
    return Rf([v] if v else [])


def radd(a, b):
    a, b = rf(a), rf(b)
    if a.d == b.d:
        na, nb, d = a.n, b.n, dict(a.d)
    else:
        d = {f: max(a.d.get(f, 0), b.d.get(f, 0)) for f in list(a.d) + [f for f in b.d if f not in a.d]}
        na, nb = list(a.n), list(b.n)
        for f, e in d.items():
            for _ in range(e - a.d.get(f, 0)):
                na = pmul(na, f)
            for _ in range(e - b.d.get(f, 0)):
                nb = pmul(nb, f)
    n = [0] * max(len(na), len(nb))
    for i, x in enumerate(na):
        n[i] = x
    for i, x in enumerate(nb):
        n[i] = (n[i] + x) % P
    return Rf(strip(n), d).norm()


def rmul(a, b):
    a, b = rf(a), rf(b)
    d = dict(a.d)
    for f, e in b.d.items():
        d[f] = d.get(f, 0) + e
    r = Rf(pmul(a.n, b.n), d)
    if d and r.n:
        r.red()
    elif not r.n:
        r.d = {}
    return r.norm()


def rinv(a):
    a.red()
    if len(a.n) == 1:
        n = [pow(a.n[0], P - 2, P)]
        for f, e in a.d.items():
            for _ in range(e):
                n = pmul(n, f)
        return Rf(n).norm()
    if not a.n:
        return Fp(0)
    l = pow(a.n[-1], P - 2, P)
    m = tuple(x * l % P for x in a.n)
    n = [l]
    for f, e in a.d.items():
        for _ in range(e):
            n = pmul(n, f)
    return Rf(n, {m: 1})


class Obj:
    """opaque value, generated on demand from its seed"""
    __slots__ = ("seed", "ty")

    def __init__(s, seed, ty=UNK):
        s.seed, s.ty = seed, ty

    def __repr__(s):
        return "<%s>" % s.seed


class St:
    __slots__ = ("name", "f")

    def __init__(s, name, f):
        s.name, s.f = name, f

    def __repr__(s):
        return "%s%r" % (s.name.split("::")[-1], s.f)


class En:
    __slots__ = ("name", "var", "a")

    def __init__(s, name, var, a):
        s.name, s.var, s.a = name, var, a

    def __repr__(s):
        return "%s%r" % (s.var, s.a)


class Mp:
    __slots__ = ("d", "isset", "hashed", "base")

    def __init__(s, d, isset, hashed, base=None):
        s.d, s.isset, s.hashed, s.base = d, isset, hashed, base


class Fn:
    __slots__ = ("l", "b")

    def __init__(s, l, b):
        s.l, s.b = l, b


class Rev:
    """reversed order"""

    def __init__(s, k):
        s.k = k

    def __lt__(s, o):
        return o.k < s.k

    def __gt__(s, o):
        return o.k > s.k

    def __eq__(s, o):
        return s.k == o.k


class S_(str):
    """a program string"""


def H(*a):
    h = hashlib.blake2b(digest_size=32)
    for x in a:
        h.update(str(x).encode() + b"\0")
    return int.from_bytes(h.digest(), "big")


class Ev:
    def __init__(s, seed, crate=None, over=(), terms=None, bytes_len=32, field_bits=252):
        s.seed = str(seed)
        s.crate = crate
        s.over = [(re.compile("^(?:%s)$" % r), v) for r, v in over]
        s.terms = dict(terms or {})
        s.bytes_len, s.field_bits = bytes_len, field_bits
        s.memo = {}
        s.states = {}
        s.hashseed = None     # the iteration order of hash maps, when it varies on its own
        s.chal = {}
        s.fuel = 4000000
        s.funcs = {}
        s.draws = {}

    # ------------------------------------------------------------ generation
    def oracle(s, seed):
        for r, v in s.over:
            m = r.match(seed)
            if m:
                return v(s, m) if callable(v) else v
        return None

    def rnd(s, seed, n):
        return H(s.seed, seed) % n

    def gen(s, seed, ty):
        o = s.oracle(seed)
        if o is not None:
            if isinstance(o, list):
                return o
            if isinstance(o, bool):
                return o
            if isinstance(o, int):
                return Fp(o) if ty == FELT else o
            return o
        k = ty[0]
        if k == "int":
            n = ty[1]
            h = H(s.seed, seed)
            if n == "u8":
                return h % 256
            if n in ("u16",):
                return h % 65536
            if n in ("i16",):
                return h % 65536 - 32768
            if n == "i32":
                return h % 100 - 50
            if n in ("usize", "u32", None):
                return h % 7
            if n == "u64":
                w = (h >> 80) % 4
                return h % 9 if w < 2 else h % 2 ** 64 if w == 2 else h % 2 ** 33
            if n[0] == "i":
                return h % 1000 - 500
            return h % 1000
        if k == "felt":
            return Fp(H(s.seed, seed))
        if k == "poly":
            return Rf([H(s.seed, seed, i) % P for i in range(2 + H(s.seed, seed, "deg") % 5)])
        if k == "bool":
            return bool(H(s.seed, seed) & 1)
        if k == "tuple":
            return tuple(s.gen("%s.%d" % (seed, i), t) for i, t in enumerate(ty[1]))
        if k == "adt" and ty[1] == "Option" and ty[2]:
            o = s.oracle(seed + "?")
            some = bool(o) if o is not None else H(s.seed, seed, "some") % 3 != 0
            return En("Option", "Some", [s.gen(seed + ".some", ty[2][0])]) if some else En("Option", "None", [])
        if k == "adt" and ty[1] == "Result" and ty[2]:
            o = s.oracle(seed + "?")
            ok = bool(o) if o is not None else H(s.seed, seed, "ok") % 4 != 0
            return En("Result", "Ok", [s.gen(seed + ".ok", ty[2][0])]) if ok else \
                En("Result", "Err", [s.gen(seed + ".err", ty[2][1] if len(ty[2]) > 1 else UNK)])
        if k == "adt" and s.crate and ty[1] in s.crate.enums:
            it, m = s.crate.enums[ty[1]]
            from .front import Ctx
            vs = it["v"]
            o = s.oracle(seed + "?")
            v = vs[H(s.seed, seed, "var") % len(vs)]
            if o is not None:
                v = [x for x in vs if x["n"] == o][0]
            return En(ty[1], v["n"], [s.gen("%s.%s.%d" % (seed, v["n"], i), s.crate.ty(f["t"], Ctx(m, {}, ty)))
                                      for i, f in enumerate(v["f"])])
        if k == "adt" and s.crate and ty[1] in s.crate.structs:
            it, m = s.crate.structs[ty[1]]
            return St(ty[1], {(f["n"] or str(i)): s.gen("%s.%s" % (seed, f["n"] or str(i)),
                                                         s.crate.field_ty(ty, f["n"] or str(i)))
                              for i, f in enumerate(it["f"])})
        if k == "seq":
            n = ty[2]
            if not isinstance(n, int):
                o = s.oracle("len(" + seed + ")")
                n = o if o is not None else 2 + H(s.seed, seed, "len") % 3
            if n > MAXLOOP:
                raise Undecided("long sequence")
            return [s.gen("%s[%d]" % (seed, i), ty[1]) for i in range(n)]
        if k == "map":
            n = s.oracle("len(" + seed + ")")
            n = n if n is not None else 2 + H(s.seed, seed, "len") % 3
            d = {}
            for i in range(n):
                kk = s.gen("%s.key%d" % (seed, i), ty[1])
                d[s.ck(kk)] = (kk, s.gen("%s.val%d" % (seed, i), ty[2]))
            return Mp(d, False, len(ty) > 3 and str(ty[3]).startswith("Hash"))
        if k == "set":
            n = s.oracle("len(" + seed + ")")
            n = n if n is not None else 2 + H(s.seed, seed, "len") % 3
            d = {}
            for i in range(n):
                kk = s.gen("%s.key%d" % (seed, i), ty[1])
                d[s.ck(kk)] = (kk, True)
            return Mp(d, True, len(ty) > 2 and str(ty[2]).startswith("Hash"))
        return Obj(seed, ty)

    # ------------------------------------------------------------ canonical keys
    def ck(s, v):
        if isinstance(v, bool):
            return ("b", v)
        if isinstance(v, int):
            return ("n", v)
        if isinstance(v, Fp):
            return ("n", v.v)
        if isinstance(v, Fraction):
            return ("q", v)
        if isinstance(v, Rf):
            return v.ck()
        if isinstance(v, (list,)):
            return ("l",) + tuple(s.ck(x) for x in v)
        if isinstance(v, tuple):
            return ("t",) + tuple(s.ck(x) for x in v)
        if isinstance(v, St):
            return ("s",) + tuple((k, s.ck(v.f[k])) for k in sorted(v.f))
        if isinstance(v, En):
            return ("e", v.var) + tuple(s.ck(x) for x in v.a)
        if isinstance(v, Obj):
            return ("o", v.seed)
        if isinstance(v, str):
            return ("str", str(v))
        if isinstance(v, Mp):
            return ("m",) + tuple(sorted(((k, s.ck(x[1])) for k, x in v.d.items()), key=repr))
        if isinstance(v, Fn):
            # behaviour on probe arguments
            return ("f",) + tuple(s.ck(s.call(v, Obj("probe%d" % i))) for i in range(2))
        if v is None:
            return ("none",)
        return ("?", repr(v))

    def num(s, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Obj):
            g = s.oracle(v.seed)
            if isinstance(g, (int, Fp)):
                return g
            if v.ty[0] == "int":
                return s.gen(v.seed, v.ty)
            return Fp(H(s.seed, "num", v.seed))
        if isinstance(v, (En, St, list, tuple, Mp, str)):
            return Fp(H(s.seed, "num", s.ck(v)))
        return v

    def integer(s, v):
        v = s.num(v)
        if isinstance(v, Rf):
            v = s.fp(v)
        if isinstance(v, Fp):
            if v.v < 1 << 64:
                return v.v
            if P - v.v < 1 << 64:
                return v.v - P
            return v.v % 7
        if isinstance(v, Fraction):
            if v.denominator != 1:
                raise Undecided("fractional integer")
            return int(v)
        return v

    def truth(s, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Obj):
            return bool(H(s.seed, "truth", v.seed) & 1)
        if isinstance(v, (int, Fp)):
            return (v.v if isinstance(v, Fp) else v) != 0
        return bool(H(s.seed, "truth", s.ck(v)) & 1)

    def seq(s, v):
        if isinstance(v, list):
            return v
        if isinstance(v, Obj):
            if v.ty[0] == "seq":
                return s.gen(v.seed, v.ty)
            return s.gen(v.seed, ("seq", UNK, None))
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Mp):
            return s.entries(v)
        if isinstance(v, En) and v.name == "Option":
            return list(v.a)
        raise Undecided("not a sequence: %r" % (v,))

    def entries(s, m):
        if isinstance(m, Obj):
            return s.seq(Obj("entries(%s)" % m.seed))
        if not isinstance(m, Mp):
            return s.seq(m)
        ks = list(m.d.items())
        if m.hashed:
            ks.sort(key=lambda kv: H(s.hashseed or s.seed, "hash", kv[0]))
        else:
            ks.sort(key=lambda kv: s.order(kv[1][0]))
        return [x[0] if m.isset else (x[0], x[1]) for _, x in ks]

    def order(s, v):
        """total order used for sorting"""
        if isinstance(v, bool):
            return (0, int(v))
        if isinstance(v, (int, Fraction)):
            return (0, v)
        if isinstance(v, Fp):
            return (0, v.v)
        if isinstance(v, (list, tuple)):
            return (1, tuple(s.order(x) for x in v))
        if isinstance(v, En):
            return (2, v.var, tuple(s.order(x) for x in v.a))
        if isinstance(v, Obj):
            return (0, H(s.seed, "order", v.seed))
        if isinstance(v, St) and v.name == "Reverse":
            return Rev(s.order(list(v.f.values())[0]))
        if isinstance(v, St):
            return (4, v.name, tuple(s.order(x) for x in v.f.values()))
        return (3, repr(s.ck(v)))

    # ------------------------------------------------------------ evaluation
    def call(s, f, *args):
        for a in args:
            if not isinstance(f, Fn):
                raise Undecided("not a function")
            f = s.body(f.l, f.b, a)
        return f

    def body(s, l, env, a):
        h, b = l.args
        e = dict(env)
        e[h] = a
        return s.ev(b, e)

    def ev(s, t, env=None):
        if env is None:
            env = {}
        o = t.op
        if o == "int":
            n = t.args[0]
            return n if isinstance(n, int) else Fp(n.numerator * pow(n.denominator, P - 2, P))
        if o == "bool":
            return t.args[0]
        if o == "bv":
            return env.get(t.args[0], 0)
        bvs = s.bvs(t)
        if bvs:
            k = (t, tuple(s.small(env.get(h, 0)) for h in bvs))
        else:
            k = t
        r = s.memo.get(k, s)
        if r is not s:
            return r
        s.fuel -= 1
        if s.fuel < 0:
            raise Undecided("too large")
        if t in s.terms:
            r = s.terms[t]
        else:
            f = getattr(s, "t_" + o, None)
            if f is None:
                raise Undecided("operator " + o)
            r = f(t, env)
        s.memo[k] = r
        return r

    def small(s, v):
        return v if isinstance(v, (int, Fp)) else s.ck(v)

    _bv = {}

    def bvs(s, t):
        r = Ev._bv.get(t)
        if r is None:
            r = tuple(sorted(v.args[0] for v in s.freebv(t)))
            Ev._bv[t] = r
        return r

    _fb = {}

    def freebv(s, t):
        r = Ev._fb.get(t)
        if r is None:
            if t.op == "bv":
                r = frozenset([t])
            else:
                r = frozenset()
                for c in X.children(t):
                    r |= s.freebv(c)
                if t.op == "lam":
                    r = frozenset(v for v in r if v.args[0] != t.args[0])
            Ev._fb[t] = r
        return r

    # leaves
    def t_sym(s, t, env):
        n = t.args[0]
        if n == "FELT_BYTES":
            return s.bytes_len
        if n == "FIELD_BITS":
            o = s.oracle(n)
            return s.field_bits if o is None else o
        return s.gen(n, X.sym_type(t) or UNK)

    def t_str(s, t, env):
        return S_(t.args[0])

    def t_X(s, t, env):
        return Rf([0, 1])

    def t_inf(s, t, env):
        return INF

    def t_undef(s, t, env):
        return Obj("undef")

    def t_bot(s, t, env):
        return Obj("bot")

    def t_unsup(s, t, env):
        raise Undecided("unsupported construct: %s" % t.args[0])

    def t_py(s, t, env):
        raise Undecided("opaque value")

    # numbers
    def add(s, a, b):
        a, b = s.num(a), s.num(b)
        if isinstance(a, Rf) or isinstance(b, Rf):
            return radd(a, b)
        if isinstance(a, Fp) or isinstance(b, Fp):
            return Fp(s.fp(a).v + s.fp(b).v)
        return a + b

    def fp(s, v):
        v = s.num(v)
        if isinstance(v, Rf):
            v = v.red().norm()
            if isinstance(v, Rf):
                raise Undecided("polynomial used as a field element")
        if isinstance(v, Fp):
            return v
        if isinstance(v, Fraction):
            return Fp(v.numerator * pow(v.denominator, P - 2, P))
        return Fp(v)

    def mul(s, a, b):
        a, b = s.num(a), s.num(b)
        if isinstance(a, Rf) or isinstance(b, Rf):
            return rmul(a, b)
        if isinstance(a, Fp) or isinstance(b, Fp):
            return Fp(s.fp(a).v * s.fp(b).v)
        return a * b

    def pw(s, a, e):
        a, e = s.num(a), s.integer(e)
        if isinstance(a, Rf):
            if abs(e) > 2000:
                raise Undecided("degree")
            if e < 0:
                a, e = rinv(a), -e
            r = Fp(1)
            for _ in range(e):
                r = s.mul(r, a)
            return r
        if isinstance(a, Fp):
            return Fp(pow(a.v, e % (P - 1), P)) if a.v else Fp(0 if e > 0 else (1 if e == 0 else 0))
        if e < 0:
            if a == 0:
                return 0
            if abs(e) > 4096:
                return Fp(pow(a, e % (P - 1), P))
            return Fraction(a) ** e
        if abs(a) > 1 and e > 5000:
            return Fp(pow(a, e, P))
        return a ** e

    def isoff(s, a, env):
        try:
            return s.ev(a, env) == 0
        except Undecided:
            return False

    def t_poly(s, t, env):
        # is any atom a field element?
        tot = 0
        for m, c in t.args[0]:
            p = c
            # a term that its condition switches off has no value to ask for
            if len(m) > 1 and any(a.op == "ind" and s.isoff(a, env) for a, _ in m):
                continue
            for a, e in m:
                av = s.ev(a, env)
                ee = e if isinstance(e, int) else s.ev(e, env)
                p = s.mul(p, s.pw(av, ee))
            tot = s.add(tot, p)
        if isinstance(tot, Fraction) and tot.denominator == 1:
            tot = int(tot)
        return tot

    def t_idiv(s, t, env):
        a, b = s.integer(s.ev(t.args[0], env)), s.integer(s.ev(t.args[1], env))
        return a // b if b else Obj("div0")

    def t_mod(s, t, env):
        a, b = s.integer(s.ev(t.args[0], env)), s.integer(s.ev(t.args[1], env))
        return a % b if b else Obj("div0")

    def t_emb(s, t, env):
        v = s.ev(t.args[0], env)
        if isinstance(v, Obj):
            return Fp(H(s.seed, "emb", v.seed))
        return s.fp(v)

    def t_repr(s, t, env):
        v = s.num(s.ev(t.args[0], env))
        return v.v if isinstance(v, Fp) else v

    def t_root(s, t, env):
        n = s.integer(s.ev(t.args[0], env))
        if not 0 <= n <= 192:
            return Fp(H("root", n))
        return Fp(pow(3, (P - 1) >> n, P))

    def t_min(s, t, env):
        return min((s.ev(x, env) for x in t.args[0]), key=s.order)

    def t_max(s, t, env):
        return max((s.ev(x, env) for x in t.args[0]), key=s.order)

    def t_maxof(s, t, env):
        q = s.seq(s.ev(t.args[0], env))
        return max(q, key=s.order) if q else Obj("maxof[]")

    def t_minof(s, t, env):
        q = s.seq(s.ev(t.args[0], env))
        return min(q, key=s.order) if q else Obj("minof[]")

    def loopn(s, t, env):
        n = s.ev(t, env)
        if n is INF:
            return 400
        n = s.integer(n)
        if n > MAXLOOP:
            raise Undecided("loop bound")
        return max(n, 0)

    def t_sum(s, t, env):
        r = 0
        for i in range(s.loopn(t.args[0], env)):
            r = s.add(r, s.body(t.args[1], env, i))
        return r

    def t_prod(s, t, env):
        r = 1
        for i in range(s.loopn(t.args[0], env)):
            r = s.mul(r, s.body(t.args[1], env, i))
        return r

    def t_iter(s, t, env):
        n, v0, l = t.args
        n = s.loopn(n, env)
        # the states of a loop are kept: the state after i+1 steps starts from the one after i
        k = (v0, l) + tuple(s.small(env.get(h, 0)) for h in sorted(set(s.bvs(v0) or ()) | set(s.bvs(l) or ())))
        m, v = s.states.get(k, (0, None))
        if m > n or not m:
            m, v = 0, s.ev(v0, env)
        for i in range(m, n):
            f = s.body(l, env, i)
            v = s.call(f, v)
        s.states[k] = (n, v)
        return v

    def t_first(s, t, env):
        n, l = t.args
        n = s.ev(n, env)
        n = 1 << 200 if n is INF else s.integer(n)
        for i in range(min(n, 2000)):
            if s.truth(s.body(l, env, i)):
                return i
        if n > 2000:
            raise Undecided("unbounded search")
        return n

    # booleans
    def t_pos(s, t, env):
        v = s.num(s.ev(t.args[0], env))
        if isinstance(v, Fp):
            v = v.v if v.v < P // 2 else v.v - P
        return v > 0

    def t_eq0(s, t, env):
        v = s.num(s.ev(t.args[0], env))
        if isinstance(v, Rf):
            return not v.red().n
        return (v.v if isinstance(v, Fp) else v) == 0

    def t_eq(s, t, env):
        a = [s.ev(x, env) for x in t.args[0]]
        return all(s.ck(x) == s.ck(a[0]) for x in a)

    def t_and(s, t, env):
        for x in t.args[0]:
            if not s.truth(s.ev(x, env)):
                return False
        return True

    def t_or(s, t, env):
        for x in t.args[0]:
            if s.truth(s.ev(x, env)):
                return True
        return False

    def t_not(s, t, env):
        return not s.truth(s.ev(t.args[0], env))

    def t_all(s, t, env):
        n = s.ev(t.args[0], env)
        n = 400 if n is INF else s.integer(n)
        for i in range(min(n, 2000)):
            if not s.truth(s.body(t.args[1], env, i)):
                return False
        if n > 2000:
            raise Undecided("loop bound")
        return True

    def t_ind(s, t, env):
        return 1 if s.truth(s.ev(t.args[0], env)) else 0

    def t_isbit(s, t, env):
        return s.truth(s.ev(t.args[0], env))

    def t_ite(s, t, env):
        return s.ev(t.args[1] if s.truth(s.ev(t.args[0], env)) else t.args[2], env)

    # enums
    def variant(s, v):
        if isinstance(v, En):
            return v
        if isinstance(v, Obj):
            g = s.gen(v.seed, v.ty)
            if isinstance(g, En):
                return g
        return None

    def t_isv(s, t, env):
        v = s.ev(t.args[0], env)
        e = s.variant(v)
        if e is not None:
            return e.var == t.args[1]
        return bool(H(s.seed, "isv", s.ck(v), t.args[1]) & 1)

    def t_payload(s, t, env):
        v = s.ev(t.args[0], env)
        e = s.variant(v)
        if e is not None:
            if e.var == t.args[1] and t.args[2] < len(e.a):
                return e.a[t.args[2]]
            return Obj("undef")
        return s.typed("payload", t, [v, t.args[1], t.args[2]])

    def t_enum(s, t, env):
        return En(t.args[0], t.args[1], [s.ev(x, env) for x in t.args[2]])

    # aggregates
    def t_tuple(s, t, env):
        return tuple(s.ev(x, env) for x in t.args)

    def t_struct(s, t, env):
        return St(t.args[0], {k: s.ev(x, env) for k, x in t.args[1]})

    def t_field(s, t, env):
        v = s.ev(t.args[0], env)
        return s.getf(v, t.args[1], t)

    def getf(s, v, n, t=None):
        if isinstance(v, St):
            if n in v.f:
                return v.f[n]
        if isinstance(v, tuple) and n.isdigit() and int(n) < len(v):
            return v[int(n)]
        if isinstance(v, Obj):
            ty = s.crate.field_ty(v.ty, n) if s.crate else UNK
            if ty == UNK and t is not None:
                ty = X.type_hook(t) or UNK
            return s.gen("%s.%s" % (v.seed, n), ty)
        return s.typed("field", t, [v, n]) if t is not None else Obj("field?")

    def t_setf(s, t, env):
        v = s.ev(t.args[0], env)
        x = s.ev(t.args[2], env)
        if isinstance(v, St):
            d = dict(v.f)
            d[t.args[1]] = x
            return St(v.name, d)
        return St("setf", {"base": v, t.args[1]: x})

    # sequences
    def t_lst(s, t, env):
        return [s.ev(x, env) for x in t.args[0]]

    def t_arr(s, t, env):
        return [s.body(t.args[1], env, i) for i in range(s.loopn(t.args[0], env))]

    def t_flat(s, t, env):
        out = []
        for i in range(s.loopn(t.args[0], env)):
            out += s.seq(s.body(t.args[1], env, i))
        return out

    def t_cat(s, t, env):
        out = []
        for x in t.args[0]:
            out += s.seq(s.ev(x, env))
        return out

    def t_slice(s, t, env):
        q = s.seq(s.ev(t.args[0], env))
        lo, hi = s.integer(s.ev(t.args[1], env)), s.integer(s.ev(t.args[2], env))
        if 0 <= lo <= hi <= len(q):
            return q[lo:hi]
        return [Obj("oob")]

    def t_idx(s, t, env):
        q = s.ev(t.args[0], env)
        if isinstance(q, Mp):
            q = s.entries(q)
        i = s.integer(s.ev(t.args[1], env))
        q = s.seq(q)
        if 0 <= i < len(q):
            return q[i]
        return Obj("oob")

    def t_upd(s, t, env):
        q = list(s.seq(s.ev(t.args[0], env)))
        i = s.integer(s.ev(t.args[1], env))
        if 0 <= i < len(q):
            q[i] = s.ev(t.args[2], env)
        return q

    def t_len(s, t, env):
        v = s.ev(t.args[0], env)
        if isinstance(v, Mp):
            return len(v.d)
        if isinstance(v, str):
            return len(v)
        return len(s.seq(v))

    def t_sorted(s, t, env):
        q = list(s.seq(s.ev(t.args[0], env)))
        how = s.ev(t.args[1], env)
        if isinstance(how, str):
            return sorted(q, key=s.order)
        if isinstance(how, Fn):
            import functools

            def cmp(a, b):
                r = s.call(how, a, b)
                if isinstance(r, En):
                    return {"Less": -1, "Equal": 0, "Greater": 1}.get(r.var, 0)
                if isinstance(r, int):
                    return r
                raise Undecided("comparator")
            return sorted(q, key=functools.cmp_to_key(cmp))
        raise Undecided("sort")

    def t_uniq(s, t, env):
        q = s.seq(s.ev(t.args[0], env))
        f = s.ev(t.args[1], env) if len(t.args) > 1 else None
        out, seen = [], set()
        for x in q:
            k = s.ck(x if f is None else s.call(f, x))
            if k not in seen:
                seen.add(k)
                out.append(x)
        return out

    def t_lam(s, t, env):
        return Fn(t, env)

    # maps
    def mapval(s, v):
        if isinstance(v, Mp):
            return v
        if isinstance(v, Obj):
            if v.ty[0] in ("map", "set"):
                return s.gen(v.seed, v.ty)
        return None

    def kind(s, t):
        ty = X.type_hook(t) or UNK
        if ty[0] == "map":
            return len(ty) > 3 and str(ty[3]).startswith("Hash")
        if ty[0] == "set":
            return len(ty) > 2 and str(ty[2]).startswith("Hash")
        return True

    def t_mapnew(s, t, env):
        return Mp({}, False, '\'Hash' in t.args[0].args[0] if t.args else True)

    def t_setnew(s, t, env):
        return Mp({}, True, '\'Hash' in t.args[0].args[0] if t.args else True)

    def t_mapfrom(s, t, env):
        d = {}
        for p in s.seq(s.ev(t.args[0], env)):
            k, v = s.getf(p, "0"), s.getf(p, "1")
            d[s.ck(k)] = (k, v)
        return Mp(d, False, s.kind(t))

    def t_setfrom(s, t, env):
        d = {}
        for p in s.seq(s.ev(t.args[0], env)):
            d[s.ck(p)] = (p, True)
        return Mp(d, True, s.kind(t))

    def t_mapins(s, t, env):
        m = s.mapval(s.ev(t.args[0], env))
        if m is None:
            return s.typed("mapins", t, [s.ev(x, env) for x in t.args])
        k, v = s.ev(t.args[1], env), s.ev(t.args[2], env)
        d = dict(m.d)
        d[s.ck(k)] = (k, v)
        return Mp(d, False, m.hashed)

    def t_setins(s, t, env):
        m = s.mapval(s.ev(t.args[0], env))
        if m is None:
            return s.typed("setins", t, [s.ev(x, env) for x in t.args])
        k = s.ev(t.args[1], env)
        d = dict(m.d)
        d[s.ck(k)] = (k, True)
        return Mp(d, True, m.hashed)

    def t_mapext(s, t, env):
        m = s.mapval(s.ev(t.args[0], env))
        q = s.seq(s.ev(t.args[1], env))
        if m is None:
            return s.typed("mapext", t, [s.ev(x, env) for x in t.args])
        d = dict(m.d)
        for p in q:
            k, v = s.getf(p, "0"), s.getf(p, "1")
            d[s.ck(k)] = (k, v)
        return Mp(d, False, m.hashed)

    def t_setext(s, t, env):
        m = s.mapval(s.ev(t.args[0], env))
        q = s.seq(s.ev(t.args[1], env))
        if m is None:
            return s.typed("setext", t, [s.ev(x, env) for x in t.args])
        d = dict(m.d)
        for p in q:
            d[s.ck(p)] = (p, True)
        return Mp(d, True, m.hashed)

    def t_mapdel(s, t, env):
        m = s.mapval(s.ev(t.args[0], env))
        if m is None:
            return s.typed("mapdel", t, [s.ev(x, env) for x in t.args])
        d = dict(m.d)
        d.pop(s.ck(s.ev(t.args[1], env)), None)
        return Mp(d, m.isset, m.hashed)

    def t_mapget(s, t, env):
        m = s.mapval(s.ev(t.args[0], env))
        k = s.ev(t.args[1], env)
        if m is None:
            ty = X.type_hook(t) or UNK
            return s.gen("get(%s,%s)" % (s.name(s.ev(t.args[0], env)), s.name(k)), ty if ty != UNK else ("adt", "Option", (UNK,)))
        o = s.oracle("mapget")
        r = m.d.get(s.ck(k))
        return En("Option", "Some", [r[1]]) if r else En("Option", "None", [])

    def t_entries(s, t, env):
        return s.entries(s.ev(t.args[0], env))

    # bytes and bits
    def t_enc(s, t, env):
        kind, w, x = t.args
        w = s.integer(s.ev(w, env))
        v = s.num(s.ev(x, env))
        v = v.v if isinstance(v, Fp) else int(v)
        b = [(v >> (8 * i)) & 255 for i in range(w)]
        return b if kind == "le" else b[::-1]

    def t_dec(s, t, env):
        kind, b, w, sg = t.args
        q = [s.integer(x) for x in s.seq(s.ev(b, env))]
        if kind == "be":
            q = q[::-1]
        v = sum((x & 255) << (8 * i) for i, x in enumerate(q))
        if sg == "i" and v >> (8 * len(q) - 1) & 1:
            v -= 1 << (8 * len(q))
        ty = X.type_hook(t)
        return Fp(v) if ty == FELT else v

    def t_bit(s, t, env):
        return (s.integer(s.unfp(s.ev(t.args[0], env))) >> t.args[1]) & 1

    def unfp(s, v):
        v = s.num(v)
        return v.v if isinstance(v, Fp) else v

    def t_trunc(s, t, env):
        return int(s.unfp(s.ev(t.args[0], env))) & ((1 << t.args[1]) - 1)

    def t_wrapcast(s, t, env):
        v = int(s.unfp(s.ev(t.args[0], env)))
        n = t.args[1]
        from .front import WIDTH
        w = WIDTH[n]
        v &= (1 << w) - 1
        if n[0] == "i" and v >> (w - 1):
            v -= 1 << w
        return v

    def t_shr(s, t, env):
        return int(s.unfp(s.ev(t.args[0], env))) >> s.integer(s.ev(t.args[1], env))

    def bitop(s, t, env, f):
        r = None
        for x in sorted(t.args[0], key=X.key):
            v = s.truth(s.ev(x, env)) if False else s.unfp(s.ev(x, env))
            r = v if r is None else f(int(r), int(v))
        return r

    def t_band(s, t, env):
        return s.bitop(t, env, lambda a, b: a & b)

    def t_bor(s, t, env):
        return s.bitop(t, env, lambda a, b: a | b)

    def t_bxor(s, t, env):
        return s.bitop(t, env, lambda a, b: a ^ b)

    # polynomials in X
    def t_peval(s, t, env):
        p = s.num(s.ev(t.args[0], env))
        x = s.num(s.ev(t.args[1], env))
        if isinstance(x, Rf):
            r = Fp(0)
            for c in reversed(rf(p).coeffs()):
                r = s.add(s.mul(r, x), Fp(c))
            return r
        return rf(p).at(s.fp(x).v)

    def t_polyc(s, t, env):
        q = s.seq(s.ev(t.args[0], env))
        return Rf(strip([s.fp(c).v for c in q])).norm()

    def pcoeffs(s, t, env):
        return rf(s.num(s.ev(t, env))).coeffs()

    def t_coeffs(s, t, env):
        return [Fp(c) for c in s.pcoeffs(t.args[0], env)]

    def t_pevenpart(s, t, env):
        return Rf(strip(list(s.pcoeffs(t.args[0], env)[::2]))).norm()

    def t_poddpart(s, t, env):
        return Rf(strip(list(s.pcoeffs(t.args[0], env)[1::2]))).norm()

    def t_interp(s, t, env):
        v = [s.fp(x).v for x in s.seq(s.ev(t.args[0], env))]
        o = s.fp(s.ev(t.args[1], env)).v
        n = len(v)
        if n == 0:
            return Fp(0)
        if n & (n - 1) or n > 512 or not o:
            raise Undecided("interpolation over %d points" % n)
        w = pow(3, (P - 1) // n, P)
        wi, oi, ni = pow(w, P - 2, P), pow(o, P - 2, P), pow(n, P - 2, P)
        pw = [1]
        for _ in range(n - 1):
            pw.append(pw[-1] * wi % P)
        c, ok = [], ni
        for k in range(n):
            c.append(sum(v[j] * pw[j * k % n] for j in range(n)) * ok % P)
            ok = ok * oi % P
        return Rf(strip(c)).norm()

    # uninterpreted
    def name(s, v):
        if isinstance(v, Obj):
            return v.seed
        if isinstance(v, (int, Fp)) and not isinstance(v, bool):
            n = v.v if isinstance(v, Fp) else v
            return str(n)
        k = repr(s.ck(v))
        return k if len(k) < 40 else "#%x" % (H(k) >> 160)

    def typed(s, n, t, args):
        ty = X.type_hook(t) or UNK
        return s.gen("%s(%s)" % (n, ",".join(s.name(a) if not isinstance(a, (str, int)) or isinstance(a, bool) else str(a) for a in args)), ty)

    def t_chal(s, t, env):
        k = (t.args[0],) + tuple(s.small(s.ev(x, env)) for x in t.args[1:])
        if k in s.chal:
            return s.chal[k]
        return s.typed("chal", t, [S_(str(x)) for x in k])

    def t_call(s, t, env):
        n = t.args[0]
        f = s.funcs.get(n)
        if hasattr(f, "needs"):       # depends on these arguments only
            return f(s, *[s.ev(t.args[1 + i], env) for i in f.needs])
        a = [s.ev(x, env) for x in t.args[1:]]
        if f is not None:
            return f(s, *a)
        if n == "next_pow2":
            v = s.integer(a[0])
            return 1 << max(0, (max(v, 1) - 1).bit_length())
        if n == "log2" or n == "ilog2":
            v = s.integer(a[0])
            return max(v.bit_length() - 1, 0)
        if n == "trailing_zeros":
            v = s.integer(a[0])
            return (v & -v).bit_length() - 1 if v else 64
        if n == "count_ones":
            return bin(s.integer(a[0])).count("1")
        m = re.match(r"leading_zeros(\d+)$", n)
        if m:
            return int(m.group(1)) - s.integer(a[0]).bit_length()
        if n == "cmp":
            if len(a) == 2 and not any(isinstance(x, Obj) and False for x in a):
                x, y = s.order(a[0]), s.order(a[1])
                return En("Ordering", "Less" if x < y else "Greater" if x > y else "Equal", [])
        if n == "dedup":
            out = []
            for x in s.seq(a[0]):
                if not out or s.ck(out[-1]) != s.ck(x):
                    out.append(x)
            return out
        ty = X.type_hook(t) or UNK
        return s.gen("%s(%s)" % (n, ",".join(s.name(x) for x in a)), ty)

    def t_bcall(s, t, env):
        n = t.args[0]
        a = [s.ev(x, env) for x in t.args[1:]]
        f = s.funcs.get(n)
        if f is not None:
            return f(s, *a)
        if n == "lt":
            return s.order(a[0]) < s.order(a[1])
        if n == "is_pow2":
            v = s.integer(a[0])
            return v > 0 and v & (v - 1) == 0
        if n in ("set_has", "set_new"):
            m = s.mapval(a[0])
            if m is not None:
                h = s.ck(a[1]) in m.d
                return h if n == "set_has" else not h
        o = s.oracle("%s(%s)" % (n, ",".join(s.name(x) for x in a)))
        if o is not None:
            return bool(o)
        return bool(H(s.seed, n, [s.ck(x) for x in a]) & 1)

    # transcript
    def t_tr(s, t, env):
        """list of (kind, data) events; challenges are numbered by position"""
        out = []
        s.draws = {}
        s.run_tr(t, env, out)
        return [S_(repr(x)) for x in out]

    def run_tr(s, t, env, out):
        for e in t.args[0]:
            if e.op == "ev":
                if e.args[0] == "app":
                    out.append(("app", s.ck(s.ev(e.args[1], env))))
                else:
                    ch = e.args[1]
                    if isinstance(ch, T) and ch.op == "chal":
                        k = (ch.args[0],) + tuple(s.small(s.ev(x, env)) for x in ch.args[1:])
                        if k not in s.chal:
                            ty = X.type_hook(ch) or UNK
                            r = s.draws.get(e.args[0], 0)
                            s.chal[k] = s.gen("draw:%s:%d" % (e.args[0], r), ty)
                        s.draws[e.args[0]] = s.draws.get(e.args[0], 0) + 1
                        out.append(("draw", e.args[0]) + tuple(s.ck(s.ev(x, env)) for x in e.args[2:]))
                    else:
                        out.append(("draw", e.args[0], s.ck(s.ev(ch, env))))
            elif e.op == "evif":
                s.run_tr(e.args[1] if s.truth(s.ev(e.args[0], env)) else e.args[2], env, out)
            elif e.op == "evloop":
                n = s.loopn(e.args[0], env)
                for i in range(n):
                    h, b = e.args[1].args
                    e2 = dict(env)
                    e2[h] = i
                    s.run_tr(b, e2, out)
            elif e.op == "base":
                out.append(("base", s.ck(s.ev(e.args[0], env))))
            else:
                raise Undecided("event " + e.op)
        return out


class Verdict:
    def __init__(s, same, how, detail=""):
        s.same, s.how, s.detail = same, how, detail

    def __bool__(s):
        return s.same


def same(a, b, crate=None, over=(), n=6, pre=None, terms=None, mk_over=None):
    """do the terms denote the same function?  pre: precondition terms that must hold"""
    if a is b:
        return Verdict(True, "identical normal form")
    und = None
    done = 0
    for i in range(n * 8):
        ov = list(over) + (mk_over(i) if mk_over else [])
        e = Ev("r%d" % i, crate, ov, terms)
        try:
            if pre and not all(e.truth(e.ev(c)) for c in pre):
                continue
            va = e.ck(e.ev(a))
            vb = e.ck(e.ev(b))
        except (Undecided, RecursionError) as x:
            und = str(x)
            if und.startswith("unsupported"):
                break
            continue
        done += 1
        if va != vb:
            return Verdict(False, "fingerprints differ", "%s | %s" % (str(va)[:300], str(vb)[:300]))
        if done >= n:
            break
    if done >= max(2, n // 3):
        return Verdict(True, "equal fingerprints (%d random interpretations)" % done)
    return Verdict(None, "undecided", und or "no interpretation satisfies the precondition")
