"""Hash-consed value-flow terms in canonical form.

A term describes the value of an expression as a function of the inputs of the
analysed entry point.  Smart constructors keep terms in a normal form that does
not depend on how the program spells the computation: arithmetic is a
multivariate polynomial (Laurent, with symbolic exponents), conditions are sets of
conjuncts/disjuncts in negation normal form, sequences are literal lists, index
comprehensions and concatenations, loops are sums, products, quantifiers or
recurrences.  Two computations with the same normal form compute the same value.
"""
from fractions import Fraction
import hashlib
import sys

sys.setrecursionlimit(20000)

_tab = {}


class T:
    __slots__ = ("op", "args", "_key", "_h", "_fv", "__weakref__")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._key = None
        t._h = None
        t._fv = None
        _tab[k] = t
    return t


def key(t):
    """Deterministic structural key (independent of creation order)."""
    if t._key is None:
        h = hashlib.blake2b(digest_size=16)
        _feed(h, t.op)
        for a in t.args:
            _feed(h, a)
        t._key = h.digest()
    return t._key


def _feed(h, a):
    if isinstance(a, T):
        h.update(b"T" + key(a))
    elif isinstance(a, (frozenset,)):
        ks = []
        for x in a:
            g = hashlib.blake2b(digest_size=16)
            _feed(g, x)
            ks.append(g.digest())
        h.update(b"S" + b"".join(sorted(ks)) + b"]")
    elif isinstance(a, tuple):
        h.update(b"(")
        for x in a:
            _feed(h, x)
        h.update(b")")
    elif isinstance(a, str):
        h.update(b"s" + a.encode() + b"\0")
    elif isinstance(a, bool):
        h.update(b"b1" if a else b"b0")
    elif isinstance(a, (int, Fraction)):
        h.update(b"i" + str(a).encode() + b"\0")
    elif a is None:
        h.update(b"N")
    else:
        h.update(b"o" + str(getattr(a, "uid", id(a))).encode() + b"\0")


_ak = {}


def akey(t):
    """structural key that ignores the names of bound and fresh variables"""
    k = _ak.get(t)
    if k is None:
        if t.op == "bv" or (t.op == "sym" and "@" in t.args[0]):
            k = b"?" * 16
        else:
            h = hashlib.blake2b(digest_size=16)
            _feed(h, t.op)
            for a in (t.args[1:] if t.op == "lam" else t.args):
                _afeed(h, a)
            k = h.digest()
        _ak[t] = k
    return k


def _afeed(h, a):
    if isinstance(a, T):
        h.update(b"T" + akey(a))
    elif isinstance(a, frozenset):
        ks = []
        for x in a:
            g = hashlib.blake2b(digest_size=16)
            _afeed(g, x)
            ks.append(g.digest())
        h.update(b"S" + b"".join(sorted(ks)) + b"]")
    elif isinstance(a, tuple):
        h.update(b"(")
        for x in a:
            _afeed(h, x)
        h.update(b")")
    else:
        _feed(h, a)


def children(t):
    out = []

    def rec(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, (tuple, frozenset)):
            for x in a:
                rec(x)

    for a in t.args:
        rec(a)
    return out


# ---------------------------------------------------------------- leaves
def INT(n):
    if n.__class__ is not int and n.denominator == 1:
        n = int(n)
    return mk("int", n)


TRUE = mk("bool", True)
FALSE = mk("bool", False)
ZERO = INT(0)
ONE = INT(1)
INF = mk("inf")
UNIT = mk("tuple")


def BOOL(b):
    return TRUE if b else FALSE


def STR(s):
    return mk("str", s)


_types = {}


def sym(name, ty=None):
    t = mk("sym", name)
    if ty is not None:
        _types[t] = ty
    return t


_fresh = [0]


def fresh(pre="v", ty=None):
    _fresh[0] += 1
    return sym("%s@%d" % (pre, _fresh[0]), ty)


def sym_type(t):
    return _types.get(t)


# ---------------------------------------------------------------- binders
def height(t):
    """Number of nested binders inside t."""
    if t._h is None:
        h = 0
        for c in children(t):
            h = max(h, height(c))
        if t.op == "lam":
            h = t.args[0]
        t._h = h
    return t._h


def lam(v, body):
    """Abstract fresh symbol v in body."""
    h = height(body) + 1
    return mk("lam", h, subst(body, {v: mk("bv", h)}, _raw=True))


def app(l, arg):
    h, body = l.args
    return subst(body, {mk("bv", h): arg})


def open_lam(l, pre="i", ty=None):
    v = fresh(pre, ty)
    return v, app(l, v)


def fv(t):
    """set of symbols occurring in t"""
    if t._fv is None:
        s = set()
        if t.op in ("sym", "bv"):
            s.add(t)
        for c in children(t):
            s |= fv(c)
        t._fv = frozenset(s)
    return t._fv


BIG = 300
_size = {}


def size(t):
    """number of nodes counted as a tree, capped"""
    n = _size.get(t)
    if n is None:
        n = 1
        for c in children(t):
            n += size(c)
            if n >= 100000:
                n = 100000
                break
        _size[t] = n
    return n


def occurs(v, t):
    return v in fv(t)


def subst(t, m, _raw=False, _memo=None):
    if not m:
        return t
    memo = {} if _memo is None else _memo
    ms = set(m)
    pure = all(k.op in ("sym", "bv") for k in ms)

    def rec(t):
        r = m.get(t)
        if r is not None:
            return r
        if pure and not (fv(t) & ms):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "lam":
            h, body = t.args
            if _raw:
                nb = rec(body)
                r = mk("lam", h, nb)
            else:
                v = fresh("o")
                nb = subst(subst(body, {mk("bv", h): v}, _raw=True), m)
                r = lam(v, nb)
        elif not t.args:
            r = t
        else:
            r = rebuild(t.op, tuple(reca(a) for a in t.args), raw=_raw)
        memo[t] = r
        return r

    def reca(a):
        if isinstance(a, T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(reca(x) for x in a)
        if isinstance(a, frozenset):
            return frozenset(reca(x) for x in a)
        return a

    return rec(t)


def rebuild(op, args, raw=False):
    if raw:
        return mk(op, *args)
    f = _cons.get(op)
    if f is None:
        return mk(op, *args)
    return f(*args)


# ---------------------------------------------------------------- polynomials
IDEMP = ("ind", "bit")
NOMONO = frozenset()


def to_poly(t):
    """dict: mono(frozenset of (atom, exp)) -> Fraction"""
    if t.op == "int":
        return {frozenset(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "bool":
        return {NOMONO: 1} if t.args[0] else {}
    if t.op == "ite":
        c, a, b = t.args
        i = to_poly(ind(c))
        pa, pb = to_poly(a), to_poly(b)
        d = padd(pa, pb, -1)
        return padd(pmul(i, d), pb)
    return {frozenset([(t, 1)]): 1}


def qdiv(a, b):
    """exact rational division, an int whenever the result is integral"""
    r = Fraction(a) / b
    return int(r) if r.denominator == 1 else r


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return INT(c)
        if c == 1 and len(m) == 1:
            (a, e), = m
            if e == 1 and a.op != "poly":
                return a
    return mk("poly", frozenset(p.items()))


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + k * c
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = n
    return r


def _eadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ta = INT(a) if isinstance(a, int) else a
    tb = INT(b) if isinstance(b, int) else b
    r = add(ta, tb)
    if r.op == "int" and isinstance(r.args[0], int):
        return r.args[0]
    return r


def _parity(e):
    """exponent of -1"""
    r = {}
    for m, c in to_poly(e).items():
        if not isinstance(c, int) or any(not (isinstance(x, int) and x > 0) for _, x in m):
            return e
        if c % 2:
            r[m] = 1
    t = from_poly(r)
    return t.args[0] if t.op == "int" else t


def mono_mul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    co = 1
    for a, e in m2:
        if a in d:
            if a.op in IDEMP and e == 1 and d[a] == 1:
                continue
            n = _eadd(d[a], e)
            if a.op == "int" and a.args[0] == -1 and not isinstance(n, int):
                n = _parity(n)
            if n == 0:
                del d[a]
            elif a.op == "int" and isinstance(n, int):
                del d[a]
                co *= qpow(a.args[0], n)
            else:
                d[a] = n
        else:
            if a.op == "ind" and a.args[0].op == "isv":
                x, var = a.args[0].args
                for b in d:
                    if b.op == "ind" and b.args[0].op == "isv" and b.args[0].args[0] is x and b.args[0].args[1] != var:
                        return NOMONO, 0
            d[a] = e
    return frozenset(d.items()), co


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, k = mono_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2 * k
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
    return expand_atoms(r)


def expand_atoms(r):
    """A sum used as an atom with a positive exponent (after cancellation) is multiplied out."""
    for m in r:
        for a, e in m:
            if a.op == "poly" and isinstance(e, int) and e > 0:
                out = {}
                for m2, c2 in r.items():
                    q = {frozenset((x, y) for x, y in m2 if not (x.op == "poly" and isinstance(y, int) and y > 0)): c2}
                    for x, y in m2:
                        if x.op == "poly" and isinstance(y, int) and y > 0:
                            for _ in range(y):
                                q = pmul(q, dict(x.args[0]))
                    out = padd(out, q)
                return out
    return r


def _arith_seq(t):
    return t.op in ("lst", "arr", "cat", "slice", "flat")


def qpow(b, e):
    if isinstance(b, int) and e >= 0:
        return b ** e
    r = Fraction(b) ** e
    return int(r) if r.denominator == 1 else r


def add(*ts):
    r = {}
    for t in ts:
        r = padd(r, to_poly(t))
    return from_poly(r)


def sub(a, b):
    return from_poly(padd(to_poly(a), to_poly(b), -1))


def neg(a):
    return from_poly(padd({}, to_poly(a), -1))


def _cancel(p, q):
    """p a sum with >1 terms, q may contain p's atom with negative exponent everywhere"""
    if len(p) <= 1 or not q:
        return None
    base, lead = prim(p)
    bt = from_poly(base)
    out = {}
    for m, c in q.items():
        d = dict(m)
        e = d.get(bt)
        if e is None or not isinstance(e, int) or e >= 0:
            return None
        if e == -1:
            del d[bt]
        else:
            d[bt] = e + 1
        out[frozenset(d.items())] = c * lead
    return out


def mul(*ts):
    r = {NOMONO: 1}
    for t in ts:
        p = to_poly(t)
        c = _cancel(p, r)
        if c is None:
            c = _cancel(r, p)
        r = c if c is not None else pmul(r, p)
    return from_poly(r)


def prim(p):
    """normalise a sum up to a scalar: (poly with leading coefficient 1, leading coefficient)"""
    best = None
    for m, c in p.items():
        k = _mono_key(m)
        if best is None or k < best[0]:
            best = (k, c)
    lead = best[1]
    if lead == 1:
        return dict(p), lead
    return {m: qdiv(c, lead) for m, c in p.items()}, lead


_mk_cache = {}


def _mono_key(m):
    k = _mk_cache.get(m)
    if k is None:
        # constants last; independent of the names of bound variables as far as possible
        h = hashlib.blake2b(digest_size=16)
        _afeed(h, m)
        g = hashlib.blake2b(digest_size=16)
        _feed(g, m)
        k = (1, b"", b"") if not m else (0, h.digest(), g.digest())
        _mk_cache[m] = k
    return k


def power(b, e):
    """b ** e, e an int or integer term"""
    if isinstance(e, T) and e.op == "int" and isinstance(e.args[0], int):
        e = e.args[0]
    if isinstance(e, int):
        if e == 0:
            return ONE
        if e == 1:
            return b
        if b is INT(-1):
            return INT(1 if e % 2 == 0 else -1)
        if b.op == "int":
            if b.args[0] == 0:
                return ZERO if e > 0 else mk("poly", frozenset([(frozenset([(ZERO, e)]), 1)]))
            return INT(qpow(b.args[0], e))
    p = to_poly(b)
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        d = {}
        for a, x in m:
            if a.op in IDEMP and isinstance(e, int) and e > 0:
                d[a] = x
                continue
            n = _emul(x, e)
            d[a] = n
        r = {frozenset(d.items()): 1}
        if c != 1:
            if isinstance(e, int):
                r = {frozenset(d.items()): qpow(c, e)}
            else:
                r = pmul(r, {frozenset([(INT(c), e)]): 1})
        return from_poly(r)
    if isinstance(e, int) and 0 < e <= 8 and len(p) ** e <= 4000:
        r = {NOMONO: 1}
        for _ in range(e):
            r = pmul(r, p)
        return from_poly(r)
    base, lead = prim(p)
    bt = from_poly(base)
    if isinstance(e, int):
        return from_poly({frozenset([(bt, e)]): qpow(lead, e)})
    r = {frozenset([(bt, e)]): 1}
    if lead != 1:
        r = pmul(r, {frozenset([(INT(lead), e)]): 1})
    return from_poly(r)


def _emul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    ta = INT(a) if isinstance(a, int) else a
    tb = INT(b) if isinstance(b, int) else b
    r = mul(ta, tb)
    if r.op == "int" and isinstance(r.args[0], int):
        return r.args[0]
    return r


def inv(b):
    return power(b, -1)


def poly_cons(fs):
    """rebuild a polynomial after substitution inside its monomials"""
    r = {}
    for m, c in fs:
        q = {NOMONO: c}
        for a, e in m:
            q = pmul_t(q, power(a, e))
        r = padd(r, q)
    return from_poly(r)


def pmul_t(q, t):
    p = to_poly(t)
    c = _cancel(p, q)
    if c is None:
        c = _cancel(q, p)
    return c if c is not None else pmul(q, p)


def is_const(t):
    return t.op == "int"


def ival(t):
    return t.args[0] if t.op == "int" else None


# integer division / modulo
def idiv(a, b):
    if a.op == "int" and b.op == "int" and b.args[0] != 0:
        return INT(int(a.args[0]) // int(b.args[0]))
    if b is ONE:
        return a
    # exact division of every monomial
    pa, pb = to_poly(a), to_poly(b)
    if len(pb) == 1 and pa:
        (mb, cb), = pb.items()
        out = {}
        ok = True
        for m, c in pa.items():
            d = dict(m)
            for x, e in mb:
                if x in d and isinstance(d[x], int) and isinstance(e, int) and d[x] >= e:
                    d[x] -= e
                    if d[x] == 0:
                        del d[x]
                elif x in d and d[x] == e:
                    del d[x]
                elif x in d:
                    n = _eadd(d[x], _emul(e, -1))
                    d[x] = n
                else:
                    ok = False
            q = qdiv(c, cb)
            if q.denominator != 1:
                ok = False
            if not ok:
                break
            out[frozenset(d.items())] = q
        if ok:
            return from_poly(out)
    if b.op == "int" and b.args[0] > 1 and a.op == "idiv" and a.args[1].op == "int":
        return idiv(a.args[0], INT(a.args[1].args[0] * b.args[0]))
    return mk("idiv", a, b)


def imod(a, b):
    if a.op == "int" and b.op == "int" and b.args[0] != 0:
        return INT(int(a.args[0]) % int(b.args[0]))
    if b is ONE:
        return ZERO
    if a is b:
        return ZERO
    # remove multiples of b
    q = idiv(a, b)
    if q.op != "idiv":
        return ZERO
    if a.op == "mod" and a.args[1] is b:
        return a
    pa = to_poly(a)
    changed = False
    out = {}
    for m, c in pa.items():
        t = from_poly({m: c})
        if t.op == "int" and b.op == "int":
            k = t.args[0] % b.args[0]
            changed = changed or k != c
            if k:
                out[m] = out.get(m, 0) + k
            continue
        qq = idiv(t, b)
        if qq.op != "idiv":
            changed = True
            continue
        # (x mod b) inside a sum
        if len(m) == 1 and c.denominator == 1:
            (x, e), = m
            if e == 1 and x.op == "mod" and x.args[1] is b:
                changed = True
                out = padd(out, to_poly(x.args[0]), c)
                continue
        out[m] = out.get(m, 0) + c
    if changed:
        return imod(from_poly(out), b)
    return mk("mod", a, b)


# ---------------------------------------------------------------- booleans
def pos(d):
    """d > 0 over the integers"""
    if d.op == "int":
        return BOOL(d.args[0] > 0)
    if d.op == "inf":
        return TRUE
    p = to_poly(d)
    # single indicator forms
    if all(m and all(a.op in IDEMP for a, _ in m) or not m for m in p):
        r = _ind_pos(p)
        if r is not None:
            return r
    # divide by content (gcd of non constant coefficients)
    from math import gcd

    g = 0
    for m, c in p.items():
        if m:
            if c.denominator != 1:
                g = 0
                break
            g = gcd(g, abs(int(c)))
    if g > 1:
        k = p.get(frozenset(), 0)
        if k.denominator == 1:
            # g*x + k > 0  <=>  x > -k/g  <=> x >= floor(-k/g)+1  <=> x - floor(-k/g) > 0
            fl = (-int(k)) // g
            q = {m: qdiv(c, g) for m, c in p.items() if m}
            if fl != 0:
                q[frozenset()] = -fl
            return pos(from_poly(q))
    if _nonneg_poly(p) and p.get(frozenset(), 0) > 0:
        return TRUE
    if POSITIVE and _pos_poly(p):
        return TRUE
    if _nonneg_poly(padd({}, p, -1)):
        return FALSE
    return mk("pos", d)


def _ind_pos(p):
    """polynomial in 0/1 atoms: enumerate when few"""
    atoms = set()
    for m in p:
        for a, _ in m:
            atoms.add(a)
    if len(atoms) > 4:
        return None
    atoms = sorted(atoms, key=key)
    clauses = []
    n = len(atoms)
    res = []
    for k in range(1 << n):
        val = {a: (k >> i) & 1 for i, a in enumerate(atoms)}
        s = 0
        for m, c in p.items():
            t = c
            for a, e in m:
                t *= val[a]
            s += t
        res.append(s > 0)
    return _from_table(atoms, res)


def _atom_cond(a):
    return a.args[0] if a.op == "ind" else mk("isbit", a)


def _from_table(atoms, res):
    if all(res):
        return TRUE
    if not any(res):
        return FALSE
    a = atoms[0]
    r0 = _from_table(atoms[1:], res[0::2]) if len(atoms) > 1 else BOOL(res[0])
    r1 = _from_table(atoms[1:], res[1::2]) if len(atoms) > 1 else BOOL(res[1])
    return ite(_atom_cond(a), r1, r0)


NONNEG_OPS = {"len", "mod", "ind", "bit", "byte", "min_nn", "repr"}


def nonneg_atom(a):
    if a.op in NONNEG_OPS:
        return True
    if a.op == "int":
        return a.args[0] >= 0
    if a.op == "sym":
        ty = _types.get(a)
        return bool(ty) and ty[0] == "int" and bool(ty[1]) and ty[1][0] == "u"
    if a.op == "idiv":
        return nonneg(a.args[0]) and nonneg(a.args[1])
    if a.op in ("min",):
        return all(nonneg(x) for x in a.args[0])
    if a.op in ("max",):
        return any(nonneg(x) for x in a.args[0])
    if a.op == "sum":
        v, b = open_lam(a.args[1], "i", ("int", "usize"))
        return nonneg(b)
    if a.op in ("field", "call", "idx", "payload", "dec"):
        ty = type_hook(a)
        return bool(ty) and ty[0] == "int" and bool(ty[1]) and ty[1][0] == "u"
    return False


type_hook = lambda t: None


CHAL_TY = {}     # challenge id -> type


def set_type_hook(f):
    global type_hook
    type_hook = f


POSITIVE = set()      # symbols known to be positive integers


def _pos_poly(p):
    return bool(p) and _nonneg_poly(p) and any(all(a in POSITIVE for a, _ in m) for m in p)


def _nonneg_poly(p):
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            if not nonneg_atom(a):
                return False
    return True


def nonneg(t):
    if t.op == "inf":
        return True
    return _nonneg_poly(to_poly(t))


def lt(a, b):
    if b.op == "inf":
        return TRUE
    return pos(sub(b, a))


def le(a, b):
    if b.op == "inf":
        return TRUE
    return pos(add(b, neg(a), ONE))


def is_bool(t):
    return t.op in ("bool", "pos", "eq0", "eq", "and", "or", "not", "all", "isv", "isbit", "bcall")


def negate(c):
    o = c.op
    if o == "bool":
        return BOOL(not c.args[0])
    if o == "not":
        return c.args[0]
    if o == "pos":
        return pos(sub(ONE, c.args[0]))
    if o == "and":
        return Or(*[negate(x) for x in c.args[0]])
    if o == "or":
        return And(*[negate(x) for x in c.args[0]])
    if o == "ite":
        return ite(c.args[0], negate(c.args[1]), negate(c.args[2]))
    return mk("not", c)


def _compl(s):
    for x in s:
        if negate(x) in s:
            return True
    return False


def _exclusive(out):
    """one value has one variant: is(x,A) & is(x,B) is false, is(x,A) implies not is(x,B)"""
    pos_ = {}
    for c in out:
        if c.op == "isv":
            if c.args[0] in pos_:
                return None
            pos_[c.args[0]] = c.args[1]
    if pos_:
        return {c for c in out if not (c.op == "not" and c.args[0].op == "isv" and c.args[0].args[0] in pos_)}
    return out


def And(*cs):
    out = set()
    st = list(cs)
    while st:
        c = st.pop()
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.op == "and":
            st.extend(c.args[0])
        elif c.op == "int":
            if c.args[0] == 0:
                return FALSE
        else:
            out.add(c)
    if not out:
        return TRUE
    if _compl(out):
        return FALSE
    out = _exclusive(out)
    if out is None:
        return FALSE
    # eq0 const contradictions on the same linear form
    out = _pos_merge(out)
    if out is None:
        return FALSE
    # absorption
    res = set(out)
    for c in out:
        if c.op == "or":
            if any(x in out for x in c.args[0]):
                res.discard(c)
            else:
                # remove disjuncts contradicted by other conjuncts
                keep = frozenset(x for x in c.args[0] if negate(x) not in out)
                if len(keep) < len(c.args[0]):
                    res.discard(c)
                    return And(Or(*keep), *res)
    out = res
    if len(out) == 1:
        return next(iter(out))
    return mk("and", frozenset(out))


def _pos_merge(out):
    """merge d+c1>0 and d+c2>0; detect contradictions d>0 and -d+k>0"""
    by = {}
    res = set(out)
    for c in out:
        if c.op == "pos":
            p = to_poly(c.args[0])
            k = p.pop(frozenset(), 0)
            t = from_poly(p)
            if t in by:
                o, ko = by[t]
                if k < ko:
                    res.discard(o)
                    by[t] = (c, k)
                else:
                    res.discard(c)
            else:
                by[t] = (c, k)
    for t, (c, k) in by.items():
        nt = neg(t)
        if nt in by:
            # t + k > 0 and -t + k2 > 0  => -k < t < k2 ; empty if k2 - (-k) <= 1
            k2 = by[nt][1]
            if k2 + k <= 1:
                return None
    # eq0 of affine form against pos
    for c in list(res):
        if c.op == "eq0":
            p = to_poly(c.args[0])
            k = p.pop(frozenset(), 0)
            t = from_poly(p)
            # t = -k
            if t in by and not (-k + by[t][1] > 0):
                return None
            nt = neg(t)
            if nt in by and not (k + by[nt][1] > 0):
                return None
    eqs = {}
    for c in res:
        if c.op == "eq0":
            p = to_poly(c.args[0])
            k = p.pop(frozenset(), 0)
            t = from_poly(p)
            if t in eqs and eqs[t] != k:
                return None
            eqs[t] = k
    return res


def Or(*cs):
    out = set()
    st = list(cs)
    while st:
        c = st.pop()
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.op == "or":
            st.extend(c.args[0])
        else:
            out.add(c)
    if not out:
        return FALSE
    if _compl(out):
        return TRUE
    res = set(out)
    for c in out:
        if c.op == "and":
            if any(x in out for x in c.args[0]):
                res.discard(c)
            else:
                keep = frozenset(x for x in c.args[0] if negate(x) not in out)
                if len(keep) < len(c.args[0]):
                    res.discard(c)
                    return Or(And(*keep), *res)
    out = res
    if len(out) == 1:
        return next(iter(out))
    # common conjunct factoring: (a&b)|(a&c) = a&(b|c)
    if all(c.op == "and" for c in out):
        common = None
        for c in out:
            common = set(c.args[0]) if common is None else common & c.args[0]
        if common:
            return And(*common, Or(*[And(*(set(c.args[0]) - common)) for c in out]))
    return mk("or", frozenset(out))


NONNUM = ("lst", "arr", "cat", "slice", "flat", "tuple", "struct", "enum", "str", "enc", "py", "mapfrom", "mapins", "mapnew")


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return And(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "struct" and b.op == "struct" and a.args[0] == b.args[0]:
        da, db = dict(a.args[1]), dict(b.args[1])
        return And(*[eq(da[k], db[k]) for k in da])
    if a.op == "enum" and b.op == "enum":
        if a.args[:2] != b.args[:2]:
            return FALSE
        return And(*[eq(x, y) for x, y in zip(a.args[2], b.args[2])])
    if a.op == "lst" and b.op == "lst":
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        return And(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    if a.op == "str" and b.op == "str":
        return BOOL(a.args[0] == b.args[0])
    if b.op == "enum" and a.op != "enum":
        a, b = b, a
    if a.op == "enum":
        if b.op == "ite":
            c, x, y = b.args
            return ite(c, eq(a, x), eq(a, y))
        return And(isv(b, a.args[1]), *[eq(x, payload(b, a.args[1], i)) for i, x in enumerate(a.args[2])])
    if is_bool(a) or is_bool(b):
        if a.op == "bool":
            return b if a.args[0] else negate(b)
        if b.op == "bool":
            return a if b.args[0] else negate(a)
        return Or(And(a, b), And(negate(a), negate(b)))
    if a.op in NONNUM or b.op in NONNUM:
        return mk("eq", frozenset([a, b]))
    return eq0(sub(a, b))


def eq0(d):
    if d.op == "int":
        return BOOL(d.args[0] == 0)
    p = to_poly(d)
    if POSITIVE and _pos_poly(p):
        return FALSE
    if p and all(all(a.op in IDEMP for a, _ in m) for m in p):
        atoms = set(a for m in p for a, _ in m)
        if len(atoms) <= 4:
            atoms = sorted(atoms, key=key)
            res = []
            for k in range(1 << len(atoms)):
                val = {a: (k >> i) & 1 for i, a in enumerate(atoms)}
                s = 0
                for m, c in p.items():
                    t = c
                    for a, e in m:
                        t *= val[a]
                    s += t
                res.append(s == 0)
            return _from_table(atoms, res)
    # nonneg poly with a positive constant can not vanish
    if _nonneg_poly(p) and p.get(frozenset(), 0) > 0:
        return FALSE
    q = padd({}, p, -1)
    if _nonneg_poly(q) and q.get(frozenset(), 0) > 0:
        return FALSE
    base, _ = prim(p)
    # a nonneg single atom: x == 0  <=>  not (x > 0)
    t = from_poly(base)
    if _nonneg_poly(base) and len(base) == 1:
        return pos(sub(ONE, t))
    return mk("eq0", t)


def ind(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    o = c.op
    if o == "not":
        return sub(ONE, ind(c.args[0]))
    if o == "isbit":
        return c.args[0]
    if o == "and":
        return mul(*[ind(x) for x in c.args[0]])
    if o == "or":
        r = ONE
        for x in c.args[0]:
            r = mul(r, sub(ONE, ind(x)))
        return sub(ONE, r)
    if o == "pos":
        n = negate(c)
        if n.op == "pos" and key(n) < key(c):
            return sub(ONE, mk("ind", n))
        return mk("ind", c)
    if o == "ite":
        a = ind(c.args[0])
        return add(mul(a, ind(c.args[1])), mul(sub(ONE, a), ind(c.args[2])))
    return mk("ind", c)


NUM_OPS = ("int", "poly", "sum", "prod", "ind", "bit", "len", "mod", "idiv", "emb")


def _special_case(c, a, b):
    """if x == v then f(v) else f(x) is f(x)"""
    if a.op == "bool" or b.op == "bool" or size(a) + size(b) > 400:
        return None
    if c.op == "pos":
        p = to_poly(c.args[0])
        for one, eqb, oth in ((0, b, a), (1, a, b)):
            if len(p) != 1 + one or one and p.get(NOMONO) != 1:
                continue
            for m, k in p.items():
                if m and k == (-1 if one else 1) and len(m) == 1:
                    (x, e), = m
                    if e == 1 and x.op not in ("ind", "bit") and nonneg_atom(x) and x.op != "pos":
                        if contains(oth, x) and subst(oth, {x: ZERO}) is eqb:
                            return oth
    return None


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "pos":
        n = negate(c)
        if n.op == "pos" and key(n) < key(c):
            return ite(n, b, a)
    if c.op == "or" or (c.op == "and" and False):
        # canonical polarity between and/or of negations
        n = negate(c)
        if n.op == "and":
            return ite(n, b, a)
    # simplify nested on the same condition
    if size(a) < BIG:
        a = assume(a, c, True)
    if size(b) < BIG:
        b = assume(b, c, False)
    if a is b:
        return a
    r = _special_case(c, a, b)
    if r is not None:
        return r
    if a.op == "bool" or b.op == "bool" or (is_bool(a) and is_bool(b)):
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(negate(c), b)
        if b is TRUE:
            return Or(negate(c), a)
        if b is FALSE:
            return And(c, a)
        if is_bool(a) and is_bool(b):
            # canonical: (c&a)|(!c&b)
            if negate(a) is b:
                pass
            return mk("ite", c, a, b)
    if a.op in NUM_OPS or b.op in NUM_OPS:
        if a.op not in NONNUM and b.op not in NONNUM and not is_bool(a) and not is_bool(b) and a.op != "inf" and b.op != "inf":
            i = to_poly(ind(c))
            pa, pb = to_poly(a), to_poly(b)
            return from_poly(padd(pmul(i, padd(pa, pb, -1)), pb))
    # struct/tuple componentwise
    if a.op == "struct" and b.op == "struct" and a.args[0] == b.args[0]:
        da, db = dict(a.args[1]), dict(b.args[1])
        if set(da) == set(db):
            return mk("struct", a.args[0], tuple((k, ite(c, da[k], db[k])) for k in da))
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return mk("tuple", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "enum" and b.op == "enum" and a.args[:2] == b.args[:2]:
        return enum(a.args[0], a.args[1], [ite(c, x, y) for x, y in zip(a.args[2], b.args[2])])
    if a.op == "lst" and b.op == "lst" and len(a.args[0]) == len(b.args[0]):
        return lst([ite(c, x, y) for x, y in zip(a.args[0], b.args[0])])
    if a.op == "arr" and b.op == "arr" and a.args[0] is b.args[0]:
        v = fresh("i", ("int", "usize"))
        return arr(a.args[0], lam(v, ite(c, app(a.args[1], v), app(b.args[1], v))))
    # sequences: common prefix
    if a.op in ("lst", "cat", "arr", "flat") or b.op in ("lst", "cat", "arr", "flat"):
        pa, pb = parts(a), parts(b)
        if pa is not None and pb is not None:
            k = 0
            while k < len(pa) and k < len(pb) and pa[k] is pb[k]:
                k += 1
            # literal lists sharing a prefix
            j = 0
            while j < min(len(pa), len(pb)) - k and pa[len(pa) - 1 - j] is pb[len(pb) - 1 - j]:
                j += 1
            if k or j:
                ra = cat(pa[k:len(pa) - j])
                rb = cat(pb[k:len(pb) - j])
                return cat(pa[:k] + [ite(c, ra, rb)] + pa[len(pa) - j:])
            if pa and pb and pa[0].op == "lst" and pb[0].op == "lst":
                xa, xb = pa[0].args[0], pb[0].args[0]
                k = 0
                while k < len(xa) and k < len(xb) and xa[k] is xb[k]:
                    k += 1
                if k:
                    ra = cat([lst(xa[k:])] + pa[1:])
                    rb = cat([lst(xb[k:])] + pb[1:])
                    return cat([lst(xa[:k]), ite(c, ra, rb)])
    # eta for enums
    if c.op == "isv":
        x, var = c.args
        r = _eta(x, var, a, b)
        if r is not None:
            return r
    return mk("ite", c, a, b)


ENUMS = {"Option": ["Some", "None"], "Result": ["Ok", "Err"]}


def _eta(x, var, a, b):
    def is_copy(t, v):
        if t is x:
            return True
        return t.op == "enum" and t.args[1] == v and all(
            y is payload(x, v, i) for i, y in enumerate(t.args[2]))

    if not is_copy(a, var):
        return None
    if b is x:
        return x
    if b.op == "enum":
        vs = ENUMS.get(b.args[0])
        if vs and len(vs) == 2 and b.args[1] != var and is_copy(b, b.args[1]):
            return x
    return None


_as_memo = {}


def assume(t, c, val):
    """simplify t knowing condition c has truth value val (top-level rewriting)"""
    if t is c:
        return BOOL(val)
    k = (t, c, val)
    r = _as_memo.get(k)
    if r is not None:
        return r
    r = _assume(t, c, val)
    _as_memo[k] = r
    return r


def _assume(t, c, val):
    conj = []
    if val and c.op == "and":
        conj = [(x, True) for x in c.args[0]]
    elif not val and c.op == "or":
        conj = [(x, False) for x in c.args[0]]
    if conj:
        for x, v in conj:
            t = assume(t, x, v)
        return t
    if c.op == "not":
        return assume(t, c.args[0], not val)
    m = {c: BOOL(val)}
    n = negate(c)
    m[n] = BOOL(not val)
    ic = mk("ind", c)
    m[ic] = ONE if val else ZERO
    inn = mk("ind", n)
    m[inn] = ZERO if val else ONE
    if c.op == "isbit":
        m[c.args[0]] = ONE if val else ZERO
    if c.op == "isv":
        x, var = c.args
        if val:
            for o in variants_of(x):
                if o != var:
                    m[mk("isv", x, o)] = FALSE
        else:
            vs = variants_of(x)
            if len(vs) == 2 and var in vs:
                o = [v for v in vs if v != var][0]
                m[mk("isv", x, o)] = TRUE
    if not any(_contains(t, k2) for k2 in m):
        return t
    return subst(t, m)


_cont_memo = {}


def _contains(t, k):
    if t is k:
        return True
    kk = (t, k)
    r = _cont_memo.get(kk)
    if r is None:
        fk = fv(k)
        if fk and not (fk <= fv(t)):
            r = False
        else:
            r = any(_contains(c, k) for c in children(t))
        _cont_memo[kk] = r
    return r


contains = _contains
_variant_hook = [lambda x: []]


def variants_of(x):
    return _variant_hook[0](x)


# ---------------------------------------------------------------- enums
def enum(name, var, args=()):
    return mk("enum", name, var, tuple(args))


def Some(x):
    return enum("Option", "Some", [x])


NONE = enum("Option", "None")


def Ok(x):
    return enum("Result", "Ok", [x])


def Err(x):
    return enum("Result", "Err", [x])


def isv(x, var):
    if x.op == "enum":
        return BOOL(x.args[1] == var)
    if x.op == "ite":
        c, a, b = x.args
        return ite(c, isv(a, var), isv(b, var))
    if var in ("None", "Err"):
        return negate(isv(x, "Some" if var == "None" else "Ok"))
    vs = variants_of(x)
    if vs and len(vs) == 2 and var == vs[1]:
        return negate(mk("isv", x, vs[0]))
    return mk("isv", x, var)


def payload(x, var, i=0):
    if x.op == "enum":
        if x.args[1] == var and i < len(x.args[2]):
            return x.args[2][i]
        return mk("undef")
    if x.op == "ite":
        c, a, b = x.args
        if isv(a, var) is FALSE:
            return payload(b, var, i)
        if isv(b, var) is FALSE:
            return payload(a, var, i)
        return ite(c, payload(a, var, i), payload(b, var, i))
    return mk("payload", x, var, i)


# ---------------------------------------------------------------- structs
def struct(name, fs):
    return mk("struct", name, tuple(sorted(fs.items())))


def field(x, n):
    if x.op == "struct":
        for k, v in x.args[1]:
            if k == n:
                return v
    if x.op == "tuple" and n.isdigit() and int(n) < len(x.args):
        return x.args[int(n)]
    if x.op == "ite":
        c, a, b = x.args
        return ite(c, field(a, n), field(b, n))
    return mk("field", x, n)


def set_field(x, n, v):
    if x.op == "struct":
        d = dict(x.args[1])
        d[n] = v
        return struct(x.args[0], d)
    if x.op == "tuple":
        l = list(x.args)
        l[int(n)] = v
        return mk("tuple", *l)
    return mk("setf", x, n, v)


# ---------------------------------------------------------------- sequences
UNROLL = 128


def lst(xs):
    return mk("lst", tuple(xs))


EMPTY = lst(())


def arr(n, l):
    k = ival(n)
    if k is not None and 0 <= k <= UNROLL:
        return lst([app(l, INT(i)) for i in range(int(k))])
    # eta: idx(s, i) for all i < len(s)
    v = fresh("i", ("int", "usize"))
    b = app(l, v)
    s, off = _as_idx(b, v)
    if s is not None and not occurs(v, s):
        return slc(s, off, add(off, n))
    return mk("arr", n, lam(v, b))


def _as_idx(b, v):
    if b.op == "idx":
        s, i = b.args
        d = sub(i, v)
        if not occurs(v, d) and not occurs(v, s):
            return s, d
    return None, None


def arr_f(n, f, ty=("int", "usize")):
    v = fresh("i", ty)
    return arr(n, lam(v, f(v)))


def flat(n, l):
    k = ival(n)
    if k is not None and 0 <= k <= UNROLL:
        return cat([app(l, INT(i)) for i in range(int(k))])
    v = fresh("i", ("int", "usize"))
    b = app(l, v)
    if b.op == "lst" and len(b.args[0]) == 1:
        return arr(n, lam(v, b.args[0][0]))
    if b.op == "lst" and not b.args[0]:
        return EMPTY
    return mk("flat", n, lam(v, b))


def parts(s):
    if s.op == "cat":
        return list(s.args[0])
    if s.op == "lst":
        return [s] if s.args[0] else []
    return [s]


def cat(ps):
    out = []
    for p in ps:
        for q in parts(p):
            if q.op == "lst" and out and out[-1].op == "lst":
                out[-1] = lst(out[-1].args[0] + q.args[0])
            elif q.op == "lst" and not q.args[0]:
                continue
            else:
                if out and q.op == "slice" and out[-1].op == "slice" and q.args[0] is out[-1].args[0] and q.args[1] is out[-1].args[2]:
                    out[-1] = slc(q.args[0], out[-1].args[1], q.args[2])
                    continue
                if q.op == "arr" and ival(q.args[0]) == 0:
                    continue
                out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


_len_hook = [lambda t: None]


MAPTY = {}


def mapnew(ty):
    """empty map or set of the type"""
    MAPTY.setdefault(repr(ty), ty)
    return mk("mapnew" if ty[0] == "map" else "setnew", STR(repr(ty)))


def length(s):
    o = s.op
    if o == "lst":
        return INT(len(s.args[0]))
    if o == "arr":
        return s.args[0]
    if o == "cat":
        return add(*[length(p) for p in s.args[0]])
    if o == "slice":
        return sub(s.args[2], s.args[1])
    if o == "flat":
        v = fresh("i", ("int", "usize"))
        return Sum(s.args[0], lam(v, length(app(s.args[1], v))))
    if o == "enc":
        return s.args[1]
    if o in ("upd", "sorted", "setslice", "filled"):
        return length(s.args[0])
    if o == "ite":
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if o == "entries":
        return mk("len", s.args[0])
    if o in ("mapnew", "setnew"):
        return ZERO
    r = _len_hook[0](s)
    if r is not None:
        return r
    return mk("len", s)


def idx(s, i):
    o = s.op
    k = ival(i)
    if o == "lst":
        if k is not None and 0 <= k < len(s.args[0]):
            return s.args[0][int(k)]
        if k is None and s.args[0] and all(x is s.args[0][0] for x in s.args[0]):
            return s.args[0][0]
        return mk("idx", s, i)
    if o == "arr":
        return app(s.args[1], i)
    if o == "slice":
        return idx(s.args[0], add(s.args[1], i))
    if o == "cat":
        off = ZERO
        for p in s.args[0]:
            l = length(p)
            d = sub(i, off)
            # inside this part?
            if lt(d, l) is TRUE and le(ZERO, d) is TRUE:
                return idx(p, d)
            if le(l, d) is TRUE:
                off = add(off, l)
                continue
            if off is ZERO and p.op == "ite":
                c, a, b = p.args
                rest = list(s.args[0])[1:]
                return ite(c, idx(cat([a] + rest), i), idx(cat([b] + rest), i))
            break
        else:
            return mk("idx", s, i)
        if off is not ZERO:
            j = 0
            acc = ZERO
            ps = list(s.args[0])
            while acc is not off:
                acc = add(acc, length(ps[j]))
                j += 1
            return idx(cat(ps[j:]), sub(i, off))
        return mk("idx", s, i)
    if o == "upd":
        b, j, v = s.args
        e = eq(i, j)
        if e is TRUE:
            return v
        if e is FALSE or ne_int(i, j):
            return idx(b, i)
        return ite(e, v, idx(b, i))
    if o == "ite":
        return ite(s.args[0], idx(s.args[1], i), idx(s.args[2], i))
    if o == "flat":
        m = None
        v = fresh("i", ("int", "usize"))
        body = app(s.args[1], v)
        m = length(body)
        if not occurs(v, m):
            q, r = divide(i, m)
            if q is not None:
                return idx(app(s.args[1], q), r)
    if o == "enc":
        r = enc_byte(s, i)
        if r is not None:
            return r
    return mk("idx", s, i)


def ne_int(i, j):
    d = sub(i, j)
    return d.op == "int" and d.args[0] != 0


def divide(i, m):
    """i = q*m + r with r free of m-multiples (r assumed a valid position below m)"""
    if m.op == "int":
        mv = m.args[0]
        p = to_poly(i)
        q, r = {}, {}
        for mm, c in p.items():
            if not mm:
                r[mm] = c
            elif c.denominator == 1 and int(c) % int(mv) == 0:
                q[mm] = qdiv(c, mv)
            else:
                r[mm] = c
        k = r.get(frozenset(), 0)
        if k.denominator == 1:
            kq, kr = divmod(int(k), int(mv))
            r[frozenset()] = kr
            q[frozenset()] = kq
        if any(mm for mm in r if mm):
            rt = from_poly({mm: c for mm, c in r.items() if c})
            # only accept a symbolic remainder when it is a plain symbol
            if rt.op not in ("sym", "mod") or not any(q.values()):
                return None, None
        return from_poly(q), from_poly({mm: c for mm, c in r.items() if c})
    p = to_poly(i)
    q, r = {}, {}
    mp = to_poly(m)
    if len(mp) == 1:
        for mm, c in p.items():
            t = from_poly({mm: c})
            d = idiv(t, m)
            if d.op != "idiv":
                q = padd(q, to_poly(d))
            else:
                r[mm] = c
        q, r = from_poly(q), from_poly(r)
        return (q, r) if below(r, m) and (q is not ZERO or lt(r, m) is TRUE) else (None, None)
    for lead in mp:
        if not lead or mp[lead] not in (1, -1):
            continue
        q, r, ok = ZERO, i, True
        for _ in range(8):
            rp = to_poly(r)
            hit = None
            for mm, c in rp.items():
                e = mono_div(mm, lead)
                if e is not None:
                    hit = from_poly({e: c / mp[lead]})
                    break
            if hit is None:
                break
            q, r = add(q, hit), sub(r, mul(hit, m))
        else:
            ok = False
        if ok and below(r, m) and (q is not ZERO or lt(r, m) is TRUE):
            return q, r
    return None, None


def below(r, m):
    """may r be taken for a position below m?"""
    if r.op in ("int", "sym", "bv", "mod") or lt(r, m) is TRUE:
        return True
    p = to_poly(r)
    return len(p) <= 2 and all(c == 1 for mm, c in p.items() if mm) and all(len(mm) == 1 and next(iter(mm))[1] == 1 for mm in p if mm)


def mono_div(mm, lead):
    d = dict(mm)
    for a, e in lead:
        x = d.get(a)
        if x is None or not isinstance(x, int) or not isinstance(e, int) or x < e:
            return None
        d[a] = x - e
        if not d[a]:
            del d[a]
    return frozenset(d.items())


def slc(s, lo, hi):
    """s[lo..hi]"""
    if hi is None:
        hi = length(s)
    if lo is ZERO and hi is length(s):
        return s
    if lo is hi:
        return EMPTY
    o = s.op
    kl, kh = ival(lo), ival(hi)
    if o == "lst" and kl is not None and kh is not None:
        if 0 <= kl <= kh <= len(s.args[0]):
            return lst(s.args[0][int(kl):int(kh)])
    if o == "slice":
        return slc(s.args[0], add(s.args[1], lo), add(s.args[1], hi))
    if o == "arr":
        v = fresh("i", ("int", "usize"))
        return arr(sub(hi, lo), lam(v, app(s.args[1], add(lo, v))))
    if o == "ite":
        return ite(s.args[0], slc(s.args[1], lo, hi), slc(s.args[2], lo, hi))
    if o == "cat":
        ps = list(s.args[0])
        total = length(s)
        # drop leading
        off = ZERO
        j = 0
        while j < len(ps):
            l = length(ps[j])
            d = sub(lo, off)
            if d is l or le(l, d) is TRUE:
                off = add(off, l)
                j += 1
                continue
            break
        if j > 0:
            return slc(cat(ps[j:]), sub(lo, off), sub(hi, off))
        # take from the front part(s)
        if hi is total:
            p0 = ps[0]
            l0 = length(p0)
            if lo is not ZERO and le(lo, l0) is TRUE:
                return cat([slc(p0, lo, l0)] + ps[1:])
        else:
            acc = ZERO
            out = []
            for p in ps:
                l = length(p)
                nx = add(acc, l)
                if nx is hi or le(nx, hi) is TRUE:
                    out.append(p)
                    acc = nx
                    if nx is hi:
                        r = cat(out)
                        return slc(r, lo, length(r))
                    continue
                if le(hi, nx) is TRUE:
                    out.append(slc(p, ZERO, sub(hi, acc)))
                    r = cat(out)
                    if lo is ZERO:
                        return r
                    return slc(r, lo, length(r))
                break
    n = sub(hi, lo)
    k = ival(n)
    if k is not None and 0 < k <= 64 and o != "slice" and expandable(s):
        return lst([idx(s, add(lo, INT(i))) for i in range(int(k))])
    return mk("slice", s, lo, hi)


def expandable(s):
    return s.op in ("enc",)


def upd(s, i, v):
    k = ival(i)
    if s.op == "lst" and k is not None and 0 <= k < len(s.args[0]):
        l = list(s.args[0])
        l[int(k)] = v
        return lst(l)
    if s.op == "upd" and s.args[1] is i:
        return upd(s.args[0], i, v)
    if idx(s, i) is v:
        return s
    if s.op == "cat":
        # constant position inside a leading literal list
        ps = list(s.args[0])
        if k is not None and ps[0].op == "lst" and k < len(ps[0].args[0]):
            return cat([upd(ps[0], i, v)] + ps[1:])
    return mk("upd", s, i, v)


def enc(kind, width, x):
    """byte encoding of a number: kind be/le, width a term"""
    if x.op == "dec" and x.args[0] == kind and x.args[2] is width and x.args[3] == "u":
        return x.args[1]
    return mk("enc", kind, width, x)


def dec(kind, bytes_, width, signed="u"):
    if bytes_.op == "enc" and bytes_.args[0] == kind and bytes_.args[1] is width and signed == "u":
        return bytes_.args[2]
    w = ival(width)
    if w is not None and signed == "u":
        b = _low_bytes(kind, bytes_, int(w))
        if b is not None:
            return b
    if w is not None and bytes_.op == "lst" and len(bytes_.args[0]) == w:
        bs = bytes_.args[0]
        if kind == "be":
            bs = bs[::-1]
        if all(_is_bitpoly(b) for b in bs):
            r = add(*[mul(INT(1 << (8 * i)), b) for i, b in enumerate(bs)])
            if signed == "i":
                top = _top_bit(bs[-1])
                if top is None:
                    return mk("dec", kind, bytes_, width, signed)
                r = sub(r, mul(INT(1 << (8 * w)), top))
            return r
        # consecutive bytes of one base
        b0 = bytes_.args[0][0]
        if b0.op == "idx":
            base, i0 = b0.args
            if all(x.op == "idx" and x.args[0] is base and sub(x.args[1], i0) is INT(j)
                   for j, x in enumerate(bytes_.args[0])):
                return mk("dec", kind, mk("slice", base, i0, add(i0, width)), width, signed)
    if bytes_.op == "slice" and w is not None and expandable(bytes_.args[0]):
        return dec(kind, lst([idx(bytes_, INT(i)) for i in range(int(w))]), width, signed)
    return mk("dec", kind, bytes_, width, signed)


def _low_bytes(kind, bytes_, w):
    """the number whose low w bytes these are: the low end of the 32-byte encoding of an embedded small number"""
    src = None
    for i in range(w):
        b = idx(bytes_, INT(i)) if bytes_.op != "lst" else bytes_.args[0][i]
        if b.op != "idx" or b.args[0].op != "enc" or b.args[0].args[0] != kind:
            return None
        if src is None:
            src = b.args[0]
        want = i + (32 - w if kind == "be" else 0)
        if b.args[0] is not src or ival(b.args[1]) != want:
            return None
    x, wd = src.args[2], src.args[1]
    if (ival(wd) == 32 or (wd.op == "sym" and wd.args[0] == "FELT_BYTES")) and x.op == "emb":
        t = _types.get(x.args[0])
        if t and t[0] == "int" and t[1] in ("u8", "u16", "u32", "u64") and int(t[1][1:]) <= 8 * w:
            return x.args[0]
    return None


def _top_bit(b):
    """bit 7 of a byte given as polynomial over bits"""
    p = to_poly(b)
    q = {}
    k = p.get(frozenset(), 0)
    r = ZERO
    cand = {}
    for m, c in p.items():
        if m and abs(c) == 128:
            cand[m] = c
    if k == 0 and not cand:
        return ZERO
    if k == 128 and len(cand) == 1:
        (m, c), = cand.items()
        if c == -128:
            return sub(ONE, from_poly({m: 1}))
    if k == 128 and not cand:
        return ONE
    if k == 0 and len(cand) == 1:
        (m, c), = cand.items()
        if c == 128:
            return from_poly({m: 1})
    return None


def _is_bitpoly(t):
    p = to_poly(t)
    return all(not m or (len(m) == 1 and next(iter(m))[0].op == "bit") for m in p)


def bitval(t):
    """list of (bit index, 0/1-term) when t is an unsigned number given by bits, else None"""
    if t.op == "int":
        n = t.args[0]
        if not isinstance(n, int) or n < 0:
            return None
        return {i: ONE for i in range(n.bit_length()) if (n >> i) & 1}
    p = to_poly(t)
    out = {}
    const = 0
    for m, c in p.items():
        if not m:
            const = c
            continue
        if len(m) != 1:
            return None
        (a, e), = m
        if a.op != "bit" or e != 1 or c.denominator != 1:
            return None
        n = int(c)
        if n > 0 and n & (n - 1) == 0:
            j = n.bit_length() - 1
            if j in out:
                return None
            out[j] = a
        elif n < 0 and (-n) & (-n - 1) == 0:
            j = (-n).bit_length() - 1
            if j in out:
                return None
            out[j] = sub(ONE, a)
            const += n
        else:
            return None
    if const.denominator != 1 if isinstance(const, Fraction) else False:
        return None
    const = int(const)
    # const currently = K + sum(neg n); real constant bits: K - sum of 2^j for negated
    if const < 0:
        return None
    for j in range(const.bit_length()):
        if (const >> j) & 1:
            if j in out:
                return None
            out[j] = ONE
    return out


def from_bits(d):
    return add(*[mul(INT(1 << j), b) for j, b in d.items()]) if d else ZERO


def bits_of(x, width):
    """expand an opaque unsigned number of the given width"""
    b = bitval(x)
    if b is not None:
        return b
    if x.op == "trunc":
        inner = bits_of(x.args[0], 256)
        return {j: v for j, v in inner.items() if j < x.args[1]} if inner else None
    return {j: mk("bit", x, j) for j in range(width)}


def shr(x, k, width=64):
    kk = ival(k)
    if kk is None:
        return mk("shr", x, k)
    if x.op == "int":
        return INT(int(x.args[0]) >> int(kk))
    b = bits_of(x, width)
    if b is None:
        return mk("shr", x, k)
    return from_bits({j - kk: v for j, v in b.items() if j >= kk})


def shl(x, k, width=64):
    kk = ival(k)
    if x.op == "int" and x.args[0] == 1:
        return power(INT(2), k)
    if kk is not None:
        return mul(x, INT(1 << int(kk)))
    return mul(x, power(INT(2), k))


def band(x, y, width=64):
    if x.op == "int" and y.op == "int":
        return INT(int(x.args[0]) & int(y.args[0]))
    if x.op == "int":
        x, y = y, x
    if y.op == "int":
        bx = bits_of(x, width)
        m = int(y.args[0])
        if bx is not None:
            return from_bits({j: v for j, v in bx.items() if (m >> j) & 1})
    return mk("band", frozenset([x, y]))


def bor(x, y):
    if x.op == "int" and y.op == "int":
        return INT(int(x.args[0]) | int(y.args[0]))
    bx, by = bitval(x), bitval(y)
    if bx is not None and by is not None and not (set(bx) & set(by)):
        return add(x, y)
    return mk("bor", frozenset([x, y]))


def bxor(x, y):
    if x.op == "int" and y.op == "int":
        return INT(int(x.args[0]) ^ int(y.args[0]))
    if x.op == "int":
        x, y = y, x
    bx = bitval(x)
    if bx is not None and y.op == "int":
        m = int(y.args[0])
        d = dict(bx)
        j = 0
        while m >> j:
            if (m >> j) & 1:
                d[j] = sub(ONE, d.get(j, ZERO))
            j += 1
        return from_bits(d)
    return mk("bxor", frozenset([x, y]))


def trunc(x, w):
    if x.op == "int":
        return INT(int(x.args[0]) & ((1 << w) - 1))
    b = bitval(x)
    if b is not None:
        return from_bits({j: v for j, v in b.items() if j < w})
    if x.op == "trunc":
        return trunc(x.args[0], min(w, x.args[1]))
    if x.op == "call" and w >= 7 and x.args[0] in ("trailing_zeros", "count_ones", "ilog2", "leading_zeros64", "leading_zeros32",
                                                   "leading_zeros16", "leading_zeros8"):
        return x
    return mk("trunc", x, w)


def enc_byte(s, i):
    """byte i of an encoded number, as bits"""
    kind, width, x = s.args
    w, k = ival(width), ival(i)
    if w is None or k is None or not (0 <= k < w):
        return None
    if w == 1:
        return x
    j = (w - 1 - k) if kind == "be" else k
    b = bits_of(x, 8 * int(w))
    if b is None:
        return None
    return from_bits({q - 8 * j: v for q, v in b.items() if 8 * j <= q < 8 * j + 8})


# ---------------------------------------------------------------- aggregates
def Sum(n, l):
    k = ival(n)
    if k is not None and k <= UNROLL:
        return add(*[app(l, INT(i)) for i in range(int(max(k, 0)))]) if k > 0 else ZERO
    v = fresh("i", ("int", "usize"))
    b = app(l, v)
    if not occurs(v, b):
        return mul(n, b)
    # linearity: pull out factors free of v, split the sum
    p = to_poly(b)
    groups = {}
    for m, c in p.items():
        free = frozenset((a, e) for a, e in m if not occurs(v, a) and not (isinstance(e, T) and occurs(v, e)))
        dep = m - free
        groups.setdefault(free, {})[dep] = c
    out = {}
    for free, dp in groups.items():
        if set(dp) == {frozenset()}:
            t = mul(n, from_poly(dp))
        else:
            # split per dependent monomial for canonicity
            ts = []
            for dm, c in dp.items():
                if not dm:
                    ts.append(mul(n, INT(c)))
                    continue
                ts.append(mul(INT(c), _sum1(n, v, from_poly({dm: 1}))))
            t = add(*ts)
        out = padd(out, pmul(to_poly(t), {free: 1}))
    return from_poly(out)


def _sum1(n, v, b):
    # sum of i
    if b is v:
        return mul(INT(Fraction(1, 2)), n, sub(n, ONE))
    return mk("sum", n, lam(v, b))


def Prod(n, l):
    k = ival(n)
    if k is not None and k <= UNROLL:
        return mul(*[app(l, INT(i)) for i in range(int(k))]) if k > 0 else ONE
    v = fresh("i", ("int", "usize"))
    b = app(l, v)
    if not occurs(v, b):
        return power(b, n)
    p = to_poly(b)
    if len(p) == 1:
        # split monomial
        (m, c), = p.items()
        r = power(INT(c), n) if c != 1 else ONE
        for a, e in m:
            if not occurs(v, a) and not (isinstance(e, T) and occurs(v, e)):
                r = mul(r, power(a, _emul_t(e, n)))
            elif not occurs(v, a):
                ee = Sum(n, lam(v, e))
                r = mul(r, power(a, ee))
            elif isinstance(e, int):
                r = mul(r, power(mk("prod", n, lam(v, a)), e))
            else:
                r = mul(r, mk("prod", n, lam(v, power(a, e))))
        return r
    base, lead = prim(p)
    r = mk("prod", n, lam(v, from_poly(base)))
    if lead != 1:
        r = mul(power(INT(lead), n), r)
    return r


def _emul_t(e, n):
    return _emul(e, n)


def All(n, l):
    k = ival(n)
    if k is not None and k <= UNROLL:
        return And(*[app(l, INT(i)) for i in range(int(max(k, 0)))])
    v = fresh("i", ("int", "usize"))
    b = app(l, v)
    b = assume(b, lt(v, n), True)
    if b is TRUE:
        return TRUE
    if not occurs(v, b):
        return Or(b, pos(sub(ONE, n)))
    if b.op == "and":
        # split conjuncts
        return And(*[All(n, lam(v, c)) for c in b.args[0]])
    if b.op == "pos" and n.op != "inf":
        # monotone bound: only the first or the last index matters
        sl = slope(b.args[0], v)
        if sl is not None and (X_nonneg(sl) or X_nonneg(neg(sl))):
            w = ZERO if X_nonneg(sl) else sub(n, ONE)
            return Or(subst(b, {v: w}), pos(sub(ONE, n)))
    return mk("all", n, lam(v, b))


def X_nonneg(t):
    return nonneg(t)


def slope(d, v):
    """coefficient of v in d when d is linear in v"""
    out = {}
    for m, c in to_poly(d).items():
        rest = []
        hit = False
        for a, e in m:
            if a is v and e == 1:
                hit = True
            elif occurs(v, a) or (isinstance(e, T) and occurs(v, e)):
                return None
            else:
                rest.append((a, e))
        if hit:
            out[frozenset(rest)] = c
    return from_poly(out)


def Any(n, l):
    v = fresh("i", ("int", "usize"))
    return negate(All(n, lam(v, negate(app(l, v)))))


def Min(*ts):
    out = set()
    for t in ts:
        if t.op == "inf":
            continue
        if t.op == "min":
            out |= t.args[0]
        else:
            out.add(t)
    if not out:
        return INF
    out = list(out)
    keep = []
    for a in out:
        dominated = False
        for b in out:
            if b is a:
                continue
            if le(b, a) is TRUE and not (le(a, b) is TRUE and key(a) < key(b)):
                dominated = True
                break
        if not dominated:
            keep.append(a)
    if len(keep) == 1:
        return keep[0]
    return mk("min", frozenset(keep))


def Max(*ts):
    out = set()
    for t in ts:
        if t.op == "max":
            out |= t.args[0]
        else:
            out.add(t)
    out = list(out)
    keep = []
    for a in out:
        dominated = False
        for b in out:
            if b is a:
                continue
            if le(a, b) is TRUE and not (le(b, a) is TRUE and key(a) < key(b)):
                dominated = True
                break
        if not dominated:
            keep.append(a)
    if len(keep) == 1:
        return keep[0]
    return mk("max", frozenset(keep))


def emb(x):
    """embedding of an integer into a field"""
    if x.op == "int":
        return x
    if x.op == "repr":
        return x.args[0]
    p = to_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            (a, e), = m
            if a is x:
                if a.op in ("emb", "ind", "bit"):
                    return a
                return mk("emb", x)
    r = {}
    for m, c in p.items():
        q = {frozenset(): c}
        for a, e in m:
            q = pmul(q, to_poly(power(emb(a), e)))
        r = padd(r, q)
    return from_poly(r)


def representative(x):
    if x.op == "emb":
        return x.args[0]
    if x.op == "int" and isinstance(x.args[0], int) and x.args[0] >= 0:
        return x
    return mk("repr", x)


_cons = {
    "poly": poly_cons,
    "idiv": idiv,
    "mod": imod,
    "pos": pos,
    "not": negate,
    "and": lambda s: And(*s),
    "or": lambda s: Or(*s),
    "eq0": eq0,
    "eq": lambda s: eq(*s) if len(s) == 2 else TRUE,
    "ind": ind,
    "ite": ite,
    "isv": isv,
    "payload": payload,
    "field": field,
    "setf": set_field,
    "arr": arr,
    "flat": flat,
    "cat": cat,
    "idx": idx,
    "slice": slc,
    "upd": upd,
    "len": length,
    "sum": Sum,
    "prod": Prod,
    "all": All,
    "min": lambda s: Min(*s),
    "max": lambda s: Max(*s),
    "emb": emb,
    "repr": representative,
    "enc": enc,
    "dec": dec,
    "shr": shr,
    "band": lambda s: band(*s) if len(s) == 2 else next(iter(s)),
    "trunc": trunc,
    "enum": lambda n, v, a: enum(n, v, a),
    "isbit": lambda a: BOOL(a.args[0] != 0) if a.op == "int" else (mk("isbit", a) if a.op == "bit" else eq0(sub(a, ONE))),
    "bit": lambda x, j: _bit_cons(x, j),
}


def _bit_cons(x, j):
    if x.op == "int":
        return INT((int(x.args[0]) >> j) & 1)
    b = bitval(x)
    if b is not None:
        return b.get(j, ZERO)
    return mk("bit", x, j)


def register(op, f):
    _cons[op] = f


# ---------------------------------------------------------------- printing
def show(t, d=0, maxd=14):
    if not isinstance(t, T):
        return str(t)
    if d > maxd:
        return "…"
    s = lambda x: show(x, d + 1, maxd)
    o = t.op
    if o == "int":
        return str(t.args[0])
    if o == "bool":
        return "true" if t.args[0] else "false"
    if o == "sym":
        return t.args[0]
    if o == "bv":
        return "i%d" % t.args[0]
    if o == "str":
        return repr(t.args[0])
    if o == "poly":
        ms = []
        for m, c in sorted(t.args[0], key=lambda mc: _mono_key(mc[0])):
            fs = []
            for a, e in sorted(m, key=lambda ae: key(ae[0])):
                x = s(a)
                if a.op == "poly":
                    x = "(" + x + ")"
                fs.append(x if e == 1 else "%s^%s" % (x, e if isinstance(e, int) else "(" + s(e) + ")"))
            body = "*".join(fs)
            if not fs:
                ms.append(str(c))
            elif c == 1:
                ms.append(body)
            elif c == -1:
                ms.append("-" + body)
            else:
                ms.append("%s*%s" % (c, body))
        return " + ".join(ms).replace("+ -", "- ")
    if o == "lam":
        return "\\i%d. %s" % (t.args[0], s(t.args[1]))
    if o == "field":
        return "%s.%s" % (s(t.args[0]), t.args[1])
    if o == "idx":
        return "%s[%s]" % (s(t.args[0]), s(t.args[1]))
    if o == "slice":
        return "%s[%s..%s]" % (s(t.args[0]), s(t.args[1]), s(t.args[2]))
    if o == "lst":
        return "[" + ", ".join(s(x) for x in t.args[0]) + "]"
    if o == "cat":
        return " ++ ".join(s(x) for x in t.args[0])
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in t.args) + ")"
    if o == "struct":
        return t.args[0] + "{" + ", ".join("%s: %s" % (k, s(v)) for k, v in t.args[1]) + "}"
    if o == "enum":
        return t.args[1] + ("(" + ", ".join(s(x) for x in t.args[2]) + ")" if t.args[2] else "")
    if o == "pos":
        return "(%s > 0)" % s(t.args[0])
    if o == "eq0":
        return "(%s == 0)" % s(t.args[0])
    if o == "and":
        return "(" + " && ".join(sorted(s(x) for x in t.args[0])) + ")"
    if o == "or":
        return "(" + " || ".join(sorted(s(x) for x in t.args[0])) + ")"
    if o == "not":
        return "!" + s(t.args[0])
    if o == "ite":
        return "if %s {%s} else {%s}" % tuple(s(x) for x in t.args)
    if o == "call":
        return "%s(%s)" % (t.args[0], ", ".join(s(x) for x in t.args[1:]))
    if o == "arr":
        return "[%s for <%s]" % (s(t.args[1]), s(t.args[0]))

    def sa(a):
        if isinstance(a, T):
            return s(a)
        if isinstance(a, (tuple, frozenset)):
            return "{" + ", ".join(sa(x) for x in a) + "}"
        return str(a)

    return "%s(%s)" % (o, ", ".join(sa(a) for a in t.args))


def rewrite(t, f, memo=None):
    """bottom-up rewriting: f(term) gives a replacement or None"""
    memo = {} if memo is None else memo

    def rec(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "lam":
            h, body = t.args
            v = fresh("o")
            x = subst(body, {mk("bv", h): v}, _raw=True)
            r = lam(v, rec(x))
        elif not t.args:
            r = t
        else:
            r = rebuild(t.op, tuple(reca(a) for a in t.args))
        q = f(r)
        if q is not None:
            r = q
        memo[t] = r
        return r

    def reca(a):
        if isinstance(a, T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(reca(x) for x in a)
        if isinstance(a, frozenset):
            return frozenset(reca(x) for x in a)
        return a
    return rec(t)


def find(t, pred, out=None, seen=None):
    """subterms satisfying pred"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.append(t)
    for x in children(t):
        find(x, pred, out, seen)
    return out
