"""Summaries of the shipped constraint systems: what `new` declares and what the transition function evaluates,
case by case where the declared layout depends on the public inputs."""
from ..front import FELT, USIZE
from ..terms import (T, mk, sym, field, idx, length, lst, struct, ival, find, subst, rewrite, TRUE, FALSE, to_poly, INT, show, fv)
from .. import terms as X
from ..check import Missing

OPTIONS = ("adt", "starks::proof::options::ProofOptions", ())
CAIRO = "cairo::air::CairoAIR"
AIRS = {
    "cairo": CAIRO,
    "dummy": "starks::example::dummy_air::DummyAIR",
    "fibonacci_2_columns": "starks::example::fibonacci_2_columns::Fibonacci2ColsAIR",
    "fibonacci_rap": "starks::example::fibonacci_rap::FibonacciRAP",
    "quadratic": "starks::example::quadratic_air::QuadraticAIR",
    "simple_fibonacci": "starks::example::simple_fibonacci::FibonacciAIR",
}


class Case:
    """one layout of a constraint system"""

    def __init__(s, ck, c, name, air, pub, ip, label):
        s.ck, s.c, s.name, s.air, s.pub, s.ip, s.label = ck, c, name, air, pub, ip, label
        s.qual = AIRS[name]
        s.memo = {}

    def method(s, m, *args):
        """summary of a method of the constraint system, its own or the trait's default"""
        k = (m,) + args
        if k not in s.memo:
            f = next((f for f in s.c.fns if f.qual == s.qual + "::" + m), None)
            if f is not None:
                v, ip, _ = s.ck.run(s.c, f, {"#": [s.air] + list(args)})
            else:
                f = s.ck.fn(s.c, "starks::traits::AIR::" + m)
                g = s.ck.fn(s.c, s.qual + "::new")
                from ..front import Ctx
                from ..interp import generic_names
                gens = {n: ("param", n) for n in generic_names(g.impl.get("g"))}
                st = s.c.ty(g.impl["ty"], Ctx(g.mod, gens, None))
                v, ip, _ = s.ck.run(s.c, f, {"#": [s.air] + list(args)}, selfty=st)
            s.memo[k] = (v, ip)
        return s.memo[k]

    def ctx(s, f):
        return field(s.method("context")[0], f)

    def ints(s, f):
        """a declared list as terms"""
        t = s.ctx(f)
        n = ival(length(t))
        return None if n is None else [idx(t, INT(i)) for i in range(n)]

    @property
    def where(s):
        return s.qual

    def frame(s):
        """a frame with one row per declared offset and one symbol per cell"""
        w, r = ival(s.ctx("trace_columns")), ival(length(s.ctx("transition_offsets")))
        if w is None or r is None:
            return None
        cells = [sym("x%d_%d" % (i, j), FELT) for i in range(r) for j in range(w)]
        return struct("starks::frame::Frame", {"data": lst(cells), "row_width": INT(w)}), cells, w, r

    def transition(s):
        fr = s.frame()
        if fr is None:
            return None
        f = s.ck.fn(s.c, s.qual + "::compute_transition")
        return s.ck.run(s.c, f, {"#": [s.air, fr[0], sym("rap", s.rap_type(f))]})

    def rap_type(s, f, at=2):
        from ..front import Ctx
        from ..interp import generic_names
        gens = {n: ("param", n) for n in generic_names(f.sig.get("g"))}
        if f.impl:
            for n in generic_names(f.impl.get("g")):
                gens[n] = ("param", n)
        st = s.c.ty(f.impl["ty"], Ctx(f.mod, gens, None))
        return s.c.ty(f.sig["in"][at]["t"], Ctx(f.mod, gens, st))


def cases(ck, name, spec=(), overflow=False):
    """(the constraint system as `new` builds it, one case per layout)"""
    c = ck.crate(spec=spec)
    q = AIRS[name]
    f = ck.fn(c, q + "::new")
    air, ip, _ = ck.run(c, f, {"#": [sym("n", USIZE), None, sym("options", OPTIONS)]}, overflow=overflow)
    pub = next((t for t in [sym("arg1")]), None)
    if name != "cairo":
        return [Case(ck, c, name, air, pub, ip, name)]
    # the layouts: with and without a range-check segment among the public inputs
    conds = find(air, lambda t: t.op == "isv" and t.args[1] == "Some" and t.args[0].op == "mapget")
    conds = list(dict.fromkeys(conds))
    out = []
    for b in (True, False):
        a = air
        for k in conds:
            a = X.assume(a, k, b if key_is(k, "RangeCheck") else False) if key_is(k, "RangeCheck") else a
        out.append(Case(ck, c, name, a, pub, ip, "cairo/%s" % ("range-check builtin" if b else "plain")))
        out[-1].rc = b
    return out


def key_is(k, name):
    return bool(find(k.args[0], lambda t: t.op == "enum" and t.args[1] == name))


def xvars(t):
    return {v.args[0] for v in fv(t) if v.op == "sym" and str(v.args[0]).startswith("x") and "_" in str(v.args[0])}


def degree(t):
    """(degree in the cells, rows read, columns read); None when the term is not a polynomial in the cells"""
    p = to_poly(t)
    d, rows, cols = 0, set(), set()
    for m, c in p.items():
        dm = 0
        for a, e in m:
            vs = xvars(a)
            if not vs:
                continue
            if a.op != "sym" or not isinstance(e, int):
                return None
            dm += e
            r, k = a.args[0][1:].split("_")
            rows.add(int(r))
            cols.add(int(k))
        d = max(d, dm)
    return d, rows, cols
