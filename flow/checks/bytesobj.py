"""random objects of the serialised types, by the types the source declares"""
import random
from .. import terms as X
from ..terms import sym
from ..front import FELT, Ctx
from ..ev import Ev, Fp, St, En, Mp, Undecided

P = 2 ** 251 + 17 * 2 ** 192 + 1
BYTES = ("seq", ("int", "u8"), None)
ROOTS = ["starks::proof::stark::StarkProof", "cairo::air::PublicInputs"]
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


def pairs(c):
    """{type: (writer, reader)} of every type with both"""
    out = {}
    for trait, name, i in (("Serializable", "serialize", 0), ("Deserializable", "deserialize", 1)):
        for g in c.fns:
            if g.impl and g.name == name and g.impl.get("tr") is not None and g.qual.endswith("::" + name):
                ty = g.qual[:-len(name) - 2]
                if ty in c.structs:
                    out.setdefault(ty, [None, None])[i] = g
    return {t: x for t, x in out.items() if all(x)}


class Gen:
    def __init__(s, c, r, e, lens=None):
        s.c, s.r, s.e, s.lens = c, r, e, lens

    def felt(s):
        r = s.r
        return Fp(r.choice((0, 1, 255, 256, P - 1, r.getrandbits(64), r.getrandbits(251) % P, r.getrandbits(251) % P, r.getrandbits(248))))

    def int(s, n):
        b = BITS.get(n, 64)
        r = s.r
        return r.choice((0, 1, 2 ** b - 1, r.getrandbits(b), r.getrandbits(b), r.getrandbits(b), r.getrandbits(max(1, b // 2)), 2 ** (b // 2)))

    def count(s):
        return s.lens() if s.lens else s.r.choice((0, 1, 1, 2, 3))

    def gen(s, t):
        k = t[0]
        if k == "felt":
            return s.felt()
        if k == "int":
            return s.int(t[1])
        if k == "bool":
            return s.r.random() < .5
        if k == "seq":
            n = t[2]
            if n is None:
                n = s.count()
            elif not isinstance(n, int):
                n = X.ival(n)
            return [s.gen(t[1]) for _ in range(int(n))]
        if k == "tuple":
            return tuple(s.gen(x) for x in t[1])
        if k == "range":
            return St("Range", {"start": s.gen(t[1]), "end": s.gen(t[1])})
        if k == "map":
            d = {}
            n = s.count() if s.lens else s.r.choice((0, 1, 2, 3, 5))
            for _ in range(n):
                x = s.gen(t[1])
                d[s.e.ck(x)] = (x, s.gen(t[2]))
            return Mp(d, False, True)
        if k == "adt":
            q = t[1]
            if q == "Option":
                if (s.lens and s.count() > 0) or (not s.lens and s.r.random() < .6):
                    return En("Option", "Some", [s.gen(t[2][0])])
                return En("Option", "None", [])
            if q == "Proof":
                return St("Proof", {"merkle_path": [s.gen(("seq", ("int", "u8"), 32)) for _ in range(s.count())]})
            if q in s.c.structs:
                it, m = s.c.structs[q]
                return St(q, {(f["n"] or str(i)): s.gen(s.c.field_ty(t, f["n"] or str(i))) for i, f in enumerate(it["f"])})
            if q in s.c.enums:
                it, m = s.c.enums[q]
                v = s.r.choice(it["v"])
                return En(q, v["n"], [s.gen(s.c.ty(f["t"], Ctx(m, {}, t))) for f in v["f"]])
        raise Undecided("no objects of type %r" % (t,))


def adt(c, q):
    """the type q over the field"""
    from ..interp import generic_names
    n = len(generic_names(c.structs[q][0].get("g")))
    return ("adt", q, (("param", "F"),) * n)


def evaluator(c, name, over):
    return Ev(name, c, [("FELT_BYTES", 32)] + over)
