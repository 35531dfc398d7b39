"""S21: trace tables and frames address the same cell for the same row and column."""
import random
from .. import terms as X
from ..terms import sym
from ..front import USIZE, FELT
from ..ev import Ev, Fp, St, En, Undecided

META = {
    "level": "proof",
    "explanation": "Every accessor of TraceTable and Frame is summarised over an arbitrary table (through the observers in "
                   "/verif/spec/table.rs, which use the public operations only) and compared with the row-major law in random "
                   "interpretations of every small shape, with offsets that wrap and blowup factors up to 128; the panic "
                   "obligations on their paths must hold for every cell inside the table.",
}
FLOOR = 12
SEQ, SEQS, IDX = ("seq", FELT, None), ("seq", ("seq", FELT, None), None), ("seq", USIZE, None)
TYPES = {"d": SEQ, "e": SEQ, "l": SEQS, "k": IDX, "w": USIZE, "v": USIZE, "r": USIZE, "c": USIZE, "s": USIZE, "x": FELT,
         "step": USIZE, "blowup": ("int", "u8"), "offsets": IDX, "p": ("seq", ("poly",), None), "g": FELT}


def table(n, w, base=100):
    return [base + i for i in range(n * w)]


def grid(d, w):
    return [d[i * w:(i + 1) * w] for i in range(len(d) // w)]


BIG = ("n_rows", "get", "get_row", "last_row", "frame_row", "frame_read", "frame_dims")


def instances(r, name, i):
    """(values of the arguments, required result)"""
    n, w = r.randrange(1, 7), r.randrange(1, 6)
    if i % 20 == 7:
        # positions beyond 8 and 16 bits
        n, w = r.choice((258, 700)), r.choice((1, 3))
        if name in BIG and i == 27:
            n, w = 66000, 1
    d = [r.getrandbits(40) for _ in range(n * w)]
    g = grid(d, w)
    m = {"d": d, "w": w}
    if name in ("n_rows",):
        return m, n
    if name == "is_empty":
        if r.random() < .3:
            return {"d": [], "w": 0}, True
        return m, False
    if name == "empty":
        return {}, (0, True)
    if name == "get":
        m["r"], m["c"] = r.randrange(n), r.randrange(w)
        return m, g[m["r"]][m["c"]]
    if name in ("get_row", "frame_row"):
        m["r"] = r.randrange(n)
        return m, g[m["r"]]
    if name == "last_row":
        return m, g[-1]
    if name == "rows":
        return m, g
    cols = [[x[j] for x in g] for j in range(w)]
    if name == "cols":
        return m, cols
    if name in ("get_cols", "sub_width"):
        m["k"] = [r.randrange(w) for _ in range(r.randrange(1, w + 2))]
        return m, [[x[j] for j in m["k"]] for x in g] if name == "get_cols" else (n, len(m["k"]))
    if name in ("from_cols", "from_cols_dims"):
        return {"l": cols}, g if name == "from_cols" else (n, w)
    if name in ("concatenate", "concatenate_dims"):
        m["v"] = r.randrange(1, 5)
        m["e"] = [r.getrandbits(40) for _ in range(n * m["v"])]
        h = grid(m["e"], m["v"])
        return m, [x + y for x, y in zip(g, h)] if name == "concatenate" else (n, w + m["v"])
    if name == "frame_dims":
        return m, (n, w)
    if name == "frame_set":
        m.update(r=r.randrange(n), c=r.randrange(w), x=r.getrandbits(40), s=r.randrange(n))
        h = [list(x) for x in g]
        h[m["r"]][m["c"]] = m["x"]
        return m, h[m["s"]]
    if name in ("frame_read", "frame_read_dims"):
        m["blowup"] = r.choice((1, 2, 4, 8, 64, 128))
        m["step"] = r.randrange(n)
        m["offsets"] = [r.choice((0, 1, 2, 3, 5, n)) for _ in range(r.randrange(1, 4))]
        if name == "frame_read_dims":
            return m, (len(m["offsets"]), w)
        m["r"] = r.randrange(len(m["offsets"]))
        return m, g[(m["step"] + m["offsets"][m["r"]] * m["blowup"]) % n]
    raise KeyError(name)


CASES = {
    "n_rows": "d w", "is_empty": "d w", "empty": "", "get": "d w r c", "get_row": "d w r", "last_row": "d w", "rows": "d w",
    "cols": "d w", "get_cols": "d w k", "sub_width": "d w k", "from_cols": "l", "from_cols_dims": "l",
    "concatenate": "d w e v", "concatenate_dims": "d w e v", "frame_row": "d w r", "frame_dims": "d w",
    "frame_set": "d w r c x s", "frame_read": "d w step blowup offsets r", "frame_read_dims": "d w step blowup offsets",
}
WHERE = {"frame": "starks::frame::Frame", "table": "starks::trace::TraceTable"}


def plain(e, v):
    v = e.ck(v)
    return v


def felts(v):
    if isinstance(v, list):
        return [felts(x) for x in v]
    return Fp(v)


def check(ck):
    c = ck.crate(spec=("table",))
    ck.fn(c, "starks::trace::TraceTable::new")
    ck.fn(c, "starks::frame::Frame::new")

    def value(k, x):
        if TYPES[k] in (SEQ, SEQS, FELT):
            return felts(x)
        return x

    def want(e, name, x):
        if isinstance(x, bool):
            return e.ck(x)
        if isinstance(x, int):
            return e.ck(x) if name == "n_rows" else e.ck(Fp(x))
        if isinstance(x, tuple):
            return e.ck(tuple(x))
        return e.ck(felts(x))

    def case(name, args):
        where = WHERE["frame" if name.startswith("frame") else "table"]
        v, ip, _ = ck.run(c, "spec::table::" + name, {"#": [sym(a, TYPES[a]) for a in args]})
        bad, und, good = "", "", 0
        for i in range(160 if ck.thorough else 60):
            r = random.Random("s21.%s.%s.%d" % (ck.seed, name, i))
            m, x = instances(r, name, i)
            e = Ev("s21.%s.%d" % (name, i), c, [(k, value(k, y)) for k, y in m.items()])
            try:
                o = ck.refusal(e, ip.obls)
                if o is not None:
                    bad = bad or "%s in %s panics inside the table: %s" % (o.kind, o.fn, m)
                    continue
                have = e.ck(e.ev(v))
            except (Undecided, RecursionError) as z:
                und = str(z)
                continue
            good += 1
            if have != want(e, name, x):
                bad = bad or "%s: %s, required %s" % (m, str(have)[:200], str(x)[:200])
        ck.ob(name, False if bad else None if not good else True, bad or und or "equal in %d interpretations" % good, where)
    for name, a in CASES.items():
        ck.guarded(name, lambda: case(name, a.split()), name)

    def law(name, args, largs=None):
        a = [sym(k, TYPES[k]) for k in args]
        v = ck.run(c, "spec::table::" + name, {"#": a})[0]
        return v

    def polys():
        d, w, x, l = [sym(k, TYPES[k]) for k in ("d", "w", "x", "l")]
        a = ck.run(c, "spec::table::polys", {"#": [d, w, x]})[0]
        b = ck.run(c, "spec::table::polys_law", {"#": [l, x]})[0]
        bad, und, good = "", "", 0
        for i in range(20):
            r = random.Random("s21.polys.%s.%d" % (ck.seed, i))
            n, k = r.choice((1, 2, 4, 8)), r.randrange(1, 5)
            t = [r.getrandbits(40) for _ in range(n * k)]
            cols = [[y[j] for y in grid(t, k)] for j in range(k)]
            e = Ev("s21.polys.%d" % i, c, [("d", felts(t)), ("w", k), ("l", felts(cols)), ("x", Fp(r.getrandbits(60)))])
            try:
                p, q = e.ck(e.ev(a)), e.ck(e.ev(b))
            except (Undecided, RecursionError) as z:
                und = str(z)
                continue
            good += 1
            if p != q:
                bad = bad or "the polynomials of a %d x %d table are not those of its columns" % (n, k)
        ck.ob("polys", False if bad else None if not good else True, bad or und or "equal in %d interpretations" % good, WHERE["table"])
    ck.guarded("polys", polys, WHERE["table"])

    def evaluations():
        a = [sym(k, TYPES[k]) for k in ("p", "x", "offsets", "g")]
        u = ck.run(c, "spec::table::evaluations", {"#": a})[0]
        v = ck.run(c, "spec::table::evaluations_law", {"#": a})[0]
        ck.equal("evaluations", u, v, c, WHERE["frame"])
    ck.guarded("evaluations", evaluations, WHERE["frame"])
