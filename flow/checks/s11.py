"""S11: the auxiliary trace is the one the auxiliary constraints require."""
import random
from . import airs
from .. import terms as X
from ..terms import sym, field, show
from ..ev import Ev, Fp, St, En, Mp, Undecided

META = {
    "level": "proof",
    "explanation": "The value-flow summary of build_auxiliary_trace (for every main trace, public input and challenge) is compared "
                   "column by column with the reference in /verif/spec/auxtrace.rs, in random interpretations whose main trace "
                   "holds arbitrary accesses, offsets and public memory, with and without an output segment.",
}
FLOOR = 10
RAP = ("adt", "cairo::air::CairoRAPChallenges", ())
TRACE = ("adt", "starks::trace::TraceTable", (("felt",),))
NAMES = ["range-check sorted %d" % i for i in range(3)] + ["address sorted %d" % i for i in range(4)] + \
    ["value sorted %d" % i for i in range(4)] + ["memory product %d" % i for i in range(4)] + \
    ["range-check product %d" % i for i in range(3)]


def instance(seed, i, rc):
    r = random.Random("%s.%d" % (seed, i))
    rows = (2, 4, 8)[i % 3]
    cols = 43 if rc else 34
    val = {}

    def v(a):
        return val.setdefault(a, r.getrandbits(120))
    prog = r.randrange(1, min(4 * rows, 6))
    out = r.randrange(0, min(4 * rows - prog, 3)) if i % 2 else 0
    first = prog + 1 + r.randrange(5)
    # the order of the entries of a hash map is whatever the interpretation says
    public = {a: v(a) for a in list(range(1, prog + 1)) + list(range(first, first + out))}
    k = 4 * rows - len(public)
    tab = [r.getrandbits(110) for _ in range(rows * cols)]
    for n in range(4 * rows):
        a = r.randrange(1, first + out + 6) if n < k else 0
        # nothing in the statement requires the replaced accesses to be zero
        w = v(a) if n < k else 0
        if n >= k and i % 4 == 3:
            a, w = r.getrandbits(100), r.getrandbits(100)
        tab[(n // 4) * cols + 19 + n % 4] = a
        tab[(n // 4) * cols + 23 + n % 4] = w
    for n in range(3 * rows):
        tab[(n // 3) * cols + 27 + n % 3] = r.choice((0, 1, 255, 256, 65535, r.randrange(65536), r.randrange(300)))
    seg = []
    if out or i % 4 == 2:
        seg.append(("Output", first, first + out))
    if rc:
        seg.append(("RangeCheck", 900, 905))
    return rows, cols, tab, public, seg


def evaluator(seed, i, rc, c, more=()):
    rows, cols, tab, public, seg = instance(seed, i, rc)

    def mp(e):
        return Mp({e.ck(Fp(a)): (Fp(a), Fp(x)) for a, x in public.items()}, False, True)

    def sg(e):
        d = {}
        for n, lo, hi in seg:
            k = En("cairo::air::MemorySegment", n, [])
            d[e.ck(k)] = (k, St("Range", {"start": lo, "end": hi}))
        return Mp(d, False, True)
    e = Ev("s11.%s.%d" % (seed, i), c, [
        ("main", St("starks::trace::TraceTable", {"table": [Fp(x) for x in tab], "n_cols": cols})),
        (r"arg1\.public_memory", lambda ev, m: mp(ev)),
        (r"arg1\.memory_segments", lambda ev, m: sg(ev)),
        ("n", rows), *more,
    ])
    return e, rows


def case(ck, k, f):
    c = k.c
    where = f.qual
    main, rap = sym("main", TRACE), sym("rap", RAP)
    a, _, _ = ck.run(c, f, {"#": [k.air, main, rap]})
    b, _, _ = ck.run(c, "spec::auxtrace::build", {"#": [main, sym("arg1", ("adt", "cairo::air::PublicInputs", ())), rap]})
    ta, na = field(a, "table"), field(a, "n_cols")
    bad, und, good = {}, {}, 0
    for i in range(24 if ck.thorough else 8):
        e, rows = evaluator(ck.seed, i, k.rc, c)
        try:
            want = [e.ck(x) for x in e.seq(e.ev(b))]
            w = e.integer(e.ev(na))
            have = [e.ck(x) for x in e.seq(e.ev(ta))]
        except (Undecided, RecursionError) as x:
            und["all"] = str(x)
            continue
        if w != 18:
            bad.setdefault("width", "%d columns declared" % w)
            continue
        if len(have) != len(want):
            bad.setdefault("width", "%d cells in %d rows of 18" % (len(have), rows))
            continue
        good += 1
        for j, n in enumerate(NAMES):
            x = [have[r * 18 + j] for r in range(rows)]
            y = [want[r * 18 + j] for r in range(rows)]
            if x != y:
                r = next(r for r in range(rows) if x[r] != y[r])
                bad.setdefault(n, "instance %d, row %d of %d: %s, required %s" % (i, r, rows, str(x[r])[:60], str(y[r])[:60]))
    for n in ["width"] + NAMES:
        ck.ob("%s:%s" % (k.label, n), False if n in bad else None if not good else True,
              bad.get(n) or (und.get("all", "") if not good else "equal in %d random instances" % good), where)


def check(ck):
    c = ck.crate(spec=("auxtrace",))
    f = ck.fn(c, airs.CAIRO + "::build_auxiliary_trace")
    for k in airs.cases(ck, "cairo", ("auxtrace",)):
        ck.guarded(k.label, lambda: case(ck, k, f), f.qual)
