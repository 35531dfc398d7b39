"""S23: the completed main trace is prefix, range-check holes, memory holes, dummies and padding."""
import random
from .. import terms as X
from ..terms import sym, field, idx, INT, FALSE, TRUE
from ..ev import Ev, Fp, St, En, Mp, Undecided, P

META = {
    "level": "proof",
    "explanation": "The value-flow summary of build_main_trace over an arbitrary executed table is evaluated in random "
                   "interpretations (tables with gaps in addresses and offsets, with and without output cells, of every small "
                   "public memory length); the completed table must satisfy the postconditions of the statement: the executed "
                   "rows first, a power of two of rows, offsets without gaps and inside the reported bounds, addresses without "
                   "gaps and single-valued once the tail is replaced by the public memory, zero accesses in that tail, and "
                   "repeated rows as padding; every added row must satisfy the row constraints of /verif/spec/cairo.rs.",
}
FLOOR = 10
BUILD = "cairo::execution_trace::build_main_trace"
EXEC = "cairo::execution_trace::build_cairo_execution_trace"
TRACE = ("adt", "starks::trace::TraceTable", (("felt",),))
ROWCON = list(range(0, 31))
NAMES = ["prefix", "shape", "range-check bounds", "range-check holes", "memory holes", "memory values", "dummies", "padding",
         "added rows", "public memory kept", "refused"]


def instance(seed, i, cols):
    r = random.Random("s23.%s.%d.%d" % (seed, i, cols))
    prog = 1 + r.randrange(9 if i % 2 else 40)
    out = r.randrange(1, 4) if i % 3 == 1 else 0
    rows = (1, 2, 3, 4, 5, 6, 7, 8)[r.randrange(8)]
    base = prog + 1 + (r.randrange(4) if i % 4 == 2 else 0)
    span = base + 2 + r.randrange(14)
    first = span + 1 + r.randrange(3)
    val = {}

    def v(a):
        return val.setdefault(a, r.getrandbits(100))
    public = {a: v(a) for a in list(range(1, prog + 1)) + list(range(first, first + out))}
    tab = [r.getrandbits(60) for _ in range(rows * cols)]
    skip = {a for a in range(prog + 1, span) if r.random() < (0, .3, .7)[i % 3]}
    if i % 5 == 4:
        skip -= {prog + 1, prog + 2}
    data = [a for a in range(prog + 1, span + 1) if a not in skip] or [span]
    lo = r.choice((0, 1, 5, 32768, 65500, 65535 - 40))
    up = i % 7 == 3     # the largest offset there is, in many cells
    for j in range(rows):
        for k in range(4):
            a = 1 + r.randrange(prog) if k == 0 or r.random() < .2 else r.choice(data)
            tab[j * cols + 19 + k] = a
        for k in range(16):
            tab[j * cols + k] = r.randrange(2) if k < 15 else 0
        for k in range(3):
            tab[j * cols + 27 + k] = lo + r.randrange(1 + r.choice((0, 1, 6, 30))) if not up else 65535 - r.choice((0, 0, 1, 5))
        tab[j * cols + 33] = 0 if j == rows - 1 else 1
    # every output cell is written by the program
    need = list(range(first, first + out))
    cells = [(j, k) for j in range(rows) for k in range(1, 4)]
    r.shuffle(cells)
    if len(need) > len(cells):
        public = {a: x for a, x in public.items() if a < first}
        need, out = [], 0
    for a, (j, k) in zip(need, cells):
        tab[j * cols + 19 + k] = a
    for j in range(rows):
        for k in range(4):
            tab[j * cols + 23 + k] = v(tab[j * cols + 19 + k])
    return rows, tab, public, (first, first + out) if out or i % 6 == 5 else None, r


def evaluator(seed, i, cols, c):
    rows, tab, public, seg, r = instance(seed, i, cols)

    def mp(e):
        return Mp({e.ck(Fp(a)): (Fp(a), Fp(x)) for a, x in public.items()}, False, True)

    def sg(e):
        d = {}
        if seg:
            k = En("cairo::air::MemorySegment", "Output", [])
            d[e.ck(k)] = (k, St("Range", {"start": seg[0], "end": seg[1]}))
        return Mp(d, False, True)
    e = Ev("s23.%s.%d.%d" % (seed, i, cols), c, [
        ("main", St("starks::trace::TraceTable", {"table": [Fp(x) for x in tab], "n_cols": cols})),
        (r"public\.public_memory", lambda ev, m: mp(ev)),
        (r"public\.memory_segments", lambda ev, m: sg(ev)),
        (r"public\.(num_steps|codelen)", lambda ev, m: len([a for a in public if not seg or a < seg[0]]) if m.group(1) == "codelen" else rows),
    ])
    return e, rows, tab, public, seg


def ints(e, l):
    return [e.ck(x)[1] for x in e.seq(l)]


def check(ck):
    c = ck.crate(spec=("cairo",))
    f = ck.fn(c, BUILD)
    ck.fn(c, EXEC)
    where = f.qual
    main = sym("main", TRACE)
    calls = []

    def exe(ip, args, fn):
        calls.append(1)
        return main
    v, ip, cells = ck.run(c, f, {"#": [sym("regs", ("adt", "cairo::register_states::RegisterStates", ())),
                                       sym("mem", ("adt", "cairo::cairo_mem::CairoMemory", ())),
                                       sym("public", ("adt", "cairo::air::PublicInputs", ()))]}, hooks={EXEC: exe})
    if not calls:
        return ck.ob("anchor:execution trace", None, "%s does not call %s" % (BUILD, EXEC), where)
    pub = cells[2]
    tab, wid = field(v, "table"), field(v, "n_cols")
    lo, hi = field(pub, "range_check_min"), field(pub, "range_check_max")
    mem = field(pub, "public_memory")
    # the row constraints, over a row held in one symbol
    rowv = sym("row", ("seq", ("felt",), 61))
    nxt = sym("next", ("seq", ("felt",), 61))
    rap = sym("rap", ("adt", "cairo::air::CairoRAPChallenges", ()))
    con, _, _ = ck.run(c, "spec::cairo::transition", {"#": [rowv, nxt, rap, FALSE]})
    bad, und, good = {}, "", 0

    def fail(k, i, s):
        bad.setdefault(k, "instance %d: %s" % (i, s))
    for i in range(150 if ck.thorough else 45):
        cols = 43 if i % 4 == 3 else 34
        e, rows, want, public, seg = evaluator(ck.seed, i, cols, c)
        try:
            o = ck.refusal(e, ip.obls)
            if o is not None:
                fail("refused", i, "%s in %s stops an ordinary execution" % (o.kind, o.fn))
                good += 1
                continue
            n = e.integer(e.ev(wid))
            t = ints(e, e.ev(tab))
            a, b = e.ev(lo), e.ev(hi)
            mm = e.ck(e.ev(mem)) == e.ck(e.ev(field(sym("public", ("adt", "cairo::air::PublicInputs", ())), "public_memory")))
            a, b = [x.a[0] if isinstance(x, En) and x.var == "Some" else None for x in (a, b)]
            a, b = [None if x is None else e.integer(x) for x in (a, b)]
        except (Undecided, RecursionError) as x:
            und = str(x)
            continue
        good += 1
        if not mm:
            fail("public memory kept", i, "the public memory is changed")
        if n != cols or len(t) % cols:
            fail("shape", i, "%d cells declared as %d columns, %d expected" % (len(t), n, cols))
            continue
        total = len(t) // cols
        if total & (total - 1) or total < rows:
            fail("shape", i, "%d rows are not a power of two" % total)
        if t[:rows * cols] != want:
            j = next((j for j in range(rows * cols) if j >= len(t) or t[j] != want[j]), 0)
            fail("prefix", i, "row %d, column %d of the executed trace is changed" % (j // cols, j % cols))
            continue
        row = lambda j: t[j * cols:(j + 1) * cols]
        offs = sorted(x for j in range(total) for x in row(j)[27:30])
        mine = sorted(x for j in range(rows) for x in row(j)[27:30])
        if (a, b) != (mine[0], mine[-1]):
            fail("range-check bounds", i, "bounds (%s, %s), the offsets span %d..%d" % (a, b, mine[0], mine[-1]))
        gap = next(((x, y) for x, y in zip(offs, offs[1:]) if y - x > 1), None)
        if gap or offs[0] != mine[0] or offs[-1] != mine[-1]:
            fail("range-check holes", i, "no offset between %d and %d" % gap if gap else
                 "the offsets span %d..%d after completion and %d..%d before" % (offs[0], offs[-1], mine[0], mine[-1]))
        acc = [(row(j)[19 + k], row(j)[23 + k]) for j in range(total) for k in range(4)]
        p = len(public)
        tail = [x for x in acc[len(acc) - p:] if x != (0, 0)] if len(acc) - p >= 4 * rows else acc[-1:]
        if tail or len(acc) - p < 4 * rows:
            fail("dummies", i, "the last %d accesses, replaced by the public memory, are not all added zero accesses: %s" % (p, tail[:2]))
        left = acc[:len(acc) - p] + list(public.items())
        one = {}
        for x, y in left:
            if one.setdefault(x, y) != y:
                fail("memory values", i, "address %d has two values" % x)
        addrs = sorted(one)
        gap = next(((x, y) for x, y in zip(addrs, addrs[1:]) if y - x > 1), None)
        if gap:
            fail("memory holes", i, "no access between addresses %d and %d (program of %d cells, output %s)" %
                 (gap[0], gap[1], p - (seg[1] - seg[0] if seg else 0), seg))
        top = max(x for x, y in acc[:4 * rows])
        if addrs[-1] > max(top, max(public)):
            fail("memory holes", i, "address %d is beyond every access" % addrs[-1])
        seen = set(mine), {x for x, y in acc[:4 * rows]}
        last = rows
        for j in range(rows, total):
            new = set(row(j)[27:30]) - seen[0], {x for x in row(j)[19:23] if x} - seen[1]
            if new[0] or new[1]:
                last = j + 1
            seen[0].update(new[0])
            seen[1].update(new[1])
        odd = next((j for j in range(last, total) if row(j) != row(total - 1)), None)
        if odd is not None:
            fail("padding", i, "row %d fills no hole and differs from the last row" % odd)
        try:
            for j in range(rows, total):
                x, y = row(j), row(j + 1) if j + 1 < total else row(j)
                q = Ev("s23c", c, [("row", [Fp(z) for z in x] + [Fp(0)] * (61 - cols)),
                                   ("next", [Fp(z) for z in y] + [Fp(0)] * (61 - cols))])
                for s in ROWCON:
                    z = q.ck(q.ev(idx(con, INT(s))))
                    if z[1] != 0:
                        fail("added rows", i, "added row %d does not satisfy constraint %d" % (j, s))
        except (Undecided, RecursionError) as x:
            und = str(x)
    for nm in NAMES:
        ck.ob(nm, False if nm in bad else None if not good else True,
              bad.get(nm) or (und if not good else "holds in %d random instances" % good), where)
