"""S12: the main trace records the Cairo instruction semantics of every step."""
import random
from . import airs
from .. import terms as X
from ..terms import sym, field, INT
from ..front import USIZE
from ..ev import Ev, Fp, St, En, Mp, Undecided, P

META = {
    "level": "proof",
    "explanation": "The value-flow summary of build_cairo_execution_trace (for every list of register states, memory and public "
                   "input) is compared column by column with the instruction semantics in /verif/spec/maintrace.rs, in random "
                   "interpretations covering every combination of the instruction groups; the panic obligations collected on its "
                   "paths must fail exactly on the instructions whose operands or result are undefined.",
}
FLOOR = 20
NAMES = ["flag %d" % i for i in range(16)] + ["res", "ap", "fp", "pc", "dst address", "op0 address", "op1 address", "instruction",
                                              "dst", "op0", "op1", "dst offset", "op0 offset", "op1 offset", "t0", "t1", "mul",
                                              "selector"] + ["range-check limb %d" % i for i in range(8)] + ["range-check value"]
GROUPS = [(0, (0, 1)), (1, (0, 1)), (2, (0, 1, 2, 4)), (5, (0, 1, 2)), (7, (0, 1, 2, 4)), (10, (0, 1, 2)), (12, (0, 1, 2, 4))]
WIDE = {2: 3, 5: 2, 7: 3, 10: 2, 12: 3}


def word(r, bad=None):
    """a random instruction word with defined operands and result; `bad` names what is undefined instead"""
    g = {lo: r.choice(vs) for lo, vs in GROUPS}
    if g[7] == 4:
        g[5], g[12] = 0, 0
        g[10] = r.choice((0, 2))
    if bad == "jnz":
        g[7] = 4
        k = r.choice((5, 12, 10))
        g[5], g[12], g[10] = 0, 0, r.choice((0, 2))
        g[k] = {5: r.choice((1, 2)), 12: r.choice((1, 2, 4)), 10: 1}[k]
    elif bad == "group":
        lo = r.choice(sorted(WIDE))
        g[lo] = r.choice([v for v in range(1 << WIDE[lo]) if v & (v - 1)])
    w = sum(v << (48 + lo) for lo, v in g.items())
    for k in range(3):
        w |= r.choice((0x7fff, 0x8000, 0x8001, 0, 0xffff, r.randrange(0x10000))) << (16 * k)
    return w, g


def instance(seed, i, rc, bad=None):
    r = random.Random("%s.%d.%s.%s" % (seed, i, rc, bad))
    n = 1 + r.randrange(5) if not rc else 3 + r.randrange(4)
    mem, rows = {}, []
    cells = {}

    def cell(a, v=None):
        if a not in cells:
            cells[a] = r.choice((0, 1, r.getrandbits(64), r.getrandbits(250))) if v is None else v
        return cells[a]
    at = r.randrange(n)
    for j in range(n):
        w, g = word(r, bad if bad in ("jnz", "group") and j == at else None)
        pc, ap, fp = (1 << 20) * (j + 1), (1 << 41) + (j << 24), (1 << 42) + (j << 24)
        off = [((w >> (16 * k)) & 0xffff) - 0x8000 for k in range(3)]
        if g[2] == 1 and off[2] == 0:
            # the operand of an immediate is not the instruction itself
            w = (w & ~(0xffff << 32)) | (0x8001 << 32)
            off[2] = 1
        cell(pc, w)
        if r.random() < .2 and j:
            pc = rows[r.randrange(j)][0] if False else pc
        a, b = (fp if g[0] else ap) + off[0], (fp if g[1] else ap) + off[1]
        if g[2] == 0:
            v = cell(b, (1 << 43) + (j << 24)) if g[12] != 1 else cell(b, pc + 1)
            if g[12] == 1 and off[2] == 0:
                pass
            base = v % (1 << 64)
        else:
            base = {1: pc, 2: fp, 4: ap}[g[2]] if g[2] in (1, 2, 4) else None
        need = [a, b] + ([base + off[2]] if base is not None and base + off[2] >= 0 else [])
        for x in need:
            cell(x)
        rows.append((pc, fp, ap))
        if bad == "cell" and j == at:
            gone = r.choice(need)
    if bad == "cell":
        cells.pop(gone, None)
    seg = None
    if rc:
        k = r.randrange(0, n + 1)
        seg = (1 << 50, (1 << 50) + k)
        for a in range(*seg):
            cell(a, r.choice((0, (1 << 128) - 1, r.getrandbits(128), 0xffff << (16 * r.randrange(8)))))
    return rows, cells, seg


def evaluator(seed, i, rc, c, bad=None):
    rows, cells, seg = instance(seed, i, rc, bad)

    def mp(e):
        return Mp({e.ck(a): (a, Fp(x)) for a, x in cells.items()}, False, True)

    def sg(e):
        d = {}
        if seg:
            k = En("cairo::air::MemorySegment", "RangeCheck", [])
            d[e.ck(k)] = (k, St("Range", {"start": seg[0], "end": seg[1]}))
        return Mp(d, False, True)
    e = Ev("s12.%s.%d.%s" % (seed, i, bad), c, [
        ("FELT_BYTES", 32),
        ("arg0", St("cairo::register_states::RegisterStates", {"rows": [
            St("cairo::register_states::RegistersState", {"pc": a, "fp": b, "ap": d}) for a, b, d in rows]})),
        (r"arg1\.data", lambda ev, m: mp(ev)),
        (r"arg2\.memory_segments", lambda ev, m: sg(ev)),
    ])
    return e, rows, cells, seg


def check(ck):
    c = ck.crate(spec=("maintrace",))
    f = ck.fn(c, "cairo::execution_trace::build_cairo_execution_trace")
    where = f.qual
    a0, a1 = sym("arg0", ("adt", "cairo::register_states::RegisterStates", ())), sym("arg1", ("adt", "cairo::cairo_mem::CairoMemory", ()))

    def summaries():
        v, ip, _ = ck.run(c, f, {"#": [a0, a1, sym("arg2", ("adt", "cairo::air::PublicInputs", ()))]})
        step = sym("step", USIZE)
        w, _, _ = ck.run(c, "spec::maintrace::row", {"#": [a0, a1, step]})
        return v, ip, step, w
    v, ip, step, w = summaries()
    tab, wid = field(v, "table"), field(v, "n_cols")

    def columns(rc):
        bad, und, good = {}, "", 0
        label = "range-check builtin" if rc else "plain"
        for i in range(120 if ck.thorough else 40):
            e, rows, cells, seg = evaluator(ck.seed, i, rc, c)
            n = 43 if rc else 34
            try:
                o = ck.refusal(e, ip.obls)
                if o is not None:
                    bad.setdefault("accepted", "instance %d: %s in %s refuses a defined execution" % (i, o.kind, o.fn))
                    continue
                have = [e.ck(x) for x in e.seq(e.ev(tab))]
                k = e.integer(e.ev(wid))
                want = []
                for j in range(len(rows)):
                    r = [e.ck(x) for x in e.seq(e.ev(X.subst(w, {step: INT(j)})))]
                    if rc:
                        x = cells[seg[0] + j] if j < seg[1] - seg[0] else 0
                        r += [("n", (x >> (16 * t)) & 0xffff) for t in range(8)] + [("n", x)]
                    want += r
            except (Undecided, RecursionError) as x:
                und = str(x)
                continue
            if k != n or len(have) != len(want):
                bad.setdefault("shape", "%d columns and %d cells for %d steps" % (k, len(have), len(rows)))
                continue
            good += 1
            for j in range(len(want)):
                if have[j] != want[j]:
                    bad.setdefault(NAMES[j % n], "instance %d, step %d (word %#x): %s, required %s" %
                                   (i, j // n, cells[rows[j // n][0]], str(have[j])[:60], str(want[j])[:60]))
        for nm in ["accepted", "shape"] + NAMES[:43 if rc else 34]:
            ck.ob("%s:%s" % (label, nm), False if nm in bad else None if not good else True,
                  bad.get(nm) or (und if not good else "equal in %d random instances" % good), where)

    def undefined(kind):
        bad, und, good = "", "", 0
        for i in range(60 if ck.thorough else 25):
            e, rows, cells, seg = evaluator(ck.seed, i, False, c, kind)
            try:
                o = ck.refusal(e, ip.obls)
            except (Undecided, RecursionError) as x:
                und = str(x)
                continue
            good += 1
            if o is None:
                bad = bad or "instance %d is recorded: instruction words %s" % (i, [hex(cells[r[0]]) for r in rows])
        ck.ob("refused:" + kind, False if bad else None if not good else True, bad or und or "refused in %d instances" % good, where)
    for rc in (False, True):
        ck.guarded("columns", lambda: columns(rc), where)
    for kind in ("group", "jnz", "cell"):
        ck.guarded("refused:" + kind, lambda: undefined(kind), where)
