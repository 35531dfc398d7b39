"""S25: public inputs describe the execution they were built from."""
import random
from .. import terms as X
from ..terms import sym, field, mk, struct, Ok, Some
from ..front import USIZE
from ..interp import un
from ..ev import Ev, Fp, St, En, Mp, Undecided

META = {
    "level": "proof",
    "explanation": "The value-flow summary of PublicInputs::from_regs_and_mem (for every register history, memory, program size and "
                   "segment map) is compared field by field with what the execution says, in random interpretations with and "
                   "without output cells; generate_prover_args, with the run and the trace builder as free functions, must return "
                   "the trace built from the same registers, memory and public inputs that it returns.",
}
FLOOR = 8
NEW = "cairo::air::PublicInputs::from_regs_and_mem"
GEN = "cairo::runner::run::generate_prover_args"
RUN = "cairo::runner::run::run_program"
BUILD = "cairo::execution_trace::build_main_trace"
REGS, MEM = ("adt", "cairo::register_states::RegisterStates", ()), ("adt", "cairo::cairo_mem::CairoMemory", ())
RANGE = ("range", ("int", "u64"))
ORANGE = ("adt", "Option", (RANGE,))


def instance(seed, i):
    r = random.Random("s25.%s.%d" % (seed, i))
    steps = 1 + r.randrange(5)
    size = r.randrange(0, 9)
    rows = [tuple(r.getrandbits(40) for _ in range(3)) for _ in range(steps)]
    if i % 4 == 3:
        rows[-1] = rows[0]
    out = None
    if i % 3:
        a = size + 1 + r.randrange(20)
        out = (a, a + r.randrange(0, 5))
    rc = (100, 100 + r.randrange(5)) if i % 2 else None
    cells = {a: r.getrandbits(240) for a in range(1, 60)}
    cells[0] = 77
    for a in r.sample(range(61, 200), 5):
        cells[a] = r.getrandbits(100)
    return rows, cells, size, out, rc


def rng(x):
    return St("Range", {"start": x[0], "end": x[1]})


def opt(x):
    return En("Option", "Some", [rng(x)]) if x else En("Option", "None", [])


def evaluator(seed, i, c):
    rows, cells, size, out, rc = instance(seed, i)

    def sg(e):
        d = {}
        for n, x in (("RangeCheck", rc), ("Output", out)):
            if x:
                k = En("cairo::air::MemorySegment", n, [])
                d[e.ck(k)] = (k, rng(x))
        return Mp(d, False, True)
    e = Ev("s25.%d" % i, c, [
        ("FELT_BYTES", 32),
        ("regs", St("cairo::register_states::RegisterStates", {"rows": [
            St("cairo::register_states::RegistersState", {"pc": a, "fp": b, "ap": d}) for a, b, d in rows]})),
        (r"mem\.data", lambda ev, m: Mp({ev.ck(a): (a, Fp(x)) for a, x in cells.items()}, False, True)),
        ("seg", lambda ev, m: sg(ev)),
        ("size", size), ("rc", opt(rc)), ("out", opt(out)),
    ])
    return e, rows, cells, size, out, rc, sg


FIELDS = ["pc_init", "ap_init", "fp_init", "pc_final", "ap_final", "num_steps", "public_memory", "memory_segments"]


def check(ck):
    c = ck.crate(spec=("public",))
    f = ck.fn(c, NEW)
    g = ck.fn(c, GEN)
    regs, mem = sym("regs", REGS), sym("mem", MEM)

    def built():
        t = c.field_ty(("adt", "cairo::air::PublicInputs", ()), "memory_segments")
        s = sym("seg", t)
        v, ip, _ = ck.run(c, f, {"#": [regs, mem, sym("size", USIZE), s]})
        bad, und, good = {}, "", 0
        for i in range(80 if ck.thorough else 36):
            e, rows, cells, size, out, rc, sg = evaluator(ck.seed, i, c)
            try:
                o = ck.refusal(e, ip.obls)
                if o is not None:
                    bad.setdefault("refused", "instance %d: %s in %s stops an ordinary execution" % (i, o.kind, o.fn))
                    good += 1
                    continue
                have = {n: e.ck(e.ev(field(v, n))) for n in FIELDS}
                pubmem = {a: cells[a] for a in list(range(1, size + 1)) + (list(range(*out)) if out else [])}
                want = {"pc_init": Fp(rows[0][0]), "fp_init": Fp(rows[0][1]), "ap_init": Fp(rows[0][2]),
                        "pc_final": Fp(rows[-1][0]), "ap_final": Fp(rows[-1][2]), "num_steps": len(rows),
                        "public_memory": Mp({e.ck(Fp(a)): (Fp(a), Fp(x)) for a, x in pubmem.items()}, False, True),
                        "memory_segments": sg(e)}
                want = {n: e.ck(x) for n, x in want.items()}
            except (Undecided, RecursionError) as x:
                und = str(x)
                continue
            good += 1
            for n in FIELDS:
                if have[n] != want[n]:
                    bad.setdefault(n, "instance %d (registers %s, program of %d cells, output %s): %s, required %s" %
                                   (i, rows, size, out, str(have[n])[:160], str(want[n])[:160]))
        for n in FIELDS + ["refused"]:
            ck.ob(n, False if n in bad else None if not good else True, bad.get(n) or (und if not good else "equal in %d interpretations" % good),
                  f.qual)

    def generated():
        calls = {"run": 0, "build": 0}
        size, rc, out = sym("size", USIZE), sym("rc", ORANGE), sym("out", ORANGE)

        def run(ip, args, fn):
            calls["run"] += 1
            return Ok(mk("tuple", regs, mem, size, rc))

        def build(ip, args, fn):
            calls["build"] += 1
            a, b = ip.deref(args[0]), ip.deref(args[1])
            p = ip.deref(args[2])
            t = mk("call", "main_trace", a, b, p)
            X._types[t] = ("adt", "starks::trace::TraceTable", (("felt",),))
            q = X.set_field(X.set_field(p, "range_check_min", Some(mk("call", "low", a, b, p))), "range_check_max", Some(mk("call", "high", a, b, p)))
            ip.write(un(args[2]), q)
            return t
        hooks = {RUN: run, BUILD: build}
        u, ip, _ = ck.run(c, g, {"#": [sym("content", ("seq", ("int", "u8"), None)), sym("version", ("adt", "cairo::runner::run::CairoVersion", ())), out]},
                          hooks=hooks)
        if not calls["run"] or not calls["build"]:
            return ck.ob("anchor:%s" % GEN, None, "the run or the trace builder is not called", g.qual)
        w, _, _ = ck.run(c, "spec::public::args", {"#": [regs, mem, size, rc, out]}, hooks=hooks)
        u = X.payload(u, "Ok")
        names = ["trace", "public inputs"]
        bad, und, good = {}, "", 0
        for i in range(40):
            e = evaluator(ck.seed, i, c)[0]
            try:
                a, b = e.ev(u), e.ev(w)
                a, b = [e.ck(x) for x in a], [e.ck(x) for x in b]
            except (Undecided, RecursionError) as x:
                und = str(x)
                continue
            good += 1
            for n, x, y in zip(names, a, b):
                if x != y:
                    bad.setdefault(n, "instance %d: %s, required %s" % (i, str(x)[:300], str(y)[:300]))
        for n in names:
            ck.ob("generated:" + n, False if n in bad else None if not good else True,
                  bad.get(n) or (und if not good else "equal in %d interpretations" % good), g.qual)
    ck.guarded("built", built, f.qual)
    ck.guarded("generated", generated, g.qual)
