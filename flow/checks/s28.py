"""S28: what a run hands over is what the machine produced."""
import random
from .. import interp, terms as X
from ..terms import sym
from ..front import FELT
from ..ev import Ev, Fp, St, En, S_, Undecided
from .s20 import trace_of, memory_of, entries, cells_of, rows_back, data_back, BYTES, RUN

META = {
    "level": "proof",
    "explanation": "The value-flow summary of run_program, for both program versions, with the virtual machine's answers (the relocated "
                   "trace and memory, the program's length, the segments' sizes, the range check builtin's segment) as free functions, "
                   "is compared with those answers in random interpretations: registers, memory, program length and the relocated "
                   "range of the range check segment. A failing machine makes the run fail; the machine is asked for the given "
                   "program, entry point and layout, with tracing and relocation on; a Cairo 1 contract is entered by its calling convention.",
    "hard": ("",),
}
FLOOR = 10
VERSION = "cairo::runner::run::CairoVersion"
LAYOUT = "cairo::cairo_layout::CairoLayout"
NAMES = {"Plain": "plain", "Small": "small", "Dex": "dex", "Recursive": "recursive", "Starknet": "starknet",
         "StarknetWithKeccak": "starknet_with_keccak", "RecursiveLargeOutput": "recursive_large_output", "AllCairo": "all_cairo",
         "AllSolidity": "all_solidity", "Dynamic": "dynamic"}
NONE = En("Option", "None", [])


def some(x):
    return En("Option", "Some", [x])


def ok(x):
    return En("Result", "Ok", [x])


def err(x=0):
    return En("Result", "Err", [x])


class Machine:
    """the answers of one run of the virtual machine"""

    def __init__(s, seed, i):
        r = random.Random("s28.%s.%d" % (seed, i))
        s.rows, s.cells = trace_of(seed, 34 if i == 5 else i), memory_of(seed, i)
        long = 1000 if i % 3 == 2 else 1      # programs and segments of more than 2^16 cells too
        s.size = r.randrange(1, 400 * long)
        n = 1 + r.randrange(6)
        s.sizes = [r.randrange(0, 150 * long) for _ in range(n)]
        s.index = (0, n - 1, r.randrange(n))[i % 3] if n > 1 else 0
        s.used = None if i % 4 == 1 else r.randrange(0, 150 * long)
        s.unknown = {k for k in range(n) if r.random() < .15}
        s.builtin = i % 5 != 2
        s.asked = None

    def install(s, e):
        tr, runner, vm = ok(entries(s.rows)), St("CairoRunner", {"relocated_memory": cells_of(s.cells)}), St("VirtualMachine", {})

        def run(ev, *a):
            s.asked = a
            return ok((runner, vm))
        get = lambda k: some(s.sizes[k]) if k < len(s.sizes) and k not in s.unknown else NONE
        e.funcs.update({
            "cairo_run::cairo_run": run,
            "cairo_run": run,
            "CairoRunner::new": lambda ev, *a: ok(runner),
            "m:get_relocated_trace": lambda ev, *a: tr,
            "m:get_program": lambda ev, *a: St("Program", {}),
            "m:data_len": lambda ev, *a: s.size,
            "m:get_range_check_builtin": lambda ev, *a: ok(St("RangeCheckBuiltinRunner", {})) if s.builtin else err(),
            "m:get_memory_segment_addresses": lambda ev, *a: (s.index, NONE if s.used is None else some(s.used)),
            "m:base": lambda ev, *a: s.index,
            "m:get_segment_size": lambda ev, k: get(ev.integer(k)),
        })
        for n, f in e.funcs.items():
            if n not in ("cairo_run::cairo_run", "cairo_run"):
                f.needs = (1,) if n == "m:get_segment_size" else ()

    def segment(s):
        if not s.builtin:
            return None
        base = 1 + sum(0 if k in s.unknown else s.sizes[k] for k in range(s.index))
        return base, base + (s.used or 0)


MODELLED = {"cairo_run::cairo_run", "cairo_run", "CairoRunner::new", "m:get_relocated_trace", "m:get_program", "m:data_len", "m:get_range_check_builtin",
            "m:get_memory_segment_addresses", "m:base", "m:get_segment_size", "default:unk"}


def unmodelled(v):
    """calls the value depends on other than through the answers of the machine"""
    out, todo, seen = set(), [v], set()
    while todo:
        t = todo.pop()
        if not isinstance(t, X.T) or id(t) in seen:
            continue
        seen.add(id(t))
        if t.op == "call":
            n = t.args[0]
            if n in MODELLED:
                todo += [x for x in t.args[2:]]
                continue
            if n in interp.FOREIGN:
                out.add(n)
        if t.op == "field" and "relocated_memory" in t.args:
            continue
        for x in t.args:
            todo += x if isinstance(x, tuple) else [x]
    return out


def check(ck):
    c = ck.crate()
    f = ck.fn(c, RUN)

    def verdict(key, bad, und, good, foreign=()):
        ok_ = False if bad else None if not good else True
        if bad and foreign:
            ok_, bad = None, "depends on calls without a model (%s): %s" % (", ".join(sorted(foreign))[:200], bad)
        ck.ob(key, ok_, bad or (und if not good else "equal in %d interpretations" % good), f.qual)

    def one(version):
        entry = sym("entry", ("adt", "Option", (("str",),)))
        v, ip, _ = ck.run(c, f, {"#": [entry, sym("layout", ("adt", LAYOUT, ())), sym("content", BYTES), X.enum(VERSION, version, [])]})
        u = X.payload(v, "Ok")
        foreign = unmodelled(u)
        parts = [("registers", lambda e: rows_back(e.ev(X.field(u, "0")).f["rows"]), lambda m: m.rows),
                 ("memory", lambda e: data_back(e, e.ev(X.field(u, "1")).f["data"]), lambda m: {a: Fp(y) for a, y in enumerate(m.cells) if y is not None}),
                 ("program length", lambda e: e.integer(e.ev(X.field(u, "2"))), lambda m: m.size),
                 ("range check segment", lambda e: segment(e, e.ev(X.field(u, "3"))), lambda m: m.segment())]
        for n, back, want in parts:
            bad, und, good = "", "", 0
            for j in range(60 if ck.thorough else 24):
                m, e = machine(j)
                try:
                    have, w = back(e), want(m)
                except (Undecided, RecursionError) as y:
                    und = str(y)
                    continue
                good += 1
                if have != w and not bad:
                    bad = "run %d (segment sizes %s, unknown %s, range check segment %d, used %s) gives %s, required %s" % (
                        j, m.sizes, sorted(m.unknown), m.index, m.used, str(have)[:160], str(w)[:160])
            verdict("%s:%s" % (version, n), bad, und, good, foreign)
        return v

    def machine(j, layout="Small", entry=None):
        e = Ev("s28.%d" % j, c, [("FELT_BYTES", 32), ("layout", En(LAYOUT, layout, [])), ("entry", NONE if entry is None else some(entry)),
                                 ("content", [1, 2, 3, j % 256])])
        m = Machine(ck.seed, j)
        m.install(e)
        return m, e

    def segment(e, x):
        if x.var == "None":
            return None
        r = x.a[0]
        return e.integer(r.f["start"]), e.integer(r.f["end"])

    def asked():
        v = one("V0")
        bad, und, good = {}, "", 0
        for j, (name, text) in enumerate(NAMES.items()):
            entry = (None, "other")[j % 2]
            m, e = machine(j, name, entry)
            try:
                e.ev(v)
                if m.asked is None:
                    raise Undecided("the machine is not run through cairo_run")
                a = m.asked
                cfg = next((x for x in a if isinstance(x, St) and "layout" in x.f), None)
                if cfg is None:
                    raise Undecided("no configuration is passed")
                have = {"program": a[0], "layout": cfg.f["layout"], "entry point": cfg.f.get("entrypoint"),
                        "relocation": cfg.f.get("relocate_mem"), "tracing": cfg.f.get("trace_enabled")}
                want = {"program": [1, 2, 3, j % 256], "layout": text, "entry point": entry or "main", "relocation": True, "tracing": True}
                pairs = [(n, plain(have[n]), want[n]) for n in want]
            except (Undecided, RecursionError) as y:
                und = str(y)
                continue
            good += 1
            for n, h, w in pairs:
                if h != w:
                    bad.setdefault(n, "the machine is asked with %s %s, required %s" % (n, h, w))
        for n in ("program", "layout", "entry point", "relocation", "tracing"):
            verdict("request:" + n, bad.get(n, ""), und, good)
        # a failure of the machine is a failure of the run
        for n, name, is_run in (("the run", "cairo_run::cairo_run", True), ("the relocated trace", "m:get_relocated_trace", False)):
            m, e = machine(4)
            e.funcs[name] = lambda ev, *a: err(7)
            if is_run:
                e.funcs["cairo_run"] = e.funcs[name]
            try:
                r = e.ev(v)
                bad = "" if isinstance(r, En) and r.var == "Err" else "a failure of %s gives %s" % (n, str(r)[:120])
                verdict("failure:" + n, bad, "", 1)
            except (Undecided, RecursionError) as y:
                verdict("failure:" + n, "", str(y), 0)

    def plain(x):
        x = getattr(x, "s", x) if not isinstance(x, (list, str, bool, int)) else x
        if not isinstance(x, (list, bool, int)) and str(x).startswith("<"):
            raise Undecided("no value: %s" % x)
        return x if isinstance(x, (list, bool, int)) else str(x)

    def started():
        """the machine of the newer version is made with tracing on and its memory is relocated"""
        v = one("V1")
        calls = X.find(v, lambda t: t.op == "call")
        for key, name, at in (("tracing", "VirtualMachine::new", 1), ("relocation", "m:relocate.out", -1)):
            hits = [t for t in calls if t.args[0] == name]
            if not hits:
                other = [t for t in calls if "reloc" in t.args[0] and "relocated" not in t.args[0]]
                ck.ob("V1:" + key, False if key == "relocation" and not other else None, "no call of %s" % name, f.qual)
                continue
            off = [t for t in hits if t.args[at] is X.FALSE]
            ck.ob("V1:" + key, not off, "%s is %s" % (name, "asked without it" if off else "asked for it"), f.qual)

    def convention():
        """a contract's entry point gets the stacks of its builtins, gas, the system segment and the call data"""
        v, ip, _ = ck.run(c, f, {"#": [sym("entry", ("adt", "Option", (("str",),))), sym("layout", ("adt", LAYOUT, ())), sym("content", BYTES), X.enum(VERSION, "V1", [])]})
        roots = [v] + [o.cond for o in ip.obls]
        calls = {id(t): t for x in roots for t in X.find(x, lambda t: t.op == "call")}.values()
        starts = [t for t in calls if t.args[0] in ("m:run_from_entrypoint", "m:run_from_entrypoint.out") and len(t.args) == 9]
        if not starts:
            return ck.ob("V1:entry point", None, "no call of run_from_entrypoint", f.qual)
        bad, und, good = {}, "", 0
        for j in range(12):
            r = random.Random("s28v.%s.%d" % (ck.seed, j))
            names = ["range_check", "pedersen", "bitwise", "ec_op", "poseidon", "segment_arena"]
            have = [St("B", {"n": S_(n), "s": [("stack", n, k) for k in range(r.randrange(1, 3))]}) for n in r.sample(names, r.randrange(1, 6))]
            used = r.sample(names, r.randrange(0, 5))
            size, base = r.randrange(1, 500 if j % 2 else 500000), ("base",)
            e = Ev("s28v.%d" % j, c, [])
            g = e.funcs
            g["m:name"] = lambda ev, b: b.f["n"]
            g["m:initial_stack"] = lambda ev, b: list(b.f["s"])
            g["m:get_builtin_runners"] = lambda ev, m: list(have)
            g["m:get_program_builtins"] = lambda ev, m: [St("B", {"n": S_(n), "s": []}) for n in used]
            g["m:add_memory_segment"] = lambda ev, m: ("segment",)
            g["m:load_data"] = lambda ev, m, p, d: ok(("end", len(d)))
            g["m:data_len"] = lambda ev, p: size
            for n in ("CairoArg::from", "MaybeRelocatable::from"):
                g[n] = lambda ev, x: x
            for n in ("CairoRunner::new", "try_into", "serde_json::from_slice"):
                g[n] = lambda ev, *a: ok(St("CairoRunner", {"program_base": some(base), "hints": ("hints",)}))
            for n in ("m:initialize_function_runner_cairo_1.out", "VirtualMachine::new", "Cairo1HintProcessor::new"):
                g[n] = lambda ev, *a: a[-1] if a and a[-1] == ("hints",) else ("machine",)
                if not n.startswith("Cairo1"):
                    g[n].needs = ()
            try:
                t = starts[0].args
                args = [e.ev(x) for x in e.ev(t[3])] if not isinstance(e.ev(t[3]), list) else e.ev(t[3])
                stack = [x for b in have if str(b.f["n"]) in used for x in b.f["s"]]
                rest = args[len(stack):]
                first, limit, hints = e.ev(t[2]), e.ev(t[6]), e.ev(t[8])
                if args[:len(stack)] != stack or len(rest) != 4:
                    bad.setdefault("arguments", "with builtins %s the arguments are %s" % (sorted(used), args))
                elif not isinstance(rest[0], int) or rest[0] < 2 ** 32 or rest[1] != ("segment",) or rest[2] != ("segment",) or rest[3] != ("end", 0):
                    bad.setdefault("arguments", "after the builtins come %s, required gas, the system segment, the call data's start and end" % (rest,))
                if first != 0:
                    bad.setdefault("entry point", "starts at %s" % first)
                if limit.var == "Some" and limit.a[0] != size + 2:
                    bad.setdefault("program size", "a program of %d words with its footer counts as %s" % (size, limit.a[0]))
                if hints != ("hints",):
                    bad.setdefault("hints", "the hints are not the contract's")
            except (Undecided, RecursionError, AttributeError, TypeError, KeyError, IndexError) as y:
                und = str(y)
                continue
            good += 1
        for n in ("arguments", "entry point", "program size", "hints"):
            verdict("V1:" + n, bad.get(n, ""), und, good)
        # what follows the program: a return, and the costs' address
        foot = []
        for t in calls:
            if t.args[0] == "m:load_data" and len(t.args) == 4:
                n = [X.ival(y) for y in X.find(t.args[3], lambda y: X.ival(y) is not None)]
                if max(n or [0]) > 2 ** 32:
                    foot.append((t, n))
        if not foot:
            return ck.ob("V1:footer", None, "no footer is loaded", f.qual)
        ck.ob("V1:footer", all(0x208B7FFF7FFF7FFE in n for _, n in foot), "the footer holds %s, required a return 0x208b7fff7fff7ffe" % [hex(x) for x in foot[0][1] if x > 2 ** 32], f.qual)

    known = dict(interp.FOREIGN)
    ck.guarded("request:", asked, RUN)
    ck.guarded("V1:", convention, RUN)
    ck.guarded("V1:", started, RUN)
    interp.FOREIGN.clear()
    interp.FOREIGN.update(known)
