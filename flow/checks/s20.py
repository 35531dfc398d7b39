"""S20: trace and memory files are read with the layout they are written with."""
import random
from .. import interp, terms as X
from ..terms import sym
from ..front import FELT
from ..ev import Ev, Fp, St, En, Obj, S_, Undecided

META = {
    "level": "proof",
    "explanation": "The value-flow summaries of the writers composed with the importers (for every history and memory) are compared "
                   "with the identity: every row of the history keeps its registers and its place, every present cell keeps its "
                   "address and value and absent cells stay absent; an importer refuses every byte string that is not a whole "
                   "number of the records its writer emits, and no other; importing a file is importing its bytes; the run hands each importer what its writer wrote.",
    "hard": ("run:",),
}
FLOOR = 5
RUN = "cairo::runner::run::run_program"
IMP = {"trace": "cairo::register_states::RegisterStates::from_bytes_le", "memory": "cairo::cairo_mem::CairoMemory::from_bytes_le"}
W = "cairo::runner::vec_writer::VecWriter::write_encoded_"
ENTRY = "cairo_vm::vm::trace::trace_entry::TraceEntry"
TRACE = ("seq", ("adt", "TraceEntry", ()), None)
MEM = ("seq", ("adt", "Option", (FELT,)), None)
BYTES = ("seq", ("int", "u8"), None)
P = 2 ** 251 + 17 * 2 ** 192 + 1


def num(r, bits):
    return r.choice((0, 1, 255, 256, 2 ** (bits // 2), 2 ** bits - 1, r.getrandbits(bits), r.getrandbits(bits), r.getrandbits(bits // 2)))


def trace_of(seed, i):
    r = random.Random("s20t.%s.%d" % (seed, i))
    n = (0, 1, 2, 3, 5, 9, 33)[i % 7] if i != 34 else 300
    return [tuple(num(r, 64) for _ in range(3)) for _ in range(n)]


def memory_of(seed, i):
    r = random.Random("s20m.%s.%d" % (seed, i))
    n = (0, 1, 2, 7, 40, 1, 300)[i % 7]
    cells = [None if r.random() < .3 else num(r, 251) % P for _ in range(n)]
    if cells and i % 2:
        cells[0] = None
    if cells and i % 3 == 0:
        cells[-1] = P - 1
    return cells


def entries(rows):
    return [St(ENTRY, {"pc": a, "ap": b, "fp": c}) for a, b, c in rows]


def cells_of(cells):
    return [En("Option", "None", []) if x is None else En("Option", "Some", [Fp(x)]) for x in cells]


def rows_back(x):
    return [tuple(int(r.f[n]) for n in ("pc", "ap", "fp")) for r in x]


def data_back(e, x):
    return {int(k): v if isinstance(v, Fp) else Fp(int(v)) for k, v in x.d.values()}


def check(ck):
    c = ck.crate(spec=("files",))
    for n in ("trace", "memory"):
        ck.guarded("anchor:" + n, lambda: (ck.fn(c, IMP[n]), ck.fn(c, W + n)))

    def result(e, v, ip, what):
        """(kind, payload) of a Result in interpretation e"""
        o = ck.refusal(e, ip.obls)
        if o is not None:
            return "panic", "%s in %s" % (o.kind, o.fn)
        r = e.ev(v)
        if not isinstance(r, En):
            raise Undecided("not a result")
        return r.var, r.a[0]

    def verdict(key, bad, und, good, where):
        ck.ob(key, False if bad else None if not good else True, bad or (und if not good else "equal in %d interpretations" % good), where)

    def trace():
        t = sym("t", TRACE)
        v, ip, _ = ck.run(c, "spec::files::trace", {"#": [t]})
        bad, und, good = "", "", 0
        for i in range(80 if ck.thorough else 35):
            rows = trace_of(ck.seed, i)
            e = Ev("s20.%d" % i, c, [("FELT_BYTES", 32), ("t", entries(rows))])
            try:
                k, x = result(e, v, ip, "trace")
                ok = k == "Ok" and rows_back(x.f["rows"]) == rows
                x = rows_back(x.f["rows"])[:3] if k == "Ok" else x
            except (Undecided, RecursionError) as x:
                und = str(x)
                continue
            good += 1
            if not ok and not bad:
                bad = "history (pc, ap, fp) %s reads back as %s %s" % (rows[:3], k, str(x)[:300])
        verdict("trace round trip", bad, und, good, IMP["trace"])

    def memory():
        t = sym("t", MEM)
        v, ip, _ = ck.run(c, "spec::files::memory", {"#": [t]})
        bad, und, good = "", "", 0
        for i in range(80 if ck.thorough else 35):
            cells = memory_of(ck.seed, i)
            want = {a: Fp(x) for a, x in enumerate(cells) if x is not None}
            e = Ev("s20.%d" % i, c, [("FELT_BYTES", 32), ("t", cells_of(cells))])
            have = None
            try:
                k, x = result(e, v, ip, "memory")
                if k == "Ok":
                    have = data_back(e, x.f["data"])
            except (Undecided, RecursionError) as x:
                und = str(x)
                continue
            good += 1
            if have != want and not bad:
                d = "" if have is None else ", first difference %s" % ([(a, have.get(a), want.get(a)) for a in sorted(set(have) | set(want)) if have.get(a) != want.get(a)][:2],)
                bad = "memory of %d cells (%d present) reads back as %s%s" % (len(cells), len(want), k if k != "Ok" else "%d cells" % len(have), d)
        verdict("memory round trip", bad, und, good, IMP["memory"])

    def lengths(n, ty, elem):
        w, _, _ = ck.run(c, "spec::files::%s_bytes" % n, {"#": [sym("t", ty)]})
        f = ck.fn(c, IMP[n])
        v, ip, _ = ck.run(c, f, {"#": [sym("b", BYTES)]})
        e = Ev("s20", c, [("FELT_BYTES", 32), ("t", elem)])
        size = len(e.ev(w))
        bad, und, good = "", "", 0
        r = random.Random("s20l.%s" % ck.seed)
        ls = list(range(0, 3 * size + 2)) + [16 * size, 15 * size + 8, 16 * size + size // 2, 7 * size - 1]
        for ln in ls:
            e = Ev("s20.%d" % ln, c, [("FELT_BYTES", 32), ("b", [r.randrange(128) if j % 40 != 39 else 0 for j in range(ln)])])
            try:
                k, x = result(e, v, ip, n)
            except (Undecided, RecursionError) as x:
                und = str(x)
                continue
            good += 1
            if (k == "Ok") != (ln % size == 0) and not bad:
                bad = "%d bytes, with records of %d bytes: %s%s" % (ln, size, k, " " + x if k == "panic" else "")
        verdict(n + " lengths", bad, und, good, f.qual)

    def layout(n, rec, a, b):
        """byte order of a record holding integer a in 8 bytes and then b in 32, None when it is another layout"""
        for order in ("little", "big"):
            if rec == list(a.to_bytes(8, order) + b.to_bytes(32, order)):
                return order
        return None

    def far():
        """records of cells no list of cells in reach holds: large addresses"""
        w, _, _ = ck.run(c, "spec::files::memory_bytes", {"#": [sym("t", MEM)]})
        f = ck.fn(c, IMP["memory"])
        v, ip, _ = ck.run(c, f, {"#": [sym("b", BYTES)]})
        cells = [None] * 513 + [0x1234567890abcdef << 100]
        rec = Ev("s20", c, [("FELT_BYTES", 32), ("t", cells_of(cells))])
        order = layout("memory", rec.ev(w), 513, cells[-1])
        if order is None:
            return ck.ob("far cells", None, "records of another layout", f.qual)
        bad, und, good = "", "", 0
        for i in range(12):
            r = random.Random("s20f.%s.%d" % (ck.seed, i))
            want = {r.getrandbits(r.choice((64, 63, 48, 33, 17))): r.getrandbits(251) % P for _ in range(1 + i % 4)}
            b = [y for a, x in want.items() for y in a.to_bytes(8, order) + x.to_bytes(32, order)]
            e = Ev("s20.%d" % i, c, [("FELT_BYTES", 32), ("b", b)])
            try:
                k, x = result(e, v, ip, "memory")
                have = data_back(e, x.f["data"]) if k == "Ok" else k
            except (Undecided, RecursionError) as x:
                und = str(x)
                continue
            good += 1
            if have != {a: Fp(x) for a, x in want.items()} and not bad:
                bad = "cells %s read back as %s" % (want, have)
        verdict("far cells", bad, und, good, f.qual)

    def run():
        f = ck.fn(c, RUN)
        v, ip, _ = ck.run(c, f, {"#": [sym("entry", ("adt", "Option", (("str",),))), sym("layout", ("adt", "cairo::cairo_layout::CairoLayout", ())),
                                       sym("content", BYTES), X.enum("cairo::runner::run::CairoVersion", "V0", [])]})
        u = X.payload(v, "Ok")
        for n, i, back in (("history", 0, lambda e, x: rows_back(x.f["rows"])), ("memory", 1, lambda e, x: data_back(e, x.f["data"]))):
            bad, und, good = "", "", 0
            for j in range(12):
                rows, cells = trace_of(ck.seed, j), memory_of(ck.seed, j)
                e = Ev("s20.%d" % j, c, [("FELT_BYTES", 32), (r"cairo_run::cairo_run\(.*\)", En("Result", "Ok", [(St("CairoRunner", {"relocated_memory": cells_of(cells)}), 0)])),
                                         (r".*get_relocated_trace.*", En("Result", "Ok", [entries(rows)])),
                                         (r".*relocated_memory", cells_of(cells))])
                want = rows if i == 0 else {a: Fp(y) for a, y in enumerate(cells) if y is not None}
                try:
                    have = back(e, e.ev(X.field(u, str(i))))
                except (Undecided, RecursionError) as y:
                    und = str(y)
                    continue
                good += 1
                if have != want and not bad:
                    bad = "run %d gives %s, the machine's is %s" % (j, str(have)[:200], str(want)[:200])
            verdict("run:" + n, bad, und, good, f.qual)
    def writers():
        """what a writer is given is appended to what it wrote before"""
        v, ip, _ = ck.run(c, "spec::files::appended", {"#": [sym(n, BYTES) for n in "abc"]})
        file = "cairo::runner::file_writer::FileWriter"
        u, _, cells = ck.run(c, ck.fn(c, file + "::write"), {"#": [sym("w", ("adt", file, ())), sym("b", BYTES)]})
        after = cells[0]
        bad, und, good = {}, "", 0
        for j in range(24):
            r = random.Random("s20w.%s.%d" % (ck.seed, j))
            a, b, d = [[r.randrange(256) for _ in range(r.choice((0, 1, 5, 32)))] for _ in range(3)]
            fails = j % 3 == 2
            e = Ev("s20w.%d" % j, c, [("a", a), ("b", b), ("c", d), ("w", St(file, {"buf_writer": list(a), "bytes_written": len(a)}))])
            e.funcs["write_all"] = lambda ev, *x: En("Result", "Err", [7]) if fails else En("Result", "Ok", [()])
            e.funcs["written"] = lambda ev, x, y: list(x) + list(y)
            try:
                x = e.ev(v)
                if x != a + b + d:
                    bad.setdefault("buffer", "%s then %s after %s gives %s" % (b, d, a, x))
                x = e.ev(u)
                if (x.var == "Ok") == fails:
                    bad.setdefault("file", "a write that %s gives %s" % ("fails" if fails else "succeeds", x))
                if not fails:
                    x = e.getf(e.ev(after), "buf_writer"), e.getf(e.ev(after), "bytes_written")
                    if x[0] != a + b:
                        bad.setdefault("file", "%s after %s gives %s" % (b, a, x[0]))
                    if x[1] != len(a) + len(b):
                        bad.setdefault("file", "%d bytes after %d are counted as %s" % (len(b), len(a), x[1]))
            except (Undecided, RecursionError, AttributeError) as y:
                und = str(y)
                continue
            good += 1
        for n in ("buffer", "file"):
            verdict("writer:" + n, bad.get(n, ""), und, good, file)

    def imports(n):
        """importing a file is importing its bytes, whole or not at all"""
        q = IMP[n].replace("from_bytes_le", "from_file")
        if not any(f.qual == q for f in c.fns):
            return
        f = ck.fn(c, q)
        v, ip, _ = ck.run(c, f, {"#": [sym("p", ("str",))]})
        u, iq, _ = ck.run(c, ck.fn(c, IMP[n]), {"#": [sym("b", BYTES)]})
        bad, und, good = "", "", 0
        for j in range(24):
            r = random.Random("s20i.%s.%d" % (ck.seed, j))
            b = [r.randrange(128) for _ in range(r.choice((0, 24, 40, 48, 80, 120, 240, 7, 39, 960)))]
            e = Ev("s20i.%d" % j, c, [("FELT_BYTES", 32), ("b", b), ("p", S_("dir/%d.bin" % j))])
            e.funcs["fs::read"] = lambda ev, x: En("Result", "Err", [Obj("io")]) if j % 5 == 4 or x != "dir/%d.bin" % j else En("Result", "Ok", [list(b)])
            try:
                k, x = result(e, v, ip, n)
                l, y = result(e, u, iq, n)
                same = k == l == "Err" or k == l == "Ok" and e.ck(x) == e.ck(y)
            except (Undecided, RecursionError) as x:
                und = str(x)
                continue
            good += 1
            if j % 5 == 4 and k != "Err":
                bad = bad or "a file that cannot be read gives %s" % k
            elif j % 5 != 4 and not same:
                bad = bad or "a file of %d bytes gives %s, its bytes give %s" % (len(b), k, l)
        verdict(n + " file", bad, und, good, f.qual)
    known = dict(interp.FOREIGN)
    for n in ("trace", "memory"):
        ck.guarded(n + " file", lambda: imports(n), IMP[n])
    if set(interp.FOREIGN) - set(known) <= {"fs::read"}:      # modelled above
        interp.FOREIGN.clear()
        interp.FOREIGN.update(known)
    known = dict(interp.FOREIGN)
    ck.guarded("writers", writers, W)
    if set(interp.FOREIGN) - set(known) <= {"write_all"}:      # modelled above
        interp.FOREIGN.clear()
        interp.FOREIGN.update(known)
    ck.guarded("trace round trip", trace, IMP["trace"])
    ck.guarded("memory round trip", memory, IMP["memory"])
    ck.guarded("trace lengths", lambda: lengths("trace", TRACE, entries([(1, 2, 3)])), IMP["trace"])
    ck.guarded("memory lengths", lambda: lengths("memory", MEM, cells_of([5])), IMP["memory"])
    ck.guarded("far cells", far, IMP["memory"])
    # the virtual machine is not modelled: what it is asked is free, and decides nothing of the above
    known = dict(interp.FOREIGN)
    ck.guarded("run:", run, RUN)
    interp.FOREIGN.clear()
    interp.FOREIGN.update(known)
