"""S16: the proof file of the command-line program."""
import random
import re
from .. import interp, terms as X
from ..terms import mk, sym
from ..ev import Ev, En, Fp, Obj, S_, Undecided
from ..front import UNK
from .bytesobj import pairs, Gen, adt, evaluator, ROOTS
from .s15 import corrupt, systematic

META = {
    "level": "proof",
    "explanation": "The value-flow and effect summary of main covers every command line and every answer of the file system, the runner, of the prover and "
                   "of the verifier. The effects (files written, prover and verifier calls with their arguments, messages) with "
                   "their path conditions are evaluated on random proofs, public inputs and corrupted files: what prove writes "
                   "is the length, the proof and the public inputs, verify hands exactly these and the same options to the verifier, "
                   "the message follows the verdict, a bad file is reported, and no obligation of main fails.",
    "hard": ("file:", "verify:", "verdict:", "corrupt:", "arguments:", "prove:", "options:"),
}
FLOOR = 6
NEGATIVE = re.compile("error|fail|can.?t|cannot|not |unable|invalid|corrupt|malformed|truncated|short|bad |wrong|refus|reject|abort")
SP, PI = ROOTS
MODELLED = {"m:serialize", "env::args", "fs::read", "fs::write", "File::create", "File::open", "File::write_all"}
HOOK = {"gpa": "cairo::runner::run::generate_prover_args", "gcp": "cairo::air::generate_cairo_proof", "vcp": "cairo::air::verify_cairo_proof"}


def result(t):
    return ("adt", "Result", (t, UNK))


def check(ck, which=None):
    known = set(interp.FOREIGN)
    ck.guarded("anchor:main", lambda: body(ck, which), "main")
    for n in MODELLED - known:      # answered by the world below
        interp.FOREIGN.pop(n, None)


def body(ck, which):
    c = ck.crate(main=True)
    main = [f for f in c.fns if f.qual == "__main__::main"]
    if not main or any(q not in pairs(c) for q in ROOTS):
        ck.ob("anchor:main", False, "main, or a reader or writer of the proof or the public inputs, is missing", "src/main.rs")
        return
    tys = {"gpa": result(("tuple", (UNK, ("adt", PI, ())))), "gcp": result(adt(c, SP)), "vcp": ("bool",)}

    def hook(n):
        return lambda ip, args, fn: ip.effect(n, args, tys[n])
    v, ip, _ = ck.run(c, main[0], {}, hooks={q: hook(n) for n, q in HOOK.items()}, texts=True)
    w = {q: ck.run(c, pairs(c)[q][0], {"#": [sym("x", adt(c, q))]})[0] for q in ROOTS}
    where = "src/main.rs"
    ok_ = lambda x: En("Result", "Ok", [x])
    err = En("Result", "Err", [Obj("io")])

    class World:
        def __init__(s, seed, args, files=None, read=True, write=True, run=True, prove=True, verdict=True):
            rr = s.rr = random.Random("s16.%s.%s" % (ck.seed, seed))
            e0 = evaluator(c, "s16.%s" % seed, [])
            s.pi = Gen(c, rr, e0).gen(adt(c, PI))
            s.proof = Gen(c, rr, e0).gen(adt(c, SP))
            s.trace = Obj("trace%d" % rr.getrandbits(30))
            s.reads = set()
            s.program = [rr.randrange(256) for _ in range(5)]
            s.args = [S_(a) for a in args]
            e = s.e = evaluator(c, "s16.%s" % seed, [])
            f = e.funcs
            f["env::args"] = lambda ev: s.args

            def rd(ev, p):
                s.reads.add(str(p))
                if not read or isinstance(files, dict) and str(p) not in files:
                    return err
                return ok_(list(files[str(p)] if isinstance(files, dict) else s.program if files is None else files))
            f["fs::read"] = rd
            f["fs::write"] = lambda ev, p, b: ok_(()) if write else err
            f["File::create"] = lambda ev, p: ok_(Obj("file")) if write else err
            f["File::open"] = lambda ev, p: ok_(Obj("file")) if read else err
            f["File::write_all"] = lambda ev, p, b: ok_(())
            f["str.contains"] = lambda ev, t, u: str(u) in str(t)
            f["str.starts_with"] = lambda ev, t, u: str(t).startswith(str(u))
            f["str.ends_with"] = lambda ev, t, u: str(t).endswith(str(u))
            f["str.is_empty"] = lambda ev, t: not str(t)
            f["gpa"] = lambda ev, *a: ok_((s.trace, s.pi)) if run else err
            f["gcp"] = lambda ev, *a: ok_(s.proof) if prove else err
            f["vcp"] = lambda ev, *a: verdict
            s.seed = seed

        def panic(s):
            o = ck.refusal(s.e, ip.obls)
            return o and "%s in %s" % (o.kind, o.fn)

        def effects(s, *names):
            return [(n, [s.e.ev(x) for x in a]) for n, a, p in ip.effects if n in names and all(s.e.truth(s.e.ev(x)) for x in p)]

        def texts(s):
            out = []
            for n, t, p, fn, vals in ip.prints:
                if n != "exit" and all(s.e.truth(s.e.ev(x)) for x in p):
                    parts = [str(t)]
                    for x in vals:
                        try:
                            y = s.e.ev(x)
                        except (Undecided, RecursionError):
                            continue
                        if isinstance(y, S_) and y not in s.args:
                            parts.append(str(y))
                    out.append(" ".join(parts))
            return out

        def written(s):
            out = {}
            for n, a in s.effects("fs::write", "File::write_all"):
                if n == "fs::write":
                    out[str(a[0])] = list(a[1])
                else:
                    out[str(a[0])] = out.get(str(a[0]), []) + list(a[1])
            return out

        def bytes(s, q, o):
            return evaluator(c, "s16.%s" % s.seed, [("x", o)]).ev(w[q])

    bad, und, good = {}, {}, {}

    def close(keys):
        for k in sorted(set(keys) | set(good) | set(und) | set(bad)):
            n = good.get(k, 0)
            ck.ob(k, False if k in bad else None if not n else True, bad.get(k) or (und.get(k, "") if not n else "holds in %d interpretations" % n), where)

    def run(keys, f):
        try:
            r = f()
        except (Undecided, RecursionError) as y:
            for k in keys:
                und[k] = str(y)
            return
        for k in keys:
            good[k] = good.get(k, 0) + 1
        if r:
            bad.setdefault(r[0], r[1])

    if which:
        which(ck, World, run)
        return close(())
    PROVE, VERIFY, BOTH = ["p", "prove", "in", "out"], ["p", "verify", "in"], ["p", "prove_and_verify", "in"]
    opts = []

    # ---- what prove writes, and what verify makes of it
    def prove(i):
        x = World("p%d" % i, PROVE)
        p = x.panic()
        if p:
            return "prove:panic", "prove panics: %s" % p
        calls = x.effects("gcp")
        if len(calls) != 1:
            return "prove:calls", "the prover is called %d times" % len(calls)
        a = calls[0][1]
        if x.e.ck(a[0]) != x.e.ck(x.trace) or x.e.ck(a[1]) != x.e.ck(x.pi):
            return "prove:calls", "the prover does not get the trace and the public inputs the runner made"
        opts.append(x.e.ck(a[2]))
        files = x.written()
        if list(files) != ["out"]:
            return "file:path", "prove writes the files %s instead of the output path" % sorted(files)
        pb, ib = x.bytes(SP, x.proof), x.bytes(PI, x.pi)
        data = files["out"]
        n = [len(pb).to_bytes(8, o) for o in ("big", "little")]
        if bytes(data[:8]) not in n or data[8:8 + len(pb)] != pb or data[8 + len(pb):] != ib:
            return "file:layout", "the file of %d bytes is not the length, the proof (%d bytes) and the public inputs (%d bytes)" % (len(data), len(pb), len(ib))
        y = World("v%d" % i, VERIFY, data, verdict=bool(i % 2))
        p = y.panic()
        if p:
            return "verify:panic", "verify panics on the file prove writes: %s" % p
        calls = y.effects("vcp")
        if len(calls) != 1:
            return "verify:calls", "the verifier is called %d times on the file prove writes (%s)" % (len(calls), y.texts()[-1:])
        a = calls[0][1]
        for k, got, want in (("verify:proof", a[0], x.proof), ("verify:public inputs", a[1], x.pi)):
            if y.e.ck(got) != x.e.ck(want):
                return k, "what the verifier gets is not what was proved"
        opts.append(y.e.ck(a[2]))
        return verdict(y, bool(i % 2)) or verdict(World("v%d" % i, VERIFY, data, verdict=not i % 2), not i % 2)

    def verdict(y, v):
        t = " | ".join(y.texts()).lower()
        yes, no = "succe" in t or "accepted" in t or "valid" in t.replace("invalid", ""), "fail" in t or "invalid" in t or "reject" in t
        if (yes, no) != (v, not v):
            return "verdict:message", "the verifier answers %s and the program prints %s" % (v, y.texts())

    def both(i):
        x = World("b%d" % i, BOTH, verdict=bool(i % 2))
        p = x.panic()
        if p:
            return "prove:panic", "prove_and_verify panics: %s" % p
        g, v = x.effects("gcp"), x.effects("vcp")
        if len(g) != 1 or len(v) != 1:
            return "verify:calls", "prove_and_verify proves %d times and verifies %d times" % (len(g), len(v))
        if x.e.ck(v[0][1][0]) != x.e.ck(x.proof):
            return "verify:proof", "what the verifier gets is not what was proved"
        if x.e.ck(v[0][1][1]) != x.e.ck(x.pi) or x.e.ck(g[0][1][1]) != x.e.ck(x.pi):
            return "verify:public inputs", "what the verifier gets is not what was proved"
        opts.extend([x.e.ck(g[0][1][2]), x.e.ck(v[0][1][2])])
        return verdict(x, bool(i % 2))
    keys = ["file:path", "file:layout", "prove:calls", "prove:panic", "verify:panic", "verify:calls", "verify:proof", "verify:public inputs", "verdict:message"]
    for i in range(60 if ck.thorough else 24):
        run(keys, lambda: prove(i))
        run(keys[5:], lambda: both(i))

    def options():
        if len({str(o) for o in opts}) > 1:
            return "options:same", "proofs are made with %s and verified with %s" % (opts[0], [o for o in opts if str(o) != str(opts[0])][0])
    run(["options:same"], options)

    # ---- failures on the way
    def fails(cmd, kw):
        x = World("f%s%s" % (cmd[1], kw), cmd, **kw)
        p = x.panic()
        if p:
            return "prove:failure", "%s panics when %s fails: %s" % (cmd[1], [k for k in kw if not kw[k]], p)
        if "write" not in kw and (x.written() or x.effects("vcp")):
            return "prove:failure", "%s goes on when %s fails" % (cmd[1], [k for k in kw if not kw[k]])
        t = " ".join(x.texts()).lower()
        if "succe" in t or "proof written" in t or not NEGATIVE.search(t):
            return "prove:failure", "%s prints %s when %s fails" % (cmd[1], x.texts(), [k for k in kw if not kw[k]])
    for cmd in (PROVE, BOTH, VERIFY):
        for kw in ({"read": False}, {"run": False}, {"prove": False}, {"write": False}):
            if cmd is VERIFY and "read" not in kw or cmd is BOTH and "write" in kw:
                continue
            run(["prove:failure"], lambda: fails(cmd, kw))

    # ---- corrupted files
    def corrupted(i, d):
        x = World("c%d" % i, VERIFY, d, verdict=bool(i % 2))
        p = x.panic()
        if p:
            return "corrupt:panic", "a file of %d bytes %s makes verify panic: %s" % (len(d), bytes(d[:40]).hex(), p)
        calls, t = x.effects("vcp"), " ".join(x.texts()).lower()
        if len(calls) > 1:
            return "corrupt:reported", "the verifier is called %d times" % len(calls)
        if calls:
            return verdict(x, bool(i % 2))
        if "succe" in t or not NEGATIVE.search(t):
            return "corrupt:reported", "a file of %d bytes %s is not reported: the program prints %s" % (len(d), bytes(d[:40]).hex(), x.texts())

    def files():
        r = random.Random("s16c.%s" % ck.seed)
        pool = []
        for i in range(3):
            x = World("g%d" % i, PROVE)
            pool.append(list(x.written().get("out") or []))
        pool = [d for d in pool if len(d) > 8]
        if not pool:
            raise Undecided("prove writes nothing")
        d = min(pool, key=len)
        n = int.from_bytes(bytes(d[:8]), "big")
        n = n if n < len(d) else int.from_bytes(bytes(d[:8]), "little")
        tests = [[], [0] * 7, [0] * 8, [0] * 9, [255] * 8, [255] * 40, d[:8], d[:-1], d[:8 + n], d[:8 + n - 1], d[:8 + n + 1], d[:7]]
        for k in (0, 1, n - 1, n + 1, len(d) - 8, len(d) - 7, len(d), 2 ** 63, 2 ** 64 - 8, 2 ** 64 - 7, 2 ** 64 - 1):
            tests += [list((k % 2 ** 64).to_bytes(8, o)) + d[8:] for o in ("big", "little")]
        for _ in range(200 if ck.thorough else 40):
            tests.append(corrupt(r, r.choice(pool)))
        tests += r.sample(systematic(r, d, 300), 100 if ck.thorough else 30)
        return tests
    try:
        tests = files()
    except (Undecided, RecursionError) as y:
        tests = []
        und["corrupt:panic"] = und["corrupt:reported"] = str(y)
    for i, d in enumerate(tests):
        run(["corrupt:panic", "corrupt:reported"], lambda: corrupted(i, d))

    # ---- command lines
    def cmdline(args):
        x = World("a%s" % args, args)
        p = x.panic()
        if p:
            return "arguments:panic", "the arguments %s make it panic: %s" % (args, p)
        if len(args) < 2 or args[1] not in ("prove", "verify", "prove_and_verify") or len(args) < (4 if args[1] == "prove" else 3):
            if x.written() or x.effects("gcp", "vcp"):
                return "arguments:refused", "the arguments %s are not refused" % args
            if not x.texts():
                return "arguments:refused", "the arguments %s are not reported" % args
    for args in ([], ["p"], ["p", "prove"], ["p", "prove", "in"], ["p", "verify"], ["p", "prove_and_verify"], ["p", "nonsense"], ["p", "", "x"],
                 ["p", "nonsense", "a", "b", "c"]):
        run(["arguments:panic", "arguments:refused"], lambda: cmdline(args))
    close(keys)
