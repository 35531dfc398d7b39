"""S31: the files the command-line program reads and writes."""
import random
from ..ev import En
from . import s16

META = {
    "level": "proof",
    "explanation": "The value-flow and effect summary of main (as in S16) is interpreted on file "
                   "systems in which every path holds a different file: prove and prove_and_verify give the runner the bytes of the "
                   "file named on the command line, with the Cairo version of its name and no output range, verify gives the "
                   "verifier the proof in the file named, only prove writes, and only to the path named; other arguments do not matter.",
}
FLOOR = 5
CASM = ["prog.casm", "dir.d/prog.casm", "out.casm", "./a b.casm", ".casm"]
PLAIN = ["prog.json", "dir.d/prog.json", "casm.json", "prog", "verify", "a casm", "program_casm", "out", "prog.cairo", "x.sierra"]


def check(ck):
    s16.check(ck, which)


def which(ck, World, run):
    r = random.Random("s31.%s" % ck.seed)

    def fs(*skip):
        return {n: [r.randrange(256) for _ in range(r.randrange(1, 9))] + [i] for i, n in enumerate(CASM + PLAIN) if n not in skip}

    def line(cmd, *a):
        return ["target/%s" % r.choice(CASM + PLAIN + ["prove", "verify"]), cmd] + list(a) + r.choice([[], [r.choice(CASM)], [r.choice(PLAIN), "verify"]])

    def fail(x):
        p = x.panic()
        return p and ("runner:panic", "%s panics: %s" % (x.args[1:], p))

    def runner(cmd, name, i):
        files = fs()
        out = r.choice(CASM + PLAIN)
        x = World("r%s%d" % (cmd, i), line(cmd, name, *([out] if cmd == "prove" else [])), files)
        g = x.effects("gpa")
        if len(g) != 1:
            return fail(x) or ("runner:once", "%s runs the program %d times" % (x.args[1:], len(g)))
        a = g[0][1]
        if list(a[0]) != files[name]:
            got = [n for n in files if files[n] == list(a[0])]
            return "input:program", "%s runs the program in %s instead of %s" % (x.args[1:], got or "no file", name)
        v = a[1]
        if not isinstance(v, En) or (v.var == "V1") != (name in CASM):
            return "version:name", "%s is run as %s" % (name, x.e.ck(v))
        if not isinstance(a[2], En) or a[2].var != "None":
            return "runner:output", "%s claims an output range" % x.args[1:]
        w = x.written()
        if sorted(w) != ([out] if cmd == "prove" else []):
            return "output:path", "%s writes %s" % (x.args[1:], sorted(w))
        v = x.effects("vcp")
        if len(v) != (cmd != "prove"):
            return "verify:once", "%s verifies %d times" % (x.args[1:], len(v))
        return fail(x)

    def verify(name, i):
        files = fs()
        proofs = {}
        for n in r.sample(sorted(files), 3) + [name]:
            y = World("v%d%s" % (i, n), ["p", "prove", "in", "o"])
            w = y.written().get("o")
            if w is not None:
                files[n], proofs[n] = w, y
        if name not in proofs:
            return "output:path", "prove does not write to the path it is given"
        x = World("w%d" % i, line("verify", name), files)
        v = x.effects("vcp")
        if len(v) != 1 or x.e.ck(v[0][1][0]) != proofs[name].e.ck(proofs[name].proof):
            return fail(x) or ("input:proof", "%s does not verify the proof in %s" % (x.args[1:], name))
        if x.e.ck(v[0][1][1]) != proofs[name].e.ck(proofs[name].pi):
            return "input:proof", "%s does not use the public inputs in %s" % (x.args[1:], name)
        if x.written() or x.effects("gpa", "gcp"):
            return "output:path", "%s runs, proves or writes %s" % (x.args[1:], sorted(x.written()))
        return fail(x)

    def missing(cmd, name, i):
        files = fs(name)
        x = World("m%s%d" % (cmd, i), line(cmd, name, "out"), files)
        if x.effects("gpa", "gcp", "vcp") or x.written():
            return "input:missing", "%s goes on although %s does not exist" % (x.args[1:], name)
        return fail(x)
    n = 0
    for rnd in range(3 if ck.thorough else 1):
        for name in CASM + PLAIN:
            for cmd in ("prove", "prove_and_verify"):
                n += 1
                run(["input:program", "version:name", "runner:once", "runner:output", "output:path", "verify:once", "runner:panic"], lambda: runner(cmd, name, n))
            run(["input:proof", "output:path", "runner:panic"], lambda: verify(name, n))
            for cmd in ("prove", "prove_and_verify", "verify"):
                run(["input:missing", "runner:panic"], lambda: missing(cmd, name, n))
