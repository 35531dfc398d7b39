"""S14: serialised proofs and public inputs read back as the same object."""
import random
from .. import terms as X
from ..terms import sym
from ..ev import En, Undecided
from .bytesobj import pairs, Gen, adt, evaluator, BYTES, ROOTS

META = {
    "level": "proof",
    "explanation": "For every type with a writer and a reader, the value-flow summary of the writer (for every object) is evaluated on "
                   "random objects of the declared type, with empty and non-empty lists and extreme field values, and the summary "
                   "of the reader (for every byte string) on the bytes it gives: the object must come back with every field equal. "
                   "Changing any byte written must make the reader refuse or return another object, so no length or tag is ignored.",
}
FLOOR = 8


def check(ck):
    c = ck.crate()
    ps = pairs(c)
    for q in ROOTS:
        if q not in ps:
            ck.ob("anchor:%s" % q, False, "the writer or the reader of this type is missing", q)

    def one(q):
        w, r = ps[q]
        ty = adt(c, q)
        short = q.split("::")[-1]
        b, ipw, _ = ck.run(c, w, {"#": [sym("x", ty)]})
        v, ipr, _ = ck.run(c, r, {"#": [sym("b", BYTES)]})
        bad, und, good = {}, "", 0
        fields = [f["n"] for f in c.structs[q][0]["f"]]

        def write(seed, lens=None):
            rr = random.Random("s14.%s.%s.%s" % (ck.seed, q, seed))
            e = evaluator(c, "s14.%s" % seed, [])
            o = Gen(c, rr, e, (lambda: lens(rr)) if lens else None).gen(ty)
            e = evaluator(c, "s14.%s" % seed, [("x", o)])
            p = ck.refusal(e, ipw.obls)
            if p is not None:
                bad.setdefault("writer", "object %s: writing panics (%s in %s)" % (seed, p.kind, p.fn))
                return None, None
            return o, e.ev(b)

        def read(seed, data):
            e = evaluator(c, "s14.%s" % seed, [("b", data)])
            p = ck.refusal(e, ipr.obls)
            if p is not None:
                return "panic", "%s in %s" % (p.kind, p.fn), e
            x = e.ev(v)
            if not isinstance(x, En):
                raise Undecided("not a result")
            return x.var, x.a[0], e
        for i in range(60 if ck.thorough else 24):
            try:
                o, data = write(i)
                if o is None:
                    good += 1
                    continue
                k, x, e = read(i, data)
                diff = fields and [n for n in fields if e.ck(x.f[n]) != e.ck(o.f[n])] if k == "Ok" else None
            except (Undecided, RecursionError) as y:
                und = str(y)
                continue
            good += 1
            if k != "Ok":
                bad.setdefault("refused", "object %d of %d bytes: the reader answers %s %s" % (i, len(data), k, str(x)[:100]))
            for n in diff or []:
                bad.setdefault(n, "object %d: %s written, %s read back" % (i, str(e.ck(o.f[n]))[:200], str(e.ck(x.f[n]))[:200]))
        for n in fields + ["refused", "writer"]:
            ck.ob("%s.%s" % (short, n), False if n in bad else None if not good else True,
                  bad.get(n) or (und if not good else "equal in %d interpretations" % good), r.qual)
        # every byte matters
        lost, und, good = "", "", 0
        for i in range(2):
            try:
                o, data = write("full%d" % i, lambda rr: rr.choice((1, 2)))
                if o is None:
                    continue
                rr = random.Random("s14f.%s.%s.%d" % (ck.seed, q, i))
                where = list(range(len(data)))
                if len(where) > 160 and not ck.thorough:
                    # bytes that are zero are the high bytes of lengths and tags more often than not
                    z = [j for j in where if data[j] < 4 or data[j] == 32]
                    where = sorted(rr.sample(z, min(len(z), 120)) + rr.sample(where, 40))
                # tags: small bytes also take a value no tag has
                todo = [(j, data[j] ^ 1 << rr.randrange(3)) for j in where]
                todo += [(j, x) for j in where if data[j] < 2 for x in (2, 3)]
                if not ck.thorough:
                    todo = rr.sample(todo, min(len(todo), 400 if len(data) < 500 else 220))
                for j, x in todo:
                    d = list(data)
                    d[j] = x
                    try:
                        k, x, e = read("full%d.%d.%d" % (i, j, x), d)
                    except (Undecided, RecursionError) as y:
                        und = str(y)
                        continue
                    good += 1
                    if k == "Ok" and e.ck(x) == e.ck(o) and not lost:
                        lost = "byte %d of %d can be changed from %d to %d and the same object is read" % (j, len(data), data[j], d[j])
            except (Undecided, RecursionError) as y:
                und = str(y)
        ck.ob(short + ".ignored", False if lost else None if not good else True,
              lost or (und if not good else "%d changed bytes seen by the reader" % good), r.qual)
    for q in sorted(ps):
        ck.guarded(q.split("::")[-1], lambda: one(q), q)
