"""S15: reading untrusted bytes never panics."""
import random
import time
from .. import terms as X
from ..terms import sym
from ..ev import En, Undecided
from .bytesobj import pairs, Gen, adt, evaluator, BYTES, ROOTS

META = {
    "level": "proof",
    "explanation": "Every reader of bytes (deserialisers, importers, the functions they call) is executed symbolically on an arbitrary byte "
                   "string, over release and overflow-checked arithmetic. Each slice, index, unwrap, division, allocation size and "
                   "arithmetic operation is an obligation under its path condition: most hold in every case; the others are "
                   "evaluated on prefixes and corruptions of valid files (cut at every item, lengths replaced by extreme "
                   "ones), and one that fails there is a violation.",
}
FLOOR = 6
FILES = ["cairo::cairo_mem::CairoMemory::from_bytes_le", "cairo::register_states::RegisterStates::from_bytes_le"]


def readers(c):
    out = {}
    for g in c.fns:
        if g.qual in FILES or (g.impl and g.name == "deserialize" and g.impl.get("tr") is not None):
            out[g.qual] = g
        elif g.impl is None and g.name.startswith("deserialize") and len(g.sig["in"]) == 1:
            out[g.qual] = g
    return out


EXTREME = [0, 1, 2, 7, 8, 31, 32, 33, 255, 256, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 59, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 32, 2 ** 64 - 8, 2 ** 64 - 1]


def corrupt(r, data):
    """a prefix, an extension or a corruption of data"""
    d = list(data)
    k = r.randrange(7)
    if k < 3 and d:
        d = d[:r.randrange(len(d) + 1)]
    if k in (2, 3, 4) and len(d) >= 8:
        # items start where many small bytes are
        z = [j for j in range(len(d) - 7) if d[j:j + 6] == [0] * 6] or list(range(len(d) - 7))
        j = r.choice(z) if r.random() < .85 else r.randrange(len(d) - 7)
        d[j:j + 8] = list((r.choice(EXTREME) if r.random() < .7 else r.randrange(len(d) + 40)).to_bytes(8, "big"))
    if k == 5 and d:
        d[r.randrange(len(d))] ^= 1 << r.randrange(8)
    if k == 6:
        d += [r.randrange(256) for _ in range(r.randrange(1, 80))]
    return d


def systematic(r, d, most):
    """every prefix, every item replaced by an extreme value and every byte by a foreign tag, as far as most allows"""
    out = [d[:j] for j in range(len(d))] if len(d) <= 2 * most else [d[:j] for j in range(len(d) - 12, len(d))]
    z = [j for j in range(len(d) - 7) if d[j:j + 6] == [0] * 6]
    starts = [j for j in z if j - 1 not in z] + [j for j in z if j % 8 == 0]
    out += [d[:j] for j in set(starts)] + [d[:j + 8] for j in set(starts)]
    for j in starts:
        for x in r.sample(EXTREME[-10:], 4) + [d[j + 7] + 1]:
            out.append(d[:j] + list((x % 2 ** 64).to_bytes(8, "big")) + d[j + 8:])
    out += [d[:j] + [x] + d[j + 1:] for j in range(len(d)) if d[j] < 4 for x in (2, 255) if len(d) <= most]
    if len(out) > 3 * most:
        out = r.sample(out, 3 * most)
    return out


def check(ck):
    for flags, tag in ((False, ""), (True, " (overflow checked)")):
        c = ck.crate()
        ps = pairs(c)
        rs = readers(c)
        for q in [x + "::deserialize" for x in ROOTS] + FILES:
            if q not in rs:
                ck.ob("anchor:%s" % q, False, "the reader is missing", q)

        def seeds(q, n):
            """valid inputs of reader q, as far as they can be made"""
            ty = q.rsplit("::", 1)[0]
            r = random.Random("s15.%s.%s" % (ck.seed, q))
            out = [[], [0] * 8, [255] * 64, [0] * 200]
            for z in (24, 40, 120, 240):
                out.append([r.randrange(256) for _ in range(z)])
            if ty in ps:
                w = ps[ty][0]
                b, ip, _ = ck.run(c, w, {"#": [sym("x", adt(c, ty))]})
                for i in range(n):
                    e = evaluator(c, "s15.%d" % i, [])
                    try:
                        o = Gen(c, r, e, None if i % 2 else (lambda: r.choice((1, 2)))).gen(adt(c, ty))
                        out.append(evaluator(c, "s15.%d" % i, [("x", o)]).ev(b))
                    except (Undecided, RecursionError):
                        pass
            else:
                for i in range(n):
                    k = r.randrange(4)
                    out.append(list(k.to_bytes(8, "big")) + [r.randrange(256) for _ in range(32 * k)])
            return out

        def one(g):
            v, ip, _ = ck.run(c, g, {"#": [sym("b", BYTES)]}, overflow=flags)
            obls = [o for o in ip.obls]
            todo = [o for o in obls if o.cond is not X.TRUE]
            bad, und, good = None, "", 0
            if todo:
                r = random.Random("s15c.%s.%s" % (ck.seed, g.qual))
                pool = seeds(g.qual, 6)
                tests = list(pool)
                for d in sorted((x for x in pool[6:] if x), key=len)[-3 if ck.thorough else -2:]:
                    tests += systematic(r, d, 600 if ck.thorough else 300)
                for _ in range((600 if ck.thorough else 150)):
                    d = corrupt(r, r.choice(pool))
                    if r.random() < .3:
                        d = corrupt(r, d)
                    tests.append(d)
                r.shuffle(tests)
                end = time.time() + (50 if ck.thorough else 25)
                for i, d in enumerate(tests):
                    if time.time() > end:
                        break
                    e = evaluator(c, "s15.%d" % i, [("b", d)])
                    try:
                        o = ck.refusal(e, todo)
                    except (Undecided, RecursionError) as y:
                        und = str(y)
                        continue
                    good += 1
                    if o is not None:
                        bad = "%d bytes %s make it panic: %s in %s" % (len(d), bytes(d[:48]).hex() + (".." if len(d) > 48 else ""), o.kind, o.fn)
                        break
            ck.ob(g.qual + tag, False if bad else None if todo and not good else True,
                  bad or ("%d obligations hold on every path%s" % (len(obls) - len(todo), "" if not todo else
                          ", %d in %d interpretations" % (len(todo), good)) if good or not todo else und), g.qual)
        for q in sorted(rs):
            ck.guarded(q + tag, lambda: one(rs[q]), q)
