"""S19: sampled challenges are in range and outside the evaluation domains."""
import random
from .. import terms as X
from ..terms import sym, T, show, find, rewrite, TRUE
from ..front import FELT, USIZE
from ..ev import Ev, Fp, Undecided
from . import stark

META = {
    "level": "proof",
    "explanation": "The value-flow summary of the field sampler (for every challenge and every field size) is evaluated on random and "
                   "extreme challenges: the sampled integer has one bit less than the modulus, every lower bit can be set, nothing "
                   "panics.  The summary of the out-of-domain sampler is evaluated on draws that hit either domain at any "
                   "position.  In the summaries of prover and verifier the domains handed to it, every use of a query position and "
                   "every field element decoded from a raw challenge are examined.",
}
FLOOR = 8
P = 2 ** 251 + 17 * 2 ** 192 + 1
TR = "starks::transcript::"
SIZES = (252, 241, 250, 249, 248, 247, 255, 256, 254, 253, 251, 246, 245, 244, 243, 242, 240, 225, 200, 193, 129, 128, 65, 64, 40)


def number(e, t):
    """the integer a field element is decoded from"""
    if t.op == "dec":
        q = [e.integer(x) for x in e.seq(e.ev(t.args[1]))]
        if t.args[0] != "be":
            q = q[::-1]
        n = 0
        for x in q:
            n = n << 8 | x & 255
        return n
    v = e.ev(t)
    return v.v if isinstance(v, Fp) else e.integer(v)


def patterns(r, n):
    out = [[255] * 32, [0] * 32, [255, 0] * 16, [0, 255] * 16, [8] + [0] * 31, [7] + [255] * 31, [128] * 32, [1] * 32, [0] * 31 + [1]]
    while len(out) < n:
        out.append([r.randrange(256) for _ in range(32)])
    return out


def sampler(ck, c):
    v, ip, cells = ck.run(c, TR + "transcript_to_field", {}, overflow=True)
    chals = sorted({t.args[0] for t in find(v, lambda t: t.op == "chal")})
    where = TR + "transcript_to_field"
    if not chals:
        ck.ob("field:range", None if X.ival(v) is None else False, "the result does not depend on the transcript: " + show(v, maxd=6)[:200], where)
        return
    r = random.Random("s19.%s" % ck.seed)
    high, panic, und, good, lost = "", "", "", 0, ""
    for fb in SIZES:
        base = None

        def one(pat):
            e = Ev("s19", c, [("FELT_BYTES", 32), ("FIELD_BITS", fb)])
            for n in chals:
                e.chal[(n,)] = list(pat)
            p = ck.refusal(e, ip.obls)
            if p is not None:
                return "field of %d bits: panics (%s in %s)" % (fb, p.kind, p.fn), 0
            return None, number(e, v)
        seen = 0
        for i, pat in enumerate(patterns(r, 40 if ck.thorough else 14)):
            try:
                p, n = one(pat)
                if p:
                    panic = panic or p
                    continue
                good += 1
                if n >= 1 << (fb - 1):
                    high = high or "field of %d bits: challenge %s gives %#x" % (fb, bytes(pat).hex(), n)
                if base is not None:
                    seen |= n ^ base
                elif i > 8:
                    base = n
            except (Undecided, RecursionError) as y:
                und = str(y)
        # every bit below the top one can be set
        try:
            seen = 0
            _, z = one([0] * 32)
            for k in range(256):
                pat = [0] * 32
                pat[k // 8] = 1 << k % 8
                p, n = one(pat)
                if p is None:
                    seen |= n ^ z
            miss = [k for k in range(fb - 1) if not seen >> k & 1]
            if miss:
                lost = lost or "field of %d bits: bit %d of the sampled value never changes" % (fb, miss[-1])
        except (Undecided, RecursionError) as y:
            und = str(y)
    ev = "%d challenges over %d field sizes" % (good, len(SIZES))
    ck.ob("field:range", False if high else True if good else None, high or und or ev, where)
    ck.ob("field:panic", False if panic else True if good else None, panic or und or ev, where)
    ck.ob("field:bits", False if lost else True if good else None, lost or und or ev, where)


def position(ck, c):
    where = TR + "transcript_to_usize"
    v, ip, _ = ck.run(c, where, {}, overflow=True)
    chals = sorted({t.args[0] for t in find(v, lambda t: t.op == "chal")})
    r = random.Random("s19p.%s" % ck.seed)

    def one(pat):
        e = Ev("s19", c, [("FELT_BYTES", 32)])
        for n in chals:
            e.chal[(n,)] = list(pat)
        p = ck.refusal(e, ip.obls)
        return (None if p is None else "challenge %s: panics (%s in %s)" % (bytes(pat).hex(), p.kind, p.fn)), e.integer(e.ev(v))
    bad, seen = "", 0
    z = one([0] * 32)[1]
    for pat in patterns(r, 30):
        p, n = one(pat)
        bad = bad or p or ("" if 0 <= n < 1 << 64 else "out of range")
    for k in range(256):
        pat = [0] * 32
        pat[k // 8] = 1 << k % 8
        seen |= one(pat)[1] ^ z
    miss = [k for k in range(32) if not seen >> k & 1]
    if miss and not bad:
        bad = "bit %d of the sampled position never changes" % miss[0]
    ck.ob("position:sampler", not bad, bad or "every low bit depends on the challenge", where)


def encode(fb, x):
    return list(x.to_bytes(32, "big"))


def outside(ck, c):
    where = TR + "sample_z_ood"
    A, B = sym("A", ("seq", FELT, None)), sym("B", ("seq", FELT, None))
    v, ip, _ = ck.run(c, where, {"#": [A, B]})
    chals = sorted({t.args[0] for t in find(v, lambda t: t.op == "chal")})
    r = random.Random("s19z.%s" % ck.seed)
    bad, und, good = "", "", 0
    where_hit = {"A": ("lde_roots_of_unity_coset", 0), "B": ("trace_roots_of_unity", 1)}
    for i in range(60 if ck.thorough else 40):
        la = [r.getrandbits(250) for _ in range(r.choice((1, 2, 4, 8)))]
        lb = [r.getrandbits(250) for _ in range(r.choice((1, 2, 4)))]
        if i % 5 == 4:
            lb = []
        if i % 7 == 6:
            la = []
        hits = []
        for _ in range(i % 6):
            q = r.choice([q for q in (la, lb) if q] or [[]])
            if q:
                hits.append(r.choice((q[0], q[-1], r.choice(q))))
        free = r.getrandbits(250)
        draws = hits + [free] + [r.choice((la + lb) or [0]) for _ in range(3)]
        e = Ev("s19z%d" % i, c, [("FELT_BYTES", 32), ("FIELD_BITS", 252),
                                 ("A", [Fp(x) for x in la]), ("B", [Fp(x) for x in lb])])
        for n in chals:
            for k, x in enumerate(draws):
                e.chal[(n, k)] = encode(252, x)
            e.chal.setdefault((n,), encode(252, draws[0]))
        try:
            n = number(e, v)
            p = ck.refusal(e, ip.obls)
            if p is not None:
                bad = bad or "panics (%s in %s)" % (p.kind, p.fn)
        except (Undecided, RecursionError) as y:
            und = str(y)
            continue
        good += 1
        if n in la or n in lb:
            bad = bad or "after %d draws inside the domains the returned point is point %d of the %s domain" % (
                len(hits), (la if n in la else lb).index(n), "evaluation" if n in la else "trace")
    ck.ob("ood:outside", False if bad else True if good else None, bad or und or "%d histories of draws" % good, where)


def root(n):
    k = n.bit_length() - 1
    return pow(3, (P - 1) >> k, P)


def domains(ck, s, side, where, c):
    """what the out-of-domain sampler is told to avoid covers both domains"""
    evs = [x for t in s.trs for x in find(t, lambda t: t.op == "ev" and t.args[0] == "z")]
    if not evs:
        ck.ob("ood:%s:domains" % side, None, "no out-of-domain point is drawn through the sampler", where)
        return
    for x in evs:
        bad, und, good = "", "", 0
        for i in range(12):
            n, b, off = 1 << (1 + i % 4), 1 << (1 + i // 4), (3, 7, 5)[i % 3]
            e = Ev("s19d%d" % i, c, [("rows", n), (r"proof\.trace_length", n), (r"options\.blowup_factor", b), (r"options\.coset_offset", off)])
            try:
                got = {y.v for a in x.args[2:] for y in e.seq(e.ev(a))}
            except (Undecided, RecursionError, AttributeError) as y:
                und = str(y)
                continue
            good += 1
            w, g = root(n * b), root(n)
            lde = {off * pow(w, k, P) % P for k in range(n * b)}
            trace = {pow(g, k, P) for k in range(n)}
            for what, q in (("evaluation", lde), ("trace", trace)):
                if not q <= got:
                    bad = bad or "trace length %d, blowup %d: %d points of the %s domain are not avoided" % (n, b, len(q - got), what)
        ck.ob("ood:%s:domains" % side, False if bad else True if good else None, bad or und or "%d domain shapes" % good, where)


def kids(t):
    out = []
    st = list(t.args)
    while st:
        y = st.pop()
        if isinstance(y, T):
            out.append(y)
        elif isinstance(y, (tuple, frozenset, list)):
            st += list(y)
    return out


CLIMB = ("mod", "trunc", "band", "bor", "poly", "idiv", "ite", "min", "max", "emb")


def parents(roots):
    par, seen, st = {}, set(), list(roots)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        for y in kids(t):
            par.setdefault(y, set()).add(t)
            st.append(y)
    return par


def positions(ck, s, side, where, c):
    """every use of a drawn position is reduced into the evaluation domain first"""
    roots = [s.raw] + s.trs + list(getattr(s, "conjs", []))
    names = {}

    def ren(x):
        if x.op == "chal" and str(x.args[0]).startswith("usize#"):
            return names.setdefault(x.args[0], sym("draw%d" % len(names), USIZE))
        return None
    roots = [rewrite(t, ren) for t in dict.fromkeys(roots)]
    if not names:
        ck.ob("positions:%s" % side, None, "no query position is drawn", where)
        return
    par = parents(roots)
    bad, und, good = "", "", 0
    r = random.Random("s19q.%s" % ck.seed)

    def bounded(t):
        """True when the value is always inside the domain"""
        for i in range(10):
            n, b = 1 << (1 + i % 4), 1 << (1 + i // 4)
            e = Ev("s19q%d" % i, c, [("rows", n), (r"proof\.trace_length", n), (r"options\.blowup_factor", b)]
                   + [(v.args[0], r.choice((r.getrandbits(64), 2 ** 64 - 1, n * b, n * b - 1, r.getrandbits(20)))) for v in names.values()])
            if e.integer(e.ev(t)) >= n * b:
                return False
        return True
    todo, done = [(v, v) for v in names.values()], set()
    while todo:
        t, d = todo.pop()
        if t in done:
            continue
        done.add(t)
        try:
            if bounded(t):
                good += 1
                continue
        except (Undecided, RecursionError) as y:
            und = str(y)
            continue
        for p in par.get(t, ()):
            if p.op in CLIMB:
                todo.append((p, d))
            elif p.op in ("ev", "evloop", "tr"):
                pass
            else:
                bad = bad or "%s is used although it can lie outside the evaluation domain" % show(t, maxd=6)[:200]
    ck.ob("positions:%s" % side, False if bad else True if good and not und else None, bad or und or "%d reduced positions" % good, where)


def returned(ck, c):
    """the positions the query phase answers lie inside the domain it was given"""
    where = "starks::fri::fri_query_phase"
    if c.fn(where) is None:
        ck.ob("positions:returned", None, "there is no query phase function", where)
        return
    v, ip, _ = ck.run(c, where, {}, hooks=stark.hooks(ck, c))
    if v.op != "tuple" or len(v.args[0] if isinstance(v.args[0], tuple) else v.args) != 2:
        ck.ob("positions:returned", None, "not a pair: " + show(v, maxd=4)[:200], where)
        return
    q = (v.args[0] if isinstance(v.args[0], tuple) else v.args)[1]
    chals = sorted({t.args[0] for t in find(q, lambda t: t.op == "chal")})
    r = random.Random("s19y.%s" % ck.seed)
    bad, und, good = "", "", 0
    for i in range(24):
        size = 1 << r.randrange(1, 12)
        e = Ev("s19y%d" % i, c, [("domain_size", size), (r"len\(fri_layers\)", 3),
                                 (r".*fri_number_of_queries", 6)])
        for n in chals:
            for k in range(8):
                e.chal[(n, k)] = r.choice((size, size - 1, 2 * size - 1, r.getrandbits(64), 2 ** 64 - 1, r.getrandbits(14)))
        try:
            got = [e.integer(x) for x in e.seq(e.ev(q))]
        except (Undecided, RecursionError) as y:
            und = str(y)
            continue
        good += len(got)
        for x in got:
            if not 0 <= x < size:
                bad = bad or "domain of %d points: position %d" % (size, x)
    ck.ob("positions:returned", False if bad else True if good else None, bad or und or "%d positions" % good, where)


def raw(ck, s, side, where, c, roots=None):
    """no field element is decoded from a challenge that was not masked"""
    roots = roots or [s.raw] + s.trs
    decs = {x for t in roots for x in find(t, lambda t: t.op == "dec") if X.type_hook(x) == FELT or (X.ival(x.args[2]) or 32) >= 32}
    bad, und, good = "", "", 0
    one = sym("raw", ("seq", ("int", "u8"), 32))

    def israw(x):
        return x.op == "chal" and not str(x.args[0]).startswith(("field", "usize", "z", "trait"))
    for d in sorted(decs, key=lambda d: show(d)):
        if not find(d, israw):
            continue
        try:
            e = Ev("s19r", c, [("FELT_BYTES", 32), ("FIELD_BITS", 252), ("raw", [255] * 32)])
            n = number(e, rewrite(d, lambda x: one if israw(x) else None))
        except (Undecided, RecursionError) as y:
            und = str(y)
            continue
        good += 1
        if n >= P:
            bad = bad or "a field element is decoded from a challenge that was not masked: " + show(d, maxd=6)[:200]
    ck.ob("raw:%s" % side, not bad, bad or und or "%d decoded elements" % good, where)


def check(ck):
    c = ck.crate()
    ck.guarded("field", lambda: sampler(ck, c), TR)
    ck.guarded("position", lambda: position(ck, c), TR)
    ck.guarded("ood", lambda: outside(ck, c), TR)
    ck.guarded("positions:returned", lambda: returned(ck, c), "starks::fri::fri_query_phase")
    for side, f, where in (("verifier", stark.verifier, "starks::verifier::verify"), ("prover", stark.prover, "starks::prover::prove")):
        def one():
            s = f(ck)
            ck.guarded("ood:%s:domains" % side, lambda: domains(ck, s, side, where, s.crate), where)
            ck.guarded("positions:%s" % side, lambda: positions(ck, s, side, where, s.crate), where)
            ck.guarded("raw:%s" % side, lambda: raw(ck, s, side, where, s.crate), where)
        ck.guarded(side, one, where)

    def rap():
        h = stark.hooks(ck, c)
        for g in c.fns:
            if g.name == "build_rap_challenges" and g.impl and g.impl.get("tr") is not None:
                v, ip, _ = ck.run(c, g, {}, hooks=h)
                raw(ck, None, g.qual, g.qual, c, [v])
    ck.guarded("rap", rap)
