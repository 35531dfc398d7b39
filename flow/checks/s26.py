"""S26: verifying a malformed proof returns false instead of panicking."""
import copy
import random
import re
import time
from collections import namedtuple
from . import airs, stark, models
from .. import terms as X
from ..terms import sym, find, show, fv, T, to_poly, mk, rewrite
from ..front import USIZE
from ..ev import Ev, Fp, St, En, Mp, Undecided

META = {
    "level": "proof",
    "explanation": "Every index, slice, unwrap, division and (in overflow-checked arithmetic) operation that verify can execute is an "
                   "obligation under its path condition. Obligations that hold on every path are counted; the others are "
                   "evaluated on proof objects of every wrong shape (parts missing, surplus, empty or inconsistent, alone and "
                   "combined, with every value check taken to succeed) and, for the methods of the Cairo constraint system that "
                   "verify calls, on arbitrary public inputs that pass the guards of verify_cairo_proof.",
}
FLOOR = 8
VERIFY, ENTRY = "starks::verifier::verify", "cairo::air::verify_cairo_proof"
PUB = ("adt", "cairo::air::PublicInputs", ())
O = namedtuple("O", "kind cond facts fn loops")
LISTS = ["query_list", "deep_poly_openings", "fri_layers_merkle_roots", "lde_trace_merkle_roots"]
LAYERS = ["layers_auth_paths", "layers_auth_paths_sym", "layers_evaluations", "layers_evaluations_sym"]
OPENING = ["lde_trace_merkle_proofs", "lde_trace_evaluations"]


def resize(r, q):
    k = r.randrange(6)
    n = len(q)
    want = [0, max(n - 1, 0), n + 1, 1, 2 * n + 3, r.randrange(n + 2)][k]
    if not q:
        return
    while len(q) < want:
        q.append(copy.deepcopy(q[r.randrange(n)]))
    del q[want:]


def malformed(r):
    """a random wrong shape"""
    def ch(pr):
        for _ in range(r.choice((1, 1, 2, 3, 5))):
            k = r.randrange(10)
            if k < 3:
                resize(r, pr[r.choice(LISTS)])
            elif k < 6 and pr["query_list"]:
                qs = pr["query_list"] if r.random() < .5 else [r.choice(pr["query_list"])]
                names = LAYERS if r.random() < .3 else [r.choice(LAYERS)]
                s = r.randrange(1 << 30)
                for q in qs:
                    for n in names:
                        resize(random.Random(s), q.f[n])
            elif k < 8 and pr["deep_poly_openings"]:
                os = pr["deep_poly_openings"] if r.random() < .5 else [r.choice(pr["deep_poly_openings"])]
                n, s = r.choice(OPENING), r.randrange(1 << 30)
                for o in os:
                    resize(random.Random(s), o.f[n])
            else:
                f = pr["trace_ood_frame_evaluations"].f
                if r.random() < .6:
                    f["row_width"] = r.choice((0, 1, f["row_width"] + 1, max(f["row_width"] - 1, 0), len(f["data"]), 2 ** 63, 2 ** 64 - 1))
                if r.random() < .6:
                    resize(r, f["data"])
    return ch


def lengths(p):
    """other trace lengths the proof may claim"""
    return [0, 1, 2, 3, 5, 6, 12, p.n * 2, 2 ** 20 + 1, 2 ** 62 + 2, 2 ** 64 - 1]


def protocol(ck, overflow, tag):
    code = stark.verifier(ck, overflow=overflow)
    obls = [O(o.kind, c, f, o.fn, l) for (o, c, f), l in zip(code.obls, code.loops)]
    n = len(code.ip.obls)
    bad, und, good = {}, {}, {}
    for o in obls:
        good.setdefault((o.kind, o.fn), 0)

    def one(S, ch, what, tl=None):
        m = models.Model(S.p, S.crate)
        if tl is not None:
            m.proof.f["trace_length"] = tl
        ch(m.proof.f)
        m.grind = 0
        e = m.ev([])
        e.__class__ = models.Lax
        e.oob = False
        e.funcs["trace_length"] = lambda ev, air: m.proof.f["trace_length"]
        for t in code.trs:
            e.t_tr(t, {})
        # the constraint system may assume a frame of the declared shape
        f, p = m.proof.f["trace_ood_frame_evaluations"].f, S.p
        k = ("frame", "compute_transition")
        if tl is None and k not in bad:
            try:
                if f["row_width"] == p.cols and len(f["data"]) // max(p.cols, 1) >= len(p.offsets):
                    good[k] = good.get(k, 0) + 1
                elif e.truth(e.ev(code.raw)):
                    bad[k] = "the transition function runs on a frame of %d cells, %d per row, where %d rows of %d are declared: %s" % (
                        len(f["data"]), f["row_width"], len(p.offsets), p.cols, what)
                else:
                    good[k] = good.get(k, 0) + 1
            except (Undecided, RecursionError, OverflowError) as x:
                und[k] = str(x)
        for o in obls:
            k = (o.kind, o.fn)
            if k in bad:
                continue
            try:
                if ck.refusal(e, [o]) is not None:
                    bad[k] = what
                else:
                    good[k] += 1
            except (Undecided, RecursionError, OverflowError) as x:
                und[k] = str(x)
    end = time.time() + (120 if ck.thorough else 30)
    for i, S in models.solvers(ck, code, code.crate):
        tests = [(n, c, None) for n, c in models.deviations()] + [("the required shape", lambda pr: None, None)]
        tests += [("trace length %d" % t, lambda pr: None, t) for t in lengths(S.p)]
        tests += [("random malformed proof %d" % j, malformed(random.Random("s26.%s.%d.%d" % (ck.seed, i, j))), None) for j in range(200 if ck.thorough else 40)]
        for what, ch, tl in tests:
            if time.time() > end:
                break
            try:
                one(S, ch, "%s (model %d)" % (what, i), tl)
            except (Undecided, RecursionError, IndexError, OverflowError) as x:
                und.setdefault(("model", "verify"), str(x))
    for k in sorted(set(good) | set(bad)):
        ck.ob("%s:%s%s" % (k[0], k[1], tag), False if k in bad else True if good.get(k) else None,
              bad.get(k) or ("holds in %d malformed proofs" % good[k] if good.get(k) else und.get(k, "")), k[1])
    ck.ob("always:verify" + tag, True, "%d of %d obligations hold on every path" % (n - len(obls), n), VERIFY)
    return code


# ---------------------------------------------------------------- the Cairo constraint system
def publics(seed, i, rc):
    """arbitrary public inputs and a trace length"""
    r = random.Random("s26p.%s.%d" % (seed, i))
    n = 1 << r.randrange(0, 7)
    steps = r.choice((0, 1, n, n - 1, n + 1, 2 ** 32, 2 ** 64 - 1, r.randrange(1, 2 * n + 1)))

    def opt():
        return En("Option", "None", []) if r.random() < .35 else En("Option", "Some", [r.choice((0, 1, 65535, r.randrange(65536)))])
    lo, hi = opt(), opt()
    mem = {r.randrange(1, 40): r.randrange(1 << 30) for _ in range(r.randrange(0, 5))}
    seg = {}
    if rc:
        seg["RangeCheck"] = (r.randrange(100), r.randrange(100))
    if r.random() < .5:
        seg["Output"] = (r.randrange(2 ** 64), r.randrange(2 ** 64))

    def ms(e):
        d = {}
        for k, (a, b) in seg.items():
            key = En("cairo::air::MemorySegment", k, [])
            d[e.ck(key)] = (key, St("Range", {"start": a, "end": b}))
        return Mp(d, False, True)
    over = [("n", n), (r"arg1\.num_steps", steps), (r"arg1\.range_check_min", lo), (r"arg1\.range_check_max", hi),
            (r"arg1\.public_memory", lambda e, m: Mp({e.ck(Fp(a)): (Fp(a), Fp(x)) for a, x in mem.items()}, False, True)),
            (r"arg1\.memory_segments", lambda e, m: ms(e))]
    what = "num_steps %d, trace length %d, range_check_min %s, range_check_max %s, %d public cells, segments %s" % (
        steps, n, lo.var, hi.var, len(mem), sorted(seg))
    return over, what


def called(code):
    """the methods of the constraint system that verify uses"""
    names = set()
    ts = [code.raw] + list(code.trs)
    for o, c, f in code.obls:
        ts += [c] + list(f)
    for t in ts:
        for x in find(t, lambda t: t.op in ("call", "bcall")):
            names.add(str(x.args[0]).split("::")[-1].removesuffix(".out"))
    return names | {"build_rap_challenges", "new", "context", "compute_transition", "boundary_constraints"}


def system(ck, code, overflow, tag):
    c = code.crate

    def h(ip, a, fn):
        return mk("bcall", "verify", *[ip.freeze(ip.deref(x)) for x in a])
    pub = sym("arg1", PUB)
    v, eip, _ = ck.run(c, ENTRY, {"#": [sym("proof", stark.PROOF), pub, sym("options", airs.OPTIONS)]}, hooks={VERIFY: h}, overflow=overflow)
    v = rewrite(v, lambda t: X.TRUE if t.op == "bcall" and t.args[0] == "verify" else None)
    v = rewrite(v, lambda t: sym("n", USIZE) if t.op == "field" and t.args[1] == "trace_length" and t.args[0] is sym("proof") else None)
    names = called(code)
    for k in airs.cases(ck, "cairo", overflow=overflow):
        obls = {"entry": list(eip.obls), "new": list(k.ip.obls)}
        terms = {"new": [k.air]}
        for g in list(k.c.fns):
            if g.qual.rsplit("::", 1)[0] != k.qual or not g.impl or g.impl.get("tr") is None or g.name not in names or g.name == "new":
                continue
            args = [k.air]
            if g.name == "compute_transition":
                args += [k.frame()[0], sym("rap", k.rap_type(g))]
            elif g.name == "boundary_constraints":
                args += [sym("rap", k.rap_type(g, 1))]
            hooks = stark.hooks(ck, k.c) if g.name == "build_rap_challenges" else None

            def meth():
                sym("arg1", PUB)
                r, ip, _ = ck.run(k.c, g, {"#": args}, hooks=hooks, overflow=overflow)
                obls[g.name] = list(ip.obls)
                terms[g.name] = [r]
            ck.guarded("%s:%s%s" % (k.label, g.name, tag), meth, g.qual)
        sym("arg1", PUB)
        sym("n", USIZE)
        for name, os in obls.items():
            todo = [o for o in os if o.cond is not X.TRUE]
            bad, und, good, refused = None, "", 0, 0
            for i in range(0 if not todo else 400 if ck.thorough else 120):
                over, what = publics(ck.seed, i, k.rc)
                e = Ev("s26.%d" % i, k.c, over)
                try:
                    if name != "entry" and not e.truth(e.ev(v)):
                        refused += 1
                        continue
                    o = ck.refusal(e, todo)
                except (Undecided, RecursionError, OverflowError) as x:
                    und = str(x)
                    continue
                good += 1
                if o is not None:
                    bad = "panics (%s in %s) for %s" % (o.kind, o.fn, what)
                    break
            where = ENTRY if name == "entry" else k.qual + "::" + name
            ck.ob("%s:%s%s" % (k.label, name, tag), False if bad else True if good or not todo else None,
                  bad or ("%d obligations hold on every path, %d in %d public inputs (%d refused before)" % (len(os) - len(todo), len(todo), good, refused)
                          if good or not todo else und), where)
        if not overflow:
            inverses(ck, k, terms, v)


def inverses(ck, k, terms, guard):
    """inverses of expressions that whoever chooses the public inputs can make zero"""
    for name, ts in terms.items():
        hits = set()
        for t in ts:
            for p in find(t, lambda t: t.op == "poly"):
                for m, _ in to_poly(p).items():
                    for a, e in m:
                        neg = e < 0 if isinstance(e, int) else False
                        if neg and find(a, lambda x: x.op == "field" and x.args[0] is sym("arg1")):
                            hits.add(a)
        free = [a for a in hits if not find(guard, lambda x: x is a)]
        if not hits and name not in ("boundary_constraints",):
            continue
        ck.ob("%s:inverse:%s" % (k.label, name), not free, "inverts %s, which is zero for some public inputs" % show(free[0], maxd=6)[:200] if free
              else "%d inverses of public inputs, all guarded" % len(hits), k.qual + "::" + name)


def size(ck, code):
    """the trace length claimed by the proof sizes the domains: is it bounded before?"""
    pl = mk("field", sym("proof"), "trace_length")
    cs = [c for c in code.conjs if pl in {x for x in find(c, lambda t: t is pl)}]
    S = next(iter(models.solvers(ck, code, code.crate, 1)))[1]
    ok = False
    for c in cs:
        if find(c, lambda t: t.op in ("call", "bcall") and str(t.args[0]) not in ("is_pow2",)):
            continue
        m = models.Model(S.p, S.crate)
        m.proof.f["trace_length"] = 2 ** 60
        try:
            e = m.ev([])
            e.funcs["trace_length"] = lambda ev, air: 2 ** 60
            ok |= not e.truth(e.ev(c))
        except (Undecided, RecursionError, OverflowError):
            return ck.ob("size:trace_length", None, "guard not evaluated: %s" % show(c, maxd=5)[:200], VERIFY)
    ck.ob("size:trace_length", ok, "bounded" if ok else "a proof may claim 2^60 rows: the domains of that size are allocated before anything is checked", VERIFY)


def check(ck):
    for overflow, tag in ((False, ""), (True, " (overflow checked)")):
        def body():
            code = protocol(ck, overflow, tag)
            if not overflow:
                ck.guarded("size", lambda: size(ck, code), VERIFY)
            ck.guarded("cairo" + tag, lambda: system(ck, code, overflow, tag), ENTRY)
        ck.guarded("verify" + tag, body, VERIFY)
