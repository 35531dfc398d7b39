"""S09: what a constraint system declares is what its transition function does."""
from . import airs
from .. import terms as X
from ..terms import INT, idx, length, ival, sym, show, field, sub, eq0, le, TRUE, FALSE, find, mul
from ..ev import same
from ..front import USIZE

META = {
    "level": "proof",
    "explanation": "For every shipped constraint system (the Cairo one per trace layout) new() is summarised and the declared "
                   "lists are read off; the transition function is summarised over a frame of independent symbols and the degree, "
                   "the rows and the columns of each constraint are read off its normal form.  Obligations: one entry per "
                   "constraint in every list, declared degree = degree, every access in range, the end of the trace exempted "
                   "exactly as far as the constraint looks ahead, number of distinct exemptions, degree bound, and that the "
                   "trait methods return what new() was given.",
}
FLOOR = 100
# constraints whose look-ahead across the end is meant to hold, or whose exemption also covers padding
WRAPS = {("cairo", 48)}


def p2(k):
    r = 1
    while r < k:
        r *= 2
    return r


def one(ck, k):
    W = k.where
    L = k.label
    n = sym("n", USIZE)
    # the contract the generic prover and verifier rely on
    for m, want in (("trace_length", n), ("options", sym("options", airs.OPTIONS))):
        ck.equal("%s:%s" % (L, m), k.method(m)[0], want, k.c, W + "::" + m)
    deg, exe, offs = k.ints("transition_degrees"), k.ints("transition_exemptions"), k.ints("transition_offsets")
    num = ival(k.method("num_transition_constraints")[0])
    r = k.transition()
    if r is None or None in (deg, exe, offs, num):
        return ck.ob("%s:shape" % L, None, "the declared shape is not constant", W + "::new")
    v, ip, _ = r
    m = ival(length(v))
    if m is None:
        return ck.ob("%s:shape" % L, None, "the number of constraints is not constant", W)
    for nm, x in (("transition_degrees", len(deg)), ("transition_exemptions", len(exe)), ("num_transition_constraints", num)):
        ck.ob("%s:%s" % (L, nm), x == m, "%d declared, %d constraints evaluated" % (x, m), W + "::new")
    _, _, width, rows = k.frame()
    aux = ival(k.method("number_auxiliary_rap_columns")[0])
    if aux is not None:
        ck.ob("%s:columns" % L, 0 <= aux < width, "%d columns, %d of them auxiliary" % (width, aux), W + "::new")
    o = [ival(x) for x in offs]
    ck.ob("%s:offsets" % L, len(set(o)) == len(o) if None not in o else None, "offsets %s" % o, W + "::new")
    # accesses in range
    bad = [b for b in ip.obls if b.kind in ("index", "slice", "unwrap", "panic") and b.cond is FALSE]
    und = [b for b in ip.obls if b.kind in ("index", "slice", "unwrap", "panic") and b.cond not in (TRUE, FALSE)]
    ck.ob("%s:accesses" % L, False if bad else (None if und else True),
          "; ".join("%s in %s" % (show(b.cond, maxd=5)[:80], b.fn) for b in bad + und)[:400] or "%d accesses" % len(ip.obls), W)
    worst = 0
    for i in range(m):
        d = airs.degree(idx(v, INT(i)))
        if d is None:
            ck.ob("%s:degree %d" % (L, i), None, "not a polynomial in the frame", W)
            continue
        true, rs, cs = d
        worst = max(worst, true)
        if i < len(deg):
            dd = ival(deg[i])
            ck.ob("%s:degree %d" % (L, i), dd == true if dd is not None else None, "declared %s, evaluated %d" % (show(deg[i]), true), W + "::new")
        if i < len(exe) and None not in o:
            ahead = max([o[x] for x in rs] or [0]) - min(o)
            if (k.name, i) in WRAPS:
                ahead = 0
            want = INT(ahead)
            if k.name == "fibonacci_rap" and i == 0:
                # rows after the last step are padding
                want = X.add(n, X.neg(field(sym("arg1"), "steps")), INT(2))
            ck.equal("%s:exemption %d" % (L, i), exe[i], want, k.c, W + "::new")
    uniq = {show(x) for x in exe if ival(x) != 0}
    ne = ival(k.ctx("num_transition_exemptions"))
    ck.ob("%s:num_transition_exemptions" % L, ne == len(uniq) if ne is not None else None,
          "%s declared, %d distinct" % (ne, len(uniq)), W + "::new")
    b = k.method("composition_poly_degree_bound")[0]
    least = p2(max(1, worst - 1))
    allowed = {least} | ({2} if k.name == "quadratic" else set())
    vs = [same(b, mul(INT(a), n), k.c) for a in allowed]
    ok = True if any(x.same for x in vs) else (None if any(x.same is None for x in vs) else False)
    ck.ob("%s:composition_poly_degree_bound" % L, ok, "%s, required %d times the trace length" % (show(b), least), W + "::composition_poly_degree_bound")


def check(ck):
    for name in airs.AIRS:
        cs = []
        ck.guarded(name, lambda: cs.extend(airs.cases(ck, name)), airs.AIRS[name] + "::new")
        for k in cs:
            ck.guarded(k.label, lambda: one(ck, k), k.where)
