"""S10: every public input is enforced by a boundary constraint."""
from . import airs
from .. import terms as X
from ..terms import INT, ZERO, ONE, idx, length, ival, sym, show, field, isv, TRUE, FALSE, add, neg
from ..ev import same
from ..front import USIZE

META = {
    "level": "proof",
    "explanation": "boundary_constraints is summarised for each trace layout over symbolic public inputs and challenges; each "
                   "(column, row, value) of the reference list in /verif/spec/cairo.rs must be one of its entries.  The memory "
                   "product must also start at a pinned value.  The example constraint systems are checked against the list of "
                   "their initial values.",
}
FLOOR = 20
PUB = ("adt", "cairo::air::PublicInputs", ())
RAP = ("adt", "cairo::air::CairoRAPChallenges", ())
NAMES = ["pc_init", "ap_init", "fp_init", "pc_final", "ap_final", "public memory", "range-check product", "range_check_min", "range_check_max"]
EXAMPLES = {
    "dummy": [(1, 0, None), (1, 1, None)],
    "fibonacci_2_columns": [(0, 0, "a0"), (1, 0, "a1")],
    "fibonacci_rap": [(0, 0, "a0"), (0, 1, "a1"), (2, 0, None)],
    "quadratic": [(0, 0, "a0")],
    "simple_fibonacci": [(0, 0, "a0"), (0, 1, "a1")],
}


def given(t):
    """the bounds exist (whether they do is decided by S26)"""
    p = sym("arg1", PUB)
    for f in ("range_check_min", "range_check_max"):
        t = X.assume(t, isv(field(p, f), "Some"), True)
    return t


def entries(v):
    l = field(v, "constraints")
    n = ival(length(l))
    if n is None:
        return None
    return [tuple(field(idx(l, INT(i)), f) for f in ("col", "step", "value")) for i in range(n)]


def match(ck, c, key, have, want, where):
    und, near = "", ""
    for e in have:
        vs = [same(a, b, c) for a, b in zip(e, want)]
        if all(v.same for v in vs):
            return ck.ob(key, True, "column %s, row %s" % (show(want[0]), show(want[1])), where)
        if not any(v.same is False for v in vs):
            und = next(v.detail for v in vs if v.same is None)
        elif sum(bool(v.same) for v in vs) == 2 or vs[2].same:
            near = "(column %s, row %s, value %s)" % tuple(show(x, maxd=8)[:150] for x in e)
    ck.ob(key, None if und else False, und or "no boundary constraint says column %s, row %s, value %s%s" % (
        show(want[0]), show(want[1]), show(want[2], maxd=8)[:200], "; nearest " + near if near else ""), where)


def cairo(ck, k):
    w = k.where + "::boundary_constraints"
    rap = sym("rap", RAP)
    v, ip, _ = ck.run(k.c, k.where + "::boundary_constraints", {"#": [k.air, rap]})
    have = entries(given(v))
    s, _, _ = ck.run(k.c, "spec::cairo::boundary", {"#": [sym("arg1", PUB), rap, sym("n", USIZE)]})
    for t in X.find(s, lambda t: t.op == "isv" and t.args[0].op == "mapget"):
        s = X.assume(s, t, k.rc)
    l = given(s)
    if have is None:
        return ck.ob(k.label, None, "the list has no fixed length", w)
    for i in range(ival(length(l))):
        match(ck, k.c, "%s:%s" % (k.label, NAMES[i]), have, tuple(field(idx(l, INT(i)), f) for f in ("col", "step", "value")), w)
    # where the running product of the memory starts
    col = (43 if k.rc else 34) + 11
    exe = k.ints("transition_exemptions")
    pinned = [e for e in have if ival(e[0]) == col and ival(e[1]) == 0]
    ok = bool(pinned) or bool(exe and len(exe) > 42 and ival(exe[42]) == 0)
    ck.ob("%s:memory product start" % k.label, ok, "" if ok else "no constraint fixes row 0 of column %d, and the constraint that wraps around "
          "to it is exempted: scaling the product column reaches any final value" % col, w)


def example(ck, k):
    w = k.where + "::boundary_constraints"
    f = ck.fn(k.c, w)
    v, ip, _ = ck.run(k.c, f, {"#": [k.air, sym("rap", k.rap_type(ck.fn(k.c, k.where + "::compute_transition")))]})
    have = entries(v)
    if have is None:
        return ck.ob(k.label, None, "the list has no fixed length", w)
    for col, step, name in EXAMPLES[k.name]:
        val = field(sym("arg1"), name) if name else ONE
        match(ck, k.c, "%s:column %d row %d" % (k.label, col, step), have, (INT(col), INT(step), val), w)


def check(ck):
    cs = []
    ck.guarded("cairo", lambda: cs.extend(airs.cases(ck, "cairo", ("cairo",))), airs.CAIRO + "::new")
    for k in cs:
        ck.guarded(k.label, lambda: cairo(ck, k), k.where)
    for name in EXAMPLES:
        xs = []
        ck.guarded(name, lambda: xs.extend(airs.cases(ck, name)), airs.AIRS[name] + "::new")
        for k in xs:
            ck.guarded(k.label, lambda: example(ck, k), k.where)
