"""S08: the Cairo transition constraints are those of the Cairo constraint system."""
from . import airs
from .. import terms as X
from ..terms import INT, ZERO, idx, length, ival, sym, lst, neg, show, subst, to_poly, fv, mul, sub, eq0, TRUE, FALSE
from ..ev import same
from ..front import FELT

META = {
    "level": "proof",
    "explanation": "compute_transition is summarised over a frame of independent symbols, once per trace layout; every entry is a "
                   "polynomial in normal form.  Each of the 49 (50) constraints of /verif/spec/cairo.rs must be one of the entries, "
                   "up to sign, in its slot.  Besides, no constraint may be satisfiable by a column nothing else reads, and no "
                   "otherwise free column may switch the step constraints off.",
}
FLOOR = 90
NAMES = (["flag %d" % i for i in range(15)] + ["flag 15", "instruction", "dst_addr", "op0_addr", "op1_addr", "next_ap", "next_fp",
         "next_pc_1", "next_pc_2", "t0", "t1", "mul_1", "mul_2", "call_1", "call_2", "assert_eq"]
         + ["memory continuous %d" % i for i in range(4)] + ["memory consistent %d" % i for i in range(4)]
         + ["memory permutation %d" % i for i in range(4)] + ["range check continuous %d" % i for i in range(3)]
         + ["range check permutation %d" % i for i in range(3)] + ["range check builtin"])
STEP = range(16, 31)


def equal(ck, a, b, c):
    v = same(a, b, c)
    if v.same is False:
        w = same(a, neg(b), c)
        if w.same is not False:
            return w
    return v


def layout(ck, k):
    w = k.where + "::compute_transition"
    key = k.label
    r = k.transition()
    if r is None:
        return ck.ob("%s:transition" % key, None, "the frame has no fixed shape", w)
    v, ip, _ = r
    fr, cells, width, rows = k.frame()
    want = 61 if k.rc else 52
    if width != want or rows < 2:
        return ck.ob("%s:columns" % key, False, "%s columns and %d rows declared, %d and 2 required" % (width, rows, want), k.where + "::new")
    f = ck.fn(k.c, k.where + "::compute_transition")
    rap = sym("rap", k.rap_type(f))
    spec, _, _ = ck.run(k.c, "spec::cairo::transition", {"#": [lst(cells[:width]), lst(cells[width:2 * width]), rap, TRUE if k.rc else FALSE]})
    n = ival(length(spec))
    m = ival(length(v))
    if m is None:
        return ck.ob("%s:length" % key, None, "the number of constraints is not constant: " + show(length(v)), w)
    code = [idx(v, INT(i)) for i in range(m)]
    used = set()
    late = []
    for j in range(n):
        s = idx(spec, INT(j))
        o = "%s:%s" % (key, NAMES[j])
        r = equal(ck, code[j], s, k.c) if j < m else None
        if r is not None and r.same is True:
            used.add(j)
            ck.ob(o, True, "slot %d" % j, w)
        elif r is not None and r.same is None:
            used.add(j)
            ck.ob(o, None, "slot %d: %s" % (j, r.detail), w)
        else:
            late.append((j, s, o))
    for j, s, o in late:
        i = next((i for i in range(m) if i not in used and equal(ck, code[i], s, k.c).same is True), None)
        if i is not None:
            used.add(i)
            ck.ob(o, True, "in slot %d" % i, w)
            continue
        ck.ob(o, False, "slot %d holds %s, required %s" % (j, show(code[j], maxd=10)[:500] if j < m else "nothing", show(s, maxd=10)[:500]), w)
    for i in range(m):
        if i not in used and not late and i >= n:
            ck.ob("%s:extra %d" % (key, i), None, "not a constraint of the reference: %s" % show(code[i], maxd=8)[:200], w)
    freedom(ck, k, code, cells, width, w)


def freedom(ck, k, code, cells, width, w):
    """columns that occur in one constraint only make it vacuous; a factor nothing pins switches constraints off"""
    occ = {}
    for i, t in enumerate(code):
        for v in airs.xvars(t):
            occ.setdefault(int(v.split("_")[1]), set()).add(i)
    bound = bound_columns(k)
    seen = set()
    for col, cs in sorted(occ.items()):
        if len(cs) == 1 and col not in bound:
            i = next(iter(cs))
            if i in seen or len(airs.xvars(code[i])) < 2:
                continue
            p = to_poly(code[i])
            name = "x0_%d" % col
            lin = [m for m in p if len(m) == 1 and [(a.op, a.args[0], e) for a, e in m] == [("sym", name, 1)]]
            rest = [m for m in p if any(a.op == "sym" and a.args[0].startswith("x") and a.args[0].endswith("_%d" % col) for a, e in m)]
            if lin and len(rest) == 1:
                seen.add(i)
                ck.ob("%s:vacuous:%s" % (k.label, NAMES[i] if i < len(NAMES) else i), False,
                      "no other constraint reads column %d, so any values of the other columns satisfy this one" % col, w)
    ck.ob("%s:vacuous" % k.label, True, "%d columns" % len(occ), w)
    for col, cs in sorted(occ.items()):
        z = {c: ZERO for c in cells if c.args[0].endswith("_%d" % col)}
        off = [i for i in cs if subst(code[i], z) is ZERO]
        if col not in bound and len(off) == len(cs) and len([i for i in off if i in STEP]) == len(STEP):
            ck.ob("%s:switch:column %d" % (k.label, col), False,
                  "constraints %s vanish where column %d is zero and nothing constrains that column" % (off, col), w)
    ck.ob("%s:switch" % k.label, True, "", w)


def bound_columns(k):
    try:
        f = k.ck.fn(k.c, k.where + "::boundary_constraints")
        v, ip, _ = k.ck.run(k.c, f, {"#": [k.air, sym("rap", k.rap_type(ck_fn(k)))]})
        l = X.field(v, "constraints")
        n = ival(length(l))
        return {ival(X.field(idx(l, INT(i)), "col")) for i in range(n)}
    except Exception:
        return set()


def ck_fn(k):
    return k.ck.fn(k.c, k.where + "::compute_transition")


def check(ck):
    cs = []
    ck.guarded("cairo", lambda: cs.extend(airs.cases(ck, "cairo", ("cairo",))), "cairo::air::CairoAIR::new")
    for k in cs:
        ck.guarded(k.label, lambda: layout(ck, k), k.where)
