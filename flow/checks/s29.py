"""S29: the debug validator accepts exactly the traces that satisfy the constraint system."""
import random
from .. import terms as X
from ..terms import sym
from ..ev import Ev, Fp, Rf, St, P, H, Undecided

META = {
    "level": "proof",
    "explanation": "The value-flow summary of validate_trace, over an arbitrary constraint system, trace and domain, is evaluated in "
                   "random interpretations whose transition and boundary constraints fail at chosen steps: the verdict must be true "
                   "exactly when every boundary value is the trace's cell and every transition vanishes at every step that is not "
                   "exempt for it, with the frame read at the declared offsets.",
}
FLOOR = 2
VALIDATE = "starks::debug::validate_trace"


def interpolate(vals, g):
    """coefficients of the polynomial with these values on the powers of g"""
    n = len(vals)
    inv, ni = pow(g, P - 2, P), pow(n, P - 2, P)
    return [ni * sum(v * pow(inv, i * j, P) for i, v in enumerate(vals)) % P for j in range(n)]


class Instance:
    def __init__(s, seed, i):
        r = random.Random("s29.%s.%d" % (seed, i))
        s.n, s.w = (4, 2, 8, 4, 1, 8)[i % 6], 1 + r.randrange(3)
        s.cells = [[r.getrandbits(50) for _ in range(s.w)] for _ in range(s.n)]
        s.offsets = r.choice(([0], [0, 1], [0, 1, 2], [0, 2]))
        s.k = 1 + r.randrange(3)
        s.exempt = [r.randrange(0, s.n + 1) if r.random() < .7 else 0 for _ in range(s.k)]
        s.bc = [(r.randrange(s.w), r.randrange(s.n)) for _ in range(r.randrange(4))]
        s.bad_bc, s.bad = set(), set()
        mode = i % 8
        s.last = [s.n - x for x in s.exempt]
        # steps exempt from a constraint may fail in any case
        for k in range(s.k):
            for t in range(s.last[k], s.n):
                if r.random() < .7:
                    s.bad.add((k, t))
        if mode in (1, 4, 6):
            k = r.randrange(s.k)
            if s.last[k]:
                s.bad.add((k, (0, s.last[k] - 1, r.randrange(s.last[k]))[i % 3]))
        if mode in (2, 4, 7) and s.bc:
            s.bad_bc.add(r.randrange(len(s.bc)))
        s.ok = not s.bad_bc and all(t >= s.last[k] for k, t in s.bad)

    def ev(s, seed, i, crate):
        g = pow(3, (P - 1) // s.n, P)
        polys = [Rf(interpolate([row[c] for row in s.cells], g)).red().norm() for c in range(s.w)]
        rows = {tuple(x for o in s.offsets for x in s.cells[(t + o) % s.n]): t for t in range(s.n)}
        rap = St("Rap", {})
        e = Ev("s29.%d" % i, crate, [
            ("polys", polys), ("rap", rap),
            ("domain", St("starks::domain::Domain", {"interpolation_domain_size": s.n, "trace_primitive_root": Fp(g),
                                                     "root_order": s.n.bit_length() - 1, "blowup_factor": 4}))])

        def ctx(ev, air):
            return St("starks::context::AirContext", {
                "trace_columns": s.w, "transition_degrees": [1] * s.k, "transition_offsets": s.offsets, "transition_exemptions": s.exempt,
                "num_transition_constraints": s.k, "num_transition_exemptions": len(set(s.exempt))})

        def transition(ev, air, frame, rap):
            t = rows.get(tuple(x.v if isinstance(x, Fp) else x for x in (ev.num(y) for y in ev.seq(ev.getf(frame, "data")))))
            if t is None:
                return [Fp(H("nowhere", k)) for k in range(s.k)]
            return [Fp(H("fails", k, t)) if (k, t) in s.bad else Fp(0) for k in range(s.k)]
        e.funcs.update({
            "context": ctx, "num_transition_constraints": lambda ev, air: s.k, "trace_length": lambda ev, air: s.n,
            "compute_transition": transition,
            "boundary_constraints": lambda ev, air, rap: St("starks::constraints::boundary::BoundaryConstraints", {
                "constraints": [St("starks::constraints::boundary::BoundaryConstraint", {
                    "col": c, "step": t, "value": Fp(s.cells[t][c] + (j in s.bad_bc))}) for j, (c, t) in enumerate(s.bc)]}),
        })
        return e


def check(ck):
    c = ck.crate(debug=True)
    f = ck.fn(c, VALIDATE)

    def verdicts():
        v, ip, _ = ck.run(c, f, {"#": [sym("air", ("param", "A")), sym("polys", ("seq", ("poly",), None)),
                                       sym("domain", ("adt", "starks::domain::Domain", ())), sym("rap", ("param", "R"))]})
        bad, und, good = {}, "", [0, 0]
        for i in range(200 if ck.thorough else 64):
            s = Instance(ck.seed, i)
            e = s.ev(ck.seed, i, c)
            try:
                have = e.ev(v)
                if not isinstance(have, bool):
                    raise Undecided("no verdict: %s" % have)
            except (Undecided, RecursionError) as z:
                und = str(z)
                continue
            good[s.ok] += 1
            if have != s.ok:
                bad.setdefault(s.ok, "%d rows, offsets %s, exemptions %s, transitions failing at (constraint, step) %s, boundary constraints "
                               "failing %s of %s: the verdict is %s" % (s.n, s.offsets, s.exempt, sorted(s.bad), sorted(s.bad_bc), s.bc, have))
        for w, n in ((True, "valid traces are accepted"), (False, "invalid traces are rejected")):
            ck.ob(n, False if w in bad else None if not good[w] else True, bad.get(w) or (und if not good[w] else "in %d interpretations" % good[w]),
                  f.qual)
    ck.guarded("verdicts", verdicts, VALIDATE)
