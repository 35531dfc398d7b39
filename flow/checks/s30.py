"""S30: a set of boundary constraints answers for exactly the constraints it holds."""
import random
from .. import terms as X
from ..terms import sym
from ..front import USIZE, FELT
from ..ev import Ev, Fp, Rf, P, Undecided, pmul, strip

META = {
    "level": "proof",
    "explanation": "Every constructor and query of BoundaryConstraint(s) is summarised over arbitrary lists of columns, steps and values "
                   "(through the observers in /verif/spec/boundary.rs) and compared in random interpretations, with repeated steps and "
                   "columns, with what the list holds: nothing is dropped or reordered, queries by column see exactly that column, and "
                   "the zerofier is the product of x - w^step over the steps of the column.",
}
FLOOR = 6
IDX, SEQ = ("seq", USIZE, None), ("seq", FELT, None)
TYPES = {"c": IDX, "s": IDX, "v": SEQ, "k": USIZE, "w": FELT, "l": IDX}
CASES = {"kept": "c s v", "simple": "s v", "empty": "", "steps": "c s v k", "all_steps": "c s v", "all_cols": "c s v",
         "roots": "c s v w l", "values": "c s v l", "zerofier": "c s v w k"}
Q = "starks::constraints::boundary::BoundaryConstraint"
WHERE = {"kept": "s::from_constraints", "simple": "::new_simple", "empty": "s::new", "steps": "s::steps", "all_steps": "s::steps_for_boundary",
         "all_cols": "s::cols_for_boundary", "roots": "s::generate_roots_of_unity", "values": "s::values", "zerofier": "s::compute_zerofier"}


def instance(seed, name, i):
    r = random.Random("s30.%s.%s.%d" % (seed, name, i))
    n = (0, 1, 2, 3, 5, 7)[i % 6]
    m = {"c": [r.choice((0, 1, 3)) for _ in range(n)], "s": [r.randrange(6) for _ in range(n)], "v": [r.getrandbits(60) for _ in range(n)],
         "k": r.choice((0, 1, 3, 2)), "w": r.getrandbits(200), "l": [r.choice((0, 1, 2, 3)) for _ in range(r.randrange(4))]}
    if n > 2 and i % 5 == 0:
        m["s"][-1] = 70000
    rows = list(zip(m["c"], m["s"], m["v"]))
    of = lambda k: [x for x in rows if x[0] == k]
    if name == "kept":
        w = [(a, b, Fp(x)) for a, b, x in rows]
    elif name == "simple":
        w = [(0, b, Fp(x)) for _, b, x in rows]
    elif name == "empty":
        w = 0
    elif name == "steps":
        w = [x[1] for x in of(m["k"])]
    elif name == "all_steps":
        w = list(dict.fromkeys(m["s"]))
    elif name == "all_cols":
        w = list(dict.fromkeys(m["c"]))
    elif name == "roots":
        w = [[Fp(pow(m["w"], x[1], P)) for x in of(k)] for k in m["l"]]
    elif name == "values":
        w = [[Fp(x[2]) for x in of(k)] for k in m["l"]]
    else:
        p = [1]
        for x in of(m["k"]):
            p = pmul(p, strip([-pow(m["w"], x[1], P) % P, 1]))
        w = Rf(p).norm()
    return m, w


def check(ck):
    c = ck.crate(spec=("boundary",))
    ck.fn(c, Q + "s::from_constraints")

    def case(name, args):
        q = Q + WHERE[name]
        v, ip, _ = ck.run(c, "spec::boundary::" + name, {"#": [sym(a, TYPES[a]) for a in args]})
        bad, und, good = "", "", 0
        for i in range(90 if ck.thorough else 36):
            m, w = instance(ck.seed, name, i)
            e = Ev("s30.%s.%d" % (name, i), c, [(k, [Fp(y) for y in x] if TYPES[k] == SEQ else Fp(x) if TYPES[k] == FELT else x) for k, x in m.items()])
            try:
                o = ck.refusal(e, ip.obls)
                if o is not None:
                    good += 1
                    bad = bad or "%s in %s panics: columns %s steps %s" % (o.kind, o.fn, m["c"], m["s"])
                    continue
                have = e.ck(e.num(e.ev(v)) if name == "zerofier" else e.ev(v))
                want = e.ck(w)
                if name in ("all_steps", "all_cols"):      # a set, in any order
                    have, want = sorted(e.seq(e.ev(v))), sorted(w)
            except (Undecided, RecursionError) as z:
                und = str(z)
                continue
            good += 1
            if have != want and not bad:
                bad = "columns %s steps %s, column %s of %s: %s, required %s" % (m["c"], m["s"], m["k"], m["l"], str(have)[:200], str(want)[:200])
        ck.ob(name, False if bad else None if not good else True, bad or (und if not good else "equal in %d interpretations" % good), q)
    for n, a in CASES.items():
        ck.guarded(n, lambda n=n, a=a: case(n, a.split()), Q + WHERE[n])
