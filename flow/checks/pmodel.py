"""Random finite instances of the prover's summary: trace, constraint system and options are random,
polynomials are interpreted as polynomials over the field."""
from ..ev import Ev, Fp, St, En, Obj, H, P, Undecided
from ..terms import find, show, subst, rewrite, mk

PARAMS = [
    dict(log_n=2, log_b=1, queries=2, cols=3, aux=1),
    dict(log_n=3, log_b=1, queries=2, cols=2, aux=2, offsets=(0, 2, 5), degrees=(3, 1, 2, 2), exemptions=(0, 3, 1, 1), boundary=((0, 0), (3, 5), (1, 1)), coset=7),
    dict(log_n=1, log_b=2, queries=1, cols=2, aux=0, offsets=(0, 1), degrees=(1,), exemptions=(1,), boundary=((1, 1),), grind=0),
    dict(log_n=0, log_b=1, queries=2, cols=2, aux=1, offsets=(0,), degrees=(2, 1), exemptions=(0, 0), boundary=((0, 0),), coset=5),
    dict(log_n=3, log_b=2, queries=3, cols=1, aux=1, offsets=(0, 1, 2), degrees=(1, 1), exemptions=(2, 0), boundary=((0, 3), (1, 0))),
]


class PModel:
    def __init__(s, seed, crate, log_n=2, log_b=1, queries=2, cols=3, aux=1, offsets=(0, 1), degrees=(1, 2, 1), exemptions=(0, 1, 2),
                 boundary=((0, 0), (1, 2)), coset=3, grind=2):
        s.grind = grind
        s.seed, s.crate = seed, crate
        s.n, s.log_b, s.queries, s.cols, s.aux = 1 << log_n, log_b, queries, cols, aux
        s.offsets, s.degrees, s.exemptions, s.boundary, s.coset = list(offsets), list(degrees), list(exemptions), list(boundary), coset
        s.nt = len(s.degrees)
        s.bound = 4 * s.n
        s.proof = None

    def ev(s, trs=()):
        opts = St("starks::proof::options::ProofOptions", {
            "blowup_factor": 1 << s.log_b, "fri_number_of_queries": s.queries, "coset_offset": s.coset, "grinding_factor": s.grind})
        over = [
            ("rows", s.n), ("cols", s.cols),
            ("main_table", [Fp(H(s.seed, "m", i)) for i in range(s.n * s.cols)]),
            ("options", opts),
            (r"draw:usize:(\d+)", lambda ev, m: H(s.seed, m.group(0)) % (1 << 20)),
            # the digest the nonce is ground on: a few candidates fail before one succeeds
        ]
        if s.proof is not None:
            over.append(("proof", s.proof))
        e = Ev(s.seed, s.crate, over)
        e.model = s

        def ctx(ev, air):
            return St("starks::context::AirContext", {
                "proof_options": opts, "trace_columns": s.cols + s.aux, "transition_degrees": s.degrees,
                "transition_offsets": s.offsets, "transition_exemptions": s.exemptions,
                "num_transition_constraints": s.nt, "num_transition_exemptions": len(set(x for x in s.exemptions if x))})
        e.funcs.update({
            "context": ctx,
            "trace_length": lambda ev, air: s.n,
            "number_auxiliary_rap_columns": lambda ev, air: s.aux,
            "composition_poly_degree_bound": lambda ev, air: s.bound,
            "build_auxiliary_trace": lambda ev, air, main, rap: St("starks::trace::TraceTable", {
                "n_cols": s.aux, "table": [Fp(H(s.seed, "aux", ev.ck(main), ev.ck(rap), i)) for i in range(s.n * s.aux)]}),
            "compute_transition": lambda ev, air, frame, rap: [Fp(H(s.seed, "ct", i, ev.ck(frame), ev.ck(rap))) for i in range(s.nt)],
            "boundary_constraints": lambda ev, air, rap: St("starks::constraints::boundary::BoundaryConstraints", {
                "constraints": [St("starks::constraints::boundary::BoundaryConstraint", {
                    "col": c, "step": st, "value": Fp(H(s.seed, "bc", i, ev.ck(rap)))}) for i, (c, st) in enumerate(s.boundary)]}),
        })
        e.builds = []

        def build(ev, leaves):
            o = Obj("merkle_build(%s)" % ev.name(leaves), ("adt", "MerkleTree", ()))
            e.builds.append((o, leaves))
            return o
        e.funcs["merkle_build"] = build

        def path(ev, tree, pos):
            l = next((x for o, x in e.builds if isinstance(tree, Obj) and o.seed == tree.seed), None)
            if l is None:
                return ev.gen("merkle_proof(%s,%s)" % (ev.name(tree), ev.name(pos)), ("adt", "Option", (("adt", "Proof", ()),)))
            if ev.integer(pos) >= 1 << max(0, len(ev.seq(l)) - 1).bit_length():
                return En("Option", "None", [])
            return En("Option", "Some", [Obj("merkle_path(%s,%s)" % (ev.name(tree), ev.name(pos)), ("adt", "Proof", ()))])
        e.funcs["merkle_proof"] = path
        for t in trs:
            e.t_tr(t, {})
        return e


def instances(ck, crate, n=None):
    k = 5 if ck.thorough else (n or 4)
    for r in range(3 if ck.thorough else 1):
        for i, p in enumerate(PARAMS[:k]):
            yield i, PModel("p%d.%d.%d" % (ck.seed, r, i), crate, **p)


def events(e, trs):
    """what the transcript absorbs and draws, adjacent absorptions joined"""
    out = []
    for t in trs[-1:]:
        e.draws = {}
        e.run_tr(t, {}, out)
    res = []
    for x in out:
        if x[0] == "app":
            d = x[1]
            d = list(d[1:]) if d[0] == "l" else [d]
            if res and res[-1][0] == "app":
                res[-1] = ("app", res[-1][1] + d)
            else:
                res.append(("app", d))
        else:
            res.append(x)
    return res


def leaves(e, fields):
    """what each layer commitment of a proof commits to"""
    out = []
    known = {e.ck(e.getf(o, "root")): l for o, l in e.builds}
    for r in e.seq(e.ev(fields["fri_layers_merkle_roots"])):
        l = known.get(e.ck(r))
        if l is None:
            return None
        l = [e.num(x) for x in e.seq(l)]
        if not all(isinstance(x, (Fp, int)) for x in l):
            return None
        out.append([x.v if isinstance(x, Fp) else x % P for x in l])
    return out


def relation(ec, code, es, spec):
    """is every layer the fold of the one before, with one challenge, on the squared coset of half the size?"""
    a, b = leaves(ec, code.fields), leaves(es, spec.fields)
    if not a or not b:
        return None
    if [len(x) for x in a] != [len(x) for x in b]:
        return "layers of %s points | required %s" % ([len(x) for x in a], [len(x) for x in b])
    last = ec.num(ec.ev(code.fields["fri_last_value"]))
    last = last.v if isinstance(last, Fp) else last % P
    off = ec.model.coset
    half = pow(2, P - 2, P)
    w = pow(pow(3, (P - 1) // len(a[0]), P), P - 2, P)
    for j in range(ec.model.n, len(a[0])):
        if sum(x * pow(w, i * j, P) for i, x in enumerate(a[0])) % P:
            return None         # not a polynomial of low degree in the first place: there is no fold to compare with
    for k, l in enumerate(a):
        n = len(l)
        w = pow(3, (P - 1) // n, P)
        if n < 4:
            continue
        nxt = a[k + 1] if k + 1 < len(a) else [last] * (n // 2)
        zs = set()
        for i in range(n // 2):
            x = pow(off, 1 << k, P) * pow(w, i, P) % P
            ev = (l[i] + l[i + n // 2]) * half % P
            od = (l[i] - l[i + n // 2]) * half * pow(x, P - 2, P) % P
            d = (nxt[i] - ev) % P
            if od == 0:
                if d:
                    return "layer %d is not the fold of layer %d" % (k + 1, k)
            else:
                zs.add(d * pow(od, P - 2, P) % P)
        if len(zs) > 1:
            return "%s is not the fold of layer %d on its coset" % ("layer %d" % (k + 1) if k + 1 < len(a) else "the last value", k)
    return None


STAGES = [
    ("trace", ["trace_length", "lde_trace_merkle_roots"]),
    ("composition", ["composition_poly_root", "composition_poly_even_ood_evaluation", "composition_poly_odd_ood_evaluation",
                     "trace_ood_frame_evaluations"]),
    ("deep", ["fri_layers_merkle_roots", "deep_poly_openings"]),
    ("fri", ["fri_layers_merkle_roots", "fri_last_value", "query_list"]),
]
FIELDS = [f for _, fs in STAGES for f in fs]


from . import stark  # noqa: E402


class Cmp:
    """field by field comparison of a prover with the reference in the instances"""

    def __init__(s, ck, code, spec):
        s.bad, s.und, s.good = {}, {}, {}
        s.events = []
        s.stops = None
        for i, m in instances(ck, code.crate):
            try:
                ec, es = m.ev(code.trs), m.ev(spec.trs)
            except (Undecided, RecursionError) as x:
                for f in FIELDS + ["first-layer"]:
                    s.und[f] = str(x)
                continue
            for f in FIELDS:
                if f not in code.fields or f not in spec.fields:
                    s.und[f] = "the proof has no such field"
                    continue
                if f == "fri_layers_merkle_roots":
                    s.layers(i, ec, es, code, spec)
                    continue
                s.one(f, i, lambda: (ec.ck(ec.ev(code.fields[f])), es.ck(es.ev(spec.fields[f]))))
            for o in stark.obligations(code):
                try:
                    if not s.stops and ck.refusal(ec, [o]) is not None:
                        s.stops = "proving panics in instance %d: %s in %s" % (i, o.kind, o.fn)
                except (Undecided, RecursionError, OverflowError):
                    continue

    def layers(s, i, ec, es, code, spec):
        def get(k):
            def f():
                a, b = ec.ev(code.fields["fri_layers_merkle_roots"]), es.ev(spec.fields["fri_layers_merkle_roots"])
                a, b = ec.ck(a)[1:], es.ck(b)[1:]
                return (a[:1], b[:1]) if k else (a, b)
            return f
        s.one("first-layer", i, get(1))
        s.one("fri_layers_merkle_roots", i, get(0))
        if "first-layer" in s.bad:
            # the layers cannot be compared with those of the reference: their own relation can
            try:
                why = relation(ec, code, es, spec)
            except (Undecided, RecursionError, IndexError, AttributeError, TypeError):
                why = None
            if why:
                s.bad.setdefault("relation", "instance %d: %s" % (i, why))


    def one(s, f, i, g):
        try:
            a, b = g()
        except (Undecided, RecursionError) as x:
            s.und[f] = str(x)
            return
        if a != b:
            s.bad.setdefault(f, "instance %d: %s | required %s" % ((i,) + diff(a, b)))
        else:
            s.good[f] = s.good.get(f, 0) + 1

    def ob(s, ck, f, key, upstream=(), where="starks::prover::prove"):
        for u in upstream:
            if u in s.bad:
                return ck.ob(key, None, "not comparable: %s already differs" % u, where)
        if f in s.bad:
            return ck.ob(key, False, s.bad[f], where)
        if f in s.und or not s.good.get(f):
            if s.stops:
                return ck.ob(key, False, s.stops, where)
            return ck.ob(key, None, s.und.get(f, "no instance"), where)
        return ck.ob(key, True, "equal in %d random instances" % s.good[f], where)


def diff(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and isinstance(a[0], str):
        if len(a) != len(b):
            return "%s: %d items" % (path, len(a) - 1), "%d items" % (len(b) - 1)
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            if x != y:
                n = i
                if a[0] == "s":
                    n = x[0]
                    x, y = x[1], y[1]
                return diff(x, y, path + ".%s" % n)
    return path + " " + str(a)[:80], str(b)[:80]


def compare(ck):
    from . import stark
    memo = ck.__dict__.setdefault("_cmp", {})
    if "c" not in memo:
        code = stark.prover(ck)
        spec = stark.prover(ck, "spec::prover::prove")
        memo["c"] = Cmp(ck, code, spec)
    return memo["c"]
