"""Deciding whether two summaries of the verifier accept the same proofs when their normal forms
differ: both are interpreted over random finite models (random interpretation of the canonical
terms).  A model that satisfies the reference is built by solving the reference equations for
the proof values they determine; then one requirement at a time is broken."""
from .. import terms as X
from ..terms import T, find, show
from ..ev import Ev, Fp, St, En, Obj, H, P, Undecided
from ..front import FELT


class Params:
    def __init__(s, seed, log_n=2, log_b=1, queries=2, cols=3, aux=1, offsets=(0, 1), degrees=(1, 2, 1), exemptions=(0, 1, 2),
                 boundary=((0, 0), (1, 2)), coset=3, grinding=None, trace_length=None):
        s.seed = seed
        s.log_n, s.log_b = log_n, log_b
        s.n = trace_length if trace_length is not None else 1 << log_n
        s.queries, s.cols, s.aux = queries, cols, aux
        s.offsets, s.degrees, s.exemptions, s.boundary, s.coset = list(offsets), list(degrees), list(exemptions), list(boundary), coset
        s.nt = len(s.degrees)
        s.bound = 4 * s.n
        s.grinding = grinding

    def layers(s):
        n = s.n
        return max((n & -n).bit_length() - 1, 1)

    def commitments(s):
        return 2 if s.aux else 1


PARAMS = [
    dict(log_n=2, log_b=1, queries=2, cols=3, aux=1),
    dict(log_n=3, log_b=2, queries=2, cols=4, aux=2, offsets=(0, 2, 5), degrees=(3, 1, 2, 2), exemptions=(0, 3, 1, 1), boundary=((0, 0), (3, 5), (1, 1)), coset=7),
    dict(log_n=1, log_b=1, queries=1, cols=2, aux=0, offsets=(0, 1), degrees=(1,), exemptions=(1,), boundary=((1, 1),)),
    dict(log_n=0, log_b=1, queries=2, cols=2, aux=1, offsets=(0,), degrees=(2, 1), exemptions=(0, 0), boundary=((0, 0),), coset=5),
    dict(log_n=2, log_b=3, queries=3, cols=2, aux=1, offsets=(0, 1, 2), degrees=(1, 1), exemptions=(2, 0), boundary=((0, 3), (1, 0))),
]


class Model:
    """an instance of the statement and a proof object of the required shape"""

    def __init__(s, p, crate):
        s.p, s.crate = p, crate
        s.allowed = None
        s.grind = p.grinding
        s.proof = s.make_proof()

    def r(s, *a):
        return Fp(H(s.p.seed, *a))

    def path(s, name, depth):
        return St("Proof", {"merkle_path": [Obj("%s.%s.%d" % (s.p.seed, name, i)) for i in range(depth)]})

    def make_proof(s):
        p = s.p
        D = p.log_n + p.log_b
        L, q = p.layers(), p.queries

        def root(n):
            return [H(p.seed, n, i) % 256 for i in range(4)]
        S = "starks::"
        return St(S + "proof::stark::StarkProof", {
            "trace_length": p.n,
            "lde_trace_merkle_roots": [root("tr%d" % i) for i in range(p.commitments())],
            "trace_ood_frame_evaluations": St(S + "frame::Frame", {
                "data": [s.r("ood", i) for i in range(len(p.offsets) * p.cols)], "row_width": p.cols}),
            "composition_poly_root": root("comp"),
            "composition_poly_even_ood_evaluation": s.r("even"),
            "composition_poly_odd_ood_evaluation": s.r("odd"),
            "fri_layers_merkle_roots": [root("fri%d" % i) for i in range(L)],
            "fri_last_value": s.r("last"),
            "query_list": [St(S + "fri::fri_decommit::FriDecommitment", {
                "layers_auth_paths_sym": [s.path("ps%d.%d" % (i, k), D - k) for k in range(L)],
                "layers_evaluations_sym": [s.r("es", i, k) for k in range(L)],
                "layers_auth_paths": [s.path("p%d.%d" % (i, k), D - k) for k in range(L)],
                "layers_evaluations": [s.r("e", i, k) for k in range(L)]}) for i in range(q)],
            "deep_poly_openings": [St(S + "proof::stark::DeepPolynomialOpenings", {
                "lde_composition_poly_proof": s.path("cp%d" % i, D),
                "lde_composition_poly_even_evaluation": s.r("oe", i),
                "lde_composition_poly_odd_evaluation": s.r("oo", i),
                "lde_trace_merkle_proofs": [s.path("tp%d.%d" % (i, j), D) for j in range(p.commitments())],
                "lde_trace_evaluations": [s.r("ot", i, c) for c in range(p.cols)]}) for i in range(q)],
            "nonce": H(p.seed, "nonce") % (1 << 40),
        })

    # ---------------------------------------------------------------- interpretation
    def ev(s, trs, grind=None):
        p = s.p
        e = Ev(p.seed, s.crate, [
            ("proof", s.proof),
            ("options", St("starks::proof::options::ProofOptions", {
                "blowup_factor": 1 << p.log_b, "fri_number_of_queries": p.queries, "coset_offset": p.coset,
                "grinding_factor": s.grind if grind is None else grind})),
            (r"draw:usize:(\d+)", lambda ev, m: H(p.seed, m.group(0)) % (1 << 20)),
        ])
        opts = e.gen("options", ("adt", "x", ()))

        def ctx(ev, air):
            return St("starks::context::AirContext", {
                "proof_options": opts, "trace_columns": p.cols, "transition_degrees": p.degrees,
                "transition_offsets": p.offsets, "transition_exemptions": p.exemptions,
                "num_transition_constraints": p.nt, "num_transition_exemptions": len(set(x for x in p.exemptions if x))})
        e.funcs.update({
            "context": ctx,
            "trace_length": lambda ev, air: p.n,
            "number_auxiliary_rap_columns": lambda ev, air: p.aux,
            "composition_poly_degree_bound": lambda ev, air: p.bound,
            "pub_inputs": lambda ev, air: Obj("pub_input"),
            "compute_transition": lambda ev, air, frame, rap: [Fp(H(p.seed, "ct", i, ev.ck(frame), ev.ck(rap))) for i in range(p.nt)],
            "boundary_constraints": lambda ev, air, rap: St("starks::constraints::boundary::BoundaryConstraints", {
                "constraints": [St("starks::constraints::boundary::BoundaryConstraint", {
                    "col": c, "step": st, "value": Fp(H(p.seed, "bc", i, ev.ck(rap)))}) for i, (c, st) in enumerate(p.boundary)]}),
            "merkle_verify": s.merkle,
        })
        for t in trs:
            e.t_tr(t, {})
        return e

    def event(s, ev, path, root, index, value):
        depth = len(path.f["merkle_path"]) if isinstance(path, St) and "merkle_path" in path.f else 30
        return (ev.ck(path), ev.ck(root), ev.integer(index) % (1 << depth), ev.ck(value))

    def merkle(s, ev, path, root, index, value):
        k = s.event(ev, path, root, index, value)
        if s.allowed is None:
            return True
        return k in s.allowed


def strip(c):
    """conjunct as (bounds, body with bound variables free)"""
    bounds, lams = [], []
    while c.op == "all":
        bounds.append(c.args[0])
        lams.append(c.args[1])
        c = c.args[1].args[1]
    return bounds, lams, c


def indices(ev, bounds, lams, env=None, at=0):
    env = env or {}
    if at == len(bounds):
        yield env
        return
    for i in range(ev.loopn(bounds[at], env)):
        e2 = dict(env)
        e2[lams[at].args[0]] = i
        yield from indices(ev, bounds, lams, e2, at + 1)


def has_field(t, n):
    return bool(find(t, lambda u: u.op == "field" and u.args[1] == n))


class Atom:
    """one requirement of the reference at one index"""

    def __init__(s, kind, name, conj, idx, leaf=None):
        s.kind, s.name, s.conj, s.idx, s.leaf = kind, name, conj, idx, leaf


def classify(conj):
    bounds, lams, b = strip(conj)
    if b.op == "bcall" and b.args[0] == "merkle_verify":
        r = b.args[2]
        what = "composition" if has_field(r, "composition_poly_root") else "trace" if has_field(r, "lde_trace_merkle_roots") else \
            "fri-sym" if has_field(b, "layers_evaluations_sym") else "fri"
        return "merkle", "opening:" + what
    if b.op == "bcall" and b.args[0] == "is_pow2":
        return "pow2", "trace-length"
    if b.op == "pos" and find(b, lambda u: u.op == "call" and u.args[0] == "trailing_zeros") and not bounds:
        return "grinding", "proof-of-work"
    if find(b, lambda u: u.op == "eq0"):
        if len(bounds) == 0:
            return "eq", "composition"
        if len(bounds) == 1:
            return "eq", "deep"
        if has_field(b, "fri_last_value"):
            return "eq", "fold-last"
        return "eq", "fold"
    return None, "other"


ORDER = ["composition", "deep", "fold", "fold-last"]


class Broken(Exception):
    pass


class Solver:
    def __init__(s, spec, params, crate):
        s.spec, s.crate = spec, crate
        s.p = params
        s.cls = [(c,) + classify(c) for c in spec.rest]

    def unknown(s, name, m, ix):
        pr = m.proof.f
        if name == "composition":
            return pr, "composition_poly_even_ood_evaluation"
        q = pr["query_list"][ix[0]].f
        if name == "deep":
            return q["layers_evaluations"], 0
        L = len(q["layers_evaluations"])
        if name == "fold":
            return (q["layers_evaluations"], ix[1] + 1) if ix[1] + 1 < L else None
        return (q["layers_evaluations_sym"], L - 1) if ix[1] == L - 1 else None

    def atoms(s, m):
        e = m.ev(s.spec.tr)
        out = []
        for c, kind, name in s.cls:
            if kind is None:
                continue
            bounds, lams, b = strip(c)
            for env in indices(e, bounds, lams):
                ix = tuple(env[l.args[0]] for l in lams)
                if kind == "eq" and s.unknown(name, m, ix) is None:
                    continue
                out.append((kind, name, c, ix))
        return out

    def build(s, broken=None):
        """a model in which every requirement holds except `broken`"""
        m = Model(s.p, s.crate)
        at = s.atoms(m)
        eqs = sorted([a for a in at if a[0] == "eq"], key=lambda a: (ORDER.index(a[1]), a[3]))
        for a in eqs:
            loc, k = s.unknown(a[1], m, a[3])
            bounds, lams, b = strip(a[2])
            env = {l.args[0]: i for l, i in zip(lams, a[3])}
            d = [x for x in find(b, lambda u: u.op == "eq0" and u.args[0].op == "poly")]
            if b.op == "or":
                d = [x for x in b.args[0] if x.op == "eq0"]
            elif b.op == "eq0":
                d = [b]
            if len(d) != 1:
                raise Undecided("reference equation")
            d = d[0].args[0]
            v = []
            for x in (0, 1):
                loc[k] = Fp(x)
                v.append(m.ev(s.spec.tr).fp(m.ev(s.spec.tr).ev(d, env)))
            den = (v[1].v - v[0].v) % P
            if den == 0:
                raise Undecided("degenerate model")
            val = -v[0].v * pow(den, P - 2, P)
            loc[k] = Fp(val + (1 if a is broken or (broken and a[1:] == broken[1:]) else 0))
        e = m.ev(s.spec.tr)
        m.allowed = set()
        for a in at:
            if a[0] == "merkle" and not (broken and a[1:] == broken[1:]):
                bounds, lams, b = strip(a[2])
                env = {l.args[0]: i for l, i in zip(lams, a[3])}
                m.allowed.add(m.event(e, *[e.ev(x, env) for x in b.args[1:]]))
        # proof of work: the reference requirement as a threshold on the factor
        for c, kind, name in s.cls:
            if kind == "grinding":
                for g in range(0, 70):
                    if not m.ev(s.spec.tr, g).ev(c):
                        break
                m.grind = g if broken and broken[0] == "grinding" else g - 1
        return m

    def decide(s, m, side):
        """verdict of a summary in a model"""
        e = m.ev(side.trs)
        return e.truth(e.ev(side.raw))


# ---------------------------------------------------------------- decisions
def solvers(ck, spec, crate, n=None):
    k = 5 if ck.thorough else (n or 4)
    reps = 3 if ck.thorough else 1
    for r in range(reps):
        for i, p in enumerate(PARAMS[:k]):
            yield i, Solver(spec, Params("m%d.%d.%d" % (ck.seed, r, i), **p), crate)


def stops(ck, code):
    """why verifying a proof of the required shape panics, None when it does not"""
    memo = ck.__dict__.setdefault("_stops", {})
    if id(code) in memo:
        return memo[id(code)][1]
    from .s26 import O
    obls = [O(o.kind, c, f, o.fn, l) for (o, c, f), l in zip(code.obls, code.loops)]
    why = None
    for i, S in solvers(ck, code, code.crate):
        try:
            m = Model(S.p, S.crate)
            m.grind = 0
            e = m.ev([])
            e.funcs["trace_length"] = lambda ev, air, m=m: m.proof.f["trace_length"]
            for t in code.trs:
                e.t_tr(t, {})
        except (Undecided, RecursionError, IndexError, OverflowError):
            continue
        for o in obls:
            try:
                if ck.refusal(e, [o]) is not None:
                    why = "verifying a proof of the required shape panics: %s in %s (model %d)" % (o.kind, o.fn, i)
                    break
            except (Undecided, RecursionError, IndexError, OverflowError):
                continue
        if why:
            break
    memo[id(code)] = (code, why)
    return why


def requirements(ck, code, spec, names, prefix="verify", where="starks::verifier::verify", honest=True):
    """every requirement of the reference with one of the given names is a requirement of the code"""
    todo = {}
    why = stops(ck, code) if honest else None
    ck.ob(prefix + ":panic", False if why else True, why or "none on a proof of the required shape", where)
    for c in spec.rest:
        kind, name = classify(c)
        if name not in names:
            continue
        key = "%s:%s" % (prefix, name)
        if c in code.rest:
            ck.ob(key, True, "the same conjunct (identical normal form)", where)
        else:
            todo[name] = key
    for n in names:
        if not any(classify(c)[1] == n for c in spec.rest):
            ck.ob("%s:%s" % (prefix, n), None, "no such requirement in the reference summary", where)
    if not todo:
        return
    bad, und, done = {}, {}, {n: 0 for n in todo}
    for i, S in solvers(ck, spec, code.crate):
        try:
            m = S.build()
            if not S.decide(m, spec):
                raise Undecided("the model does not satisfy the reference")
            if not S.decide(m, code):
                # which requirement of the code fails?
                for n in todo:
                    if honest:
                        bad.setdefault(n, "a model satisfying every requirement of the reference is rejected (model %d)" % i)
                continue
            for a in S.atoms(m):
                if a[1] not in todo or a[0] == "pow2":
                    continue
                mb = S.build(a)
                if S.decide(mb, spec):
                    continue
                done[a[1]] += 1
                if S.decide(mb, code):
                    bad.setdefault(a[1], "accepted although the requirement fails at index %s (model %d)" % (a[3], i))
        except (Undecided, RecursionError) as e:
            for n in todo:
                und.setdefault(n, str(e))
    if "trace-length" in todo:
        pow2(ck, code, spec, bad, und, done)
    for n, key in todo.items():
        c = [c for c in spec.rest if classify(c)[1] == n][0]
        if n in bad:
            ck.ob(key, False, "%s || required: %s" % (bad[n], show(c, maxd=10)[:500]), where)
        elif n in und or not done[n]:
            ck.ob(key, None, und.get(n, "no model"), where)
        else:
            ck.ob(key, True, "equivalent in %d random models with the requirement broken" % done[n], where)


def pow2(ck, code, spec, bad, und, done):
    for tl in (3, 6, 12):
        try:
            S = Solver(spec, Params("p%d" % tl, log_n=2, trace_length=tl), code.crate)
            v = S.decide(abstract(S), code) if False else None
        except (Undecided, RecursionError) as e:
            und.setdefault("trace-length", str(e))
            continue
        r = accepts_shape(S, code, lambda pr: None)
        done["trace-length"] += 1
        if r:
            bad.setdefault("trace-length", "trace length %d is accepted" % tl)


class Lax(Ev):
    """field comparisons and openings are taken to hold: what is left are the guards"""

    def t_eq0(s, t, env):
        v = s.num(s.ev(t.args[0], env))
        if isinstance(v, Fp):
            return True
        return v == 0

    def t_idx(s, t, env):
        r = Ev.t_idx(s, t, env)
        if isinstance(r, Obj) and r.seed == "oob":
            s.oob = True
        return r

    def t_slice(s, t, env):
        r = Ev.t_slice(s, t, env)
        if len(r) == 1 and isinstance(r[0], Obj) and r[0].seed == "oob":
            s.oob = True
        return r


def accepts_shape(S, code, change):
    """is a proof of the changed shape accepted when all value checks that are made succeed?"""
    m = Model(S.p, S.crate)
    change(m.proof.f)
    m.grind = 0
    e = m.ev([])
    e.__class__ = Lax
    e.oob = False
    for t in code.trs:
        e.t_tr(t, {})
    v = e.truth(e.ev(code.raw))
    return v and not e.oob


def _pop(q):
    if q:
        q.pop()


def _dup(q):
    if q:
        q.append(q[-1])


def deviations():
    """proofs with missing or surplus parts: (list, how) -> change of the proof object"""
    out = []
    top = ["query_list", "deep_poly_openings", "fri_layers_merkle_roots", "lde_trace_merkle_roots"]
    lay = ["layers_auth_paths", "layers_auth_paths_sym", "layers_evaluations", "layers_evaluations_sym"]
    ope = ["lde_trace_merkle_proofs", "lde_trace_evaluations"]
    for how, f in (("missing", _pop), ("surplus", _dup), ("empty", lambda q: q.clear())):
        for n in top:
            out.append(("%s %s" % (n, how), lambda pr, n=n, f=f: f(pr[n])))
        out.append(("queries %s" % how, lambda pr, f=f: (f(pr["query_list"]), f(pr["deep_poly_openings"]))))
        for n in lay:
            out.append(("%s %s" % (n, how), lambda pr, n=n, f=f: f(pr["query_list"][-1].f[n])))
            out.append(("%s of every query %s" % (n, how), lambda pr, n=n, f=f: [f(x.f[n]) for x in pr["query_list"]]))
        out.append(("layers of every query %s" % how, lambda pr, f=f: [f(x.f[n]) for x in pr["query_list"] for n in lay]))
        out.append(("layers %s" % how, lambda pr, f=f: ([f(x.f[n]) for x in pr["query_list"] for n in lay], f(pr["fri_layers_merkle_roots"]))))
        for n in ope:
            out.append(("%s %s" % (n, how), lambda pr, n=n, f=f: f(pr["deep_poly_openings"][-1].f[n])))
            out.append(("%s of every query %s" % (n, how), lambda pr, n=n, f=f: [f(x.f[n]) for x in pr["deep_poly_openings"]]))
        out.append(("trace commitments %s" % how, lambda pr, f=f: (
            [f(x.f["lde_trace_merkle_proofs"]) for x in pr["deep_poly_openings"]], f(pr["lde_trace_merkle_roots"]))))

    def frame(pr, rows, cols):
        fr = pr["trace_ood_frame_evaluations"].f
        w = fr["row_width"]
        n = len(fr["data"]) // w
        fr["data"] = (fr["data"] * 3)[:max((n + rows) * (w + cols), 0)]
        fr["row_width"] = w + cols
    for rows, cols in ((-1, 0), (1, 0), (0, -1), (0, 1), (-1, 1)):
        out.append(("out-of-domain frame %+d rows %+d columns" % (rows, cols), lambda pr, r=rows, c=cols: frame(pr, r, c)))
    return out
