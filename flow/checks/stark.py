"""Shared summaries of the verifier and the prover and of their references."""
from .. import terms as X
from ..terms import (T, mk, sym, field, idx, length, slc, eq, eq0, And, Or, All, negate, ite, lam, app, open_lam, fv, fresh,
                     subst, rewrite, find, to_poly, from_poly, sub, add, mul, neg, INT, ZERO, ONE, TRUE, FALSE, show, ival,
                     is_bool)
from ..front import FELT, USIZE
from ..check import Missing

PROOF = ("adt", "starks::proof::stark::StarkProof", (("param", "F"),))
OPTIONS = ("adt", "starks::proof::options::ProofOptions", ())


# ------------------------------------------------------------ challenge sampling
def h_field(ip, a, fn):
    return ip.tr_challenge(a[0], "field", FELT)


def h_usize(ip, a, fn):
    return ip.tr_challenge(a[0], "usize", USIZE)


def h_z(ip, a, fn):
    return ip.tr_challenge(a[2], "z", FELT, data=(ip.freeze(ip.deref(a[0])), ip.freeze(ip.deref(a[1]))))


SAMPLERS = {"starks::transcript::transcript_to_field": h_field, "starks::transcript::transcript_to_usize": h_usize,
            "starks::transcript::sample_z_ood": h_z}


def hooks(ck, c):
    out = {}
    for q, h in SAMPLERS.items():
        ck.fn(c, q)
        out[q] = h
    return out


# ------------------------------------------------------------ normalisation
def is_new(t):
    return t.op == "call" and t.args[0] == "new" and len(t.args) == 4


def contract(t):
    """what every constraint system promises (decided by S09): it keeps the trace length and the options it was made
    with and its lists have one entry per constraint"""
    if t.op == "call" and t.args[0] == "trace_length" and len(t.args) == 2 and is_new(t.args[1]):
        return t.args[1].args[1]
    if t.op == "field" and t.args[1] == "proof_options" and is_ctx(t.args[0]):
        return t.args[0].args[1].args[3]
    if t.op == "len":
        a = t.args[0]
        if a.op == "field" and a.args[1] in ("transition_degrees", "transition_exemptions") and is_ctx(a.args[0]):
            return field(a.args[0], "num_transition_constraints")
        if a.op == "call" and a.args[0] == "compute_transition" and is_new(a.args[1]):
            return field(mk("call", "context", a.args[1]), "num_transition_constraints")
    return None


def is_ctx(t):
    return t.op == "call" and t.args[0] == "context" and len(t.args) == 2 and is_new(t.args[1])


def conjuncts(t):
    """a boolean summary as a set of conjuncts"""
    if t is TRUE:
        return []
    if t.op == "and":
        return [y for x in t.args[0] for y in conjuncts(x)]
    if t.op == "all":
        n, l = t.args
        v, b = open_lam(l, "i", USIZE)
        cs = conjuncts(X.assume(b, X.lt(v, n), True) if n.op != "inf" else b)
        return uniq([All(n, lam(v, x)) for x in cs])
    if t.op == "ite":
        c, a, b = t.args
        ca, cb = conjuncts(a), conjuncts(b)
        com = [x for x in ca if x in cb]
        out = list(com)
        for x in ca:
            if x not in com:
                out += conjuncts(Or(negate(c), x))
        for x in cb:
            if x not in com:
                out += conjuncts(Or(c, x))
        return uniq(out)
    if t.op == "or":
        for x in t.args[0]:
            ys = conjuncts(x)
            if len(ys) > 1:
                rest = [y for y in t.args[0] if y is not x]
                return uniq([z for y in ys for z in conjuncts(Or(*rest, y))])
    return [t]


def uniq(xs):
    return list(dict.fromkeys(xs))


def mentions(t, names):
    return any(v.op == "sym" and v.args[0] in names for v in fv(t))


class Shape:
    """list lengths fixed by the summary's own conjuncts"""

    def __init__(s, conjs, root="proof"):
        s.root = root
        s.exact = {}       # len term -> value
        s.pat = {}         # (list, field) -> value
        s.lits = []
        changed = True
        todo = sorted(conjs, key=lambda c: bool(find(c, lambda t: t.op == "idiv")))
        while changed:
            changed = False
            for c in list(todo):
                c2 = rewrite(c, s.rule)
                if c2.op == "eq0" and s.learn(c2, None):
                    s.lits.append(c)
                    todo.remove(c)
                    changed = True
                elif c2.op == "all":
                    v, b = open_lam(c2.args[1], "i", USIZE)
                    if b.op == "eq0" and s.learn(b, v):
                        s.lits.append(c)
                        todo.remove(c)
                        changed = True
        s.rest = todo

    def learn(s, e, v):
        p = to_poly(e.args[0])
        for m, c in p.items():
            if len(m) != 1 or c not in (1, -1):
                continue
            (a, ex), = m
            if ex != 1:
                continue
            k = None
            if a.op == "len":
                k = a
            elif a.op == "field" and a.args[1] == "row_width" and mentions(a, {s.root}):
                k = a
            elif a.op == "idiv" and a.args[0].op == "len" and mentions(a, {s.root}):
                k = a
            if k is None or not mentions(k, {s.root}) or k.op == "len" and is_param(k):
                continue
            q = dict(p)
            del q[m]
            val = from_poly({x: -y / c if c != 1 else -y for x, y in q.items()})
            if any(x.op == "len" and mentions(x, {s.root}) and not is_param(x) for x in find(val, lambda t: t.op == "len")):
                continue
            if v is None:
                if s.exact.get(k) is None:
                    s.exact[k] = val
                    return True
            elif v not in fv(val):
                if k.op == "len" and k.args[0].op == "field" and k.args[0].args[0].op == "idx" and k.args[0].args[0].args[1] is v:
                    s.pat[(k.args[0].args[0].args[0], k.args[0].args[1])] = val
                    return True
        return False

    def rule(s, t):
        r = contract(t)
        if r is not None:
            return r
        if t.op in ("len", "field", "idiv"):
            r = s.exact.get(t)
            if r is not None:
                return r
        if t.op == "len" and t.args[0].op == "field" and t.args[0].args[0].op == "idx":
            return s.pat.get((t.args[0].args[0].args[0], t.args[0].args[1]))
        return None


def is_param(t):
    """length of something the statement fixes"""
    return any(x.op == "call" and x.args[0] in ("boundary_constraints", "compute_transition", "context") for x in find(t, lambda u: u.op == "call"))


# ------------------------------------------------------------ challenge names
def rename_challenges(trs):
    """map challenge ids to their rank among the draws of the same kind"""
    m, cnt = {}, {}

    def walk(tr):
        for e in tr.args[0]:
            if e.op == "ev" and e.args[0] != "app":
                ch = e.args[1]
                if isinstance(ch, T) and ch.op == "chal" and ch.args[0] not in m:
                    k = e.args[0]
                    cnt[k] = cnt.get(k, 0) + 1
                    n = "%s#%d" % (k, cnt[k])
                    X.CHAL_TY[n] = X.CHAL_TY.get(ch.args[0], FELT)
                    m[ch.args[0]] = n
            elif e.op == "evif":
                walk(e.args[1])
                walk(e.args[2])
            elif e.op == "evloop":
                walk(e.args[1].args[1])
    for t in trs:
        if t.op == "tr":
            walk(t)
    return m


def renamer(m):
    def f(t):
        if t.op == "chal" and t.args[0] in m:
            return mk("chal", m[t.args[0]], *t.args[1:])
        return None
    return f


class Sum:
    """summary of a verifier"""
    pass


def verifier(ck, which="starks::verifier::verify", features=(), debug=False, flags=(), overflow=False):
    key = ("verifier", which, tuple(features), debug, tuple(flags), overflow)
    memo = ck.__dict__.setdefault("_memo", {})
    if key in memo:
        return memo[key]
    c = ck.crate(features, debug, flags, spec=("verifier",))
    over = {"#": [sym("proof", PROOF), sym("pub_input"), sym("options", OPTIONS)]}
    v, ip, _ = ck.run(c, which, over, hooks=hooks(ck, c), overflow=overflow)
    s = Sum()
    trs = [t for t in ip.transcripts() if t.op == "tr"]
    m = rename_challenges(trs)
    ren = renamer(m)

    def rules(t):
        r = ren(t)
        return r if r is not None else contract(t)
    s.raw = rewrite(v, rules)
    s.trs = [rewrite(t, rules) for t in trs]
    s.ip, s.crate = ip, c
    s.obls = [(o, rewrite(o.cond, rules), tuple(rewrite(f, rules) for f in o.facts)) for o in ip.obls if o.cond is not TRUE]
    s.loops = [[(k, n if n is None else rewrite(n, rules), rewrite(l, rules)) for k, n, l in o.loops] for o in ip.obls if o.cond is not TRUE]
    s.conjs = conjuncts(s.raw)
    s.shape = Shape(s.conjs)
    s.rest = [y for x in s.shape.rest for y in conjuncts(rewrite(x, s.shape.rule))]
    s.rest = uniq(s.rest)
    s.tr = [rewrite(t, s.shape.rule) for t in s.trs]
    memo[key] = s
    return s


def cairo_entry(ck):
    """verify_cairo_proof is verify for the Cairo constraint system"""
    c = ck.crate(spec=("verifier",))
    seen = []

    def h(ip, a, fn):
        seen.append((a, ip.typeargs if hasattr(ip, "typeargs") else None))
        return mk("bcall", "verify", *[ip.freeze(ip.deref(x)) for x in a])
    v, ip, _ = ck.run(c, "cairo::air::verify_cairo_proof", {"#": [sym("proof", PROOF), sym("pub_input"), sym("options", OPTIONS)]},
                      hooks={"starks::verifier::verify": h})
    want = mk("bcall", "verify", sym("proof", PROOF), sym("pub_input"), sym("options", OPTIONS))
    cs = conjuncts(v)
    ck.ob("verify_cairo_proof", True if want in cs else (False if not seen or v in (TRUE, FALSE) else None), show(v, maxd=6)[:300], "cairo::air::verify_cairo_proof")


TRACE = "starks::trace::TraceTable"


def prover(ck, which="starks::prover::prove", features=(), debug=False, flags=(), overflow=False):
    """summary of the prover: the fields of the proof it returns and its transcript"""
    key = ("prover", which, tuple(features), debug, tuple(flags), overflow)
    memo = ck.__dict__.setdefault("_memo", {})
    if key in memo:
        return memo[key]
    c = ck.crate(features, debug, flags, spec=("verifier", "prover"))
    rows = sym("rows", USIZE)
    cols = sym("cols", USIZE)
    X.POSITIVE.add(cols)
    main = mk("struct", TRACE, (("n_cols", cols), ("table", sym("main_table", ("seq", FELT, mul(rows, cols))))))
    over = {"#": [main, sym("pub_input"), sym("options", OPTIONS)]}
    v, ip, _ = ck.run(c, which, over, hooks=hooks(ck, c), overflow=overflow)
    s = Sum()
    trs = [t for t in ip.transcripts() if t.op == "tr"]
    m = rename_challenges(trs)
    ren = renamer(m)

    def rules(t):
        r = ren(t)
        return r if r is not None else contract(t)
    s.raw = rewrite(v, rules)
    s.trs = [rewrite(t, rules) for t in trs]
    s.ip, s.crate = ip, c
    s.obls = ip.obls, rules
    r = s.raw
    if r.op == "enum" and r.args[1] == "Ok":
        r = r.args[2][0]
    s.fields = dict(r.args[1]) if r.op == "struct" else {}
    memo[key] = s
    return s


def obligations(s):
    """what must hold for the summarised function not to panic, over the same names as the summary"""
    if isinstance(s.obls, tuple):
        from .s26 import O
        obls, rules = s.obls
        s.obls = [O(o.kind, rewrite(o.cond, rules), tuple(rewrite(f, rules) for f in o.facts), o.fn,
                    [(k, n if n is None else rewrite(n, rules), rewrite(l, rules)) for k, n, l in o.loops]) for o in obls if o.cond is not TRUE]
    return s.obls


# ------------------------------------------------------------ proof of work
def after_challenge(tr):
    """(the challenge the predicate is applied to, absorptions between it and the next draw)"""
    evs = tr.args[0]
    at = [i for i, e in enumerate(evs) if e.op == "ev" and e.args[0] == "chal"]
    if not at:
        return None, []
    out = []
    for e in evs[at[-1] + 1:]:
        if e.op != "ev" or e.args[0] != "app":
            break
        out.append(e.args[1])
    return evs[at[-1]].args[1], out


def grinding_verifier(ck):
    from . import models
    code = verifier(ck)
    spec = verifier(ck, "spec::verifier::verify")
    models.requirements(ck, code, spec, ["proof-of-work"], prefix="verifier")
    bound(ck, "verifier", code.trs[-1], field(sym("proof", PROOF), "nonce"), code.crate, "starks::verifier::verify")


def bound(ck, side, tr, nonce, crate, where):
    """the nonce is absorbed, in the reference encoding, right after the challenge it was ground for"""
    ch, apps = after_challenge(tr)
    if ch is None:
        ck.ob(side + ":bound", None, "no raw challenge is drawn", where)
        return
    n = sym("nonce", ("int", "u64"))
    parts = [subst(a, {nonce: n}) for a in apps]
    parts = [a for a in parts if n in fv(a)]
    got = X.cat(parts) if parts else mk("lst", ())
    ck.equal(side + ":bound", got, mk("enc", "be", INT(8), n), crate, where)


def grinding_prover(ck):
    p = prover(ck)
    c = ck.crate(spec=("grinding",))
    ch, _ = after_challenge(p.trs[-1])
    where = "starks::prover::prove"
    if ch is None or "nonce" not in p.fields:
        ck.ob("prover", None, "no raw challenge is drawn or no nonce is returned", where)
        return
    n = p.fields["nonce"]
    gf = sym("factor", ("int", "u8"))
    v, _, _ = ck.run(c, "spec::grinding::search", {"#": [sym("challenge", ("seq", ("int", "u8"), 32)), gf]})
    want = X.payload(v, "Some", 0)
    got = subst(n, {ch: sym("challenge", ("seq", ("int", "u8"), 32)), field(sym("options", OPTIONS), "grinding_factor"): gf})
    ck.equal("prover:search", got, want, c, where, mk_over=lambda i: [("factor", i % 4)])
    bound(ck, "prover", p.trs[-1], n, p.crate, where)
