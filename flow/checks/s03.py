"""S03: prover and verifier replay the same transcript."""
from . import stark, models, pmodel
from .pmodel import Undecided
from ..ev import St
from ..terms import mk, rewrite, show, find
from .. import terms as X

META = {
    "level": "proof",
    "explanation": "The transcript operations of the prover's summary and those of the verifier's summary with the proof replaced "
                   "by the proof the prover returns are compared event by event (bytes absorbed, kind of draw, arguments of the "
                   "draw) in random interpretations, in every supported build configuration; and where a field of the proof "
                   "differs from the reference, it is checked whether it differs only in which challenge plays which role.",
}
FLOOR = 6
CONFIGS = [("default", (), False), ("parallel", ("parallel",), False), ("instruments", ("instruments",), False),
           ("debug", (), True), ("test_fiat_shamir", ("test_fiat_shamir",), False)]


def transcript(ck, name, feats, debug):
    where = "starks::prover::prove / starks::verifier::verify"
    p = stark.prover(ck, features=feats, debug=debug)
    v = stark.verifier(ck, features=feats, debug=debug)
    key = "transcript:%s" % name
    if not p.trs or not v.trs:
        return ck.ob(key, None, "no transcript is created", where)
    done, und = 0, ""
    for i, m in pmodel.instances(ck, p.crate):
        try:
            e = m.ev(p.trs)
            a = pmodel.events(e, p.trs)
            m.proof = St(stark.PROOF[1], {k: e.ev(t) for k, t in p.fields.items()})
            b = pmodel.events(m.ev(v.trs), v.trs)
        except (Undecided, RecursionError) as x:
            und = str(x)
            continue
        done += 1
        if a != b:
            k = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return ck.ob(key, False, "event %d of %d/%d differs (instance %d): prover %s, verifier %s" % (
                k, len(a), len(b), i, str(a[k])[:150] if k < len(a) else "ends", str(b[k])[:150] if k < len(b) else "ends"), where)
    ck.ob(key, True if done else None, "the same events in %d instances" % done if done else und, where)


def shape(ck):
    """the proof the prover returns has the shape the verifier requires"""
    where = "starks::prover::prove"
    p, v = stark.prover(ck), stark.verifier(ck)
    done, und = 0, ""
    for i, m in pmodel.instances(ck, p.crate, 5):
        try:
            e = m.ev(p.trs)
            m.proof = St(stark.PROOF[1], {k: e.ev(t) for k, t in p.fields.items()})
            e = m.ev(v.trs)
        except (Undecided, RecursionError) as x:
            und = str(x)
            continue
        for l in v.shape.lits:
            try:
                if not e.truth(e.ev(l)):
                    return ck.ob("shape", False, "instance %d: the verifier requires %s" % (i, show(l, maxd=8)[:200]), where)
                done += 1
            except (Undecided, RecursionError, IndexError) as x:
                und = str(x)
    ck.ob("shape", True if done else None, "%d requirements hold" % done if done else und, where)


def roles(ck):
    """does a field of the proof differ from the reference only by the roles of challenges?"""
    c = pmodel.compare(ck)
    where = "starks::prover::prove"
    fields = ["composition_poly_root", "first-layer", "fri_layers_merkle_roots", "fri_last_value"]
    bad = [f for f in fields if f in c.bad]
    for f in fields:
        if f not in bad:
            ck.ob("role:" + f, True if c.good.get(f) and f not in c.und else None, c.und.get(f, ""), where)
    if not bad:
        return
    f = bad[0]
    code, spec = stark.prover(ck), stark.prover(ck, "spec::prover::prove")
    ids = sorted({t.args[0] for t in find(code.raw, lambda u: u.op == "chal")})
    ids = [i for i in ids if str(i).startswith("field#")]
    for x in range(len(ids)):
        for y in range(x + 1, len(ids)):
            sw = {ids[x]: ids[y], ids[y]: ids[x]}
            if restored(ck, code, spec, f, sw):
                return ck.ob("role:" + f, False, "%s is the reference with the challenges %s and %s exchanged" % (f, ids[x], ids[y]), where)
    ck.ob("role:" + f, None, "differs from the reference, but not by an exchange of challenges", where)


def restored(ck, code, spec, f, sw):
    try:
        for i, m in list(pmodel.instances(ck, code.crate))[:2]:
            ec, es = m.ev(code.trs), m.ev(spec.trs)
            ec.memo = {}
            old = dict(ec.chal)
            for k in old:
                if k[0] in sw:
                    o = (sw[k[0]],) + k[1:]
                    if o not in old:
                        return False
                    ec.chal[k] = old[o]
            n = "fri_layers_merkle_roots" if f == "first-layer" else f
            a, b = ec.ck(ec.ev(code.fields[n])), es.ck(es.ev(spec.fields[n]))
            if f == "first-layer":
                a, b = a[1], b[1]
            if a != b:
                return False
        return True
    except (Undecided, RecursionError):
        return False


def check(ck):
    for name, feats, debug in CONFIGS:
        ck.guarded("transcript:" + name, lambda: transcript(ck, name, feats, debug), "starks::prover::prove")
    ck.guarded("shape", lambda: shape(ck), "starks::prover::prove")
    ck.guarded("roles", lambda: roles(ck), "starks::prover::prove")
