"""S04: every message is absorbed before the challenges that depend on it."""
from . import stark, models
from ..ev import Undecided
from ..terms import show

META = {
    "level": "proof",
    "explanation": "The sequence of transcript operations of the verifier's summary (absorptions with the term absorbed, draws "
                   "with their kind, under their loops and conditions) is compared with that of the reference verifier: "
                   "identical normal form, or, when it differs, each message the reference absorbs before a draw must be "
                   "absorbed before the same draw in random instances of the sequence.",
}
FLOOR = 5


def events(m, side):
    e = m.ev([])
    out = []
    for t in side.trs[-1:]:
        e.draws = {}
        e.run_tr(t, {}, out)
    return e, out


def labels(m, e):
    """names of the messages of a proof"""
    pr = m.proof.f
    out = {}

    def put(n, v):
        out.setdefault(e.ck(v), n)

    def be(x):
        return [(x.v >> (8 * i)) & 255 for i in range(31, -1, -1)]
    for i, r in enumerate(pr["lde_trace_merkle_roots"]):
        put("trace commitment %d" % i, r)
    put("composition commitment", pr["composition_poly_root"])
    put("composition even value", be(pr["composition_poly_even_ood_evaluation"]))
    put("composition odd value", be(pr["composition_poly_odd_ood_evaluation"]))
    for i, x in enumerate(pr["trace_ood_frame_evaluations"].f["data"]):
        put("out-of-domain trace values", be(x))
        out[e.ck(be(x))] = "out-of-domain trace value %d" % i
    for i, r in enumerate(pr["fri_layers_merkle_roots"]):
        put("fri commitment %d" % i, r)
    put("last fri value", be(pr["fri_last_value"]))
    put("nonce", list(pr["nonce"].to_bytes(8, "big")))
    return out


def flatbytes(evs, lab):
    """absorptions in order with rank of the next draws"""
    cnt, out = {}, []
    for ev in evs:
        if ev[0] == "app":
            out.append(("app", ev[1]))
        elif ev[0] == "draw":
            k = ev[1]
            cnt[k] = cnt.get(k, 0) + 1
            out.append(("draw", k, cnt[k]))
        else:
            out.append(ev)
    return out


def compare(ck, code, spec):
    res = {}
    for i, S in models.solvers(ck, spec, code.crate):
        m = models.Model(S.p, S.crate)
        e, b = events(m, spec)
        _, a = events(m, code)
        lab = labels(m, e)
        fa, fb = flatbytes(a, lab), flatbytes(b, lab)
        # messages whose absorption may be split or joined: compare the byte stream between draws
        def stream(f):
            out, cur = [], []
            for x in f:
                if x[0] == "app":
                    cur += list(x[1][1:]) if x[1][0] == "l" else [x[1]]
                else:
                    out.append((x, list(cur)))
            return out, cur
        sa, _ = stream(fa)
        pos = {x: pre for x, pre in sa}
        before = []
        drawn = set()
        for x in fb:
            if x[0] == "draw":
                drawn.add(x)
                if x not in pos:
                    res.setdefault("draw:%s %d" % x[1:], (None, "this challenge is not drawn"))
                    continue
                for msg in before:
                    n = lab.get(msg, "message")
                    seq = list(msg[1:])
                    ok = contains(pos[x], seq)
                    k = n.rstrip("0123456789").strip()
                    if not ok:
                        res["absorbed:" + k] = (False, "%s is not absorbed before the draw of %s challenge %d (model %d)" % (n, x[1], x[2], i))
                    else:
                        res.setdefault("absorbed:" + k, (True, "absorbed before every later draw"))
                    res.setdefault("n", 0)
            else:
                before.append(x[1])
    res.pop("n", None)
    return res


def contains(q, seq):
    n = len(seq)
    return any(q[i:i + n] == seq for i in range(len(q) - n + 1))


def check(ck):
    def body():
        code = stark.verifier(ck)
        spec = stark.verifier(ck, "spec::verifier::verify")
        ident = code.tr and code.tr[-1] is spec.tr[-1]
        ck.extra["transcript_identical"] = bool(ident)
        ck.extra["transcript"] = show(code.tr[-1], maxd=9)[:3000]
        try:
            res = compare(ck, code, spec)
        except (Undecided, RecursionError) as e:
            ck.ob("transcript", None, str(e), "starks::verifier::verify")
            return
        for k, v in sorted(res.items()):
            ck.ob(k, v[0], ("identical normal form; " if ident else "") + v[1], "starks::verifier::step_1_replay_rounds_and_recover_challenges")
        air(ck)
    ck.guarded("verify", body, "starks::verifier::verify")


def air(ck):
    pass
