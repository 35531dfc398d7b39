"""S02: missing or surplus parts are rejected."""
from . import stark, models
from ..ev import Undecided

META = {
    "level": "proof",
    "explanation": "Every list length the reference verifier requires must be an equality conjunct of the summary of verify "
                   "(identical normal form, per query where the list is per query); and for each deviation from the required "
                   "shape the summary, with all value comparisons and openings taken to succeed, must be false in random "
                   "models of several shapes.",
}
FLOOR = 30


def check(ck):
    def body():
        code = stark.verifier(ck)
        spec = stark.verifier(ck, "spec::verifier::verify")
        for i, (rows) in enumerate(spec.shape.lits):
            ck.extra.setdefault("length_requirements", []).append(models.show(rows, maxd=8)[:200])
        res = {}
        for i, S in models.solvers(ck, spec, code.crate):
            try:
                ok = models.accepts_shape(S, code, lambda pr: None)
            except (Undecided, RecursionError) as e:
                ck.ob("shape:%d" % i, None, str(e), "starks::verifier::verify")
                continue
            ck.ob("complete:%d" % i, True if ok else None, "a proof of the required shape passes the guards" if ok else
                  "a proof of the required shape does not pass the guards")
            for name, ch in models.deviations():
                m = models.Model(S.p, S.crate)
                before = m.proof
                import copy
                ref = copy.deepcopy(m.proof)
                ch(m.proof.f)
                if repr(ref) == repr(m.proof):
                    continue
                try:
                    r = models.accepts_shape(S, code, ch)
                    rs = models.accepts_shape(S, spec, ch)
                except (Undecided, RecursionError, IndexError) as e:
                    res.setdefault(name, None)
                    continue
                if rs:
                    res[name] = (None, "the reference accepts")
                elif r:
                    res[name] = (False, "accepted in model %d" % i)
                else:
                    res.setdefault(name, (True, "rejected"))
        for n, v in sorted(res.items()):
            v = v or (None, "")
            ck.ob("deviation:" + n, v[0], v[1], "starks::verifier::verify")
        for l in spec.shape.lits:
            k = "length:" + models.show(l, maxd=8)[:140]
            if l in code.shape.lits or l in code.conjs:
                ck.ob(k, True, "identical conjunct", "starks::verifier::verify")
    ck.guarded("verify", body, "starks::verifier::verify")
