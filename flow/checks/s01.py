"""S01: acceptance implies every check."""
from . import stark, models

META = {
    "level": "proof",
    "explanation": "The value-flow summary of verify (one boolean over all proofs, statements, options and challenges) is put "
                   "in conjunctive normal form and every requirement of the reference verifier (/verif/spec/verifier.rs) must "
                   "occur in it as a conjunct with an identical normal form, under the same quantifiers over queries, layers "
                   "and commitments; where normal forms differ the summaries are compared by random interpretation in "
                   "models in which exactly one requirement fails.",
}
FLOOR = 10
NAMES = ["proof-of-work", "composition", "deep", "fold", "fold-last", "opening:composition", "opening:trace", "opening:fri",
         "opening:fri-sym", "trace-length"]


def check(ck):
    def body():
        code = stark.verifier(ck)
        spec = stark.verifier(ck, "spec::verifier::verify")
        ck.extra["conjuncts_of_verify"] = len(code.conjs)
        ck.extra["requirements"] = [models.classify(c)[1] for c in spec.rest]
        models.requirements(ck, code, spec, NAMES)
    ck.guarded("verify", body, "starks::verifier::verify")
    ck.guarded("verify_cairo_proof", lambda: stark.cairo_entry(ck), "cairo::air::verify_cairo_proof")
