"""S05: the composition polynomial on both sides."""
from . import stark, models, pmodel

META = {
    "level": "proof",
    "explanation": "Prover side: the fields of the proof that carry the composition polynomial (commitment, the two out-of-domain "
                   "values, the out-of-domain frame), as value-flow summaries over all traces and challenges, are compared with "
                   "those of the reference prover, whose composition polynomial is the stated function of frame, boundary "
                   "conditions, degrees, exemptions and challenges; polynomials are interpreted as polynomials in random "
                   "instances.  Verifier side: the conjunct comparing the claimed with the recomputed value must be the one of "
                   "the reference verifier, which evaluates the same function.",
}
FLOOR = 4


def prover(ck):
    c = pmodel.compare(ck)
    c.ob(ck, "trace_ood_frame_evaluations", "prover:out-of-domain frame", ["lde_trace_merkle_roots"])
    for f, n in (("composition_poly_root", "commitment"), ("composition_poly_even_ood_evaluation", "even value"),
                 ("composition_poly_odd_ood_evaluation", "odd value")):
        c.ob(ck, f, "prover:" + n, ["lde_trace_merkle_roots"])


def check(ck):
    ck.guarded("prover", lambda: prover(ck), "starks::prover::prove")
    ck.guarded("verifier", lambda: models.requirements(ck, stark.verifier(ck), stark.verifier(ck, "spec::verifier::verify"),
                                                       ["composition"], prefix="verifier"), "starks::verifier::verify")
