"""S06: the DEEP polynomial on both sides."""
from . import stark, models, pmodel

META = {
    "level": "proof",
    "explanation": "Prover side: the first FRI layer (the DEEP polynomial on the evaluation domain) and the values opened for "
                   "every query, as value-flow summaries, are compared with those of the reference prover in random instances, "
                   "including constraint systems with non-consecutive frame rows.  Verifier side: the conjunct comparing the "
                   "first FRI value with the reconstruction must be the one of the reference verifier.",
}
FLOOR = 3


def prover(ck):
    c = pmodel.compare(ck)
    up = ["lde_trace_merkle_roots", "composition_poly_root", "trace_ood_frame_evaluations"]
    c.ob(ck, "first-layer", "prover:deep polynomial", up)
    c.ob(ck, "deep_poly_openings", "prover:openings", up)


def check(ck):
    ck.guarded("prover", lambda: prover(ck), "starks::prover::prove")
    ck.guarded("verifier", lambda: models.requirements(ck, stark.verifier(ck), stark.verifier(ck, "spec::verifier::verify"),
                                                       ["deep"], prefix="verifier"), "starks::verifier::verify")
