"""S07: FRI on both sides."""
from . import stark, models, pmodel

META = {
    "level": "proof",
    "explanation": "Prover side: the commitments of the FRI layers, the last value and the opened values and paths, as value-flow "
                   "summaries, are compared with those of the reference prover (even part plus challenge times odd part, on the "
                   "squared coset of half the size; positions reduced to the layer) in random instances.  Verifier side: the "
                   "conjuncts for folding, last value and both openings of every layer must be those of the reference verifier.",
}
FLOOR = 6


def prover(ck):
    c = pmodel.compare(ck)
    up = ["lde_trace_merkle_roots", "composition_poly_root", "first-layer"]
    c.ob(ck, "fri_layers_merkle_roots", "prover:layers", up)
    if "relation" in c.bad:
        ck.ob("prover:folding", False, c.bad["relation"], "starks::fri::fri_commit_phase")
    c.ob(ck, "fri_last_value", "prover:last value", up + ["fri_layers_merkle_roots"])
    c.ob(ck, "query_list", "prover:queries", up + ["fri_layers_merkle_roots"])


def check(ck):
    ck.guarded("prover", lambda: prover(ck), "starks::prover::prove")
    ck.guarded("verifier", lambda: models.requirements(ck, stark.verifier(ck), stark.verifier(ck, "spec::verifier::verify"),
                                                       ["fold", "fold-last", "opening:fri", "opening:fri-sym"], prefix="verifier"),
               "starks::verifier::verify")
