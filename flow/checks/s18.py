"""S18: one proof-of-work predicate for search, check and binding."""
from .. import terms as X
from ..terms import sym, mk, TRUE, show, T
from ..front import USIZE
from . import stark

META = {
    "level": "proof",
    "explanation": "The summaries of the hash predicate and of the nonce search are compared with the reference predicate of "
                   "/verif/spec/grinding.rs; in the summaries of the verifier and of the prover's last round the predicate, "
                   "the transcript challenge it is applied to, the encoding of the absorbed nonce and the comparison with the "
                   "configured grinding factor are matched.",
}
FLOOR = 6


def check(ck):
    c = ck.crate(spec=("grinding",))
    G = "starks::grinding::"
    ch = sym("challenge", ("seq", ("int", "u8"), 32))
    no = sym("nonce", ("int", "u64"))
    gf = sym("factor", ("int", "u8"))

    def pred():
        a, _, _ = ck.run(c, G + "hash_transcript_with_int_and_get_leading_zeros", {"#": [ch, no]})
        b, _, _ = ck.run(c, "spec::grinding::work", {"#": [ch, no]})
        ck.equal("predicate", a, b, c, G + "hash_transcript_with_int_and_get_leading_zeros")

    def search():
        a, _, _ = ck.run(c, G + "generate_nonce_with_grinding", {"#": [ch, gf]})
        b, _, _ = ck.run(c, "spec::grinding::search", {"#": [ch, gf]})
        ck.equal("search", a, b, c, G + "generate_nonce_with_grinding",
                 mk_over=lambda i: [("factor", i % 4)])
    ck.guarded("predicate", pred)
    ck.guarded("search", search)
    ck.guarded("verifier", lambda: stark.grinding_verifier(ck))
    ck.guarded("prover", lambda: stark.grinding_prover(ck))
