#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist and the texts below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "S01": "gated value-flow summaries of verify compared with a reference verifier by value numbering",
 "S02": "length requirements extracted from the verifier's value-flow summary",
 "S03": "transcript-effect summaries of prover and verifier compared by value numbering",
 "S04": "transcript-effect summary (absorb/draw order) compared with a reference by value numbering",
 "S05": "value-flow summaries of both composition computations against one reference formula",
 "S06": "value-flow summaries of both DEEP computations against one reference formula",
 "S07": "value-flow summaries of FRI commit, query and verify against one reference recurrence",
 "S08": "normal forms of the constraint polynomials compared with a reference table",
 "S09": "degree and access analysis over the normal forms of the constraint polynomials",
 "S10": "value-flow summary of boundary_constraints against a reference list",
 "S11": "value-flow summary of build_auxiliary_trace against reference columns",
 "S12": "value-flow summary of the main-trace builder against reference columns",
 "S13": "value-flow summaries of the decoders over the bits of the word",
 "S14": "value-flow composition of writer and reader reduced to the identity",
 "S15": "panic-freedom obligations with guard facts over the readers' summaries",
 "S16": "value-flow summary of main.rs against the library's readers and writers",
 "S17": "value-flow summaries of the constructors compared with reference guards by value numbering",
 "S18": "value-flow summaries of predicate, search, check and binding compared with one reference predicate",
 "S19": "value-range and bit-level analysis of the value-flow summaries of the sampling functions",
 "S20": "value-flow composition of file writers and readers",
 "S21": "value-flow summaries of the accessors reduced to one index law",
 "S22": "equality of summaries across build configurations",
 "S23": "value-flow summaries of the filler functions",
 "S24": "information-flow analysis of the value-flow summaries (sources outside the arguments, hash-map iteration order, racy operations)",
 "S25": "value-flow summary of the public-input constructor",
 "S26": "panic-freedom obligations with guard facts over the verifier's summary",
 "S27": "panic-freedom obligations with path facts over the prover's and the trace builders' summaries, per build configuration",
 "S28": "value-flow summary of run_program with the machine's answers as free functions",
 "S29": "value-flow summary of the validator evaluated against the constraint system's zero sets",
 "S30": "value-flow summaries of the constructors and queries against the list they hold",
 "S32": "interval analysis of the operands of narrowing casts in the value-flow summaries",
 "S31": "value-flow and effect summary of main, interpreted on file systems with a different file at every path",
}
NOTE = ("Every path of the functions named in the evidence is covered, for all inputs, as one guarded value; equality of normal "
        "forms is sound, inequality is confirmed by random interpretation of the terms before it is reported, and what cannot "
        "be decided is recorded as undecided. Trusts the AST dumper (syn), the Rust-subset semantics and library models in "
        "/verif/flow and the reference in /verif/spec and /verif/flow/checks. No code of the repository is executed.")
NA = {
 "S90": "Completeness over all programs quantifies over Cairo VM executions and needs the numerical behaviour of FFTs, Merkle trees and cairo-vm, whose sources are not in this sandbox; the static parts are claimed as S03-S07, S11, S12 and S23.",
 "S91": "Soundness error is a probabilistic, cryptographic statement about all adversaries; no static analysis of this source decides it. Its code-level parts are claimed as S01, S02, S04, S05, S08-S10.",
 "S92": "The primitives live in lambdaworks-math and lambdaworks-crypto, git dependencies that are not in this repository or sandbox: there is no source to analyse.",
 "S93": "Execution is done by the external cairo-vm crate (not in this sandbox); the repository's own part, reading and writing the result, is claimed as S20, S25 and S28.",
}
PENDING = "The deciding analysis for this property is not built yet."
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "flow", "checks", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "python3 -m flow %s quick" % p, "thorough_cmd": "python3 -m flow %s thorough" % p,
                       "technique": "static analysis: " + TECH[p], "level": "proof", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, PENDING)})
m = {"version": 1, "setup_cmd": "cargo build --release --offline --manifest-path astdump/Cargo.toml",
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
