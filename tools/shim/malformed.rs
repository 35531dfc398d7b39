// Shows S26 on the real code: public inputs that are refused (repaired), and the recorded findings that panic.
#[path = "vm.rs"] mod vm;
use lambdaworks_crypto::fiat_shamir::{default_transcript::DefaultTranscript, transcript::Transcript};
use lambdaworks_stark::{cairo::{air::*, runner::run::*}, starks::{proof::options::ProofOptions, traits::AIR}, FE};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let o = ProofOptions { blowup_factor: 4, fri_number_of_queries: 3, coset_offset: 3, grinding_factor: 1 };
    let (t, p) = generate_prover_args(&vm::fib(5).encode(), &CairoVersion::V0, &None).unwrap();
    let proof = generate_cairo_proof(&t, &p, &o).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let run = |name: &str, n: usize, q: &PublicInputs| {
        let mut f = generate_cairo_proof(&t, &p, &o).unwrap();
        f.trace_length = n;
        let r = catch_unwind(AssertUnwindSafe(|| verify_cairo_proof(&f, q, &o)));
        println!("{name}: {}", r.map_or("panicked".to_string(), |b| b.to_string()));
    };
    let n = proof.trace_length;
    run("honest", n, &p);
    let mut q = p.clone(); q.num_steps = 0; run("no steps", n, &q);
    let mut q = p.clone(); q.range_check_min = None; run("no minimum", n, &q);
    let mut q = p.clone(); q.range_check_max = None; run("no maximum", n, &q);
    run("2^60 rows", 1 << 60, &p);
    let mut tr = DefaultTranscript::new();
    tr.append(&proof.lde_trace_merkle_roots[0]);
    let c = CairoAIR::new(n, &p, &o).build_rap_challenges(&mut tr);
    let mut q = p.clone(); q.public_memory.insert(&c.z_memory - &c.alpha_memory, FE::one()); run("vanishing public cell", n, &q);
}
