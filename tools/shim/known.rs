// Shows the recorded findings of S08 and S10 on the real code: false statements the verifier accepts.
#[path = "vm.rs"] mod vm;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as F;
use lambdaworks_stark::{cairo::{air::*, runner::run::*}, starks::{constraints::boundary::BoundaryConstraints, context::AirContext, frame::Frame, proof::options::ProofOptions, prover::prove, trace::TraceTable, traits::AIR}, FE};

// a prover that scales the memory product column
#[derive(Clone)]
struct Evil { air: CairoAIR, truth: PublicInputs, claim: PublicInputs, cols: usize }
impl AIR for Evil {
    type Field = F; type RAPChallenges = CairoRAPChallenges; type PublicInputs = (PublicInputs, PublicInputs);
    fn new(n: usize, p: &Self::PublicInputs, o: &ProofOptions) -> Self { Evil { air: CairoAIR::new(n, &p.1, o), truth: p.0.clone(), claim: p.1.clone(), cols: 0 } }
    fn build_auxiliary_trace(&self, m: &TraceTable<F>, r: &Self::RAPChallenges) -> TraceTable<F> {
        let honest = CairoAIR::new(self.air.trace_length(), &self.truth, self.air.options());
        let mut t = honest.build_auxiliary_trace(m, r);
        let p = |x: &PublicInputs| x.public_memory.iter().fold(FE::one(), |a, (k, v)| a * (&r.z_memory - (k + &r.alpha_memory * v)));
        let c = p(&self.truth) * p(&self.claim).inv();
        for i in 0..m.n_rows() { for j in 11..15 { t.table[18 * i + j] = &t.table[18 * i + j] * &c; } }
        t
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> Self::RAPChallenges { self.air.build_rap_challenges(t) }
    fn number_auxiliary_rap_columns(&self) -> usize { self.air.number_auxiliary_rap_columns() }
    fn composition_poly_degree_bound(&self) -> usize { self.air.composition_poly_degree_bound() }
    fn compute_transition(&self, f: &Frame<F>, r: &Self::RAPChallenges) -> Vec<FE> { self.air.compute_transition(f, r) }
    fn boundary_constraints(&self, r: &Self::RAPChallenges) -> BoundaryConstraints<F> { self.air.boundary_constraints(r) }
    fn context(&self) -> &AirContext { self.air.context() }
    fn trace_length(&self) -> usize { self.air.trace_length() }
    fn pub_inputs(&self) -> &Self::PublicInputs { unimplemented!() }
}

fn main() {
    let o = ProofOptions { blowup_factor: 4, fri_number_of_queries: 3, coset_offset: 3, grinding_factor: 1 };
    let (t, p) = generate_prover_args(&vm::fib(5).encode(), &CairoVersion::V0, &None).unwrap();
    // S10 memory product start: another public memory
    let mut q = p.clone();
    *q.public_memory.get_mut(&FE::from(3)).unwrap() = FE::from(123456);
    let proof = prove::<F, Evil>(&t, &(p.clone(), q.clone()), &o).unwrap();
    println!("S10 memory product start: false program accepted: {}", verify_cairo_proof(&proof, &q, &o));
    // S08 switch: selector column zero, any final ap
    let mut e = t.clone();
    for i in 0..e.n_rows() { e.table[i * e.n_cols + FRAME_SELECTOR] = FE::zero(); }
    let mut q = p.clone();
    q.ap_final = FE::from(999);
    let k = e.n_cols * (p.num_steps - 1) + FRAME_AP;
    e.table[k] = FE::from(999);
    println!("S08 switch: false final ap accepted: {}", verify_cairo_proof(&generate_cairo_proof(&e, &q, &o).unwrap(), &q, &o));
    // S08 vacuous range check builtin: a checked value beyond 2^128
    let (mut t, p) = generate_prover_args(&vm::range_checked(&[1, 77777]).encode(), &CairoVersion::V0, &None).unwrap();
    let c = t.n_cols;
    t.table[RC_VALUE] = FE::from(5).pow(100u32);
    t.table[RC_0] = &t.table[RC_VALUE] - &(1..8).fold(FE::zero(), |a, i| a + &t.table[RC_0 + i] * FE::from(2).pow(16 * i as u32));
    println!("S08 vacuous range check builtin ({c} columns): value out of range accepted: {}", verify_cairo_proof(&generate_cairo_proof(&t, &p, &o).unwrap(), &p, &o));
    // S10 Fibonacci RAP: the stated initial values are not looked at
    use lambdaworks_stark::starks::{example::fibonacci_rap::*, verifier::verify};
    let t = fibonacci_rap_trace([FE::one(), FE::one()], 15);
    let q = FibonacciRAPPublicInputs { steps: 15, a0: FE::from(5), a1: FE::from(9) };
    println!("S10 Fibonacci RAP: false initial values accepted: {}", verify::<F, FibonacciRAP<F>>(&prove::<F, FibonacciRAP<F>>(&t, &q, &o).unwrap(), &q, &o));
}
