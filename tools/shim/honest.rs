#[path = "vm.rs"] mod vm;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as F;
use lambdaworks_stark::{cairo::{air::*, runner::run::*}, starks::{example::{dummy_air::{self, DummyAIR}, fibonacci_2_columns::{self, Fibonacci2ColsAIR}, fibonacci_rap::*, quadratic_air::{self, *}, simple_fibonacci::{self, *}}, proof::options::ProofOptions, prover::prove, verifier::verify}, FE};
fn opts(b: u8, q: usize, c: u64, g: u8) -> ProofOptions { ProofOptions { blowup_factor: b, fri_number_of_queries: q, coset_offset: c, grinding_factor: g } }
fn main() {
    let mut bad = 0;
    let mut ck = |n: String, ok: bool| { println!("{n}: {ok}"); if !ok { bad += 1; } };
    for (b, q, c, g) in [(4, 3, 3, 1), (2, 5, 7, 0), (8, 2, 5, 4)] {
        let o = opts(b, q, c, g);
        for n in [2, 4, 8, 16] {
            let p = FibonacciPublicInputs { a0: FE::from(1), a1: FE::from(1) };
            let t = simple_fibonacci::fibonacci_trace([FE::from(1), FE::from(1)], n);
            if n >= 4 { ck(format!("fib {n} {b}"), verify::<F, FibonacciAIR<F>>(&prove::<F, FibonacciAIR<F>>(&t, &p, &o).unwrap(), &p, &o)); }
            let t = fibonacci_2_columns::fibonacci_trace_2_columns([FE::from(1), FE::from(1)], n);
            ck(format!("fib2 {n} {b}"), verify::<F, Fibonacci2ColsAIR<F>>(&prove::<F, Fibonacci2ColsAIR<F>>(&t, &p, &o).unwrap(), &p, &o));
            let t = quadratic_air::quadratic_trace(FE::from(3), n);
            let p = QuadraticPublicInputs { a0: FE::from(3) };
            ck(format!("quadratic {n} {b}"), verify::<F, QuadraticAIR<F>>(&prove::<F, QuadraticAIR<F>>(&t, &p, &o).unwrap(), &p, &o));
        }
        let t = fibonacci_rap_trace([FE::from(1), FE::from(1)], 15);
        let p = FibonacciRAPPublicInputs { steps: 15, a0: FE::from(1), a1: FE::from(1) };
        ck(format!("rap {b}"), verify::<F, FibonacciRAP<F>>(&prove::<F, FibonacciRAP<F>>(&t, &p, &o).unwrap(), &p, &o));
        let t = dummy_air::dummy_trace(16);
        ck(format!("dummy {b}"), verify::<F, DummyAIR>(&prove::<F, DummyAIR>(&t, &(), &o).unwrap(), &(), &o));
    }
    let o = opts(4, 3, 3, 1);
    for (n, r, out) in [("fib", vm::fib(5), None), ("mixed", vm::mixed(), None), ("rc", vm::range_checked(&[1, 77777, 1 << 100]), None), ("out", vm::fib(3), Some(25..27))] {
        let (t, p) = generate_prover_args(&r.encode(), &CairoVersion::V0, &out).unwrap();
        let t0 = std::time::Instant::now();
        let proof = generate_cairo_proof(&t, &p, &o).unwrap();
        ck(format!("cairo {n} ({} steps, {:?})", r.regs.len(), t0.elapsed()), verify_cairo_proof(&proof, &p, &o));
        let mut q = p.clone(); q.pc_final = &q.pc_final + FE::one();
        ck(format!("cairo {n} other statement rejected"), !verify_cairo_proof(&proof, &q, &o));
    }
    std::process::exit((bad > 0) as i32);
}
