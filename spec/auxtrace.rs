//! Reference for the auxiliary trace: sorted range-check values, sorted memory accesses, running products.
use crate::cairo::air::{CairoRAPChallenges, PublicInputs};
use crate::starks::trace::TraceTable;
use crate::FE;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;

/// the value of column `col` of every row
pub fn build(main: &TraceTable<Stark252PrimeField>, public: &PublicInputs, rap: &CairoRAPChallenges) -> Vec<FE> {
    let cols = main.n_cols;
    let rows = main.table.len() / cols;

    // the accesses in trace order
    let mut accesses: Vec<(FE, FE)> = Vec::new();
    let mut offsets: Vec<FE> = Vec::new();
    for i in 0..rows {
        for j in 0..4 {
            accesses.push((main.table[i * cols + 19 + j], main.table[i * cols + 23 + j]));
        }
        for j in 0..3 {
            offsets.push(main.table[i * cols + 27 + j]);
        }
    }
    // the last accesses are the dummies that stand for the public memory
    let k = accesses.len() - public.public_memory.len();
    let mut sorted: Vec<(FE, FE)> = accesses[..k].to_vec();
    for (a, v) in public.public_memory.iter() {
        sorted.push((*a, *v));
    }
    sorted.sort_by(|x, y| x.0.representative().cmp(&y.0.representative()));

    let mut reps: Vec<_> = offsets.iter().map(|x| x.representative()).collect();
    reps.sort();

    let mut out = Vec::new();
    let mut perm = FE::one();
    let mut rc = FE::one();
    for i in 0..rows {
        for j in 0..3 {
            out.push(FE::from(&reps[3 * i + j]));
        }
        for j in 0..4 {
            out.push(sorted[4 * i + j].0);
        }
        for j in 0..4 {
            out.push(sorted[4 * i + j].1);
        }
        for j in 0..4 {
            let (a, v) = accesses[4 * i + j];
            let (sa, sv) = sorted[4 * i + j];
            perm = perm * (rap.z_memory - (a + rap.alpha_memory * v)) * (rap.z_memory - (sa + rap.alpha_memory * sv)).inv();
            out.push(perm);
        }
        for j in 0..3 {
            rc = rc * (rap.z_range_check - offsets[3 * i + j]) * (rap.z_range_check - FE::from(&reps[3 * i + j])).inv();
            out.push(rc);
        }
    }
    out
}
