//! Observers over an arbitrary set of boundary constraints (column, step and value lists of equal length).
use crate::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};
use lambdaworks_math::field::{element::FieldElement, fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as F};
use lambdaworks_math::polynomial::Polynomial;
type FE = FieldElement<F>;

fn made(c: Vec<usize>, s: Vec<usize>, v: Vec<FE>) -> BoundaryConstraints<F> {
    let mut l: Vec<BoundaryConstraint<F>> = Vec::new();
    for i in 0..c.len() {
        l.push(BoundaryConstraint::<F>::new(c[i], s[i], v[i].clone()));
    }
    BoundaryConstraints::<F>::from_constraints(l)
}

pub fn kept(c: Vec<usize>, s: Vec<usize>, v: Vec<FE>) -> Vec<(usize, usize, FE)> {
    let mut out: Vec<(usize, usize, FE)> = Vec::new();
    for b in made(c, s, v).constraints.iter() {
        out.push((b.col, b.step, b.value.clone()));
    }
    out
}

pub fn simple(s: Vec<usize>, v: Vec<FE>) -> Vec<(usize, usize, FE)> {
    let mut out: Vec<(usize, usize, FE)> = Vec::new();
    for i in 0..s.len() {
        let b = BoundaryConstraint::<F>::new_simple(s[i], v[i].clone());
        out.push((b.col, b.step, b.value.clone()));
    }
    out
}

pub fn empty() -> usize {
    BoundaryConstraints::<F>::new().constraints.len()
}

pub fn steps(c: Vec<usize>, s: Vec<usize>, v: Vec<FE>, k: usize) -> Vec<usize> {
    made(c, s, v).steps(k)
}

pub fn all_steps(c: Vec<usize>, s: Vec<usize>, v: Vec<FE>) -> Vec<usize> {
    made(c, s, v).steps_for_boundary()
}

pub fn all_cols(c: Vec<usize>, s: Vec<usize>, v: Vec<FE>) -> Vec<usize> {
    made(c, s, v).cols_for_boundary()
}

pub fn roots(c: Vec<usize>, s: Vec<usize>, v: Vec<FE>, w: FE, l: Vec<usize>) -> Vec<Vec<FE>> {
    made(c, s, v).generate_roots_of_unity(&w, &l)
}

pub fn values(c: Vec<usize>, s: Vec<usize>, v: Vec<FE>, l: Vec<usize>) -> Vec<Vec<FE>> {
    made(c, s, v).values(&l)
}

pub fn zerofier(c: Vec<usize>, s: Vec<usize>, v: Vec<FE>, w: FE, k: usize) -> Polynomial<FE> {
    made(c, s, v).compute_zerofier(&w, k)
}
