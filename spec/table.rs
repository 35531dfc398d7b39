//! Observations of trace tables and frames, through their public operations only.
use crate::starks::frame::Frame;
use crate::starks::trace::TraceTable;
use crate::FE;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::polynomial::Polynomial;

type F = Stark252PrimeField;

pub fn n_rows(d: Vec<FE>, w: usize) -> usize {
    TraceTable::<F>::new(d, w).n_rows()
}

pub fn get(d: Vec<FE>, w: usize, r: usize, c: usize) -> FE {
    TraceTable::<F>::new(d, w).get(r, c)
}

pub fn get_row(d: Vec<FE>, w: usize, r: usize) -> Vec<FE> {
    TraceTable::<F>::new(d, w).get_row(r).to_vec()
}

pub fn last_row(d: Vec<FE>, w: usize) -> Vec<FE> {
    TraceTable::<F>::new(d, w).last_row().to_vec()
}

pub fn rows(d: Vec<FE>, w: usize) -> Vec<Vec<FE>> {
    TraceTable::<F>::new(d, w).rows()
}

pub fn cols(d: Vec<FE>, w: usize) -> Vec<Vec<FE>> {
    TraceTable::<F>::new(d, w).cols()
}

pub fn get_cols(d: Vec<FE>, w: usize, k: Vec<usize>) -> Vec<Vec<FE>> {
    TraceTable::<F>::new(d, w).get_cols(&k).rows()
}

pub fn sub_width(d: Vec<FE>, w: usize, k: Vec<usize>) -> (usize, usize) {
    let t = TraceTable::<F>::new(d, w).get_cols(&k);
    (t.n_rows(), t.n_cols)
}

pub fn from_cols(l: Vec<Vec<FE>>) -> Vec<Vec<FE>> {
    TraceTable::<F>::new_from_cols(&l).rows()
}

pub fn from_cols_dims(l: Vec<Vec<FE>>) -> (usize, usize) {
    let t = TraceTable::<F>::new_from_cols(&l);
    (t.n_rows(), t.n_cols)
}

pub fn concatenate(d: Vec<FE>, w: usize, e: Vec<FE>, v: usize) -> Vec<Vec<FE>> {
    TraceTable::<F>::new(d, w).concatenate(e, v).rows()
}

pub fn concatenate_dims(d: Vec<FE>, w: usize, e: Vec<FE>, v: usize) -> (usize, usize) {
    let t = TraceTable::<F>::new(d, w).concatenate(e, v);
    (t.n_rows(), t.n_cols)
}

pub fn empty() -> (usize, bool) {
    let t = TraceTable::<F>::empty();
    (t.n_rows(), t.is_empty())
}

pub fn is_empty(d: Vec<FE>, w: usize) -> bool {
    TraceTable::<F>::new(d, w).is_empty()
}

pub fn polys(d: Vec<FE>, w: usize, x: FE) -> Vec<FE> {
    TraceTable::<F>::new(d, w).compute_trace_polys().iter().map(|p| p.evaluate(&x)).collect()
}

pub fn polys_law(l: Vec<Vec<FE>>, x: FE) -> Vec<FE> {
    l.iter().map(|c| Polynomial::interpolate_fft(c).unwrap().evaluate(&x)).collect()
}

pub fn frame_row(d: Vec<FE>, w: usize, r: usize) -> Vec<FE> {
    Frame::<F>::new(d, w).get_row(r).to_vec()
}

pub fn frame_dims(d: Vec<FE>, w: usize) -> (usize, usize) {
    let f = Frame::<F>::new(d, w);
    (f.num_rows(), f.num_columns())
}

pub fn frame_set(d: Vec<FE>, w: usize, r: usize, c: usize, x: FE, s: usize) -> Vec<FE> {
    let mut f = Frame::<F>::new(d, w);
    f.get_row_mut(r)[c] = x;
    f.get_row(s).to_vec()
}

pub fn frame_read(d: Vec<FE>, w: usize, step: usize, blowup: u8, offsets: Vec<usize>, r: usize) -> Vec<FE> {
    Frame::<F>::read_from_trace(&TraceTable::<F>::new(d, w), step, blowup, &offsets).get_row(r).to_vec()
}

pub fn frame_read_dims(d: Vec<FE>, w: usize, step: usize, blowup: u8, offsets: Vec<usize>) -> (usize, usize) {
    let f = Frame::<F>::read_from_trace(&TraceTable::<F>::new(d, w), step, blowup, &offsets);
    (f.num_rows(), f.num_columns())
}

pub fn evaluations(p: Vec<Polynomial<FE>>, x: FE, offsets: Vec<usize>, g: FE) -> Vec<Vec<FE>> {
    Frame::<F>::get_trace_evaluations(&p, &x, &offsets, &g)
}

pub fn evaluations_law(p: Vec<Polynomial<FE>>, x: FE, offsets: Vec<usize>, g: FE) -> Vec<Vec<FE>> {
    let mut out: Vec<Vec<FE>> = Vec::new();
    for o in offsets.iter() {
        let mut row: Vec<FE> = Vec::new();
        for q in p.iter() {
            row.push(q.evaluate(&(&x * g.pow(*o))));
        }
        out.push(row);
    }
    out
}
