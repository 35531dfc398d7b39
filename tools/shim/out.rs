#[path = "vm.rs"] mod vm;
use lambdaworks_stark::{cairo::{air::*, runner::run::*}, starks::proof::options::ProofOptions};
fn main() {
    let o = ProofOptions { blowup_factor: 4, fri_number_of_queries: 3, coset_offset: 3, grinding_factor: 1 };
    let mut bad = 0;
    for n in 1..8 {
        let (r, seg) = vm::output(n);
        let (t, p) = generate_prover_args(&r.encode(), &CairoVersion::V0, &Some(seg.clone())).unwrap();
        let proof = generate_cairo_proof(&t, &p, &o).unwrap();
        let ok = verify_cairo_proof(&proof, &p, &o);
        println!("{n} outputs at {seg:?}, program {} cells: {ok}", r.len);
        if !ok { bad += 1; }
    }
    std::process::exit((bad > 0) as i32);
}
