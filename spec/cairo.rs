//! Reference for the Cairo constraint system: one column per name, one constraint per slot.
use crate::cairo::air::{CairoRAPChallenges, MemorySegment, PublicInputs};
use crate::starks::constraints::boundary::BoundaryConstraint;
use crate::FE;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;

/// The constraints over two consecutive rows; `rc` says whether the nine range-check builtin
/// columns sit before the auxiliary ones.
pub fn transition(curr: &[FE], next: &[FE], rap: &CairoRAPChallenges, rc: bool) -> Vec<FE> {
    let one = FE::from(1);
    let two = FE::from(2);
    let b15 = FE::from(32768);
    let aux = if rc { 43 } else { 34 };
    let f = &curr[0..16];
    let res = curr[16];
    let ap = curr[17];
    let fp = curr[18];
    let pc = curr[19];
    let dst_addr = curr[20];
    let op0_addr = curr[21];
    let op1_addr = curr[22];
    let inst = curr[23];
    let dst = curr[24];
    let op0 = curr[25];
    let op1 = curr[26];
    let off_dst = curr[27];
    let off_op0 = curr[28];
    let off_op1 = curr[29];
    let t0 = curr[30];
    let t1 = curr[31];
    let mul = curr[32];
    let selector = curr[33];
    let next_ap = next[17];
    let next_fp = next[18];
    let next_pc = next[19];
    let size = one + f[2];

    let mut c: Vec<FE> = Vec::new();
    // flags
    for i in 0..15 {
        c.push(f[i] * (f[i] - one));
    }
    c.push(f[15]);
    // instruction word
    let mut word = off_dst + FE::from(65536) * off_op0 + FE::from(4294967296) * off_op1;
    for i in 0..15 {
        word = word + FE::from(1u64 << (48 + i)) * f[i];
    }
    c.push(selector * (word - inst));
    // operand addresses
    c.push(selector * (f[0] * fp + (one - f[0]) * ap + off_dst - b15 - dst_addr));
    c.push(selector * (f[1] * fp + (one - f[1]) * ap + off_op0 - b15 - op0_addr));
    c.push(selector * (f[2] * pc + f[4] * ap + f[3] * fp + (one - f[2] - f[4] - f[3]) * op0 + off_op1 - b15 - op1_addr));
    // registers
    c.push(selector * (ap + f[10] * res + f[11] + f[12] * two - next_ap));
    c.push(selector * (f[13] * dst + f[12] * (ap + two) + (one - f[13] - f[12]) * fp - next_fp));
    c.push(selector * ((t1 - f[9]) * (next_pc - pc - size)));
    c.push(selector * (t0 * (next_pc - pc - op1) + (one - f[9]) * next_pc
        - (one - f[7] - f[8] - f[9]) * (pc + size) - f[7] * res - f[8] * (pc + res)));
    c.push(selector * (f[9] * dst - t0));
    c.push(selector * (t0 * res - t1));
    // opcodes
    c.push(selector * (mul - op0 * op1));
    c.push(selector * (f[5] * (op0 + op1) + f[6] * mul + (one - f[5] - f[6] - f[9]) * op1 - (one - f[9]) * res));
    c.push(selector * (f[12] * (dst - fp)));
    c.push(selector * (f[12] * (op0 - pc - size)));
    c.push(selector * (f[14] * (dst - res)));
    // auxiliary columns: 3 sorted offsets, 4 sorted addresses, 4 values, 4 + 3 running products
    let s = &curr[aux..aux + 3];
    let a = &curr[aux + 3..aux + 7];
    let v = &curr[aux + 7..aux + 11];
    let p = &curr[aux + 11..aux + 15];
    let q = &curr[aux + 15..aux + 18];
    let s0 = next[aux];
    let a0 = next[aux + 3];
    let v0 = next[aux + 7];
    let p0 = next[aux + 11];
    let q0 = next[aux + 15];
    // sorted addresses are continuous
    c.push((a[1] - a[0]) * (a[1] - a[0] - one));
    c.push((a[2] - a[1]) * (a[2] - a[1] - one));
    c.push((a[3] - a[2]) * (a[3] - a[2] - one));
    c.push((a0 - a[3]) * (a0 - a[3] - one));
    // equal addresses hold equal values
    c.push((v[1] - v[0]) * (a[1] - a[0] - one));
    c.push((v[2] - v[1]) * (a[2] - a[1] - one));
    c.push((v[3] - v[2]) * (a[3] - a[2] - one));
    c.push((v0 - v[3]) * (a0 - a[3] - one));
    // memory permutation
    let z = rap.z_memory;
    let al = rap.alpha_memory;
    c.push((z - a[1] - al * v[1]) * p[1] - (z - dst_addr - al * dst) * p[0]);
    c.push((z - a[2] - al * v[2]) * p[2] - (z - op0_addr - al * op0) * p[1]);
    c.push((z - a[3] - al * v[3]) * p[3] - (z - op1_addr - al * op1) * p[2]);
    c.push((z - a0 - al * v0) * p0 - (z - next[19] - al * next[23]) * p[3]);
    // sorted offsets are continuous
    c.push((s[1] - s[0]) * (s[1] - s[0] - one));
    c.push((s[2] - s[1]) * (s[2] - s[1] - one));
    c.push((s0 - s[2]) * (s0 - s[2] - one));
    // range-check permutation
    let y = rap.z_range_check;
    c.push((y - s[1]) * q[1] - (y - off_op0) * q[0]);
    c.push((y - s[2]) * q[2] - (y - off_op1) * q[1]);
    c.push((y - s0) * q0 - (y - next[27]) * q[2]);
    if rc {
        let mut value = FE::from(0);
        let mut scale = FE::from(1);
        for i in 0..8 {
            value = value + scale * curr[34 + i];
            scale = scale * FE::from(65536);
        }
        c.push(value - curr[42]);
    }
    c
}

/// What the public inputs say about single cells, over a trace of `n` rows.
pub fn boundary(p: &PublicInputs, rap: &CairoRAPChallenges, n: usize) -> Vec<BoundaryConstraint<Stark252PrimeField>> {
    let aux = if p.memory_segments.contains_key(&MemorySegment::RangeCheck) { 43 } else { 34 };
    let mut product = FE::from(1);
    for (a, v) in p.public_memory.iter() {
        product = product * (rap.z_memory - a - rap.alpha_memory * v);
    }
    let mut c: Vec<BoundaryConstraint<Stark252PrimeField>> = Vec::new();
    c.push(BoundaryConstraint { col: 19, step: 0, value: p.pc_init });
    c.push(BoundaryConstraint { col: 17, step: 0, value: p.ap_init });
    c.push(BoundaryConstraint { col: 18, step: 0, value: p.fp_init });
    c.push(BoundaryConstraint { col: 19, step: p.num_steps - 1, value: p.pc_final });
    c.push(BoundaryConstraint { col: 17, step: p.num_steps - 1, value: p.ap_final });
    c.push(BoundaryConstraint { col: aux + 14, step: n - 1, value: rap.z_memory.pow(p.public_memory.len()) * product.inv() });
    c.push(BoundaryConstraint { col: aux + 17, step: n - 1, value: FE::from(1) });
    c.push(BoundaryConstraint { col: aux, step: 0, value: FE::from(p.range_check_min.unwrap() as u64) });
    c.push(BoundaryConstraint { col: aux + 2, step: n - 1, value: FE::from(p.range_check_max.unwrap() as u64) });
    c
}
