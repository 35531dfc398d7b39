//! Reference for the execution trace: one row per executed step (Cairo whitepaper, sections 4.4, 4.5 and 9).
use crate::cairo::cairo_mem::CairoMemory;
use crate::cairo::register_states::RegisterStates;
use crate::FE;
use lambdaworks_math::traits::ByteConversion;

/// the low 64 bits of a memory cell
fn word(x: &FE) -> u64 {
    u64::from_be_bytes(x.to_bytes_be()[24..32].try_into().unwrap())
}

fn flag(w: u64, k: u32) -> u64 {
    (w >> (48 + k)) & 1
}

fn at(memory: &CairoMemory, addr: u64) -> FE {
    *memory.data.get(&addr).unwrap()
}

/// base + signed offset number k of the instruction
fn shifted(base: u64, w: u64, k: u32) -> u64 {
    (base as i128 + (((w >> (16 * k)) & 0xffff) as i128) - 32768) as u64
}

/// the value of each of the 34 columns of step i
pub fn row(states: &RegisterStates, memory: &CairoMemory, i: usize) -> Vec<FE> {
    let s = &states.rows[i];
    let inst = at(memory, s.pc);
    let w = word(&inst);

    let dst_addr = shifted(if flag(w, 0) == 1 { s.fp } else { s.ap }, w, 0);
    let op0_addr = shifted(if flag(w, 1) == 1 { s.fp } else { s.ap }, w, 1);
    let raw_dst = at(memory, dst_addr);
    let raw_op0 = at(memory, op0_addr);
    let base = if flag(w, 2) == 1 {
        s.pc
    } else if flag(w, 3) == 1 {
        s.fp
    } else if flag(w, 4) == 1 {
        s.ap
    } else {
        word(&raw_op0)
    };
    let op1_addr = shifted(base, w, 2);
    let op1 = at(memory, op1_addr);

    let call = flag(w, 12) == 1;
    let assert_eq = flag(w, 14) == 1;
    let size = if flag(w, 2) == 1 { 2 } else { 1 };
    // a call saves fp and the return address
    let dst = if call { FE::from(s.fp) } else { raw_dst };
    let op0 = if call { FE::from(s.pc + size) } else { raw_op0 };

    let res = if flag(w, 9) == 1 {
        // conditional jump: the inverse of the condition
        if raw_dst == FE::zero() {
            FE::zero()
        } else {
            raw_dst.inv()
        }
    } else if assert_eq {
        raw_dst
    } else if flag(w, 5) == 1 {
        raw_op0 + op1
    } else if flag(w, 6) == 1 {
        raw_op0 * op1
    } else {
        op1
    };

    let mut out = Vec::new();
    for k in 0..15 {
        out.push(FE::from(flag(w, k)));
    }
    out.push(FE::zero());
    out.push(res);
    out.push(FE::from(s.ap));
    out.push(FE::from(s.fp));
    out.push(FE::from(s.pc));
    out.push(FE::from(dst_addr));
    out.push(FE::from(op0_addr));
    out.push(FE::from(op1_addr));
    out.push(inst);
    out.push(dst);
    out.push(op0);
    out.push(op1);
    for k in 0..3 {
        out.push(FE::from((w >> (16 * k)) & 0xffff));
    }
    let t0 = if flag(w, 9) == 1 { dst } else { FE::zero() };
    out.push(t0);
    out.push(t0 * res);
    out.push(op0 * op1);
    out.push(if i + 1 == states.rows.len() { FE::zero() } else { FE::one() });
    out
}
