//! A minimal Cairo machine: runs a program and encodes the run for the cairo-vm stand-in.
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::FE;
use std::collections::BTreeMap;

pub fn word(dst: i64, op0: i64, op1: i64, flags: u64) -> u64 {
    let b = |x: i64| (x + 32768) as u64;
    b(dst) | b(op0) << 16 | b(op1) << 32 | flags << 48
}
pub const DST_FP: u64 = 1;
pub const OP0_FP: u64 = 2;
pub const OP1_IMM: u64 = 4;
pub const OP1_FP: u64 = 8;
pub const OP1_AP: u64 = 16;
pub const RES_ADD: u64 = 32;
pub const RES_MUL: u64 = 64;
pub const JMP_ABS: u64 = 128;
pub const JMP_REL: u64 = 256;
pub const JNZ: u64 = 512;
pub const AP_ADD: u64 = 1024;
pub const AP_ADD1: u64 = 2048;
pub const CALL: u64 = 4096;
pub const RET: u64 = 8192;
pub const ASSERT_EQ: u64 = 16384;

pub struct Run { pub regs: Vec<(u64, u64, u64)>, pub mem: BTreeMap<u64, FE>, pub len: u64, pub rc: Option<(u64, u64)> }

fn num(x: &FE) -> i128 {
    let l = x.representative().limbs;
    if l[0] == 0 && l[1] == 0 && l[2] == 0 { return l[3] as i128; }
    let n = (-x).representative().limbs;
    assert!(n[0] == 0 && n[1] == 0 && n[2] == 0, "not a small value");
    -(n[3] as i128)
}

/// `program` at address 1; the stack starts at the next free address with a dummy return frame; `extra` cells are preset
pub fn run(program: &[FE], main: u64, extra: &[(u64, FE)], rc: Option<(u64, u64)>, stack: Option<u64>) -> Run {
    let mut mem = BTreeMap::new();
    for (i, w) in program.iter().enumerate() { mem.insert(1 + i as u64, w.clone()); }
    for (a, v) in extra { mem.insert(*a, v.clone()); }
    let base = stack.unwrap_or(1 + program.len() as u64);
    let end = base + 5000;
    mem.insert(base, FE::from(end));
    mem.insert(base + 1, FE::from(end + 1));
    let (mut pc, mut ap, mut fp) = (main, base + 2, base + 2);
    let mut regs = vec![];
    while pc != end + 1 && regs.len() < 4000 {
        regs.push((pc, ap, fp));
        let w = num(&mem[&pc]) as u64;
        let off = |k: u64| ((w >> (16 * k)) & 0xffff) as i64 - 32768;
        let f = w >> 48;
        let at = |b: u64, o: i64| (b as i64 + o) as u64;
        let dst_a = at(if f & DST_FP != 0 { fp } else { ap }, off(0));
        let op0_a = at(if f & OP0_FP != 0 { fp } else { ap }, off(1));
        let size = if f & OP1_IMM != 0 { 2 } else { 1 };
        if f & CALL != 0 { mem.entry(dst_a).or_insert(FE::from(fp)); mem.entry(op0_a).or_insert(FE::from(pc + size)); }
        let op1_a = if f & OP1_IMM != 0 { at(pc, off(2)) } else if f & OP1_FP != 0 { at(fp, off(2)) } else if f & OP1_AP != 0 { at(ap, off(2)) } else { at(num(&mem[&op0_a]) as u64, off(2)) };
        if f & ASSERT_EQ != 0 {
            // deduce the missing cell
            let (d, a, b) = (mem.get(&dst_a).cloned(), mem.get(&op0_a).cloned(), mem.get(&op1_a).cloned());
            let (add, mul) = (f & RES_ADD != 0, f & RES_MUL != 0);
            match (d, a, b) {
                (None, Some(a), Some(b)) if add => { mem.insert(dst_a, a + b); }
                (None, Some(a), Some(b)) if mul => { mem.insert(dst_a, a * b); }
                (None, _, Some(b)) if !add && !mul => { mem.insert(dst_a, b); }
                (Some(d), Some(a), None) if add => { mem.insert(op1_a, d - a); }
                (Some(d), None, Some(b)) if add => { mem.insert(op0_a, d - b); }
                (Some(d), Some(a), None) if mul => { mem.insert(op1_a, d * a.inv()); }
                (Some(d), None, Some(b)) if mul => { mem.insert(op0_a, d * b.inv()); }
                (Some(d), _, None) if !add && !mul => { mem.insert(op1_a, d); }
                _ => {}
            }
        }
        for a in [dst_a, op0_a, op1_a] { mem.entry(a).or_insert(FE::zero()); }
        let (dst, op0, op1) = (mem[&dst_a].clone(), mem[&op0_a].clone(), mem[&op1_a].clone());
        let res = if f & RES_ADD != 0 { &op0 + &op1 } else if f & RES_MUL != 0 { &op0 * &op1 } else { op1.clone() };
        if f & ASSERT_EQ != 0 { assert!(dst == res, "assertion of the program at {pc} fails"); }
        let jump = |x: i128| (pc as i128 + x) as u64;
        let npc = if f & JMP_ABS != 0 { num(&res) as u64 } else if f & JMP_REL != 0 { jump(num(&res)) } else if f & JNZ != 0 && dst != FE::zero() { jump(num(&op1)) } else { pc + size };
        let nap = if f & CALL != 0 { ap + 2 } else if f & AP_ADD != 0 { (ap as i128 + num(&res)) as u64 } else if f & AP_ADD1 != 0 { ap + 1 } else { ap };
        let nfp = if f & CALL != 0 { ap + 2 } else if f & RET != 0 { num(&dst) as u64 } else { fp };
        pc = npc; ap = nap; fp = nfp;
    }
    assert!(regs.len() < 4000, "the program does not stop");
    Run { regs, mem, len: program.len() as u64, rc }
}

impl Run {
    /// what the cairo-vm stand-in reads
    pub fn encode(&self) -> Vec<u8> {
        let mut w: Vec<u64> = vec![self.len, self.regs.len() as u64];
        for (pc, ap, fp) in &self.regs { w.extend([*pc, *ap, *fp]); }
        w.push(self.mem.len() as u64);
        let mut out: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
        for (a, v) in &self.mem { out.extend(a.to_le_bytes()); out.extend(v.to_bytes_le()); }
        if let Some((a, b)) = self.rc { out.extend(a.to_le_bytes()); out.extend(b.to_le_bytes()); }
        out
    }
}

pub fn fe(x: i64) -> FE { if x < 0 { -FE::from((-x) as u64) } else { FE::from(x as u64) } }

/// loop: fib(n) with call, jnz, ap arithmetic
pub fn fib(n: i64) -> Run {
    let p: Vec<FE> = vec![
        // main: [ap] = 1; ap++   [ap] = 1; ap++   [ap] = n; ap++   call fib   ret
        fe(word(0, -1, 1, DST_FP * 0 | OP0_FP | OP1_IMM | AP_ADD1 | ASSERT_EQ) as i64), fe(1),
        fe(word(0, -1, 1, OP0_FP | OP1_IMM | AP_ADD1 | ASSERT_EQ) as i64), fe(1),
        fe(word(0, -1, 1, OP0_FP | OP1_IMM | AP_ADD1 | ASSERT_EQ) as i64), fe(n),
        fe(word(0, 1, 1, OP1_IMM | JMP_REL | CALL) as i64), fe(3),
        fe(word(-2, -1, -1, DST_FP | OP0_FP | OP1_FP | JMP_ABS | RET) as i64),
        // fib: jmp body if [fp - 3] != 0   [ap] = [fp - 4]; ap++   ret
        fe(word(-3, -1, 1, DST_FP | OP0_FP | OP1_IMM | JNZ) as i64), fe(4),
        fe(word(0, -1, -4, OP0_FP | OP1_FP | AP_ADD1 | ASSERT_EQ) as i64),
        fe(word(-2, -1, -1, DST_FP | OP0_FP | OP1_FP | JMP_ABS | RET) as i64),
        // body: [ap] = [fp-4]; ap++  [ap] = [fp-5] + [fp-4]; ap++  [ap] = [fp-3] + -1; ap++  call fib  ret
        fe(word(0, -1, -4, OP0_FP | OP1_FP | AP_ADD1 | ASSERT_EQ) as i64),
        fe(word(0, -5, -4, OP0_FP | OP1_FP | RES_ADD | AP_ADD1 | ASSERT_EQ) as i64),
        fe(word(0, -3, 1, OP0_FP | OP1_IMM | RES_ADD | AP_ADD1 | ASSERT_EQ) as i64), fe(-1),
        fe(word(0, 1, 1, OP1_IMM | JMP_REL | CALL) as i64), fe(-8),
        fe(word(-2, -1, -1, DST_FP | OP0_FP | OP1_FP | JMP_ABS | RET) as i64),
    ];
    run(&p, 1, &[], None, None)
}

/// products, double dereference, ap += imm (leaves holes in memory), absolute jumps
pub fn mixed() -> Run {
    let p: Vec<FE> = vec![
        fe(word(0, -1, 1, OP0_FP | OP1_IMM | AP_ADD1 | ASSERT_EQ) as i64), fe(7),
        fe(word(0, -1, 1, OP0_FP | OP1_IMM | AP_ADD1 | ASSERT_EQ) as i64), fe(-3),
        fe(word(0, 0, -1, OP0_FP | OP1_AP | RES_MUL | AP_ADD1 | ASSERT_EQ) as i64),
        fe(word(-1, -1, 1, DST_FP | OP0_FP | OP1_IMM | AP_ADD) as i64), fe(6),
        fe(word(0, -1, 1, OP0_FP | OP1_IMM | AP_ADD1 | ASSERT_EQ) as i64), fe(3),
        // [ap] = [[ap - 1] + 1]
        fe(word(0, -1, 1, AP_ADD1 | ASSERT_EQ) as i64),
        fe(word(-1, -1, 1, DST_FP | OP0_FP | OP1_IMM | JMP_ABS) as i64), fe(14),
        fe(0),
        fe(word(0, -1, 1, OP0_FP | OP1_IMM | AP_ADD1 | ASSERT_EQ) as i64), fe(11),
        fe(word(-2, -1, -1, DST_FP | OP0_FP | OP1_FP | JMP_ABS | RET) as i64),
    ];
    run(&p, 1, &[], None, None)
}

/// values in a range-check segment
pub fn range_checked(vals: &[u128]) -> Run {
    let p: Vec<FE> = vec![
        fe(word(0, -1, 1, OP0_FP | OP1_IMM | AP_ADD1 | ASSERT_EQ) as i64), fe(5),
        fe(word(0, -1, 1, OP0_FP | OP1_IMM | AP_ADD1 | ASSERT_EQ) as i64), fe(9),
        fe(word(0, -2, -1, OP1_AP | RES_ADD | AP_ADD1 | ASSERT_EQ) as i64),
        fe(word(-2, -1, -1, DST_FP | OP0_FP | OP1_FP | JMP_ABS | RET) as i64),
    ];
    let start = 1 + p.len() as u64 + 5 + 2;
    let b64 = FE::from(1u64 << 32) * FE::from(1u64 << 32);
    let extra: Vec<(u64, FE)> = vals.iter().enumerate().map(|(i, v)| (start + i as u64, FE::from((v >> 64) as u64) * &b64 + FE::from(*v as u64))).collect();
    run(&p, 1, &extra, Some((start, start + vals.len() as u64)), Some(start - 5 - 2))
}

/// skips stack cells and writes `out` output cells right after the stack
pub fn output(out: i64) -> (Run, std::ops::Range<u64>) {
    let mut p: Vec<FE> = vec![
        fe(word(-1, -1, 1, DST_FP | OP0_FP | OP1_IMM | AP_ADD) as i64), fe(6),
        fe(word(0, -1, 1, OP0_FP | OP1_IMM | AP_ADD1 | ASSERT_EQ) as i64), fe(0),
    ];
    for k in 0..out { p.push(fe(word(0, -1 - k, k, AP_ADD1 | ASSERT_EQ) as i64)); }
    p.push(fe(word(-2, -1, -1, DST_FP | OP0_FP | OP1_FP | JMP_ABS | RET) as i64));
    let start = 1 + p.len() as u64 + 2 + 6 + 1 + out as u64;
    p[3] = fe(start as i64);
    let extra: Vec<(u64, FE)> = (0..out).map(|k| (start + k as u64, fe(100 + k))).collect();
    (run(&p, 1, &extra, None, None), start..start + out as u64)
}
