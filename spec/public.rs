//! What the caller of the prover must receive for an execution.
use crate::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
use crate::cairo::cairo_mem::CairoMemory;
use crate::cairo::execution_trace::build_main_trace;
use crate::cairo::register_states::RegisterStates;
use crate::starks::trace::TraceTable;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use std::ops::Range;

pub fn args(
    regs: RegisterStates,
    mem: CairoMemory,
    size: usize,
    rc: Option<Range<u64>>,
    out: Option<Range<u64>>,
) -> (TraceTable<Stark252PrimeField>, PublicInputs) {
    let mut segments = MemorySegmentMap::new();
    if let Some(r) = rc {
        segments.insert(MemorySegment::RangeCheck, r);
    }
    if let Some(r) = out {
        segments.insert(MemorySegment::Output, r);
    }
    let mut p = PublicInputs::from_regs_and_mem(&regs, &mem, size, &segments);
    let t = build_main_trace(&regs, &mem, &mut p);
    (t, p)
}
