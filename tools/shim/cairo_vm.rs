//! Stand-in for cairo-vm: `cairo_run` reads its result from the program bytes.
//! 8-byte little-endian words: program length, trace rows, (pc, ap, fp) per row, cells, (address, value: four words) per cell,
//! and the start and stop of the range-check segment (absent: no builtin).
pub mod felt {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Felt252(pub [u8; 32]);
    impl Felt252 {
        pub fn to_le_bytes(&self) -> [u8; 32] { self.0 }
        pub fn to_be_bytes(&self) -> [u8; 32] { let mut b = self.0; b.reverse(); b }
    }
    impl From<u64> for Felt252 { fn from(x: u64) -> Self { let mut b = [0; 32]; b[..8].copy_from_slice(&x.to_le_bytes()); Felt252(b) } }
}
macro_rules! err { ($($n:ident),*) => { $(#[derive(Debug)] pub struct $n; impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "error") } } impl std::error::Error for $n {})* } }
pub mod vm {
    pub mod errors {
        pub mod cairo_run_errors { err!(CairoRunError); }
        pub mod trace_errors { err!(TraceError); }
        pub mod vm_errors { err!(VirtualMachineError); }
        pub mod memory_errors { err!(MemoryError); }
    }
    pub mod trace { pub mod trace_entry { #[derive(Clone, Debug)] pub struct TraceEntry { pub pc: usize, pub ap: usize, pub fp: usize } } }
    pub mod vm_core {
        use crate::types::relocatable::{MaybeRelocatable, Relocatable};
        pub struct VirtualMachine { pub trace: Vec<super::trace::trace_entry::TraceEntry>, pub rc: Option<(usize, usize)> }
        pub struct BuiltinRunner(pub usize, pub Option<usize>);
        impl BuiltinRunner {
            pub fn name(&self) -> &'static str { "range_check_builtin" }
            pub fn initial_stack(&self) -> Vec<MaybeRelocatable> { vec![] }
            pub fn get_memory_segment_addresses(&self) -> (usize, Option<usize>) { (self.0, self.1) }
        }
        impl VirtualMachine {
            pub fn new(_: bool) -> Self { Self { trace: vec![], rc: None } }
            pub fn add_memory_segment(&mut self) -> Relocatable { Relocatable }
            pub fn get_builtin_runners(&self) -> Vec<BuiltinRunner> { vec![] }
            pub fn load_data(&mut self, _: Relocatable, _: &Vec<MaybeRelocatable>) -> Result<Relocatable, super::errors::memory_errors::MemoryError> { Ok(Relocatable) }
            pub fn get_relocated_trace(&self) -> Result<&Vec<super::trace::trace_entry::TraceEntry>, super::errors::trace_errors::TraceError> { Ok(&self.trace) }
            pub fn get_range_check_builtin(&self) -> Result<BuiltinRunner, super::errors::vm_errors::VirtualMachineError> {
                self.rc.map(|(a, b)| BuiltinRunner(1, Some(b - a))).ok_or(super::errors::vm_errors::VirtualMachineError)
            }
            pub fn get_segment_size(&self, _: usize) -> Option<usize> { self.rc.map(|x| x.0 - 1) }
        }
    }
    pub mod runners { pub mod cairo_runner {
        use crate::types::{program::Program, relocatable::*};
        use crate::vm::vm_core::VirtualMachine;
        use crate::vm::errors::vm_errors::VirtualMachineError as E;
        use crate::serde::deserialize_program::BuiltinName;
        pub struct CairoRunner { pub relocated_memory: Vec<Option<crate::felt::Felt252>>, pub program: Program, pub program_base: Option<Relocatable> }
        pub struct CairoArg;
        impl From<MaybeRelocatable> for CairoArg { fn from(_: MaybeRelocatable) -> Self { CairoArg } }
        #[derive(Default)] pub struct RunResources;
        impl CairoRunner {
            pub fn new(_: &Program, _: &str, _: bool) -> Result<Self, E> { Err(E) }
            pub fn initialize_function_runner_cairo_1(&mut self, _: &mut VirtualMachine, _: &[BuiltinName]) -> Result<(), E> { Err(E) }
            pub fn get_program_builtins(&self) -> Vec<BuiltinName> { vec![] }
            pub fn run_from_entrypoint<H>(&mut self, _: usize, _: &[&CairoArg], _: &mut RunResources, _: bool, _: Option<usize>, _: &mut VirtualMachine, _: &mut H) -> Result<(), E> { Err(E) }
            pub fn relocate(&mut self, _: &mut VirtualMachine, _: bool) -> Result<(), E> { Ok(()) }
            pub fn get_program(&self) -> &Program { &self.program }
        }
    } }
}
pub mod types {
    pub mod program { #[derive(Clone)] pub struct Program(pub usize); impl Program { pub fn data_len(&self) -> usize { self.0 } } }
    pub mod relocatable {
        #[derive(Clone, Copy)] pub struct Relocatable;
        impl std::ops::Add<usize> for Relocatable { type Output = Result<Relocatable, crate::vm::errors::memory_errors::MemoryError>; fn add(self, _: usize) -> Self::Output { Ok(self) } }
        #[derive(Clone)] pub struct MaybeRelocatable;
        impl From<Relocatable> for MaybeRelocatable { fn from(_: Relocatable) -> Self { Self } }
        impl From<usize> for MaybeRelocatable { fn from(_: usize) -> Self { Self } }
    }
}
pub mod serde { pub mod deserialize_program { #[allow(non_camel_case_types)] #[derive(Clone)] pub enum BuiltinName { range_check } impl BuiltinName { pub fn name(&self) -> &'static str { "range_check_builtin" } } } }
pub mod hint_processor {
    pub mod builtin_hint_processor { pub mod builtin_hint_processor_definition { pub struct BuiltinHintProcessor; impl BuiltinHintProcessor { pub fn new_empty() -> Self { Self } } } }
    pub mod cairo_1_hint_processor { pub mod hint_processor { pub struct Cairo1HintProcessor; impl Cairo1HintProcessor { pub fn new<T>(_: &T) -> Self { Self } } } }
}
pub mod cairo_run {
    err!(EncodeTraceError);
    use crate::vm::{errors::cairo_run_errors::CairoRunError, runners::cairo_runner::CairoRunner, vm_core::VirtualMachine, trace::trace_entry::TraceEntry};
    pub struct CairoRunConfig<'a> { pub entrypoint: &'a str, pub trace_enabled: bool, pub relocate_mem: bool, pub layout: &'a str, pub proof_mode: bool, pub secure_run: Option<bool> }
    pub fn cairo_run<H>(p: &[u8], _: &CairoRunConfig, _: &mut H) -> Result<(CairoRunner, VirtualMachine), CairoRunError> {
        let mut w = p.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()) as usize);
        let mut next = || w.next().ok_or(CairoRunError);
        let len = next()?;
        let mut vm = VirtualMachine::new(true);
        for _ in 0..next()? { vm.trace.push(TraceEntry { pc: next()?, ap: next()?, fp: next()? }); }
        let mut relocated_memory = vec![];
        for _ in 0..next()? { let a = next()?; let mut v = [0; 32]; for i in 0..4 { v[8 * i..8 * i + 8].copy_from_slice(&next()?.to_le_bytes()); } if relocated_memory.len() <= a { relocated_memory.resize(a + 1, None); } relocated_memory[a] = Some(crate::felt::Felt252(v)); }
        if let (Ok(a), Ok(b)) = (next(), next()) { vm.rc = Some((a, b)); }
        Ok((CairoRunner { relocated_memory, program: crate::types::program::Program(len), program_base: None }, vm))
    }
}
