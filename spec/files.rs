//! The bytes written after a run, and what reading them back gives.
use crate::cairo::cairo_mem::CairoMemory;
use crate::cairo::errors::CairoImportError;
use crate::cairo::register_states::RegisterStates;
use crate::cairo::runner::vec_writer::VecWriter;
use crate::FE;

pub fn trace_bytes(t: &[cairo_vm::vm::trace::trace_entry::TraceEntry]) -> Vec<u8> {
    let mut bytes = Vec::<u8>::new();
    let mut w = VecWriter::new(&mut bytes);
    w.write_encoded_trace(t);
    bytes
}

pub fn memory_bytes(m: &[Option<FE>]) -> Vec<u8> {
    let mut bytes = Vec::<u8>::new();
    let mut w = VecWriter::new(&mut bytes);
    w.write_encoded_memory(m);
    bytes
}

pub fn trace(t: &[cairo_vm::vm::trace::trace_entry::TraceEntry]) -> Result<RegisterStates, CairoImportError> {
    RegisterStates::from_bytes_le(&trace_bytes(t))
}

pub fn memory(m: &[Option<FE>]) -> Result<CairoMemory, CairoImportError> {
    CairoMemory::from_bytes_le(&memory_bytes(m))
}

pub fn appended(a: &[u8], b: &[u8], c: &[u8]) -> Vec<u8> {
    let mut bytes = a.to_vec();
    let mut w = VecWriter::new(&mut bytes);
    w.write(b).unwrap();
    w.write(c).unwrap();
    bytes
}
