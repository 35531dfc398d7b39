pub mod error { #[derive(Debug)] pub enum EncodeError { Io { inner: std::io::Error, index: usize } } }
pub mod enc { pub mod write { pub trait Writer { fn write(&mut self, bytes: &[u8]) -> Result<(), crate::error::EncodeError>; } } }
