pub mod casm_contract_class {
    #[derive(Clone)] pub struct CasmContractClass { pub hints: Vec<u8> }
    impl TryFrom<CasmContractClass> for cairo_vm::types::program::Program { type Error = String; fn try_from(_: CasmContractClass) -> Result<Self, String> { Err(String::new()) } }
}
