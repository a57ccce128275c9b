//! Signature stub of `ruff_python_stdlib`. Never executed.
pub mod sys {
    pub fn is_builtin_module(_minor_version: u8, _module: &str) -> bool { unimplemented!() }
    pub fn is_known_standard_library(_minor_version: u8, _module: &str) -> bool { unimplemented!() }
}
pub mod identifiers { pub fn is_identifier(_name: &str) -> bool { unimplemented!() } }
