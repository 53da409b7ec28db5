//! The runtime as a static library, for programs that are linked with it.
pub use qir_backend::*;
