//! Runtime monitors; the programs in src/bin add the generated code.
pub mod modes;
pub mod run;
pub mod sup;
pub use fbm;
