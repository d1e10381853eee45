//! The choice-sequence driver without the map crates, for slices of monoruby.
#[path = "../../../harness/src/gen.rs"]
pub mod gen;
pub use crate::gen as drv;
pub mod keys {
    pub fn reset() {}
    pub fn leak_check() -> Result<(), String> {
        Ok(())
    }
}
