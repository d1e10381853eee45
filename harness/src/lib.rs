pub mod gen;
pub mod keys;
pub mod mapm;
