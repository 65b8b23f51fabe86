pub mod bank;
pub mod base;
