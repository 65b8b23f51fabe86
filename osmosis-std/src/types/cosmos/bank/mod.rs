pub mod module;
pub mod v1beta1;
