pub mod query;
pub mod v1beta1;
