pub mod cosmos;
