pub mod adapt;
pub mod engine;
pub mod exact;
pub mod gen;
pub mod rt;
pub mod numbers;
pub mod wk;
pub mod cnt;
