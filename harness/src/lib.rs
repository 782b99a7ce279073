pub mod engine;
pub mod ins;
pub mod props;
pub mod spec;
