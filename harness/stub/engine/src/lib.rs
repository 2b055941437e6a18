//! Stand-in for the engine, which cannot be built here: its schema.
pub use engine_schema::Schema;
pub trait Runtime: Send + Sync + 'static {}
