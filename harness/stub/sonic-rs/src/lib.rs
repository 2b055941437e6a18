//! Stand-in for the JSON reader, which is not available here.
pub use serde_json::{from_slice, from_str, to_string, to_value, to_vec, Error, Result, Value};
