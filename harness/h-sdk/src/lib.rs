//! C32 (contracts), C33 (Postgres values), C40 (authorization decisions), C41 (data and variables).
mod auth;
mod contract;
mod data;
mod pg;
mod schema;
use auth::*;
use contract::*;
use data::*;
use pg::*;
use schema::*;

fn pick(name: &str, n: usize) -> usize {
    wrt::pin(wrt::choose(name, n as u8) as u64) as usize
}

fn option(name: &str) -> bool {
    pick(name, 2) == 1
}

wrt::checks! {
    c32_priorities, c32_contract,
    c33_integers, c33_floats, c33_text, c33_bytes, c33_shapes, c33_json, c33_query, c33_lists, c33_types, c33_casts,
    c40_query, c40_response, c40_output,
    c41_data, c41_response, c41_field, c41_variables,
    c46_schema,
}
