//! The engine: loading a federated graph, reading operations and their variables.
mod coerce;
mod cost;
#[allow(dead_code)]
#[path = "../../h-compose/src/case.rs"]
mod case;
mod graph;
mod load;
mod mcp;
#[allow(dead_code)]
#[path = "../../h-compose/src/model.rs"]
mod model;
mod ops;
#[path = "../../h-compose/src/templates.rs"]
mod templates;
use ops::*;
use coerce::*;
use cost::*;
use graph::*;
use load::*;
use mcp::*;
use mcp::Watcher as EngineWatcher;

use engine_operation::{Operation, OperationContext, RawVariables, Variables};
use engine_schema::Schema;

fn ready<T>(f: impl Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        std::task::Poll::Pending => wrt::failed("building the schema does not finish"),
    }
}

fn load(sdl: &str) -> Result<Schema, Vec<String>> {
    ready(Schema::builder(sdl).build())
}

fn must_load(sdl: &str) -> Schema {
    match load(sdl) {
        Ok(s) => s,
        Err(e) => wrt::failed(&format!("the engine does not load the graph: {}\n{sdl}", e.join("; "))),
    }
}

fn messages(e: &engine_operation::Errors) -> String {
    e.items.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>().join("; ")
}

/// The value of the first argument of the first root field, if it has a value.
fn argument(schema: &Schema, operation: &Operation, variables: &Variables) -> Option<serde_json::Value> {
    let ctx = OperationContext { schema, operation };
    let field = ctx.root_selection_set().fields().next().unwrap();
    let a = field.as_data().unwrap().sorted_arguments().next()?;
    let v = a.value(variables);
    if v.is_undefined() {
        return None;
    }
    match <serde_json::Value as serde::Deserialize>::deserialize(v) {
        Ok(v) => Some(v),
        Err(e) => wrt::failed(&format!("the value of an argument cannot be read: {e}")),
    }
}

fn raw(name: &str, v: Option<serde_json::Value>) -> RawVariables {
    let mut m = serde_json::Map::new();
    if let Some(v) = v {
        m.insert(name.to_string(), v);
    }
    RawVariables::from_value(serde_json::Value::Object(m))
}

wrt::checks!(c47_variables, c47_literals, c47_objects, c47_nested, c47_usage, c47_defaults,
    c48_fields, c48_inline, c48_fragments, c48_variables, c48_documents, c48_limits,
    c49_weights, c49_arguments, c49_sizes, c49_large, c49_config, c50_hidden, c50_contract, c51_graphs, c51_text,
    c52_types, c52_fields, c52_documents, c52_text);
