//! C52: what the MCP tools show of the schema.
use super::*;
use crate::case::{opt, render};
use crate::graph::hidden;
use crate::load::{CHARS, TEXTS, quoted, value};
use crate::model::*;
use rmcp::model::{CallToolResult, ToolAnnotations};
use std::borrow::Cow;
use std::collections::BTreeSet;
use std::sync::Arc;

// The tools themselves; what surrounds them (the MCP server, the search index, a running engine) is stood in for.
#[allow(dead_code)]
#[path = "../../../crates/mcp/src/tools/introspect.rs"]
mod introspect;
#[allow(dead_code)]
#[path = "../../../crates/mcp/src/tools/sdl/mod.rs"]
mod sdl;

pub(crate) struct SdlAndErrors {
    sdl: String,
    errors: Vec<String>,
}

impl From<SdlAndErrors> for CallToolResult {
    fn from(s: SdlAndErrors) -> Self {
        CallToolResult { text: s.sdl, errors: s.errors }
    }
}

#[allow(dead_code)]
pub(crate) trait Tool {
    type Parameters: serde::de::DeserializeOwned;
    fn name() -> &'static str;
    fn description(&self) -> Cow<'_, str>;
    fn call(&self, parts: http::request::Parts, parameters: Self::Parameters) -> impl Future<Output = anyhow::Result<CallToolResult>>;
    fn annotations(&self) -> ToolAnnotations;
}

pub(crate) struct SearchTool<R>(std::marker::PhantomData<R>);

#[allow(dead_code)]
impl<R> SearchTool<R> {
    pub fn name() -> &'static str {
        "search"
    }
}

pub struct Watcher<R>(Arc<Running<R>>);

impl<R> Clone for Watcher<R> {
    fn clone(&self) -> Self {
        Watcher(self.0.clone())
    }
}

pub struct Running<R>(Arc<Schema>, std::marker::PhantomData<R>);

impl<R> Watcher<R> {
    pub fn borrow(&self) -> &Arc<Running<R>> {
        &self.0
    }
}

impl<R> Running<R> {
    pub async fn get_schema(&self, _: &http::request::Parts) -> Result<Arc<Schema>, Cow<'static, str>> {
        Ok(self.0.clone())
    }
}

struct Idle;
impl engine::Runtime for Idle {}

fn introspected(schema: &Arc<Schema>, types: &[&str]) -> CallToolResult {
    let watcher: Watcher<Idle> = Watcher(Arc::new(Running(schema.clone(), std::marker::PhantomData)));
    let parameters = serde_json::from_value(serde_json::json!({ "types": types })).unwrap();
    match ready(introspect::IntrospectTool::new(&watcher).call(http::Request::new(()).into_parts().0, parameters)) {
        Ok(r) => r,
        Err(e) => wrt::failed(&format!("introspection fails: {e}")),
    }
}

/// The words of a description: how it is laid out is not part of it.
fn words(e: Option<&str>) -> String {
    e.unwrap_or_default().split_whitespace().collect::<Vec<_>>().join(" ")
}

fn element(at: &str, e: &El, input: bool) -> String {
    format!("{at}: {} = {:?} {} \"{}\"", e.ty.as_ref().map(|t| t.text()).unwrap_or_default(), e.default.as_ref().map(value), !input && has(&e.dirs, "deprecated"), words(e.desc.as_deref()))
}

/// What is told of a type, besides the interfaces it implements.
fn of_type(m: &M, n: &str, h: &BTreeSet<String>) -> BTreeSet<String> {
    let t = &m.types[n];
    let mut v = BTreeSet::new();
    v.insert(format!("{:?} {} \"{}\"", t.kind, has(&t.dirs, "oneOf"), words(t.desc.as_deref())));
    for i in t.members.iter().filter(|i| !h.contains(*i)) {
        v.insert(format!("has {i}"));
    }
    for (k, e) in &t.values {
        if !h.contains(&format!("{n}.{k}")) {
            v.insert(element(&format!("value {k}"), e, false));
        }
    }
    for (k, f) in &t.fields {
        // the introspection fields may be shown or not
        if h.contains(&format!("{n}.{k}")) || k.starts_with("__") {
            continue;
        }
        v.insert(element(k, f, t.kind == K::Input));
        for (a, x) in &f.args {
            if !h.contains(&format!("{n}.{k}.{a}")) {
                v.insert(element(&format!("{k}({a})"), x, true));
            }
        }
    }
    v
}

/// `shown` is part of the schema `m` of which `h` is hidden: every type it defines is there with all that is visible
/// of it, or, when it is a root type and a part of its fields was asked for, with these (`some`).
fn faithful(shown: &str, m: &M, h: &BTreeSet<String>, some: &[(&str, &str)]) -> M {
    wrt::observe("shown", shown.as_bytes());
    // types without visible fields have no notation
    let text = shown.replace("{\n}", "");
    let got = match if text.is_empty() { Ok(M::default()) } else { parse(&text) } {
        Ok(g) => g,
        Err(e) => wrt::failed(&format!("what is shown does not parse: {e}\n{shown}")),
    };
    let none = BTreeSet::new();
    wrt::ensure!(!got.dup, "something is shown twice\n{shown}");
    for (n, t) in &got.types {
        if n.starts_with("__") {
            continue;
        }
        wrt::ensure!(m.types.contains_key(n), "the type {n} is shown but not part of the schema\n{shown}");
        wrt::ensure!(!h.contains(n), "the hidden type {n} is shown\n{shown}");
        for i in &t.implements {
            wrt::ensure!(m.types[n].implements.contains(i) && !h.contains(i), "{n} implements {i}\n{shown}");
        }
        let (g, mut w) = (of_type(&got, n, &none), of_type(m, n, h));
        let wanted: Vec<&str> = some.iter().filter(|s| s.0 == n).map(|s| s.1).collect();
        if ROOTS.contains(&n.as_str()) && !some.is_empty() && !wanted.is_empty() {
            // only these fields
            w.retain(|l| !l.contains(':') || wanted.iter().any(|f| l.starts_with(&format!("{f}:")) || l.starts_with(&format!("{f}("))));
        }
        wrt::ensure!(
            g == w,
            "{n} is shown with {:?} and without {:?}\n{shown}",
            g.difference(&w).collect::<Vec<_>>(),
            w.difference(&g).collect::<Vec<_>>()
        );
    }
    got
}

const BUILT_IN: [&str; 6] = ["String", "Boolean", "Int", "Float", "ID", "JSON"];

/// Types are introspected. param(0): how many elements are @inaccessible
pub fn c52_types() {
    let (sdl, _) = graph::marked();
    let m = graph::model(&sdl);
    let h = hidden(&m);
    let schema = Arc::new(must_load(&sdl));
    let names: Vec<&str> = m.types.keys().map(|n| n.as_str()).chain(["Nope", "ID"]).collect();
    for (i, a) in names.iter().enumerate() {
        let b = names[(i * 7 + 3) % names.len()];
        let asked = if i % 2 == 0 { vec![*a] } else { vec![*a, b] };
        let r = introspected(&schema, &asked);
        let there = |n: &&str| BUILT_IN.contains(n) || (m.types.contains_key(*n) && !h.contains(*n));
        let want: Vec<String> = asked.iter().filter(|n| !there(n)).map(|n| format!("Type '{n}' not found")).collect();
        wrt::ensure!(r.errors == want, "asked for {asked:?}: {:?} instead of {want:?}\n{sdl}", r.errors);
        let got = faithful(&r.text, &m, &h, &[]);
        for n in asked.iter().filter(|n| there(n) && !BUILT_IN.contains(n)) {
            wrt::ensure!(got.types.contains_key(*n), "asked for {asked:?}, {n} is not shown\n{sdl}\n{}", r.text);
            // with what is needed to give arguments, and every scalar
            for (k, f) in m.types[*n].fields.iter().filter(|(k, _)| m.types[*n].kind != K::Input && !h.contains(&format!("{n}.{k}"))) {
                let args = f.args.iter().filter(|(a, _)| !h.contains(&format!("{n}.{k}.{a}"))).map(|(_, x)| &x.ty.as_ref().unwrap().name);
                let scalar = Some(&f.ty.as_ref().unwrap().name).filter(|t| m.types.get(*t).is_some_and(|t| t.kind == K::Scalar));
                for t in args.chain(scalar).filter(|t| !BUILT_IN.contains(&t.as_str())) {
                    wrt::ensure!(got.types.contains_key(t) || r.text.len() > 2048, "asked for {asked:?}, {t} is not shown\n{sdl}\n{}", r.text);
                }
            }
        }
        if !want.is_empty() && h.contains(asked[0]) {
            wrt::reach(2);
        }
    }
    wrt::reach(1);
}

/// Fields are found, and shown with what is around them. param(0): how many elements are @inaccessible
pub fn c52_fields() {
    let (sdl, _) = graph::marked();
    let m = graph::model(&sdl);
    let h = hidden(&m);
    let schema = must_load(&sdl);
    let fields: Vec<(&str, &str)> = m
        .types
        .iter()
        .filter(|(n, t)| matches!(t.kind, K::Object | K::Interface) && !h.contains(*n))
        .flat_map(|(n, t)| t.fields.keys().map(|k| (n.as_str(), k.as_str())))
        .filter(|(n, k)| !h.contains(&format!("{n}.{k}")))
        .collect();
    for i in 0..fields.len() {
        let mut asked = vec![fields[i], fields[(i * 5 + 2) % fields.len()], fields[(i * 3 + 1) % fields.len()]];
        asked.truncate(1 + i % 3);
        asked.sort();
        asked.dedup();
        let ids = asked
            .iter()
            .enumerate()
            .map(|(k, (n, f))| {
                let def = match schema.type_definition_by_name(n) {
                    Some(engine_schema::TypeDefinition::Object(o)) => o.find_field_by_name(f),
                    Some(engine_schema::TypeDefinition::Interface(o)) => o.find_field_by_name(f),
                    _ => None,
                };
                (def.unwrap().id.into(), [1.7f32, 0.1, 3.0][k])
            })
            .collect();
        let text = sdl::PartialSdl {
            search_tokens: vec![["t", "f", "zz"][i % 3].to_string()],
            max_depth: [3, 0, 1, 2][i % 4],
            max_size_for_extra_content: [8192, 0, 300][i / 4 % 3],
            site_ids_and_score: ids,
        }
        .generate(&schema);
        let got = faithful(&text, &m, &h, &asked);
        for (n, f) in &asked {
            wrt::ensure!(got.types.get(*n).is_some_and(|t| t.fields.contains_key(*f)), "asked for {asked:?}, {n}.{f} is not shown\n{sdl}\n{text}");
        }
    }
    wrt::reach(1);
}

const DOCS: [&str; 3] = [
    "type Query { q<|(a: Int)|(a: Int!, b: [Float] = [1.5, null], c: String = 'x')|('of a' a: I = {x: 1, e: A})>: X<|! @deprecated|@deprecated(reason: 'r')> } <|'one line '|'''\n two \n\n  lines\n'''> type X { f: Int <|'a' g: [E!]!> } enum E { <|'v'> A B <|@deprecated> } input I <|@oneOf> { x: Int<| = 3> <|'e'> e: E<| = B> }",
    "type Query { q(l: L i: I!): S u: U } scalar S <|'d'> scalar L union U = <X|X \\ Y|Y \\ X> type X { x: L } type Y { y: [S!] } input I { l: L<! = 1|> s: [S!]<|!> i: [I!]<| = []> }",
    "type Query { n: N m: M } <|'n'> interface N { id: ID } interface M implements N { id: ID m(x: Float = 1e3): M } type T implements <N|N & M> { id: ID m(x: Float = 1e3): M } type U implements N { id: ID! } type Mutation { n(id: ID = 'x'): N<|!> } type Subscription { s(x: Boolean = true): T }",
];

/// Every kind of definition. param(0): the document
pub fn c52_documents() {
    let sdl = render(DOCS[wrt::param(0) as usize]);
    let m = graph::model(&sdl);
    // (a default value of a @oneOf input may have two fields)
    let Ok(schema) = load(&sdl) else {
        wrt::assume(!sdl.contains("@oneOf"));
        return;
    };
    let schema = Arc::new(schema);
    for n in m.types.keys() {
        let r = introspected(&schema, &[n]);
        wrt::ensure!(r.errors.is_empty(), "{n}: {:?}\n{sdl}", r.errors);
        let got = faithful(&r.text, &m, &BTreeSet::new(), &[]);
        wrt::ensure!(got.types.contains_key(n), "{n} is not shown\n{sdl}\n{}", r.text);
    }
    wrt::reach(1);
}

/// Texts of all kinds. param: the first and the last place, the length
pub fn c52_text() {
    let (a, b, n) = (wrt::param(0) as usize, wrt::param(1) as usize, wrt::param(2) as usize);
    let place = a + opt("place", b - a);
    let mut s = String::new();
    for i in 0..opt("length", n + 1) {
        s += CHARS[opt(&format!("char{i}"), CHARS.len())];
    }
    let sdl = TEXTS[place].replace('%', &quoted(&s));
    let schema = Arc::new(must_load(&sdl));
    let Ok(m) = parse(&sdl) else {
        wrt::assume(false);
        return;
    };
    for n in m.types.keys() {
        let r = introspected(&schema, &[n]);
        faithful(&r.text, &m, &BTreeSet::new(), &[]);
    }
    wrt::reach(1);
}
