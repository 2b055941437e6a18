//! C50: what @inaccessible hides.
use super::*;
use engine_schema::{FieldDefinition, TypeDefinition};
use crate::model::*;
use std::collections::BTreeSet;

/// What is hidden: types, their fields and enum values ("T.f"), arguments ("T.f.a").
pub fn hidden(m: &M) -> BTreeSet<String> {
    let mut h = hidden_by_hand(m);
    loop {
        let before = h.len();
        for (n, t) in &m.types {
            let empty = match t.kind {
                K::Object | K::Interface | K::Input => t.fields.keys().all(|k| h.contains(&format!("{n}.{k}"))),
                K::Enum => t.values.keys().all(|k| h.contains(&format!("{n}.{k}"))),
                K::Union => t.members.iter().all(|k| h.contains(k)),
                K::Scalar => false,
            };
            // root types are never hidden, even without anything visible
            if empty && !ROOTS.contains(&n.as_str()) {
                h.insert(n.clone());
            }
            for (k, f) in &t.fields {
                let at = format!("{n}.{k}");
                let ty = f.ty.as_ref().unwrap();
                if h.contains(&ty.name) {
                    h.insert(at.clone());
                }
                // an input that must be given but is hidden hides what it belongs to
                if t.kind == K::Input && h.contains(&at) && ty.required() && f.default.is_none() {
                    h.insert(n.clone());
                }
                for (a, x) in &f.args {
                    let ty = x.ty.as_ref().unwrap();
                    if h.contains(&ty.name) {
                        h.insert(format!("{at}.{a}"));
                    }
                    if h.contains(&format!("{at}.{a}")) && ty.required() && x.default.is_none() {
                        h.insert(at.clone());
                    }
                }
            }
        }
        if h.len() == before {
            return h;
        }
    }
}

/// The lines that describe what is visible.
pub fn visible(m: &M, h: &BTreeSet<String>) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for (n, t) in &m.types {
        if h.contains(n) {
            continue;
        }
        if !ROOTS.contains(&n.as_str()) {
            v.insert(format!("{:?} {n}", t.kind));
        }
        for i in &t.implements {
            if !h.contains(i) {
                v.insert(format!("{n} implements {i}"));
            }
        }
        for i in &t.members {
            if !h.contains(i) {
                v.insert(format!("{n} has member {i}"));
            }
        }
        for k in t.values.keys() {
            if !h.contains(&format!("{n}.{k}")) {
                v.insert(format!("{n} has value {k}"));
            }
        }
        for (k, f) in &t.fields {
            let at = format!("{n}.{k}");
            if h.contains(&at) {
                continue;
            }
            v.insert(format!("{at}: {}", f.ty.as_ref().unwrap().text()));
            for (a, x) in &f.args {
                if !h.contains(&format!("{at}.{a}")) {
                    v.insert(format!("{at}.{a}: {}", x.ty.as_ref().unwrap().text()));
                }
            }
        }
    }
    v
}

const PLACES: &str = "type Query { a:E # b(x:E # y:[J!] # r:Sc):U # c:N # d(r:E! # o:Int):T # s:Sc # i(j:K!):Int # o:Int }
type Mutation { m(k:K! #):T # n(f:[F!]! #):Int # }
interface N # { id:ID # n:N # }
interface I implements N # { id:ID # n:N # }
type T implements N # { id:ID # n:N # e:[E!] # u:V # }
type W implements N & I # { id:ID # n:N # w:Sc # }
type X # { f:F # }
union U # = T|W
union V # = X|W
enum E # { P # Q # }
enum F # { R # }
input J # { e:E # k:K # f:F # }
input K # { f:F! # x:Int # l:L # }
input L # { k:K # e:E! # }
scalar Sc #
type Far { z: Far e: E }
input Away { e: E }
";

/// Operations, their variables, and what must be visible for them to be valid.
const PROBES: &[(&str, Option<&str>, &str)] = &[
    ("{ o }", None, "Query.o"),
    ("{ a s }", None, "Query.a Query.s"),
    ("{ b(x: P) { __typename } }", None, "Query.b Query.b.x E.P"),
    ("{ b(y: [{ e: Q }]) { __typename } }", None, "Query.b Query.b.y J.e E.Q"),
    ("{ b(y: [{ k: { f: R } }]) { __typename } }", None, "Query.b Query.b.y J.k K.f F.R"),
    ("{ b { ... on T { id } } }", None, "Query.b T T.id"),
    ("{ b { ... { ...w } } } fragment w on W { w }", None, "Query.b W W.w"),
    ("{ c { id } }", None, "Query.c N.id"),
    ("{ c { ... on I { n { id } } } }", None, "Query.c I I.n N.id"),
    ("{ c { ... on T { u { ... on X { f } } } } }", None, "Query.c T T.u X X.f"),
    ("query($x: E) { b(x: $x) { __typename } }", Some("{\"x\":\"P\"}"), "Query.b Query.b.x E.P"),
    ("query($y: [J!]) { b(y: $y) { __typename } }", Some("{\"y\":[{\"k\":{\"f\":\"R\",\"l\":{\"e\":\"Q\"}}}]}"), "Query.b Query.b.y J.k K.f K.l L.e E.Q F.R"),
    ("query($k: K!) { i(j: $k) }", Some("{\"k\":{\"f\":\"R\",\"x\":1}}"), "Query.i Query.i.j K.f K.x F.R"),
    ("mutation { m(k: { f: R }) { id } }", None, "Mutation.m Mutation.m.k K.f F.R T.id"),
    ("mutation { n(f: [R]) }", None, "Mutation.n Mutation.n.f F.R"),
];

/// Any few elements of the graph marked. param(0): how many
pub fn marked() -> (String, usize) {
    let n = PLACES.matches('#').count();
    let count = wrt::param(0);
    let mut at = vec![];
    for i in 0..count {
        let p = wrt::pin(wrt::choose(&format!("place{i}"), n as u8) as u64) as usize;
        if at.last().is_some_and(|l| *l >= p) {
            wrt::assume(false);
        }
        at.push(p);
    }
    let mut sdl = String::new();
    for (i, part) in PLACES.split('#').enumerate() {
        if i > 0 && at.contains(&(i - 1)) {
            sdl.push_str("@inaccessible");
        }
        sdl.push_str(part);
    }
    (sdl, at.len())
}

/// Any few elements are @inaccessible. param(0): how many
pub fn c50_hidden() {
    let (sdl, n) = marked();
    let m = model(&sdl);
    check(&sdl, &m, &hidden(&m), must_load(&sdl));
    wrt::reach(1);
    if hidden(&m).len() > n {
        wrt::reach(2);
    }
}

/// A contract hides the same as @inaccessible does. param(0): how many elements it hides
pub fn c50_contract() {
    let (sdl, n) = marked();
    let m = model(&sdl);
    let h = hidden(&m);
    let reachable = wrt::flag("reachable");
    let mut schema = must_load(&sdl.replace("@inaccessible", "")).into_mutable();
    let mut x = schema.new_inaccessible();
    for (n, t) in &m.types {
        let Some(ty) = schema.type_definition_by_name(n) else { wrt::failed(&format!("{n} is not in the schema")) };
        let it = has(&t.dirs, "inaccessible");
        let fields: Vec<FieldDefinition<'_>> = match ty {
            TypeDefinition::Object(o) => {
                x.object_definitions.set(o.id, it);
                o.fields().collect()
            }
            TypeDefinition::Interface(o) => {
                x.interface_definitions.set(o.id, it);
                o.fields().collect()
            }
            TypeDefinition::Union(o) => {
                x.union_definitions.set(o.id, it);
                vec![]
            }
            TypeDefinition::Scalar(o) => {
                x.scalar_definitions.set(o.id, it);
                vec![]
            }
            TypeDefinition::Enum(o) => {
                x.enum_definitions.set(o.id, it);
                for v in o.values() {
                    x.enum_values.set(v.id, has(&t.values[v.name()].dirs, "inaccessible"));
                }
                vec![]
            }
            TypeDefinition::InputObject(o) => {
                x.input_object_definitions.set(o.id, it);
                for v in o.input_fields() {
                    x.input_value_definitions.set(v.id, has(&t.fields[v.name()].dirs, "inaccessible"));
                }
                vec![]
            }
        };
        for f in fields {
            let Some(def) = t.fields.get(f.name()) else { continue };
            x.field_definitions.set(f.id, has(&def.dirs, "inaccessible"));
            for a in f.arguments() {
                x.input_value_definitions.set(a.id, has(&def.args[a.name()].dirs, "inaccessible"));
            }
        }
    }
    schema.update_inaccessible(x);
    let schema = schema.finalize(reachable);
    if !reachable {
        check(&sdl, &m, &h, schema);
        wrt::reach(1);
    } else {
        // what can be reached in the result is unchanged, and nothing that was out of reach before is shown
        let shown = visible(&model(&out(&schema)), &BTreeSet::new());
        let all = visible(&m, &h);
        let reach = reached(&m, &h);
        let before = reached(&m, &hidden_by_hand(&m));
        let of = |l: &str| l.trim_start_matches("Object ").trim_start_matches("Interface ").trim_start_matches("Union ").trim_start_matches("Enum ").trim_start_matches("Input ").trim_start_matches("Scalar ").split([' ', '.', ':']).next().unwrap().to_string();
        for l in &shown {
            wrt::ensure!(all.contains(l), "a contract on reachable types shows {l} that must be hidden: {sdl}");
            wrt::ensure!(before.contains(&of(l)), "a contract on reachable types shows {l} that cannot be reached: {sdl}");
        }
        for l in &all {
            wrt::ensure!(!reach.contains(&of(l)) || shown.contains(l), "a contract on reachable types hides {l} that can be reached: {sdl}");
        }
        if before.len() < m.types.len() {
            wrt::reach(3);
        }
    }
    if h.len() > n {
        wrt::reach(2);
    }
}

/// Only what is marked, not what follows from it.
fn hidden_by_hand(m: &M) -> BTreeSet<String> {
    let marked = |d: &[Dir]| has(d, "inaccessible");
    let mut h = BTreeSet::new();
    for (n, t) in &m.types {
        if marked(&t.dirs) && !ROOTS.contains(&n.as_str()) {
            h.insert(n.clone());
        }
        for (k, f) in t.fields.iter().chain(&t.values) {
            if marked(&f.dirs) {
                h.insert(format!("{n}.{k}"));
            }
            for (a, x) in &f.args {
                if marked(&x.dirs) {
                    h.insert(format!("{n}.{k}.{a}"));
                }
            }
        }
    }
    h
}

/// The types an operation can come across.
fn reached(m: &M, h: &BTreeSet<String>) -> BTreeSet<String> {
    let mut seen = BTreeSet::new();
    let mut todo = vec!["Query".to_string(), "Mutation".into()];
    while let Some(n) = todo.pop() {
        if h.contains(&n) || !seen.insert(n.clone()) {
            continue;
        }
        let Some(t) = m.types.get(&n) else { continue };
        for (k, f) in &t.fields {
            let at = format!("{n}.{k}");
            if h.contains(&at) {
                continue;
            }
            todo.push(f.ty.as_ref().unwrap().name.clone());
            for (a, x) in &f.args {
                if !h.contains(&format!("{at}.{a}")) {
                    todo.push(x.ty.as_ref().unwrap().name.clone());
                }
            }
        }
        todo.extend(t.implements.iter().chain(&t.members).cloned());
        todo.extend(m.types.iter().filter(|(_, o)| o.implements.contains(&n) && o.kind == K::Object).map(|(n, _)| n.clone()));
    }
    seen.retain(|n| m.types.contains_key(n));
    seen
}

pub fn model(sdl: &str) -> M {
    match parse(sdl) {
        Ok(m) => m,
        Err(e) => wrt::failed(&format!("what is visible does not parse: {e}\n{sdl}")),
    }
}

/// The visible schema; root types without visible fields have no notation.
fn out(schema: &Schema) -> String {
    schema.to_sdl().replace("type Query {}", "").replace("type Mutation {}", "")
}

fn check(sdl: &str, m: &M, h: &BTreeSet<String>, schema: Schema) {
    let want = visible(m, h);
    let got = visible(&model(&out(&schema)), &BTreeSet::new());
    let diff = |a: &BTreeSet<String>, b: &BTreeSet<String>| a.difference(b).cloned().collect::<Vec<_>>().join(", ");
    wrt::ensure!(got == want, "this is shown but must be hidden: {}; this is hidden but must be shown: {}; with {sdl}", diff(&got, &want), diff(&want, &got));
    // operations see the same
    for (doc, variables, needs) in PROBES {
        let want = needs.split(' ').all(|n| !h.contains(n));
        let got = match Operation::parse(&schema, None, doc) {
            Err(_) => false,
            Ok(op) => match variables {
                None => true,
                Some(v) => Variables::bind(&schema, &op, RawVariables::from_value(serde_json::from_str(v).unwrap())).is_ok(),
            },
        };
        wrt::ensure!(got == want, "with {sdl} the operation {doc} is {}", if got { "accepted" } else { "rejected" });
    }
}
