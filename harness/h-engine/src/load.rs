//! C51: the engine reads a composed graph as composition wrote it.
use super::*;
use crate::case::*;
use crate::model::*;
use crate::templates::*;
use async_graphql_parser::types::{Selection, SelectionSet};
use async_graphql_value::ConstValue;
use engine_schema::{EntityDefinition, FieldDefinition, FieldSet, ResolverDefinitionVariant, TypeDefinition};
use std::collections::{BTreeMap, BTreeSet};

pub fn value(v: &ConstValue) -> String {
    match v {
        ConstValue::Number(n) => format!("{:?}", n.as_f64()),
        ConstValue::List(l) => format!("[{}]", l.iter().map(value).collect::<Vec<_>>().join(",")),
        ConstValue::Object(o) => {
            let mut v: Vec<String> = o.iter().map(|(k, v)| format!("{k}:{}", value(v))).collect();
            v.sort();
            format!("{{{}}}", v.join(","))
        }
        v => v.to_string(),
    }
}

fn element(at: &str, e: &El, input: bool) -> String {
    // that an input is deprecated is not told
    let d: Vec<String> = if input { vec![] } else {  get(&e.dirs, "deprecated").iter().map(|d| d.str("reason").unwrap_or_default()).collect() };
    format!("{at}: {} = {:?} deprecated {d:?} \"{}\"", e.ty.as_ref().map(|t| t.text()).unwrap_or_default(), e.default.as_ref().map(value), e.desc.as_deref().unwrap_or_default())
}

/// What a client is told, of what is not hidden.
fn told(m: &M, h: &BTreeSet<String>) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for (n, t) in &m.types {
        if h.contains(n) || n.starts_with("join__") {
            continue;
        }
        if !ROOTS.contains(&n.as_str()) {
            v.insert(format!("{:?} {n} {} \"{}\"", t.kind, has(&t.dirs, "oneOf"), t.desc.as_deref().unwrap_or_default()));
        }
        for i in t.members.iter().filter(|i| !h.contains(*i)) {
            v.insert(format!("{n} has {i}"));
        }
        for i in t.implements.iter().filter(|i| !h.contains(*i)) {
            v.insert(format!("{n} implements {i}"));
        }
        for (k, e) in &t.values {
            if !h.contains(&format!("{n}.{k}")) {
                v.insert(element(&format!("value {n}.{k}"), e, false));
            }
        }
        for (k, f) in &t.fields {
            if h.contains(&format!("{n}.{k}")) {
                continue;
            }
            v.insert(element(&format!("{n}.{k}"), f, t.kind == K::Input));
            for (a, x) in &f.args {
                if !h.contains(&format!("{n}.{k}.{a}")) {
                    v.insert(element(&format!("{n}.{k}({a})"), x, true));
                }
            }
        }
    }
    v
}

/// The fields of a selection, as paths with arguments.
fn paths(s: &str) -> BTreeSet<String> {
    fn walk(set: &SelectionSet, at: &str, out: &mut BTreeSet<String>) {
        for s in &set.items {
            match &s.node {
                Selection::Field(f) => {
                    if f.node.name.node == "__typename" {
                        continue;
                    }
                    let mut a: Vec<String> = f.node.arguments.iter().map(|(n, v)| format!("{}:{}", n.node, v.node.clone().into_const().as_ref().map(value).unwrap_or_default())).collect();
                    a.sort();
                    let at = format!("{at}/{}({})", f.node.name.node, a.join(","));
                    walk(&f.node.selection_set.node, &at, out);
                    out.insert(at);
                }
                Selection::InlineFragment(f) => walk(&f.node.selection_set.node, at, out),
                _ => {}
            }
        }
    }
    let mut out = BTreeSet::new();
    if let Ok(doc) = async_graphql_parser::parse_query(format!("{{ {s} }}")) {
        if let async_graphql_parser::types::DocumentOperations::Single(o) = &doc.operations {
            walk(&o.node.selection_set.node, "", &mut out);
        }
    }
    out
}

fn field_set(s: FieldSet<'_>) -> BTreeSet<String> {
    fn walk(s: FieldSet<'_>, at: &str, out: &mut BTreeSet<String>) {
        for item in s.items() {
            let f = item.field();
            if f.definition().name() == "__typename" {
                continue;
            }
            let mut a: Vec<String> = f
                .sorted_arguments()
                .map(|a| format!("{}:{}", a.definition().name(), serde_json::to_value(a.value()).map(json).unwrap_or_default()))
                .collect();
            a.sort();
            let at = format!("{at}/{}({})", f.definition().name(), a.join(","));
            walk(item.subselection(), &at, out);
            out.insert(at);
        }
    }
    let mut out = BTreeSet::new();
    walk(s, "", &mut out);
    out
}

fn json(v: serde_json::Value) -> String {
    match v {
        serde_json::Value::Number(n) => format!("{:?}", n.as_f64()),
        v => v.to_string(),
    }
}

/// One subgraph's part in a field.
#[derive(Debug, PartialEq, Eq, Default)]
struct Part {
    ty: Option<String>,
    requires: BTreeSet<String>,
    provides: BTreeSet<String>,
}

/// param: the first and the last template
pub fn c51_graphs() {
    let (a, b) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let text = render(family(a + opt("template", b - a)));
    let c = case(&text);
    wrt::assume(c.subs.iter().all(|s| !s.m.dup));
    let Some(o) = &c.out else { return };
    let schema = match load(&o.fed_sdl) {
        Ok(s) => s,
        Err(e) => wrt::failed(&format!("the engine does not load the graph: {}\n{}", e.join("; "), c.text())),
    };
    wrt::reach(3);
    // what clients see
    let out = schema.to_sdl();
    wrt::observe("engine", out.as_bytes());
    // root types without visible fields have no notation
    match parse(&ROOTS.iter().fold(out.clone(), |s, r| s.replace(&format!("type {r} {{}}"), ""))) {
        Ok(m) => {
            let (got, want) = (told(&m, &BTreeSet::new()), told(&o.fed, &hidden(&o.fed)));
            let more: Vec<&String> = got.difference(&want).collect();
            let less: Vec<&String> = want.difference(&got).collect();
            c.ensure(more.is_empty() && less.is_empty(), || format!("the engine's schema has {more:?} and lacks {less:?}"));
        }
        Err(e) => c.ensure(told(&o.fed, &hidden(&o.fed)).is_empty(), || format!("the engine's schema does not parse: {e}\n{out}")),
    }
    // where fields come from
    let names: BTreeMap<String, String> = o.fed.types["join__Graph"].values.iter().map(|(k, v)| (k.clone(), get(&v.dirs, "join__graph")[0].str("name").unwrap())).collect();
    let mut had = false;
    for (n, t) in &o.fed.types {
        if n.starts_with("join__") || !matches!(t.kind, K::Object | K::Interface) {
            continue;
        }
        let mut of: BTreeSet<String> = BTreeSet::new();
        let mut keys: Vec<(String, BTreeSet<String>, bool)> = vec![];
        for d in get(&t.dirs, "join__type") {
            let g = names[&d.str("graph").unwrap()].clone();
            of.insert(g.clone());
            if let Some(k) = d.str("key") {
                keys.push((g, paths(&k), d.bool("resolvable") != Some(false)));
            }
        }
        let fields: Vec<FieldDefinition<'_>> = match schema.type_definition_by_name(n) {
            Some(TypeDefinition::Object(x)) => x.fields().collect(),
            Some(TypeDefinition::Interface(x)) => x.fields().collect(),
            _ => wrt::failed(&format!("{n} is not in the engine's schema\n{}", c.text())),
        };
        for f in fields {
            let Some(def) = t.fields.get(f.name()) else {
                c.ensure(f.name().starts_with("__"), || format!("{n}.{} is not in the graph", f.name()));
                continue;
            };
            let at = format!("{n}.{}", f.name());
            c.ensure(f.ty().to_string() == def.ty.as_ref().unwrap().text(), || format!("{at} has the type {}", f.ty()));
            let joins = get(&def.dirs, "join__field");
            if joins.iter().any(|d| d.str("overrideLabel").is_some()) {
                continue;
            }
            let mut want: BTreeMap<String, Part> = BTreeMap::new();
            for d in joins.iter().filter(|d| d.bool("external") != Some(true)) {
                if let Some(g) = d.str("graph") {
                    want.insert(
                        names[&g].clone(),
                        Part {
                            ty: d.str("type").filter(|t| *t != def.ty.as_ref().unwrap().text()),
                            requires: d.str("requires").map(|s| paths(&s)).unwrap_or_default(),
                            provides: d.str("provides").map(|s| paths(&s)).unwrap_or_default(),
                        },
                    );
                }
            }
            if joins.is_empty() {
                let all = if of.is_empty() { names.values().cloned().collect() } else { of.clone() };
                want.extend(all.into_iter().map(|g| (g, Part::default())));
            }
            let first: BTreeSet<String> = want.keys().cloned().collect();
            // what is part of a key is in the subgraph of that key
            let mut also = BTreeSet::new();
            for (kn, kt) in &o.fed.types {
                for d in get(&kt.dirs, "join__type") {
                    let Some(k) = d.str("key") else { continue };
                    if uses(&o.fed, kn, &k, n, f.name()) {
                        also.insert(names[&d.str("graph").unwrap()].clone());
                    }
                }
            }
            let all: BTreeSet<String> = first.union(&also).cloned().collect();
            let mut got: Vec<String> = f.exists_in_subgraphs().map(|s| s.name().to_string()).collect();
            got.sort();
            c.ensure(got == all.iter().cloned().collect::<Vec<_>>(), || format!("{at} must be in {all:?}, not {got:?}"));
            for s in f.exists_in_subgraphs() {
                let g = s.name();
                let empty = Part::default();
                let want = want.get(g).unwrap_or(&empty);
                let got = Part {
                    ty: f.subgraph_types().find(|t| t.subgraph_id == s.id()).map(|t| t.ty().to_string()),
                    requires: f.requires_for_subgraph(s.id()).map(|r| field_set(r.field_set())).unwrap_or_default(),
                    provides: f.provides_for_subgraph(s.id()).map(field_set).unwrap_or_default(),
                };
                c.ensure(got == *want || (want.ty.is_none() && got.ty.is_some() && !first.contains(g)), || format!("{at} in {g} must be {want:?}, not {got:?}"));
            }
            // how it can be had
            let mut roots = vec![];
            let mut entities = vec![];
            for r in f.resolvers() {
                match r.variant() {
                    ResolverDefinitionVariant::GraphqlRootField(_) => roots.push(r.subgraph().name().to_string()),
                    ResolverDefinitionVariant::GraphqlFederationEntity(e) => entities.push((r.subgraph().name().to_string(), field_set(e.key_fields()))),
                    _ => c.ensure(false, || format!("{at} has another resolver")),
                }
            }
            let root = ROOTS.contains(&n.as_str());
            roots.sort();
            let want: Vec<String> = if root { first.iter().cloned().collect() } else { vec![] };
            c.ensure(roots == want, || format!("{at} must be fetched directly from {want:?}, not {roots:?}"));
            for (g, k, resolvable) in &keys {
                let e = (g.clone(), k.clone());
                let part = k.iter().any(|p| p.starts_with(&format!("/{}(", f.name())) && !p[1..].contains('/'));
                let n = entities.iter().filter(|x| **x == e).count();
                let twice = keys.iter().filter(|x| x.0 == *g && x.1 == *k).count() > 1;
                if first.contains(g) && *resolvable && !part {
                    c.ensure(n == 1 || twice && n > 0, || format!("{at} must be fetched from {g} with {k:?}"));
                    had = true;
                } else if (!all.contains(g) || !*resolvable || part) && !twice {
                    c.ensure(n == 0, || format!("{at} cannot be fetched from {g} with {k:?}"));
                }
            }
            for e in &entities {
                c.ensure(keys.iter().any(|k| k.0 == e.0 && k.1 == e.1), || format!("{at} is fetched from {} with {:?}", e.0, e.1));
            }
        }
        // interfaces and who implements them
        if let Some(TypeDefinition::Interface(i)) = schema.type_definition_by_name(n) {
            let mut got: Vec<&str> = i.possible_types().map(|t| t.name()).collect();
            got.sort();
            let want: Vec<&str> = o.fed.types.iter().filter(|(_, t)| t.kind == K::Object && t.implements.contains(n)).map(|(n, _)| n.as_str()).collect();
            c.ensure(got == want, || format!("{n} must have {want:?}, not {got:?}"));
        }
        let _ = EntityDefinition::name;
    }
    for (n, t) in &o.fed.types {
        if let Some(TypeDefinition::Union(u)) = schema.type_definition_by_name(n) {
            let mut got: Vec<&str> = u.possible_types().map(|t| t.name()).collect();
            got.sort();
            let mut want: Vec<&str> = t.members.iter().map(|s| s.as_str()).collect();
            want.sort();
            c.ensure(got == want, || format!("{n} must have {want:?}, not {got:?}"));
        }
    }
    // the subgraphs
    let mut got: Vec<(String, String)> = schema.subgraphs().filter_map(|s| s.as_graphql().map(|g| (g.name().to_string(), g.url().to_string()))).collect();
    got.sort();
    let mut want: Vec<(String, String)> = names.values().map(|n| (n.clone(), "http://x/".to_string())).collect();
    want.sort();
    c.ensure(got == want, || format!("the engine has the subgraphs {got:?}"));
    if had {
        wrt::reach(4);
    }
}

/// Is the field part of the key `k` of the type `of`?
fn uses(m: &M, of: &str, k: &str, n: &str, f: &str) -> bool {
    fn walk(m: &M, ty: &str, set: &SelectionSet, n: &str, f: &str) -> bool {
        set.items.iter().any(|s| match &s.node {
            Selection::Field(x) => {
                let name = x.node.name.node.as_str();
                if ty == n && name == f {
                    return true;
                }
                match m.types.get(ty).and_then(|t| t.fields.get(name)) {
                    Some(e) => walk(m, &e.ty.as_ref().unwrap().name, &x.node.selection_set.node, n, f),
                    None => false,
                }
            }
            Selection::InlineFragment(x) => walk(m, x.node.type_condition.as_ref().map(|t| t.node.on.node.as_str()).unwrap_or(ty), &x.node.selection_set.node, n, f),
            _ => false,
        })
    }
    let Ok(doc) = async_graphql_parser::parse_query(format!("{{ {k} }}")) else { return false };
    match &doc.operations {
        async_graphql_parser::types::DocumentOperations::Single(o) => walk(m, of, &o.node.selection_set.node, n, f),
        _ => false,
    }
}

pub fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o += &format!("\\u{:04X}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub const CHARS: [&str; 18] = ["a", " ", "\"", "\\", "\n", "\t", "\u{7}", "\u{1b}", "\u{7f}", "\u{85}", "é", "€", "\"\"\"", "#", "{", "u0041", "\r", "$"];

/// Text in the graph is the text clients are told. param: the first and the last place, the length
pub fn c51_text() {
    let (a, b, n) = (wrt::param(0) as usize, wrt::param(1) as usize, wrt::param(2) as usize);
    let place = a + opt("place", b - a);
    let mut s = String::new();
    for i in 0..opt("length", n + 1) {
        if n == 1 && opt("any", 2) == 1 {
            // every character of Latin-1
            s.push(char::from_u32(wrt::pin(wrt::u8("char") as u64) as u32).unwrap());
            wrt::assume(s != "\0");
        } else {
            s += CHARS[opt(&format!("char{i}"), CHARS.len())];
        }
    }
    let sdl = TEXTS[place].replace('%', &quoted(&s));
    let schema = must_load(&sdl);
    let out = schema.to_sdl();
    wrt::observe("engine", out.as_bytes());
    let (want, got) = match (parse(&sdl), parse(&out)) {
        (Ok(w), Ok(g)) => (w, g),
        (Err(_), _) => {
            wrt::assume(false);
            return;
        }
        (_, Err(e)) => wrt::failed(&format!("the engine's schema does not parse: {e}\n{out}")),
    };
    let (got, want) = (told(&got, &BTreeSet::new()), told(&want, &BTreeSet::new()));
    wrt::ensure!(got == want, "the engine's schema has {:?} and lacks {:?}\n{sdl}\n{out}", got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>());
    wrt::reach(1);
}

pub const TEXTS: [&str; 8] = [
    "type Query { q: X } % type X { f: Int }",
    "type Query { q: X } type X { % f: Int }",
    "type Query { q: X } type X { f(% a: Int): Int }",
    "type Query { q: E } % enum E { % A }",
    "type Query { q(i: I): Int } % input I { % i: Int }",
    "type Query { q(s: S): U n: N } % scalar S % union U = X type X implements N { n: Int } % interface N { % n: Int }",
    "type Query { q(i: I): E @deprecated(reason: %) } enum E { A @deprecated(reason: %) } input I { i: Int @deprecated(reason: %) }",
    "type Query { q(a: String = %, b: [String!] = [%, \"x\"], c: I = { s: % }): Int } input I { s: String = % }",
];
