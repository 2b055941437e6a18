//! C45: the directives of the composite schemas specification.
use crate::case::*;
use crate::model::*;
use crate::{merged, same_shape, sharing};
use graphql_composition::diagnostics::Severity;
use graphql_composition::{FederatedGraph, Subgraphs, compose, render_api_sdl};
use std::collections::{BTreeMap, BTreeSet};

const MARKS: [&str; 5] = ["lookup", "derive", "internal", "require", "is"];

/// (directive, subgraph, selection)
type Mark = (String, String, Option<String>);

/// What the subgraphs say.
fn said<'a>(l: impl Iterator<Item = (&'a Sub, &'a [Dir])>) -> BTreeSet<Mark> {
    let mut v = BTreeSet::new();
    for (s, dirs) in l {
        for d in dirs.iter().filter(|d| MARKS.contains(&d.name.as_str())) {
            v.insert((d.name.clone(), s.graph(), d.str("field")));
        }
    }
    v
}

/// What the composed graph says.
fn recorded(dirs: &[Dir]) -> Vec<Mark> {
    let mut v: Vec<Mark> = dirs.iter().filter_map(|d| Some((d.name.strip_prefix("composite__")?.to_string(), d.str("graph")?, d.str("field")))).collect();
    v.sort();
    v
}

fn internal(d: &[Dir]) -> bool {
    has(d, "internal")
}

/// Every mark is recorded for its subgraph, on its element, and decides what the API schema shows.
fn marks_oracle(c: &Case) {
    let Some(o) = &c.out else { return };
    let is = |want: BTreeSet<Mark>, got: &[Dir], what: &str| {
        let (want, got): (Vec<_>, _) = (want.into_iter().collect(), recorded(got));
        c.ensure(want == got, || format!("{what} must have {want:?}, has {got:?}"));
    };
    for n in c.names() {
        let defs = c.defs(&n);
        let Some(t) = o.fed.types.get(&n) else {
            c.ensure(false, || format!("{n} is not in the composed graph"));
            continue;
        };
        is(said(defs.iter().map(|(s, t)| (*s, &t.dirs[..]))), &t.dirs, &n);
        // there are no entity resolvers in a composite schema
        for d in get(&t.dirs, "join__type").iter().filter(|d| d.args.contains_key("key")) {
            let by = defs.iter().find(|x| Some(x.0.graph()) == d.str("graph"));
            let composite = by.is_some_and(|(s, _)| s.sdl.starts_with(COMPOSITE));
            c.ensure(!composite || d.bool("resolvable") == Some(false), || format!("a key of {n} is resolvable"));
        }
        let shown = o.api.types.get(&n);
        let all_internal = defs.iter().all(|d| internal(&d.1.dirs));
        let mut left = 0;
        for (f, defs) in c.fields(&n) {
            let Some(e) = t.fields.get(&f) else {
                c.ensure(false, || format!("{n}.{f} is not in the composed graph"));
                continue;
            };
            is(said(defs.iter().map(|(s, _, e)| (*s, &e.dirs[..]))), &e.dirs, &format!("{n}.{f}"));
            for (a, x) in &e.args {
                is(said(defs.iter().filter_map(|(s, _, e)| Some((*s, &e.args.get(a)?.dirs[..])))), &x.dirs, &format!("{n}.{f}({a}:)"));
            }
            // who still provides the field
            let over = |s: &Sub| defs.iter().any(|d| get(&d.2.dirs, "override").first().is_some_and(|x| x.str("from").as_ref() == Some(&s.name) && !x.args.contains_key("label")));
            let hide = defs.iter().filter(|d| !over(d.0)).all(|d| internal(&d.2.dirs));
            if all_internal {
                continue;
            }
            left += !hide as usize;
            let api = shown.and_then(|t| t.fields.get(&f));
            c.ensure(api.is_some() != hide, || format!("{n}.{f} must{} be in the API schema", if hide { " not" } else { "" }));
            let Some(api) = api else { continue };
            for (a, x) in &e.args {
                let required = get(&x.dirs, "composite__require").len() > 0;
                c.ensure(api.args.contains_key(a) != required, || format!("{n}.{f}({a}:) must{} be in the API schema", if required { " not" } else { "" }));
            }
            c.ensure(api.args.keys().all(|a| e.args.contains_key(a)), || format!("{n}.{f} has more arguments in the API schema"));
        }
        c.ensure(shown.is_some() == (!all_internal && left > 0), || format!("{n} must{} be in the API schema", if shown.is_some() { " not" } else { "" }));
    }
    c.ensure(!o.api_sdl.contains("composite__") && !MARKS.iter().any(|m| o.api_sdl.contains(&format!("@{m}"))), || "the API schema shows composition directives".into());
    // also once the graph is loaded
    match FederatedGraph::from_sdl(&o.fed_sdl) {
        Ok(g) => {
            let again = render_api_sdl(&g);
            c.ensure(again == o.api_sdl, || format!("the API SDL changes when the graph is loaded, to\n{again}"));
        }
        Err(e) => c.ensure(false, || format!("the federated SDL does not load: {e}")),
    }
}

/// Subgraphs are composite schemas unless they start with `fed` or `v1`.
const FAMILIES: [&str; 7] = [
    // lookups and their arguments
    "type Query { x(id: ID! <|@is(field: 'id')|@is(field: '{ id }') @tag(name: 't')>): X <|@lookup> <|@internal> @shareable } type X @key(fields: 'id') { id: ID! f: Int } --- type Query { x(id: ID! <|@is(field: 'id')|@is(field: 'k')>): X <|@lookup> <|@internal> <y: Int|x2(i: ID @is(field: 'id')): X @lookup> } type X @key(fields: 'id') { id: ID! <g: Int|k: ID> }",
    // who may share and what is shown
    "type Query { q: X } type X <|@key(fields: 'id')|@key(fields: 'id f')> { id: ID! @shareable f: Int! <|@internal|@shareable|@internal @shareable> } --- <|fed |v1 >type Query { r: Int } type X <|@key(fields: 'id')> { id: ID! @shareable f: Int! <|@internal|@shareable|@external|@override(from: 'a')|@override(from: 'a') @internal> <|g: Int> } <|--- type Query { s: Int } type X @key(fields: 'id') { id: ID! f: Int! @internal }|--- type Query { s: Int } type X { f: Int! } |--- fed type Query { s: Int } type X @key(fields: 'id') { id: ID! f: Int! @override(from: 'a') }>",
    // requirements
    "type Query { q: X @shareable } type X @key(fields: 'id') { id: ID! s: S w: Int } type S { a: Int b: Int } --- type Query { q: X @shareable } type X @key(fields: 'id') { id: ID! p(<|c: Int <|@require(field: 'w')> > <|d: [In!] <|@require(field: 's { a }')|@require(field: '[{ a: s.a }]')|@tag(name: 'x')> > <|e: Int = 1 <|@is(field: 'w')> > k: Int): [Int] <|@internal|@derive> <|r(<a: Int!|b: Int> @require(field: 'w')): Int> } input In { a: Int } <|--- type Query { q: X @shareable } type X @key(fields: 'id') { id: ID! p(c: Int <|@require(field: 's.a')> k: Int): [Int] @shareable }>",
    // derived entities
    "type Query { q: P <|h: H> } type H <|@internal> { h: Int @internal } type P { id: ID! x_id: ID! x: X <|@derive> <|@internal> xs: [X!] <|@derive> <|@shareable> x_ids: [ID!] <|@is(field: 'xs { id }')|@is(field: 'x.id')> <|@internal> } type X @key(fields: 'id') { id: ID! <|@is(field: 'id')> } --- <fed |>type Query { r: X } type X @key(fields: 'id') { id: ID! f: Int }",
    // types
    "type Query <|@internal> { q: Int <|@internal> } type X <|@internal> { f: Int <|@internal> g: Int <|@shareable> } <|type Mutation @internal { m: Int }> --- type Query <|@internal> { r: Int <|@internal> } <type X <|@internal> { h: Int <|@internal> <|g: Int @internal>}|type Y <|@internal> { y: Int @internal }>",
    // the other kinds of fields
    "type Query { n: N } interface N { a: Int <|@internal> b(x: Int <|@require(field: 'a')|@is(field: 'a')>): Int <|@lookup|@internal @lookup> } type A implements N @key(fields: 'a') { a: Int c: Int @shareable b(x: Int <|@require(field: 'a')>): Int <|@internal> } --- <fed |>type Query { m: Int } <interface N { a: Int <b(x: Int): Int|c: Int> }|type A @key(fields: 'a') { a: Int c: Int }|type Mutation { c(x: ID @is(field: 'a')): A } type A @key(fields: 'a') { a: Int }>",
    // three subgraphs
    "type Query { x(id: ID! <|@is(field: 'id')>): X <|@lookup> @shareable } type X @key(fields: 'id') { id: ID! f: Int <|@internal> } --- type Query { x(id: ID!): X <|@lookup> <|@internal> } type X @key(fields: 'id') { id: ID! f: Int <|@internal> } --- <fed |>type Query { x(id: ID! <|@tag(name: 'x')>): X } <|type X @key(fields: 'id') { id: ID! f: Int }|extend type X @key(fields: 'id', resolvable: false) { id: ID! @external }>",
];

/// Marks in every place.
pub fn c45_marks() {
    let (a, b) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let text = render(FAMILIES[a..b][opt("template", b - a)]).split("---").map(|t| composite(t.trim())).collect::<Vec<_>>().join(" --- ");
    let mut c = case(&text);
    // elsewhere they mean nothing
    for s in c.subs.iter_mut().filter(|s| !s.sdl.starts_with(COMPOSITE)) {
        let clean = |l: &mut Vec<Dir>| l.retain(|d| !MARKS.contains(&d.name.as_str()));
        for t in s.m.types.values_mut() {
            clean(&mut t.dirs);
            for f in t.fields.values_mut() {
                clean(&mut f.dirs);
                f.args.values_mut().for_each(|a| clean(&mut a.dirs));
            }
        }
    }
    wrt::assume(c.subs.iter().all(|s| !s.m.dup));
    let (must, may) = sharing(&c);
    // an argument that not all have
    let lost = c.names().iter().any(|n| {
        c.fields(n).values().any(|l| l.iter().any(|(_, _, e)| e.args.iter().any(|(a, x)| x.ty.as_ref().unwrap().required() && l.iter().any(|o| !o.2.args.contains_key(a)))))
    });
    // a batch needs a list
    let batch = c.names().iter().any(|n| c.fields(n).values().any(|l| l.len() > 1 && l.iter().any(|d| batched(d.2))));
    c.ensure(!must || c.failed(), || "a field that must not be shared composes".into());
    c.ensure(may || lost || batch || !c.failed(), || "rejected although nothing forbids it".into());
    marks_oracle(&c);
    // what the API schema refers to is in it
    let Some(o) = &c.out else { return };
    for (n, t) in &o.api.types {
        for (f, e) in &t.fields {
            for ty in std::iter::once(e).chain(e.args.values()).map(|e| &e.ty.as_ref().unwrap().name) {
                let known = o.api.types.contains_key(ty) || ["Int", "Float", "String", "Boolean", "ID"].contains(&ty.as_str());
                let hollow = c.defs(ty).iter().all(|(_, t)| (t.kind == K::Object || t.kind == K::Interface) && (internal(&t.dirs) || t.fields.values().all(|f| internal(&f.dirs))));
                c.ensure(known || hollow, || format!("{n}.{f} refers to {ty}, which the API schema lacks"));
                c.ensure(known, || format!("{n}.{f} is of the type {ty} of which the API schema shows nothing because all of it is @internal"));
            }
        }
    }
}

/// The text of a subgraph as `case` wants it.
fn composite(t: &str) -> String {
    match t.strip_prefix("fed ") {
        Some(t) => t.to_string(),
        None if t.starts_with("v1 ") => t.to_string(),
        None => format!("composite {t}"),
    }
}

fn batched(e: &El) -> bool {
    e.args.values().any(|a| get(&a.dirs, "require").iter().any(|d| d.str("field").unwrap_or_default().trim_start().starts_with('[')))
}

/// A field that gets its arguments for many objects at once returns a list of what it says.
pub fn c45_batch() {
    let n = 1 + wrt::param(0) as usize;
    let types: &[&str] = &["Int", "Int!", "[Int]", "[Int!]", "[Int!]!", "[Int]!", "[[Int!]!]!", "[[Int]]"];
    let mut t = vec![];
    for s in &["a", "b", "c"][..n] {
        let ty = wrt::pick(&format!("{s}.type"), if n < 3 { types } else { &types[..6] });
        let args = wrt::pick(
            &format!("{s}.args"),
            &["", "(x: Int)", "(x: [Int!] @require(field: \"[id]\"))", "(x: Int, y: [Int!] @require(field: \"  [{ a: id }]\"))", "(x: Int @require(field: \"id\"))", "(x: [Int] @is(field: \"[id]\"))", "(x: Int @require(field: \"{ i: [id] }\"))"]
                [..if n < 3 { 7 } else { 3 }],
        );
        let args = args.replace("[Int!]", "Int").replace("[Int]", "Int");
        t.push(format!("composite type Query {{ q{s}: Int }} type X @key(fields: \"id\") {{ id: ID! f{args}: {ty} @shareable }}"));
    }
    let c = case(&t.join(" --- "));
    // list types, one by one
    let mut bad = false;
    let mut tys: Vec<Ty> = vec![];
    for s in &c.subs {
        let f = &s.m.types["X"].fields["f"];
        let mut ty = f.ty.clone().unwrap();
        if batched(f) {
            bad |= ty.bangs.len() < 2;
            ty.bangs.pop();
        }
        tys.push(ty);
    }
    c.ensure(!bad || c.failed(), || "a batch that is no list composes".into());
    if bad {
        return;
    }
    let same = same_shape(tys.iter());
    c.ensure(same || c.failed(), || "types of different shape compose".into());
    if !same {
        return;
    }
    let inner = tys.iter().any(|t| t.bangs[..t.bangs.len() - 1] != tys[0].bangs[..tys[0].bangs.len() - 1]);
    c.ensure(inner || !c.failed(), || "rejected although the types agree".into());
    let Some(o) = &c.out else { return };
    let want = merged(tys.iter(), |a, b| a && b);
    let f = &o.fed.types["X"].fields["f"];
    c.ensure(f.ty.as_ref() == Some(&want), || format!("X.f must be {}", want.text()));
    // every subgraph's own type is kept
    for s in &c.subs {
        let own = s.m.types["X"].fields["f"].ty.clone().unwrap();
        let d = get(&f.dirs, "join__field").into_iter().find(|d| d.str("graph") == Some(s.graph()));
        let kept = d.and_then(|d| d.str("type")).unwrap_or(want.text());
        c.ensure(kept == own.text(), || format!("{} has X.f: {}, recorded as {kept}", s.name, own.text()));
    }
}

/// The rules of the specification: exactly the broken ones are reported, with their codes, for the subgraph that breaks them.
pub fn c45_rules() {
    let n = 1 + wrt::param(0) as usize;
    // one or two groups of rules at a time
    let group = opt("group", 3);
    let on = |k: usize| if wrt::param(1) > 0 { k != group } else { k == group };
    let mut want: Vec<(String, String)> = vec![];
    let mut must_fail = false;
    let mut sdls = vec![];
    let mut from: Vec<(usize, &str)> = vec![];
    for (i, s) in ["a", "b", "c"][..n].iter().enumerate() {
        let mut report = |code: &str, error: bool| {
            want.push((s.to_string(), code.to_string()));
            must_fail |= error;
        };
        let fed = opt(&format!("{s}.fed"), if i == 1 { 2 } else { 1 }) == 1;
        let query = wrt::pick(&format!("{s}.query"), if on(0) { &["Query", "Q", ""] } else { &["Query"] });
        let inaccessible = on(0) && !query.is_empty() && opt(&format!("{s}.inaccessible"), 2) == 1;
        if inaccessible {
            report("QueryRootTypeInaccessible", true);
        }
        let mut sdl = String::new();
        if query == "Q" {
            sdl += "schema { query: Q } ";
        }
        let lookup = if fed || !on(0) { "" } else { wrt::pick(&format!("{s}.lookup"), &["", "@lookup"]) };
        let ty = if lookup.is_empty() { "X!" } else { wrt::pick(&format!("{s}.type"), if n < 3 { &["X", "X!", "[X]!", "[X!]"] } else { &["X", "[X!]!"] }) };
        if !query.is_empty() {
            if !lookup.is_empty() && ty.ends_with('!') {
                report("LookupReturnsNonNullableType", false);
            }
            sdl += &format!("type {query} {} {{ q{s}(id: ID!): {ty} {lookup} }} ", if inaccessible { "@inaccessible" } else { "" });
        }
        // the same inside of another type
        let inner = wrt::pick(&format!("{s}.inner"), if i == 0 && !fed && on(0) { &["", "o: X! @lookup", "o: X @lookup"] } else { &[""] });
        if inner.contains('!') {
            report("LookupReturnsNonNullableType", false);
        }
        let over = wrt::pick(&format!("{s}.override"), if !on(1) { &[""] } else if n < 3 || i == 2 { &["", "a", "b", "z", "A"] } else { &["", "b"] });
        let mut own = format!("f: Int @shareable {}", if over.is_empty() { String::new() } else { format!("@override(from: \"{over}\")") });
        if over == *s {
            report("OverrideFromSelf", true);
        }
        if !over.is_empty() {
            from.push((i, over));
        }
        let provides = wrt::pick(
            &format!("{s}.provides"),
            if !on(2) { &[""] } else if i == 0 && n < 3 { &["", "g", "g @skip(if: true)", "x { g @a }", "x { x { g @a } } g", "x @a { g }", "... on X @a { g }", "... on X { x { g @a } }", "g x { g @a g @b }"] } else { &[""] },
        );
        if !provides.is_empty() {
            own += &format!(" x{s}: X @provides(fields: \"{provides}\")");
            if provides.contains('@') {
                report("ProvidesDirectiveInFieldsArgument", true);
            }
        }
        sdl += &format!("type X {{ id: ID! @shareable {own} {inner} g: Int @external x: X @shareable }} ");
        let sub = opt(&format!("{s}.subscription"), match i { _ if !on(1) => 1, 0 | 1 if n < 3 => 4, _ => 2 });
        sdl += [
            String::new(),
            format!("type Subscription {{ s{s}: Int }}"),
            format!("type Subscription @shareable {{ s{s}: Int }}"),
            format!("type Subscription {{ s{s}: Int @shareable t{s}: Int }}"),
        ][sub]
            .as_str();
        if sub > 1 {
            report("InvalidFieldSharing", true);
        }
        sdls.push((s.to_string(), format!("{}{sdl}", if fed { HEAD } else { COMPOSITE })));
    }
    wrt::assume(sdls.iter().any(|s| s.1.contains("type Q")));
    // several overrides of one source
    let mut by: BTreeMap<&str, usize> = BTreeMap::new();
    for (_, f) in &from {
        *by.entry(f).or_default() += 1;
    }
    let many = by.values().filter(|n| **n > 1).count();
    let mut s = Subgraphs::default();
    for (n, sdl) in &sdls {
        if let Err(e) = s.ingest_str(sdl, n, Some("http://x")) {
            wrt::failed(&format!("ingest: {e}\n{sdl}"));
        }
    }
    let r = compose(&mut s);
    let mut got: Vec<(String, String)> = vec![];
    let mut overridden = 0;
    let mut errors = 0;
    let mut all = String::new();
    for d in r.diagnostics().iter() {
        all += &format!("{:?} {:?} {}\n", d.severity(), d.composite_schemas_error_code(), d.message());
        errors += matches!(d.severity(), Severity::Error) as usize;
        let Some(code) = d.composite_schemas_error_code() else { continue };
        let code = format!("{code:?}");
        let code = code.split(['(', ')']).nth(1).unwrap_or_default().to_string();
        if code == "OverrideSourceHasOverride" {
            overridden += 1;
            continue;
        }
        let name = d.message().strip_prefix('[').and_then(|m| m.split(']').next()).unwrap_or_default().to_string();
        if !got.contains(&(name.clone(), code.clone())) || code == "LookupReturnsNonNullableType" {
            got.push((name, code));
        }
    }
    let ok = r.into_result().is_ok();
    wrt::reach(if ok { 1 } else { 2 });
    wrt::observe("diagnostics", all.as_bytes());
    let text = || format!("{}\n{all}", sdls.iter().map(|s| s.1.clone()).collect::<Vec<_>>().join("\n---\n"));
    wrt::ensure!(ok == (errors == 0), "errors, and yet a graph, or the reverse\n{}", text());
    // what comes before the merge is found on its own; after it, only if all is well before
    let late = |l: &[(String, String)]| -> (Vec<_>, Vec<_>) { l.iter().cloned().partition(|x| x.1 != "InvalidFieldSharing") };
    let ((mut early, mut post), (mut found, mut found_post)) = (late(&want), late(&got));
    for v in [&mut early, &mut post, &mut found, &mut found_post] {
        v.sort();
    }
    wrt::ensure!(early == found, "the rules broken are {early:?}, reported are {found:?}\n{}", text());
    let before = early.iter().any(|x| x.1 != "LookupReturnsNonNullableType");
    if !before {
        wrt::ensure!(post == found_post, "the rules broken are {post:?}, reported are {found_post:?}\n{}", text());
        wrt::ensure!(overridden == many, "{many} sources are overridden more than once, {overridden} reported\n{}", text());
    }
    wrt::ensure!(ok != (must_fail || many > 0), "composition must{} fail\n{}", if ok { "" } else { " not" }, text());
}
