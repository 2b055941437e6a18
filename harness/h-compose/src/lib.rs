//! C02-C14: composition of subgraphs, driven through the public API on SDL, against an independent reading of the SDL.
mod case;
mod composite;
mod link;
mod model;
mod templates;
use case::*;
use composite::*;
use link::*;
use graphql_composition::FederatedGraph;
use model::*;
use templates::*;
use std::collections::{BTreeMap, BTreeSet};

/// A type `name` with up to `lists` lists and any nullability.
fn wrapped(s: &str, name: &str, lists: usize) -> String {
    let mut t = name.to_string();
    let l = opt(&format!("{s}.lists"), lists + 1);
    for i in 0..=l {
        if i > 0 {
            t = format!("[{t}]");
        }
        if opt(&format!("{s}.{i}.bang"), 2) == 1 {
            t += "!";
        }
    }
    t
}

fn same_shape<'a>(v: impl Iterator<Item = &'a Ty> + Clone) -> bool {
    let first = v.clone().next().unwrap();
    v.clone().all(|t| t.name == first.name && t.bangs.len() == first.bangs.len())
}

/// Do the types differ inside the outermost list?
fn inner_differs<'a>(v: impl Iterator<Item = &'a Ty> + Clone) -> bool {
    let first = v.clone().next().unwrap();
    v.clone().any(|t| t.bangs[..t.bangs.len() - 1] != first.bangs[..first.bangs.len() - 1])
}

fn merged<'a>(v: impl Iterator<Item = &'a Ty> + Clone, f: impl Fn(bool, bool) -> bool) -> Ty {
    let mut r = v.clone().next().unwrap().clone();
    for t in v {
        for (a, b) in r.bangs.iter_mut().zip(&t.bangs) {
            *a = f(*a, *b);
        }
    }
    r
}

// ---------------------------------------------------------------- C02

/// Every output field of the composed graph has the weakest type of its providers.
fn c02_oracle(c: &Case) {
    let Some(o) = &c.out else { return };
    for n in c.names() {
        if !c.defs(&n).iter().all(|d| matches!(d.1.kind, K::Object | K::Interface)) {
            continue;
        }
        for (f, defs) in c.fields(&n) {
            if f.starts_with('_') {
                continue;
            }
            let tys = defs.iter().map(|d| d.2.ty.as_ref().unwrap());
            c.ensure(same_shape(tys.clone()), || format!("{n}.{f} composes types of different shape"));
            let got = o.fed.types.get(&n).and_then(|t| t.fields.get(&f));
            let Some(got) = got else {
                c.ensure(false, || format!("{n}.{f} is not in the composed graph"));
                continue;
            };
            let want = merged(tys, |a, b| a && b);
            c.ensure(got.ty.as_ref() == Some(&want), || format!("{n}.{f} must be {}", want.text()));
        }
    }
}

pub fn c02_types() {
    let lists = wrt::param(0) as usize;
    let n = wrt::param(1) as usize;
    let place = wrt::pick("place", &["type X @shareable", "interface X", "type Query @shareable"]);
    let mut t = String::new();
    for s in &["a", "b", "c"][..n] {
        let name = wrt::pick(&format!("{s}.name"), if *s == "b" { &["Int", "ID"] } else { &["Int"] });
        t += &format!("{place} {{ f: {} }} type Query {{ q{s}: Int }} --- ", wrapped(s, name, lists)).replace(
            "type Query @shareable { f:",
            "extend type Query @shareable { f:",
        );
    }
    let c = case(&t);
    c02_oracle(&c);
    let types: Vec<Ty> = c.subs.iter().map(|s| s.m.types[place.split(' ').nth(1).unwrap()].fields["f"].ty.clone().unwrap()).collect();
    if same_shape(types.iter()) && !inner_differs(types.iter()) {
        c.ensure(!c.failed(), || "types that differ in the outermost nullability only are rejected".into());
    }
}



// ---------------------------------------------------------------- C03

/// The inputs (arguments of one field or fields of one input object) of all the providers.
fn inputs_oracle(c: &Case, at: &str, defs: &[&BTreeMap<String, El>], got: &BTreeMap<String, El>) {
    let mut names: BTreeSet<&String> = defs.iter().flat_map(|d| d.keys()).collect();
    for n in got.keys() {
        c.ensure(names.contains(n), || format!("{at} gained the input {n}"));
    }
    for n in std::mem::take(&mut names) {
        let v: Vec<&El> = defs.iter().filter_map(|d| d.get(n)).collect();
        if v.len() < defs.len() {
            c.ensure(!got.contains_key(n), || format!("{at} keeps {n} that is not in every subgraph"));
            c.ensure(!v.iter().any(|e| e.ty.as_ref().unwrap().required() && e.default.is_none()), || format!("{at} drops the required {n}"));
            continue;
        }
        let tys = v.iter().map(|e| e.ty.as_ref().unwrap());
        c.ensure(same_shape(tys.clone()), || format!("{at}: {n} composes types of different shape"));
        let Some(g) = got.get(n) else {
            c.ensure(false, || format!("{at} lost {n}"));
            continue;
        };
        let want = merged(tys, |a, b| a || b);
        c.ensure(g.ty.as_ref() == Some(&want), || format!("{at}: {n} must be {}", want.text()));
        let defaults: Vec<String> = v.iter().filter_map(|e| e.default.as_ref().map(|d| d.to_string())).collect();
        let d = g.default.as_ref().map(|d| d.to_string());
        c.ensure(d.is_some() || defaults.is_empty(), || format!("{at}: {n} lost its default"));
        c.ensure(d.is_none() || defaults.contains(d.as_ref().unwrap()), || format!("{at}: {n} has a default of no subgraph"));
        c.ensure(defaults.iter().all(|x| *x == defaults[0]), || format!("{at}: {n} has different defaults"));
    }
}

fn c03_oracle(c: &Case) {
    let Some(o) = &c.out else { return };
    for n in c.names() {
        let defs = c.defs(&n);
        let got = o.fed.types.get(&n);
        match defs[0].1.kind {
            K::Input => {
                let Some(got) = got else {
                    c.ensure(false, || format!("{n} is not in the composed graph"));
                    return;
                };
                inputs_oracle(c, &n, &defs.iter().map(|d| &d.1.fields).collect::<Vec<_>>(), &got.fields);
            }
            K::Object | K::Interface => {
                for (f, defs) in c.fields(&n) {
                    let Some(got) = got.and_then(|t| t.fields.get(&f)) else { continue };
                    inputs_oracle(c, &format!("{n}.{f}"), &defs.iter().map(|d| &d.2.args).collect::<Vec<_>>(), &got.args);
                }
            }
            _ => {}
        }
    }
}

/// May inputs be rejected? Only if one is required somewhere and absent elsewhere, or the declarations differ in a way
/// that is not the outermost nullability.
fn inputs_may_fail(defs: &[&BTreeMap<String, El>]) -> bool {
    let names: BTreeSet<&String> = defs.iter().flat_map(|d| d.keys()).collect();
    names.into_iter().any(|n| {
        let v: Vec<&El> = defs.iter().filter_map(|d| d.get(n)).collect();
        let tys = v.iter().map(|e| e.ty.as_ref().unwrap());
        if v.len() < defs.len() && tys.clone().any(|t| t.required()) {
            return true;
        }
        let d: Vec<String> = v.iter().filter_map(|e| e.default.as_ref().map(|d| d.to_string())).collect();
        !same_shape(tys.clone()) || inner_differs(tys.clone()) || d.iter().any(|x| *x != d[0])
    })
}

fn c03_case(t: &str) {
    let c = case(t);
    c03_oracle(&c);
    let mut may = false;
    for n in c.names() {
        let defs = c.defs(&n);
        if defs[0].1.kind == K::Input {
            may |= inputs_may_fail(&defs.iter().map(|d| &d.1.fields).collect::<Vec<_>>());
        } else {
            for defs in c.fields(&n).values() {
                may |= inputs_may_fail(&defs.iter().map(|d| &d.2.args).collect::<Vec<_>>());
            }
        }
    }
    c.ensure(may || !c.failed(), || "rejected for no reason of its inputs".into());
}

const INPUT_PLACES: [&str; 4] = [
    "type Query { q#: Int f(%): Int @shareable }",
    "type Query { q#: Int } type X @shareable { f(%): Int }",
    "type Query { q#: Int } interface X { f(%): Int }",
    "type Query { q#: Int } input X { %}",
];

/// One input in two or three subgraphs with any type.
pub fn c03_types() {
    let lists = wrt::param(0) as usize;
    let n = wrt::param(1) as usize;
    let place = INPUT_PLACES[opt("place", 4)];
    let mut t = String::new();
    for s in &["a", "b", "c"][..n] {
        let ty = if opt(&format!("{s}.absent"), 5) == 4 {
            String::new()
        } else {
            format!("x: {} ", wrapped(s, wrt::pick(&format!("{s}.name"), if *s == "b" { &["Int", "ID"] } else { &["Int"] }), lists))
        };
        let ty = format!("{ty}{}", if place.contains("input") || ty.is_empty() { "y: Int " } else { "" });
        t += &place.replace('%', &ty).replace('#', s);
        t += " --- ";
    }
    c03_case(&t);
}

/// Two inputs in two or three subgraphs: absent, nullable, non-null, with defaults.
pub fn c03_defaults() {
    let (n, m) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let place = INPUT_PLACES[opt("place", 4)];
    let alts = ["", "x: Int", "x: Int!", "x: Int = 1", "x: Int! = 1", "x: Int = 2", "x: Int = null"];
    let mut t = String::new();
    for s in &["a", "b", "c"][..n] {
        let x = wrt::pick(&format!("{s}.x"), &alts[..m]);
        let y = wrt::pick(&format!("{s}.y"), &["", "y: Int", "y: [Int!] = [1]", "y: [Int!] = [2]"][..if m < 7 { 1 } else if n > 2 { 2 } else { 4 }]);
        let z = if place.contains("input") || (x.is_empty() && y.is_empty()) { "z: Int" } else { "" };
        t += &place.replace('%', &format!("{x} {y} {z} ")).replace('#', s);
        t += " --- ";
    }
    c03_case(&t);
}

// ---------------------------------------------------------------- C04

fn enum_use(c: &Case, e: &str) -> (bool, bool) {
    let (mut input, mut output) = (false, false);
    for s in &c.subs {
        for t in s.m.types.values() {
            for f in t.fields.values() {
                let here = f.ty.as_ref().unwrap().name == e;
                if t.kind == K::Input {
                    input |= here;
                } else {
                    output |= here;
                    input |= f.args.values().any(|a| a.ty.as_ref().unwrap().name == e);
                }
            }
        }
    }
    (input, output)
}

/// The values the composed enum must have; None if composition must fail.
fn enum_want(c: &Case, e: &str) -> Option<BTreeSet<String>> {
    let sets: Vec<BTreeSet<String>> = c.defs(e).iter().map(|d| d.1.values.keys().cloned().collect()).collect();
    let all: BTreeSet<String> = sets.iter().flatten().cloned().collect();
    let common: BTreeSet<String> = all.iter().filter(|v| sets.iter().all(|s| s.contains(*v))).cloned().collect();
    match enum_use(c, e) {
        (_, false) if !enum_use(c, e).0 => Some(all),
        (false, true) => Some(all),
        (true, false) => (!common.is_empty()).then_some(common),
        _ => (all == common).then_some(all),
    }
}

fn c04_oracle(c: &Case) {
    for e in c.names() {
        if !c.defs(&e).iter().all(|d| d.1.kind == K::Enum) {
            continue;
        }
        let want = enum_want(c, &e);
        let Some(o) = &c.out else { continue };
        let Some(want) = want else {
            c.ensure(false, || format!("enum {e} composes although its values do not fit its use"));
            continue;
        };
        let Some(got) = o.fed.types.get(&e) else {
            c.ensure(false, || format!("enum {e} is not in the composed graph"));
            continue;
        };
        let have: BTreeSet<String> = got.values.keys().cloned().collect();
        c.ensure(have == want, || format!("enum {e} must have the values {want:?}"));
        for (v, el) in &got.values {
            let graphs: BTreeSet<String> = get(&el.dirs, "join__enumValue").iter().filter_map(|d| d.str("graph")).collect();
            let want: BTreeSet<String> = c.defs(&e).iter().filter(|d| d.1.values.contains_key(v)).map(|d| d.0.graph()).collect();
            c.ensure(graphs == want && get(&el.dirs, "join__enumValue").len() == graphs.len(), || format!("{e}.{v} must come from {want:?}"));
        }
    }
}

pub fn c04_enums() {
    let n = wrt::param(0) as usize;
    let m = wrt::param(1) as usize;
    let uses = [
        "", "type Query { r: E @shareable }", "type Query { r: [E!]! @shareable }", "interface N { r: E }", "type Query { r(x: E): Int @shareable }", "input I { x: E }",
        "type Query { r(x: [E!]): Int @shareable }", "type Query { r(x: E): E @shareable }", "type Query { r: E @shareable } input I { x: E! }", "interface N { r(x: E!): Int }",
        "input I { x: [[E]] = [] }", "type N @shareable { r: E }", "type N @shareable { r(x: E): Int}",
    ];
    // in the first or in the last subgraph
    let u = wrt::pick("use", &uses);
    let at = opt("use.at", 2) * (n - 1);
    let v = wrt::pick("use2", &uses[..if n > 2 { 1 } else { 6 }]);
    let at2 = if v.is_empty() { 0 } else { opt("use2.at", 2) * (n - 1) };
    let names = ["P", "Q", "R", "S"];
    let mut t = String::new();
    for (i, s) in ["a", "b", "c"][..n].iter().enumerate() {
        let mut vs = vec![];
        for x in &names[..m] {
            if opt(&format!("{s}.{x}"), 2) == 1 {
                vs.push(*x);
            }
        }
        if s == &"b" && opt("b.reverse", 2) == 1 {
            wrt::assume(vs.len() > 1);
            vs.reverse();
        }
        if !vs.is_empty() {
            t += &format!("enum E {{ {} }} ", vs.join(" "));
        }
        t += &format!("type Query {{ q{s}: Int }} ");
        for (w, at, second) in [(u, at, false), (v, at2, true)] {
            if at == i {
                // an enum must be defined where it is used
                wrt::assume(w.is_empty() || !vs.is_empty());
                let w = w.replace("type Query", "extend type Query");
                t += &if second { w.replace(" r:", " r2:").replace(" r(", " r2(").replace(" N ", " N2 ").replace(" I ", " I2 ") } else { w };
            }
        }
        t += " --- ";
    }
    let c = case(&t);
    wrt::assume(c.subs.iter().all(|s| !s.m.dup));
    c04_oracle(&c);
    let may = !c.defs("E").is_empty() && enum_want(&c, "E").is_none();
    c.ensure(may || !c.failed(), || "rejected for no reason of its enum".into());
}

// ---------------------------------------------------------------- C05

fn hidden(dirs: &[&[Dir]]) -> bool {
    dirs.iter().any(|d| has(d, "inaccessible"))
}

fn type_hidden(c: &Case, n: &str) -> bool {
    c.defs(n).iter().any(|d| has(&d.1.dirs, "inaccessible"))
}

const SCALARS: [&str; 5] = ["Int", "Float", "String", "Boolean", "ID"];

/// Is nothing left of a type: hidden, or all of its fields, values or members are?
fn gone(c: &Case, n: &str) -> bool {
    if type_hidden(c, n) {
        return true;
    }
    let defs = c.defs(n);
    let hides = |f: &str| defs.iter().filter_map(|d| d.1.fields.get(f).or(d.1.values.get(f))).any(|e| has(&e.dirs, "inaccessible"));
    let mut els = defs.iter().flat_map(|d| d.1.fields.keys().chain(d.1.values.keys())).peekable();
    let mut members = defs.iter().flat_map(|d| &d.1.members).peekable();
    els.peek().is_some() && els.all(|f| hides(f)) || members.peek().is_some() && members.all(|m| gone(c, m))
}

/// What the API schema must contain, and whether an accessible element refers to a hidden type.
fn c05_oracle(c: &Case) {
    let Some(o) = &c.out else { return };
    let mut want: BTreeSet<String> = BTreeSet::new();
    let mut got: BTreeSet<String> = BTreeSet::new();
    let add = |set: &mut BTreeSet<String>, m: &M| {
        for (n, t) in &m.types {
            if SCALARS.contains(&n.as_str()) || n.contains("__") {
                continue;
            }
            set.insert(n.clone());
            for (f, e) in t.fields.iter().chain(&t.values) {
                set.insert(format!("{n}.{f}"));
                for a in e.args.keys() {
                    set.insert(format!("{n}.{f}.{a}"));
                }
            }
            for x in &t.members {
                set.insert(format!("{n} = {x}"));
            }
        }
    };
    // the composed graph without what a subgraph hides
    let mut v = o.fed.clone();
    let mut args: BTreeSet<String> = BTreeSet::new();
    for (n, t) in v.types.iter_mut() {
        let defs = c.defs(n);
        let els = |f: &str| -> Vec<&El> { defs.iter().filter_map(|d| d.1.fields.get(f).or(d.1.values.get(f))).collect() };
        t.fields.retain(|f, _| !els(f).iter().any(|e| has(&e.dirs, "inaccessible")));
        t.values.retain(|f, _| !els(f).iter().any(|e| has(&e.dirs, "inaccessible")));
        for (f, e) in t.fields.iter_mut() {
            e.args.retain(|a, _| {
                let hide = els(f).iter().any(|e| e.args.get(a).is_some_and(|a| has(&a.dirs, "inaccessible")));
                if hide {
                    args.insert(format!("{n}.{f}.{a}"));
                }
                !hide
            });
        }
        t.members.retain(|m| !gone(c, m));
    }
    v.types.retain(|n, _| !gone(c, n));
    add(&mut want, &v);
    add(&mut got, &o.api);
    for x in got.difference(&want) {
        c.ensure(args.contains(x), || format!("the API schema contains {x}"));
    }
    for x in want.difference(&got) {
        c.ensure(false, || format!("the API schema lacks {x}"));
    }
    let known = |n: &str| SCALARS.contains(&n) || o.api.types.contains_key(n);
    for (n, t) in &o.api.types {
        for (f, e) in &t.fields {
            let visible = e.args.iter().filter(|(a, _)| !args.contains(&format!("{n}.{f}.{a}"))).map(|(_, a)| a);
            for e in visible.chain([e]) {
                let ty = &e.ty.as_ref().unwrap().name;
                c.ensure(known(ty), || format!("{n}.{f} refers to {ty}"));
            }
        }
        for i in t.implements.iter().chain(&t.members) {
            c.ensure(known(i), || format!("{n} refers to {i}"));
        }
    }
    // nothing visible of a hidden type
    for n in c.names() {
        if gone(c, &n) {
            continue;
        }
        for (f, defs) in c.fields(&n) {
            let vis = |v: &[&El]| !v.iter().any(|e| has(&e.dirs, "inaccessible"));
            let els: Vec<&El> = defs.iter().map(|d| d.2).collect();
            if vis(&els) {
                for e in &els {
                    let ty = &e.ty.as_ref().unwrap().name;
                    c.ensure(!gone(c, ty), || format!("{n}.{f} is visible and of a hidden type"));
                    for (a, e) in &e.args {
                        let same: Vec<&El> = els.iter().filter_map(|e| e.args.get(a)).collect();
                        let ty = &e.ty.as_ref().unwrap().name;
                        c.ensure(!vis(&same) || same.len() < els.len() || !gone(c, ty), || format!("{n}.{f}({a}:) is visible and of a hidden type"));
                    }
                }
            }
        }
    }
    for x in got.difference(&want) {
        c.ensure(false, || format!("the API schema shows the inaccessible argument {x}"));
    }
}

/// May the schema be rejected: a visible element of a hidden type, or no root type left.
fn c05_may_fail(c: &Case) -> bool {
    let mut may = false;
    // not marked where its type is marked, although its parent, or the element in another subgraph, is
    for s in &c.subs {
        let marked = |n: &str| s.m.types.get(n).is_some_and(|t| has(&t.dirs, "inaccessible"));
        for e in s.m.types.values().flat_map(|t| t.fields.values()).flat_map(|f| f.args.values().chain([f])) {
            may |= !has(&e.dirs, "inaccessible") && marked(&e.ty.as_ref().unwrap().name);
        }
    }
    for n in c.names() {
        if gone(c, &n) {
            // the roots of operations
            may |= ROOTS.contains(&n.as_str());
            continue;
        }
        for (_, defs) in c.fields(&n) {
            if defs.iter().any(|d| has(&d.2.dirs, "inaccessible")) {
                continue;
            }
            for (_, _, e) in &defs {
                may |= gone(c, &e.ty.as_ref().unwrap().name);
                for (a, e) in &e.args {
                    let hide = defs.iter().any(|d| d.2.args.get(a).is_some_and(|a| has(&a.dirs, "inaccessible")));
                    may |= !hide && gone(c, &e.ty.as_ref().unwrap().name);
                }
            }
        }
    }
    may
}


pub fn c05_hide() {
    let (a, b) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let t = HIDE[a..b][opt("template", b - a)];
    let c = case(&render(t));
    c05_oracle(&c);
    c.ensure(c05_may_fail(&c) || !c.failed(), || "rejected although nothing visible refers to something hidden".into());
}

/// What a client can ask by the interface: the implementations that are not hidden.
pub fn c05_implements() {
    let c = case(&render("type Query { q: Int n: N } interface N { n: Int } interface M implements N ~ { n: Int m: Int } type A implements N & M ~ { n: Int m: Int ~ } --- type Query { r: Int } type B implements N ~ { n: Int } interface N { n: Int }"));
    let Some(o) = &c.out else { return };
    for (n, t) in &o.api.types {
        for i in &o.fed.types[n].implements {
            let there = t.implements.contains(i) || gone(&c, i);
            c.ensure(there, || format!("the API schema does not say that a type implements a visible interface ({n}, {i})"));
        }
    }
    wrt::reach(1);
}

// ---------------------------------------------------------------- C06

/// The lists of a list argument, as sets of texts.
fn lists(d: &[&Dir], a: &str) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for d in d {
        match d.args.get(a) {
            Some(async_graphql_value::ConstValue::List(l)) => v.extend(l.iter().map(|x| match x {
                async_graphql_value::ConstValue::List(l) => {
                    let mut t: Vec<String> = l.iter().map(|x| x.to_string()).collect();
                    t.sort();
                    t.dedup();
                    t.join(" & ")
                }
                x => x.to_string(),
            })),
            Some(x) => {
                v.insert(x.to_string());
            }
            None => {}
        }
    }
    v
}

/// Every element of the composed graph (by path) with the directives of all subgraphs on it and those it has.
fn elements(c: &Case) -> Vec<(String, Vec<&Dir>, Vec<&Dir>)> {
    let mut out = vec![];
    let Some(o) = &c.out else { return out };
    for (n, t) in &o.fed.types {
        let defs = c.defs(n);
        if defs.is_empty() {
            continue;
        }
        out.push((n.clone(), defs.iter().flat_map(|d| &d.1.dirs).collect(), t.dirs.iter().collect()));
        for (f, e) in t.fields.iter().chain(&t.values) {
            let els: Vec<&El> = defs.iter().filter_map(|d| d.1.fields.get(f).or(d.1.values.get(f))).collect();
            out.push((format!("{n}.{f}"), els.iter().flat_map(|e| &e.dirs).collect(), e.dirs.iter().collect()));
            for (a, e) in &e.args {
                let els: Vec<&El> = els.iter().filter_map(|e| e.args.get(a)).collect();
                out.push((format!("{n}.{f}({a}:)"), els.iter().flat_map(|e| &e.dirs).collect(), e.dirs.iter().collect()));
            }
        }
    }
    out
}

fn c06_oracle(c: &Case) {
    for (at, want, got) in elements(c) {
        let only = |d: &[&Dir], n: &str| -> Vec<Dir> { d.iter().filter(|d| d.name == n).map(|d| (*d).clone()).collect() };
        let (w, g) = (only(&want, "authenticated"), only(&got, "authenticated"));
        c.ensure(w.is_empty() == g.is_empty() && g.len() < 2, || format!("@authenticated on {at}"));
        for (n, a) in [("requiresScopes", "scopes"), ("policy", "policies")] {
            let (w, g) = (only(&want, n), only(&got, n));
            let l = |v: &[Dir]| lists(&v.iter().collect::<Vec<_>>(), a);
            c.ensure(l(&w) == l(&g) && g.len() < 2, || format!("@{n} on {at}"));
        }
    }
}


pub fn c06_guards() {
    let (a, b) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let t = GUARDS[a..b][opt("template", b - a)];
    let c = case(&render(t));
    c06_oracle(&c);
    let hidden = c.subs.iter().any(|s| s.sdl.replace(HEAD, "").contains("inaccessible"));
    c.ensure(hidden || !c.failed(), || "rejected".into());
}

/// How the directives come into scope.
pub fn c06_links() {
    let links = [
        ("extend schema @link(url: 'https://specs.apollo.dev/federation/v2.3', import: ['@authenticated', '@requiresScopes', '@policy'])", "", ""),
        ("extend schema @link(url: 'https://specs.apollo.dev/federation/v2.3')", "federation__", ""),
        ("extend schema @link(url: 'https://specs.apollo.dev/federation/v2.9', as: 'fed')", "fed__", ""),
        ("extend schema @link(url: 'https://specs.apollo.dev/federation/v2.3', import: [{ name: '@authenticated', as: '@myauthenticated' }, { name: '@requiresScopes', as: '@myrequiresScopes' }, { name: '@policy', as: '@mypolicy' }])", "my", ""),
        ("", "", "v1 "),
        ("schema @link(url: 'https://specs.apollo.dev/federation/v2.3', import: ['@authenticated', '@requiresScopes', '@policy']) { query: Query }", "", ""),
    ];
    let guards = ["", "@%authenticated", "@%requiresScopes(scopes: [[\"s\"]])", "@%policy(policies: [[\"p\"]])", "@tag(name: \"x\") @%authenticated @%policy(policies: [[\"p\", \"q\"]])"];
    let mut subs = vec![];
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for s in ["a", "b"] {
        let (link, prefix, v) = links[opt(&format!("{s}.link"), links.len())];
        let mut place = |at: &str| {
            let g = wrt::pick(&format!("{s}.{at}"), &guards[..if at == "type" { 2 } else { 5 }]);
            let g = g.replace("@tag(name: \"x\") ", if v == "v1 " { "@tag(name: \"x\") " } else { "" });
            for x in ["authenticated", "s", "p", "q"] {
                if g.contains(if x == "authenticated" { "%authenticated".to_string() } else { format!("\"{x}\"") }.as_str()) {
                    want.entry(at.to_string()).or_default().push(x.to_string());
                }
            }
            g.replace('%', prefix)
        };
        let sdl = format!("{link} type Query {{ q{s}: Int }} type X {} {{ f{s}: Int {} }}", place("type"), place(&format!("f{s}"))).replace('\'', "\"");
        let Ok(m) = parse(&sdl) else {
            wrt::failed("the template does not parse");
            return;
        };
        subs.push(Sub { name: s.into(), sdl, m, v2: v.is_empty() });
    }
    match compose_only(&subs) {
        Err(e) => wrt::failed(&format!("rejected: {e:?}\n{}\n{}", subs[0].sdl, subs[1].sdl)),
        Ok((_, sdl)) => {
            wrt::reach(1);
            let m = match parse(&sdl) {
                Ok(m) => m,
                Err(e) => {
                    wrt::failed(&e);
                    return;
                }
            };
            let x = &m.types["X"];
            for (at, dirs) in [("type", &x.dirs), ("fa", &x.fields["fa"].dirs), ("fb", &x.fields["fb"].dirs)] {
                let mut got: BTreeSet<String> = BTreeSet::new();
                for d in dirs {
                    match d.name.as_str() {
                        "authenticated" => {
                            got.insert(d.name.clone());
                        }
                        "policy" | "requiresScopes" => {
                            for l in lists(&[d], if d.name == "policy" { "policies" } else { "scopes" }) {
                                got.extend(l.split(" & ").map(|s| s.replace('"', "")));
                            }
                        }
                        _ => {}
                    }
                }
                let w: BTreeSet<String> = want.get(at).into_iter().flatten().cloned().collect();
                wrt::ensure!(got == w, "{at} must require {w:?}\n{}\n{}\n{sdl}", subs[0].sdl, subs[1].sdl);
            }
        }
    }
}

// ---------------------------------------------------------------- field sets

use async_graphql_parser::types::{DocumentOperations, Selection, SelectionSet};

fn selection(fields: &str) -> Option<SelectionSet> {
    let doc = async_graphql_parser::parse_query(format!("{{ {fields} }}")).ok()?;
    match doc.operations {
        DocumentOperations::Single(o) if doc.fragments.is_empty() => Some(o.node.selection_set.node),
        _ => None,
    }
}

/// The fields a field set selects, with their types.
fn selected(m: &M, ty: &str, set: &SelectionSet, out: &mut BTreeSet<(String, String)>) {
    for s in &set.items {
        match &s.node {
            Selection::Field(f) => {
                let n = f.node.name.node.to_string();
                if let Some(e) = m.types.get(ty).and_then(|t| t.fields.get(&n)) {
                    selected(m, &e.ty.as_ref().unwrap().name, &f.node.selection_set.node, out);
                }
                out.insert((ty.to_string(), n));
            }
            Selection::InlineFragment(f) => {
                let t = f.node.type_condition.as_ref().map(|t| t.node.on.node.to_string()).unwrap_or(ty.to_string());
                selected(m, &t, &f.node.selection_set.node, out);
            }
            _ => {}
        }
    }
}

/// The fields that are part of a key in a subgraph, nested ones or only those of the type itself.
fn key_fields(s: &Sub, top: bool) -> BTreeSet<(String, String)> {
    let mut out = BTreeSet::new();
    for (n, t) in &s.m.types {
        for k in get(&t.dirs, "key") {
            if let Some(set) = k.str("fields").and_then(|f| selection(&f)) {
                if top {
                    for f in &set.items {
                        if let Selection::Field(f) = &f.node {
                            out.insert((n.clone(), f.node.name.node.to_string()));
                        }
                    }
                    continue;
                }
                selected(&s.m, n, &set, &mut out);
            }
        }
    }
    out
}

fn local(s: &Sub, n: &str) -> String {
    match ROOTS.iter().position(|r| *r == n) {
        Some(i) => s.m.roots[i].clone().unwrap_or_default(),
        None => n.to_string(),
    }
}

/// Is it a field of a key of its type?
fn is_key(s: &Sub, ty: &str, f: &str) -> bool {
    key_fields(s, true).contains(&(local(s, ty), f.to_string()))
}

fn overrides(e: &El) -> Option<String> {
    get(&e.dirs, "override").first().and_then(|d| d.str("from"))
}

// ---------------------------------------------------------------- C07

/// (must fail, may fail)
fn sharing(c: &Case) -> (bool, bool) {
    let (mut must, mut may) = (false, false);
    for n in c.names() {
        let defs = c.defs(&n);
        if !defs.iter().all(|d| d.1.kind == K::Object) {
            continue;
        }
        // an object shareable as a whole has the same accessible fields everywhere
        if defs.iter().any(|d| has(&d.1.dirs, "shareable")) && !ROOTS.contains(&n.as_str()) {
            for (_, f) in c.fields(&n) {
                may |= f.len() < defs.len() && !f.iter().any(|d| has(&d.2.dirs, "inaccessible"));
            }
        }
        let entity = |d: &(&Sub, &T)| has(&d.1.dirs, "key");
        may |= defs.iter().any(entity) && !defs.iter().all(|d| entity(d) || !d.0.v2);
        for (f, defs) in c.fields(&n) {
            if n == "Subscription" {
                may |= defs.iter().any(|d| has(&d.2.dirs, "shareable") || has(&d.1.dirs, "shareable"));
            }
            // nested in a key: unspecified
            let nested = defs.iter().any(|(s, _, _)| !is_key(s, &n, &f) && key_fields(s, false).contains(&(local(s, &n), f.clone())));
            may |= nested;
            if nested || defs.iter().any(|(s, t, e)| has(&t.dirs, "shareable") || has(&e.dirs, "shareable") || is_key(s, &n, &f)) {
                continue;
            }
            let resolves: Vec<_> = defs.iter().filter(|(s, t, e)| s.v2 && !has(&t.dirs, "external") && !has(&e.dirs, "external") && !has(&e.dirs, "internal")).collect();
            must |= resolves.iter().filter(|d| overrides(d.2).is_none()).count() > 1;
            let left = resolves.iter().filter(|d| !defs.iter().any(|o| overrides(o.2).as_ref() == Some(&d.0.name))).count();
            may |= left > 1;
        }
        for (_, defs) in c.fields(&n) {
            // overrides must make sense
            let from: Vec<String> = defs.iter().filter_map(|d| overrides(d.2)).collect();
            may |= from.len() > 1 && from.iter().any(|x| from.iter().filter(|y| x == *y).count() > 1);
            may |= defs.iter().any(|d| overrides(d.2).as_ref() == Some(&d.0.name));
        }
    }
    (must, may || must)
}


pub fn c07_sharing() {
    let (a, b) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let c = case(&render(SHARE[a..b][opt("template", b - a)]));
    // the fields a key names must exist
    for s in &c.subs {
        for (t, f) in key_fields(s, false) {
            wrt::assume(s.m.types.get(&t).is_some_and(|t| t.fields.contains_key(&f)));
        }
    }
    wrt::assume(c.subs.iter().all(|s| !s.m.dup));
    let (must, may) = sharing(&c);
    c.ensure(!must || c.failed(), || "a field that must not be shared composes".into());
    c.ensure(may || !c.failed(), || "rejected although nothing forbids the sharing".into());
}

// ---------------------------------------------------------------- C08

/// Do the recorded subgraphs lack those of an entity interface that are not the first to define it as an interface?
fn first_interface_only(defs: &[(&Sub, &T)], graphs: &BTreeSet<String>) -> bool {
    if !defs.iter().any(|d| d.1.kind == K::Interface && has(&d.1.dirs, "key")) {
        return false;
    }
    let mut others = defs.iter().filter(|d| d.1.kind == K::Interface).skip(1).map(|d| d.0.graph()).peekable();
    let want: BTreeSet<String> = defs.iter().map(|d| d.0.graph()).collect();
    let mut lost = want.difference(graphs);
    others.peek().is_some() && graphs.is_subset(&want) && *graphs != want && {
        let others: Vec<String> = others.collect();
        lost.all(|g| others.contains(g))
    }
}

pub fn c08_kinds() {
    let n = wrt::param(0) as usize;
    let forms = [
        "type X @shareable { f: Int }",
        "interface X { f: Int }",
        "union X = Y type Y @shareable { f: Int }",
        "enum X { f }",
        "input X { f: Int }",
        "scalar X",
        "",
        "type X @key(fields: 'f') { f: Int }",
        "interface X @key(fields: 'f') { f: Int }",
        "type X @key(fields: 'f') @interfaceObject { f: Int }",
        "extend type X @shareable { f: Int }",
    ];
    let m = if wrt::param(1) == 0 { 7 } else { forms.len() };
    let mut t = String::new();
    for s in &["a", "b", "c"][..n] {
        t += &format!("type Query {{ q{s}: Int }} {} ---", wrt::pick(&format!("{s}.form"), &forms[..m])).replace('\'', "\"");
    }
    let c = case(&t);
    let defs = c.defs("X");
    let same = defs.iter().all(|d| d.1.kind == defs[0].1.kind);
    let iface_obj = |t: &T| t.kind == K::Object && has(&t.dirs, "interfaceObject");
    let keyed = |t: &T| has(&t.dirs, "key");
    if defs.iter().any(|d| iface_obj(d.1)) || defs.iter().any(|d| d.1.kind == K::Interface && keyed(d.1)) {
        // an entity interface: interfaces with a key, objects with @interfaceObject, nothing else
        let iface = defs.iter().any(|d| d.1.kind == K::Interface);
        let ok = defs.iter().all(|d| matches!(d.1.kind, K::Interface | K::Object));
        c.ensure(ok || c.failed(), || "an entity interface composes with another kind".into());
        c.ensure(iface || c.failed(), || "an entity interface without an interface composes".into());
        let good = iface && ok && defs.iter().all(|d| keyed(d.1) && (iface_obj(d.1) || d.1.kind == K::Interface));
        c.ensure(!good || !c.failed(), || "an entity interface does not compose".into());
        if let Some(o) = &c.out {
            c.ensure(o.fed.types["X"].kind == K::Interface, || "the entity interface is no interface".into());
            let graphs: BTreeSet<String> = get(&o.fed.types["X"].dirs, "join__type").iter().filter_map(|d| d.str("graph")).collect();
            let want: BTreeSet<String> = defs.iter().map(|d| d.0.graph()).collect();
            let lacks = first_interface_only(&defs, &graphs);
            c.ensure(lacks || graphs == want, || "X must be of the subgraphs that define it".into());
            for d in &defs {
                let obj = get(&o.fed.types["X"].dirs, "join__type").iter().any(|j| j.str("graph") == Some(d.0.graph()) && j.bool("isInterfaceObject") == Some(true));
                c.ensure(obj == iface_obj(d.1), || "isInterfaceObject".into());
            }
            c.ensure(!lacks, || "an entity interface is only recorded for the first subgraph that defines it as an interface".into());
        }
        return;
    }
    c.ensure(same || c.failed(), || "types of different kinds compose".into());
    let entity = defs.iter().filter(|d| keyed(d.1)).count();
    c.ensure(!same || c.failed() == (entity != 0 && entity != defs.len()), || "types of one kind do not compose".into());
    let Some(o) = &c.out else { return };
    let got = o.fed.types.get("X");
    c.ensure(got.is_some() != defs.is_empty(), || "X missing or from nowhere".into());
    let Some(got) = got else { return };
    c.ensure(got.kind == defs[0].1.kind, || "X changed its kind".into());
    let graphs: BTreeSet<String> = match got.kind {
        K::Scalar => return,
        K::Union => get(&got.dirs, "join__unionMember").iter().filter(|d| d.str("member").as_deref() == Some("Y")).filter_map(|d| d.str("graph")).collect(),
        _ => get(&got.dirs, "join__type").iter().filter_map(|d| d.str("graph")).collect(),
    };
    c.ensure(graphs == defs.iter().map(|d| d.0.graph()).collect(), || "X must be of the subgraphs that define it".into());
}

// ---------------------------------------------------------------- C09

fn norm(s: &str) -> String {
    match selection(s) {
        Some(set) => set_text(&set),
        None => format!("?{s}"),
    }
}

fn set_text(set: &SelectionSet) -> String {
    let mut v = vec![];
    for s in &set.items {
        v.push(match &s.node {
            Selection::Field(f) => {
                let mut a: Vec<String> = f.node.arguments.iter().map(|(n, v)| format!("{}:{}", n.node, v.node)).collect();
                a.sort();
                let sub = set_text(&f.node.selection_set.node);
                format!("{}{}{}", f.node.name.node, if a.is_empty() { String::new() } else { format!("({})", a.join(",")) }, if sub.is_empty() { sub } else { format!("{{{sub}}}") })
            }
            Selection::InlineFragment(f) => {
                format!("...{}{{{}}}", f.node.type_condition.as_ref().map(|t| t.node.on.node.to_string()).unwrap_or_default(), set_text(&f.node.selection_set.node))
            }
            _ => "?".into(),
        });
    }
    v.join(" ")
}

/// What the composed graph says about one subgraph's version of a field.
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Default)]
struct Join {
    graph: String,
    external: bool,
    requires: Option<String>,
    provides: Option<String>,
    from: Option<String>,
    label: Option<String>,
    ty: Option<String>,
}

fn c09_oracle(c: &Case) {
    let Some(o) = &c.out else { return };
    // the known finding, reported last
    let mut late = false;
    for n in c.names() {
        let defs = c.defs(&n);
        if !defs.iter().all(|d| matches!(d.1.kind, K::Object | K::Interface | K::Input)) || defs.iter().any(|d| d.1.kind != defs[0].1.kind) {
            continue;
        }
        let root = ROOTS.contains(&n.as_str());
        let t = o.fed.types.get(&n);
        let owners: Vec<String> = defs.iter().map(|d| d.0.graph()).collect();
        let mut recorded: BTreeSet<String> = BTreeSet::new();
        if let (Some(t), false) = (t, root) {
            let g: BTreeSet<String> = get(&t.dirs, "join__type").iter().filter_map(|d| d.str("graph")).collect();
            let lacks = first_interface_only(&defs, &g);
            c.ensure(lacks || g == owners.iter().cloned().collect(), || format!("{n} must be of {owners:?}"));
            late |= lacks;
            recorded = g;
        }
        let mut gone: BTreeSet<String> = t.iter().flat_map(|t| t.fields.keys().cloned()).collect();
        for (f, defs) in c.fields(&n) {
            if f.starts_with('_') {
                continue;
            }
            gone.remove(&f);
            let Some(got) = t.and_then(|t| t.fields.get(&f)) else {
                c.ensure(t.is_some_and(|t| t.kind == K::Input), || format!("{n}.{f} is not in the composed graph"));
                continue;
            };
            let mut want: Vec<Join> = vec![];
            for (s, t, e) in &defs {
                let arg = |d: &str| get(&e.dirs, d).first().and_then(|d| d.str("fields")).map(|s| norm(&s));
                let external = (has(&e.dirs, "external") || has(&t.dirs, "external")) && !is_key(s, &n, &f);
                let ov = get(&e.dirs, "override");
                want.push(Join {
                    graph: s.graph(),
                    // a field nested in a key: unspecified
                    external: if !is_key(s, &n, &f) && key_fields(s, false).contains(&(local(s, &n), f.clone())) {
                        get(&got.dirs, "join__field").iter().any(|d| d.str("graph") == Some(s.graph()) && d.bool("external") == Some(true))
                    } else {
                        external && t.kind != K::Input
                    },
                    requires: arg("requires"),
                    provides: arg("provides"),
                    from: ov.first().and_then(|d| d.str("from")),
                    label: ov.first().and_then(|d| d.str("label")),
                    ty: (e.ty != got.ty).then(|| e.ty.as_ref().unwrap().text()),
                });
            }
            // what is overridden for every request is not a provider any more
            let over: Vec<String> = want.iter().filter(|w| matches!(w.label.as_deref(), None | Some("percent(100)"))).filter_map(|w| w.from.clone()).map(|f| f.to_uppercase()).collect();
            want.retain(|w| !over.contains(&w.graph));
            let joins = get(&got.dirs, "join__field");
            let mut have: Vec<Join> = joins
                .iter()
                .map(|d| Join {
                    graph: d.str("graph").unwrap_or_default(),
                    external: d.bool("external").unwrap_or(false),
                    requires: d.str("requires").map(|s| norm(&s)),
                    provides: d.str("provides").map(|s| norm(&s)),
                    from: d.str("override"),
                    label: d.str("overrideLabel"),
                    ty: d.str("type"),
                })
                .collect();
            if joins.is_empty() && !root {
                // no information means: every subgraph of the type, nothing special
                have = recorded.iter().map(|g| Join { graph: g.clone(), ..Default::default() }).collect();
            }
            have.sort();
            want.sort();
            c.ensure(have == want, || format!("{n}.{f} must come from {want:?}, says {have:?}"));
        }
        for f in gone {
            c.ensure(f.starts_with('_'), || format!("{n}.{f} is of no subgraph"));
        }
        // who implements what
        if let Some(t) = t {
            let mut have: Vec<(String, String)> = get(&t.dirs, "join__implements").iter().map(|d| (d.str("graph").unwrap_or_default(), d.str("interface").unwrap_or_default())).collect();
            let mut want: Vec<(String, String)> = defs.iter().flat_map(|(s, t)| t.implements.iter().map(|i| (s.graph(), i.clone()))).collect();
            have.sort();
            want.sort();
            c.ensure(have == want, || format!("{n} must implement {want:?}"));
            let mut i: Vec<&String> = t.implements.iter().collect();
            let mut w: Vec<&String> = want.iter().map(|x| &x.1).collect();
            i.sort();
            w.sort();
            w.dedup();
            c.ensure(i == w, || format!("{n} must implement {w:?}"));
        }
    }
    for n in c.names() {
        let defs = c.defs(&n);
        if defs.iter().all(|d| d.1.kind == K::Union) {
            let Some(t) = o.fed.types.get(&n) else {
                c.ensure(false, || format!("union {n} is missing"));
                continue;
            };
            let have: BTreeSet<(String, String)> = get(&t.dirs, "join__unionMember").iter().map(|d| (d.str("graph").unwrap_or_default(), d.str("member").unwrap_or_default())).collect();
            let want: BTreeSet<(String, String)> = defs.iter().flat_map(|(s, t)| t.members.iter().map(|m| (s.graph(), m.clone()))).collect();
            c.ensure(have == want && get(&t.dirs, "join__unionMember").len() == have.len(), || format!("union {n} must have {want:?}"));
            let i: BTreeSet<&String> = t.members.iter().collect();
            let w: BTreeSet<&String> = want.iter().map(|x| &x.1).collect();
            c.ensure(i == w && t.members.len() == i.len(), || format!("union {n} must have {w:?}"));
        }
    }
    // the subgraphs themselves
    let graph = o.fed.types.get("join__Graph").map(|g| &g.values);
    for s in &c.subs {
        let ok = graph.and_then(|g| g.get(&s.graph())).is_some_and(|v| get(&v.dirs, "join__graph").iter().any(|d| d.str("name").as_ref() == Some(&s.name) && d.str("url").as_deref() == Some("http://x")));
        c.ensure(ok, || format!("join__Graph lacks {}", s.name));
    }
    c.ensure(graph.is_some_and(|g| g.len() == c.subs.len()), || "join__Graph has more than the subgraphs".into());
    c.ensure(!late, || "an entity interface is only recorded for the first subgraph that defines it as an interface".into());
}


pub fn c09_routes() {
    let (a, b) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let c = case(&render(ROUTES[a..b][opt("template", b - a)]));
    wrt::assume(c.subs.iter().all(|s| !s.m.dup));
    c09_oracle(&c);
}

// ---------------------------------------------------------------- all templates



// ---------------------------------------------------------------- C10

/// Renders, loads and renders again.
fn c10_oracle(fed_sdl: &str, api_sdl: &str) {
    let g = match FederatedGraph::from_sdl(fed_sdl) {
        Ok(g) => g,
        Err(e) => {
            wrt::failed(&format!("the federated SDL does not load: {e}\n{fed_sdl}"));
            return;
        }
    };
    match graphql_composition::render_federated_sdl(&g) {
        Ok(again) => wrt::ensure!(again == fed_sdl, "the federated SDL changes when loaded\n{fed_sdl}\n--- becomes\n{again}"),
        Err(_) => wrt::failed("rendering the loaded graph fails"),
    }
    let again = graphql_composition::render_api_sdl(&g);
    wrt::ensure!(again == api_sdl, "the API SDL changes when the graph is loaded\n{fed_sdl}\n{api_sdl}\n--- becomes\n{again}");
}

/// Every composed graph of the families.
pub fn c10_families() {
    let (a, b) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let c = case(&render(family(a + opt("template", b - a))));
    if let Some(o) = &c.out {
        c10_oracle(&o.fed_sdl, &o.api_sdl);
    }
}

/// A literal with the given value.
fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o += &format!("\\u{:04X}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const CHARS: [&str; 18] = ["a", " ", "\"", "\\", "\n", "\t", "\u{7}", "\u{1b}", "\u{7f}", "\u{85}", "é", "€", "\"\"\"", "#", "{", "u0041", "\r", "$"];

/// Lines without surrounding white space, without blank ones.
fn lines(s: &str) -> Vec<String> {
    s.split(|c| c == '\n' || c == '\r').map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}

/// Arbitrary text where the language has strings.
pub fn c10_text() {
    let (a, b, n) = (wrt::param(0) as usize, wrt::param(1) as usize, wrt::param(2) as usize);
    let place = a + opt("place", b - a);
    let mut s = String::new();
    let len = opt("length", n + 1);
    for i in 0..len {
        if n == 1 && opt("any", 2) == 1 {
            // every character of Latin-1
            s.push(char::from_u32(wrt::pin(wrt::u8("char") as u64) as u32).unwrap());
            wrt::assume(s != "\0");
        } else {
            s += CHARS[opt(&format!("char{i}"), CHARS.len())];
        }
    }
    let q = quoted(&s);
    let t = [
        "type Query { q: X } % type X { f: Int }",
        "type Query { q: X } type X { % f: Int }",
        "type Query { q: X } type X { f(% a: Int): Int }",
        "type Query { q: Int } % enum E { % A }",
        "type Query { q: Int } % input I { % i: Int }",
        "type Query { q: Int } % scalar S % union U = X type X { f: Int } % interface N { % n: Int }",
        "type Query { q: Int @deprecated(reason: %) } enum E { A @deprecated(reason: %) } input I { i: Int @deprecated(reason: %) }",
        "type Query { q(a: String = %, b: [String!] = [%, \"x\"], c: I = { s: % }): Int } input I { s: String = % }",
        "type Query { q: Int @policy(policies: [[%]]) @requiresScopes(scopes: [[%, \"z\"]]) @tag(name: %) }",
        "type Query { q: X } type X @key(fields: \"f(s: \\\"x\\\")\") { f(s: String! = %): Int }",
        "extend schema @composeDirective(name: \"@mine\") @link(url: \"https://ex.com/mine/v1\", import: [\"@mine\"]) directive @mine(a: String b: [String!]) on FIELD_DEFINITION type Query { q: Int @mine(a: %, b: [%]) }",
    ][place];
    wrt::assume(place != 9);
    let sdl = t.replace('%', &q);
    let mut c = Case { subs: vec![Sub { name: "a".into(), sdl: format!("{HEAD}{sdl}"), m: M::default(), v2: true }], out: None, errors: vec![] };
    let (g, fed_sdl) = match compose_only(&c.subs) {
        Ok(x) => x,
        Err(e) => {
            wrt::failed(&format!("rejected: {e:?}\n{sdl}"));
            return;
        }
    };
    wrt::reach(1);
    wrt::observe("federated", fed_sdl.as_bytes());
    let api_sdl = graphql_composition::render_api_sdl(&g);
    c10_oracle(&fed_sdl, &api_sdl);
    for sdl in [&fed_sdl, &api_sdl] {
        let m = match parse(sdl) {
            Ok(m) => m,
            Err(e) => {
                wrt::failed(&format!("the rendered SDL does not parse: {e}"));
                return;
            }
        };
        c.out = Some(Out { fed_sdl: fed_sdl.clone(), api_sdl: api_sdl.clone(), fed: m, api: M::default() });
        let m = &c.out.as_ref().unwrap().fed;
        let d = |got: Option<&Option<String>>, at: &str| {
            let got: Vec<String> = got.cloned().flatten().map(|g| lines(&g)).unwrap_or_default();
            // the oracle's parser leaves an escaped """ in a block string as it is
            let plain: Vec<String> = got.iter().map(|l| l.replace("\\\"\"\"", "\"\"\"")).collect();
            c.ensure(got == lines(&s) || plain == lines(&s), || format!("the description of {at} became {got:?}"));
        };
        let text = |got: Option<String>, at: &str| c.ensure(got.as_ref() == Some(&s), || format!("{at} became {got:?}"));
        let str_of = |v: Option<&async_graphql_value::ConstValue>| match v {
            Some(async_graphql_value::ConstValue::String(s)) => Some(s.clone()),
            _ => None,
        };
        let ty = |n: &str| &m.types[n];
        let dir = |d: &[Dir], n: &str, a: &str| get(d, n).first().and_then(|d| d.str(a));
        match place {
            0 => d(Some(&ty("X").desc), "X"),
            1 => d(Some(&ty("X").fields["f"].desc), "X.f"),
            2 => d(Some(&ty("X").fields["f"].args["a"].desc), "X.f(a:)"),
            3 => {
                d(Some(&ty("E").desc), "E");
                d(Some(&ty("E").values["A"].desc), "E.A");
            }
            4 => {
                d(Some(&ty("I").desc), "I");
                d(Some(&ty("I").fields["i"].desc), "I.i");
            }
            5 => {
                for n in ["S", "U", "N"] {
                    d(Some(&ty(n).desc), n);
                }
                d(Some(&ty("N").fields["n"].desc), "N.n");
            }
            6 => {
                for e in [&ty("Query").fields["q"], &ty("E").values["A"], &ty("I").fields["i"]] {
                    text(dir(&e.dirs, "deprecated", "reason"), "the reason");
                }
            }
            7 => {
                let q = &ty("Query").fields["q"].args;
                text(str_of(q["a"].default.as_ref()), "the default");
                text(str_of(ty("I").fields["s"].default.as_ref()), "the default");
                match &q["b"].default {
                    Some(async_graphql_value::ConstValue::List(l)) => text(str_of(l.first()), "the default"),
                    _ => text(None, "the default"),
                }
                match &q["c"].default {
                    Some(async_graphql_value::ConstValue::Object(o)) => text(str_of(o.get("s")), "the default"),
                    _ => text(None, "the default"),
                }
            }
            8 if std::ptr::eq(sdl, &fed_sdl) => {
                let e = &ty("Query").fields["q"];
                text(dir(&e.dirs, "tag", "name"), "the tag");
                for (n, a) in [("policy", "policies"), ("requiresScopes", "scopes")] {
                    let mut got = vec![];
                    if let Some(async_graphql_value::ConstValue::List(l)) = get(&e.dirs, n).first().and_then(|d| d.args.get(a)) {
                        for l in l {
                            if let async_graphql_value::ConstValue::List(l) = l {
                                got.extend(l.iter().filter_map(|v| str_of(Some(v))));
                            }
                        }
                    }
                    text(got.first().cloned(), n);
                }
            }
            10 if std::ptr::eq(sdl, &fed_sdl) => text(dir(&ty("Query").fields["q"].dirs, "mine", "a"), "the argument"),
            _ => {}
        }
    }
}

const VALUES: [&str; 30] = [
    "0", "-1", "2147483648", "-9223372036854775808", "9223372036854775807", "1.0", "-0.0", "0.1", "1e3", "-2.5E3", "1.5e-7", "1e300", "1e-300", "123456789.125", "0.30000000000000004", "1e21", "1e16",
    "true", "false", "null", "P", "[]", "[[]]", "{}", "{ a: { b: [1, { c: null }] } }", "[1, 2.0, 1e9, \"x\", P, null, [true]]", "{ n: 1e2, s: \"1.0\", e: P }", "\"\"", "\"1\"", "\"null\"",
];

/// Values of all kinds where the language has values.
pub fn c10_values() {
    let v = wrt::pick("value", &VALUES);
    let ty = wrt::pick("type", &["Any", "Any!", "[Any]", "Float", "[[Any!]!]"]);
    let place = opt("place", 5);
    let sdl = [
        "type Query { q(a: # = %): Int }",
        "input I { a: # = % } type Query { q(i: I): Int }",
        "type Query { q: Int } type X { q(a: # = %): Int } interface N { q(a: # = %): Int }",
        "extend schema @composeDirective(name: \"@mine\") @link(url: \"https://ex.com/mine/v1\", import: [\"@mine\"]) directive @mine(a: #) on FIELD_DEFINITION type Query { q: Int @mine(a: %) }",
        "extend schema @composeDirective(name: \"@mine\") @link(url: \"https://ex.com/mine/v1\", import: [\"@mine\"]) directive @mine(a: # = %) on FIELD_DEFINITION type Query { q: Int @mine }",
    ][place]
        .replace('%', v)
        .replace("#", ty);
    let mut c = Case { subs: vec![Sub { name: "a".into(), sdl: format!("{HEAD}{sdl} scalar Any enum P {{ P }}"), m: M::default(), v2: true }], out: None, errors: vec![] };
    c.subs[0].m = match parse(&c.subs[0].sdl) {
        Ok(m) => m,
        Err(e) => wrt::failed(&e),
    };
    let (g, fed_sdl) = match compose_only(&c.subs) {
        Ok(x) => x,
        Err(e) => {
            wrt::failed(&format!("rejected: {e:?}\n{sdl}"));
            return;
        }
    };
    wrt::reach(1);
    wrt::observe("federated", fed_sdl.as_bytes());
    let api_sdl = graphql_composition::render_api_sdl(&g);
    c10_oracle(&fed_sdl, &api_sdl);
    let found = |m: &M| -> Vec<Option<ConstValue>> {
        let q = |t: &str| m.types.get(t).and_then(|t| t.fields.get("q"));
        match place {
            0 => vec![q("Query").unwrap().args["a"].default.clone()],
            1 => vec![m.types["I"].fields["a"].default.clone()],
            2 => vec![q("X").unwrap().args["a"].default.clone(), q("N").unwrap().args["a"].default.clone()],
            3 => vec![get(&q("Query").unwrap().dirs, "mine").first().and_then(|d| d.args.get("a")).cloned()],
            _ => vec![m.defs.get("mine").or(m.defs.get("mine__mine")).and_then(|d| d.args["a"].default.clone())],
        }
    };
    let want = found(&c.subs[0].m);
    wrt::ensure!(want.iter().all(|v| v.is_some()), "the value is not found in {sdl}");
    for (i, sdl) in [&fed_sdl, &api_sdl].into_iter().enumerate() {
        if i == 1 && place > 2 {
            continue;
        }
        let m = match parse(sdl) {
            Ok(m) => m,
            Err(e) => wrt::failed(&format!("the rendered SDL does not parse: {e}")),
        };
        let got = found(&m);
        wrt::ensure!(got == want, "{v} becomes {got:?}, not {want:?}\n{sdl}");
    }
}

// ---------------------------------------------------------------- C11

fn value_text(v: &async_graphql_value::ConstValue) -> String {
    match v {
        async_graphql_value::ConstValue::List(l) => {
            let mut l: Vec<String> = l.iter().map(value_text).collect();
            l.sort();
            format!("[{}]", l.join(", "))
        }
        v => v.to_string(),
    }
}

fn dirs_text(d: &[Dir]) -> String {
    let mut v: Vec<String> = d
        .iter()
        .map(|d| {
            let a: Vec<String> = d
                .args
                .iter()
                // the first subgraph's reason is taken
                .filter(|(n, _)| d.name != "deprecated" || *n != "reason")
                .map(|(n, v)| format!("{n}: {}", value_text(v)))
                .collect();
            format!("@{}({})", d.name, a.join(", "))
        })
        .collect();
    v.sort();
    v.join(" ")
}

fn el_text(e: &El) -> String {
    let args: Vec<String> = e.args.iter().map(|(n, a)| format!("{n}: {}", el_text(a))).collect();
    format!(
        "({}): {} = {} {}",
        args.join(", "),
        e.ty.as_ref().map(|t| t.text()).unwrap_or_default(),
        e.default.as_ref().map(|d| d.to_string()).unwrap_or_default(),
        dirs_text(&e.dirs)
    )
}

/// A document without the order of anything and without descriptions.
fn canon(m: &M) -> Vec<String> {
    let mut v = vec![format!("{:?} {}", m.roots, dirs_text(&m.links))];
    let mut d = m.directives.clone();
    d.sort();
    v.push(d.join(" "));
    for (n, t) in &m.types {
        let (mut i, mut u) = (t.implements.clone(), t.members.clone());
        i.sort();
        u.sort();
        v.push(format!("{:?} {n} {} implements {i:?} = {u:?}", t.kind, dirs_text(&t.dirs)));
        for (f, e) in t.fields.iter().chain(&t.values) {
            v.push(format!("{n}.{f}{}", el_text(e)));
        }
    }
    v
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut p = p.clone();
            p.insert(i, n - 1);
            v.push(p);
        }
    }
    v
}

fn c11_oracle(subs: Vec<Sub>) {
    let mut slots: Vec<Option<Sub>> = subs.into_iter().map(Some).collect();
    let mut first: Option<(Option<(Vec<String>, Vec<String>)>, String)> = None;
    // entity interfaces several subgraphs define as interfaces: a known finding, reported last
    let several: Vec<String> = {
        let c = Case { subs: slots.iter_mut().map(|s| s.take().unwrap()).collect(), out: None, errors: vec![] };
        let interfaces = |n: &str| c.defs(n).iter().filter(|d| d.1.kind == K::Interface).count();
        let v = c.names().into_iter().filter(|n| interfaces(n) > 1 && c.defs(n).iter().any(|d| d.1.kind == K::Interface && has(&d.1.dirs, "key"))).collect();
        slots = c.subs.into_iter().map(Some).collect();
        v
    };
    let of = |l: &String| several.iter().any(|n| l.starts_with(&format!("Interface {n} ")) || l.starts_with(&format!("{n}.")));
    let mut late = false;
    for p in permutations(slots.len()) {
        let order: Vec<Sub> = p.iter().map(|i| slots[*i].take().unwrap()).collect();
        let sdls: Vec<String> = order.iter().map(|s| format!("{}: {}", s.name, s.sdl.replace(HEAD, ""))).collect();
        let (got, text) = match compose_only(&order) {
            Ok((g, sdl)) => {
                wrt::reach(1);
                let api = graphql_composition::render_api_sdl(&g);
                let text = format!("{}\n{sdl}", sdls.join("\n"));
                match (parse(&sdl), parse(&api)) {
                    (Ok(f), Ok(a)) => (Some((canon(&f), canon(&a))), text),
                    (Ok(f), _) => (Some((canon(&f), vec![])), text),
                    _ => {
                        wrt::failed(&format!("the composed SDL does not parse\n{text}"));
                        return;
                    }
                }
            }
            Err(e) => {
                wrt::reach(2);
                (None, format!("{}\nrejected: {e:?}", sdls.join("\n")))
            }
        };
        match &first {
            None => first = Some((got, text)),
            Some((f, ft)) => {
                let same = match (f, &got) {
                    (Some((a, x)), Some((b, y))) => x == y && a.iter().filter(|l| !of(l)).eq(b.iter().filter(|l| !of(l))),
                    // the first one's key is expected in the other subgraphs
                    (None, None) => true,
                    (None, _) | (_, None) if !several.is_empty() => {
                        let errors: Vec<&str> = text.lines().chain(ft.lines()).filter(|l| l.starts_with("rejected: ")).collect();
                        errors.iter().all(|e| several.iter().any(|n| e.contains(&format!("`{n}`"))))
                    }
                    (a, b) => a == b,
                };
                late |= same && *f != got;
                if !same {
                    let diff = match (f, &got) {
                        (Some((a, _)), Some((b, _))) => a.iter().filter(|l| !b.contains(l)).chain(b.iter().filter(|l| !a.contains(l))).cloned().collect::<Vec<_>>().join("\n"),
                        _ => "accepted in one order only".into(),
                    };
                    wrt::failed(&format!("the order of subgraphs matters: {diff}\n{ft}\n--- but\n{text}"));
                    return;
                }
            }
        }
        for (i, s) in p.iter().zip(order) {
            slots[*i] = Some(s);
        }
    }
    wrt::ensure!(!late, "an entity interface is only recorded for the first subgraph that defines it as an interface");
}

pub fn c11_families() {
    let (a, b) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let subs = subgraphs(&render(family(a + opt("template", b - a))));
    wrt::assume(subs.len() > 1 && subs.iter().all(|s| !s.m.dup));
    c11_oracle(subs);
}

/// Enums, inputs and output types with differing definitions.
pub fn c11_elements() {
    let n = wrt::param(0) as usize;
    let parts: [&[&str]; 4] = [
        &["", "enum E { P Q } extend type Query { e#: E }", "enum E { Q P } extend type Query { e#(x: E): E }", "enum E { R Q }", "enum E { Q R P @deprecated(reason: \"#\") } input EI# { e: E }"],
        &["", "input I { a: Int = 1 }", "input I { a: Int! b: Int }", "input I { b: Int a: Int = 2 }", "input I { a: Int @deprecated @tag(name: \"#\") }"],
        &["", "type X @shareable { f(a: Int): Int! @cost(weight: 1) }", "type X @shareable { f(a: Int! b: Int): Int @cost(weight: 2) @tag(name: \"#\") }", "type X @shareable { f(a: Int = 1): Int @listSize(assumedSize: 3) }", "type X @shareable { f(a: Int = 1): Int! g: Int @inaccessible }"],
        &["", "interface N { n: Int }", "interface N { n: Int! m: Int }", "scalar N", "type N @interfaceObject @key(fields: \"n\") { n: Int }", "interface N @key(fields: \"n\") { n: Int }", "interface N @key(fields: \"m\") { n: Int m: Int }"],
    ];
    let part = opt("part", parts.len());
    let mut t = String::new();
    for s in &["a", "b", "c"][..n] {
        let p = parts[part][opt(&format!("{s}.def"), parts[part].len())];
        t += &format!("type Query {{ q{s}: Int }} {} --- ", p.replace('#', s));
    }
    c11_oracle(subgraphs(&t));
}

// ---------------------------------------------------------------- C12

/// Schemas that refer to things that are not there or are something else.
const BROKEN: [&str; 14] = [
    "type Query { q: <X|Y|Int|Query> } type X @key(fields: '<id|z|id { x }|id id|n|n { id }|n { z }|... on X { id }|... on Z { id }|... { id }|__typename|a(x: 1)|a(y: 1)|a|{ id }||id {}|id }|(|n { ... on Q { id } }|\\\\>') { id: ID! n: <N|X|Z|[N]> a(x: Int<|!>): Int } <|type N { id: ID }|interface N { id: ID }|union N = Q type Q { id: ID }|enum N { id }|input N { id: ID }|scalar N>",
    "type Query { q: Int x: X } type X @key(fields: 'id') { id: ID! n: N @external f: Int <@external|> g: Int @requires(fields: '<f|z|n|n { f }|n { z }|f { a }|g|__typename|n { ... on N { f } }|a(x: 1)|a(x: 1) f|\\'>') a(x: Int y: N): Int <@external|> h: X @provides(fields: '<f|id|n { f }|h { f }|z|f(x: 1)>') } type N { f: Int }",
    "<type|interface|union|enum|input|scalar> Query --- type Query { q: Int }",
    "schema { query: <Q|Z|N|U> <|mutation: Q|mutation: Z|subscription: N> } type Q { q: Int } interface N { n: Int } union U = Q <|--- type Query { q: Q } type Q { x: Int }|--- schema { query: N } type N { q: Q } type Q { q: Int }>",
    "type Query { q(a: <Int|X|Z|U|Query>): <I|E|Z|Int> } <|input I { a: <X|Z|I!|Int> = <1|null|'x'|[{a: 1}]|P> }> type X <|implements Z|implements X|implements E|implements Query> { x: Int } union U = <X|Z|E|U|Query> enum E { A } extend <type|enum|input|union|interface|scalar> <X|E|Y>",
    "type Query { q: Int } type X implements N { x: Int } <interface|type|union|input|enum|scalar> N --- type Query { r: Int } <type|interface> N { n: Int } <|type X implements N { n: Int <|x: Int> }>",
    "type Query { q: Int @override(from: '<a|b|c||z>'<|, label: '<percent(5)|percent(101)|x|percent(>'>) <|@override(from: 'b')> } --- type Query { q: Int <|@override(from: 'a')|@override> }",
    "extend schema @link(url: '<https://specs.apollo.dev/federation/v2.3|x||https://|https://specs.apollo.dev/federation|https://specs.grafbase.com/composite-schemas/v1|file:///x>'<|, as: '<x||1>'><|, import: [<'@key'|'key'|''|{ name: '@key' }|{ name: '@key', as: 'x' }|{ as: '@x' }|1|null>]>) type Query { q: Int } type X @key(fields: 'id') <|@federation__key(fields: 'id')|@x__key(fields: 'id')|@x(fields: 'id')> { id: ID }",
    "type Query { q: Int } type X @key(<fields: 1|fields: null|fields: ['id']|field: 'id'|fields: 'id', resolvable: 1|>) @tag(<name: 1|name: null|>) @override @deprecated(reason: <1|null|'x'>) { id: ID @cost(weight: <1|'x'|1.5|99999999999|null>) f(a: Int): [X] @listSize(<assumedSize: 1|assumedSize: -1|assumedSize: 99999999999|slicingArguments: 1|slicingArguments: ['z']|sizedFields: ['z']|sizedFields: ['id'], slicingArguments: ['a']|requireOneSlicingArgument: 1|>) }",
    "type Query { q: Int } type X @policy(policies: <1|'a'|['a']|[['a', 1]]|[[]]|[]|null>) @requiresScopes(scopes: <1|'a'|['a']|[['a', 1]]|[]|null>) <|@authenticated(x: 1)> { id: ID } --- type Query { r: Int } type X @policy @requiresScopes @shareable @inaccessible(x: 1) { id: ID @external(reason: 1) @provides @requires }",
    "type Query { n: N } interface N @key(fields: '<id|z>') { id: ID! } <type P implements N @key(fields: '<id|x>') { id: ID! x: Int }|type P implements N { id: ID! }|type P { id: ID! }|> --- type Query { r: Int } <|type Query2 { q: N }> type N @interfaceObject <@key(fields: '<id|z|id f>')|> { id: ID! f: <Int|Z|N> } <|--- type N @interfaceObject { y: Int }|--- interface N { w: Int } type P implements N { w: Int }>",
    "extend schema @composeDirective(name: <'@mine'|'mine'|''|1|'@key'|'@zzz'>) <|@composeDirective> @link(url: 'https://ex.com/mine/v1', import: ['@mine']) <|directive @mine(a: Int) on OBJECT|directive @mine(a: Z = { x: 1 }) repeatable on SCHEMA \\ OBJECT> type Query @mine(<a: 1|b: [1, null]|a: { x: P }>) { q: Int <|@mine|@zzz|@mine__x> }",
    "type Query { q: Int f(a: Int): Int } type Query2 { __typename: Int } type <__X|join__Graph|link__Import|_Entity|_Service|_Any|Int|ID|X> { x: Int <|__x: Int|_entities: Int|_service: Int> } <|scalar <Int|join__FieldSet|_Any>|enum <join__Graph|link__Purpose> { A }|interface Int { x: Int }>",
    "extend schema @link(url: 'https://specs.grafbase.com/composite-schemas/v1', import: ['@lookup', '@key', '@require', '@is', '@derive', '@internal', '@shareable', '@inaccessible']) type Query { x(<id: ID!|id: ID|a: ID! @is(field: '<id|z|x.id|{ id }|[id]|<X>.id|>')|ids: [ID!]!>): <X|[X]|Int|Z> @lookup <|@internal> <|y: Y @derive|y: Z @derive> } type X @key(fields: '<id|z|id n { a }>') { id: ID! n: N f(<a: Int @require(field: '<g|z|n.a|n { a }|{ a: n.a }|>')|a: Int>): Int g: Int } type N { a: Int } <|type Y @key(fields: 'id') { id: ID! }> <|--- type Query { r: Int } type X @key(fields: 'id') { id: ID! g: Int @shareable }>",
];

fn c12_oracle(text: &str) {
    let mut subs = vec![];
    for (i, t) in text.split("---").enumerate() {
        let t = t.trim();
        let sdl = match t.strip_prefix("v1") {
            Some(t) => t.to_string(),
            None => format!("{HEAD}{t}"),
        };
        if !t.is_empty() {
            subs.push(Sub { name: ["a", "b", "c", "d"][i].into(), sdl, m: M::default(), v2: true });
        }
    }
    wrt::dbg(text);
    match compose_only(&subs) {
        Ok((g, sdl)) => {
            wrt::reach(1);
            wrt::observe("federated", sdl.as_bytes());
            let api = graphql_composition::render_api_sdl(&g);
            wrt::observe("api", api.as_bytes());
        }
        Err(_) => wrt::reach(2),
    }
}

pub fn c12_broken() {
    let (a, b) = (wrt::param(0) as usize, wrt::param(1) as usize);
    c12_oracle(&render(BROKEN[a + opt("template", b - a)]));
}

/// Any text where directives have text that is parsed.
pub fn c12_words() {
    let (n, a, b) = (wrt::param(0) as usize, wrt::param(1) as usize, wrt::param(2) as usize);
    let places = [
        "type Query { q: X } type X @key(fields: \"%\") { id: ID! n: X x(a: Int): Int }",
        "type Query { q: X } type X @key(fields: \"id\") { id: ID! n: X @external x(a: Int): Int @external y: Int @requires(fields: \"%\") }",
        "type Query { q: X @provides(fields: \"n { % }\") } type X @key(fields: \"id\") { id: ID! n: X @external x(a: Int): Int @external }",
        "type Query { q: Int @override(from: \"%\") r: Int @override(from: \"a\", label: \"%\") s: Int @override(from: \"a\", label: \"percent(%)\") } --- type Query { q: Int }",
        "extend schema @link(url: \"%\") @link(url: \"https://x.y/%/v1.0\", as: \"%\") @link(url: \"https://specs.apollo.dev/federation/%\") type Query { q: Int }",
        "extend schema @link(url: \"https://x.y/z/v1.0\", import: [\"%\", { name: \"@a\", as: \"%\" }]) @composeDirective(name: \"%\") type Query { q: Int @a }",
        "type Query { q: Int @tag(name: \"%\") @deprecated(reason: \"%\") @policy(policies: [[\"%\"]]) } scalar X @specifiedBy(url: \"%\")",
        "extend schema @link(url: \"https://specs.grafbase.com/composite-schemas/v1\", import: [\"@lookup\", \"@key\", \"@require\", \"@is\"]) type Query { x(id: ID! @is(field: \"%\")): X @lookup } type X @key(fields: \"id\") { id: ID! n: X f(a: ID @require(field: \"%\")): Int }",
        "type Query { q(a: Int = 1, b: [Int] = [%]): Int }",
    ];
    let t = places[a..b][opt("place", b - a)];
    let w = wrt::word("text", n, b" idnxa{}():1.@#[]|<>-/v");
    c12_oracle(&t.replace('%', &w));
}

// ---------------------------------------------------------------- C13

/// What a directive on an element of the composed graph must be, from those of the subgraphs.
fn c13_oracle(c: &Case) {
    let Some(o) = &c.out else { return };
    for (at, want, got) in elements(c) {
        let (f, t) = match at.split_once('.') {
            Some((t, f)) => (f.split('(').next().unwrap(), t),
            None => ("", &at[..]),
        };
        let of = |d: &[&Dir], n: &str| -> Vec<Dir> { d.iter().filter(|d| d.name == n).map(|d| (*d).clone()).collect() };
        let (w, g) = (of(&want, "tag"), of(&got, "tag"));
        let names = |v: &[Dir]| -> BTreeSet<Option<String>> { v.iter().map(|d| d.str("name")).collect() };
        c.ensure(names(&w) == names(&g) && g.len() == names(&g).len(), || format!("@tag on {at}"));
        let (w, g) = (of(&want, "oneOf"), of(&got, "oneOf"));
        c.ensure(w.is_empty() == g.is_empty() && g.len() < 2, || format!("@oneOf on {at}"));
        let (w, g) = (of(&want, "deprecated"), of(&got, "deprecated"));
        c.ensure(w.is_empty() == g.is_empty() && g.len() < 2, || format!("@deprecated on {at}"));
        if let Some(g) = g.first() {
            c.ensure(w.iter().any(|w| w.str("reason") == g.str("reason")), || format!("the reason on {at} is of no subgraph"));
        }
        let (w, g) = (of(&want, "cost"), of(&got, "cost"));
        c.ensure(w.is_empty() == g.is_empty() && g.len() < 2, || format!("@cost on {at}"));
        if let Some(g) = g.first() {
            let weight = |d: &Dir| int(d.args.get("weight"));
            c.ensure(weight(g) == w.iter().map(weight).max().unwrap(), || format!("the weight of {at}"));
        }
        let (w, g) = (of(&want, "listSize"), of(&got, "listSize"));
        c.ensure(w.is_empty() == g.is_empty() && g.len() < 2, || format!("@listSize on {at}"));
        if let Some(g) = g.first() {
            let size = |d: &Dir| int(d.args.get("assumedSize"));
            c.ensure(size(g) == w.iter().map(size).max().unwrap(), || format!("the assumed size of {at}"));
            let one = |d: &Dir| d.bool("requireOneSlicingArgument").unwrap_or(true);
            c.ensure(one(g) == w.iter().any(one), || format!("requireOneSlicingArgument of {at}"));
            let e = &o.fed.types[t].fields[f];
            let ty = o.fed.types.get(&e.ty.as_ref().unwrap().name);
            for (a, known) in [("slicingArguments", e.args.keys().collect::<Vec<_>>()), ("sizedFields", ty.into_iter().flat_map(|t| t.fields.keys()).collect())] {
                let have = g.strs(a);
                let all: BTreeSet<String> = w.iter().flat_map(|w| w.strs(a)).filter(|n| known.contains(&n)).collect();
                c.ensure(have.len() == all.len() && have.iter().all(|n| all.contains(n)), || format!("{a} of {at} must be {all:?}"));
            }
        }
    }
}

fn int(v: Option<&ConstValue>) -> Option<i64> {
    match v {
        Some(ConstValue::Number(n)) => n.as_i64().or(n.as_f64().map(|x| x as i64)),
        _ => None,
    }
}

/// A number: any one with `n` digits, or one of few.
fn number(name: &str, n: usize) -> String {
    let k = opt(&format!("{name}.kind"), 3 + n);
    match k {
        0 => "0".into(),
        1 => "2147483647".into(),
        2 => "7".into(),
        _ => {
            let mut b = vec![0u8; k - 2];
            wrt::fill(&format!("{name}.{k}"), &mut b);
            for (i, x) in b.iter().enumerate() {
                wrt::assume((b'0' + (i == 0) as u8..=b'9').contains(x));
            }
            unsafe { String::from_utf8_unchecked(b) }
        }
    }
}

/// Any numbers of costs and assumed sizes.
pub fn c13_numbers() {
    let (n, digits) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let what = opt("what", 3);
    let mut t = String::new();
    for s in &["a", "b", "c"][..n] {
        let d = if opt(&format!("{s}.none"), 2) == 1 { String::new() } else { number(s, digits) };
        let d = match what {
            _ if d.is_empty() => d,
            2 => format!("@listSize(assumedSize: {d})"),
            _ if opt(&format!("{s}.minus"), 2) == 1 => format!("@cost(weight: -{d})"),
            _ => format!("@cost(weight: {d})"),
        };
        let x = if what == 0 { format!("type X @shareable {d} {{ f: Int }}") } else { format!("type X @shareable {{ f: [Int] {d} }}") };
        t += &format!("type Query {{ q{s}: Int }} {x} --- ");
    }
    let c = case(&t);
    c.ensure(!c.failed(), || "rejected".into());
    c13_oracle(&c);
}

pub fn c13_meta() {
    let n = wrt::param(0) as usize;
    let small = n > 2;
    let tags = ["", "@tag(name: 'a')", "@tag(name: 'b')", "@tag(name: 'b') @tag(name: 'a')"];
    let old = ["", "@deprecated", "@deprecated(reason: 'x')", "@deprecated(reason: 'y')"];
    let cost = ["", "@cost(weight: 1)", "@cost(weight: 12)", "@cost(weight: -3)"];
    let size = [
        "", "@listSize(assumedSize: 5)", "@listSize(slicingArguments: ['n'])", "@listSize(assumedSize: 9, slicingArguments: ['m', 'n'], requireOneSlicingArgument: false)",
        "@listSize(sizedFields: ['y', 'f'])", "@listSize(sizedFields: ['f'], slicingArguments: ['n'], requireOneSlicingArgument: false)", "@listSize(slicingArguments: ['z', 'n', 'm'], sizedFields: ['z', 'y'])",
    ];
    // where, and which directives go there
    let places: [(&str, &[u8]); 12] = [
        ("type X @shareable % { f: Int }", b"tcx"),
        ("type X @shareable { f: Int % }", b"tdcx"),
        ("type X @shareable { f(n: Int %): Int }", b"tdcx"),
        ("type X @shareable { f(n: Int m: Int): Y % g(n: Int): [Int] } type Y @shareable { y: [Int] f: [Int] }", b"stx"),
        ("interface X % { f: Int }", b"tx"),
        ("interface X { f: Int % }", b"tdcx"),
        ("union X % = Y type Y @shareable { y: Int }", b"tx"),
        ("scalar X %", b"tcx"),
        ("enum X % { A }", b"tcx"),
        ("enum X { A % B }", b"tdx"),
        ("input X % { f: Int }", b"tox"),
        ("input X { f: Int % }", b"tdcx"),
    ];
    let (place, kinds) = places[opt("place", places.len())];
    let kind = kinds[opt("kind", kinds.len())];
    let mut t = String::new();
    for s in &["a", "b", "c"][..n] {
        let name = format!("{s}.meta");
        let of = |l: &'static [&'static str], n: &str| l[opt(n, l.len())];
        let d = match kind {
            b't' => wrt::pick(&name, &tags).to_string(),
            b'd' => wrt::pick(&name, &old).to_string(),
            b'c' => wrt::pick(&name, &cost).to_string(),
            b's' => wrt::pick(&name, &size).to_string(),
            b'o' => of(&["", "@oneOf", "@oneOf @tag(name: 'a')"], &name).to_string(),
            // several kinds in any order
            _ => of(
                &[
                    "", "@inaccessible @tag(name: 'a')", "@tag(name: 'b') @authenticated @tag(name: 'c')", "@tag(name: 'a') @policy(policies: [['p']]) @inaccessible @tag(name: 'b')",
                    "@authenticated @tag(name: 'b') @requiresScopes(scopes: [['p']]) @tag(name: 'b')",
                ],
                &name,
            )
            .to_string(),
        };
        let d = if kind == b'x' && !place.starts_with("type X @shareable %") && !place.contains("Int %") { d.split(' ').filter(|x| x.starts_with("@tag") || x.starts_with("'") || x.starts_with("@inacc")).collect::<Vec<_>>().join(" ") } else { d };
        let x = place.replace('%', &d);
        let x = if !small && opt(&format!("{s}.extension"), 2) == 1 && kind != b'd' {
            // on an extension of the type
            let (k, rest) = x.split_once(" X").unwrap();
            let plain = place.replace('%', "");
            let own = plain.split_once(" X").unwrap().1.split_once(['{', '=']).map(|x| x.0.trim().to_string()).unwrap_or_default();
            wrt::assume(place.contains("X %") || place.contains("@shareable %") || place.starts_with("scalar"));
            let body = rest.find(['{', '=']).map(|i| rest[i..].to_string()).unwrap_or_default();
            format!("extend {k} X {d} {k} X {own} {body}")
        } else {
            x
        };
        t += &format!("type Query {{ q{s}: Int }} {x} --- ");
    }
    let c = case(&t.replace('\'', "\""));
    // an object whose fields are hidden
    c.ensure(!c.failed() || t.contains("inaccessible"), || "rejected".into());
    c13_oracle(&c);
}

// ---------------------------------------------------------------- C14

use async_graphql_value::{ConstValue, Value};

fn variable(v: &Value) -> bool {
    match v {
        Value::Variable(_) => true,
        Value::List(l) => l.iter().any(variable),
        Value::Object(o) => o.values().any(variable),
        _ => false,
    }
}

/// Can the value be coerced to the type? None: unspecified here.
fn coerces(m: &M, name: &str, bangs: &[bool], v: &Value) -> Option<bool> {
    let (last, inner) = bangs.split_last().unwrap();
    if variable(v) {
        return Some(false);
    }
    if let Value::Null = v {
        return Some(!last);
    }
    if !inner.is_empty() {
        return match v {
            Value::List(l) => l.iter().map(|v| coerces(m, name, inner, v)).try_fold(true, |a, b| Some(a && b?)),
            v => coerces(m, name, inner, v),
        };
    }
    let int = |v: &Value| matches!(v, Value::Number(n) if n.is_i64() || n.is_u64());
    Some(match (name, m.types.get(name).map(|t| (t.kind, t))) {
        ("Int", _) => match v {
            Value::Number(n) if n.as_i64().is_some_and(|n| i32::try_from(n).is_ok()) => true,
            v if int(v) => return None,
            _ => false,
        },
        ("Float", _) => matches!(v, Value::Number(_)),
        ("String", _) => matches!(v, Value::String(_)),
        ("Boolean", _) => matches!(v, Value::Boolean(_)),
        ("ID", _) => matches!(v, Value::String(_)) || int(v),
        (_, Some((K::Scalar, _))) => true,
        (_, Some((K::Enum, t))) => matches!(v, Value::Enum(e) if t.values.contains_key(e.as_str())),
        (_, Some((K::Input, t))) => match v {
            Value::Object(o) => {
                let mut ok = true;
                for (n, v) in o {
                    ok &= match t.fields.get(n.as_str()) {
                        Some(f) => {
                            let ty = f.ty.as_ref().unwrap();
                            coerces(m, &ty.name, &ty.bangs, v)?
                        }
                        None => false,
                    };
                }
                ok && t.fields.iter().all(|(n, f)| !f.ty.as_ref().unwrap().required() || f.default.is_some() || o.contains_key(n.as_str()))
            }
            _ => false,
        },
        _ => return None,
    })
}

/// Is the field set valid on the type? None: unspecified here.
fn valid_set(m: &M, ty: &str, set: &SelectionSet) -> Option<bool> {
    let mut ok = true;
    let t = m.types.get(ty);
    for s in &set.items {
        ok &= match &s.node {
            Selection::Field(f) => {
                let f = &f.node;
                if f.alias.is_some() || !f.directives.is_empty() {
                    return None;
                }
                let sub = &f.selection_set.node;
                if f.name.node == "__typename" {
                    f.arguments.is_empty() && sub.items.is_empty()
                } else {
                    match t.and_then(|t| t.fields.get(f.name.node.as_str())) {
                        None => false,
                        Some(e) => {
                            let mut ok = true;
                            for (i, (n, v)) in f.arguments.iter().enumerate() {
                                if f.arguments[..i].iter().any(|(o, _)| o.node == n.node) {
                                    return None;
                                }
                                ok &= match e.args.get(n.node.as_str()) {
                                    None => false,
                                    Some(a) => {
                                        let ty = a.ty.as_ref().unwrap();
                                        coerces(m, &ty.name, &ty.bangs, &v.node)?
                                    }
                                };
                            }
                            let given = |a: &String| f.arguments.iter().any(|(n, _)| n.node.as_str() == a);
                            ok &= e.args.iter().all(|(n, a)| !a.ty.as_ref().unwrap().required() || a.default.is_some() || given(n));
                            let of = &e.ty.as_ref().unwrap().name;
                            let composite = m.types.get(of).is_some_and(|t| matches!(t.kind, K::Object | K::Interface | K::Union));
                            if sub.items.is_empty() {
                                // nothing selected of a composite type
                                if composite && ok {
                                    return None;
                                }
                                ok
                            } else {
                                ok && composite && valid_set(m, of, sub)?
                            }
                        }
                    }
                }
            }
            Selection::InlineFragment(f) => {
                let f = &f.node;
                if !f.directives.is_empty() {
                    return None;
                }
                match &f.type_condition {
                    None => false,
                    Some(c) => {
                        let c = c.node.on.node.as_str();
                        let known = m.types.get(c).is_some_and(|t| matches!(t.kind, K::Object | K::Interface | K::Union));
                        if known && c != ty && t.is_none_or(|t| t.kind == K::Object) && m.types[c].kind == K::Object {
                            // a fragment that never applies
                            return None;
                        }
                        known && valid_set(m, c, &f.selection_set.node)?
                    }
                }
            }
            _ => false,
        };
    }
    Some(ok)
}

fn set_places(place: usize, set: &str) -> (String, &'static str) {
    let q: String = set.chars().flat_map(|c| if c == '"' || c == '\\' { vec!['\\', c] } else { vec![c] }).collect();
    let others = "type N { m: Int k: X g(w: E = P): Int } union U = N | M interface I { j: Int o: I } type M implements I { j: Int o: I } enum E { P Q } input In { a: Int! b: [In!] c: E = P d: Int! = 3 } scalar Any";
    let fields = "id: ID! n: N e: E a(x: Int, y: Int! = 1): Int r(z: Int!): N u: U i: I l: [N!]! v(y: Int ARGS): Int";
    let ext: String = ["id: ID!", "n: N", "e: E", "a(x: Int, y: Int! = 1): Int", "r(z: Int!): N", "u: U", "i: I", "l: [N!]!", "v(y: Int ARGS): Int"].iter().map(|f| format!("{f} @external ")).collect();
    let t = match place {
        0 => (format!("type Query {{ q: X }} type X @key(fields: \"{q}\") {{ {fields} }} {others}"), "X"),
        1 => (format!("type Query {{ q: X }} type X @key(fields: \"h\") {{ h: ID! {ext} t: Int @requires(fields: \"{q}\") }} {others}"), "X"),
        _ => (format!("type Query {{ q: X @provides(fields: \"{q}\") }} type X @key(fields: \"h\") {{ h: ID! {ext} }} {others}"), "X"),
    };
    t
}

/// `set` as a key (0), in @requires (1) or in @provides (2); `args`: those of the field v.
fn c14_oracle(place: usize, set: &str, args: &str) {
    let (sdl, ty) = set_places(place, set);
    let sdl = sdl.replace("ARGS", args);
    let c = case(&sdl);
    let m = &c.subs[0].m;
    let parsed = selection(set);
    // the parser of the code under test takes empty parentheses
    let compact: String = set.chars().filter(|c| !" ,\n".contains(*c)).collect();
    wrt::assume(!compact.contains("()"));
    let want = match &parsed {
        None => Some(false),
        Some(set) => valid_set(m, ty, set),
    };
    // ingesting may fail as well
    c.ensure(want != Some(true) || !c.failed(), || format!("a valid field set is rejected: {set}"));
    c.ensure(want != Some(false) || c.failed(), || format!("an invalid field set is accepted: {set}"));
    let (Some(o), Some(parsed), Some(true)) = (&c.out, &parsed, want) else { return };
    wrt::reach(3);
    let dirs = |n: &str, f: &str, d: &str, a: &str| -> Vec<String> {
        let t = &o.fed.types[n];
        let l = if f.is_empty() { &t.dirs } else { &t.fields[f].dirs };
        get(l, d).iter().filter_map(|d| d.str(a)).collect()
    };
    let got = match place {
        0 => dirs("X", "", "join__type", "key"),
        1 => dirs("X", "t", "join__field", "requires"),
        _ => dirs("Query", "q", "join__field", "provides"),
    };
    c.ensure(got.len() == 1 && norm(&got[0]) == set_text(parsed), || format!("the field set became {got:?}"));
}

const SET_TOP: [&str; 27] = [
    "id", "e", "n { % }", "u { % }", "i { % }", "l { % }", "r(z: 1) { % }", "... on X { % }", "zz", "__typename", "__typename { id }", "__typename(a: 1)", "a", "a(x: 1)", "a(y: 2, x: null)", "a(y: null)", "a(w: 1)",
    "a(x: 's')", "r { m }", "r(z: null) { m }", "id { x }", "e { P }", "... on Zed { id }", "... { id }", "... on E { P }", "... on In { a }", "n { ... on N { % } }",
];
const SET_SUB: [&str; 12] = ["m", "j", "id", "zz", "k { id }", "k { zz }", "k { n { m } }", "g(w: Q)", "... on N { m }", "... on M { j }", "... on I { o { j } }", "__typename"];
const SET_NEXT: [&str; 6] = ["", "id", "zz", "n { m }", "a(x: 3)", "... on X { e }"];

pub fn c14_sets() {
    let place = opt("place", 3);
    let t = SET_TOP[opt("top", SET_TOP.len())];
    let mut set = if t.contains('%') { t.replace('%', SET_SUB[opt("sub", SET_SUB.len())]) } else { t.to_string() };
    let next = SET_NEXT[opt("next", wrt::param(0) as usize)];
    if opt("first", 2) == 1 {
        wrt::assume(!next.is_empty());
        set = format!("{next} {set}");
    } else {
        set = format!("{set} {next}");
    }
    c14_oracle(place, &set.replace('\'', "\""), "");
}

/// Every kind of value for every type of argument.
pub fn c14_values() {
    let place = opt("place", 1 + wrt::param(0) as usize);
    let ty = wrt::pick("type", &["Int", "Float", "String", "Boolean", "ID", "E", "In", "Any"]);
    let ty = ["%", "%!", "[%]", "[%!]", "[[%!]]"][opt("wrap", 5)].replace('%', ty);
    let default = if opt("absent", 2) == 1 { wrt::pick("default", &["", " = null"]) } else { "" };
    wrt::assume(default.is_empty() || !ty.ends_with('!'));
    let values = [
        "1", "-7", "99999999999", "1.5", "\"s\"", "\"\"", "true", "null", "P", "R", "[]", "[1]", "[1, null]", "[\"s\"]", "[[P]]", "[[1], null, [2, 3]]", "{}", "{a: 1}", "{a: null}", "{a: 1, b: {a: 2}}", "{a: 1, b: [{a: 2, c: R}]}",
        "{a: 1, z: 2}", "{a: 1, d: 4}", "{a: 1, d: null}", "{d: 1}", "[{a: 1}]", "$v", "{a: $v}",
    ];
    let v = wrt::pick("value", &values);
    c14_oracle(place, &format!("v(x: {v}) id"), &format!("x: {ty}{default}"));
}

/// Any text over an alphabet.
pub fn c14_words() {
    let n = wrt::param(0) as usize;
    let t = wrt::pick("template", &["%", "id %", "n { % }", "a(%)", "... on X % }", "% { m }"]);
    let w = wrt::word("text", n, b" idnmaex{}():1.,#$@");
    c14_oracle(opt("place", 1), &t.replace('%', &w), "");
}

wrt::checks!(c02_types, c03_types, c03_defaults, c04_enums, c05_hide, c05_implements, c06_guards, c06_links, c07_sharing, c08_kinds, c09_routes,
    c10_families, c10_text, c10_values, c11_families, c11_elements, c12_broken, c12_words, c13_meta, c13_numbers, c14_sets, c14_values, c14_words, c42_styles, c42_names, c42_unknown,
    c43_links, c43_places, c44_uses, c44_definitions, c45_marks, c45_batch, c45_rules);
