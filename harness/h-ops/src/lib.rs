//! C18 (breaking changes are flagged), C19 (harmless ones are not), C20 (usage counts).
use async_graphql_parser::types as ast;
use async_graphql_parser::types::{BaseType, Type, TypeKind, TypeSystemDefinition as Def};
use async_graphql_parser::{parse_query, parse_schema};
use async_graphql_value::Value;
use graphql_schema_diff::{Change, ChangeKind, diff};
use operation_checks::{CheckDiagnostic, CheckParams, FieldUsage, Operation, Schema, Severity, aggregate_field_usage, check, check_assuming_all_used};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- what a schema says

type Key = String;

#[derive(Default)]
struct Facts {
    /// path -> (type, has a default)
    fields: BTreeMap<Key, (Type, bool)>,
    args: BTreeMap<Key, (Type, bool)>,
    enums: BTreeSet<Key>,
    /// "union.member", "interface.implementer"
    members: BTreeSet<Key>,
    impls: BTreeSet<Key>,
    /// type -> is it an input object
    types: BTreeMap<Key, bool>,
    roots: [String; 3],
}

fn facts(d: &ast::ServiceDocument) -> Facts {
    let mut f = Facts { roots: ["Query".into(), "Mutation".into(), "Subscription".into()], ..Facts::default() };
    for d in &d.definitions {
        match d {
            Def::Schema(s) => {
                for (i, r) in [&s.node.query, &s.node.mutation, &s.node.subscription].into_iter().enumerate() {
                    if let Some(r) = r {
                        f.roots[i] = r.node.to_string();
                    }
                }
            }
            Def::Directive(_) => {}
            Def::Type(t) => {
                let n = t.node.name.node.as_str();
                f.types.insert(n.into(), matches!(t.node.kind, TypeKind::InputObject(_)));
                let mut fields = |impls: &[async_graphql_parser::Positioned<async_graphql_value::Name>], fs: &[async_graphql_parser::Positioned<ast::FieldDefinition>]| {
                    for i in impls {
                        f.impls.insert(format!("{}.{n}", i.node));
                    }
                    for x in fs {
                        let p = format!("{n}.{}", x.node.name.node);
                        for a in &x.node.arguments {
                            f.args.insert(format!("{p}.{}", a.node.name.node), (a.node.ty.node.clone(), a.node.default_value.is_some()));
                        }
                        f.fields.insert(p, (x.node.ty.node.clone(), false));
                    }
                };
                match &t.node.kind {
                    TypeKind::Scalar => {}
                    TypeKind::Object(o) => fields(&o.implements, &o.fields),
                    TypeKind::Interface(o) => fields(&o.implements, &o.fields),
                    TypeKind::Union(u) => {
                        for m in &u.members {
                            f.members.insert(format!("{n}.{}", m.node));
                        }
                    }
                    TypeKind::Enum(e) => {
                        for v in &e.values {
                            f.enums.insert(format!("{n}.{}", v.node.value.node));
                        }
                    }
                    TypeKind::InputObject(i) => {
                        for x in &i.fields {
                            f.fields.insert(format!("{n}.{}", x.node.name.node), (x.node.ty.node.clone(), x.node.default_value.is_some()));
                        }
                    }
                }
            }
        }
    }
    f
}

fn base(t: &Type) -> &str {
    match &t.base {
        BaseType::Named(n) => n.as_str(),
        BaseType::List(t) => base(t),
    }
}

fn eq(s: &Type, t: &Type) -> bool {
    s.nullable == t.nullable
        && match (&s.base, &t.base) {
            (BaseType::Named(a), BaseType::Named(b)) => a == b,
            (BaseType::List(a), BaseType::List(b)) => eq(a, b),
            _ => false,
        }
}

/// Everything of type `s` can stand where `t` is expected.
fn fits(s: &Type, t: &Type) -> bool {
    (t.nullable || !s.nullable)
        && match (&s.base, &t.base) {
            (BaseType::Named(a), BaseType::Named(b)) => a == b,
            (BaseType::List(a), BaseType::List(b)) => fits(a, b),
            _ => false,
        }
}

fn required((t, default): &(Type, bool)) -> bool {
    !t.nullable && !default
}

/// What was provided for `s` is fine for `t` (a default makes up for a missing outer value).
fn provided_fits((s, sd): &(Type, bool), (t, td): &(Type, bool)) -> bool {
    let mut t = t.clone();
    if *td && (s.nullable || *sd) {
        t.nullable = true;
    }
    fits(s, &t)
}

// ---------------------------------------------------------------- what operations use

#[derive(Default)]
struct Usage {
    fields: BTreeMap<Key, u64>,
    args: BTreeMap<Key, u64>,
    left_out: BTreeMap<Key, u64>,
    enums: BTreeMap<Key, u64>,
    conditions: BTreeMap<Key, u64>,
}

fn literals(v: &Value, ty: &str, f: &Facts, out: &mut Vec<Key>) {
    match v {
        Value::Enum(e) => out.push(format!("{ty}.{e}")),
        Value::List(l) => l.iter().for_each(|v| literals(v, ty, f, out)),
        Value::Object(o) => {
            for (n, v) in o {
                if let Some((t, _)) = f.fields.get(&format!("{ty}.{n}")) {
                    literals(v, base(t), f, out)
                }
            }
        }
        _ => {}
    }
}

fn walk(doc: &ast::ExecutableDocument, set: &ast::SelectionSet, parent: &str, f: &Facts, by: u64, u: &mut Usage) {
    let add = |m: &mut BTreeMap<Key, u64>, k: Key| *m.entry(k).or_insert(0) += by;
    for s in &set.items {
        match &s.node {
            ast::Selection::Field(x) => {
                let x = &x.node;
                let p = format!("{parent}.{}", x.name.node);
                let Some((ty, _)) = f.fields.get(&p) else { continue };
                add(&mut u.fields, p.clone());
                for (n, v) in &x.arguments {
                    let q = format!("{p}.{}", n.node);
                    if let Some((t, _)) = f.args.get(&q) {
                        let mut l = Vec::new();
                        literals(&v.node, base(t), f, &mut l);
                        l.into_iter().for_each(|k| add(&mut u.enums, k));
                        add(&mut u.args, q);
                    }
                }
                for (q, (t, d)) in &f.args {
                    if let Some(n) = q.strip_prefix(&format!("{p}."))
                        && !t.nullable
                        && *d
                        && !x.arguments.iter().any(|(m, _)| m.node == n)
                    {
                        add(&mut u.left_out, q.clone());
                    }
                }
                walk(doc, &x.selection_set.node, base(ty), f, by, u);
            }
            ast::Selection::FragmentSpread(x) => {
                let Some(x) = doc.fragments.get(&x.node.fragment_name.node) else { continue };
                let on = x.node.type_condition.node.on.node.as_str();
                add(&mut u.conditions, format!("{parent}.{on}"));
                walk(doc, &x.node.selection_set.node, on, f, by, u);
            }
            ast::Selection::InlineFragment(x) => {
                let on = match &x.node.type_condition {
                    Some(t) => {
                        add(&mut u.conditions, format!("{parent}.{}", t.node.on.node));
                        t.node.on.node.as_str()
                    }
                    None => parent,
                };
                walk(doc, &x.node.selection_set.node, on, f, by, u);
            }
        }
    }
}

fn used(doc: &ast::ExecutableDocument, f: &Facts, by: u64, u: &mut Usage) {
    let (_, op) = doc.operations.iter().next().unwrap();
    let root = match op.node.ty {
        ast::OperationType::Query => 0,
        ast::OperationType::Mutation => 1,
        ast::OperationType::Subscription => 2,
    };
    for v in &op.node.variable_definitions {
        if let Some(d) = &v.node.default_value {
            let mut l = Vec::new();
            literals(&d.node.clone().into_value(), base(&v.node.var_type.node), f, &mut l);
            l.into_iter().for_each(|k| *u.enums.entry(k).or_insert(0) += by);
        }
    }
    walk(doc, &op.node.selection_set.node, &f.roots[root], f, by, u);
}

/// Everything there is.
fn all_used(f: &Facts) -> Usage {
    let mut u = Usage::default();
    let output = |p: &str| !f.types[p.split('.').next().unwrap()];
    u.fields = f.fields.keys().filter(|k| output(k)).map(|k| (k.clone(), 1)).collect();
    u.args = f.args.keys().map(|k| (k.clone(), 1)).collect();
    u.left_out = f.args.iter().filter(|(_, (t, d))| !t.nullable && *d).map(|(k, _)| (k.clone(), 1)).collect();
    u.enums = f.enums.iter().map(|k| (k.clone(), 1)).collect();
    u.conditions = f.members.iter().chain(&f.impls).map(|k| (k.clone(), 1)).collect();
    u
}

fn used_inputs(f: &Facts, u: &Usage) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut todo: Vec<String> = u.args.keys().map(|a| base(&f.args[a].0).to_string()).collect();
    while let Some(t) = todo.pop() {
        if f.types.get(&t) == Some(&true) && out.insert(t.clone()) {
            let p = format!("{t}.");
            todo.extend(f.fields.iter().filter(|(k, _)| k.starts_with(&p)).map(|(_, (t, _))| base(t).to_string()));
        }
    }
    out
}

// ---------------------------------------------------------------- what breaks

/// The elements whose change breaks a used operation, and those where a report is a matter of taste.
fn breaking(s: &Facts, t: &Facts, u: &Usage, inputs: &BTreeSet<String>) -> (BTreeSet<Key>, BTreeSet<Key>) {
    let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
    let owner = |p: &str| p.split('.').next().unwrap().to_string();
    let field_of = |p: &str| p.rsplit_once('.').unwrap().0.to_string();
    let kept = |p: &str| s.types.contains_key(&owner(p)) && s.types.get(&owner(p)) == t.types.get(&owner(p));
    for (p, old) in &s.fields {
        let input = s.types[&owner(p)];
        if !(if input { inputs.contains(&owner(p)) } else { u.fields.contains_key(p) }) {
            continue;
        }
        match t.fields.get(p) {
            None if kept(p) => {
                must.insert(p.clone());
            }
            None if s.roots.contains(&owner(p)) => {
                must.insert(owner(p));
            }
            None => {}
            Some(new) if input => {
                if !fits(&old.0, &new.0) {
                    (if provided_fits(old, new) { &mut may } else { &mut must }).insert(p.clone());
                }
            }
            Some(new) => {
                if !fits(&new.0, &old.0) {
                    must.insert(p.clone());
                }
            }
        }
    }
    for (p, new) in &t.fields {
        if inputs.contains(&owner(p)) && kept(p) && !s.fields.contains_key(p) && required(new) {
            must.insert(p.clone());
        }
    }
    for (p, old) in &s.args {
        let f = field_of(p);
        if !u.fields.contains_key(&f) || !t.fields.contains_key(&f) {
            continue;
        }
        let provided = u.args.contains_key(p);
        match t.args.get(p) {
            None if provided => {
                must.insert(p.clone());
            }
            None => {}
            Some(new) => {
                if !required(old) && required(new) {
                    // when every operation provides it the report is a warning about the others
                    let lacking = u.left_out.contains_key(p) || old.0.nullable;
                    (if lacking || provided && !provided_fits(old, new) { &mut must } else { &mut may }).insert(p.clone());
                }
                if provided && !provided_fits(old, new) {
                    must.insert(p.clone());
                }
            }
        }
    }
    for (p, new) in &t.args {
        let f = field_of(p);
        if u.fields.contains_key(&f) && s.fields.contains_key(&f) && !s.args.contains_key(p) && required(new) {
            must.insert(p.clone());
        }
    }
    for p in u.enums.keys() {
        if s.enums.contains(p) && !t.enums.contains(p) && kept(p) {
            must.insert(p.clone());
        }
    }
    for p in u.conditions.keys() {
        let (a, b) = p.split_once('.').unwrap();
        if s.members.contains(p) && !t.members.contains(p) && kept(p) {
            must.insert(p.clone());
        }
        if s.impls.contains(p) && !t.impls.contains(p) {
            if !t.types.contains_key(b) {
                must.insert(b.to_string());
            } else {
                must.insert(format!("{b}.&{a}"));
            }
        }
    }
    may.extend(must.iter().cloned());
    (must, may)
}

fn verdict(name: &str, s: &Facts, t: &Facts, u: &Usage, inputs: &BTreeSet<String>, changes: &[Change], d: &[CheckDiagnostic], about: &str) {
    let (must, may) = breaking(s, t, u, inputs);
    for d in d {
        wrt::ensure!(changes.iter().any(|c| c.path == d.path && c.kind == d.change_kind), "{about}: {} is reported but did not change", d.path);
        wrt::ensure!(d.message.contains(d.path.split(['.', '&']).next_back().unwrap()), "{about}: {:?} does not name {}", d.message, d.path);
    }
    let reported: BTreeSet<&str> = d.iter().map(|d| d.path.as_str()).collect();
    match name {
        "C18" => {
            for p in &must {
                wrt::ensure!(reported.contains(p.as_str()), "{about}: {p} breaks an operation and is not reported");
                wrt::reach(1);
            }
        }
        _ => {
            for d in d.iter().filter(|d| matches!(d.severity, Severity::Error)) {
                wrt::ensure!(may.contains(&d.path), "{about}: {} is reported ({}) and breaks nothing", d.path, d.message);
                wrt::reach(1);
            }
        }
    }
    if must.is_empty() {
        wrt::reach(2);
    }
    wrt::observe("reported", format!("{reported:?}").as_bytes());
}

fn decide(name: &str, source: &str, target: &str, op: &str) {
    let about = format!("{source:?} to {target:?} with {op:?}");
    let (Ok(sd), Ok(td), Ok(o)) = (parse_schema(source), parse_schema(target), parse_query(op)) else { wrt::failed(&format!("not parsed: {about}")) };
    let (s, t) = (facts(&sd), facts(&td));
    let (ss, ts): (Schema, Schema) = (sd.into(), td.into());
    let changes = diff(source, target).unwrap_or_else(|e| wrt::failed(&format!("{about}: {e}")));
    let mut u = Usage::default();
    used(&o, &s, 1, &mut u);
    let o: Operation = o.into();
    let mut usage = FieldUsage::default();
    aggregate_field_usage(&o, &ss, &mut usage);
    let d = check(&CheckParams { source: &ss, target: &ts, diff: &changes, field_usage: &usage });
    verdict(name, &s, &t, &u, &used_inputs(&s, &u), &changes, &d, &about);
}

fn decide_all(name: &str, source: &str, target: &str) {
    let about = format!("{source:?} to {target:?} with everything used");
    let (Ok(sd), Ok(td)) = (parse_schema(source), parse_schema(target)) else { wrt::failed(&format!("not parsed: {about}")) };
    let (s, t) = (facts(&sd), facts(&td));
    let (ss, ts): (Schema, Schema) = (sd.into(), td.into());
    let changes = diff(source, target).unwrap_or_else(|e| wrt::failed(&format!("{about}: {e}")));
    let d = check_assuming_all_used(&ss, &ts, &changes);
    let inputs = s.types.iter().filter(|(_, i)| **i).map(|(k, _)| k.clone()).collect();
    verdict(name, &s, &t, &all_used(&s), &inputs, &changes, &d, &about);
}

// ---------------------------------------------------------------- families of schemas and operations

struct Case {
    schema: &'static str,
    holes: &'static [&'static [&'static str]],
    ops: &'static [&'static str],
}

const ARG: &[&str] = &["", "a: I", "a: I!", "a: I = 1", "a: I! = 1", "a: J", "a: [I]", "a: [I!]", "a: [I]!", "a: [I!]!", "a: [I!] = []", "a: [I!]! = []", "a: [[I]]"];
const OUT: &[&str] = &["", "x: I", "x: I!", "x: J", "x: [I]", "x: [I!]", "x: [I]!", "x: [I!]!", "x: [[I!]]"];

const CASES: &[Case] = &[
    Case {
        schema: "type Query { f(? b: I): S g: S }",
        holes: &[ARG],
        ops: &["{g}", "{f}", "{f(a: 1)}", "{f(b: 1)}", "{x: f(a: 1) f}", "{...on Query{f(a: 1)}}", "{...F} fragment F on Query{f(a: 1)}", "query($v: I = 1){f(a: $v)}"],
    },
    Case {
        schema: "type Query { f: N! g(a: I! = 1): I } interface N { f(? b: I! = 2): S } type A implements N { f(a: I b: I): S }",
        holes: &[ARG],
        ops: &["{f{f}}", "{f{f(a: 1 b: 1)}}", "{f{...on A{f(a: 1)}}}", "{g}"],
    },
    Case {
        schema: "type Query { f: T! g: T } type T { ? y: S } type U { x: I }",
        holes: &[OUT],
        ops: &["{f{x}}", "{f{y}}", "{g{x: y}}", "{g{y: x}}", "{...F} fragment F on Query {f{...G}} fragment G on T {x}"],
    },
    Case {
        schema: "type Query { f(i: [A!]): S g(b: B): S h: S } input A { ? b: B } input B { ? y: S } input C { x: I }",
        holes: &[&["", "x: I", "x: I!", "x: I! = 1", "x: I = 1", "x: J!", "x: [I]", "x: [I!]"], &["", "z: I", "z: I!", "z: I! = 1"]],
        ops: &["{f}", "{f(i: [])}", "{g(b: {})}", "{h}"],
    },
    Case {
        schema: "type Query { f(e: E): S g(l: [E!]): S h(o: O): S } input O { e: E l: [O] } enum E {A ?} enum F {A B}",
        holes: &[&["", "B", "C", "B C"]],
        ops: &["{f}", "{f(e: B)}", "{f(e: A)}", "{g(l: [A, B])}", "{h(o: {e: B})}", "{h(o: {l: [{e: A}, {e: C}]})}", "query($e: E = B){f(e: $e)}", "query($e: [E!] = [C]){g(l: $e)}", "query($o: O = {e: C}){h(o: $o)}"],
    },
    Case {
        schema: "type Query { u: U n: N } union U = A ? type A implements N { a: I } type B ?{ a: I } interface N { a: I }",
        holes: &[&["", "| B", "| B | C", "| C"], &["", "implements N"]],
        ops: &["{u{...on A{a}}}", "{u{...on B{a}}}", "{u{...F}} fragment F on B{a}", "{n{...on B{a}}}", "{n{...F}} fragment F on B{a}", "{n{a}}", "{u{...{__typename ...on B{a}}}}", "{u{...on N{...on B{a}}}}"],
    },
    Case {
        schema: "type Query { n: N } interface N { a: I } ? type A { a: I }",
        holes: &[&["", "type B implements N { a: I }", "type B { a: I }", "type B implements N & M { a: I } interface M { a: I }"]],
        ops: &["{n{...on B{a}}}", "{n{a}}"],
    },
    Case {
        schema: "? ?",
        holes: &[
            &["type Query { a: I b: I } type Q {a: I}", "type Query { b: I } type Q {b: I}", "type Query { a: I! }", "type Q { a: I b: I }"],
            &["", "schema{query: Q mutation: M} type M { x(a: I = 1): I }", "schema{query: Q mutation: M} type M { x(a: I!): I }", "type Mutation { x: I }", "schema{query: Q subscription: Q}"],
        ],
        ops: &["{a}", "mutation{x}", "subscription{b}"],
    },
];

fn render(n: &str, c: &Case) -> String {
    let mut out = String::new();
    for (i, p) in c.schema.split('?').enumerate() {
        if i > 0 {
            out += wrt::pick(&format!("{n}{}", i - 1), c.holes[i - 1]);
        }
        out += p;
    }
    out
}

fn cases(name: &str) {
    let (lo, hi) = (wrt::param(0) as u8, wrt::param(1) as u8);
    let i = wrt::choose("case", CASES.len() as u8);
    wrt::assume(i >= lo && i < hi);
    let c = &CASES[wrt::pin(i as u64) as usize];
    let mut ops = vec!["all"];
    ops.extend(c.ops);
    let op = wrt::pick("operation", &ops);
    let (s, t) = (render("source", c), render("target", c));
    if op == "all" { decide_all(name, &s, &t) } else { decide(name, &s, &t, op) }
}

pub fn c18_cases() {
    cases("C18")
}

pub fn c19_cases() {
    cases("C19")
}

// ---------------------------------------------------------------- nullability at every level, symbolic

fn wrapped(n: &str, depth: u64, base: &str) -> Type {
    let mut t = Type { base: BaseType::Named(async_graphql_value::Name::new(base)), nullable: wrt::flag(&format!("{n}.inner")) };
    for i in 0..depth {
        t = Type { base: BaseType::List(Box::new(t)), nullable: wrt::flag(&format!("{n}.list{i}")) };
    }
    t
}

/// One element whose type has any lists and nullability on both sides.
fn wraps(name: &str) {
    let max = wrt::param(0) as u8;
    let text = |arg: &str, out: &str, inp: &str| format!("type Query {{ f(a: {arg}): {out} g(o: A): I }} input A {{ x: {inp} }}");
    let d = |n: &str| wrt::pin(wrt::choose(n, max + 1) as u64);
    let (ds, dt) = (d("source.depth"), d("target.depth"));
    let def = |n: &str| if wrt::pin(wrt::flag(n) as u64) == 1 { "I = 1" } else { "I" };
    let (a, b) = (text(def("source.default"), "I", "I"), text(def("target.default"), "I", "I"));
    let (sw, tw) = (wrapped("source", ds, "I"), wrapped("target", dt, wrt::pick("base", &["I", "J"])));
    let place = wrt::pick("place", &["argument", "output", "input"]);
    let put = |s: &str, w: &Type| {
        let mut d = parse_schema(s).unwrap();
        for d in &mut d.definitions {
            let Def::Type(t) = d else { continue };
            match &mut t.node.kind {
                TypeKind::Object(o) => match place {
                    "argument" => o.fields[0].node.arguments[0].node.ty.node = w.clone(),
                    "output" => o.fields[0].node.ty.node = w.clone(),
                    _ => {}
                },
                TypeKind::InputObject(i) if place == "input" => i.fields[0].node.ty.node = w.clone(),
                _ => {}
            }
        }
        d
    };
    let (sd, td) = (put(&a, &sw), put(&b, &tw));
    let (s, t) = (facts(&sd), facts(&td));
    let (ss, ts): (Schema, Schema) = (sd.into(), td.into());
    if eq(&sw, &tw) {
        return;
    }
    let (path, kind) = match place {
        "argument" => ("Query.f.a", ChangeKind::ChangeFieldArgumentType),
        "output" => ("Query.f", ChangeKind::ChangeFieldType),
        _ => ("A.x", ChangeKind::ChangeFieldType),
    };
    let mut changes = diff(&a, &b).unwrap();
    let mut any = diff("scalar A", "scalar B").unwrap().remove(0);
    any.path = path.into();
    any.kind = kind;
    changes.push(any);
    let o = parse_query(wrt::pick("operation", &["{f}", "{f(a: 1)}", "{f(a: 1) g(o: {x: 1})}", "{g}"])).unwrap();
    let mut u = Usage::default();
    used(&o, &s, 1, &mut u);
    let o: Operation = o.into();
    let mut usage = FieldUsage::default();
    aggregate_field_usage(&o, &ss, &mut usage);
    let d = check(&CheckParams { source: &ss, target: &ts, diff: &changes, field_usage: &usage });
    verdict(name, &s, &t, &u, &used_inputs(&s, &u), &changes, &d, &format!("{place} {sw} to {tw}, {a:?} to {b:?}"));
}

pub fn c18_wraps() {
    wraps("C18")
}

pub fn c19_wraps() {
    wraps("C19")
}

// ---------------------------------------------------------------- names, in any order

/// The names of types, fields and arguments are letters in any order: nothing depends on how they sort.
fn names(name: &str) {
    let letter = |n: &str, lo: u8| {
        let c = wrt::u8(n);
        wrt::assume(c == lo || c == lo + 12 || c == lo + 25);
        c as char
    };
    let (t, f, g, p, q) = (letter("type", b'A'), letter("field", b'a'), letter("field2", b'a'), letter("argument", b'a'), letter("argument2", b'a'));
    wrt::assume(f != g && p != q);
    let doc = |root: &str, [a, b, c, d]: [&str; 4]| format!("schema {{ query: {root} }} type {root} {{ {f}({p}: S{a} {q}: S{b}): {t} {g}({q}: S{c}): S }} type {t} {{ {g}({p}: S{d}): S }}");
    let root = "Mbc";
    let with = "! = 1";
    let source = doc(root, [with; 4]);
    let mut changed = [with; 4];
    changed[wrt::pin(wrt::choose("changed", 4) as u64) as usize] = wrt::pick("to", &["!", ""]);
    let target = doc(root, changed);
    let op = match wrt::pin(wrt::choose("operation", 5) as u64) {
        0 => format!("{{ {f} {{ {g} }} }}"),
        1 => format!("{{ {f}({p}: 1) {{ {g}({p}: 1) }} }}"),
        2 => format!("{{ {f}({q}: 1) {{ {g} }} }}"),
        3 => format!("{{ {g} }}"),
        _ => format!("{{ {g}({q}: 1) {f}({p}: 1, {q}: 2) {{ __typename }} }}"),
    };
    decide(name, &source, &target, &op)
}

pub fn c18_names() {
    names("C18")
}

pub fn c19_names() {
    names("C19")
}

// ---------------------------------------------------------------- C20

const PIECES: &[&str] = &[
    "",
    "f",
    "x: f f(a: 1)",
    "f(b: 2)",
    "t { n }",
    "t { n ...F t { ...F } }",
    "... { t { n } }",
    "... on Query { t { n m(o: {e: X l: [{e: Y}]}) } }",
    "...G",
    "u { ... on A { n } ... on B { m } }",
    "u { ...H ... on A { ...H } }",
    "e(l: [X, Y])",
    "i { n(a: 1) ...on A { n ...{n} } }",
    "unknown(a: 1) e(z: 1)",
];

const COUNTED: &str = "type Query { f(a: I! = 1 b: I! = 2): I t: T! u: U i: N e(l: [E!]! = []): I } type T { n: I m(o: O): I t: [T!]! } union U = A | B type A implements N { n(a: I! = 1): I } type B { m: I } interface N { n(a: I! = 1): I } enum E { X Y Z } input O { e: E l: [O!] }";

pub fn c20_counts() {
    let (pieces, max) = (PIECES.len() as u8, wrt::param(0) as usize);
    let n = wrt::pin(wrt::choose("operations", max as u8 + 1) as u64) as usize;
    let target = COUNTED.replace(" = 1", "").replace(" = 2", "").replace(" = []", "");
    let (sd, td) = (parse_schema(COUNTED).unwrap(), parse_schema(&target).unwrap());
    let s = facts(&sd);
    let (ss, ts): (Schema, Schema) = (sd.into(), td.into());
    let mut u = Usage::default();
    let mut usage = FieldUsage::default();
    for i in 0..n {
        let kind = wrt::pick(&format!("kind{i}"), if i == 0 { &["query {", "mutation {", "query($e: [E] = [Z, X]) {"] } else { &["query {"][..] });
        let a = PIECES[wrt::pin(wrt::choose(&format!("piece{i}"), pieces) as u64) as usize];
        // the second selection of one operation varies, too
        let b = if i == 0 { PIECES[wrt::pin(wrt::choose("other", pieces) as u64) as usize] } else { "" };
        if kind == "mutation {" && i == 0 && !b.is_empty() {
            return;
        }
        let text = format!("{kind} __typename {a} {b} }} fragment F on T {{ n m }} fragment G on Query {{ f(a: 1 b: 1) t {{ ...F }} }} fragment H on A {{ n }}");
        let o = parse_query(&text).unwrap_or_else(|e| wrt::failed(&format!("{text}: {e}")));
        let by = wrt::u64(&format!("requests{i}"));
        wrt::assume(by < 1 << 56);
        used(&o, &s, by, &mut u);
        usage.set_increment(by);
        aggregate_field_usage(&o.into(), &ss, &mut usage);
    }
    let threshold = wrt::u64("threshold");
    let limited = wrt::pin(wrt::flag("limited") as u64) == 1;
    if limited {
        usage.apply_request_count_threshold(threshold);
    }
    let any = diff("scalar A", "scalar B").unwrap().remove(0);
    let mut changes = Vec::new();
    let mut add = |p: &str, kind| {
        let mut c = any.clone();
        c.path = p.into();
        c.kind = kind;
        changes.push(c);
    };
    s.fields.keys().filter(|k| !k.starts_with("O.")).for_each(|k| add(k, ChangeKind::RemoveField));
    for k in s.args.keys() {
        add(k, ChangeKind::RemoveFieldArgument);
        add(k, ChangeKind::RemoveFieldArgumentDefault);
    }
    s.enums.iter().for_each(|k| add(k, ChangeKind::RemoveEnumValue));
    s.members.iter().for_each(|k| add(k, ChangeKind::RemoveUnionMember));
    s.impls.iter().for_each(|k| {
        let (a, b) = k.split_once('.').unwrap();
        add(&format!("{b}.&{a}"), ChangeKind::RemoveInterfaceImplementation)
    });
    let d = check(&CheckParams { source: &ss, target: &ts, diff: &changes, field_usage: &usage });
    for c in &changes {
        let reported = d.iter().any(|d| d.path == c.path && d.change_kind == c.kind);
        let count = match c.kind {
            ChangeKind::RemoveField => u.fields.get(&c.path),
            ChangeKind::RemoveFieldArgument => u.args.get(&c.path),
            ChangeKind::RemoveFieldArgumentDefault => u.left_out.get(&c.path),
            ChangeKind::RemoveEnumValue => u.enums.get(&c.path),
            ChangeKind::RemoveUnionMember => u.conditions.get(&c.path),
            _ => {
                let (a, b) = c.path.split_once(".&").unwrap();
                u.conditions.get(&format!("{b}.{a}"))
            }
        };
        let expected = count.is_some_and(|n| !limited || *n >= threshold);
        wrt::ensure!(reported == expected, "{:?} of {} is reported: {reported}; {count:?} requests, at least {threshold} count (limited: {limited})", c.kind, c.path);
    }
    wrt::observe("reported", &(d.len() as u32).to_le_bytes());
    wrt::reach(if d.is_empty() { 1 } else { 2 });
}

wrt::checks!(c18_cases, c19_cases, c18_wraps, c19_wraps, c18_names, c19_names, c20_counts);
