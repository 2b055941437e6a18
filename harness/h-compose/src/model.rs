//! Documents as seen by the oracle: parsed with async-graphql-parser, not with the parser the code under test uses.
use async_graphql_parser::types as ast;
use async_graphql_parser::types::{BaseType, Type, TypeKind, TypeSystemDefinition as Def};
use async_graphql_parser::{Positioned, parse_schema};
use async_graphql_value::ConstValue;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum K {
    Scalar,
    Object,
    Interface,
    Union,
    Enum,
    Input,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Dir {
    pub name: String,
    pub args: BTreeMap<String, ConstValue>,
}

impl Dir {
    pub fn str(&self, a: &str) -> Option<String> {
        match self.args.get(a)? {
            ConstValue::String(s) => Some(s.clone()),
            ConstValue::Enum(s) => Some(s.to_string()),
            v => Some(v.to_string()),
        }
    }
    pub fn bool(&self, a: &str) -> Option<bool> {
        match self.args.get(a)? {
            ConstValue::Boolean(b) => Some(*b),
            _ => None,
        }
    }
    pub fn strs(&self, a: &str) -> Vec<String> {
        match self.args.get(a) {
            Some(ConstValue::List(l)) => l.iter().map(|v| if let ConstValue::String(s) = v { s.clone() } else { v.to_string() }).collect(),
            _ => vec![],
        }
    }
    pub fn text(&self) -> String {
        let a: Vec<String> = self.args.iter().map(|(n, v)| format!("{n}: {v}")).collect();
        format!("@{}({})", self.name, a.join(", "))
    }
}

/// A type reference: nullability from the name outwards.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ty {
    pub name: String,
    pub bangs: Vec<bool>,
}

impl Ty {
    fn of(t: &Type) -> Ty {
        let mut r = match &t.base {
            BaseType::Named(n) => Ty { name: n.to_string(), bangs: vec![] },
            BaseType::List(t) => Ty::of(t),
        };
        r.bangs.push(!t.nullable);
        r
    }
    pub fn required(&self) -> bool {
        *self.bangs.last().unwrap()
    }
    pub fn text(&self) -> String {
        let mut s = self.name.clone();
        for (i, b) in self.bangs.iter().enumerate() {
            if i > 0 {
                s = format!("[{s}]");
            }
            if *b {
                s += "!";
            }
        }
        s
    }
}

/// A field, argument, input field or enum value.
#[derive(Clone, Debug, Default)]
pub struct El {
    pub ty: Option<Ty>,
    pub args: BTreeMap<String, El>,
    pub default: Option<ConstValue>,
    pub dirs: Vec<Dir>,
    pub desc: Option<String>,
}

#[derive(Clone, Debug)]
pub struct T {
    pub kind: K,
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
    pub fields: BTreeMap<String, El>,
    pub values: BTreeMap<String, El>,
    pub implements: Vec<String>,
    pub members: Vec<String>,
}

/// The definition of a directive.
#[derive(Clone, Debug, Default)]
pub struct DirDef {
    pub args: BTreeMap<String, El>,
    pub repeatable: bool,
    pub locations: Vec<String>,
    /// Something is defined twice.
    pub dup: bool,
}

#[derive(Clone, Debug, Default)]
pub struct M {
    pub types: BTreeMap<String, T>,
    pub roots: [Option<String>; 3],
    pub links: Vec<Dir>,
    /// Names of directive definitions.
    pub directives: Vec<String>,
    pub defs: BTreeMap<String, DirDef>,
    /// Something is defined twice.
    pub dup: bool,
}

pub const ROOTS: [&str; 3] = ["Query", "Mutation", "Subscription"];

fn dirs(d: &[Positioned<ast::ConstDirective>]) -> Vec<Dir> {
    d.iter()
        .map(|d| Dir {
            name: d.node.name.node.to_string(),
            args: d.node.arguments.iter().map(|(n, v)| (n.node.to_string(), v.node.clone())).collect(),
        })
        .collect()
}

pub fn has(d: &[Dir], n: &str) -> bool {
    d.iter().any(|d| d.name == n)
}

pub fn get<'a>(d: &'a [Dir], n: &str) -> Vec<&'a Dir> {
    d.iter().filter(|d| d.name == n).collect()
}

fn desc(d: &Option<Positioned<String>>) -> Option<String> {
    d.as_ref().map(|d| d.node.clone())
}

fn inputs(v: &[Positioned<ast::InputValueDefinition>], dup: &mut bool) -> BTreeMap<String, El> {
    let mut m = BTreeMap::new();
    for a in v {
        let a = &a.node;
        let e = El {
            ty: Some(Ty::of(&a.ty.node)),
            args: BTreeMap::new(),
            default: a.default_value.as_ref().map(|v| v.node.clone()),
            dirs: dirs(&a.directives),
            desc: desc(&a.description),
        };
        *dup |= m.insert(a.name.node.to_string(), e).is_some();
    }
    m
}

fn fields(v: &[Positioned<ast::FieldDefinition>], dup: &mut bool) -> BTreeMap<String, El> {
    let mut m = BTreeMap::new();
    for f in v {
        let f = &f.node;
        let e = El {
            ty: Some(Ty::of(&f.ty.node)),
            args: inputs(&f.arguments, dup),
            default: None,
            dirs: dirs(&f.directives),
            desc: desc(&f.description),
        };
        *dup |= m.insert(f.name.node.to_string(), e).is_some();
    }
    m
}

pub fn parse(sdl: &str) -> Result<M, String> {
    let doc = parse_schema(sdl).map_err(|e| format!("{e}\n{sdl}"))?;
    let mut m = M::default();
    let mut explicit = false;
    for d in &doc.definitions {
        match d {
            Def::Schema(s) => {
                m.links.extend(dirs(&s.node.directives));
                let names = [&s.node.query, &s.node.mutation, &s.node.subscription];
                for (i, n) in names.iter().enumerate() {
                    if let Some(n) = n {
                        explicit = true;
                        m.roots[i] = Some(n.node.to_string());
                    }
                }
            }
            Def::Directive(d) => {
                let d = &d.node;
                m.directives.push(d.name.node.to_string());
                let mut n = DirDef { repeatable: d.is_repeatable, ..Default::default() };
                n.args = inputs(&d.arguments, &mut n.dup);
                n.locations = d.locations.iter().map(|l| format!("{:?}", l.node)).collect();
                n.locations.sort();
                n.dup |= n.locations.windows(2).any(|w| w[0] == w[1]) || m.defs.contains_key(d.name.node.as_str());
                m.defs.insert(d.name.node.to_string(), n);
            }
            Def::Type(t) => {
                let t = &t.node;
                let mut dup = false;
                let mut n = T {
                    kind: K::Scalar,
                    desc: desc(&t.description),
                    dirs: dirs(&t.directives),
                    fields: BTreeMap::new(),
                    values: BTreeMap::new(),
                    implements: vec![],
                    members: vec![],
                };
                match &t.kind {
                    TypeKind::Scalar => {}
                    TypeKind::Object(o) => {
                        n.kind = K::Object;
                        n.fields = fields(&o.fields, &mut dup);
                        n.implements = o.implements.iter().map(|n| n.node.to_string()).collect();
                    }
                    TypeKind::Interface(o) => {
                        n.kind = K::Interface;
                        n.fields = fields(&o.fields, &mut dup);
                        n.implements = o.implements.iter().map(|n| n.node.to_string()).collect();
                    }
                    TypeKind::Union(u) => {
                        n.kind = K::Union;
                        n.members = u.members.iter().map(|n| n.node.to_string()).collect();
                    }
                    TypeKind::Enum(e) => {
                        n.kind = K::Enum;
                        for v in &e.values {
                            let e = El { dirs: dirs(&v.node.directives), desc: desc(&v.node.description), ..Default::default() };
                            dup |= n.values.insert(v.node.value.node.to_string(), e).is_some();
                        }
                    }
                    TypeKind::InputObject(i) => {
                        n.kind = K::Input;
                        n.fields = inputs(&i.fields, &mut dup);
                    }
                }
                m.dup |= dup;
                let name = t.name.node.to_string();
                match m.types.get_mut(&name) {
                    None => {
                        m.types.insert(name, n);
                    }
                    Some(o) => {
                        m.dup |= o.kind != n.kind || !t.extend;
                        o.dirs.extend(n.dirs);
                        for (k, f) in n.fields {
                            m.dup |= o.fields.insert(k, f).is_some();
                        }
                        for (k, f) in n.values {
                            m.dup |= o.values.insert(k, f).is_some();
                        }
                        o.implements.extend(n.implements);
                        o.members.extend(n.members);
                    }
                }
            }
        }
    }
    if !explicit {
        for (i, n) in ROOTS.iter().enumerate() {
            if m.types.get(*n).is_some_and(|t| t.kind == K::Object) {
                m.roots[i] = Some(n.to_string());
            }
        }
    }
    Ok(m)
}
