//! C21 (interface implementations), C22 (input object cycles), C23 (names, uniqueness, positions).
use async_graphql_parser::types as ast;
use async_graphql_parser::types::{BaseType, DirectiveLocation as Loc, Type, TypeKind, TypeSystemDefinition as Def};
use async_graphql_parser::{Positioned, parse_schema};
use async_graphql_value::Name;
use graphql_schema_validation::{Options, validate_with_options};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- the rules of the specification

#[derive(Clone, Copy, PartialEq)]
enum K {
    Scalar,
    Object,
    Interface,
    Union,
    Enum,
    Input,
}

fn kind(k: &TypeKind) -> K {
    match k {
        TypeKind::Scalar => K::Scalar,
        TypeKind::Object(_) => K::Object,
        TypeKind::Interface(_) => K::Interface,
        TypeKind::Union(_) => K::Union,
        TypeKind::Enum(_) => K::Enum,
        TypeKind::InputObject(_) => K::Input,
    }
}

/// A type with all its extensions.
#[derive(Default)]
struct T<'a> {
    base: Option<K>,
    ext: Option<K>,
    exts: Vec<K>,
    bases: usize,
    fields: Vec<&'a ast::FieldDefinition>,
    inputs: Vec<&'a ast::InputValueDefinition>,
    implements: Vec<&'a str>,
    members: Vec<&'a str>,
    values: Vec<&'a str>,
}

struct Rules<'a> {
    types: BTreeMap<&'a str, T<'a>>,
    forbid: bool,
    draft: bool,
    errors: Vec<String>,
}

const SCALARS: [&str; 5] = ["String", "ID", "Float", "Boolean", "Int"];

fn names(v: &[Positioned<Name>]) -> impl Iterator<Item = &str> {
    v.iter().map(|n| n.node.as_str())
}

fn base(t: &Type) -> &str {
    match &t.base {
        BaseType::Named(n) => n.as_str(),
        BaseType::List(t) => base(t),
    }
}

impl<'a> Rules<'a> {
    fn err(&mut self, s: String) {
        self.errors.push(s)
    }

    fn known(&self, n: &str) -> Option<K> {
        let t = self.types.get(n);
        t.and_then(|t| t.base.or(if self.forbid { None } else { t.ext })).or(SCALARS.contains(&n).then_some(K::Scalar))
    }

    fn unique<'b>(&mut self, what: &str, it: impl Iterator<Item = &'b str>) {
        let mut s = BTreeSet::new();
        for n in it {
            if !s.insert(n) {
                self.err(format!("{what} {n} twice"));
            }
        }
    }

    fn name(&mut self, n: &str) {
        if n.starts_with("__") {
            self.err(format!("reserved name {n}"));
        }
    }

    fn input_type(&mut self, n: &str) {
        match self.known(n) {
            Some(K::Scalar | K::Enum | K::Input) => {}
            Some(_) => self.err(format!("output type {n} as input")),
            None => self.err(format!("unknown type {n}")),
        }
    }

    fn output_type(&mut self, n: &str) {
        match self.known(n) {
            Some(K::Input) => self.err(format!("input type {n} as output")),
            Some(_) => {}
            None => self.err(format!("unknown type {n}")),
        }
    }

    fn inputs(&mut self, v: &[&'a ast::InputValueDefinition], args: bool) {
        self.unique("input", v.iter().map(|a| a.name.node.as_str()));
        for a in v {
            self.name(&a.name.node);
            self.input_type(base(&a.ty.node));
            if args && self.draft && !a.ty.node.nullable && a.default_value.is_none() && a.directives.iter().any(|d| d.node.name.node == "deprecated") {
                self.err(format!("{} is required and deprecated", a.name.node));
            }
        }
    }

    /// Is `a` a subtype of `b`?
    fn sub_name(&self, a: &str, b: &str) -> bool {
        a == b
            || match self.known(b) {
                Some(K::Union) => self.types[b].members.contains(&a),
                Some(K::Interface) => matches!(self.known(a), Some(K::Object | K::Interface)) && self.types[a].implements.contains(&b),
                _ => false,
            }
    }

    fn sub(&self, a: &Type, b: &Type) -> bool {
        (b.nullable || !a.nullable)
            && match (&a.base, &b.base) {
                (BaseType::Named(a), BaseType::Named(b)) => self.sub_name(a, b),
                (BaseType::List(a), BaseType::List(b)) => self.sub(a, b),
                _ => false,
            }
    }

    fn implements(&mut self, n: &'a str) {
        let me = &self.types[n];
        let mut errors = Vec::new();
        for i in &me.implements {
            if self.known(i) != Some(K::Interface) {
                errors.push(format!("{n} implements {i}, no interface"));
                continue;
            }
            let iface = &self.types[i];
            for j in &iface.implements {
                if !me.implements.contains(j) {
                    errors.push(format!("{n} implements {i} but not its {j}"));
                }
            }
            for f in &iface.fields {
                let Some(g) = me.fields.iter().find(|g| g.name.node == f.name.node) else {
                    errors.push(format!("{n} has no {}", f.name.node));
                    continue;
                };
                if !self.sub(&g.ty.node, &f.ty.node) {
                    errors.push(format!("{n}.{} is {} where {i} has {}", f.name.node, g.ty.node, f.ty.node));
                }
                for a in &f.arguments {
                    match g.arguments.iter().find(|b| b.node.name.node == a.node.name.node) {
                        Some(b) if eq(&a.node.ty.node, &b.node.ty.node) => {}
                        _ => errors.push(format!("argument {} missing or different", a.node.name.node)),
                    }
                }
                for b in &g.arguments {
                    if !b.node.ty.node.nullable && b.node.default_value.is_none() && !f.arguments.iter().any(|a| b.node.name.node == a.node.name.node) {
                        errors.push(format!("additional argument {} required", b.node.name.node));
                    }
                }
            }
        }
        self.errors.extend(errors);
        let l = self.types[n].implements.clone();
        self.unique("implements", l.into_iter());
        if l_contains(&self.types[n].implements, n) {
            self.err(format!("{n} implements itself"));
        }
    }

    /// Input objects that need a value of their own type.
    fn cycles(&mut self) {
        let inputs: Vec<&str> = self.types.iter().filter(|(_, t)| t.base.or(t.ext) == Some(K::Input)).map(|(n, _)| *n).collect();
        let mut reach: BTreeSet<(&str, &str)> = BTreeSet::new();
        for n in &inputs {
            for f in &self.types[n].inputs {
                if let (false, BaseType::Named(m)) = (f.ty.node.nullable, &f.ty.node.base) {
                    reach.insert((n, m.as_str()));
                }
            }
        }
        for k in &inputs {
            for i in &inputs {
                for j in &inputs {
                    if reach.contains(&(i, k)) && reach.contains(&(k, j)) {
                        reach.insert((i, j));
                    }
                }
            }
        }
        for n in inputs {
            if reach.contains(&(n, n)) {
                self.err(format!("{n} cannot be built"));
            }
        }
    }
}

fn l_contains(l: &[&str], n: &str) -> bool {
    l.contains(&n)
}

fn eq(s: &Type, t: &Type) -> bool {
    s.nullable == t.nullable
        && match (&s.base, &t.base) {
            (BaseType::Named(a), BaseType::Named(b)) => a == b,
            (BaseType::List(a), BaseType::List(b)) => eq(a, b),
            _ => false,
        }
}

fn rules(d: &ast::ServiceDocument, forbid: bool, draft: bool) -> Vec<String> {
    let mut r = Rules { types: BTreeMap::new(), forbid, draft, errors: Vec::new() };
    let mut roots = [None; 3];
    let mut schemas = 0;
    let mut directives: BTreeMap<&str, &ast::DirectiveDefinition> = BTreeMap::new();
    let mut applied: Vec<(Loc, &[Positioned<ast::ConstDirective>])> = Vec::new();
    for d in &d.definitions {
        match d {
            Def::Schema(s) => {
                let s = &s.node;
                applied.push((Loc::Schema, &s.directives));
                if !s.extend {
                    schemas += 1;
                }
                for (i, x) in [&s.query, &s.mutation, &s.subscription].into_iter().enumerate() {
                    if let Some(x) = x {
                        roots[i] = Some(x.node.as_str());
                    }
                }
            }
            Def::Directive(d) => {
                r.name(&d.node.name.node);
                directives.insert(d.node.name.node.as_str(), &d.node);
            }
            Def::Type(x) => {
                let x = &x.node;
                let n = x.name.node.as_str();
                r.name(n);
                let t = r.types.entry(n).or_default();
                let k = kind(&x.kind);
                if x.extend {
                    t.ext.get_or_insert(k);
                    t.exts.push(k);
                } else {
                    t.base = Some(k);
                    t.bases += 1;
                    if SCALARS.contains(&n) && k != K::Scalar {
                        r.errors.push(format!("{n} is a built-in scalar"));
                    }
                }
                applied.push((
                    match k {
                        K::Scalar => Loc::Scalar,
                        K::Object => Loc::Object,
                        K::Interface => Loc::Interface,
                        K::Union => Loc::Union,
                        K::Enum => Loc::Enum,
                        K::Input => Loc::InputObject,
                    },
                    &x.directives,
                ));
                let (f, i): (&[Positioned<ast::FieldDefinition>], &[Positioned<Name>]) = match &x.kind {
                    TypeKind::Object(o) => (&o.fields, &o.implements),
                    TypeKind::Interface(o) => (&o.fields, &o.implements),
                    TypeKind::Union(u) => {
                        t.members.extend(names(&u.members));
                        (&[], &[])
                    }
                    TypeKind::Enum(e) => {
                        t.values.extend(e.values.iter().map(|v| v.node.value.node.as_str()));
                        applied.extend(e.values.iter().map(|v| (Loc::EnumValue, v.node.directives.as_slice())));
                        (&[], &[])
                    }
                    TypeKind::InputObject(i) => {
                        t.inputs.extend(i.fields.iter().map(|v| &v.node));
                        applied.extend(i.fields.iter().map(|v| (Loc::InputFieldDefinition, v.node.directives.as_slice())));
                        (&[], &[])
                    }
                    TypeKind::Scalar => (&[], &[]),
                };
                t.implements.extend(names(i));
                for f in f {
                    t.fields.push(&f.node);
                    applied.push((Loc::FieldDefinition, &f.node.directives));
                    applied.extend(f.node.arguments.iter().map(|v| (Loc::ArgumentDefinition, v.node.directives.as_slice())));
                }
            }
        }
    }
    let all: Vec<&str> = r.types.keys().copied().collect();
    for n in all {
        let t = &r.types[n];
        let (bases, kind, based) = (t.bases, t.base.or(t.ext), t.base.is_some());
        let empty = t.fields.is_empty() && t.inputs.is_empty() && t.members.is_empty() && t.values.is_empty();
        let (fields, inputs) = (t.fields.clone(), t.inputs.clone());
        let (members, values, exts) = (t.members.clone(), t.values.clone(), t.exts.clone());
        if let Some(k) = kind
            && exts.iter().any(|e| *e != k)
        {
            // only checked on request, what else is reported is left open
            wrt::assume(forbid);
            r.err(format!("{n} and its extension are of different kinds"));
        }
        if bases > 1 {
            r.err(format!("{n} is defined {bases} times"));
        }
        if !based && forbid && !SCALARS.contains(&n) {
            r.err(format!("extended type {n} is unknown"));
        }
        if based && empty && kind != Some(K::Scalar) {
            r.err(format!("{n} is empty"));
        }
        r.unique("field", fields.iter().map(|f| f.name.node.as_str()));
        r.unique("member", members.iter().copied());
        r.unique("value", values.iter().copied());
        for f in fields {
            r.name(&f.name.node);
            r.output_type(base(&f.ty.node));
            r.inputs(&f.arguments.iter().map(|a| &a.node).collect::<Vec<_>>(), true);
        }
        r.inputs(&inputs, false);
        for m in members {
            if r.known(m) != Some(K::Object) {
                r.err(format!("{n} has the member {m}, no object"));
            }
        }
        for v in values {
            r.name(v);
        }
        r.implements(n);
    }
    r.cycles();
    if schemas > 1 {
        r.err("two schema definitions".into());
    }
    let mut default = Vec::new();
    for (i, n) in roots.iter().enumerate() {
        match n {
            Some(n) => {
                if r.known(n) != Some(K::Object) {
                    r.err(format!("root {n} is no object"));
                }
            }
            None if schemas == 0 => {
                let n = ["Query", "Mutation", "Subscription"][i];
                match r.known(n) {
                    Some(K::Object) => default.push(n),
                    Some(_) => r.err(format!("root {n} is no object")),
                    None => {}
                }
            }
            None => {}
        }
    }
    r.unique("root", roots.iter().flatten().copied().chain(default));
    for (_, d) in &directives {
        for a in &d.arguments {
            r.input_type(base(&a.node.ty.node));
        }
    }
    for (l, v) in applied {
        let mut seen = BTreeSet::new();
        for x in v {
            let n = x.node.name.node.as_str();
            if let Some(d) = directives.get(n) {
                if !d.locations.iter().any(|m| m.node == l) {
                    r.err(format!("@{n} at {l:?}"));
                }
                if !seen.insert(n) && !d.is_repeatable {
                    r.err(format!("@{n} repeated"));
                }
            }
        }
    }
    r.errors
}

fn case(sdl: &str, forbid: bool, draft: bool) {
    let mut o = Options::empty();
    o.set(Options::FORBID_EXTENDING_UNKNOWN_TYPES, forbid);
    o.set(Options::DRAFT_VALIDATIONS, draft);
    let got = validate_with_options(sdl, o);
    let Ok(doc) = parse_schema(sdl) else {
        wrt::ensure!(got.has_errors(), "accepts a document that does not parse: {sdl}");
        return;
    };
    let want = rules(&doc, forbid, draft);
    let texts: Vec<String> = got.iter().map(|e| e.to_string()).collect();
    wrt::ensure!(texts.is_empty() != got.has_errors(), "errors and no errors: {texts:?}");
    match (texts.is_empty(), want.is_empty()) {
        (true, true) => wrt::reach(1),
        (false, false) => wrt::reach(2),
        (true, false) => wrt::failed(&format!("no error for: {sdl}\nbroken: {want:?}")),
        (false, true) => wrt::failed(&format!("no rule is broken by: {sdl}\nreported: {texts:?}")),
    }
    let mut texts = texts;
    texts.sort();
    wrt::observe("errors", texts.join("\n").as_bytes());
}

fn options() -> (bool, bool) {
    (wrt::pin(wrt::flag("forbid") as u64) == 1, wrt::pin(wrt::flag("draft") as u64) == 1)
}

fn opt(name: &str, n: u8) -> usize {
    wrt::pin(wrt::choose(name, n) as u64) as usize
}

// ---------------------------------------------------------------- C21

const WORLD: &str = "type Query { q: Int } interface N { n: Int } interface M implements N { n: Int } interface O { n: Int } \
    type A implements N { n: Int } type B implements M & N { n: Int } type C { n: Int } type D { n: Int } \
    union U = A | C union V = B extend union V = D extend type D implements N extend interface O implements N { m: Int } ";

/// The type of a field against the type in the interface.
pub fn c21_types() {
    let a = ["Int", "N", "M", "O", "A", "B", "C", "D", "U", "V"];
    let n = wrt::param(0) as u8;
    let w = |s: &str| {
        let mut t = wrt::pick(&format!("{s}.name"), &a).to_string();
        let lists = opt(&format!("{s}.lists"), n + 1);
        for i in 0..=lists {
            if i > 0 {
                t = format!("[{t}]");
            }
            if opt(&format!("{s}.{i}.bang"), 2) == 1 {
                t += "!";
            }
        }
        t
    };
    let k = wrt::pick("kind", &["type", "interface"]);
    case(&format!("{WORLD} interface I {{ f: {} }} {k} X implements I {{ f: {} }}", w("iface"), w("impl")), false, false);
}

/// The arguments of a field against those in the interface.
pub fn c21_args() {
    let types = ["", "Int", "Int!", "[Int]", "[Int!]", "ID"];
    let n = wrt::param(0) as usize;
    let args = |s: &str| {
        let mut t = String::new();
        for (i, a) in ["a", "b", "c"][..n].iter().enumerate() {
            let ty = wrt::pick(&format!("{s}.{a}"), &types[..if i == 0 { 6 } else { 3 }]);
            if !ty.is_empty() {
                t += &format!("{a}: {ty}{} ", wrt::pick(&format!("{s}.{a}.default"), &["", " = 1"][..if ty.contains('[') { 1 } else { 2 }]));
            }
        }
        if t.is_empty() { t } else { format!("({t})") }
    };
    case(&format!("interface I {{ f{}: Int }} type Query implements I {{ f{}: Int }}", args("iface"), args("impl")), false, false);
}

/// Fields and implemented interfaces in definitions and extensions.
pub fn c21_parts() {
    let (forbid, _) = (opt("forbid", 2) == 1, 0);
    let k = wrt::pick("kind", &["type", "interface"]);
    // where is it: nowhere, in the definition, in the extension
    let at = |s: &str| opt(s, 3);
    let body = |ims: &[(&str, usize)], fs: &[(&str, usize)], w: usize| {
        let i: Vec<&str> = ims.iter().filter(|x| x.1 == w).map(|x| x.0).collect();
        let f: Vec<&str> = fs.iter().filter(|x| x.1 == w).map(|x| x.0).collect();
        let mut s = String::new();
        if !i.is_empty() {
            s += &format!(" implements {}", i.join(" & "));
        }
        if !f.is_empty() {
            s += &format!(" {{ {}: Int }}", f.join(": Int "));
        }
        s
    };
    let (xi, xj) = (at("x.I"), at("x.J"));
    let (fi, fj) = (at("x.i"), at("x.j"));
    let (ij, jj) = (at("i.J"), at("i.j"));
    let x = [("I", xi), ("J", xj)];
    let xf = [("i", fi), ("j", fj), ("o", 1)];
    let i = [("J", ij)];
    let i_f = [("i", 1), ("j", jj)];
    let mut s = format!("interface J {{ j: Int }} interface I{} {k} X{}", body(&i, &i_f, 1), body(&x, &xf, 1));
    let e = body(&x, &xf, 2);
    if !e.is_empty() {
        s += &format!(" extend {k} X{e}");
    }
    let e = body(&i, &i_f, 2);
    if !e.is_empty() {
        s += &format!(" extend interface I{e}");
    }
    case(&s, forbid, false);
}

/// What is implemented: interfaces, known only by extensions, other types, unknown names.
pub fn c21_targets() {
    let (forbid, draft) = options();
    let defs = [
        "interface I { i: Int }",
        "extend interface I { i: Int }",
        "extend interface I { i: Int } extend interface I { j: Int }",
        "interface I { i: Int } extend interface I { j: Int }",
        "interface I { i: Int } extend interface I { j(a: Int!): Int! }",
        "type I { i: Int }",
        "scalar I",
        "union I = X",
        "enum I { i }",
        "input I { i: Int }",
        "",
    ];
    let d = wrt::pick("def", &defs);
    let x = wrt::pick("x", &["type X", "interface X", "extend type X", "extend interface X"]);
    let imp = wrt::pick("implements", &["", "implements I", "implements I & I", "implements X", "implements I & X"]);
    let f = wrt::pick("fields", &["i: Int", "i: Int j: Int", "i: Int j(a: Int!): Int!", "j: Int", "i: String"]);
    let t = format!("{x} {imp} {{ {f} }}");
    let split = opt("order", 2) == 1;
    case(&if split { format!("{d} {t}") } else { format!("{t} {d}") }, forbid, draft);
}

// ---------------------------------------------------------------- C22

/// Every pattern of references between input objects.
pub fn c22_graph() {
    let n = wrt::param(0) as usize;
    let kinds = ["", "!", "[]", "[!]!"];
    let names = &["A", "B", "C", "D"][..n];
    let mut s = String::new();
    for (i, a) in names.iter().enumerate() {
        let (mut here, mut there) = (String::new(), String::new());
        for (j, b) in names.iter().enumerate() {
            let k = if i == 0 && n < 4 { opt(&format!("{a}{b}"), 4) } else { opt(&format!("{a}{b}"), 2) };
            let t = match kinds[k] {
                "" => b.to_string(),
                "!" => format!("{b}!"),
                "[]" => format!("[{b}!]"),
                _ => format!("[{b}!]!"),
            };
            // the second input object has its last field in an extension
            *(if i == 1 && j == n - 1 { &mut there } else { &mut here }) += &format!("{}: {t} ", b.to_lowercase());
        }
        s += &format!("input {a} {{ {here} }} ");
        if !there.is_empty() {
            s += &format!("extend input {a} {{ {there} }} ");
        }
    }
    case(&s, false, false);
}

/// Longer chains: every input object refers to one other.
pub fn c22_chain() {
    let n = wrt::param(0) as usize;
    let names = &["A", "B", "C", "D", "E", "F"][..n];
    let mut s = String::new();
    for a in names {
        let b = wrt::pick(&format!("{a}.to"), names);
        s += &format!("input {a} {{ x: Int! f: {b}{} }} ", wrt::pick(&format!("{a}.kind"), &["!", ""]));
    }
    case(&s, false, false);
}

// ---------------------------------------------------------------- C23

/// Fills in a template: `<a|b|c>` is one of the alternatives, `#` a name of free characters.
fn render(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    let mut k = 0;
    while let Some(i) = rest.find(['<', '#']) {
        out += &rest[..i];
        if rest.as_bytes()[i] == b'#' {
            let n = wrt::word(&format!("name{k}"), 3, b"_aA");
            wrt::assume(!n.is_empty());
            out += &n;
            rest = &rest[i + 1..];
        } else {
            let j = i + rest[i..].find('>').unwrap();
            let alts: Vec<&str> = rest[i + 1..j].split('|').collect();
            out += wrt::pick(&format!("alt{k}"), &alts);
            rest = &rest[j + 1..];
        }
        k += 1;
    }
    out + rest
}

const NAMES: [&str; 10] = [
    "type Query { q: Int } type # { a: Int } <type|interface|input> # { a: Int }",
    "type Query { q: Int } <type|extend type> X { #: Int #: Int }",
    "type Query { q: Int } <interface|extend interface> X { #: Int #: Int }",
    "type Query { q(#: Int #: Int): Int }",
    "type Query { q: Int } <enum|extend enum> X { # # }",
    "type Query { q: Int } <input|extend input> X { #: Int #: Int }",
    "type Query { q: Int } enum X { # } extend enum X { # <|a_> }",
    "type Query { q: Int } input X { #: Int } extend input X { #: Int }",
    "type Query { q: Int } type X { #: Int } extend type X { #: Int }",
    "type Query { q: Int } interface X { #: Int } extend interface X { #: Int }",
];

pub fn c23_names() {
    let (forbid, draft) = options();
    let k = wrt::param(0) as usize;
    let t = if k < NAMES.len() { NAMES[k] } else { wrt::pick("template", &NAMES) };
    case(&render(t), forbid, draft);
}

const FORMS: [&str; 19] = [
    // two definitions of one name
    "type Query { q: Int } <|extend >type X { x: Int } <scalar X|type X { y: Int }|interface X { y: Int }|union X = Query|enum X { Y }|input X { y: Int }|type Y { y: Int }|extend type X { y: Int }|extend type X { x: Int }|extend type X @d>",
    "type Query { q: Int } <scalar|type|interface|union|enum|input> <String|ID|Int|Float|Boolean|Str|id>",
    "type Query { q: Int } <type|interface|union|enum|input> X <|@d|{ x: Int }|{ x }|= Query|{ x: Int } extend type X @d> ",
    "type Query { q: Int } union X <|= A|= B|= A \\ B> <|extend union X = A|extend union X = B \\ C|extend union X @d> <type A { a: Int }|scalar A|interface A { a: Int }|enum A { a }|input A { a: Int }|union A = Query|extend type A { a: Int }||type A { a: Int } extend type A @d> type B { b: Int } <extend type C { c: Int }|type C { c: Int }>",
    "type Query { q: Int } <extend enum X { A }|extend enum X { A B }|enum X { A }|enum X { A B }|enum X { A A }|enum X> <|extend enum X { A }|extend enum X { B C }|extend enum X { C }|extend enum X @d> <|extend enum X { A }|extend enum X { B }|extend enum X { D D }>",
    // what refers to what
    "type Query { f: <T|[T]|[T!]!> } <scalar T|type T { t: Int }|interface T { t: Int }|union T = Query|enum T { t }|input T { t: Int }||extend type T { t: Int }|extend input T { t: Int }|extend scalar T @d|extend enum T { t }|extend union T = Query|extend interface T { t: Int }>",
    "type Query { f(a: <T|[T]|[T!]!>): Int } <scalar T|type T { t: Int }|interface T { t: Int }|union T = Query|enum T { t }|input T { t: Int }||extend type T { t: Int }|extend input T { t: Int }|extend scalar T @d|extend enum T { t }|extend union T = Query|extend interface T { t: Int }>",
    "type Query { q: Int } input I { f: <T|[T]|[T!]!> } <scalar T|type T { t: Int }|interface T { t: Int }|union T = Query|enum T { t }|input T { t: Int }||extend type T { t: Int }|extend input T { t: Int }|extend scalar T @d|extend enum T { t }|extend union T = Query|extend interface T { t: Int }>",
    "type Query { q: Int } interface I { f<|(a: T)>: <T|[T]|Int> } <scalar T|type T { t: Int }|input T { t: Int }||extend input T { t: Int }|enum T { t }>",
    "type Query { q: Int } <interface I { i: Int } |>extend interface I { f<|(a: T)>: <T|[T]|Int> } <scalar T|type T { t: Int }|input T { t: Int }||extend input T { t: Int }|enum T { t }>",
    "type Query { q: Int } <type I { i: Int } |>extend type I { f<|(a: T)>: <T|[T]|Int> } <scalar T|type T { t: Int }|input T { t: Int }||extend input T { t: Int }|enum T { t }>",
    "type Query { q: Int } <input I { i: Int } |>extend input I { f: <T|[T]|Int> } <scalar T|type T { t: Int }|input T { t: Int }||extend input T { t: Int }|enum T { t }|extend type T { t: Int }>",
    "type Query { q: Int } directive @d(a: <T|[T]|String>) on OBJECT <scalar T|type T { t: Int }|input T { t: Int }||enum T { t }|extend input T { t: Int }>",
    // roots
    "<|schema { query: A }|schema { query: A mutation: B }|schema { mutation: A subscription: B }|schema { query: Mutation }|schema { query: A mutation: A }|extend schema { mutation: B }|extend schema @d|schema { query: B } extend schema { subscription: A }|schema { query: A } extend schema { mutation: A }|schema { query: A } schema { query: B }|schema @d { subscription: Query }> <type|interface|input> A { a: Int } <type B { b: Int }|scalar B|extend type B { b: Int }|> <|type Mutation { a: Int }>",
    "<|schema { query: Query }|extend schema @d|extend schema { query: X }|schema { query: X }> <type Query { q: Int }|interface Query { q: Int }|scalar Query|extend type Query { q: Int }|extend input Query { q: Int }> <|scalar Mutation|type Mutation { m: Int }|input Subscription { s: Int }> type X { x: Int }",
    // directives
    "directive @d <|repeatable> on <OBJECT|FIELD_DEFINITION|INTERFACE|ARGUMENT_DEFINITION|SCALAR> <type|interface> X <|@d|@d @d|@e @e> { f(a: Int <|@d>): Int <|@d> } scalar Y <|@d|@d @d>",
    "directive @d on <ENUM|ENUM_VALUE|INPUT_OBJECT|INPUT_FIELD_DEFINITION|UNION|SCHEMA> enum X <|@d> { Y <|@d> } input Z <|@d> { z: Int <|@d> } <|extend schema @d|extend input Z @d|extend enum X @d|extend union U @d|union U @d = Query> type Query { q: Int }",
    "directive @<d|__d|_d> on OBJECT type Query { q: Int }",
    // deprecation
    "type Query { f(a: Int<|!> <|= 1> <|@deprecated|@other>): Int } input I { a: Int<|!> <|= 1> <|@other> }",
];

pub fn c23_forms() {
    let (forbid, draft) = options();
    let (a, b) = (wrt::param(0) as usize, wrt::param(1) as usize);
    let t = FORMS[a..b.min(FORMS.len())][opt("template", (b.min(FORMS.len()) - a) as u8)];
    case(&render(t).replace('\\', "|"), forbid, draft);
}

wrt::checks!(c21_types, c21_args, c21_parts, c21_targets, c22_graph, c22_chain, c23_names, c23_forms);
