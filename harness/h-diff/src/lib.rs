//! C15 (schema diff), C16 (patch), C17 (paths).
use cynic_parser::type_system as ast;
use graphql_schema_diff::path::{Path, PathInField, PathInType};
use graphql_schema_diff::{Change, ChangeKind, diff, patch, resolve_spans};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- C17

fn name(s: &[u8]) -> bool {
    !s.is_empty()
        && s.iter().enumerate().all(|(i, c)| c.is_ascii_alphabetic() || *c == b'_' || i > 0 && c.is_ascii_digit())
}

/// `[123]`: the digits, if well-formed and small enough.
fn index(s: &[u8]) -> Option<usize> {
    let n = s.len();
    if n < 3 || s[0] != b'[' || s[n - 1] != b']' || !s[1..n - 1].iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    s[1..n - 1].iter().try_fold(0usize, |a, c| a.checked_mul(10)?.checked_add((c - b'0') as usize))
}

fn name_index(s: &[u8]) -> Option<(&[u8], Option<usize>)> {
    match s.iter().position(|c| *c == b'[') {
        None => name(s).then_some((s, None)),
        Some(i) if name(&s[..i]) => Some((&s[..i], Some(index(&s[i..])?))),
        _ => None,
    }
}

fn st(s: &[u8]) -> &str {
    std::str::from_utf8(s).unwrap_or("?")
}

/// The documented grammar.
fn oracle(s: &[u8]) -> Option<Path<'_>> {
    let mut parts: Vec<&[u8]> = s.split(|c| *c == b'.').collect();
    let first = parts.remove(0);
    if let Some(rest) = first.strip_prefix(b":schema") {
        return match (parts.len(), rest) {
            (0, b"") => Some(Path::SchemaDefinition),
            (0, _) => Some(Path::SchemaExtension(index(rest)?)),
            _ => None,
        };
    }
    if let Some(n) = first.strip_prefix(b"@") {
        return (parts.is_empty() && name(n)).then(|| Path::DirectiveDefinition(st(n)));
    }
    let (n, i) = name_index(first)?;
    let within = match parts.as_slice() {
        [] => None,
        [p] | [p, _] if p.first() == Some(&b'@') => match (parts.len(), name_index(&p[1..])?) {
            (1, (n, Some(i))) => Some(PathInType::InDirective(st(n), i)),
            _ => return None,
        },
        [p] | [p, _] if p.first() == Some(&b'&') => {
            if parts.len() > 1 || !name(&p[1..]) {
                return None;
            }
            Some(PathInType::InterfaceImplementation(st(&p[1..])))
        }
        [f] if name(f) => Some(PathInType::InField(st(f), None)),
        [f, p] if name(f) => {
            let x = if p.first() == Some(&b'@') {
                match name_index(&p[1..])? {
                    (n, Some(i)) => PathInField::InDirective(st(n), i),
                    _ => return None,
                }
            } else if name(p) {
                PathInField::InArgument(st(p))
            } else {
                return None;
            };
            Some(PathInType::InField(st(f), Some(x)))
        }
        _ => return None,
    };
    Some(match i {
        Some(i) => Path::TypeExtension(st(n), i, within),
        None => Path::TypeDefinition(st(n), within),
    })
}

fn path_case(s: &str) {
    let b = s.as_bytes();
    match (Path::parse(s), oracle(b)) {
        (Ok(p), Some(q)) => {
            wrt::ensure!(p == q, "{s:?} is read as {p:?}");
            let t = p.to_string();
            // only leading zeros of an index may go
            let zero = b.windows(2).any(|w| w[0] == b'[' && w[1] == b'0') && !b.windows(3).any(|w| w == b"[0]") || b.windows(3).any(|w| w[0] == b'[' && w[1] == b'0' && w[2] == b'0');
            wrt::ensure!(t == s || zero, "{s:?} prints as {t:?}");
            wrt::ensure!(Path::parse(&t).is_ok_and(|r| r == p), "{s:?} prints as {t:?}, which is read differently");
            wrt::observe("path", t.as_bytes());
            wrt::reach(1);
        }
        (Err(_), None) => wrt::reach(2),
        (Ok(p), None) => wrt::failed(&format!("{s:?} is accepted as {p:?}")),
        (Err(_), Some(q)) => wrt::failed(&format!("{s:?} is rejected, not {q:?}")),
    }
}

pub fn c17_parse() {
    path_case(&wrt::word("s", wrt::param(0) as usize, b".@&[]_aZ09+-"));
}

pub fn c17_bytes() {
    let t = wrt::pick("template", &["?", "a.?", "a.b.?", "a[1?]", "@?", ":schema?", "a.@b[?]", "a.b.@c[?", "a[?].&"]);
    let (pre, post) = t.split_once('?').unwrap();
    let h = wrt::text("hole", wrt::param(0) as usize, true);
    path_case(&format!("{pre}{h}{post}"));
}

/// Built paths print to a text that reads back as the same path.
pub fn c17_print() {
    let n = |i: usize| ["a", "B_1", "_x"][i];
    let idx = |s: &str| match wrt::pin(wrt::choose(s, 3) as u64) {
        0 => wrt::pin(wrt::u8(s.replace('i', "d").as_str()) as u64) as usize,
        1 => 1000,
        _ => usize::MAX,
    };
    let within = |k: u8| match k {
        0 => None,
        1 => Some(PathInType::InField(n(1), None)),
        2 => Some(PathInType::InField(n(1), Some(PathInField::InArgument(n(2))))),
        3 => Some(PathInType::InField(n(1), Some(PathInField::InDirective(n(2), idx("fi"))))),
        4 => Some(PathInType::InDirective(n(1), idx("ti"))),
        _ => Some(PathInType::InterfaceImplementation(n(2))),
    };
    let k = || wrt::pin(wrt::choose("within", 6) as u64) as u8;
    let p = match wrt::pin(wrt::choose("kind", 5) as u64) {
        0 => Path::SchemaDefinition,
        1 => Path::SchemaExtension(idx("si")),
        2 => Path::DirectiveDefinition(n(wrt::pin(wrt::choose("n", 3) as u64) as usize)),
        3 => Path::TypeDefinition(n(0), within(k())),
        _ => Path::TypeExtension(n(0), idx("xi"), within(k())),
    };
    let t = p.to_string();
    match Path::parse(&t) {
        Ok(q) => wrt::ensure!(p == q, "{p:?} prints as {t:?}, read as {q:?}"),
        Err(_) => wrt::failed(&format!("{p:?} prints as {t:?}, which is not accepted")),
    }
    wrt::observe("path", t.as_bytes());
    wrt::reach(1);
}

// ---------------------------------------------------------------- C15, C16

/// What the diff is about, read off the document: element -> its type, default or kind.
type Facts = BTreeMap<(u8, String), String>;
const KIND: u8 = 0; // type -> kind
const FIELD: u8 = 1; // type.field -> type (enum values and union members: empty)
const ARG: u8 = 2; // type.field.arg -> type
const DEFAULT: u8 = 3; // type.field.arg -> default
const IMPL: u8 = 4; // type.&interface
const ROOT: u8 = 5; // query | mutation | subscription
const SCHEMA: u8 = 6; // schema definition
const INPUT_DEFAULT: u8 = 7; // input.field -> default

fn value(v: ast::InputValueDefinition<'_>, text: &str) -> Option<String> {
    v.default_value()?;
    let s = v.default_value_span();
    Some(text[s.start..s.end].trim_start_matches(['=', ' ']).to_string())
}

fn facts(doc: Option<&ast::TypeSystemDocument>, text: &str) -> Facts {
    let mut f = Facts::new();
    let Some(doc) = doc else { return f };
    for d in doc.definitions() {
        match d {
            ast::Definition::Schema(s) => {
                f.insert((SCHEMA, String::new()), String::new());
                for (n, r) in [("query", s.query_type()), ("mutation", s.mutation_type()), ("subscription", s.subscription_type())] {
                    if let Some(r) = r {
                        f.insert((ROOT, n.into()), r.named_type().into());
                    }
                }
            }
            ast::Definition::Type(t) | ast::Definition::TypeExtension(t) => {
                let n = t.name();
                let mut fields = |kind: &str, impls: Vec<&str>, fs: Vec<ast::FieldDefinition<'_>>| {
                    f.insert((KIND, n.into()), kind.into());
                    for i in impls {
                        f.insert((IMPL, format!("{n}.&{i}")), String::new());
                    }
                    for x in fs {
                        let p = format!("{n}.{}", x.name());
                        for a in x.arguments() {
                            let q = format!("{p}.{}", a.name());
                            if let Some(v) = value(a, text) {
                                f.insert((DEFAULT, q.clone()), v);
                            }
                            f.insert((ARG, q), a.ty().to_string());
                        }
                        f.insert((FIELD, p), x.ty().to_string());
                    }
                };
                match t {
                    ast::TypeDefinition::Object(o) => fields("ObjectType", o.implements_interfaces().collect(), o.fields().collect()),
                    ast::TypeDefinition::Interface(o) => fields("Interface", o.implements_interfaces().collect(), o.fields().collect()),
                    ast::TypeDefinition::Scalar(_) => {
                        f.insert((KIND, n.into()), "Scalar".into());
                    }
                    ast::TypeDefinition::Union(u) => {
                        f.insert((KIND, n.into()), "Union".into());
                        for m in u.members() {
                            f.insert((FIELD, format!("{n}.{}", m.name())), String::new());
                        }
                    }
                    ast::TypeDefinition::Enum(e) => {
                        f.insert((KIND, n.into()), "Enum".into());
                        for v in e.values() {
                            f.insert((FIELD, format!("{n}.{}", v.value())), String::new());
                        }
                    }
                    ast::TypeDefinition::InputObject(i) => {
                        f.insert((KIND, n.into()), "InputObject".into());
                        for x in i.fields() {
                            let p = format!("{n}.{}", x.name());
                            if let Some(v) = value(x, text) {
                                f.insert((INPUT_DEFAULT, p.clone()), v);
                            }
                            f.insert((FIELD, p), x.ty().to_string());
                        }
                    }
                }
            }
            ast::Definition::Directive(d) => {
                f.insert((KIND, format!("@{}", d.name())), "DirectiveDefinition".into());
            }
            ast::Definition::SchemaExtension(_) => {}
        }
    }
    f
}

fn owner(p: &str) -> &str {
    p.split_once('.').map(|x| x.0).unwrap_or(p)
}

/// The changes as (path, kind) that turn `a` into `b`.
fn expected(a: &Facts, b: &Facts) -> Vec<(String, String)> {
    let mut out = Vec::new();
    let same_kind = |t: &str| matches!((a.get(&(KIND, t.into())), b.get(&(KIND, t.into()))), (Some(x), Some(y)) if x == y);
    let both_fields = |p: &str| {
        let k = (FIELD, p.rsplit_once('.').unwrap().0.to_string());
        a.contains_key(&k) && b.contains_key(&k)
    };
    let keys: std::collections::BTreeSet<_> = a.keys().chain(b.keys()).collect();
    for k in keys {
        let (x, y) = (a.get(k), b.get(k));
        if x == y {
            continue;
        }
        let (class, p) = (k.0, k.1.clone());
        let mut push = |s: String| out.push((p.trim_start_matches('@').to_string(), s));
        match class {
            KIND => {
                if let Some(x) = x {
                    push(format!("Remove{x}"));
                }
                if let Some(y) = y {
                    push(format!("Add{y}"));
                }
            }
            FIELD if same_kind(owner(&p)) => {
                let what = match a[&(KIND, owner(&p).into())].as_str() {
                    "Enum" => "EnumValue",
                    "Union" => "UnionMember",
                    _ => "Field",
                };
                push(match (x, y) {
                    (None, _) => format!("Add{what}"),
                    (_, None) => format!("Remove{what}"),
                    _ => "ChangeFieldType".into(),
                });
            }
            ARG if both_fields(&p) => push(
                match (x, y) {
                    (None, _) => "AddFieldArgument",
                    (_, None) => "RemoveFieldArgument",
                    _ => "ChangeFieldArgumentType",
                }
                .into(),
            ),
            DEFAULT if a.contains_key(&(ARG, p.clone())) && b.contains_key(&(ARG, p.clone())) => push(
                match (x, y) {
                    (None, _) => "AddFieldArgumentDefault",
                    (_, None) => "RemoveFieldArgumentDefault",
                    _ => "ChangeFieldArgumentDefault",
                }
                .into(),
            ),
            IMPL => {
                let fielded = |f: &Facts| f.get(&(KIND, owner(&p).into())).is_some_and(|k| k == "ObjectType" || k == "Interface");
                if fielded(a) && fielded(b) {
                    push(if x.is_none() { "AddInterfaceImplementation" } else { "RemoveInterfaceImplementation" }.into())
                }
            }
            SCHEMA => out.push((":schema".into(), if x.is_none() { "AddSchemaDefinition" } else { "RemoveSchemaDefinition" }.into())),
            ROOT if a.contains_key(&(SCHEMA, String::new())) && b.contains_key(&(SCHEMA, String::new())) => out.push((
                ":schema".into(),
                match k.1.as_str() {
                    "query" => "ChangeQueryType",
                    "mutation" => "ChangeMutationType",
                    _ => "ChangeSubscriptionType",
                }
                .into(),
            )),
            _ => {}
        }
    }
    out.sort();
    out
}

fn parse(s: &str) -> Option<Option<ast::TypeSystemDocument>> {
    // the parser (a dependency) lets unbalanced brackets and repeated `!` in types pass
    let mut depth = 0;
    let mut bang = false;
    for c in s.bytes() {
        if c == b'!' && bang {
            return None;
        }
        bang = c == b'!' || c == b' ' && bang;
        match c {
            b'[' => depth += 1,
            b']' => depth -= 1,
            b'a'..=b'z' | b'A'..=b'Z' | b'!' | b' ' => continue,
            _ if depth == 0 => {}
            _ => return None,
        }
        if depth < 0 {
            return None;
        }
    }
    if depth != 0 {
        return None;
    }
    if s.trim().is_empty() {
        return Some(None);
    }
    cynic_parser::parse_type_system_document(s).ok().map(Some)
}

fn changed(c: &[Change]) -> Vec<(String, String)> {
    let mut v: Vec<_> = c.iter().map(|c| (c.path.clone(), c.kind.as_str().to_string())).collect();
    v.sort();
    v
}

/// No name is defined twice at the same place (such documents are invalid and outside the property).
fn unambiguous(doc: Option<&ast::TypeSystemDocument>) -> bool {
    let Some(doc) = doc else { return true };
    let mut seen = std::collections::BTreeSet::new();
    let mut kinds = BTreeMap::new();
    let mut schemas = 0;
    let mut rooted = true;
    for d in doc.definitions() {
        match d {
            ast::Definition::Schema(s) => {
                schemas += 1;
                rooted &= s.query_type().is_some() || s.mutation_type().is_some() || s.subscription_type().is_some();
            }
            ast::Definition::Type(t) | ast::Definition::TypeExtension(t) => {
                let n = t.name();
                if matches!(d, ast::Definition::Type(_)) && !seen.insert(n.to_string()) {
                    return false;
                }
                // a definition and its extensions are of one kind
                let kind = std::mem::discriminant(&t);
                if *kinds.entry(n.to_string()).or_insert(kind) != kind {
                    return false;
                }
                let mut add = |s: String| seen.insert(s);
                let ok = match t {
                    ast::TypeDefinition::Object(o) => {
                        o.fields().all(|f| add(format!("{n}.{}", f.name())) && f.arguments().all(|a| add(format!("{n}.{}.{}", f.name(), a.name()))))
                            && o.implements_interfaces().all(|i| add(format!("{n}&{i}")))
                    }
                    ast::TypeDefinition::Interface(o) => {
                        o.fields().all(|f| add(format!("{n}.{}", f.name())) && f.arguments().all(|a| add(format!("{n}.{}.{}", f.name(), a.name()))))
                            && o.implements_interfaces().all(|i| add(format!("{n}&{i}")))
                    }
                    ast::TypeDefinition::Union(u) => u.members().all(|m| add(format!("{n}.{}", m.name()))),
                    ast::TypeDefinition::Enum(e) => e.values().all(|v| add(format!("{n}.{}", v.value()))),
                    ast::TypeDefinition::InputObject(i) => i.fields().all(|f| add(format!("{n}.{}", f.name()))),
                    ast::TypeDefinition::Scalar(_) => true,
                };
                if !ok {
                    return false;
                }
            }
            ast::Definition::Directive(d) => {
                if !seen.insert(format!("@{}", d.name())) {
                    return false;
                }
            }
            _ => {}
        }
    }
    schemas <= 1 && rooted
}

fn diff_case(s: &str, t: &str) {
    let Some(ds) = parse(s) else { return };
    let Some(dt) = parse(t) else {
        wrt::reach(3);
        return;
    };
    if !unambiguous(ds.as_ref()) || !unambiguous(dt.as_ref()) {
        return;
    }
    wrt::ensure!(diff(s, s).is_ok_and(|c| c.is_empty()), "{s:?} differs from itself");
    let changes = diff(s, t).unwrap_or_else(|e| wrt::failed(&format!("diff fails: {e}")));
    let (fs, ft) = (facts(ds.as_ref(), s), facts(dt.as_ref(), t));
    let (e, c) = (expected(&fs, &ft), changed(&changes));
    wrt::ensure!(e == c, "{s:?} to {t:?}: reported {c:?}, not {e:?}");
    for (x, y) in changes.iter().zip(resolve_spans(s, t, &changes)) {
        let last = x.path.rsplit('.').next().unwrap();
        match x.kind {
            ChangeKind::AddObjectType | ChangeKind::AddField | ChangeKind::AddEnumValue | ChangeKind::AddFieldArgument | ChangeKind::AddUnionMember => {
                wrt::ensure!(y.contains(last), "{:?} at {} resolves to {y:?}", x.kind, x.path)
            }
            ChangeKind::ChangeFieldType => wrt::ensure!(ft[&(FIELD, x.path.clone())] .replace(" ", "") == y.replace(" ", ""), "{:?} at {} resolves to {y:?}", x.kind, x.path),
            ChangeKind::ChangeFieldArgumentType => wrt::ensure!(ft[&(ARG, x.path.clone())] .replace(" ", "") == y.replace(" ", ""), "{:?} at {} resolves to {y:?}", x.kind, x.path),
            _ => {}
        }
    }
    let untold = fs.iter().any(|(k, v)| k.0 == INPUT_DEFAULT && ft.contains_key(&(FIELD, k.1.clone())) && ft.get(k) != Some(v))
        || ft.iter().any(|(k, _)| k.0 == INPUT_DEFAULT && fs.contains_key(&(FIELD, k.1.clone())) && !fs.contains_key(k));
    wrt::ensure!(!untold || !c.is_empty(), "a changed default of an input field is not reported: {s:?} to {t:?}");
    wrt::observe("changes", format!("{c:?}").as_bytes());
    wrt::reach(if c.is_empty() { 1 } else { 2 });
}

fn patch_case(s: &str, t: &str) {
    let Some(ds) = parse(s) else { return };
    let Some(dt) = parse(t) else { return };
    if !unambiguous(ds.as_ref()) || !unambiguous(dt.as_ref()) {
        return;
    }
    let changes = diff(s, t).unwrap_or_else(|e| wrt::failed(&format!("diff fails: {e}")));
    let spans: Vec<&str> = resolve_spans(s, t, &changes).collect();
    let p = match patch(s, &changes, &spans) {
        Ok(p) => p.into_schema(),
        Err(e) => wrt::failed(&format!("patch fails: {e}")),
    };
    let Some(dp) = parse(&p) else { wrt::failed(&format!("{s:?} patched to {t:?} is not a schema: {p:?}")) };
    let left = diff(&p, t).map(|c| changed(&c)).unwrap_or_default();
    wrt::ensure!(left.is_empty(), "{s:?} patched to {t:?} gives {p:?}, still different: {left:?}");
    let (fp, ft) = (facts(dp.as_ref(), &p), facts(dt.as_ref(), t));
    for (k, v) in facts(ds.as_ref(), s).iter().filter(|(k, v)| k.0 == INPUT_DEFAULT && ft.get(k) == Some(v)) {
        wrt::ensure!(fp.get(k) == Some(v), "{s:?} patched to {t:?} gives {p:?}: the default of {} is lost", k.1);
    }
    let named = |f: &Facts| f.keys().filter(|k| k.0 != INPUT_DEFAULT).cloned().collect::<Vec<_>>();
    wrt::ensure!(named(&fp) == named(&ft), "{s:?} patched to {t:?} gives {p:?}");
    wrt::observe("patched", p.as_bytes());
    wrt::reach(if changes.is_empty() { 1 } else { 2 });
}

/// A document with holes (`?`), each filled with up to so many characters of an alphabet, or one of some alternatives (ALT).
const ALT: u8 = 200;
const HOLES: &[(&str, &[(u8, &[u8])])] = &[
    ("type T {?} scalar S", &[(9, b"ab:IS!() ")]),
    ("type T { a(?): I }", &[(9, b"xy:I!=1 ")]),
    ("type T { a(x: ? y: I = 2): I }", &[(9, b"I!=12[] ")]),
    ("interface T { b: I a: ?}", &[(9, b"I[]!S")]),
    ("type T implements N ? { a: I }", &[(9, b"&BC ")]),
    ("union U = A ?", &[(9, b"|BC ")]),
    ("enum E {A ?}", &[(9, b"BC ")]),
    ("input I { a: ?}", &[(9, b"I!=1b: ")]),
    ("schema { query: ?}", &[(9, b"AB ")]),
    ("schema { query: A mutation: B subscription:?}", &[(9, b"BC ")]),
    // interfaces and fields change together
    ("type T implements m ? { a: I ?}", &[(2, b"&nZ"), (3, b"z:I")]),
    ("interface T implements m ? { a: I ?}", &[(2, b"&nZ"), (3, b"z:I")]),
    // two fields with the same argument names
    ("type T { a(x: I?): I b(x: I?): I }", &[(2, b"=1!"), (2, b"=1!")]),
    ("type T { a(?x: I?): I b(?x: I?): I }", &[(ALT, b"/w:I/y:I=1 /w:I y:I"), (ALT, b"/ z:I"), (ALT, b"/w:I /w:I! y:I"), (ALT, b"/ z:I=2/!")]),
    // the same field names in two types
    ("type T { a: I? } type U { a: I? }", &[(1, b"!"), (3, b"b:I")]),
    ("enum T { a ? } union U = a ?", &[(1, b"b"), (2, b"|b")]),
    ("enum E { A? } input I { a: E? } type T { a(x: E?): E? }", &[(2, b" B"), (1, b"!"), (1, b"!"), (1, b"!")]),
    ("type T ?", &[(5, b"{}a:I")]),
    ("scalar T ? type ?{a:I}", &[(2, b"@d"), (1, b"TU")]),
    ("\"d\" type T @x ? { \"e\" a(\"f\" x: I ? @z): I @y }", &[(2, b"@v"), (2, b"=1")]),
    ("schema ? ? type Q {a:I}", &[(2, b"@a"), (9, b"{query:QR}")]),
    ("directive @d on OBJECT ?", &[(0, b"")]),
    // extensions
    ("type T { a: I?} extend type T ? { c: I ?}", &[(1, b"!"), (1, b"@"), (3, b"z:I")]),
    ("extend type T implements n?{ a: I ?} type T implements m? { b: I }", &[(2, b"&o"), (3, b"z:I"), (2, b"&p")]),
    ("enum E {A ?} extend enum E {B ?} union U = a ? extend union U = b ?", &[(1, b"YZ"), (1, b"YZ"), (2, b"|c"), (2, b"|d")]),
    ("input E {A:I ?} extend input E {B:I = 1 ?}", &[(3, b"z:I"), (3, b"z:I")]),
    // type and default change together
    ("type T { a(x: ? y: I?): I }", &[(ALT, b"I/I!/I = 1/I! = 1/I = 2/I! = 2/[I] = [1]/J = 2/[I!]! = []/I = null"), (ALT, b"/! = 1/ = 2")]),
    ("interface T { b: I a(x: ?): ? }", &[(ALT, b"I/I = 1/I! = 1/I! = 2/J = {a: 1}/J! = {a: 2}"), (ALT, b"I/I!/[I]")]),
    ("input T { x: ? y: ? }", &[(ALT, b"I/I!/I = 1/I! = 1/I! = 2/J = \"a\"/J"), (ALT, b"I/J! = 1/J = 2")]),
    ("directive @d(x: ?)? on FIELD type T { a: ? }", &[(ALT, b"I/I = 1/I! = 2"), (ALT, b"/ repeatable"), (ALT, b"I/J!")]),
];

fn render(n: &str, t: &str, holes: &[(u8, &[u8])], k: usize) -> String {
    let mut out = String::new();
    for (i, part) in t.split('?').enumerate() {
        if i > 0 {
            let (max, al) = holes[i - 1];
            if max == ALT {
                let alts: Vec<&str> = st(al).split('/').collect();
                out += wrt::pick(&format!("{n}{}", i - 1), &alts);
            } else if max > 0 {
                out += &wrt::word(&format!("{n}{}.{}", i - 1, k.min(max as usize)), k.min(max as usize), al);
            }
        }
        out += part;
    }
    out
}

fn holes(f: fn(&str, &str)) {
    let k = wrt::param(0) as usize;
    let (lo, hi) = (wrt::param(1) as u8, wrt::param(2) as u8);
    let i = wrt::pin(wrt::choose("template", HOLES.len() as u8) as u64) as usize;
    wrt::assume(i as u8 >= lo && (i as u8) < hi);
    let (t, al) = HOLES[i];
    let (s, t) = (render("source", t, al, k), render("target", t, al, k));
    f(&s, &t)
}

/// Documents with two definitions of any kind, and a schema definition.
fn kinds(f: fn(&str, &str)) {
    let doc = |n: &str| {
        let a = wrt::pick(
            &format!("{n}.a"),
            &["", "type A implements N & M { a: I b: I }", "interface A { a: I b: J }", "scalar A", "union A = a | b", "enum A { a b }", "input A { a: I = 1 }", "type A { a(b: I): I }"],
        );
        let b = wrt::pick(&format!("{n}.b"), &["", "type B { a: I }", "enum B { b }", "directive @A on OBJECT", "directive @a(b: I) on FIELD", "scalar a"]);
        let c = wrt::pick(&format!("{n}.c"), &["", "schema { query: A }", "schema { query: B mutation: A }", "schema { query: A subscription: B }"]);
        if wrt::flag(&format!("{n}.order")) { format!("{a} {b} {c}") } else { format!("{c} {b} {a}") }
    };
    f(&doc("source"), &doc("target"))
}

pub fn c15_holes() {
    holes(diff_case)
}

pub fn c16_holes() {
    holes(patch_case)
}

pub fn c15_kinds() {
    kinds(diff_case)
}

pub fn c16_kinds() {
    kinds(patch_case)
}

wrt::checks!(c17_parse, c17_bytes, c17_print, c15_holes, c16_holes, c15_kinds, c16_kinds);
