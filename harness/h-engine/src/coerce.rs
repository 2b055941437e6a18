//! C47: variables and arguments are coerced as GraphQL prescribes.
use super::*;
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Int(i64),
    Big(u64),
    Float(f64),
    Str(String),
    Bool(bool),
    Enum(&'static str),
    List(Vec<V>),
    Obj(Vec<(&'static str, V)>),
    /// a variable with its type, its value if it has one, and its default
    Var(Box<Var>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Var {
    pub name: &'static str,
    pub value: Option<Value>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Named(&'static str),
    NonNull(Box<T>),
    List(Box<T>),
}

const WRAPS: [&str; 8] = ["", "!", "[]", "[!]", "[]!", "[!]!", "[[]]", "[[!]!]!"];

pub fn ty(name: &'static str, wrap: &str) -> T {
    if let Some(w) = wrap.strip_suffix('!') {
        return T::NonNull(Box::new(ty(name, w)));
    }
    match wrap.strip_prefix('[').and_then(|w| w.strip_suffix(']')) {
        Some(w) => T::List(Box::new(ty(name, w))),
        None => T::Named(name),
    }
}

impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            T::Named(n) => f.write_str(n),
            T::NonNull(t) => write!(f, "{t}!"),
            T::List(t) => write!(f, "[{t}]"),
        }
    }
}

fn json(v: &V) -> Value {
    match v {
        V::Null => Value::Null,
        V::Int(n) => Value::from(*n),
        V::Big(n) => Value::from(*n),
        V::Float(x) => Value::from(*x),
        V::Str(s) => Value::from(s.clone()),
        V::Bool(b) => Value::from(*b),
        V::Enum(_) | V::Var(_) => unreachable!(),
        V::List(l) => Value::Array(l.iter().map(json).collect()),
        V::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.to_string(), json(v))).collect()),
    }
}

pub fn literal(v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Int(n) => n.to_string(),
        V::Big(n) => n.to_string(),
        V::Float(x) => format!("{x:?}"),
        V::Str(s) => format!("\"{s}\""),
        V::Bool(b) => b.to_string(),
        V::Enum(e) => e.to_string(),
        V::List(l) => format!("[{}]", l.iter().map(literal).collect::<Vec<_>>().join(", ")),
        V::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {}", literal(v))).collect::<Vec<_>>().join(", ")),
        V::Var(x) => format!("${}", x.name),
    }
}

/// The fields of the input objects: name, type, default.
fn fields(name: &str) -> Vec<(&'static str, T, Option<Value>)> {
    match name {
        "I" => vec![
            ("a", ty("Int", ""), None),
            ("b", ty("String", "[!]"), Some(serde_json::json!(["d"]))),
            ("c", ty("E", "!"), Some(serde_json::json!("B"))),
            ("d", ty("Float", "!"), None),
            ("n", ty("I", ""), None),
        ],
        "O" => vec![("a", ty("Int", ""), None), ("b", ty("String", "[!]"), None)],
        "P" => vec![("x", ty("Int", ""), Some(serde_json::json!(5))), ("y", ty("Int", "!"), Some(serde_json::json!(6))), ("z", ty("Int", "[]"), None)],
        _ => unreachable!(),
    }
}

pub const TYPES: &str = "scalar Any
enum E { A B H @inaccessible C }
input I { a: Int b: [String!] = \"d\" h: Int @inaccessible c: E! = B d: Float! n: I }
input O @oneOf { a: Int h: Int @inaccessible b: [String!] }
input P { x: Int = 5 y: Int! = 6 z: [Int] }
";

/// The value the argument has; `alone` unless the value is an element of a list. An absent value (None) is a
/// variable without a value.
fn coerce(t: &T, v: &V, alone: bool, lit: bool) -> Result<Option<Value>, ()> {
    if let V::Var(x) = v {
        return Ok(x.value.clone());
    }
    match t {
        T::NonNull(t) => {
            if *v == V::Null {
                return Err(());
            }
            coerce(t, v, alone, lit)
        }
        _ if *v == V::Null => Ok(Some(Value::Null)),
        T::List(t) => match v {
            V::List(l) => {
                let mut out = Vec::new();
                for v in l {
                    out.push(coerce(t, v, false, lit)?.unwrap_or(Value::Null));
                }
                Ok(Some(Value::Array(out)))
            }
            _ if alone => Ok(coerce(t, v, true, lit)?.map(|v| Value::Array(vec![v]))),
            _ => Err(()),
        },
        T::Named(n) => named(n, v, lit).map(Some),
    }
}

fn named(n: &str, v: &V, lit: bool) -> Result<Value, ()> {
    match (n, v) {
        ("Int", V::Int(n)) if *n >= i32::MIN as i64 && *n <= i32::MAX as i64 => Ok(Value::from(*n)),
        ("Int", V::Float(x)) if x.fract() == 0.0 && *x >= i32::MIN as f64 && *x <= i32::MAX as f64 => Ok(Value::from(*x as i64)),
        ("Float", V::Int(n)) => Ok(Value::from(*n as f64)),
        ("Float", V::Big(n)) => Ok(Value::from(*n as f64)),
        ("Float", V::Float(x)) => Ok(Value::from(*x)),
        ("String" | "ID", V::Str(s)) => Ok(Value::from(s.clone())),
        ("ID", V::Int(n)) => Ok(Value::from(n.to_string())),
        ("ID", V::Big(n)) => Ok(Value::from(n.to_string())),
        ("Boolean", V::Bool(b)) => Ok(Value::from(*b)),
        ("E", V::Str(s)) if !lit && (s == "A" || s == "B" || s == "C") => Ok(Value::from(s.clone())),
        ("E", V::Enum(s)) if *s != "H" && *s != "Z" => Ok(Value::from(*s)),
        ("Any", v) => Ok(json(v)),
        ("I" | "P", V::Obj(o)) => {
            let fs = fields(n);
            if o.iter().any(|(k, _)| !fs.iter().any(|f| f.0 == *k)) {
                return Err(());
            }
            let mut out = serde_json::Map::new();
            for (name, t, default) in fs {
                let given = match o.iter().find(|(k, _)| *k == name) {
                    Some((_, v)) => coerce(&t, v, true, lit)?,
                    None if default.is_none() && matches!(t, T::NonNull(_)) => return Err(()),
                    None => None,
                };
                if let Some(v) = given.or(default) {
                    out.insert(name.to_string(), v);
                }
            }
            Ok(Value::Object(out))
        }
        ("O", V::Obj(o)) => {
            let [(k, v)] = o.as_slice() else { return Err(()) };
            let Some(f) = fields("O").into_iter().find(|f| f.0 == *k) else { return Err(()) };
            if *v == V::Null {
                return Err(());
            }
            let mut out = serde_json::Map::new();
            out.insert(k.to_string(), coerce(&f.1, v, true, lit)?.unwrap_or(Value::Null));
            Ok(Value::Object(out))
        }
        _ => Err(()),
    }
}

const NAMES: [&str; 7] = ["Int", "Float", "String", "Boolean", "ID", "E", "Any"];

/// A value for a scalar or enum type.
fn scalar(tag: &str, name: &str, lit: bool) -> V {
    match wrt::choose(tag, 15) {
        0 => V::Null,
        1 => {
            // any Int, unless its digits matter
            if !lit && (name == "Int" || name == "Any") { V::Int(wrt::i32(&format!("{tag}n")) as i64) } else { V::Int(7) }
        }
        2 => V::Int(i32::MAX as i64),
        3 => V::Int(i32::MAX as i64 + 1),
        4 => V::Int(i32::MIN as i64),
        5 => V::Int(i32::MIN as i64 - 1),
        6 => V::Int(9007199254740993),
        7 => V::Float(1.5),
        8 => V::Float(-3.0),
        9 => V::Float([3e9, -3e9, 2147483647.0, -2147483648.0][wrt::choose(&format!("{tag}f"), 4) as usize]),
        10 => V::Str(wrt::word(&format!("{tag}s"), 1, b"xZ")),
        11 => if lit { V::Enum(["A", "C", "H", "Z"][wrt::choose(&format!("{tag}e"), 4) as usize]) } else { V::Str(wrt::pick(&format!("{tag}e"), &["A", "C", "H", "Z"]).to_string()) },
        12 => V::Bool(wrt::flag(&format!("{tag}b"))),
        13 => V::Obj(if wrt::flag(&format!("{tag}o")) { vec![("k", V::Int(1)), ("b", V::Null)] } else { vec![] }),
        _ => if lit { V::Int(i64::MAX) } else { V::Big(u64::MAX) },
    }
}

/// An element of a list.
fn element(tag: &str, name: &str, lit: bool) -> V {
    let good = match name {
        "Int" | "Float" => V::Int(3),
        "Boolean" => V::Bool(true),
        "E" if lit => V::Enum("A"),
        "E" => V::Str("A".into()),
        _ => V::Str("q".into()),
    };
    match wrt::choose(tag, 7) {
        0 => V::Null,
        1 => good,
        2 => V::Obj(vec![]),
        3 => V::List(vec![]),
        4 => V::List(vec![good]),
        5 => V::List(vec![V::Null, good]),
        _ => V::List(vec![V::List(vec![])]),
    }
}

fn value(name: &str, lit: bool) -> V {
    match wrt::choose("shape", 4) {
        0 => scalar("v", name, lit),
        1 => V::List(vec![]),
        2 => V::List(vec![element("e1", name, lit)]),
        _ => V::List(vec![element("e1", name, lit), element("e2", name, lit)]),
    }
}

fn has_enum(v: &V) -> bool {
    match v {
        V::Enum(_) => true,
        V::List(l) => l.iter().any(has_enum),
        V::Obj(o) => o.iter().any(|(_, v)| has_enum(v)),
        _ => false,
    }
}

fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_i64(), y.as_i64()) {
            (Some(x), Some(y)) => x == y,
            (None, None) => x == y,
            _ => false,
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        _ => a == b,
    }
}

fn compare(what: impl Fn() -> String, got: Result<Option<Value>, String>, want: Result<Option<Value>, ()>) {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            wrt::reach(1);
            let ok = match (&g, &w) {
                (Some(g), Some(w)) => same(g, w),
                (None, None) => true,
                _ => false,
            };
            wrt::ensure!(ok, "{}: the argument is {g:?}, not {w:?}", what());
        }
        (Err(_), Err(())) => wrt::reach(2),
        (Ok(_), Err(())) => wrt::failed(&format!("{} is accepted", what())),
        (Err(e), Ok(_)) => wrt::failed(&format!("{} is rejected: {e}", what())),
    }
}

fn schema(types: &[(&'static str, &'static str)]) -> Schema {
    let mut s = format!("{TYPES}type Query {{\n");
    for (i, (n, w)) in types.iter().enumerate() {
        s += &format!("  f{i}(v: {}): String\n", ty(n, w));
    }
    s += "}\n";
    must_load(&s)
}

fn operation(schema: &Schema, doc: &str) -> Result<Operation, String> {
    Operation::parse(schema, None, doc).map_err(|e| messages(&e))
}

fn bound(schema: &Schema, doc: &str, raw: RawVariables) -> Result<Option<Value>, String> {
    let op = operation(schema, doc)?;
    let vars = Variables::bind(schema, &op, raw).map_err(|e| e.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>().join("; "))?;
    Ok(argument(schema, &op, &vars))
}

/// A variable of any type with any value. param(0): which wrappings
pub fn c47_variables() {
    let all: Vec<(&str, &str)> = NAMES.iter().flat_map(|n| WRAPS.iter().map(move |w| (*n, *w))).collect();
    let s = schema(&all);
    let n = wrt::choose("name", 7) as usize;
    let w = wrt::param(0) as usize * 4 + wrt::choose("wrap", 4) as usize;
    let t = ty(NAMES[n], WRAPS[w]);
    let v = value(NAMES[n], false);
    let doc = format!("query($v: {t}) {{ f{}(v: $v) }}", n * 8 + w);
    let got = bound(&s, &doc, raw("v", Some(json(&v))));
    compare(|| format!("{v:?} for a variable of type {t}"), got, coerce(&t, &v, true, false));
}

/// The same as literals.
pub fn c47_literals() {
    let all: Vec<(&str, &str)> = NAMES.iter().flat_map(|n| WRAPS.iter().map(move |w| (*n, *w))).collect();
    let s = schema(&all);
    let n = wrt::choose("name", 7) as usize;
    let w = wrt::param(0) as usize * 4 + wrt::choose("wrap", 4) as usize;
    let t = ty(NAMES[n], WRAPS[w]);
    let v = value(NAMES[n], true);
    // enum values of custom scalars are up to the scalar
    wrt::assume(NAMES[n] != "Any" || !has_enum(&v));
    let doc = if wrt::flag("default") {
        // the default of a variable
        format!("query($v: {t} = {}) {{ f{}(v: $v) }}", literal(&v), n * 8 + w)
    } else {
        format!("{{ f{}(v: {}) }}", n * 8 + w, literal(&v))
    };
    let got = bound(&s, &doc, raw("w", None));
    compare(|| format!("{} for {t} in {doc}", literal(&v)), got, coerce(&t, &v, true, true));
}

fn object(name: &str, lit: bool, deep: bool) -> V {
    let e = |x| if lit { V::Enum(x) } else { V::Str(x.to_string()) };
    let mut o: Vec<(&'static str, V)> = Vec::new();
    match name {
        "I" => {
            let a = wrt::choose("a", 4);
            let b = wrt::choose("b", 5);
            let c = wrt::choose("c", 4);
            let d = wrt::choose("d", 3);
            let x = wrt::choose("extra", 4);
            match a {
                1 => o.push(("a", V::Null)),
                2 => o.push(("a", V::Int(if lit { 4 } else { wrt::i32("an") as i64 }))),
                3 => o.push(("a", V::Str("s".into()))),
                _ => {}
            }
            match x {
                1 => o.push(("h", V::Int(1))),
                2 => o.push(("zz", V::Null)),
                3 if deep => o.push(("n", match wrt::choose("n", 4) {
                    0 => V::Null,
                    1 => V::Obj(vec![("d", V::Int(2))]),
                    2 => V::Obj(vec![]),
                    _ => V::List(vec![]),
                })),
                _ => {}
            }
            match d {
                1 => o.push(("d", V::Float(0.5))),
                2 => o.push(("d", V::Null)),
                _ => {}
            }
            match b {
                1 => o.push(("b", V::Null)),
                2 => o.push(("b", V::Str("t".into()))),
                3 => o.push(("b", V::List(vec![V::Str("u".into()), V::Str("v".into())]))),
                4 => o.push(("b", V::List(vec![V::Null]))),
                _ => {}
            }
            match c {
                1 => o.push(("c", e("C"))),
                2 => o.push(("c", e("H"))),
                3 => o.push(("c", V::Null)),
                _ => {}
            }
        }
        "O" => {
            match wrt::choose("a", 3) {
                1 => o.push(("a", V::Null)),
                2 => o.push(("a", V::Int(4))),
                _ => {}
            }
            match wrt::choose("b", 4) {
                1 => o.push(("b", V::Null)),
                2 => o.push(("b", V::Str("t".into()))),
                3 => o.push(("b", V::List(vec![V::Null]))),
                _ => {}
            }
            match wrt::choose("extra", 3) {
                1 => o.push(("h", V::Int(1))),
                2 => o.push(("zz", V::Int(1))),
                _ => {}
            }
        }
        _ => unreachable!(),
    }
    V::Obj(o)
}

/// Input objects. param(0): 0 variables, 1 literals
pub fn c47_objects() {
    let s = schema(&[("I", ""), ("I", "[!]"), ("O", "!"), ("O", "[]")]);
    let lit = wrt::param(0) == 1;
    let i = wrt::choose("type", 4);
    let t = [ty("I", ""), ty("I", "[!]"), ty("O", "!"), ty("O", "[]")][i as usize].clone();
    let mut v = object(if i < 2 { "I" } else { "O" }, lit, true);
    if i % 2 == 1 && wrt::flag("list") {
        v = V::List(vec![v]);
    }
    let (doc, r) = if lit { (format!("{{ f{i}(v: {}) }}", literal(&v)), raw("v", None)) } else { (format!("query($v: {t}) {{ f{i}(v: $v) }}"), raw("v", Some(json(&v)))) };
    let got = bound(&s, &doc, r);
    compare(|| format!("{v:?} for {t}"), got, coerce(&t, &v, true, lit));
}

/// Variables inside of literals: those without a value leave a field out or give it its default.
pub fn c47_nested() {
    let s = schema(&[("P", ""), ("Int", "[]"), ("P", "[]")]);
    let mut defs = Vec::new();
    let mut given = serde_json::Map::new();
    let mut var = |name: &'static str, nonnull: bool, list: bool| -> V {
        // the type of the variable, its default, and its value
        let t = if list { "[Int]" } else { "Int" };
        let k = wrt::choose(&format!("{name}k"), if nonnull { 3 } else { 4 });
        let (def, value) = match k {
            0 => (format!("${name}: {t}!"), Some(Value::from(8))),
            1 => (format!("${name}: {t} = 9"), None),
            2 => (format!("${name}: {t} = 9"), Some(Value::from(7))),
            _ => (format!("${name}: {t}"), match wrt::choose(&format!("{name}v"), 3) {
                0 => None,
                1 => Some(Value::Null),
                _ => Some(Value::from(wrt::i32(&format!("{name}i")))),
            }),
        };
        defs.push(def);
        if let Some(v) = &value {
            given.insert(name.to_string(), v.clone());
        }
        let value = match (value, k) {
            (None, 1) => Some(Value::from(9)),
            (v, _) => v,
        };
        let value = value.map(|v| if list && !v.is_null() { Value::Array(vec![v]) } else { v });
        V::Var(Box::new(Var { name, value }))
    };
    let i = wrt::choose("type", 3);
    let v = if i == 1 {
        V::List(vec![var("p", false, false), V::Int(2), var("q", false, false)])
    } else {
        let mut o = Vec::new();
        match wrt::choose("x", 3) {
            0 => {}
            1 => o.push(("x", V::Null)),
            _ => o.push(("x", var("p", false, false))),
        }
        match wrt::choose("z", 3) {
            0 => {}
            1 => o.push(("z", V::List(vec![var("r", false, false)]))),
            _ => o.push(("z", var("r", false, true))),
        }
        match wrt::choose("y", 2) {
            0 => {}
            _ => o.push(("y", var("q", true, false))),
        }
        if i == 0 { V::Obj(o) } else { V::List(vec![V::Obj(o)]) }
    };
    let t = [ty("P", ""), ty("Int", "[]"), ty("P", "[]")][i as usize].clone();
    let defs = if defs.is_empty() { String::new() } else { format!("({})", defs.join(", ")) };
    let doc = format!("query{defs} {{ f{i}(v: {}) }}", literal(&v));
    let got = bound(&s, &doc, RawVariables::from_value(Value::Object(given)));
    compare(|| doc.clone(), got, coerce(&t, &v, true, true));
}

/// Where a variable may be used. param(0): the half of the declared types
pub fn c47_usage() {
    let names = ["Int", "Float", "E"];
    let all: Vec<(&str, &str)> = names.iter().flat_map(|n| WRAPS.iter().map(move |w| (*n, *w))).collect();
    let s = schema(&all);
    let dn = wrt::choose("dn", 3) as usize;
    let dw = wrt::param(0) as usize * 4 + wrt::choose("dw", 4) as usize;
    let un = wrt::choose("un", 3) as usize;
    let uw = wrt::choose("uw", 8) as usize;
    let default = wrt::choose("default", 3);
    let (d, u) = (ty(names[dn], WRAPS[dw]), ty(names[un], WRAPS[uw]));
    let value = ["1", "1.5", "A"][dn];
    let def = match default {
        0 => String::new(),
        1 => {
            wrt::assume(!matches!(d, T::NonNull(_)));
            " = null".to_string()
        }
        _ => format!(" = {value}"),
    };
    let doc = format!("query($v: {d}{def}) {{ f{}(v: $v) }}", un * 8 + uw);
    // the engine is more liberal than the specification: a variable that is no list fits where a list is expected
    fn fits(d: &T, u: &T) -> bool {
        match (d, u) {
            (T::NonNull(d), T::NonNull(u)) => fits(d, u),
            (_, T::NonNull(_)) => false,
            (T::NonNull(d), u) => fits(d, u),
            (T::List(d), T::List(u)) => fits(d, u),
            (T::Named(d), T::Named(u)) => d == u,
            _ => false,
        }
    }
    let plain = |t: &T| match t {
        T::NonNull(t) => matches!(**t, T::Named(_)),
        t => matches!(t, T::Named(_)),
    };
    let d2 = if default == 2 && !matches!(d, T::NonNull(_)) { T::NonNull(Box::new(d.clone())) } else { d.clone() };
    let ok = fits(&d2, &u) || names[dn] == names[un] && plain(&d2) && (matches!(d2, T::NonNull(_)) || !matches!(u, T::NonNull(_)));
    match operation(&s, &doc) {
        Ok(_) => {
            wrt::ensure!(ok, "{doc} is accepted for an argument of type {u}");
            wrt::reach(1);
        }
        Err(e) => {
            wrt::ensure!(!ok, "{doc} is rejected for an argument of type {u}: {e}");
            wrt::reach(2);
        }
    }
}

/// Defaults of arguments in the schema. param(0): 0 scalars, 1 input objects
pub fn c47_defaults() {
    let (t, v) = if wrt::param(0) == 0 {
        let n = wrt::choose("name", 7) as usize;
        let t = ty(NAMES[n], WRAPS[wrt::choose("wrap", 8) as usize]);
        let v = value(NAMES[n], true);
        wrt::assume(NAMES[n] != "Any" || !has_enum(&v));
        (t, v)
    } else {
        let i = wrt::choose("type", 4);
        let t = [ty("I", ""), ty("I", "[!]"), ty("O", "!"), ty("O", "[]")][i as usize].clone();
        (t, object(if i < 2 { "I" } else { "O" }, true, true))
    };
    let want = coerce(&t, &v, true, true);
    // what no client may give, the schema may
    let l = literal(&v);
    wrt::assume(!l.contains('H') && !l.contains("h: "));
    let sdl = format!("{TYPES}type Query {{ f(v: {t} = {l}): String }}\n");
    match load(&sdl) {
        Err(e) => {
            wrt::ensure!(want.is_err(), "the default {l} of type {t} is rejected: {}", e.join("; "));
            wrt::reach(2);
        }
        Ok(s) => compare(|| format!("the default {l} of type {t}"), bound(&s, "{ f }", raw("v", None)), want),
    }
}
