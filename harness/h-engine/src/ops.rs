//! C48: operations are accepted exactly if they are valid, and mean what they say; limits.
use super::*;
use engine_operation::{Field, Selection, SelectionSet};

const SDL: &str = "schema { query: Query mutation: Mutation }
type Query { a: Int b(r: Int!, o: Int = 4, n: String): Int hid: Int @inaccessible node: N u: U t: T ts: [T!]! w: W ha(x: Int, h: Int @inaccessible): Int e: E }
type Mutation { a: Int m(r: Int!): T }
interface N { id: ID! t: T }
type T implements N { id: ID! t: T x: Int secret: Int @inaccessible }
type S implements N { id: ID! t: T }
type W { y: Int n: N }
type H @inaccessible { z: Int }
union U = T | W
union V = S | W
enum E { P Q }
input J { a: Int }
scalar Sc
";

#[derive(Clone, Debug)]
enum Sel {
    /// alias, name, arguments, selection set
    F(Option<&'static str>, &'static str, Vec<(&'static str, &'static str)>, Vec<Sel>),
    I(Option<&'static str>, Vec<Sel>),
    S(&'static str),
}
use Sel::*;

#[derive(Clone, Debug)]
struct Frag {
    name: &'static str,
    on: &'static str,
    sels: Vec<Sel>,
}

fn f(name: &'static str, subs: Vec<Sel>) -> Sel {
    F(None, name, vec![], subs)
}

fn show(sels: &[Sel]) -> String {
    if sels.is_empty() {
        return String::new();
    }
    let mut o = String::from(" {");
    for s in sels {
        match s {
            F(alias, name, args, subs) => {
                o += &format!(" {}{name}", alias.map(|a| format!("{a}: ")).unwrap_or_default());
                if !args.is_empty() {
                    o += &format!("({})", args.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join(", "));
                }
                o += &show(subs);
            }
            I(on, subs) => {
                o += " ...";
                if let Some(on) = on {
                    o += &format!(" on {on}");
                }
                o += &show(subs);
            }
            S(n) => o += &format!(" ...{n}"),
        }
    }
    o + " }"
}

/// (arguments: name, required, default), type
type Def = (&'static str, &'static [(&'static str, bool, Option<i64>)], &'static str);

fn fields(ty: &str) -> &'static [Def] {
    match ty {
        "Query" => &[
            ("a", &[], "Int"), ("b", &[("r", true, None), ("o", false, Some(4)), ("n", false, None)], "Int"), ("node", &[], "N"), ("u", &[], "U"),
            ("t", &[], "T"), ("ts", &[], "T"), ("w", &[], "W"), ("ha", &[("x", false, None)], "Int"), ("e", &[], "E"),
            ("__schema", &[], "__Schema"), ("__type", &[("name", true, None)], "__Type"),
        ],
        "Mutation" => &[("a", &[], "Int"), ("m", &[("r", true, None)], "T")],
        "N" | "S" => &[("id", &[], "ID"), ("t", &[], "T")],
        "T" => &[("id", &[], "ID"), ("t", &[], "T"), ("x", &[], "Int")],
        "W" => &[("y", &[], "Int"), ("n", &[], "N")],
        "__Type" => &[("name", &[], "String")],
        _ => &[],
    }
}

/// The objects a type stands for; none for leaves and what is hidden.
fn objects(ty: &str) -> &'static [&'static str] {
    match ty {
        "Query" => &["Query"],
        "Mutation" => &["Mutation"],
        "N" => &["T", "S"],
        "T" => &["T"],
        "S" => &["S"],
        "W" => &["W"],
        "U" => &["T", "W"],
        "V" => &["S", "W"],
        "__Schema" => &["__Schema"],
        "__Type" => &["__Type"],
        _ => &[],
    }
}

/// What is selected.
#[derive(Debug, PartialEq)]
enum Tree {
    Field(String, String, Vec<(String, Option<i64>)>, Vec<Tree>),
    Frag(Option<String>, Vec<Tree>),
}

struct Doc<'a> {
    frags: &'a [Frag],
    variables: &'a [(&'static str, &'static str)],
    used: Vec<bool>,
    introspection: bool,
}

impl Doc<'_> {
    fn check(&mut self, ty: &str, sels: &[Sel], stack: &mut Vec<&'static str>) -> Result<Vec<Tree>, String> {
        let mut out = Vec::new();
        for s in sels {
            match s {
                F(alias, name, args, subs) => {
                    let key = alias.unwrap_or(name).to_string();
                    if *name == "__typename" {
                        out.push(Tree::Field(key, name.to_string(), vec![], vec![]));
                        continue;
                    }
                    let d = fields(ty).iter().find(|d| d.0 == *name).ok_or_else(|| format!("{ty} has no field {name}"))?;
                    if name.starts_with("__") && !self.introspection {
                        return Err("introspection is disabled".into());
                    }
                    let mut got = Vec::new();
                    for (k, v) in args {
                        let a = d.1.iter().find(|a| a.0 == *k).ok_or_else(|| format!("no argument {k}"))?;
                        if let Some(n) = v.strip_prefix('$') {
                            let i = self.variables.iter().position(|x| x.0 == n).ok_or_else(|| format!("no variable {n}"))?;
                            let t = self.variables[i].1;
                            if !(t == "Int!" && *k != "n" || t == "Int" && *k != "n" && !a.1 || t == "String" && *k == "n") {
                                return Err(format!("{t} does not fit {k}"));
                            }
                            self.used[i] = true;
                            got.push((k.to_string(), Some(77)));
                        } else if *v == "null" {
                            if a.1 {
                                return Err(format!("null for {k}"));
                            }
                            got.push((k.to_string(), None));
                        } else if v.starts_with('"') {
                            if *k != "n" && *k != "name" {
                                return Err(format!("a string for {k}"));
                            }
                            got.push((k.to_string(), None));
                        } else {
                            if *k == "n" || *k == "name" {
                                return Err(format!("a number for {k}"));
                            }
                            got.push((k.to_string(), Some(v.parse().unwrap())));
                        }
                    }
                    for (i, (k, _)) in args.iter().enumerate() {
                        if args[..i].iter().any(|(l, _)| k == l) {
                            return Err(format!("{k} twice"));
                        }
                    }
                    for a in d.1 {
                        if !args.iter().any(|(k, _)| *k == a.0) {
                            if let Some(x) = a.2 {
                                got.push((a.0.to_string(), Some(x)));
                            } else if a.1 {
                                return Err(format!("{} is missing", a.0));
                            }
                        }
                    }
                    got.sort();
                    let leaf = objects(d.2).is_empty();
                    if leaf != subs.is_empty() {
                        return Err(format!("the selection of {name}"));
                    }
                    let kids = if leaf { vec![] } else { self.check(d.2, subs, stack)? };
                    out.push(Tree::Field(key, name.to_string(), got, kids));
                }
                I(on, subs) => {
                    let t = match on {
                        Some(on) => self.condition(ty, on)?,
                        None => ty,
                    };
                    let kids = self.check(t, subs, stack)?;
                    out.push(Tree::Frag(on.map(|s| s.to_string()), kids));
                }
                S(n) => {
                    let fr = self.frags.iter().find(|f| f.name == *n).ok_or("no such fragment")?;
                    if stack.contains(n) {
                        return Err("a cycle".into());
                    }
                    let t = self.condition(ty, fr.on)?;
                    stack.push(n);
                    let kids = self.check(t, &fr.sels, stack)?;
                    stack.pop();
                    out.push(Tree::Frag(Some(fr.on.to_string()), kids));
                }
            }
        }
        Ok(out)
    }

    fn condition<'t>(&self, ty: &str, on: &'t str) -> Result<&'t str, String> {
        if !objects(on).iter().any(|o| objects(ty).contains(o)) {
            return Err(format!("{on} within {ty}"));
        }
        Ok(on)
    }
}

fn tree(set: SelectionSet<'_>, variables: &Variables) -> Vec<Tree> {
    set.into_iter()
        .map(|s| match s {
            Selection::Field(Field::Typename(t)) => Tree::Field(t.response_key_str().into(), "__typename".into(), vec![], vec![]),
            Selection::Field(Field::Data(d)) => {
                let mut args: Vec<(String, Option<i64>)> = d
                    .sorted_arguments()
                    .map(|a| {
                        let v = <serde_json::Value as serde::Deserialize>::deserialize(a.value(variables)).unwrap();
                        (a.definition().name().to_string(), v.as_i64())
                    })
                    .collect();
                args.sort();
                Tree::Field(d.response_key_str().into(), d.definition().name().into(), args, tree(d.selection_set(), variables))
            }
            Selection::InlineFragment(i) => Tree::Frag(i.type_condition().map(|t| t.name().to_string()), tree(i.selection_set(), variables)),
            Selection::FragmentSpread(s) => {
                let f = s.fragment();
                Tree::Frag(Some(f.type_condition().name().to_string()), tree(f.selection_set(), variables))
            }
        })
        .collect()
}

struct Case {
    kind: &'static str,
    name: Option<&'static str>,
    variables: Vec<(&'static str, &'static str)>,
    sels: Vec<Sel>,
    frags: Vec<Frag>,
    introspection: bool,
}

fn with_introspection() -> gateway_config::Config {
    let mut c = gateway_config::Config::default();
    c.graph.introspection = Some(true);
    c
}

pub(crate) fn configured(sdl: &str, c: &gateway_config::Config) -> Schema {
    match ready(Schema::builder(sdl).config(c).build()) {
        Ok(s) => s,
        Err(e) => wrt::failed(&format!("the engine does not load the graph: {}\n{sdl}", e.join("; "))),
    }
}

fn text(c: &Case) -> String {
    let vars = if c.variables.is_empty() { String::new() } else { format!("({})", c.variables.iter().map(|(n, t)| format!("${n}: {t}")).collect::<Vec<_>>().join(", ")) };
    let mut doc = format!("{}{}{vars}{}", c.kind, c.name.map(|n| format!(" {n}")).unwrap_or_default(), show(&c.sels));
    for fr in &c.frags {
        doc += &format!(" fragment {} on {}{}", fr.name, fr.on, show(&fr.sels));
    }
    doc
}

fn verdict(schema: &Schema, c: &Case, selected: Option<&str>, doc: &str) {
    let mut d = Doc { frags: &c.frags, variables: &c.variables, used: vec![false; c.variables.len()], introspection: c.introspection };
    let root = if c.kind == "mutation" { "Mutation" } else { "Query" };
    let mut want = if c.kind == "subscription" { Err("there are no subscriptions".to_string()) } else { d.check(root, &c.sels, &mut vec![]) };
    if want.is_ok() {
        if let Some(i) = d.used.iter().position(|u| !u) {
            want = Err(format!("{} is not used", c.variables[i].0));
        }
    }
    for (i, (n, t)) in c.variables.iter().enumerate() {
        if c.variables[..i].iter().any(|v| v.0 == *n) {
            want = Err(format!("{n} is declared twice"));
        }
        if !matches!(*t, "Int" | "Int!" | "String" | "J" | "E") {
            want = Err(format!("{t} is no input type"));
        }
    }
    match (Operation::parse(schema, selected, doc), want) {
        (Err(_), Err(_)) => wrt::reach(2),
        (Ok(_), Err(e)) => wrt::failed(&format!("{doc} is accepted, though: {e}")),
        (Err(e), Ok(_)) => wrt::failed(&format!("{doc} is rejected: {}", messages(&e))),
        (Ok(op), Ok(want)) => {
            let mut raw = serde_json::Map::new();
            for (n, _) in &c.variables {
                raw.insert(n.to_string(), 77.into());
            }
            let vars = match Variables::bind(schema, &op, RawVariables::from_value(raw.into())) {
                Ok(v) => v,
                Err(_) => wrt::failed(&format!("the variables of {doc} are rejected")),
            };
            let got = tree(OperationContext { schema, operation: &op }.root_selection_set(), &vars);
            wrt::ensure!(got == want, "{doc} is read as {got:?}, not {want:?}");
            wrt::reach(1);
        }
    }
}

fn subs(tag: &str) -> Vec<Sel> {
    match wrt::choose(tag, 9) {
        0 => vec![],
        1 => vec![f("x", vec![])],
        2 => vec![f("id", vec![])],
        3 => vec![f("y", vec![]), f("n", vec![f("id", vec![])])],
        4 => vec![F(Some("k"), "__typename", vec![], vec![])],
        5 => vec![f("t", vec![f("x", vec![]), F(Some("x2"), "x", vec![], vec![])])],
        6 => vec![f("secret", vec![])],
        7 => vec![f("t", vec![])],
        _ => vec![f("id", vec![]), f("nope", vec![])],
    }
}

fn root(tag: &str) -> Sel {
    match wrt::choose(tag, 8) {
        0 => F([None, Some("k")][wrt::flag(&format!("{tag}k")) as usize], "a", vec![], subs(&format!("{tag}s"))),
        1 => {
            let mut args = Vec::new();
            match wrt::choose(&format!("{tag}r"), 5) {
                1 => args.push(("r", "1")),
                2 => args.push(("r", "null")),
                3 => args.extend([("r", "1"), ("r", "2")]),
                4 => args.push(("r", "\"s\"")),
                _ => {}
            }
            match wrt::choose(&format!("{tag}o"), 3) {
                1 => args.push(("o", "2")),
                2 => args.push(("o", "null")),
                _ => {}
            }
            match wrt::choose(&format!("{tag}n"), 3) {
                1 => args.insert(0, ("n", "\"s\"")),
                2 => args.insert(0, ("nope", "1")),
                _ => {}
            }
            F(None, "b", args, vec![])
        }
        2 => f(wrt_name(tag, &["node", "u", "t", "ts", "w", "e"]), subs(&format!("{tag}s"))),
        3 => f(wrt_name(tag, &["hid", "nope", "m"]), vec![]),
        4 => F(None, "ha", vec![("x", "1"), ("h", "1")][..wrt::choose(&format!("{tag}h"), 3) as usize].to_vec(), vec![]),
        5 => F(Some("z"), "__schema", vec![], vec![f("__typename", vec![])]),
        6 => F(None, "__type", vec![("name", "\"T\"")], vec![f("name", vec![])]),
        _ => F(Some("ty"), "__typename", vec![], vec![]),
    }
}

fn wrt_name(tag: &str, xs: &[&'static str]) -> &'static str {
    xs[wrt::choose(&format!("{tag}f"), xs.len() as u8) as usize]
}

/// Fields and arguments. param(0): 0 one field of any root type, 1 two fields
pub fn c48_fields() {
    let (on, off) = (configured(SDL, &with_introspection()), must_load(SDL));
    let two = wrt::param(0) == 1;
    let introspection = if two { true } else { wrt::flag("introspection") };
    let kind = if two { "query" } else { ["query", "mutation", "subscription"][wrt::choose("kind", 3) as usize] };
    let mut sels = vec![root("p")];
    if two {
        sels.push(root("q"));
    }
    let c = Case { kind, name: None, variables: vec![], sels, frags: vec![], introspection };
    verdict(if introspection { &on } else { &off }, &c, None, &text(&c));
}

const CONDS: [&str; 12] = ["N", "T", "S", "W", "U", "V", "H", "E", "Sc", "Nope", "Query", "J"];

fn condition(tag: &str) -> &'static str {
    CONDS[wrt::choose(tag, 12) as usize]
}

/// Inline fragments. param(0): depth
pub fn c48_inline() {
    let s = must_load(SDL);
    let deep = wrt::param(0) > 0;
    let inner = if deep && wrt::flag("deep") { vec![f("__typename", vec![]), I(Some(condition("d")), subs("ds"))] } else { subs("s") };
    wrt::assume(!inner.is_empty());
    if let Some(I(_, b)) = inner.get(1) {
        wrt::assume(!b.is_empty());
    }
    let i = I(if wrt::flag("cond") { Some(condition("c")) } else { None }, inner);
    let (kind, sels) = match wrt::choose("root", 7) {
        0 => ("query", vec![f("node", vec![f("id", vec![]), i])]),
        1 => ("query", vec![f("u", vec![i, f("__typename", vec![])])]),
        2 => ("query", vec![f("t", vec![i])]),
        3 => ("query", vec![f("w", vec![i])]),
        4 => ("query", vec![i]),
        5 => ("mutation", vec![i]),
        _ => ("query", vec![I(None, vec![I(Some("Query"), vec![f("t", vec![i])])]), I(Some("Query"), vec![f("a", vec![])])]),
    };
    let c = Case { kind, name: None, variables: vec![], sels, frags: vec![], introspection: false };
    verdict(&s, &c, None, &text(&c));
}

/// Fragments that use each other.
pub fn c48_fragments() {
    let s = must_load(SDL);
    let body = |tag: &str| -> Vec<Sel> {
        match wrt::choose(tag, 7) {
            0 => vec![S("F")],
            1 => vec![S("G"), f("__typename", vec![])],
            2 => vec![f("id", vec![]), f("t", vec![S("G")])],
            3 => vec![I(Some("T"), vec![f("x", vec![]), S("F")])],
            4 => vec![f("x", vec![])],
            5 => vec![f("id", vec![])],
            _ => vec![S("K")],
        }
    };
    let small = ["N", "T", "W", "U", "H"];
    let frags = vec![
        Frag { name: "F", on: small[wrt::choose("fc", 5) as usize], sels: body("fb") },
        Frag { name: "G", on: small[wrt::choose("gc", 5) as usize], sels: body("gb") },
    ];
    let sels = match wrt::choose("root", 4) {
        0 => vec![f("t", vec![S("F")])],
        1 => vec![f("node", vec![S("F"), S("G")])],
        2 => vec![f("u", vec![S("G")]), f("t", vec![S("G")])],
        _ => vec![S("F")],
    };
    let name = [None, Some("Op")][wrt::flag("named") as usize];
    let c = Case { kind: "query", name, variables: vec![], sels, frags, introspection: false };
    verdict(&s, &c, None, &text(&c));
}

/// Variables of an operation, used in fields and fragments.
pub fn c48_variables() {
    let s = must_load(SDL);
    let mut variables = Vec::new();
    let names = ["v", "w"];
    let types = ["Int!", "Int", "String", "J", "T", "Nope", "N", "E"];
    let n = wrt::choose("count", 3);
    if n > 0 {
        variables.push((names[wrt::choose("n1", 2) as usize], types[wrt::choose("t1", 8) as usize]));
    }
    if n > 1 {
        variables.push((names[wrt::choose("n2", 2) as usize], types[wrt::choose("t2", 3) as usize]));
    }
    let arg = |tag: &str| ["1", "$v", "$w", "$x"][wrt::choose(tag, 4) as usize];
    let frag = Frag { name: "F", on: "Query", sels: vec![F(Some("l"), "ha", vec![("x", arg("x"))], vec![])] };
    let mut sels = vec![F(None, "b", vec![("r", arg("r")), ("o", arg("o"))], vec![])];
    let spread = wrt::flag("spread");
    if spread {
        sels.push(S("F"));
    }
    let c = Case { kind: "query", name: Some("Q"), variables, sels, frags: vec![frag], introspection: false };
    // a string variable is given a number below
    wrt::assume(!c.variables.iter().any(|v| v.1 == "String" && false));
    verdict(&s, &c, Some("Q"), &text(&c));
}

/// Which operation of a document is executed.
pub fn c48_documents() {
    let s = must_load(SDL);
    let n = wrt::choose("count", 3) as usize + 1;
    let names = [None, Some("A"), Some("B"), Some("a")];
    let bodies = [("query", "a"), ("mutation", "a"), ("query", "nope")];
    let ops: Vec<_> = (0..n).map(|i| (names[wrt::choose(&format!("n{i}"), 4) as usize], bodies[wrt::choose(&format!("b{i}"), 3) as usize])).collect();
    // names are unique, and an anonymous operation is alone
    for i in 0..n {
        wrt::assume(n == 1 || ops[i].0.is_some());
        for j in 0..i {
            wrt::assume(ops[i].0 != ops[j].0);
        }
    }
    let selected = [None, Some("A"), Some("B"), Some("C")][wrt::choose("selected", 4) as usize];
    let doc = ops.iter().enumerate().map(|(i, (n, (k, f)))| format!("{k}{} {{ k{i}: {f} }}", n.map(|n| format!(" {n}")).unwrap_or_default())).collect::<Vec<_>>().join("\n");
    let want = match selected {
        None if n == 1 => Some(0),
        None => None,
        Some(_) => ops.iter().position(|o| o.0 == selected),
    };
    match (Operation::parse(&s, selected, &doc), want) {
        (Err(e), Some(i)) => {
            wrt::ensure!(ops[i].1.1 == "nope", "operation {selected:?} of {doc} is rejected: {}", messages(&e));
            wrt::reach(2);
        }
        (Err(_), None) => wrt::reach(2),
        (Ok(_), None) => wrt::failed(&format!("an operation of {doc} is chosen for {selected:?}")),
        (Ok(op), Some(i)) => {
            wrt::ensure!(ops[i].1.1 == "a", "operation {selected:?} of {doc} is accepted");
            let k = op.attributes.ty;
            wrt::ensure!(k.is_query() == (ops[i].1.0 == "query") && k.is_mutation() == (ops[i].1.0 == "mutation"), "the kind of operation {selected:?} of {doc} is wrong");
            let ctx = OperationContext { schema: &s, operation: &op };
            wrt::ensure!(ctx.root_object().name() == if ops[i].1.0 == "query" { "Query" } else { "Mutation" }, "the root of operation {selected:?} of {doc} is {}", ctx.root_object().name());
            let key = ctx.root_selection_set().fields().next().unwrap().response_key_str();
            wrt::ensure!(key == format!("k{i}"), "operation {selected:?} of {doc} is the one with {key}");
            wrt::reach(1);
        }
    }
}

/// depth, fields, root fields, aliases, and the distinct fields
#[derive(Default)]
struct Size {
    depth: u16,
    count: u16,
    roots: u16,
    aliases: u16,
    distinct: std::collections::BTreeSet<(String, String)>,
}

fn size(ty: &str, sels: &[Sel], frags: &[Frag], depth: u16, s: &mut Size) {
    for x in sels {
        match x {
            F(alias, name, _, subs) => {
                s.count += 1;
                s.roots += (depth == 0) as u16;
                s.aliases += alias.is_some() as u16;
                s.depth = s.depth.max(depth + 1);
                if *name != "__typename" {
                    s.distinct.insert((ty.to_string(), name.to_string()));
                    let t = fields(ty).iter().find(|d| d.0 == *name).unwrap().2;
                    size(t, subs, frags, depth + 1, s);
                }
            }
            I(on, subs) => size(on.unwrap_or(ty), subs, frags, depth, s),
            S(n) => {
                let fr = frags.iter().find(|f| f.name == *n).unwrap();
                size(fr.on, &fr.sels, frags, depth, s)
            }
        }
    }
}

/// Limits on the size of operations. param(0): which limit
pub fn c48_limits() {
    let which = wrt::param(0);
    let x = || f("x", vec![]);
    let frags = vec![
        Frag { name: "F", on: "T", sels: vec![x(), F(Some("y"), "x", vec![], vec![]), f("t", vec![f("id", vec![])])] },
        Frag { name: "R", on: "Query", sels: vec![f("a", vec![]), F(Some("a2"), "a", vec![], vec![]), f("t", vec![S("F")])] },
    ];
    let part = |tag: &str| -> Vec<Sel> {
        match wrt::choose(tag, 10) {
            0 => vec![f("a", vec![])],
            1 => vec![F(Some("a3"), "a", vec![], vec![]), f("__typename", vec![])],
            2 => vec![f("t", vec![x()])],
            3 => vec![f("t", vec![S("F"), f("id", vec![])])],
            4 => vec![S("R")],
            5 => vec![I(None, vec![f("a", vec![]), I(Some("Query"), vec![F(Some("tt"), "t", vec![], vec![f("t", vec![f("t", vec![x()])])])])])],
            6 => vec![f("u", vec![I(Some("T"), vec![F(Some("q"), "x", vec![], vec![]), S("F")]), I(Some("W"), vec![f("y", vec![])])])],
            7 => vec![f("node", vec![f("id", vec![]), I(Some("T"), vec![f("id", vec![])])])],
            8 => vec![f("t", vec![f("t", vec![S("F")])]), S("R")],
            _ => vec![F(Some("e1"), "e", vec![], vec![]), F(Some("e2"), "e", vec![], vec![])],
        }
    };
    let mut sels = part("p");
    if wrt::flag("two") {
        sels.extend(part("q"));
    }
    let mut s = Size::default();
    size("Query", &sels, &frags, 0, &mut s);
    let value = [s.depth, s.roots, s.aliases, s.count, s.distinct.len() as u16][which as usize];
    // the limit is any number
    let limit = if wrt::flag("limited") { Some(wrt::u16("limit")) } else { None };
    let mut c = gateway_config::Config::default();
    let mut l = gateway_config::OperationLimitsConfig::default();
    match which {
        0 => l.depth = limit,
        1 => l.root_fields = limit,
        2 => l.aliases = limit,
        3 => l.complexity = limit,
        _ => l.height = limit,
    }
    c.operation_limits = Some(l);
    let schema = configured(SDL, &c);
    let case = Case { kind: "query", name: None, variables: vec![], sels, frags, introspection: false };
    let doc = text(&case);
    let over = limit.is_some_and(|l| value > l);
    match Operation::parse(&schema, None, &doc) {
        Ok(_) => {
            wrt::ensure!(!over, "limit {which} admits {doc} of size {value}");
            wrt::reach(1);
        }
        Err(e) => {
            wrt::ensure!(over, "limit {which} of more than {value} rejects {doc}: {}", messages(&e));
            wrt::reach(2);
        }
    }
}
