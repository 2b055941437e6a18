//! C42-C44: directives reached through @link.
use crate::case::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

const FED: [&str; 16] = [
    "key", "shareable", "external", "requires", "provides", "override", "inaccessible", "tag", "authenticated", "requiresScopes", "policy", "interfaceObject", "composeDirective", "extends", "cost", "listSize",
];
const COMPOSITE: [&str; 11] = ["key", "shareable", "external", "lookup", "require", "is", "derive", "internal", "override", "provides", "inaccessible"];
const COMPOSITE_URL: &str = "https://specs.grafbase.com/composite-schemas/v1";

/// Documents where `%name` is the directive of that name of the linked specification.
const DOCS: [(&str, &str); 12] = [
    ("f", "type Query { a: A } type A %key(fields: 'id') { id: ID! w: Int %external r: Int %requires(fields: 'w') s: Int %shareable } --- type A %key(fields: 'id', resolvable: false) %key(fields: 'w') { id: ID! w: Int s: Int %shareable }"),
    ("f", "type Query { p: [A] %provides(fields: 'w') } type A %key(fields: 'id') { id: ID! w: Int %external } --- type A %key(fields: 'id') @extends { id: ID! w: Int %shareable }"),
    ("f", "type Query { o: A } type A %key(fields: 'id') { id: ID! m: Int %override(from: 'b') n: Int %override(from: 'b', label: 'percent(5)') } --- type A %key(fields: 'id') %extends { id: ID! m: Int n: Int }"),
    ("f", "type Query { e(x: Int %inaccessible y: Int %tag(name: 't')): E h: Int %inaccessible i(i: I): Int u: U %inaccessible } enum E %tag(name: 't') { P Q %inaccessible } input I { a: Int b: Int %inaccessible } union U %inaccessible = V type V %inaccessible { x: Int }"),
    ("f", "type Query { a: Int %authenticated b: Int %requiresScopes(scopes: [['s']]) c: C } type C %policy(policies: [['p', 'q']]) { x: Int %authenticated %policy(policies: []) }"),
    ("f", "type Query { i: I } interface I %key(fields: 'id') { id: ID! } type T implements I %key(fields: 'id') { id: ID! } --- type I %key(fields: 'id') %interfaceObject { id: ID! extra: Int }"),
    ("f", "directive @c(x: Int) on FIELD_DEFINITION extend schema %composeDirective(name: '@c') type Query { f: Int @c(x: 1) g: Int @d } --- type Query { h: Int @c(x: 2) }"),
    ("f", "type Query { l(n: Int %cost(weight: 2)): [C] %listSize(slicingArguments: ['n']) %cost(weight: -3) } type C %cost(weight: 7) %shareable { x: [Int] %listSize(assumedSize: 4) %shareable } --- type Query { m: C } type C %cost(weight: 9) %shareable { x: [Int] %shareable }"),
    ("c", "type Query { user(id: ID! %is(field: 'id')): User %lookup } type User %key(fields: 'id') { id: ID! n: Int %shareable } --- type Query { acc(id: ID!): User %lookup } type User %key(fields: 'id') { id: ID! n(w: Int %require(field: 'n')): Int %shareable }"),
    ("c", "type Query { p: A %provides(fields: 'w') } type A %key(fields: 'id') { id: ID! w: Int %external i: Int %inaccessible } --- type A %key(fields: 'id') { id: ID! w: Int z: Int %internal } type Query { a(id: ID!): A %lookup }"),
    ("c", "type Query { o: A d: A } type A %key(fields: 'id') { id: ID! m: Int %override(from: 'b') } --- type Query { z: P } type P { q: A %derive } type A %key(fields: 'id') { id: ID! m: Int }"),
    ("fc", "type Query { o: A } type A %key(fields: 'id') { id: ID! m: Int %shareable } --- type Query { z(id: ID!): A %lookup } type A %key(fields: 'id') { id: ID! m: Int %shareable }"),
];

/// A way to bring the directives of a specification in scope: the head, whether it goes to the end, and what they are called.
struct Scope {
    head: String,
    last: bool,
    names: BTreeMap<&'static str, String>,
}

fn scope(s: &str, composite: bool, style: usize) -> Scope {
    let all: &[&'static str] = if composite { &COMPOSITE } else { &FED };
    let url = if composite { COMPOSITE_URL } else { ["https://specs.apollo.dev/federation/v2.3", "https://specs.apollo.dev/federation/v2.0", "https://specs.apollo.dev/federation/v2.11"][opt(&format!("{s}.url"), 3)] };
    let mut names: BTreeMap<&'static str, String> = all.iter().map(|d| (*d, d.to_string())).collect();
    let imports = |l: &[&str]| l.iter().map(|d| format!("\"@{d}\"")).collect::<Vec<_>>().join(", ");
    let half = all.len() / 2;
    let mut last = false;
    let head = match style {
        0 => format!("extend schema @link(url: \"{url}\", import: [{}])", imports(all)),
        1 => {
            for v in names.values_mut() {
                *v = format!("my_{v}");
            }
            let l: Vec<String> = all.iter().map(|d| format!("{{name: \"@{d}\", as: \"@my_{d}\"}}")).collect();
            format!("extend schema @link(url: \"{url}\", import: [{}])", l.join(", "))
        }
        // every directive has the name of the next one
        2 => {
            let next = |d: &str| all[(all.iter().position(|x| *x == d).unwrap() + 1) % all.len()];
            for (k, v) in names.iter_mut() {
                *v = next(k).to_string();
            }
            let l: Vec<String> = all.iter().map(|d| format!("{{name: \"@{d}\", as: \"@{}\"}}", next(d))).collect();
            format!("extend schema @link(url: \"{url}\", import: [{}])", l.join(", "))
        }
        3 => {
            for v in names.values_mut() {
                *v = format!("fed__{v}");
            }
            format!("extend schema @link(url: \"{url}\", as: \"fed\")")
        }
        4 => {
            for d in &all[..half] {
                names.insert(d, format!("fed__{d}"));
            }
            format!("extend schema @link(url: \"{url}\", as: \"fed\", import: [{}])", imports(&all[half..]))
        }
        5 => format!("extend schema @link(url: \"{url}\", import: [{}]) @link(url: \"{url}\", as: \"other\", import: [{}])", imports(&all[..half]), imports(&all[half..])),
        6 => format!("extend schema @link(url: \"{url}\", import: [{}]) extend schema @link(url: \"https://specs.example.com/other/v1\", import: [\"@other\"])", imports(all)),
        7 => {
            last = true;
            format!("extend schema @link(url: \"{url}\", import: [{}])", imports(all))
        }
        8 => format!("schema @link(import: [{}], for: EXECUTION, url: \"{url}\") {{ query: Query }}", imports(all)),
        9 => {
            for (i, d) in all.iter().enumerate() {
                names.insert(d, format!("a__{i}").replace("__", if i % 2 == 0 { "" } else { "_" }));
            }
            let l: Vec<String> = all.iter().map(|d| format!("{{as: \"@{}\", name: \"@{d}\"}}", names[d])).collect();
            format!("extend schema @link(url: \"{url}\", import: [{}])", l.join(", "))
        }
        // aliases with two underscores
        10 => {
            for v in names.values_mut() {
                *v = format!("x__{v}");
            }
            let l: Vec<String> = all.iter().map(|d| format!("{{name: \"@{d}\", as: \"@x__{d}\"}}")).collect();
            format!("extend schema @link(url: \"{url}\", import: [{}])", l.join(", "))
        }
        // the prefix the url has
        11 => {
            for v in names.values_mut() {
                *v = format!("federation__{v}");
            }
            format!("extend schema @link(url: \"{url}\")")
        }
        _ => unreachable!(),
    };
    Scope { head, last, names }
}

/// Replaces `%name` with what `f` makes of it.
fn spell(doc: &str, f: &dyn Fn(&str) -> Option<String>) -> String {
    let mut out = String::new();
    for (i, part) in doc.split('%').enumerate() {
        if i == 0 {
            out += part;
            continue;
        }
        let end = part.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(part.len());
        match f(&part[..end]) {
            Some(n) => {
                out += &format!("@{n}");
                out += &part[end..];
            }
            // without the directive: its arguments go, too
            None => {
                let rest = &part[end..];
                out += match rest.strip_prefix('(') {
                    Some(r) => &r[r.find(')').unwrap() + 1..],
                    None => rest,
                };
            }
        }
    }
    out.replace('\'', "\"")
}

fn sub(i: usize, sdl: String) -> Sub {
    Sub { name: ["a", "b", "c"][i].into(), sdl, m: M::default(), v2: true }
}

/// The federated SDL, if there is any.
fn outcome(subs: &[Sub]) -> Result<String, ()> {
    compose_only(subs).map(|(_, sdl)| sdl).map_err(|_| ())
}

fn same(subs: &[Sub], canonical: &[Sub], what: &str) {
    let (x, y) = (outcome(subs), outcome(canonical));
    wrt::reach(if x.is_ok() { 1 } else { 2 });
    wrt::observe("outcome", format!("{x:?}").as_bytes());
    if x != y {
        let l = |s: &[Sub]| s.iter().map(|s| s.sdl.clone()).collect::<Vec<_>>().join("\n---\n");
        let tail = |r: &Result<String, ()>| match r {
            Ok(s) => s[s.find("scalar join__FieldSet").unwrap_or(0)..].to_string(),
            Err(()) => "errors".to_string(),
        };
        wrt::failed(&format!("{what}\n{}\n=> {}\nbut\n{}\n=> {}", l(subs), tail(&x), l(canonical), tail(&y)));
    }
}

/// Every way to bring directives in scope means the same.
pub fn c42_styles() {
    let (specs, doc) = DOCS[opt("doc", DOCS.len())];
    let (mut subs, mut canonical) = (vec![], vec![]);
    for (i, t) in doc.split(" --- ").enumerate() {
        let s = ["a", "b"][i];
        let composite = specs.as_bytes()[i.min(specs.len() - 1)] == b'c';
        let style = if i == 0 || wrt::param(0) > 0 { opt(&format!("{s}.style"), if composite { 11 } else { 12 }) } else { 0 };
        wrt::assume(style != 8 || t.contains("type Query"));
        let sc = scope(s, composite, style);
        let body = spell(t, &|d| Some(sc.names[d].clone()));
        let all: &[&str] = if composite { &COMPOSITE } else { &FED };
        // @cost and @listSize mean the same without being imported
        let l: Vec<String> = all.iter().filter(|d| !matches!(**d, "cost" | "listSize")).map(|d| format!("\"@{d}\"")).collect();
        let url = if composite { COMPOSITE_URL } else { "https://specs.apollo.dev/federation/v2.3" };
        let head = format!("extend schema @link(url: \"{url}\", import: [{}])", l.join(", "));
        subs.push(sub(i, if sc.last { format!("{body}\n{}", sc.head) } else { format!("{}\n{body}", sc.head) }));
        canonical.push(sub(i, format!("{head}\n{}", spell(t, &|d| Some(d.to_string())))));
    }
    if let Err(e) = compose_only(&canonical) { wrt::failed(&format!("{doc} does not compose: {e:?}"));
    }
    same(&subs, &canonical, "another way to write the same composes differently");
}

/// Any name of a directive with any alias and any prefix.
pub fn c42_names() {
    let used = wrt::pick("used", &["tag", "key", "t", "inaccessible", "federation__tag", "federation__inaccessible", "ta__tag", "tag__tag", "tag__key", "t__t", "x__tag", "_tag", "tag_", "Tag", "federation_tag", "ta__federation__tag", "federation__x__tag"]);
    let head = wrt::pick("head", &["tag", "inaccessible", "prefix", "ta", "tas", "none", "two"]);
    let alias = wrt::pick("alias", &["tag", "t", "key", "federation__tag", "ta__tag", "tag__tag", "t__t", "x__tag", "_tag", "tag_", "Tag", "inaccessible"]);
    let prefix = wrt::pick("prefix", &["federation", "ta", "tag", "t", "x", "inaccessible"]);
    let fed = "@link(url: \"https://specs.apollo.dev/federation/v2.3\"";
    let uses_alias = matches!(head, "tag" | "inaccessible" | "two");
    let uses_prefix = matches!(head, "prefix" | "two");
    wrt::assume(uses_alias || alias == "tag");
    wrt::assume(uses_prefix || prefix == "federation");
    let namespace = match head {
        "tag" | "inaccessible" => "federation",
        _ => prefix,
    };
    let v2 = !matches!(head, "ta" | "tas" | "none");
    // an alias that looks like a name under the prefix is ambiguous
    wrt::assume(!uses_alias || alias.split_once("__").is_none_or(|(ns, _)| ns != namespace));
    let text = match head {
        "tag" | "inaccessible" => format!("extend schema {fed}, import: [{{name: \"@{head}\", as: \"@{alias}\"}}])\n"),
        "two" => format!("extend schema {fed}, as: \"{prefix}\", import: [{{name: \"@inaccessible\", as: \"@{alias}\"}}])\n"),
        "prefix" => format!("extend schema {fed}, as: \"{prefix}\")\n"),
        // something else of which nothing is composed
        "ta" => "extend schema @link(url: \"https://specs.example.com/ta/v1.0\", import: [\"@key\"])\n".into(),
        "tas" => "extend schema @link(url: \"https://specs.example.com/x/v1.0\", as: \"ta\")\n".into(),
        _ => String::new(),
    };
    // what the name means by the @link specification
    let means = if uses_alias && used == alias {
        Some(if head == "tag" { "tag" } else { "inaccessible" })
    } else if let Some((ns, rest)) = used.split_once("__").filter(|_| v2) {
        FED.iter().find(|d| ns == namespace && **d == rest).copied()
    } else if v2 || (head == "ta" && used == "key") {
        None
    } else {
        // federation 1: the names are in scope as they are, and under the default prefix
        let name = used.strip_prefix("federation__").unwrap_or(used);
        FED.iter().find(|d| **d == name).copied()
    };
    let doc = "type Query { f: Int @U(name: \"x\") g: Int } type X @U(fields: \"i\") { i: Int }";
    let canonical = match means {
        Some(m) => {
            wrt::reach(3);
            format!("extend schema @link(url: \"https://specs.apollo.dev/federation/v2.3\", import: [\"@{m}\"])\n{}", doc.replace('U', m))
        }
        _ => format!("extend schema @link(url: \"https://specs.apollo.dev/federation/v2.3\")\n{}", spell(&doc.replace("@U", "%U"), &|_| None)),
    };
    same(&[sub(0, format!("{text}{}", doc.replace('U', used)))], &[sub(0, canonical)], "a directive means something else");
}

/// Directives that are not in scope have no effect.
pub fn c42_unknown() {
    let (specs, doc) = DOCS[opt("doc", DOCS.len())];
    let (mut subs, mut canonical) = (vec![], vec![]);
    let name = opt("name", 4);
    // the directive that is not imported
    let which = wrt::pick("which", &FED[..]);
    wrt::assume(doc.contains(&format!("%{which}")));
    // these are in scope without a link, too
    wrt::assume(name > 0 || !matches!(which, "cost" | "listSize"));
    for (i, t) in doc.split(" --- ").enumerate() {
        let composite = specs.as_bytes()[i.min(specs.len() - 1)] == b'c';
        let all: &[&str] = if composite { &COMPOSITE } else { &FED };
        let url = if composite { COMPOSITE_URL } else { "https://specs.apollo.dev/federation/v2.3" };
        // other specifications than federation 2 leave the directives of federation 1 in scope
        wrt::assume(!composite);
        let l: Vec<String> = all.iter().filter(|d| **d != which).map(|d| format!("\"@{d}\"")).collect();
        let head = format!("extend schema @link(url: \"{url}\", import: [{}]{})\n", l.join(", "), if name == 2 { ", as: \"other\"" } else { "" });
        let spelling = match name {
            0 => which.to_string(),
            1 => format!("unknown__{which}"),
            2 => format!("federation__{which}"),
            _ => format!("federation_{which}"),
        };
        subs.push(sub(i, format!("{head}{}", spell(t, &|d| Some(if d == which { spelling.clone() } else { d.to_string() })))));
        canonical.push(sub(i, format!("{head}{}", spell(t, &|d| (d != which).then(|| d.to_string())))));
    }
    same(&subs, &canonical, "a directive that is not in scope has an effect");
}

// ---------------------------------------------------------------- C43

/// A link, what its directive D is called in the subgraph, and the extension it stands for.
struct Form {
    link: &'static str,
    spelled: &'static str,
    ext: Option<&'static str>,
}

const fn form(link: &'static str, spelled: &'static str, ext: Option<&'static str>) -> Form {
    Form { link, spelled, ext }
}

const FORMS: [Form; 22] = [
    form("url: 'file:///x/sparkles', import: ['@D']", "D", Some("SPARKLES")),
    form("url: 'file:///x/bubbles/build', import: ['@D']", "D", Some("BUBBLES")),
    form("url: 'file:///x/bubbles/v1.2.3/build', import: ['@D']", "D", Some("BUBBLES")),
    form("url: 'https://grafbase.com/extensions/my-rest/0.5.0', import: [{name: '@D', as: '@aliasD'}]", "aliasD", Some("MY_REST")),
    form("url: 'https://grafbase.com/extensions/nats/v0.5.0'", "nats__D", Some("NATS")),
    form("url: 'https://extensions.grafbase.com/a.b-c/1.0.0', as: 'abc'", "abc__D", Some("ABC")),
    form("url: 'https://extensions.grafbase.com/a.b-c/1.0.0', import: ['@D', '@other']", "D", Some("A_B_C")),
    form("url: 'file:///x/y', as: 'My-name', import: ['@D']", "D", Some("MY_NAME")),
    form("url: 'https://extensions.grafbase.com/kafka'", "kafka__D", Some("KAFKA")),
    form("url: 'https://grafbase.com/extensions/kafka/1.0.0', import: ['@D']", "D", Some("KAFKA")),
    form("url: 'https://grafbase.com/extensions/kafka/1.1.0', import: ['@D']", "D", Some("KAFKA")),
    form("url: 'file:///plain', as: 'p'", "p__D", Some("P")),
    form("url: 'file:///plain', import: ['@nothing']", "plain__D", Some("PLAIN")),
    form("url: 'file:///x/1.2.3', import: ['@D']", "D", Some("X")),
    form("url: 'file:///X', import: ['@D']", "D", Some("X")),
    form("url: 'file:///x/my_rest', import: ['@D']", "D", Some("MY_REST")),
    form("url: 'https://example.com/foo/v1.0', import: ['@D']", "D", None),
    form("url: 'https://grafbase.com/other/foo/v1', import: ['@D']", "D", None),
    form("url: 'http://grafbase.com/extensions/foo/v1', import: ['@D']", "D", None),
    form("url: 'https://notgrafbase.com/extensions/foo/v1', as: 'foo'", "foo__D", None),
    form("url: 'static-1.0.0', import: ['@D']", "D", None),
    form("url: 'https://grafbase.com.example.com/extensions/foo', import: ['@D']", "D", None),
];

const ARGS: [&str; 7] = [
    "", "(a: 1)", "(a: 's', b: [1, -2.5, null, true, E])", "(c: {x: E, y: {z: []}}, a: {})", r"(t: 'q\'uo\\te\n')", "(t: ['{{ args.id }}', '#', '@d'])", "(t: TTTblock\n  textTTT)",
];

/// (graph, extension, name, arguments)
type Use = (String, String, String, String);

fn sorted(v: &async_graphql_value::ConstValue) -> String {
    use async_graphql_value::ConstValue as V;
    match v {
        V::Object(o) => {
            let m: BTreeMap<String, String> = o.iter().map(|(k, v)| (k.to_string(), sorted(v))).collect();
            format!("{m:?}")
        }
        V::List(l) => format!("{:?}", l.iter().map(sorted).collect::<Vec<_>>()),
        v => format!("{v}"),
    }
}

fn arguments(d: &Dir) -> String {
    let m: BTreeMap<String, String> = d.args.iter().map(|(k, v)| (k.clone(), sorted(v))).collect();
    format!("{m:?}")
}

/// The uses of extension directives; identical ones count once.
fn uses(l: &[Dir], graph: &str, table: &BTreeMap<String, (String, String)>) -> BTreeSet<Use> {
    l.iter()
        .filter_map(|d| {
            let (ext, name) = table.get(&d.name)?;
            Some((graph.to_string(), ext.clone(), name.clone(), arguments(d)))
        })
        .collect()
}

fn composed_uses(l: &[Dir]) -> Vec<Use> {
    let mut v: Vec<Use> = get(l, "extension__directive")
        .iter()
        .map(|d| (d.str("graph").unwrap_or_default(), d.str("extension").unwrap_or_default(), d.str("name").unwrap_or_default(), d.args.get("arguments").map(sorted).unwrap_or_default()))
        .collect();
    v.sort();
    v
}

/// Every place of a document that can have directives, by its path.
fn sites(m: &M) -> BTreeMap<String, Vec<Dir>> {
    let mut out: BTreeMap<String, Vec<Dir>> = BTreeMap::new();
    for (n, t) in &m.types {
        out.entry(n.clone()).or_default().extend(t.dirs.clone());
        for (f, e) in t.fields.iter().chain(&t.values) {
            out.entry(format!("{n}.{f}")).or_default().extend(e.dirs.clone());
            for (a, e) in &e.args {
                out.entry(format!("{n}.{f}.{a}")).or_default().extend(e.dirs.clone());
            }
        }
    }
    out
}

const BODY: &str = "type Query @0 { f(x: Int @1): A @2 g(i: I): U s: S n: N e: E } type A implements N @3 { x: Int @4 n: Int } enum E @5 { P @6 Q } input I @7 { x: Int @8 e: E } union U @9 = A scalar S @10 interface N @11 { n: Int @12 }";

type Table = BTreeMap<String, (String, String)>;

fn c43_oracle(texts: &[String], tables: &[Table], urls: &BTreeMap<String, BTreeSet<String>>, clash: bool) {
    let mut subs = vec![];
    for (i, t) in texts.iter().enumerate() {
        let m = match parse(t) {
            Ok(m) => m,
            Err(e) => {
                wrt::failed(&e);
                return;
            }
        };
        let mut s = sub(i, t.clone());
        s.m = m;
        subs.push(s);
    }
    let mut want: BTreeMap<String, BTreeSet<Use>> = BTreeMap::new();
    let mut on_schema: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut used: BTreeSet<String> = BTreeSet::new();
    for (s, table) in subs.iter().zip(tables) {
        for (site, l) in sites(&s.m) {
            let u = uses(&l, &s.graph(), table);
            used.extend(u.iter().map(|u| u.1.clone()));
            want.entry(site).or_default().extend(u);
        }
        for d in &s.m.links {
            if let Some((ext, name)) = table.get(&d.name) {
                used.insert(ext.clone());
                on_schema.entry(ext.clone()).or_default().push(format!("{} {name} {}", s.graph(), arguments(d)));
            }
        }
    }
    let all = || texts.join("\n---\n");
    let sdl = match compose_only(&subs) {
        Ok((_, sdl)) => sdl,
        Err(e) => {
            wrt::reach(2);
            wrt::ensure!(clash, "rejected: {e:?}\n{}", all());
            return;
        }
    };
    wrt::ensure!(!clash, "different extensions of one name are composed\n{}\n{sdl}", all());
    wrt::reach(1);
    wrt::observe("federated", sdl.as_bytes());
    let fed = match parse(&sdl) {
        Ok(m) => m,
        Err(e) => {
            wrt::failed(&format!("the federated SDL does not parse: {e}"));
            return;
        }
    };
    let versions = urls.values().any(|u| u.len() > 1);
    wrt::ensure!(!fed.dup || !versions, "two versions of one extension are listed under one name\n{}\n{sdl}", all());
    wrt::ensure!(!fed.dup || versions, "something is defined twice in the federated SDL\n{}\n{sdl}", all());
    if fed.dup {
        return;
    }
    let got = sites(&fed);
    for (site, want) in &want {
        let got = got.get(site).map(|l| composed_uses(l)).unwrap_or_default();
        let want: Vec<Use> = want.iter().cloned().collect();
        wrt::ensure!(got == want, "the extension directives of {site} are\n{got:?}\nand must be\n{want:?}\n{}\n{sdl}", all());
    }
    for (site, l) in &got {
        wrt::ensure!(want.contains_key(site) || composed_uses(l).is_empty(), "{site} has extension directives\n{}\n{sdl}", all());
    }
    let none = BTreeMap::new();
    let values = fed.types.get("extension__Link").map(|t| &t.values).unwrap_or(&none);
    let names: BTreeSet<String> = values.keys().cloned().collect();
    wrt::ensure!(names == used, "the extensions are {names:?} and must be {used:?}\n{}\n{sdl}", all());
    for (name, v) in values {
        let l = get(&v.dirs, "extension__link");
        wrt::ensure!(l.len() == 1 && urls[name].contains(&l[0].str("url").unwrap_or_default()), "the url of {name} is another one\n{}\n{sdl}", all());
        if l.len() != 1 {
            continue;
        }
        use async_graphql_value::ConstValue as V;
        let mut got: Vec<String> = match l[0].args.get("schemaDirectives") {
            Some(V::List(l)) => l
                .iter()
                .map(|d| match d {
                    V::Object(o) => {
                        let text = |k: &str| match o.get(k) {
                            Some(V::String(s)) => s.clone(),
                            Some(V::Enum(s)) => s.to_string(),
                            v => format!("{v:?}"),
                        };
                        format!("{} {} {}", text("graph"), text("name"), o.get("arguments").map(sorted).unwrap_or_default())
                    }
                    d => format!("{d}"),
                })
                .collect(),
            _ => vec![],
        };
        let mut want = on_schema.get(name).cloned().unwrap_or_default();
        got.sort();
        want.sort();
        wrt::ensure!(got == want, "the schema directives of {name} are\n{got:?}\nand must be\n{want:?}\n{}\n{sdl}", all());
    }
}

fn quoted(s: &str) -> String {
    s.replace("TTT", "\"\"\"").replace('\'', "\"")
}

/// Extensions by two links in one subgraph or in two.
pub fn c43_links() {
    let (i, j) = (opt("first", FORMS.len()), opt("second", FORMS.len()));
    let (a, b) = (&FORMS[i], &FORMS[j]);
    let two = opt("two", 2) == 1;
    let link = |f: &Form, d: &str| quoted(&f.link.replace('D', d));
    let name = |f: &Form, d: &str| f.spelled.replace('D', d);
    // in one subgraph the links need different names
    let da = if j < 2 { wrt::pick("name", &["d", "d__e", "_d", "d_", "x__nats__d"]) } else { "d" };
    let (da, db) = (da, if two { da } else { "e" });
    let namespace = |f: &Form| f.spelled.split_once("__").map(|x| x.0.to_string());
    wrt::assume(two || i != j);
    wrt::assume(two || namespace(a).is_none() || namespace(a) != namespace(b));
    let url = |f: &Form| f.link.split('\'').nth(1).unwrap().to_string();
    // one extension has one name
    wrt::assume(url(a) != url(b) || a.ext == b.ext);
    let mut urls: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for f in [a, b] {
        if let Some(e) = f.ext {
            urls.entry(e.to_string()).or_default().insert(url(f));
        }
    }
    // extensions may differ in the version
    let base = |f: &Form| {
        let u = url(f);
        match u.rsplit_once('/') {
            Some((p, v)) if v.trim_start_matches('v').bytes().all(|c| c == b'.' || c.is_ascii_digit()) => p.to_string(),
            _ => u,
        }
    };
    let clash = a.ext.is_some() && a.ext == b.ext && base(a) != base(b);
    let entry = |f: &Form, d: &str| f.ext.map(|e| (name(f, d), (e.to_string(), d.to_string())));
    let field = |f: &Form, d: &str, n: usize| format!("@{}{}", name(f, d), quoted(ARGS[n]));
    // where the first is used: on a field, on the schema or nowhere
    let (schema, on_field) = match opt("place", 3) {
        0 => (String::new(), field(a, da, 1)),
        1 => (field(a, da, 2), String::new()),
        _ => (String::new(), String::new()),
    };
    if two {
        let texts = vec![
            format!("extend schema @link({}) {schema}\ntype Query {{ f: Int {on_field} }} type T {{ x: Int @shareable }}", link(a, da)),
            format!("extend schema @link({})\ntype Query {{ g: Int {} }} type T {{ x: Int @shareable }}", link(b, db), field(b, db, 1)),
        ];
        let tables = vec![entry(a, da).into_iter().collect(), entry(b, db).into_iter().collect()];
        c43_oracle(&texts, &tables, &urls, clash);
    } else {
        let texts = vec![format!("extend schema @link({}) @link({}) {schema}\ntype Query {{ f: Int {on_field} g: Int {} }}", link(a, da), link(b, db), field(b, db, 0))];
        let tables = vec![entry(a, da).into_iter().chain(entry(b, db)).collect()];
        c43_oracle(&texts, &tables, &urls, clash);
    }
}

/// Every element with any directives and arguments in two subgraphs.
pub fn c43_places() {
    let places = 13;
    let (mut texts, mut tables) = (vec![], vec![]);
    let f = [&FORMS[0], &FORMS[4]];
    let spots = [opt("a.spot", places + 1), opt("b.spot", places + 1)];
    wrt::assume(spots[0] == spots[1] || spots[1] == places || wrt::param(0) > 0);
    for (i, s) in ["a", "b"].iter().enumerate() {
        let full = i == 0 || wrt::param(0) > 0;
        let one = ARGS[opt(&format!("{s}.args"), if full { ARGS.len() } else { 3 })];
        let use_ = |f: &Form, a: &str| format!("@{}{}", f.spelled.replace('D', "d"), quoted(a));
        let mut u = match opt(&format!("{s}.more"), if full { 4 } else { 3 }) {
            0 => use_(f[0], one),
            1 => format!("{} {}", use_(f[0], one), use_(f[0], "(z: 1)")),
            2 => format!("{} {}", use_(f[0], one), use_(f[1], one)),
            _ => format!("{} {}", use_(f[0], one), use_(f[0], one)),
        };
        if matches!(spots[i], 1 | 2 | 4 | 6 | 8 | 12) {
            u += " @deprecated(reason: \"no\")";
        }
        let mut body = BODY.to_string();
        for p in (0..places).rev() {
            body = body.replace(&format!("@{p}"), if p == spots[i] { &u } else { "" });
        }
        let schema = if spots[i] == places { use_(f[1], one) } else { String::new() };
        texts.push(format!("extend schema @link({}) @link({}) {schema}\n{body}", quoted(&f[0].link.replace('D', "d")), quoted(&f[1].link.replace('D', "d"))));
        let t: Table = f.iter().map(|f| (f.spelled.replace('D', "d"), (f.ext.unwrap().to_string(), "d".to_string()))).collect();
        tables.push(t);
    }
    let urls = f.iter().map(|f| (f.ext.unwrap().to_string(), BTreeSet::from([f.link.split('\'').nth(1).unwrap().to_string()]))).collect();
    c43_oracle(&texts, &tables, &urls, false);
}

// ---------------------------------------------------------------- C44

/// How a subgraph has its directive: head with the composition of it, and what it is called there.
const ORIGINS: [(&str, &str, bool); 6] = [
    // defined or not by the subgraph itself
    ("", "c", false),
    ("@link(url: 'https://specs.example.com/birds/v1.0', import: ['@c'])", "c", true),
    ("@link(url: 'https://specs.example.com/birds/v1.0', import: [{name: '@c', as: '@k'}])", "k", true),
    ("@link(url: 'https://specs.example.com/birds/v1.0')", "birds__c", true),
    ("@link(url: 'https://specs.example.com/birds/v1.0', as: 'x')", "x__c", true),
    ("@link(url: 'urn-of-birds', import: ['@c'])", "c", true),
];

/// Uses of a directive that one or two subgraphs compose.
pub fn c44_uses() {
    let (mut subs, mut tables) = (vec![], vec![]);
    let mut links: BTreeSet<String> = BTreeSet::new();
    let mut all_uses = BTreeMap::<String, BTreeSet<(String, String)>>::new();
    let places = 14;
    let mut local = false;
    let spot = opt("spot", places);
    let mut origin = 0;
    for (i, s) in ["a", "b"].iter().enumerate() {
        // both subgraphs have it from the same place
        origin = match (i, origin) {
            (0, _) => opt("a.origin", ORIGINS.len()),
            (_, 1..=4) => 1 + opt("b.origin", if wrt::param(0) > 0 { 4 } else { 2 }),
            _ => origin,
        };
        let (link, name, linked) = ORIGINS[origin];
        let full = wrt::param(0) > 0;
        let composed = if i == 0 || full { opt(&format!("{s}.composed"), 3) } else { 2 * opt("b.composed", 2) };
        let define = !linked && opt(&format!("{s}.defined"), 2) == 1;
        let args = ARGS[opt(&format!("{s}.args"), if i > 0 { 2 } else if full { ARGS.len() } else { 4 })];
        let u = |a: &str| format!("@{name}{}", quoted(a));
        let u = match opt(&format!("{s}.uses"), if i == 0 || full { 3 } else { 1 }) {
            0 => u(args),
            1 => format!("{} {}", u(args), u("(z: 1)")),
            _ => format!("{} {} @not_composed", u(args), u(args)),
        };
        let mut body = BODY.to_string();
        for p in (0..13).rev() {
            body = body.replace(&format!("@{p}"), if p == spot { &u } else { "" });
        }
        let head = match composed {
            0 => String::new(),
            1 => format!("@link(url: 'https://specs.apollo.dev/federation/v2.3', import: ['@composeDirective', '@shareable']) @composeDirective(name: '@{name}')"),
            _ => format!("@link(url: 'https://specs.apollo.dev/federation/v2.3') @federation__composeDirective(name: '@other') @federation__composeDirective(name: '@{name}')"),
        };
        let schema = if spot == 13 { u.as_str() } else { "" };
        let head = format!("{link} {head} {schema}");
        let head = if head.trim().is_empty() { String::new() } else { format!("extend schema {head}") };
        let def = if define { "directive @c repeatable on OBJECT | SCHEMA" } else { "" };
        let body = if composed > 0 { body.replace("type Query", "type Query @federation__shareable").replace("type A implements N", "type A implements N @federation__shareable") } else { body };
        let body = if composed == 1 { body.replace("federation__", "") } else { body };
        let text = format!("{} {def}\n{body}", quoted(&head));
        let mut x = sub(i, text);
        x.m = match parse(&x.sdl) {
            Ok(m) => m,
            Err(e) => {
                wrt::failed(&e);
                return;
            }
        };
        let mut here = sites(&x.m);
        here.insert("schema".into(), x.m.links.clone());
        local |= define && composed > 0;
        for (site, l) in here {
            let e = all_uses.entry(site.clone()).or_default();
            if composed > 0 {
                let u: Vec<_> = l.iter().filter(|d| d.name == name).map(|d| ("c".to_string(), arguments(d))).collect();
                if linked && !u.is_empty() && site != "schema" {
                    links.insert(x.m.links.iter().find_map(|d| d.str("url").filter(|u| u.contains("birds"))).unwrap());
                }
                e.extend(u);
            }
        }
        subs.push(x);
        tables.push(());
    }
    let all = || subs.iter().map(|s| s.sdl.clone()).collect::<Vec<_>>().join("\n---\n");
    let sdl = match compose_only(&subs) {
        Ok((_, sdl)) => sdl,
        Err(e) => {
            wrt::failed(&format!("rejected: {e:?}\n{}", all()));
            return;
        }
    };
    wrt::reach(1);
    wrt::observe("federated", sdl.as_bytes());
    let fed = match parse(&sdl) {
        Ok(m) => m,
        Err(e) => {
            wrt::failed(&format!("the federated SDL does not parse: {e}"));
            return;
        }
    };
    wrt::ensure!(!fed.dup, "something is defined twice\n{}\n{sdl}", all());
    let mut got = sites(&fed);
    got.insert("schema".into(), fed.links.clone());
    for (site, want) in &all_uses {
        let l = got.get(site).cloned().unwrap_or_default();
        let mut have: Vec<(String, String)> = l
            .iter()
            .filter(|d| !matches!(d.name.as_str(), "link" | "inaccessible" | "tag" | "deprecated") && !d.name.starts_with("join__"))
            .map(|d| (d.name.clone(), arguments(d)))
            .collect();
        have.sort();
        if site == "schema" {
            have.dedup();
        }
        let want: Vec<_> = want.iter().cloned().collect();
        if local && have.len() < want.len() && have.iter().all(|u| want.contains(u)) {
            wrt::failed(&format!("a composed directive that the subgraph itself defines is not carried over: {site} has {have:?} and must have {want:?}\n{}\n{sdl}", all()));
            return;
        }
        wrt::ensure!(have == want, "{site} has {have:?} and must have {want:?}\n{}\n{sdl}", all());
    }
    let got: BTreeSet<String> = fed
        .links
        .iter()
        .filter(|d| d.name == "link" && d.args.contains_key("import"))
        .map(|d| format!("{} {:?}", d.str("url").unwrap_or_default(), d.strs("import")))
        .collect();
    let want: BTreeSet<String> = links.iter().map(|u| format!("{u} {:?}", ["@c"])).collect();
    wrt::ensure!(got == want, "the links are {got:?} and must be {want:?}\n{}\n{sdl}", all());
}

/// Definitions of a directive that two or three subgraphs compose.
pub fn c44_definitions() {
    let n = 2 + wrt::param(0) as usize;
    let mut subs = vec![];
    let mut defs: Vec<DirDef> = vec![];
    let mut repeat: Vec<bool> = vec![];
    for i in 0..n {
        let s = ["a", "b", "c"][i];
        let args = wrt::pick(&format!("{s}.args"), &["", "(a: Int)", "(a: Int!)", "(a: Int = 1)", "(a: Int! = 1)", "(a: [Int])", "(a: Int, b: String)", "(b: String, a: Int)", "(b: String!)", "(a: In)"]);
        let more = if i < 2 { opt(&format!("{s}.more"), 4) } else { 0 };
        let locations = ["OBJECT", "FIELD_DEFINITION | OBJECT", "SCHEMA | SCALAR | INTERFACE | UNION", "ENUM | ENUM_VALUE | INPUT_OBJECT | INPUT_FIELD_DEFINITION | ARGUMENT_DEFINITION | FIELD"][more];
        let repeatable = if opt(&format!("{s}.repeatable"), if i < 2 { 2 } else { 1 }) == 1 { "repeatable" } else { "" };
        let composed = opt(&format!("{s}.composed"), 2) == 1;
        let compose = if composed { "@composeDirective(name: \"@c\")" } else { "" };
        let mut x = sub(i, format!("extend schema @link(url: \"https://specs.apollo.dev/federation/v2.3\", import: [\"@composeDirective\", \"@shareable\"]) {compose}\ndirective @c{args} {repeatable} on {locations} type Query @shareable {{ f: Int }} input In {{ x: Int }}"));
        x.m = match parse(&x.sdl) {
            Ok(m) => m,
            Err(e) => {
                wrt::failed(&e);
                return;
            }
        };
        if composed {
            defs.push(x.m.defs["c"].clone());
            repeat.push(!repeatable.is_empty());
        }
        subs.push(x);
    }
    let all = || subs.iter().map(|s| s.sdl.clone()).collect::<Vec<_>>().join("\n---\n");
    // definitions agree on repetition and on the arguments they share, and the others are optional
    let mut args: BTreeMap<String, El> = BTreeMap::new();
    let mut ok = repeat.windows(2).all(|w| w[0] == w[1]);
    let mut locations = BTreeSet::new();
    for d in &defs {
        locations.extend(d.locations.clone());
        for (n, a) in &d.args {
            if let Some(o) = args.get(n) {
                ok &= o.ty == a.ty && o.default == a.default;
            }
            ok &= !a.ty.as_ref().unwrap().required() || a.default.is_some() || defs.iter().all(|d| d.args.contains_key(n));
            args.insert(n.clone(), a.clone());
        }
    }
    let sdl = match compose_only(&subs) {
        Ok((_, sdl)) => sdl,
        Err(e) => {
            wrt::reach(2);
            wrt::ensure!(!ok, "rejected: {e:?}\n{}", all());
            return;
        }
    };
    wrt::ensure!(ok, "incompatible definitions compose\n{}\n{sdl}", all());
    wrt::reach(1);
    wrt::observe("federated", sdl.as_bytes());
    let fed = match parse(&sdl) {
        Ok(m) => m,
        Err(e) => {
            wrt::failed(&format!("the federated SDL does not parse: {e}"));
            return;
        }
    };
    let Some(d) = fed.defs.get("c") else {
        wrt::ensure!(defs.is_empty(), "the directive is not defined\n{}\n{sdl}", all());
        return;
    };
    wrt::ensure!(!defs.is_empty(), "a directive is defined that is not composed\n{}\n{sdl}", all());
    if defs.is_empty() {
        return;
    }
    wrt::ensure!(!d.dup, "an argument, a location or the directive is there twice\n{}\n{sdl}", all());
    let text = |m: &BTreeMap<String, El>| m.iter().map(|(n, a)| format!("{n}: {} = {:?}", a.ty.as_ref().unwrap().text(), a.default)).collect::<Vec<_>>().join(", ");
    wrt::ensure!(text(&d.args) == text(&args), "the arguments are ({}) and must be ({})\n{}\n{sdl}", text(&d.args), text(&args), all());
    let want: Vec<String> = locations.into_iter().collect();
    wrt::ensure!(d.locations == want, "the locations are {:?} and must be {want:?}\n{}\n{sdl}", d.locations, all());
    // the parser takes every definition for a repeatable one
    let line = sdl.lines().find(|l| l.starts_with("directive @c ") || l.starts_with("directive @c(")).unwrap_or_default();
    wrt::ensure!(line.contains(" repeatable on ") == repeat[0], "it is repeatable or not, but the opposite of what it is in the subgraphs\n{}\n{sdl}", all());
}
