//! C34: the linter's rules, computed a second time from the description of the schema.
wrt::checks!(c34_cases, c34_affixes, c34_deprecated, c34_two);

fn pick(name: &str, n: usize) -> usize {
    wrt::pin(wrt::choose(name, n as u8) as u64) as usize
}

fn option(name: &str) -> bool {
    pick(name, 2) == 1
}

// ---------------------------------------------------------------- naming conventions

/// Words: between underscores, a new one starts at a capital after a small letter (digits between them or not) and
/// at the last capital of a run of capitals that a small letter follows.
fn words(name: &str) -> Vec<String> {
    let mut out = vec![];
    for part in name.split('_') {
        let b = part.as_bytes();
        let mut at = 0;
        let mut last = b'0';
        for i in 0..b.len() {
            if i > 0 && b[i].is_ascii_uppercase() {
                let small = last.is_ascii_lowercase();
                let run = last.is_ascii_uppercase() && i + 1 < b.len() && b[i + 1].is_ascii_lowercase();
                if small || run {
                    out.push(part[at..i].to_string());
                    at = i;
                }
            }
            if b[i].is_ascii_alphabetic() {
                last = b[i];
            }
        }
        if at < b.len() {
            out.push(part[at..].to_string());
        }
    }
    out
}

fn capital(w: &str) -> String {
    let mut s = w.to_ascii_lowercase();
    if let Some(f) = s.get_mut(..1) {
        f.make_ascii_uppercase();
    }
    s
}

#[derive(Clone, Copy)]
enum Case {
    Pascal,
    Camel,
    Shouty,
}

/// The name in that case when it is not already.
fn renamed(name: &str, case: Case) -> Option<String> {
    let b = name.as_bytes();
    // names of generated elements: _x, prefix__x
    let letters = b.iter().take_while(|c| c.is_ascii_alphabetic()).count();
    if b[0] == b'_' || (letters > 0 && b[letters..].starts_with(b"__") && b.len() > letters + 2) {
        return None;
    }
    let w = words(name);
    let fix = match case {
        Case::Pascal => w.iter().map(|w| capital(w)).collect::<String>(),
        Case::Camel => w.iter().enumerate().map(|(i, w)| if i == 0 { w.to_ascii_lowercase() } else { capital(w) }).collect(),
        Case::Shouty => w.iter().map(|w| w.to_ascii_uppercase()).collect::<Vec<_>>().join("_"),
    };
    (fix != name).then_some(fix)
}

// ---------------------------------------------------------------- schemas

#[derive(Clone, Default)]
struct Arg {
    name: String,
    dirs: usize,
}

#[derive(Clone, Default)]
struct Member {
    name: String,
    dirs: usize,
    args: Vec<Arg>,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Type,
    Interface,
    Union,
    Enum,
    Input,
    Scalar,
    Directive,
}

const KEYWORDS: [&str; 7] = ["type", "interface", "union", "enum", "input", "scalar", "directive"];
const TYPES: [Kind; 6] = [Kind::Type, Kind::Interface, Kind::Union, Kind::Enum, Kind::Input, Kind::Scalar];

struct Def {
    kind: Kind,
    extend: bool,
    name: String,
    dirs: usize,
    members: Vec<Member>,
}

/// Directives, and whether one of them is a deprecation without a reason.
const DIRS: [(&str, bool); 7] = [
    ("", false),
    (" @deprecated", true),
    (" @deprecated(reason: \"x\")", false),
    (" @other(reason: \"x\")", false),
    (" @other(reason: \"x\") @deprecated", true),
    (" @deprecated(reasons: \"x\") @other", true),
    (" @Deprecated", false),
];

fn render(defs: &[Def]) -> String {
    let mut s = String::new();
    for d in defs {
        if d.extend {
            s += "extend ";
        }
        let args = |s: &mut String, args: &[Arg]| {
            if !args.is_empty() {
                *s += "(";
                for a in args {
                    *s += &a.name;
                    *s += ": Int";
                    *s += DIRS[a.dirs].0;
                    *s += " ";
                }
                *s += ")";
            }
        };
        s += KEYWORDS[d.kind as usize];
        s += if d.kind == Kind::Directive { " @" } else { " " };
        s += &d.name;
        if d.kind == Kind::Directive {
            args(&mut s, &d.members[0].args);
            s += " on OBJECT\n";
            continue;
        }
        s += DIRS[d.dirs].0;
        match d.kind {
            Kind::Scalar => {}
            Kind::Union => s += " = A",
            _ => {
                s += " {";
                for m in &d.members {
                    s += " ";
                    s += &m.name;
                    match d.kind {
                        Kind::Type | Kind::Interface => {
                            args(&mut s, &m.args);
                            s += ": Int";
                        }
                        Kind::Input => s += ": Int",
                        _ => {}
                    }
                    s += DIRS[m.dirs].0;
                }
                s += " }";
            }
        }
        s += "\n";
    }
    s
}

/// What the documentation says a linter warns about.
fn expected(defs: &[Def]) -> Vec<String> {
    let mut out = vec![];
    for d in defs {
        let kw = KEYWORDS[d.kind as usize];
        let name = &d.name;
        let mut case = |what: String, n: &str, case: Case| {
            if let Some(fix) = renamed(n, case) {
                out.push(format!("{what} should be renamed to '{fix}'"));
            }
        };
        match d.kind {
            Kind::Type => case(format!("type '{name}'"), name, Case::Pascal),
            Kind::Enum => case(format!("enum '{name}'"), name, Case::Pascal),
            Kind::Directive => case(format!("directive '{name}'"), name, Case::Camel),
            _ => {}
        }
        if d.kind == Kind::Directive {
            for a in &d.members[0].args {
                case(format!("argument '{}' on directive '{name}'", a.name), &a.name, Case::Camel);
            }
        }
        for m in d.members.iter().filter(|_| d.kind != Kind::Directive) {
            match d.kind {
                Kind::Enum => case(format!("value '{}' on enum '{name}'", m.name), &m.name, Case::Shouty),
                Kind::Input => case(format!("input value '{}' on input '{name}'", m.name), &m.name, Case::Camel),
                _ => {
                    case(format!("field '{}' on {kw} '{name}'", m.name), &m.name, Case::Camel);
                    for a in &m.args {
                        case(format!("argument '{}' on field '{}' on {kw} '{name}'", a.name, m.name), &a.name, Case::Camel);
                    }
                }
            }
        }
        let mut affixes = |what: String, n: &str, prefixes: &[&str], suffix: &str| {
            if let Some(p) = prefixes.iter().find(|p| n.starts_with(**p)) {
                out.push(format!("{what} has a forbidden prefix: '{p}'"));
            }
            if n.ends_with(suffix) {
                out.push(format!("{what} has a forbidden suffix: '{suffix}'"));
            }
        };
        let own = match d.kind {
            Kind::Type => Some("Type"),
            Kind::Interface => Some("Interface"),
            Kind::Union => Some("Union"),
            Kind::Enum => Some("Enum"),
            _ => None,
        };
        if let Some(a) = own {
            affixes(format!("{kw} '{name}'"), name, &[a], a);
        }
        if d.kind == Kind::Type {
            for m in d.members.iter().filter(|m| !m.name.starts_with("__")) {
                let what = format!("field '{}' on type '{name}'", m.name);
                match name.as_str() {
                    "Query" => affixes(what, &m.name, &["query", "get", "list"], "Query"),
                    "Mutation" => affixes(what, &m.name, &["mutation", "put", "post", "patch"], "Mutation"),
                    "Subscription" => affixes(what, &m.name, &["subscription"], "Subscription"),
                    _ => {}
                }
            }
        }
        let mut reason = |what: String, dirs: usize| {
            if DIRS[dirs].1 {
                out.push(format!("usage of directive 'deprecated' on {what} does not populate the 'reason' argument"));
            }
        };
        if d.kind == Kind::Directive {
            for a in &d.members[0].args {
                reason(format!("argument '{}' on directive '{name}'", a.name), a.dirs);
            }
            continue;
        }
        reason(format!("{kw} '{name}'"), d.dirs);
        for m in &d.members {
            match d.kind {
                Kind::Enum => reason(format!("enum value '{}' on enum '{name}'", m.name), m.dirs),
                Kind::Input => reason(format!("input value '{}' on input '{name}'", m.name), m.dirs),
                _ => {
                    reason(format!("field '{}' on {kw} '{name}'", m.name), m.dirs);
                    for a in &m.args {
                        reason(format!("argument '{}' on field '{}' on {kw} '{name}'", a.name, m.name), a.dirs);
                    }
                }
            }
        }
    }
    out
}

fn check(defs: &[Def]) {
    let sdl = render(defs);
    let mut want = expected(defs);
    let mut got: Vec<String> = match graphql_lint::lint(&sdl) {
        Ok(x) => x.into_iter().map(|(m, _)| m).collect(),
        Err(e) => return wrt::failed(&format!("{sdl}\nis not accepted: {e}")),
    };
    want.sort();
    got.sort();
    for w in &want {
        let n = want.iter().filter(|x| *x == w).count();
        let m = got.iter().filter(|x| *x == w).count();
        if m < n {
            wrt::failed(&format!("{sdl}\nthere is no warning that {w}"));
        }
    }
    for g in &got {
        let n = got.iter().filter(|x| *x == g).count();
        let m = want.iter().filter(|x| *x == g).count();
        if m < n {
            wrt::failed(&format!("{sdl}\nthere is a warning that {g}"));
        }
    }
    wrt::reach(if want.is_empty() { 2 } else { 1 });
}

/// The definition with one name in the given place.
fn place(at: usize, name: &str, dirs: usize) -> Def {
    let plain = |kind: Kind| Def {
        kind,
        extend: false,
        name: if kind == Kind::Directive { "plain" } else { "Plain" }.to_string(),
        dirs: 0,
        members: vec![Member {
            name: if kind == Kind::Enum { "PLAIN" } else { "plain" }.to_string(),
            dirs: 0,
            args: vec![Arg { name: "first".to_string(), dirs: 0 }, Arg { name: "second".to_string(), dirs: 0 }],
        }],
    };
    match at {
        0..6 => Def { name: name.to_string(), dirs, ..plain(TYPES[at]) },
        6 => Def { name: name.to_string(), ..plain(Kind::Directive) },
        7..11 => {
            let mut d = plain([Kind::Type, Kind::Interface, Kind::Enum, Kind::Input][at - 7]);
            let m = Member { name: name.to_string(), dirs, args: vec![] };
            d.members.push(m);
            d
        }
        _ => {
            let mut d = plain([Kind::Type, Kind::Interface, Kind::Directive][at - 11]);
            d.members[0].args[1] = Arg { name: name.to_string(), dirs };
            d
        }
    }
}

const PLACES: usize = 14;

/// A name of up to n characters in every place.
pub fn c34_cases() {
    let n = wrt::param(0) as usize;
    let at = pick("place", PLACES);
    let rest = wrt::word("name", n, b"abAB1_");
    wrt::assume(!rest.is_empty() && !rest.as_bytes()[0].is_ascii_digit());
    let rest = if rest.len() < n { format!("{rest}{}", ["", "__b", "__", "bcD"][pick("rest", 4)]) } else { rest };
    let mut d = place(at, &rest, 0);
    d.extend = at != 6 && at != 13 && option("extension");
    check(&[d]);
}

/// Every affix, nearly right ones included, of the types and of the fields of roots.
pub fn c34_affixes() {
    let roots = ["Query", "Mutation", "Subscription", "Other"];
    let affixes = [
        "Type", "Interface", "Union", "Enum", "Input", "Scalar", "query", "get", "list", "Query", "mutation", "put", "post", "patch", "Mutation",
        "subscription", "Subscription",
    ];
    let one = pick("first", affixes.len());
    let mut bytes = affixes[one].as_bytes().to_vec();
    let form = pick("form", 3);
    let field = if form == 0 || wrt::param(0) > 0 { option("field") } else { one >= 6 };
    match form {
        0 => bytes.extend(affixes[pick("second", affixes.len())].as_bytes()),
        1 => {
            let i = pick("typo at", bytes.len());
            let c = wrt::u8("typo letter");
            wrt::assume(c.is_ascii_lowercase() | c.is_ascii_uppercase());
            bytes[i] = c;
            if option("suffix") {
                bytes.insert(0, b'x');
            }
        }
        _ => {
            let x = wrt::u8("other letter");
            wrt::assume(x.is_ascii_lowercase() | x.is_ascii_uppercase());
            let at = [0, bytes.len()][pick("other at", 2)];
            bytes.insert(at, x);
        }
    }
    let name = String::from_utf8(bytes).unwrap();
    let d = if field {
        let mut d = place(7, &name, 0);
        d.name = roots[pick("root", 4)].to_string();
        d
    } else {
        place(pick("kind", 6), &name, 0)
    };
    check(&[d]);
}

/// Every use of directives in every place.
pub fn c34_deprecated() {
    let at = pick("place", PLACES);
    wrt::assume(at != 6);
    let name = if at == 9 { "NAME" } else if at < 6 { "Name" } else { "name" };
    let mut d = place(at, name, pick("directives", DIRS.len()));
    d.extend = at != 13 && option("extension");
    check(&[d]);
}

/// Two definitions: the warnings are those of both.
pub fn c34_two() {
    let names = ["Type", "aName", "_x", "get__a", "Query", "X"];
    let mut defs = vec![];
    for k in 0..2 {
        let at = pick(&format!("place{k}"), PLACES);
        let name = names[pick(&format!("name{k}"), names.len())];
        let dirs = if at == 6 { 0 } else { pick(&format!("directives{k}"), 2) };
        let mut d = place(at, name, dirs);
        d.extend = k == 1 && at != 6 && at != 13;
        defs.push(d);
    }
    check(&defs);
}
