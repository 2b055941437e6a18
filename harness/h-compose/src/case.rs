//! Templates of subgraphs, composition, and what is common to the oracles.
use crate::model::*;
use graphql_composition::{FederatedGraph, Subgraphs, compose, render_api_sdl, render_federated_sdl};
use std::collections::{BTreeMap, BTreeSet};

pub const HEAD: &str = "extend schema @link(url: \"https://specs.apollo.dev/federation/v2.3\", import: [\"@key\", \"@shareable\", \"@external\", \
    \"@provides\", \"@requires\", \"@override\", \"@inaccessible\", \"@tag\", \"@authenticated\", \"@requiresScopes\", \"@policy\", \"@interfaceObject\", \"@composeDirective\"])\n";

pub const COMPOSITE: &str = "extend schema @link(url: \"https://specs.grafbase.com/composite-schemas/v1\", import: [\"@key\", \"@shareable\", \"@external\", \
    \"@provides\", \"@override\", \"@inaccessible\", \"@tag\", \"@lookup\", \"@internal\", \"@require\", \"@is\", \"@derive\"])\n";

/// Fills in a template: `<a|b|c>` is one of the alternatives (which may have alternatives of their own), `<k?a|b>` one that
/// `<k?>` repeats, `~` may be @inaccessible, `'` is a quote and `\` a bar.
pub fn render(t: &str) -> String {
    let t = t.replace('~', "<|@inaccessible>");
    let mut out = String::new();
    fill(&t, &mut out, &mut BTreeMap::new(), &mut 0);
    out.replace('\'', "\"").replace('\\', "|")
}

fn fill<'a>(t: &'a str, out: &mut String, named: &mut BTreeMap<&'a str, &'a str>, k: &mut usize) {
    let mut rest = t;
    while let Some(i) = rest.find('<') {
        *out += &rest[..i];
        // to the matching bracket, noting the bars outside inner ones
        let (mut depth, mut cuts, mut end) = (0, vec![i], 0);
        for (p, c) in rest.char_indices().skip_while(|(p, _)| *p < i) {
            match c {
                '<' => depth += 1,
                '>' => {
                    depth -= 1;
                    if depth == 0 {
                        end = p;
                        break;
                    }
                }
                '|' if depth == 1 => cuts.push(p),
                _ => {}
            }
        }
        cuts.push(end);
        let mut alts: Vec<&'a str> = cuts.windows(2).map(|w| &rest[w[0] + 1..w[1]]).collect();
        let mut name = None;
        if let Some((n, a)) = alts[0].split_once('?') {
            if n.bytes().all(|b| b.is_ascii_alphanumeric()) {
                name = Some(n);
                alts[0] = a;
            }
        }
        match name.and_then(|n| named.get(n)).copied() {
            Some(v) if alts.len() == 1 && alts[0].is_empty() => fill(v, out, named, k),
            _ => {
                let v = alts[opt(&format!("alt{k}"), alts.len())];
                *k += 1;
                if let Some(n) = name {
                    named.insert(n, v);
                }
                fill(v, out, named, k);
            }
        }
        rest = &rest[end + 1..];
    }
    *out += rest;
}

pub fn opt(name: &str, n: usize) -> usize {
    wrt::pin(wrt::choose(name, n as u8) as u64) as usize
}

pub struct Sub {
    pub name: String,
    pub sdl: String,
    pub m: M,
    pub v2: bool,
}

impl Sub {
    pub fn graph(&self) -> String {
        self.name.to_uppercase()
    }
    /// The subgraph's definition of a type of the composed graph.
    pub fn ty(&self, n: &str) -> Option<&T> {
        match ROOTS.iter().position(|r| *r == n) {
            Some(i) => self.m.roots[i].as_ref().and_then(|r| self.m.types.get(r)),
            None if self.is_root(n) => None,
            None => self.m.types.get(n),
        }
    }
    pub fn is_root(&self, n: &str) -> bool {
        self.m.roots.iter().flatten().any(|r| r == n)
    }
}

pub struct Out {
    pub fed_sdl: String,
    pub api_sdl: String,
    pub fed: M,
    pub api: M,
}

pub struct Case {
    pub subs: Vec<Sub>,
    pub out: Option<Out>,
    pub errors: Vec<String>,
}

/// The composed graph as SDL (federated, API) or the fatal diagnostics.
pub fn compose_only(subs: &[Sub]) -> Result<(FederatedGraph, String), Vec<String>> {
    let mut s = Subgraphs::default();
    for x in subs {
        if let Err(e) = s.ingest_str(&x.sdl, &x.name, Some("http://x")) {
            return Err(vec![format!("ingest: {e}")]);
        }
    }
    match compose(&mut s).into_result() {
        Ok(g) => match render_federated_sdl(&g) {
            Ok(sdl) => Ok((g, sdl)),
            Err(_) => {
                wrt::failed("rendering the federated graph fails");
                Err(vec![])
            }
        },
        Err(d) => {
            let mut v: Vec<String> = d.iter().map(|d| d.message().to_string()).collect();
            wrt::ensure!(!v.is_empty(), "no graph and no diagnostic");
            v.sort();
            Err(v)
        }
    }
}

/// Splits a rendered template in subgraphs (`---` between them, `v1` in front of one for federation 1, `composite` for a composite schema).
pub fn subgraphs(text: &str) -> Vec<Sub> {
    let mut v = vec![];
    for (i, t) in text.split("---").enumerate() {
        let t = t.trim();
        if t.is_empty() {
            continue;
        }
        let (v2, sdl) = match t.strip_prefix("v1") {
            Some(t) => (false, t.to_string()),
            None => match t.strip_prefix("composite ") {
                Some(t) => (true, format!("{COMPOSITE}{t}")),
                None => (true, format!("{HEAD}{t}")),
            },
        };
        let m = match parse(&sdl) {
            Ok(m) => m,
            Err(e) => {
                wrt::dbg(&e);
                wrt::assume(false);
                M::default()
            }
        };
        v.push(Sub { name: ["a", "b", "c", "d"][i].into(), sdl, m, v2 });
    }
    v
}

pub fn case(text: &str) -> Case {
    let subs = subgraphs(text);
    let mut c = Case { subs, out: None, errors: vec![] };
    match compose_only(&c.subs) {
        Ok((g, fed_sdl)) => {
            wrt::reach(1);
            wrt::observe("federated", fed_sdl.as_bytes());
            let api_sdl = render_api_sdl(&g);
            wrt::observe("api", api_sdl.as_bytes());
            let (fed, api) = (parse(&fed_sdl), parse(&api_sdl));
            match (fed, api) {
                (Ok(fed), Ok(api)) => {
                    wrt::ensure!(!fed.dup, "something is defined twice in the federated SDL\n{text}\n{fed_sdl}");
                    wrt::ensure!(!api.dup, "something is defined twice in the API SDL\n{text}\n{api_sdl}");
                    c.out = Some(Out { fed_sdl, api_sdl, fed, api })
                }
                (Err(e), _) => wrt::failed(&format!("the federated SDL does not parse: {e}")),
                (Ok(fed), Err(_)) if api_sdl.trim().is_empty() => c.out = Some(Out { fed_sdl, api_sdl, fed, api: M::default() }),
                (_, Err(e)) => wrt::failed(&format!("the API SDL does not parse: {e}")),
            }
        }
        Err(e) => {
            wrt::reach(2);
            wrt::observe("errors", e.join("\n").as_bytes());
            c.errors = e;
        }
    }
    c
}

impl Case {
    pub fn failed(&self) -> bool {
        self.out.is_none()
    }
    pub fn text(&self) -> String {
        let mut s: Vec<String> = self.subs.iter().map(|s| format!("{}: {}", s.name, s.sdl.replace(HEAD, "").replace(COMPOSITE, "composite "))).collect();
        if let Some(o) = &self.out {
            let i = o.fed_sdl.find("scalar join__FieldSet").unwrap_or(0);
            s.push(format!("composed: {}\napi: {}", &o.fed_sdl[i..], o.api_sdl));
        } else {
            s.push(format!("rejected: {}", self.errors.join("\n")));
        }
        s.join("\n")
    }
    pub fn ensure(&self, ok: bool, what: impl FnOnce() -> String) {
        if !ok {
            wrt::failed(&format!("{}\n{}", what(), self.text()));
        }
    }
    /// The subgraphs defining a composed type.
    pub fn defs(&self, n: &str) -> Vec<(&Sub, &T)> {
        self.subs.iter().filter_map(|s| Some((s, s.ty(n)?))).collect()
    }
    /// Every name the composed graph must have a type for.
    pub fn names(&self) -> BTreeSet<String> {
        let mut v = BTreeSet::new();
        for s in &self.subs {
            for n in s.m.types.keys() {
                if !s.is_root(n) {
                    v.insert(n.clone());
                }
            }
            for (i, r) in s.m.roots.iter().enumerate() {
                if r.is_some() {
                    v.insert(ROOTS[i].to_string());
                }
            }
        }
        v
    }
    /// The fields of a composed type with the subgraphs that have them.
    pub fn fields(&self, n: &str) -> BTreeMap<String, Vec<(&Sub, &T, &El)>> {
        let mut m: BTreeMap<String, Vec<(&Sub, &T, &El)>> = BTreeMap::new();
        for (s, t) in self.defs(n) {
            for (k, f) in &t.fields {
                m.entry(k.clone()).or_default().push((s, t, f));
            }
        }
        m
    }
}
