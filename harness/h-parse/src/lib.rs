//! C24 (field selection maps), C25 (graph references), C27 (dynamic strings).
use engine_field_selection_map as fsm;
use graph_ref::GraphRef;
use serde_dynamic_string::DynamicString;

use wrt::text;

fn fsm_roundtrip(s: &str) -> bool {
    match fsm::SelectedValue::try_from(s) {
        Ok(v) => {
            let p = v.to_string();
            let strip = |s: &str| s.bytes().filter(|b| !b.is_ascii_whitespace()).collect::<Vec<u8>>();
            wrt::ensure!(strip(s) == strip(&p), "{s:?} is read as {p:?}");
            match fsm::SelectedValue::try_from(p.as_str()) {
                Ok(w) => {
                    wrt::ensure!(v == w, "{s:?} prints as {p:?}, which parses to another value");
                    wrt::ensure!(w.to_string() == p, "{s:?}: printing is not stable");
                }
                Err(e) => wrt::failed(&format!("{s:?} prints as {p:?}, which does not parse: {e}")),
            }
            wrt::observe("printed", p.as_bytes());
            true
        }
        Err(e) => {
            wrt::ensure!(!e.is_empty(), "empty error");
            false
        }
    }
}

/// Every text over the map alphabet.
const ALPHABET: &[u8] = b"{}[].<>:| \naZ_0,";

pub fn c24_any() {
    let s = wrt::word("s", wrt::param(0) as usize, ALPHABET);
    wrt::reach(if fsm_roundtrip(&s) { 1 } else { 2 });
}

/// Arbitrary bytes, in particular multi-byte characters and control characters.
pub fn c24_bytes() {
    let s = text("s", wrt::param(0) as usize, true);
    wrt::reach(if fsm_roundtrip(&s) { 1 } else { 2 });
}

/// Larger maps with arbitrary holes.
pub fn c24_template() {
    let n = wrt::param(0) as usize;
    let t = wrt::pick("template", &["{ a: ?b c }", "a<T>.?b | c", "{ a: [?b] }", "x[{ a?b }]", "<T>.a?.{ b }", "{ k: ?{ a } | { b } }", "{ a: . ?b }", "a?<T>[b]"]);
    let (pre, post) = t.split_once('?').unwrap();
    let h = wrt::word("hole", n, ALPHABET);
    let s = format!("{pre}{h}{post}");
    wrt::reach(if fsm_roundtrip(&s) { 1 } else { 2 });
}

/// Values built from the model print and parse back.
pub fn c24_model() {
    use fsm::*;
    fn path<'a>(n: &str, depth: usize) -> Path<'a> {
        let seg = |i: usize| PathSegment { field: ["a", "b_1"][i % 2], ty: if wrt::flag(&format!("{n}.ty{i}")) { Some("T") } else { None } };
        let k = wrt::pin(wrt::choose(&format!("{n}.n"), depth as u8) as u64) as usize + 1;
        Path { ty: if wrt::flag(&format!("{n}.root")) { Some("R") } else { None }, segments: (0..k).map(seg).collect() }
    }
    fn value<'a>(n: &str, depth: usize) -> SelectedValue<'a> {
        let k = if depth >= wrt::param(1) as usize { wrt::pin(wrt::choose(&format!("{n}.alts"), 2) as u64) as usize + 1 } else { 1 };
        SelectedValue { alternatives: (0..k).map(|i| entry(&format!("{n}.{i}"), depth)).collect() }
    }
    fn entry<'a>(n: &str, depth: usize) -> SelectedValueEntry<'a> {
        let kinds = if depth == 0 { 2 } else { 6 };
        match wrt::pin(wrt::choose(&format!("{n}.kind"), kinds) as u64) {
            0 => SelectedValueEntry::Identity,
            1 => SelectedValueEntry::Path(path(n, 2)),
            2 => SelectedValueEntry::Object { path: None, object: object(n, depth) },
            3 => SelectedValueEntry::Object { path: Some(path(n, 1)), object: object(n, depth) },
            4 => SelectedValueEntry::List { path: None, list: SelectedListValue(value(&format!("{n}.l"), depth - 1)) },
            _ => SelectedValueEntry::List { path: Some(path(n, 1)), list: SelectedListValue(value(&format!("{n}.l"), depth - 1)) },
        }
    }
    fn object<'a>(n: &str, depth: usize) -> SelectedObjectValue<'a> {
        let k = wrt::pin(wrt::choose(&format!("{n}.fields"), 3) as u64) as usize;
        SelectedObjectValue {
            fields: (0..k)
                .map(|i| SelectedObjectField {
                    key: ["k", "l2"][i],
                    value: if i == 0 && wrt::flag(&format!("{n}.v{i}")) { Some(value(&format!("{n}.f{i}"), depth - 1)) } else { None },
                })
                .collect(),
        }
    }
    let v = value("v", wrt::param(0) as usize);
    let p = v.to_string();
    match SelectedValue::try_from(p.as_str()) {
        Ok(w) => wrt::ensure!(v == w, "{v:?} prints as {p:?}, which parses to another value"),
        Err(e) => wrt::failed(&format!("{v:?} prints as {p:?}, which does not parse: {e}")),
    }
    wrt::observe("printed", p.as_bytes());
    wrt::reach(1);
}

fn find(s: &[u8], c: u8) -> Option<usize> {
    s.iter().position(|x| *x == c)
}

/// Graph references: `graph`, `graph@branch`, `graph@branch#version`.
pub fn c25_parse() {
    let s = text("s", wrt::param(0) as usize, true);
    let b = s.as_bytes();
    let (slug, branch, version) = match find(b, b'@') {
        None => (b, None, None),
        Some(i) => {
            let rest = &b[i + 1..];
            match find(rest, b'#') {
                None => (&b[..i], Some(rest), None),
                Some(j) => (&b[..i], Some(&rest[..j]), Some(&rest[j + 1..])),
            }
        }
    };
    let valid = !slug.is_empty() && find(slug, b'/').is_none();
    match s.parse::<GraphRef>() {
        Ok(r) => {
            wrt::ensure!(valid, "{s:?} accepted");
            wrt::ensure!(r.slug().as_bytes() == slug, "{s:?}: graph {:?}", r.slug());
            wrt::ensure!(r.branch().map(str::as_bytes) == branch, "{s:?}: branch {:?}", r.branch());
            wrt::ensure!(r.version().map(str::as_bytes) == version, "{s:?}: version {:?}", r.version());
            let p = r.to_string();
            wrt::ensure!(p == s, "{s:?} prints as {p:?}");
            let again = p.parse::<GraphRef>();
            wrt::ensure!(again.as_ref() == Ok(&r), "{s:?}: reparsed as {again:?}");
            wrt::observe("printed", p.as_bytes());
            wrt::reach(match (branch, version) { (None, _) => 1, (Some(_), None) => 2, _ => 3 });
        }
        Err(e) => {
            wrt::ensure!(!valid, "{s:?} rejected: {e}");
            wrt::ensure!(!e.is_empty(), "empty error");
            wrt::observe("err", e.as_bytes());
            wrt::reach(4);
        }
    }
}

/// The constructors and the parser agree.
pub fn c25_construct() {
    let n = wrt::param(0) as usize;
    let (g, b, v) = (text("g", n, false), text("b", n, false), text("v", n, false));
    wrt::assume(!g.is_empty() && g.bytes().all(|c| c != b'/' && c != b'@' && c != b'#'));
    wrt::assume(b.bytes().all(|c| c != b'@' && c != b'#'));
    wrt::assume(v.bytes().all(|c| c != b'#'));
    let r = match wrt::pin(wrt::choose("kind", 3) as u64) {
        0 => GraphRef::latest_production_version(g.clone()),
        1 => GraphRef::latest_version(g.clone(), b.clone()),
        _ => GraphRef::new(g.clone(), b.clone(), v.clone()),
    };
    wrt::ensure!(r.slug() == g, "slug");
    let again = r.to_string().parse::<GraphRef>();
    wrt::ensure!(again.as_ref() == Ok(&r), "{r:?} prints as {r} which parses to {again:?}");
    wrt::reach(1);
}

/// Reference for `{{ env.NAME }}` substitution, independent of the regex.
fn substitute(s: &str, env: &dyn Fn(&str) -> Option<String>) -> Result<String, ()> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    let mut ok = true;
    while i < b.len() {
        if b[i] == b'{' && i + 1 < b.len() && b[i + 1] == b'{' {
            let mut j = i + 2;
            while j < b.len() && b[j].is_ascii_whitespace() {
                j += 1;
            }
            let k0 = j;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.') {
                j += 1;
            }
            let key = &b[k0..j];
            while j < b.len() && b[j].is_ascii_whitespace() {
                j += 1;
            }
            if !key.is_empty() && j + 1 < b.len() && b[j] == b'}' && b[j + 1] == b'}' {
                let key = std::str::from_utf8(key).unwrap();
                let mut parts = key.split('.');
                match (parts.next(), parts.next(), parts.next()) {
                    (Some("env"), Some(name), None) => match env(name) {
                        Some(v) => out.extend_from_slice(v.as_bytes()),
                        None => ok = false,
                    },
                    _ => ok = false,
                }
                i = j + 2;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    if ok { Ok(String::from_utf8(out).unwrap()) } else { Err(()) }
}

fn dynamic(s: &str) {
    dynamic_with(s, "x{{ env.B }}y")
}

fn dynamic_with(s: &str, a: &str) {
    let env = |n: &str| match n {
        "A" => Some(a.to_string()),
        "B" => Some(String::new()),
        _ => None,
    };
    let want = substitute(s, &env);
    match s.parse::<DynamicString<String>>() {
        Ok(d) => {
            match &want {
                Ok(w) => wrt::ensure!(d.as_ref() == w, "{s:?} gives {:?} instead of {w:?}", d.as_ref()),
                Err(()) => wrt::failed(&format!("{s:?} accepted as {:?}", d.as_ref())),
            }
            wrt::ensure!(d.to_string() == d.as_ref(), "Display differs");
            wrt::observe("value", d.as_ref().as_bytes());
            wrt::reach(1);
        }
        Err(e) => {
            wrt::ensure!(want.is_err(), "{s:?} rejected: {e}");
            wrt::reach(2);
        }
    }
}

fn set_env() {
    unsafe {
        std::env::set_var("A", "x{{ env.B }}y");
        std::env::set_var("B", "");
        std::env::remove_var("C");
    }
}

/// Templates with arbitrary bytes before, inside and after the placeholders.
pub fn c27_template() {
    set_env();
    let n = wrt::param(0) as usize;
    let t = wrt::pick("template", &["?", "{{?env.A}}", "{{ env.A?}}b", "{{ env.?A }}", "a{{ e?v.B }}{{env.A}}", "{{env.A}}?{{ env.B }}", "{{ ?A }}", "{{ env.A }?", "?{{ env.B }}?", "{{ env.C }}?"]);
    let mut s = String::new();
    for (i, p) in t.split('?').enumerate() {
        if i > 0 {
            let k = if t.len() < 3 { n + 1 } else { n };
            s.push_str(&text(&format!("hole{i}x{k}"), k, true));
        }
        s.push_str(p);
    }
    // Unicode white space is white space to the placeholder syntax; the control characters the
    // reference leaves out are excluded
    for b in s.bytes() {
        wrt::assume(b != 0x0b);
    }
    dynamic(&s);
}

/// A variable with an arbitrary value.
pub fn c27_values() {
    set_env();
    let n = wrt::param(0) as usize;
    let a = text("value", n, true);
    for b in a.bytes() {
        wrt::assume(b != 0);
    }
    unsafe { std::env::set_var("A", &a) };
    dynamic_with(wrt::pick("template", &["{{env.A}}", " {{ env.A }}b", "{{ env.A }}{{env.A}}{{ env.B }}", "{{ env.B }}\n{{ env.A }}\n"]), &a);
}

wrt::checks! { c27_values, c24_any, c24_bytes, c24_template, c24_model, c25_parse, c25_construct, c27_template }
