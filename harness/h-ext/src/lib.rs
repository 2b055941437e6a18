//! C26: extension identifiers and the catalog.
use extension::{Id, Manifest, Type};
use extension_catalog::{Extension, ExtensionCatalog};
use semver::{BuildMetadata, Prerelease, Version, VersionReq};

fn has_version_suffix(s: &str) -> bool {
    s.match_indices('-').any(|(i, _)| Version::parse(&s[i + 1..]).is_ok())
}

/// Any text: an error or the identifier it prints as.
pub fn c26_parse() {
    let s = wrt::word("s", wrt::param(0) as usize, b"a-.01+");
    parse_any(&s)
}

/// Any short byte string around a version.
pub fn c26_parse_bytes() {
    let h = wrt::text("s", wrt::param(0) as usize, true);
    let t = wrt::pick("template", &["?", "a-1.0.0?", "?-1.0.0", "a?1.0.0", "a-1.0?.0"]);
    parse_any(&t.replace('?', &h))
}

fn parse_any(s: &str) {
    match s.parse::<Id>() {
        Ok(id) => {
            let p = id.to_string();
            wrt::ensure!(p == s, "{s:?} parses but prints as {p:?}");
            wrt::ensure!(p == format!("{}-{}", id.name, id.version), "Display is not name-version");
            wrt::ensure!(p.parse::<Id>().ok().as_ref() == Some(&id), "{s:?} reparses to another identifier");
            wrt::observe("id", p.as_bytes());
            wrt::reach(1);
        }
        Err(_) => {
            wrt::ensure!(!has_version_suffix(s), "{s:?} names a version but is rejected");
            wrt::reach(2);
        }
    }
}

/// Printing and parsing an identifier is the identity.
pub fn c26_roundtrip() {
    let n = wrt::param(0) as usize;
    let name = wrt::word("name", n, b"ab-1");
    // a name that itself contains `-<version>` is ambiguous by construction
    wrt::assume(!has_version_suffix(&name));
    let nums = [0u64, 1, 10, u64::MAX];
    let mut version = Version::new(*wrt::pick("major", &[&nums[0], &nums[2], &nums[3]]), 1, *wrt::pick("patch", &[&nums[0], &nums[1]]));
    let pre = wrt::word("pre", wrt::param(1) as usize, b"a-.01");
    match Prerelease::new(&pre) {
        Ok(p) => version.pre = p,
        Err(_) => return wrt::assume(false),
    }
    if wrt::flag("build") {
        version.build = BuildMetadata::new("b.01-x").unwrap();
    }
    let id = Id { name, version };
    let s = id.to_string();
    match s.parse::<Id>() {
        Ok(back) => wrt::ensure!(back == id, "{id:?} prints as {s:?} which parses to {back:?}"),
        Err(e) => wrt::failed(&format!("{id:?} prints as {s:?} which does not parse: {e}")),
    }
    wrt::observe("id", s.as_bytes());
    wrt::reach(if pre.is_empty() { 1 } else { 2 });
}

const NAMES: [&str; 6] = ["a", "ab", "b", "aB", "a-1", "A"];

fn ge(v: (u64, u64, u64), w: (u64, u64, u64)) -> bool {
    v.0 > w.0 || v.0 == w.0 && (v.1 > w.1 || v.1 == w.1 && v.2 >= w.2)
}

/// The documented meaning of the version requirements used below.
fn satisfies(req: usize, v: (u64, u64, u64)) -> bool {
    match req {
        0 => v.0 == 1 && ge(v, (1, 2, 0)),
        1 => v.0 == 1 && v.1 == 2 && ge(v, (1, 2, 3)),
        2 => v == (1, 2, 3),
        3 => true,
        4 => v.0 == 0 && v.1 == 2 && ge(v, (0, 2, 5)),
        5 => ge(v, (1, 0, 0)) && !ge(v, (3, 0, 0)),
        _ => v.0 == 2,
    }
}
const REQS: [&str; 7] = ["^1.2.0", "~1.2.3", "=1.2.3", "*", "0.2.5", ">=1.0.0, <3.0.0", "2"];

fn version(n: &str) -> (u64, u64, u64) {
    (wrt::u64(&format!("{n}.major")), wrt::u64(&format!("{n}.minor")), wrt::u64(&format!("{n}.patch")))
}

/// Name equality and version requirement, over all versions.
pub fn c26_compatible() {
    let r = wrt::pin(wrt::choose("req", 7) as u64) as usize;
    let req = VersionReq::parse(REQS[r]).unwrap();
    let v = version("v");
    let (have, want) = (wrt::pin(wrt::choose("have", NAMES.len() as u8) as u64) as usize, wrt::pin(wrt::choose("want", NAMES.len() as u8) as u64) as usize);
    let id = Id { name: NAMES[have].into(), version: Version::new(v.0, v.1, v.2) };
    let expected = have == want && satisfies(r, v);
    let got = id.is_compatible_with(NAMES[want], &req);
    wrt::ensure!(got == expected, "{id:?} with {:?} {}: {got}", NAMES[want], REQS[r]);
    wrt::reach(if got { 1 } else { 2 });
}

fn manifest(name: &str, version: Version, urls: Vec<String>) -> Manifest {
    Manifest {
        id: Id { name: name.into(), version },
        r#type: Type::Authentication(extension::Empty {}),
        sdk_version: Version::new(0, 1, 0),
        minimum_gateway_version: Version::new(0, 1, 0),
        description: String::new(),
        associated_link_urls: urls,
        sdl: None,
        readme: None,
        homepage_url: None,
        repository_url: None,
        license: None,
        permissions: vec![],
        legacy_event_filter: None,
    }
}

/// Lookup returns the first compatible extension; an associated link URL takes precedence.
pub fn c26_catalog() {
    let n = wrt::pin(wrt::choose("n", wrt::param(0) as u8 + 1) as u64) as usize;
    let urls = ["http://u1", "http://u2"];
    let mut cat = ExtensionCatalog::default();
    let mut model = vec![];
    wrt::ensure!(cat.is_empty() && cat.len() == 0, "new catalog");
    for i in 0..n {
        let name = wrt::pin(wrt::choose(&format!("name{i}"), 2) as u64) as usize;
        // patch versions only: the requirement arithmetic is decided in c26_compatible
        let minor = wrt::u8(&format!("minor{i}")) as u64;
        let u = wrt::pin(wrt::choose(&format!("urls{i}"), 4) as u64) as usize;
        let list = (0..2).filter(|k| u >> k & 1 == 1).map(|k| urls[k].to_string()).collect();
        let key = ["k0", "k1"][wrt::pin(wrt::choose(&format!("key{i}"), 2) as u64) as usize];
        let id = cat.push(Extension { config_key: key.into(), manifest: manifest(NAMES[name], Version::new(1, minor, 0), list), wasm_path: Default::default() });
        wrt::ensure!(usize::from(id) == i && cat.len() == i + 1, "push");
        model.push((name, minor, u, key));
    }
    let q = wrt::pin(wrt::choose("qurl", 3) as u64) as usize;
    let url = ["http://u1", "http://u2", "http://u"][q];
    let qname = [None, Some(0usize), Some(1)][wrt::pin(wrt::choose("qname", 3) as u64) as usize];
    let qreq = [None, Some("^1.2.0"), Some("=1.3.0")][wrt::pin(wrt::choose("qreq", 3) as u64) as usize];
    let req = qreq.map(|r| VersionReq::parse(r).unwrap());
    let by_url = model.iter().position(|m| q < 2 && m.2 >> q & 1 == 1);
    let sat = |minor: u64| match qreq { None => true, Some("^1.2.0") => minor >= 2, _ => minor == 3 };
    let by_name = |with_version: bool| qname.and_then(|w| model.iter().position(|m| m.0 == w && (!with_version || sat(m.1))));
    let want = by_url.or(by_name(true));
    let got = cat.find_compatible_extension(url, qname.map(|w| NAMES[w]), req.as_ref()).map(usize::from);
    wrt::ensure!(got == want, "lookup of {url} {qname:?} {qreq:?} gives {got:?} instead of {want:?} in {model:?}");
    if let Some(w) = qname {
        wrt::ensure!(cat.get_id_by_name(NAMES[w]).map(usize::from) == by_name(false), "get_id_by_name");
    }
    wrt::ensure!(cat.get_id_by_config_key("k1").map(usize::from) == model.iter().position(|m| m.3 == "k1"), "get_id_by_config_key");
    wrt::ensure!(cat.iter().len() == n && cat.iter_with_id().enumerate().all(|(i, (id, e))| usize::from(id) == i && e.config_key == model[i].3 && cat[id].config_key == e.config_key), "iteration");
    wrt::reach(match (by_url, want) { (Some(_), _) => 1, (_, Some(_)) => 2, _ => 3 });
}

wrt::checks! { c26_parse, c26_parse_bytes, c26_roundtrip, c26_compatible, c26_catalog }
