//! C39: configuration files are loaded as written.
use super::{option, pick};
use gateway_config::*;
use std::path::{Path, PathBuf};
use std::time::Duration;

fn read(text: &str) -> Result<Config, String> {
    toml::from_str::<Config>(text).map_err(|e| e.to_string())
}

fn letter(name: &str) -> u8 {
    let b = wrt::u8(name);
    wrt::assume(b.is_ascii_alphanumeric() || b == b'-' || b == b'/' || b == b'_');
    b
}

/// Every string of a file, wherever it stands, has its placeholders replaced; keys are kept.
pub fn c39_expand() {
    let dir = wrt::scratch();
    let file = format!("{dir}/grafbase.toml");
    let c = letter("char") as char;
    // a value of the environment is a value, not a piece of the file
    let v = wrt::u8("value");
    wrt::assume((0x20..0x7f).contains(&v));
    let value = format!("{}b", v as char);
    unsafe {
        std::env::set_var("A", &value);
        std::env::set_var("B", "{{ env.A }}");
        std::env::remove_var("NO");
    }
    let forms = ["X", "{{ env.A }}", "X{{env.A}}X", "{{ env.B }}X{{ env.A }}", "X {{ env.NO }}", "{{ other.A }}"];
    let f = pick("form", forms.len());
    let text = forms[f].replace('X', &c.to_string());
    let want = match f {
        0 => Some(c.to_string()),
        1 => Some(value.clone()),
        2 => Some(format!("{c}{value}{c}")),
        3 => Some(format!("{{{{ env.A }}}}{c}{value}")),
        _ => None,
    };
    let head = "[extensions.x]\nversion = \"1\"\n";
    let place = pick("place", 9);
    let (doc, at) = match place {
        0 => (format!("[graph]\npath = '{text}'\n"), "graph.path"),
        1 => (format!("{head}[extensions.x.config]\na.b.c = '{text}'\n"), "extensions.x.config.a.b.c"),
        2 => (format!("{head}[extensions.x.config]\na = ['k', '{text}']\n"), "extensions.x.config.a.[1]"),
        3 => (format!("{head}[extensions.x.config]\na = [1, [{{ b = '{text}' }}]]\n"), "extensions.x.config.a.[1][0]b"),
        4 => (format!("{head}[[extensions.x.config.a]]\nb = 'k'\n[[extensions.x.config.a]]\nb = '{text}'\n"), "extensions.x.config.a.[1]b"),
        5 => (format!("[graph.error_code_mapping]\n'{{{{ env.NO }}}}' = '{text}'\n"), "graph.error_code_mapping.{{ env.NO }}"),
        6 => (format!("[telemetry]\nservice_name = '''{text}'''\n"), "telemetry.service_name"),
        7 => (format!("[csrf]\nheader_name = '{text}'\n[graph]\npath = 'k'\n"), "csrf.header_name"),
        _ => (format!("[subgraphs.'a.b'.introspection_headers]\nk = '{text}'\n"), "subgraphs.a.b.introspection_headers.k"),
    };
    std::fs::write(&file, &doc).unwrap();
    let got = Config::load(&file);
    let Some(want) = want else {
        let Err(e) = got else { wrt::failed(&format!("loaded with a placeholder that cannot be replaced\n{doc}")) };
        wrt::ensure!(e.contains(at) && e.contains(if f == 4 { "NO" } else { "other.A" }), "the error does not name the place {at}: {e}");
        wrt::reach(2);
        return;
    };
    let c = match got {
        Ok(Some(c)) => c,
        Ok(None) => wrt::failed("no configuration"),
        Err(e) => wrt::failed(&format!("not loaded: {e}\n{doc}")),
    };
    let a = || c.extensions["x"].config().unwrap().clone();
    let s = |v: &toml::Value| v.as_str().unwrap().to_string();
    let got = match place {
        0 => c.graph.path.clone(),
        1 => s(&a()["a"]["b"]["c"]),
        2 => {
            wrt::ensure!(a()["a"][0].as_str() == Some("k"), "another element");
            s(&a()["a"][1])
        }
        3 => {
            wrt::ensure!(a()["a"][0].as_integer() == Some(1), "another element");
            s(&a()["a"][1][0]["b"])
        }
        4 => {
            wrt::ensure!(a()["a"][0]["b"].as_str() == Some("k"), "another element");
            s(&a()["a"][1]["b"])
        }
        5 => c.graph.error_code_mapping.get("{{ env.NO }}").unwrap_or_else(|| wrt::failed("a key was changed")).clone(),
        6 => c.telemetry.service_name.clone(),
        7 => {
            wrt::ensure!(c.graph.path == "k", "another value");
            c.csrf.header_name.clone()
        }
        _ => c.subgraphs["a.b"].introspection_headers.as_ref().unwrap()["k"].clone(),
    };
    wrt::ensure!(got == want, "{got:?} instead of {want:?}\n{doc}");
    wrt::observe("got", got.as_bytes());
    wrt::reach(1);
}

/// Relative paths are those next to the configuration file, absolute ones are kept.
pub fn c39_paths() {
    let dir = wrt::scratch();
    // (the native run has a relative scratch directory of its own)
    let relative = option("relative");
    let sub = option("sub");
    let base = if sub { format!("{dir}/s") } else { dir.clone() };
    if sub {
        std::fs::create_dir(&base).unwrap();
    }
    let file = format!("{base}/c.toml");
    let ch = letter("char");
    wrt::assume(ch != b'/');
    let path = |n: &str| match pick(n, 5) {
        0 => None,
        1 => Some(format!("{}x", ch as char)),
        2 => Some(format!("../y/{}", ch as char)),
        3 => Some(format!("/abs/{}", ch as char)),
        _ => Some("./z".to_string()),
    };
    let (schema, ext, cache) = (path("schema"), path("ext"), path("cache"));
    let mut text = String::new();
    if let Some(s) = &schema {
        text += &format!("[subgraphs.Z]\n[subgraphs.a]\nschema_path = '{s}'\n[subgraphs.b]\n");
    }
    if let Some(s) = &ext {
        text += &format!("[extensions]\nv = '1.2'\nb = '1'\n[extensions.d]\nversion = '1'\n[extensions.e]\npath = '{s}'\n");
    }
    if let Some(s) = &cache {
        text += &format!("[wasm]\ncache_path = '{s}'\n");
    }
    std::fs::write(&file, &text).unwrap();
    let got = if relative {
        // relative paths of the file itself start at the current directory
        std::env::set_current_dir(&dir).unwrap();
        Config::loader().with_current_dir(&dir).load(Some(if sub { "s/c.toml" } else { "c.toml" }))
    } else {
        Config::load(&file)
    };
    let c = match got {
        Ok(Some(c)) => c,
        Ok(None) => wrt::failed("no configuration"),
        Err(e) => wrt::failed(&format!("not loaded: {e}\n{text}")),
    };
    wrt::ensure!(c.path.as_deref() == Some(Path::new(&file)), "path of the configuration: {:?}", c.path);
    wrt::ensure!(c.parent_dir_path() == Some(Path::new(&base)), "directory of the configuration: {:?}", c.parent_dir_path());
    let want = |p: &Option<String>| p.as_ref().map(|p| if p.starts_with('/') { PathBuf::from(p) } else { Path::new(&base).join(p) });
    let got = c.subgraphs.get("a").and_then(|s| s.schema_path.clone());
    wrt::ensure!(got == want(&schema), "schema path {got:?} instead of {:?}", want(&schema));
    wrt::ensure!(c.subgraphs.get("b").is_none_or(|s| s.schema_path.is_none() && !s.has_schema_override()), "schema path of another subgraph");
    wrt::ensure!(c.subgraphs.get("a").is_none_or(|s| s.has_schema_override()), "schema override");
    let got = c.extensions.get("e").and_then(|e| e.path().map(|p| p.to_path_buf()));
    wrt::ensure!(got == want(&ext), "extension path {got:?} instead of {:?}", want(&ext));
    let got = c.wasm.as_ref().and_then(|w| w.cache_path.clone());
    wrt::ensure!(got == want(&cache), "cache path {got:?} instead of {:?}", want(&cache));
    wrt::reach(1);
}

/// A section without contents is the same as none, and a key the section does not have is an error.
const SECTIONS: [&str; 39] = [
    "graph", "graph.contracts", "graph.contracts.cache", "graph.error_code_mapping", "network", "gateway", "gateway.retry",
    "gateway.access_logs", "gateway.batching", "gateway.message_signatures", "gateway.message_signatures.headers", "csrf",
    "traffic_shaping", "telemetry", "telemetry.resource_attributes", "telemetry.exporters", "telemetry.tracing",
    "telemetry.tracing.collect", "telemetry.tracing.exporters", "telemetry.tracing.propagation", "trusted_documents",
    "authentication", "authentication.protected_resources", "authentication.protected_resources.graphql",
    "authentication.protected_resources.mcp", "subgraphs", "extensions", "health", "entity_caching", "entity_caching.redis",
    "complexity_control", "apq", "operation_caching", "websockets",
    // these are only there if written
    "cors", "operation_limits", "mcp", "wasm", "hooks",
];

pub fn c39_sections() {
    let k = pick("section", SECTIONS.len());
    let s = SECTIONS[k];
    let none = format!("{:?}", read("").unwrap());
    match pick("what", 3) {
        0 => match read(&format!("[{s}]\n")) {
            Ok(c) if k < 34 => {
                let got = format!("{c:?}");
                wrt::ensure!(got == none, "an empty section [{s}] is not the same as none: {}", differ(&none, &got));
                wrt::reach(1);
            }
            Ok(_) => {}
            Err(e) => wrt::failed(&format!("an empty section [{s}] is rejected: {e}")),
        },
        w => {
            // sections that are lists of names of their own take any key
            if ["graph.error_code_mapping", "telemetry.resource_attributes", "subgraphs", "extensions"].contains(&s) {
                return;
            }
            let ch = wrt::u8("char");
            wrt::assume(ch.is_ascii_lowercase());
            let key = format!("{}zq", ch as char);
            let value = if w == 1 { "1" } else { "{ a = 'b' }" };
            wrt::ensure!(read(&format!("[{s}]\n{key} = {value}\n")).is_err(), "the unknown key {key} in [{s}] is ignored");
            wrt::reach(2);
        }
    }
}

fn differ(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let k = (0..=k).rev().find(|k| a.is_char_boundary(*k) && b.is_char_boundary(*k)).unwrap_or(0);
    let from = k.saturating_sub(60);
    format!("{} / {}", &a[from..a.len().min(k + 40)], &b[from..b.len().min(k + 40)])
}

/// Unknown keys and missing ones in the sections of lists and maps.
pub fn c39_entries() {
    let entries: [(&str, &str, bool); 15] = [
        // head, contents, whether the contents are complete without more
        ("[subgraphs.a]", "", true),
        ("[subgraphs.a.retry]", "", true),
        ("[subgraphs.a.entity_caching]", "", true),
        ("[subgraphs.a.message_signatures]", "", true),
        ("[subgraphs.a.rate_limit]", "limit = 1\nduration = '1s'\n", true),
        ("[subgraphs.a.mtls]", "", true),
        ("[subgraphs.a.mtls.root]", "certificate = 'c'\n", true),
        ("[extensions.a]", "", true),
        ("[tls]", "certificate = 'c'\nkey = 'k'\n", true),
        ("[gateway.rate_limit]", "", true),
        ("[gateway.rate_limit.redis.tls]", "", true),
        ("[[headers]]", "rule = 'insert'\nname = 'n'\nvalue = 'v'\n", true),
        ("[[headers]]", "rule = 'remove'\nname = 'n'\n", true),
        ("[[headers]]", "rule = 'forward'\npattern = '^n$'\n", true),
        ("[[hooks.preopened_directories]]", "host_path = 'h'\nguest_path = 'g'\nread_permission = true\nwrite_permission = false\n", true),
    ];
    let (head, body, _) = entries[pick("entry", entries.len())];
    let text = format!("{head}\n{body}");
    match option("unknown") {
        false => {
            if let Err(e) = read(&text) {
                wrt::failed(&format!("rejected: {e}\n{text}"));
            }
            wrt::reach(1);
        }
        true => {
            let ch = wrt::u8("char");
            wrt::assume(ch.is_ascii_lowercase());
            let key = format!("{}zq", ch as char);
            wrt::ensure!(read(&format!("{text}{key} = 1\n")).is_err(), "the unknown key {key} in {head} is ignored");
            wrt::reach(2);
        }
    }
}

fn digits(name: &str, n: usize) -> (String, u64) {
    let mut s = String::new();
    let mut v = 0;
    for k in 0..n {
        let d = wrt::u8(&format!("{name}{k}"));
        wrt::assume(d.is_ascii_digit());
        s.push(d as char);
        v = v * 10 + (d - b'0') as u64;
    }
    (s, v)
}

const UNITS: [(&str, u64); 7] = [("ns", 1), ("us", 1_000), ("ms", 1_000_000), ("s", 1_000_000_000), ("m", 60_000_000_000), ("h", 3_600_000_000_000), ("d", 86_400_000_000_000)];

/// Durations are what is written; rate limits count whole seconds and may not be zero.
pub fn c39_durations() {
    let (text, value) = digits("digit", wrt::param(0) as usize);
    let (unit, ns) = UNITS[pick("unit", UNITS.len())];
    let places: [(&str, fn(&Config) -> Option<Duration>); 8] = [
        ("[gateway]\ntimeout", |c| Some(c.gateway.timeout)),
        ("[gateway]\nsubgraph_timeout", |c| c.gateway.subgraph_timeout),
        ("[gateway.retry]\nttl", |c| c.gateway.retry.ttl),
        ("[subgraphs.a]\ntimeout", |c| Some(c.subgraphs["a"].timeout)),
        ("[entity_caching]\nttl", |c| Some(c.entity_caching.ttl)),
        ("[cors]\nmax_age", |c| c.cors.as_ref().unwrap().max_age),
        ("[subgraphs.a.rate_limit]\nlimit = 3\nduration", |c| c.subgraphs["a"].rate_limit.map(|r| r.duration)),
        ("[gateway.rate_limit.global]\nlimit = 3\nduration", |c| c.gateway.rate_limit.as_ref().unwrap().global.map(|r| r.duration)),
    ];
    let p = pick("place", places.len());
    let text = format!("{} = \"{text}{unit}\"\n", places[p].0);
    match read(&text) {
        Ok(c) => {
            let got = (places[p].1)(&c);
            wrt::ensure!(got == Some(Duration::from_nanos(value * ns)), "{got:?} from {text}");
            wrt::ensure!(p < 6 || value > 0, "a rate limit of no time\n{text}");
            wrt::reach(1);
        }
        Err(e) => {
            wrt::ensure!(p >= 6 && value * ns < 1_000_000_000, "rejected: {e}\n{text}");
            wrt::reach(2);
        }
    }
}

/// Sizes, fractions and levels.
pub fn c39_values() {
    match pick("what", 8) {
        0 => {
            let (text, value) = digits("digit", wrt::param(0) as usize);
            let negative = option("negative");
            let units: [(&str, i64); 8] = [("", 1), ("B", 1), ("kB", 1000), ("KiB", 1024), ("MB", 1_000_000), ("MiB", 1 << 20), ("GB", 1_000_000_000), ("GiB", 1 << 30)];
            let (unit, by) = units[pick("unit", units.len())];
            let key = ["request_body_limit", "executable_document_limit"][pick("key", 2)];
            // a TOML number has no leading zeros
            wrt::assume(!unit.is_empty() || text.len() == 1 || !text.starts_with('0'));
            let sign = if negative { "-" } else { "" };
            let doc = if unit.is_empty() { format!("{key} = {sign}{text}\n") } else { format!("{key} = \"{sign}{text} {unit}\"\n") };
            let want = value as i64 * by;
            match read(&doc) {
                Ok(c) => {
                    let got = if key == "request_body_limit" { c.request_body_limit } else { c.executable_document_limit };
                    wrt::ensure!(got.bytes() == want && (!negative || want == 0), "{got:?} from {doc}");
                    wrt::reach(1);
                }
                Err(e) => {
                    wrt::ensure!(negative && want != 0, "rejected: {e}\n{doc}");
                    wrt::reach(2);
                }
            }
        }
        1 => {
            let (int, iv) = digits("int", 1);
            let (frac, fv) = digits("frac", 2);
            let negative = option("negative");
            let doc = format!("[telemetry.tracing]\nsampling = {}{int}.{frac}\n", if negative { "-" } else { "" });
            let inside = (iv == 0 || iv == 1 && fv == 0) && (!negative || iv == 0 && fv == 0);
            match read(&doc) {
                Ok(c) => {
                    wrt::ensure!(inside, "sampling out of range accepted\n{doc}");
                    let got = (c.telemetry.tracing.sampling * 100.0).round() as u64;
                    wrt::ensure!(got == iv * 100 + fv, "sampling {got} % from {doc}");
                    wrt::reach(1);
                }
                Err(e) => {
                    wrt::ensure!(!inside, "rejected: {e}\n{doc}");
                    wrt::reach(2);
                }
            }
        }
        2 => {
            // log levels in any case
            let levels = [("off", LogLevel::Off), ("debug", LogLevel::Debug), ("info", LogLevel::Info), ("warn", LogLevel::Warn), ("error", LogLevel::Error)];
            let (name, level) = levels[pick("level", 5)];
            let mut s = name.to_string().into_bytes();
            for (k, b) in s.iter_mut().enumerate() {
                let x = wrt::u8(&format!("byte{k}"));
                wrt::assume(x | 0x20 == *b || x == b'x');
                *b = x;
            }
            let s = String::from_utf8(s).unwrap();
            let key = ["document_id_unknown_log_level", "document_id_and_query_mismatch_log_level", "inline_document_unknown_log_level"][pick("key", 3)];
            let doc = format!("[trusted_documents]\n{key} = '{s}'\n");
            let ok = s.eq_ignore_ascii_case(name);
            match read(&doc) {
                Ok(c) => {
                    let t = &c.trusted_documents;
                    let all = [t.document_id_unknown_log_level, t.document_id_and_query_mismatch_log_level, t.inline_document_unknown_log_level];
                    let k = ["document_id_unknown_log_level", "document_id_and_query_mismatch_log_level", "inline_document_unknown_log_level"].iter().position(|x| *x == key).unwrap();
                    wrt::ensure!(ok && (0..3).all(|i| all[i] == if i == k { level } else { LogLevel::Info }), "{all:?} from {doc}");
                    wrt::reach(1);
                }
                Err(e) => {
                    wrt::ensure!(!ok, "rejected: {e}\n{doc}");
                    wrt::reach(2);
                }
            }
        }
        3 => {
            const METHODS: [&str; 9] = ["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE"];
            if option("methods") {
                // each method by itself, and among others
                let m = METHODS[pick("method", METHODS.len())];
                let among = pick("among", 3);
                let n = METHODS[if among == 0 { 0 } else { pick("other", METHODS.len()) }];
                let (text, want) = match among {
                    0 => (format!("'{m}'"), vec![m]),
                    1 => (format!("['{m}']"), vec![m]),
                    _ => (format!("['{n}', '{m}']"), vec![n, m]),
                };
                let c = match read(&format!("[cors]\nallow_methods = {text}\n")) {
                    Ok(c) => c.cors.unwrap(),
                    Err(e) => wrt::failed(&format!("allow_methods = {text} rejected: {e}")),
                };
                let Some(AnyOrArray::Explicit(got)) = c.allow_methods else { wrt::failed("no methods") };
                let names: Vec<String> = got.iter().map(|m| http::Method::from(*m).to_string()).collect();
                wrt::ensure!(names == want, "{names:?} from {text}");
                wrt::ensure!(got.iter().all(|m| gateway_config::HttpMethod::from(http::Method::from(*m)) == *m), "the method is another one after http: {text}");
                wrt::reach(1);
                return;
            }
            let forms: [(&str, Option<AnyOrArray<&str>>); 9] = [
                ("'*'", Some(AnyOrArray::Any)),
                ("'any'", Some(AnyOrArray::Any)),
                ("'POST'", Some(AnyOrArray::Explicit(vec!["POST"]))),
                ("['GET', 'TRACE']", Some(AnyOrArray::Explicit(vec!["GET", "TRACE"]))),
                ("[]", Some(AnyOrArray::Explicit(vec![]))),
                ("['*']", None),
                ("'post'", None),
                ("['GET', 'NOPE']", None),
                ("7", None),
            ];
            let (text, want) = forms[pick("form", forms.len())].clone();
            let got = read(&format!("[cors]\nallow_methods = {text}\n"));
            match (got, want) {
                (Err(_), None) => wrt::reach(2),
                (Ok(c), Some(w)) => {
                    let got = c.cors.unwrap().allow_methods.unwrap();
                    let got = match got {
                        AnyOrArray::Any => AnyOrArray::Any,
                        AnyOrArray::Explicit(v) => AnyOrArray::Explicit(v.into_iter().map(|m| http::Method::from(m).to_string()).collect()),
                    };
                    let w = match w {
                        AnyOrArray::Any => AnyOrArray::Any,
                        AnyOrArray::Explicit(v) => AnyOrArray::Explicit(v.into_iter().map(String::from).collect()),
                    };
                    wrt::ensure!(got == w, "{got:?} from {text}");
                    wrt::reach(1);
                }
                (g, w) => wrt::failed(&format!("allow_methods = {text}: read {}, wanted {}", g.is_ok(), w.is_some())),
            }
        }
        4 => {
            let (file, inline, id) = (option("file"), option("inline"), option("id"));
            let mut doc = "[gateway.message_signatures.key]\n".to_string();
            for (b, k) in [(file, "file"), (inline, "inline"), (id, "id")] {
                if b {
                    doc += &format!("{k} = '{k}1'\n");
                }
            }
            let got = read(&doc).map(|c| c.gateway.message_signatures.key);
            let i = id.then(|| "id1".to_string());
            let want = match (file, inline) {
                (true, false) => Some(message_signatures::MessageSigningKey::File { name: "file1".into(), id: i }),
                (false, true) => Some(message_signatures::MessageSigningKey::Inline { contents: "inline1".into(), id: i }),
                _ => None,
            };
            wrt::ensure!(got.ok().flatten() == want, "{doc}");
            wrt::reach(1 + want.is_none() as u32);
        }
        5 => {
            // the algorithms are shown by the names they are configured with
            let names = ["hmac-sha256", "ed25519", "ecdsa-p256-sha256", "ecdsa-p384-sha384"];
            let n = names[pick("algorithm", 4)];
            let c = read(&format!("[gateway.message_signatures]\nalgorithm = '{n}'\n"));
            let got = c.unwrap().gateway.message_signatures.algorithm.unwrap().to_string();
            wrt::ensure!(got == n, "the algorithm {n} is shown as {got}");
        }
        6 => {
            let (v, value) = digits("digit", 1);
            let (structured, flags) = (option("structured"), pick("flags", 3));
            let keys = ["networking", "stdout", "stderr", "environment_variables"];
            let k = pick("key", 4);
            let doc = if structured {
                let f = ["", "true", "false"][flags];
                let f = if f.is_empty() { String::new() } else { format!("{} = {f}\n", keys[k]) };
                format!("[extensions.e]\nversion = '{v}.1'\nmax_pool_size = {v}\n{f}")
            } else {
                format!("[extensions]\ne = '{v}.1'\n")
            };
            let c = match read(&doc) {
                Ok(c) => c,
                Err(e) => wrt::failed(&format!("rejected: {e}\n{doc}")),
            };
            let e = &c.extensions["e"];
            wrt::ensure!(e.version().to_string() == format!("^{v}.1"), "version {} from {doc}", e.version());
            let got = [e.networking(), e.stdout(), e.stderr(), e.environment_variables()];
            for i in 0..4 {
                let want = if structured && i == k { [None, Some(true), Some(false)][flags] } else { None };
                wrt::ensure!(got[i] == want, "{} is {:?}\n{doc}", keys[i], got[i]);
            }
            wrt::ensure!(e.max_pool_size() == structured.then_some(value as usize), "pool size\n{doc}");
            wrt::ensure!(e.path().is_none() && e.config().is_none(), "path or configuration\n{doc}");
        }
        _ => {
            // header rules: a name or a pattern, of any case
            let pattern = option("pattern");
            let rule = ["forward", "remove"][pick("rule", 2)];
            let both = option("both");
            let mut doc = format!("[[headers]]\nrule = '{rule}'\n{} = '{}'\n", if pattern { "pattern" } else { "name" }, if pattern { "^ab$" } else { "ab" });
            if both {
                doc += if pattern { "name = 'c'\n" } else { "pattern = 'c'\n" };
            }
            match read(&doc) {
                Ok(c) => {
                    wrt::ensure!(!both, "a rule with a name and a pattern is accepted\n{doc}");
                    let n = match &c.headers[0] {
                        HeaderRule::Forward(f) if rule == "forward" => {
                            wrt::ensure!(f.default.is_none() && f.rename.is_none(), "{doc}");
                            &f.name
                        }
                        HeaderRule::Remove(r) if rule == "remove" => &r.name,
                        _ => wrt::failed("another rule"),
                    };
                    match n {
                        NameOrPattern::Name(n) => wrt::ensure!(!pattern && n == "ab", "{doc}"),
                        NameOrPattern::Pattern(p) => wrt::ensure!(pattern && p.0.is_match("aB") && !p.0.is_match("abc"), "{doc}"),
                    }
                }
                Err(e) => wrt::ensure!(both, "rejected: {e}\n{doc}"),
            }
        }
    }
}
