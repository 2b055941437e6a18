//! C31 (telemetry layering), C39 (configuration loading).
mod load;
use load::*;
use gateway_config::telemetry::exporters::*;
use gateway_config::telemetry::*;

use std::time::Duration;
use url::Url;

fn pick(name: &str, n: usize) -> usize {
    wrt::pin(wrt::choose(name, n as u8) as u64) as usize
}

fn option(name: &str) -> bool {
    pick(name, 2) == 1
}

fn enabled(name: &str) -> Option<bool> {
    match pick(name, 3) {
        0 => None,
        x => Some(x == 2),
    }
}

fn batch(n: &str) -> BatchExportConfig {
    BatchExportConfig {
        scheduled_delay: Duration::from_secs(wrt::u64(&format!("{n}.delay"))),
        max_queue_size: wrt::u32(&format!("{n}.queue")) as usize,
        max_export_batch_size: wrt::u32(&format!("{n}.size")) as usize,
        max_concurrent_exports: wrt::u32(&format!("{n}.exports")) as usize,
    }
}

fn headers(n: &str) -> Headers {
    Headers::from(vec![(ascii::AsciiString::from_ascii("h").unwrap(), ascii::AsciiString::from_ascii(n).unwrap())])
}

const ASPECTS: [&str; 6] = ["enabled", "timeout", "batch", "protocol", "endpoint", "stdout"];

/// An exporter section: the chosen aspect varies freely, the rest is all absent or all present.
fn otlp(n: &str, aspect: &str, rest: bool) -> OtlpExporterConfig {
    let there = |a: &str, name: &str| if aspect == a { option(&format!("{n}.{name}")) } else { rest };
    OtlpExporterConfig {
        enabled: if aspect == "enabled" { enabled(&format!("{n}.enabled")) } else if n == "global" && !rest { Some(true) } else { rest.then_some(true) },
        endpoint: there("endpoint", "endpoint").then(|| Url::parse(&format!("http://{n}:1")).unwrap()),
        batch_export: there("batch", "batch").then(|| batch(n)),
        protocol: if aspect == "protocol" {
            [None, Some(OtlpExporterProtocol::Grpc), Some(OtlpExporterProtocol::Http)][pick(&format!("{n}.protocol"), 3)]
        } else {
            rest.then_some(OtlpExporterProtocol::Http)
        },
        grpc: there("protocol", "grpc").then(|| OtlpExporterGrpcConfig {
            tls: there("protocol", "tls").then(|| OtlpExporterTlsConfig { domain_name: Some(n.to_string()), ..Default::default() }),
            headers: headers(n),
        }),
        http: there("protocol", "http").then(|| OtlpExporterHttpConfig { headers: headers(n) }),
        timeout: there("timeout", "timeout").then(|| {
            let nanos = wrt::u32(&format!("{n}.nanos"));
            wrt::assume(nanos < 1_000_000_000);
            Duration::new(wrt::u64(&format!("{n}.secs")), nanos)
        }),
    }
}

fn stdout(n: &str, e: Option<bool>) -> Option<StdoutExporterConfig> {
    e.map(|enabled| StdoutExporterConfig { enabled, batch_export: None, timeout: Duration::from_secs(wrt::u64(&format!("{n}.stdout"))) })
}

fn exporters(o: Option<OtlpExporterConfig>, s: Option<StdoutExporterConfig>) -> OpenTelemetryExportersConfig {
    OpenTelemetryExportersConfig { stdout: s, otlp: o }
}

fn set(c: &mut TelemetryConfig, section: usize, e: OpenTelemetryExportersConfig) {
    match section {
        0 => c.logs = Some(LogsConfig { exporters: e }),
        1 => c.tracing.exporters = e,
        _ => c.metrics = Some(MetricsConfig { exporters: e }),
    }
}

fn get(c: &TelemetryConfig, section: usize) -> Option<LayeredOtlExporterConfig> {
    match section {
        0 => c.logs_otlp_config(),
        1 => c.tracing_otlp_config(),
        _ => c.metrics_otlp_config(),
    }
}

fn get_stdout(c: &TelemetryConfig, section: usize) -> Option<&StdoutExporterConfig> {
    match section {
        0 => c.logs_stdout_config(),
        1 => c.tracing_stdout_config(),
        _ => c.metrics_stdout_config(),
    }
}

/// The effective settings of one section, field by field; the other sections hold something else.
pub fn c31_layers() {
    let section = pick("section", 3);
    let aspect = ASPECTS[pick("aspect", 5)];
    let (rg, rl) = (option("global.rest"), option("local.rest"));
    let global = option("global").then(|| otlp("global", aspect, rg));
    let local = option("local").then(|| otlp("local", aspect, rl));
    let other = OtlpExporterConfig { enabled: Some(option("other")), timeout: Some(Duration::from_secs(1)), protocol: Some(OtlpExporterProtocol::Http), ..Default::default() };
    let mut c = TelemetryConfig::default();
    c.exporters.otlp = global.clone();
    for s in 0..3 {
        if s != section {
            set(&mut c, s, exporters(Some(other.clone()), None));
        } else if local.is_some() || option("section.there") {
            set(&mut c, s, exporters(local.clone(), None));
        }
    }
    let (g, l) = (global.unwrap_or_default(), local.unwrap_or_default());
    let on = l.enabled.or(g.enabled) == Some(true);
    let got = get(&c, section);
    wrt::ensure!(got.is_some() == on, "{aspect}: exporter active: {}, enabled in the section: {:?}, globally: {:?}", got.is_some(), l.enabled, g.enabled);
    let Some(got) = got else {
        wrt::reach(2);
        return;
    };
    wrt::reach(1);
    wrt::ensure!(got.timeout() == l.timeout.or(g.timeout).unwrap_or(Duration::from_secs(60)), "timeout");
    wrt::ensure!(got.batch_export() == l.batch_export.or(g.batch_export).unwrap_or_default(), "batch export");
    let (gp, gl) = (&got.global.endpoint, &got.local.endpoint);
    wrt::ensure!(gl.as_ref().or(gp.as_ref()) == l.endpoint.as_ref().or(g.endpoint.as_ref()), "endpoint");
    match (got.protocol(), l.protocol.or(g.protocol).unwrap_or_default()) {
        (OtlpExporterProtocolConfig::Grpc(x), OtlpExporterProtocol::Grpc) => {
            wrt::ensure!(x == l.grpc.or(g.grpc).unwrap_or_default(), "grpc settings");
            wrt::reach(3);
        }
        (OtlpExporterProtocolConfig::Http(x), OtlpExporterProtocol::Http) => {
            wrt::ensure!(x == l.http.or(g.http).unwrap_or_default(), "http settings");
            wrt::reach(4);
        }
        _ => wrt::failed("another protocol than the one set"),
    }
}

/// Which exporters are active, for all sections at once.
pub fn c31_active() {
    let kind = option("stdout");
    let mut c = TelemetryConfig::default();
    let e = |n: &str| OtlpExporterConfig { enabled: enabled(n), ..Default::default() };
    let names = ["logs", "tracing", "metrics"];
    let mut locals = vec![];
    let g = if option("global") { Some(enabled("global.enabled")) } else { None };
    if kind {
        c.exporters.stdout = stdout("global", g.flatten());
    } else if let Some(g) = g {
        c.exporters.otlp = Some(OtlpExporterConfig { enabled: g, ..Default::default() });
    }
    for (s, n) in names.iter().enumerate() {
        let there = option(n);
        if !there {
            locals.push(None);
            continue;
        }
        if kind {
            let x = enabled(&format!("{n}.enabled"));
            locals.push(x);
            set(&mut c, s, exporters(None, stdout(n, x)));
        } else {
            let x = e(&format!("{n}.enabled"));
            locals.push(x.enabled);
            set(&mut c, s, exporters(Some(x), None));
        }
    }
    let grafbase = if kind { None } else { option("grafbase").then(|| e("grafbase.enabled")) };
    c.grafbase = grafbase.clone();
    let mut on = [false; 3];
    for s in 0..3 {
        on[s] = locals[s].or(g.flatten()) == Some(true);
        if kind {
            let want = if locals[s].is_some() {
                match s {
                    0 => c.logs.as_ref().and_then(|x| x.exporters.stdout.as_ref()),
                    1 => c.tracing.exporters.stdout.as_ref(),
                    _ => c.metrics.as_ref().and_then(|x| x.exporters.stdout.as_ref()),
                }
            } else {
                c.exporters.stdout.as_ref()
            };
            wrt::ensure!(get_stdout(&c, s) == want.filter(|w| w.enabled), "stdout of {}", names[s]);
            wrt::ensure!(get_stdout(&c, s).is_some() == on[s], "stdout of {} active", names[s]);
            wrt::ensure!(get(&c, s).is_none(), "otlp of {} active", names[s]);
        } else {
            wrt::ensure!(get(&c, s).is_some() == on[s], "otlp of {} active: {}", names[s], get(&c, s).is_some());
            wrt::ensure!(get_stdout(&c, s).is_none(), "stdout of {} active", names[s]);
        }
    }
    let gb = grafbase.is_some_and(|x| x.enabled != Some(false));
    wrt::ensure!(c.grafbase_otlp_config().is_some() == gb, "grafbase exporter");
    wrt::ensure!(c.tracing_exporters_enabled() == (on[1] || gb), "tracing exporters enabled");
    wrt::ensure!(c.logs_exporters_enabled() == on[0], "logs exporters enabled");
    wrt::reach(1 + on[1] as u32);
}

/// The same from the text of a configuration.
pub fn c31_toml() {
    let section = ["logs", "tracing", "metrics"][pick("section", 3)];
    let kind = ["stdout", "otlp"][pick("kind", 2)];
    let value = |n: &str| match pick(n, 3) {
        0 => None,
        x => Some(x == 2),
    };
    let there = |n: &str| option(n);
    let (g, l) = (there("global"), there("local"));
    let (gv, lv) = (g.then(|| value("global.enabled")).flatten(), l.then(|| value("local.enabled")).flatten());
    let (gt, lt) = (g && there("global.timeout"), l && there("local.timeout"));
    let digit = |n: &str| {
        let d = wrt::u8(n);
        wrt::assume(d.is_ascii_digit());
        d
    };
    let (a, b) = (digit("global.digit"), digit("local.digit"));
    let table = |head: &str, v: Option<bool>, t: bool, d: u8| {
        let mut s = format!("[{head}exporters.{kind}]\n");
        if let Some(v) = v {
            s += &format!("enabled = {v}\n");
        }
        if t {
            s += &format!("timeout = \"1{}s\"\n", d as char);
        }
        s
    };
    let mut text = String::new();
    if g {
        text += &table("", gv, gt, a);
    }
    if l {
        text += &table(&format!("{section}."), lv, lt, b);
    }
    let c: TelemetryConfig = match toml::from_str(&text) {
        Ok(c) => c,
        Err(e) => wrt::failed(&format!("not read: {e}\n{text}")),
    };
    let secs = |d: u8| Duration::from_secs(10 + (d - b'0') as u64);
    for (s, n) in ["logs", "tracing", "metrics"].iter().enumerate() {
        let l = l && *n == section;
        if kind == "otlp" {
            let on = if l { lv.or(gv) } else { gv } == Some(true);
            let got = get(&c, s);
            wrt::ensure!(got.is_some() == on, "otlp of {n} active: {}\n{text}", got.is_some());
            if let Some(got) = got {
                let want = if l && lt { secs(b) } else if gt { secs(a) } else { Duration::from_secs(60) };
                wrt::ensure!(got.timeout() == want, "timeout of {n}\n{text}");
                wrt::reach(1);
            }
        } else {
            // stdout is enabled unless it says otherwise, and taken from one place as a whole
            let (on, t) = if l { (lv.unwrap_or(true), lt.then(|| secs(b))) } else { (g && gv.unwrap_or(true), gt.then(|| secs(a))) };
            let got = get_stdout(&c, s);
            wrt::ensure!(got.is_some() == on, "stdout of {n} active: {}\n{text}", got.is_some());
            if let Some(got) = got {
                wrt::ensure!(got.timeout == t.unwrap_or(Duration::from_secs(60)), "timeout of {n}\n{text}");
                wrt::reach(2);
            }
        }
    }
}

/// TLS settings of an exporter: exactly the files named are read.
pub fn c31_tls() {
    let d = wrt::scratch();
    let file = |n: &str, text: &[u8]| {
        let p = format!("{d}/{n}");
        match pick(n, 3) {
            0 => (None, None),
            1 => {
                std::fs::write(&p, text).unwrap();
                (Some(p.into()), Some(Ok(text.to_vec())))
            }
            _ => (Some(p.into()), Some(Err(()))),
        }
    };
    let bytes: [u8; 2] = wrt::bytes("pem");
    let (ca, ca_text) = file("ca", &bytes);
    let (cert, cert_text) = file("cert", b"cert");
    let (key, key_text) = file("key", b"key");
    let domain = option("domain").then(|| "d".to_string());
    let c = OtlpExporterTlsConfig { domain_name: domain.clone(), key, cert, ca };
    let got = tonic::transport::ClientTlsConfig::try_from(c);
    let needed = [ca_text.clone(), cert_text.clone(), if cert_text.is_some() { key_text.clone() } else { None }];
    let missing = needed.iter().any(|x| matches!(x, Some(Err(()))));
    wrt::ensure!(got.is_err() == missing, "tls settings read: {}, file missing: {missing}", got.is_ok());
    if let Ok(got) = got {
        wrt::reach(1);
        wrt::ensure!(got.domain == domain, "domain");
        wrt::ensure!(got.ca.map(|c| c.pem) == ca_text.map(|x| x.unwrap()), "ca certificate");
        let id = got.identity.map(|i| (i.cert, i.key));
        wrt::ensure!(id == cert_text.map(|x| (x.unwrap(), key_text.map(|k| k.unwrap()).unwrap_or_default())), "identity");
    } else {
        wrt::reach(2);
    }
}

/// Settings of their own, from the text of a configuration: what is there counts, the documented default otherwise.
pub fn c31_settings() {
    let digit = |n: &str| {
        let d = wrt::u8(n);
        wrt::assume(d.is_ascii_digit());
        d
    };
    let flag = |n: &str| match pick(n, 3) {
        0 => None,
        x => Some(x == 2),
    };
    let line = |k: &str, v: Option<bool>| v.map(|v| format!("{k} = {v}\n")).unwrap_or_default();
    let read = |text: &str| toml::from_str::<TelemetryConfig>(text);
    match pick("what", 6) {
        0 => {
            let (t, v) = [("0.0", 0.0), ("1.0", 1.0), ("0.25", 0.25), ("0.999", 0.999), ("-0.0", 0.0), ("-0.1", -0.1), ("1.01", 1.01), ("2.0", 2.0), ("inf", f64::INFINITY), ("-inf", -1.0), ("nan", f64::NAN), ("", 0.15)][pick("sampling", 12)];
            let text = if t.is_empty() { "[tracing]\n".to_string() } else { format!("[tracing]\nsampling = {t}\n") };
            match read(&text) {
                Ok(c) => {
                    wrt::ensure!((0.0..=1.0).contains(&v), "a sampling rate of {t} is accepted");
                    wrt::ensure!(c.tracing.sampling == v, "a sampling rate of {t} is {}", c.tracing.sampling);
                    wrt::reach(1);
                }
                Err(e) => {
                    wrt::ensure!(!(0.0..=1.0).contains(&v), "a sampling rate of {t} is rejected: {e}");
                    wrt::reach(2);
                }
            }
        }
        1 => {
            let names = ["max_events_per_span", "max_attributes_per_span", "max_links_per_span", "max_attributes_per_event", "max_attributes_per_link"];
            let mut text = "[tracing.collect]\n".to_string();
            let mut want = [128usize; 5];
            for (k, n) in names.iter().enumerate() {
                if option(n) {
                    let d = digit(&format!("{n}.digit"));
                    text += &format!("{n} = 3{}\n", d as char);
                    want[k] = 30 + (d - b'0') as usize;
                }
            }
            let Ok(c) = read(&text) else { wrt::failed(&format!("not read\n{text}")) };
            let c = &c.tracing.collect;
            let got = [c.max_events_per_span, c.max_attributes_per_span, c.max_links_per_span, c.max_attributes_per_event, c.max_attributes_per_link];
            wrt::ensure!(got == want, "{got:?} instead of {want:?}\n{text}");
            wrt::reach(1);
        }
        2 => {
            let f = [flag("sampler"), flag("trace_context"), flag("baggage"), flag("aws_xray")];
            let text = format!("[tracing]\n{}[tracing.propagation]\n{}{}{}", line("parent_based_sampler", f[0]), line("trace_context", f[1]), line("baggage", f[2]), line("aws_xray", f[3]));
            let Ok(c) = read(&text) else { wrt::failed(&format!("not read\n{text}")) };
            let p = &c.tracing.propagation;
            let got = [c.tracing.parent_based_sampler, p.trace_context, p.baggage, p.aws_xray];
            let want = f.map(|f| f == Some(true));
            wrt::ensure!(got == want, "{got:?} instead of {want:?}\n{text}");
            wrt::reach(1);
        }
        3 => {
            let section = ["", "logs.", "tracing.", "metrics."][pick("section", 4)];
            let protocol = ["grpc", "http"][pick("protocol", 2)];
            let n = pick("headers", 4);
            let mut text = format!("[{section}exporters.otlp]\nenabled = true\nprotocol = \"{protocol}\"\n[{section}exporters.otlp.{protocol}.headers]\n");
            let mut want = vec![];
            for k in 0..n {
                // two headers may have the same value
                let d = digit(&format!("value{k}"));
                text += &format!("\"x-{k}\" = \"v{}\"\n", d as char);
                want.push((format!("x-{k}"), format!("v{}", d as char)));
            }
            let Ok(c) = read(&text) else { wrt::failed(&format!("not read\n{text}")) };
            for (s, name) in ["logs.", "tracing.", "metrics."].iter().enumerate() {
                if !section.is_empty() && *name != section {
                    continue;
                }
                let Some(got) = get(&c, s) else { wrt::failed(&format!("no exporter for {name}")) };
                let got = match got.protocol() {
                    OtlpExporterProtocolConfig::Grpc(g) => {
                        wrt::ensure!(protocol == "grpc", "the protocol is grpc\n{text}");
                        g.headers
                    }
                    OtlpExporterProtocolConfig::Http(h) => {
                        wrt::ensure!(protocol == "http", "the protocol is http\n{text}");
                        h.headers
                    }
                };
                let got: Vec<(String, String)> = got.into_inner().into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                wrt::ensure!(got == want, "headers for {name} {got:?} instead of {want:?}\n{text}");
            }
            wrt::reach(1);
        }
        4 => {
            let f = [flag("trace_id"), flag("query_plan")];
            let access = pick("access", 4);
            let rules = match access {
                0 => "",
                1 => "access_control = []\n",
                2 => "access_control = [{ rule = \"deny\" }]\n",
                _ => "access_control = [{ rule = \"header\", name = \"x-a\", value = \"v\" }, { rule = \"header\", name = \"x-b\" }]\n",
            };
            let text = format!("[exporters.response_extension]\n{}{}{rules}", line("trace_id", f[0]), line("query_plan", f[1]));
            let Ok(c) = read(&text) else { wrt::failed(&format!("not read\n{text}")) };
            let Some(r) = c.exporters.response_extension else { wrt::failed("no response extension") };
            let want = f.map(|f| f != Some(false));
            wrt::ensure!([r.trace_id, r.query_plan] == want, "{:?} instead of {want:?}\n{text}", [r.trace_id, r.query_plan]);
            let header = |n: &str, v: Option<&str>| format!("{n}={v:?}");
            let got: Vec<String> = r
                .access_control
                .iter()
                .map(|a| match a {
                    AccessControl::Header(h) => header(h.name.as_str(), h.value.as_ref().map(|v| v.as_str())),
                    AccessControl::Deny => "deny".to_string(),
                })
                .collect();
            let want = match access {
                0 => vec![header("x-grafbase-telemetry", None)],
                1 => vec![],
                2 => vec!["deny".to_string()],
                _ => vec![header("x-a", Some("v")), header("x-b", None)],
            };
            wrt::ensure!(got == want, "access rules {got:?} instead of {want:?}\n{text}");
            wrt::reach(1);
        }
        _ => {
            // every part of the batch settings
            let names = ["max_queue_size", "max_export_batch_size", "max_concurrent_exports"];
            let kind = ["stdout", "otlp"][pick("kind", 2)];
            let mut text = format!("[exporters.{kind}]\nenabled = true\n[exporters.{kind}.batch_export]\n");
            let mut want = (5u64, [2048usize, 512, 1]);
            if option("scheduled_delay") {
                let d = digit("delay.digit");
                text += &format!("scheduled_delay = \"1{}s\"\n", d as char);
                want.0 = 10 + (d - b'0') as u64;
            }
            for (k, n) in names.iter().enumerate() {
                if option(n) {
                    let d = digit(&format!("{n}.digit"));
                    text += &format!("{n} = 3{}\n", d as char);
                    want.1[k] = 30 + (d - b'0') as usize;
                }
            }
            let Ok(c) = read(&text) else { wrt::failed(&format!("not read\n{text}")) };
            let b = if kind == "otlp" { get(&c, 0).map(|o| o.batch_export()) } else { get_stdout(&c, 0).map(|s| s.batch_export.unwrap_or_default()) };
            let Some(b) = b else { wrt::failed("no exporter") };
            let got = (b.scheduled_delay.as_secs(), [b.max_queue_size, b.max_export_batch_size, b.max_concurrent_exports]);
            wrt::ensure!(got == want, "{got:?} instead of {want:?}\n{text}");
            wrt::reach(1);
        }
    }
}

wrt::checks! { c31_layers, c31_active, c31_toml, c31_tls, c31_settings, c39_expand, c39_paths, c39_sections, c39_entries, c39_durations, c39_values }
