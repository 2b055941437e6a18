"""Shared driver: builds the harnesses from /repo's current tree, runs the symbolic executor,
replays counterexamples natively, writes evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time, pathlib, fcntl

V = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
B = pathlib.Path(os.environ.get("VERIF_BUILD", str(V / "build")))
TOOLCHAIN = "1.90.0"
SKIP_DIRS = {"target", "node_modules", ".git"}


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(
        RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", RUSTUP_AUTO_INSTALL="0", RUSTC_WRAPPER="",
        CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", HOME="/root",
        PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"),
    )
    e.pop("CARGO_TARGET_DIR", None)
    return e


def sync_tree(src, dst, override={}):
    """Copy by content, so that modification times never hide a change from cargo. Files in override get its text instead."""
    seen = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in SKIP_DIRS]
        rel = os.path.relpath(root, src)
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p) and not os.path.isfile(p):
                continue
            q = os.path.normpath(os.path.join(dst, rel, f))
            seen.add(q)
            try:
                data = override[rel + "/" + f].encode() if rel + "/" + f in override else open(p, "rb").read()
            except OSError:
                continue
            try:
                old = open(q, "rb").read()
            except OSError:
                old = None
            if f == "Cargo.toml" and override:
                # what only tests need is not available for all crates
                data = re.sub(rb"(?ms)^\[dev-dependencies[^\n]*\n.*?(?=^\[|\Z)", b"", data)
            if old != data:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "wb") as h:
                    h.write(data)
    for root, dirs, files in os.walk(dst):
        for f in files:
            q = os.path.normpath(os.path.join(root, f))
            if q not in seen:
                os.unlink(q)


def write_if_changed(path, text):
    path = pathlib.Path(path)
    if not path.exists() or path.read_text() != text:
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(text)


STUB_HACK = """[package]
name = "grafbase-workspace-hack"
version = "0.1.0"
edition = "2021"

# the features it unifies that some crates rely on
[dependencies]
serde = { workspace = true, features = ["derive", "rc"] }
url = { workspace = true, features = ["serde"] }
semver = { workspace = true, features = ["serde"] }
strum = { workspace = true, features = ["derive"] }
"""


# crates/telemetry drags in TLS and gRPC, which do not compile to wasm32; what the checked crates need
# of it (its real source file) is compiled in a crate of the same name
SLIM_TELEMETRY = """[package]
name = "grafbase-telemetry"
version = "0.1.0"
edition = "2024"

[dependencies]
serde.workspace = true
strum.workspace = true
itertools.workspace = true
http.workspace = true
thiserror.workspace = true
"""
SLIM_TELEMETRY_LIB = """#[path = "../../../crates/telemetry/src/graphql.rs"]
pub mod graphql;
"""


# crates/gateway-config names tonic's TLS types in one conversion; tonic does not compile to wasm32.
# The stand-in records what it is given.
STUB_TONIC = """[package]
name = "tonic"
version = "0.13.0"
edition = "2021"

[features]
transport = []
tls-ring = []
tls-native-roots = []
tls-webpki-roots = []
gzip = []
channel = []
"""
STUB_TONIC_LIB = """pub mod transport {
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct ClientTlsConfig { pub domain: Option<String>, pub ca: Option<Certificate>, pub identity: Option<Identity> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Certificate { pub pem: Vec<u8> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Identity { pub cert: Vec<u8>, pub key: Vec<u8> }
    impl Certificate {
        pub fn from_pem(pem: impl AsRef<[u8]>) -> Self { Certificate { pem: pem.as_ref().to_vec() } }
    }
    impl Identity {
        pub fn from_pem(cert: impl AsRef<[u8]>, key: impl AsRef<[u8]>) -> Self { Identity { cert: cert.as_ref().to_vec(), key: key.as_ref().to_vec() } }
    }
    impl ClientTlsConfig {
        pub fn new() -> Self { Self::default() }
        pub fn domain_name(self, d: impl Into<String>) -> Self { Self { domain: Some(d.into()), ..self } }
        pub fn ca_certificate(self, c: Certificate) -> Self { Self { ca: Some(c), ..self } }
        pub fn identity(self, i: Identity) -> Self { Self { identity: Some(i), ..self } }
    }
}
"""


# operation-normalizer parses with a crate that is not available offline; what the checked crates need of
# it (the real sanitizer) is compiled without the normalizer
OVERRIDE = {
    "operation-normalizer/Cargo.toml": """[package]
name = "operation-normalizer"
version = "0.1.0"
edition = "2024"

[dependencies]
cynic-parser.workspace = true
""",
    "operation-normalizer/src/lib.rs": """#[allow(missing_docs)]
mod sanitize;
pub use sanitize::sanitize;
pub fn normalize(_: &str, _: Option<&str>) -> Result<String, ()> {
    Err(())
}
""",
}


def make_workspace():
    ws = B / "ws"
    ws.mkdir(parents=True, exist_ok=True)
    sync_tree(str(REPO / "crates"), str(ws / "crates"), OVERRIDE)
    sync_tree(str(V / "harness"), str(ws / "h"))
    # the dependency-unification crate only slows the build down; keep the features
    hack = ws / "stub" / "grafbase-workspace-hack"
    write_if_changed(hack / "Cargo.toml", STUB_HACK)
    write_if_changed(hack / "src/lib.rs", "")
    shutil.rmtree(ws / "crates" / "grafbase-workspace-hack", ignore_errors=True)
    tel = ws / "stub" / "grafbase-telemetry"
    write_if_changed(tel / "Cargo.toml", SLIM_TELEMETRY)
    write_if_changed(tel / "src/lib.rs", SLIM_TELEMETRY_LIB)
    tonic = ws / "stub" / "tonic"
    write_if_changed(tonic / "Cargo.toml", STUB_TONIC)
    write_if_changed(tonic / "src/lib.rs", STUB_TONIC_LIB)
    # paths some crates include from outside crates/
    for extra in ("gqlint",):
        if (REPO / extra).exists():
            sync_tree(str(REPO / extra), str(ws / extra))
    text = (REPO / "Cargo.toml").read_text()
    members = sorted(p.parent.name for p in (V / "harness").glob("*/Cargo.toml"))
    text = re.sub(r"(?ms)^members = \[.*?^\]\n", "members = [%s]\n" % ", ".join('"h/%s"' % m for m in members), text, count=1)
    text = re.sub(r"(?ms)^exclude = \[.*?^\]\n", 'exclude = ["crates", "stub"]\n', text, count=1)
    text = re.sub(r"(?m)^default-members.*\n", "", text)
    text = re.sub(r"(?m)^multipart-stream = \{ git.*\n", "", text)
    text = text.replace('"crates/grafbase-workspace-hack"', '"stub/grafbase-workspace-hack"')
    text = text.replace('path = "crates/telemetry"', 'path = "stub/grafbase-telemetry"')
    text = re.sub(r"(?ms)^tonic = \{.*?^\] \}\n", 'tonic = { path = "stub/tonic", version = "0.13.0" }\n', text, count=1)
    # crates that are not available offline: stand-ins (see harness/stub)
    text = re.sub(r"(?m)^graphql-parser = \{ git.*\n", "", text)
    for name in sorted(p.parent.name for p in (V / "harness/stub").glob("*/Cargo.toml")):
        text = re.sub(r"(?ms)^%s = (?:\"[^\n]*|\{[^}]*\})\n" % re.escape(name), '%s = { path = "h/stub/%s" }\n' % (name, name), text, count=1)
    # one build profile of our own, used for the executor's input and for the native replay
    text = re.split(r"(?m)^\[profile\.", text)[0] + "".join(
        "[" + s for s in re.split(r"(?m)^\[", text) if s.startswith("workspace.lints"))
    text += """
[profile.release]
opt-level = 2
panic = "abort"
lto = false
codegen-units = 16
debug = false
strip = "none"
incremental = false
overflow-checks = false
debug-assertions = false
"""
    # path dependencies of the crates are members implicitly
    write_if_changed(ws / "Cargo.toml", text.replace("exclude = [\"crates\", \"stub\"]\n", ""))
    # the repository's lock file, again whenever it or the set of crates changes
    src = (REPO / "Cargo.lock").read_bytes()
    key = hashlib.sha1(src + b"".join(p.read_bytes() for p in [ws / "Cargo.toml"] + sorted((V / "harness").glob("*/Cargo.toml")))).hexdigest()
    stamp = ws / "lock.key"
    if not (ws / "Cargo.lock").exists() or not stamp.exists() or stamp.read_text() != key:
        (ws / "Cargo.lock").write_bytes(src)
        stamp.write_text(key)
    return ws


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    e = env()
    r = run(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", str(V / "wsym/Cargo.toml"), "--target-dir", str(B / "wsym")], env=e)
    if r.returncode:
        raise CheckError("engine build failed:\n" + r.stdout[-4000:])
    return B / "wsym/release/wsym"


def build_harness(names, native=True):
    ws = make_workspace()
    e = env()
    e["RUSTFLAGS"] = "--cfg wsym --cfg tracing_unstable -Clinker=rust-lld -Clink-arg=-zstack-size=4194304"
    pk = [x for n in names for x in ("-p", n)]
    for n in names:
        cmd = ["cargo", "rustc", "--release", "--offline", "--quiet", "--lib", "--crate-type", "cdylib", "--target", "wasm32-wasip2", "--target-dir", str(B / "target"), "-p", n]
        r = run(cmd, cwd=ws, env=e)
        if r.returncode:
            raise CheckError("harness build (wasm) failed:\n" + r.stdout[-6000:])
    if native:
        e["RUSTFLAGS"] = "--cfg wsym --cfg tracing_unstable"
        cmd = ["cargo", "build", "--release", "--offline", "--quiet", "--bins", "--target-dir", str(B / "target-native")] + pk
        r = run(cmd, cwd=ws, env=e)
        if r.returncode:
            raise CheckError("harness build (native) failed:\n" + r.stdout[-6000:])


def wasm_of(h):
    return B / "target/wasm32-wasip2/release" / (h.replace("-", "_") + ".wasm")


def native_of(h):
    return B / "target-native/release" / (h + "-replay")


def replay(h, entry, model, params, show=False, timeout=60):
    """Run the natively compiled harness on a model. Returns (outcome, text, observations)."""
    B.mkdir(parents=True, exist_ok=True)
    d = B / "tmp"
    d.mkdir(exist_ok=True)
    f = d / ("model-%d-%s" % (os.getpid(), hashlib.sha1(json.dumps(model, sort_keys=True).encode()).hexdigest()[:12]))
    f.write_text("".join("%s %s\n" % kv for kv in model.items()))
    e = env()
    e.update(WSYM_MODEL=str(f), WSYM_PARAMS=",".join(map(str, params)))
    if show:
        e["WSYM_SHOW"] = "1"
    try:
        p = subprocess.run([str(native_of(h)), entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=str(d))
        out = p.stdout.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired:
        return "hang", "no answer after %d s" % timeout, []
    finally:
        f.unlink(missing_ok=True)
    obs = [tuple(l.split(" ")[1:]) for l in out.splitlines() if l.startswith("WSYM-OBS ")]
    m = re.search(r"(?m)^WSYM-FAIL: ((?:.|\n)*)", out)
    if m:
        return "fail", m.group(1).strip(), obs
    if rc == 0 and "WSYM-OK" in out:
        return "ok", out, obs
    if rc == 2 and "WSYM-ASSUME" in out:
        return "assume", out, obs
    if rc < 0:
        return "crash", "killed by signal %d\n%s" % (-rc, out[-2000:]), obs
    return "error", out[-2000:], obs
