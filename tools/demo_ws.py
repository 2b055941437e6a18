"""Demonstration helper: builds main.rs beside this file against the crates under the current directory
and runs it. Usage: demo_ws.py 'dep line' ...   Exit status is that of the program."""
import os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
d = tempfile.mkdtemp(prefix="demo-")
try:
    os.symlink(os.path.join(repo, "crates"), os.path.join(d, "crates"))
    os.makedirs(os.path.join(d, "demo/src"))
    t = open(os.path.join(repo, "Cargo.toml")).read()
    t = re.sub(r"(?ms)^members = \[.*?^\]\n", 'members = ["demo"]\n', t, count=1)
    t = re.sub(r"(?ms)^exclude = \[.*?^\]\n", "", t, count=1)
    t = re.sub(r"(?m)^default-members.*\n", "", t)
    t = re.sub(r"(?m)^multipart-stream = \{ git.*\n", "", t)
    # what the workspace crates need of the dependency-unification crate: its features
    t = t.replace('path = "crates/grafbase-workspace-hack"', 'path = "hack"')
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    os.makedirs(os.path.join(d, "hack/src"))
    open(os.path.join(d, "hack/src/lib.rs"), "w").close()
    open(os.path.join(d, "hack/Cargo.toml"), "w").write("""[package]
name = "grafbase-workspace-hack"
version = "0.1.0"
edition = "2024"
[dependencies]
serde = { workspace = true, features = ["derive", "rc"] }
url = { workspace = true, features = ["serde"] }
semver = { workspace = true, features = ["serde"] }
strum = { workspace = true, features = ["derive"] }
""")
    shutil.copy(os.path.join(repo, "Cargo.lock"), d)
    open(os.path.join(d, "demo/Cargo.toml"), "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\ngrafbase-workspace-hack.workspace = true\n' + "\n".join(sys.argv[1:]) + "\n")
    shutil.copy(os.path.join(here, "main.rs"), os.path.join(d, "demo/src/main.rs"))
    e = dict(os.environ, RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(d, "target"),
             CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "demo"], cwd=d, env=e)
    if r.returncode:
        sys.exit(99)
    sys.exit(subprocess.run([os.path.join(d, "target/debug/demo")], cwd=d, env=e).returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
