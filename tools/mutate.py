#!/usr/bin/env python3
"""Development aid: mutate source files of a scratch copy of the repository and see which checks notice.
usage: mutate.py REPO_COPY BUILD_DIR OUT.jsonl SEED COUNT CHECKS FILE...   (CHECKS: comma separated, cheapest first)"""
import json, os, random, re, subprocess, sys, pathlib, time

V = pathlib.Path(__file__).resolve().parent.parent
repo, build, out, seed, count, checks = sys.argv[1:7]
files = []
for f in sys.argv[7:]:
    p = pathlib.Path(repo, f)
    files += sorted(p.rglob("*.rs")) if p.is_dir() else [p]
assert repo != "/repo"
OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\bif (?!let)(.*) \{$", r"if !(\1) {"), (r"\bif !", "if "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r" \+ 1\b", ""), (r" - 1\b", ""),
    (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bcontinue;", ""), (r"\breturn;", ""), (r"^(\s*)(?!let |return|break|continue|use |pub |mod |type |const |static )([a-z_*][\w.:*]*.*;)$", r"\1"),
    (r"\.rev\(\)", ""), (r"\.chain\([^()]*(\([^()]*\))?[^()]*\)", ""), (r"\.filter\(.*\)$", ""), (r"\.\.=", ".."), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"\bSome\(([a-z_.]+)\)$", "None"), (r"\.skip\(1\)", ""), (r"\.sort[a-z_]*\(.*\);", ";"), (r"\.dedup[a-z_]*\(.*\);", ";"), (r" \+ ", " - "), (r"\|= ", "= "), (r"\+= ", "= "),
    (r"^(\s*)([A-Za-z_:]+(\(.*\)|\{.*\})?) (if .*) =>", r"\1\2 =>"), (r" \| ", " & "), (r" & ", " | "), (r"\.unwrap_or\((.*)\)", r".map(|_| \1).unwrap_or(\1)"),
    (r"\.and_then\(", ".or_else("), (r"\.starts_with\(", ".ends_with("), (r"\.ends_with\(", ".starts_with("), (r"(\w+)\.push\((.*)\);", r"\1.insert(0, \2);"),
]
cands = []
for f in files:
    if "/tests" in str(f) or f.name in ("tests.rs", "test.rs"):
        continue
    src = f.read_text().split("\n")
    depth_test = False
    for i, l in enumerate(src):
        if re.match(r"\s*#\[cfg\(test\)\]", l) or re.match(r"#\[test\]", l):
            break
        s = l.strip()
        if s.startswith("//") or s.startswith("#[") or "assert" in s or "tracing::" in s or not s:
            continue
        code = l.split(" // ")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != l:
                    cands.append((f, i, l, new))
rnd = random.Random(int(seed))
rnd.shuffle(cands)
seen = set()
env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=build, VERIF_SEED="1")
n = 0
print(len(cands), "candidates", flush=True)
for f, i, old, new in cands:
    if n >= int(count):
        break
    if (f, i, new) in seen:
        continue
    seen.add((f, i, new))
    text = f.read_text()
    lines = text.split("\n")
    assert lines[i] == old
    lines[i] = new
    f.write_text("\n".join(lines))
    t = time.time()
    res, by, txt = "survived", None, ""
    try:
        for c in checks.split(","):
            p = subprocess.run([sys.executable, str(V / "check.py"), c, "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1:
                res, by = "caught", c
                break
            if p.returncode != 0:
                if "harness build" in p.stdout:
                    res = "nobuild"
                else:
                    res, by, txt = "noanswer", c, p.stdout[-600:]
                break
    finally:
        f.write_text(text)
    if res == "nobuild":
        continue
    n += 1
    r = dict(res=res, by=by, file=str(f.relative_to(repo)), line=i + 1, old=old, new=new, s=round(time.time() - t), txt=txt)
    open(out, "a").write(json.dumps(r) + "\n")
    print(n, res, by, f"{r['file']}:{i+1}", old.strip()[:70], "=>", new.strip()[:70], r["s"], flush=True)
