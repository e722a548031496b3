#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py ID   (development only; no check uses this)

SPEC.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=RUST main.rs text)}.
The change is confirmed in a scratch copy of /repo: it builds, the stable tests
pass, the demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "/tmp/mut"
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ruruby-parse = { path = "$repo" }
[profile.dev]
debug = 0
T
cd "$d" && CARGO_TARGET_DIR="${DEMO_TARGET:-$d/t}" cargo build --offline --quiet 2>"$d/log" || { tail -5 "$d/log"; exit 2; }
timeout 60 "${DEMO_TARGET:-$d/t}/debug/demo"
'''
PRE = '''use ruruby_parse::*;
#[allow(dead_code)]
fn parse(s: &str) -> Result<ParseResult, ParseErr> { Parser::<DummyContext>::parse_program(s.to_string(), "t.rb") }
#[allow(dead_code)]
fn text(s: &str) -> String { match parse(s) { Ok(r) => strip(&format!("{:?}", r.node)), Err(e) => format!("{:?}", e.kind) } }
/// the tree without its locations
#[allow(dead_code)]
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find("Loc(") {
        o.push_str(&r[..i]);
        r = &r[i + r[i..].find(')').unwrap() + 1..];
    }
    o + r
}
'''
def sh(c, cwd=None, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:] or list(ns["BUGS"])
    if not os.path.exists(M):
        sh("cp -a /repo %s" % M)
    for i in ids:
        b = ns["BUGS"][i]
        sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", M)
        out = os.path.join("/tmp/plant", i)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/demo.rs", "w").write(PRE + b["demo"])
        open(out + "/demo.sh", "w").write(DEMO_SH)
        env = {"DEMO_TARGET": "/tmp/demo-target"}
        r0, o0 = sh("bash %s/demo.sh" % out, M, env)
        for f, old, new in b["edits"]:
            p = os.path.join(M, f); t = open(p).read()
            if t.count(old) != 1:
                print(i, "EDIT matches", t.count(old), "times:", old[:60]); break
            open(p, "w").write(t.replace(old, new))
        else:
            _, d = sh("git diff", M)
            open(out + "/patch.diff", "w").write(d)
            rt, ot = sh("cargo test --workspace --offline --locked --lib 2>&1 | grep -E '^error|test result|FAILED|failed' | head -5", M, {"CARGO_TARGET_DIR": M + "/target"})
            r1, o1 = sh("bash %s/demo.sh" % out, M, env)
            ok = r0 == 0 and r1 != 0 and r1 != 2 and "24 passed; 0 failed" in ot
            print(i, "OK" if ok else "BAD", "clean", r0, "patched", r1, ot.strip()[:100], "" if ok else (o0[-300:], o1[-500:]), flush=True)
            if ok:
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
                dst = os.path.join(V, "seeded", i)
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(out, dst)
        sh("git checkout -q -- .", M)
main()
