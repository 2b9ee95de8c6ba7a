#!/usr/bin/env python3
"""seed.py FILE... : builds and confirms planted bugs in a scratch copy (/tmp/sw) and stores them in seeded/.
A FILE is python: id, prop, edits=[(file, old, new)], demo (rust statements of main), needs, breaks, [items]."""
import json, os, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="1", CARGO_TERM_COLOR="never")
DEMO = r'''#!/bin/bash
# exit 0: the property's example behaves as stated; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$D/demo.rs" "$W/src/main.rs"; cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
htp = { path = "$R", default-features = false }
[profile.dev]
debug = false
X
cd "$W" && RUSTFLAGS=-Awarnings RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/t" timeout 250 cargo run --offline -q
'''
PRE = r'''#![allow(unused)]
use htp::bstr::Bstr;
use htp::config::*;
use htp::connection_parser::*;
use htp::transaction::*;
use htp::uri::Uri;
use htp::util::*;
fn parser(cfg: Config) -> ConnectionParser {
    let mut p = ConnectionParser::new(cfg);
    p.open(None, Some(1), None, Some(80), None);
    p
}
fn req(p: &mut ConnectionParser, d: &[u8]) -> HtpStreamState { p.request_data(ParserData::from(d), None) }
fn res(p: &mut ConnectionParser, d: &[u8]) -> HtpStreamState { p.response_data(ParserData::from(d), None) }
'''
def sh(c, cwd=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode("utf8", "replace")
def prep():
    if not os.path.isdir(SW):
        sh("cp -a /repo %s" % SW)
    sh("git checkout -q -- . ; git clean -fdq src; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SW)
def one(f):
    g = {}
    exec(open(f).read(), g)
    i = g["id"]
    prep()
    for (fn, old, new) in g["edits"]:
        p = os.path.join(SW, fn)
        s = open(p).read()
        assert s.count(old) == 1, "%s: %d matches of %r" % (i, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff", SW)
    rc, o = sh("cargo test --workspace --no-run --offline -q", SW)
    if rc: print(i, "BUILD FAILS", o[-1500:]); return
    rc, o = sh("cargo nextest run --workspace --tool-config-file vp:/opt/vp/nextest.toml --profile vp --no-fail-fast --offline 2>&1 | grep -E 'FAIL|Summary' | sort | uniq | head; cargo test --workspace --doc --offline 2>&1 | grep -E 'FAILED|failed;' | head", SW)
    if "FAIL" in o: print(i, "TESTS FAIL", o[:1500]); return
    d = os.path.join(V, "seeded", i)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.rs", "w").write(PRE + g.get("items", "") + "fn main() {\n" + g["demo"].strip("\n") + "\n}\n")
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a, oa = sh("bash %s/demo.sh" % d, "/repo")
    b, ob = sh("bash %s/demo.sh" % d, SW)
    ok = a == 0 and b != 0 and "error" not in ob.split("panicked")[0]
    print(i, "OK" if ok else "DEMO PROBLEM", "clean rc=%d bug rc=%d" % (a, b), "" if ok else (oa[-600:] + "\n--\n" + ob[-600:]))
    if not ok: shutil.rmtree(d)
for f in sys.argv[1:]:
    one(f)
