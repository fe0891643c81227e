#!/usr/bin/env python3
"""Writes and confirms planted bugs.  usage: seedgen.py [id ...]
Each bug of BUGS is applied to a scratch copy of /repo; its demo must pass without it and
fail with it, and the 138 stable tests must pass with it.  Confirmed bugs go to
/verif/seeded/<id>/.  Nothing in /repo is changed."""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS

SCRATCH = "/tmp/seedwork"
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# cwd: the repository.  exit 0: behaviour as stated; nonzero: broken.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
venial = { path = "$repo" }
proc-macro2 = { version = "1", features = ["span-locations"] }
quote = "1"
TOML
cd "$scratch"
export CARGO_TARGET_DIR="$scratch/target"
cargo build --offline -q
timeout 60 "$scratch/target/debug/demo"
'''
PRE = '''#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use proc_macro2::*;
use quote::{quote, ToTokens};
use venial::*;

fn ts(s: &str) -> TokenStream { s.parse().unwrap() }
fn item(s: &str) -> Item { parse_item(ts(s)).unwrap() }
/// Flat text of a token stream, with delimiters and spacing.
fn flat(t: TokenStream) -> String {
    let mut out = String::new();
    for t in t {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("( ", ") "),
                    Delimiter::Brace => ("{ ", "} "),
                    Delimiter::Bracket => ("[ ", "] "),
                    Delimiter::None => ("<< ", ">> "),
                };
                out += a;
                out += &flat(g.stream());
                out += b;
            }
            t => { out += &t.to_string(); out += " "; }
        }
    }
    out
}
fn same(s: &str) { assert_eq!(flat(item(s).to_token_stream()), flat(ts(s))); }
fn rejects(s: &str) {
    let t = ts(s);
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = parse_item(t); }));
    let _ = std::panic::take_hook();
    assert!(r.is_err(), "accepted: {s}");
}

fn main() {
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    want = sys.argv[1:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["passing"]) if False else None
    copy = SCRATCH + "/repo"
    os.makedirs(SCRATCH, exist_ok=True)
    if not os.path.exists(copy):
        sh("cp -a /repo " + copy, "/")
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        d = f"{OUT}/{b['id']}"
        sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target", copy)
        dd = SCRATCH + "/demo"
        shutil.rmtree(dd, ignore_errors=True); os.makedirs(dd)
        open(dd + "/demo.rs", "w").write(PRE + b["demo"].rstrip() + "\n}\n")
        open(dd + "/demo.sh", "w").write(DEMO); os.chmod(dd + "/demo.sh", 0o755)
        env = dict(os.environ, CARGO_TERM_COLOR="never")
        r0 = sh("bash " + dd + "/demo.sh", copy, env=env)
        if r0.returncode:
            print(b["id"], "DEMO FAILS UNPATCHED\n", r0.stdout[-1500:]); continue
        ok = True
        for f, old, new in b["edits"]:
            p = copy + "/src/" + f
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(b["id"], "edit matches", n, "times in", f, repr(old[:60])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        r1 = sh("bash " + dd + "/demo.sh", copy, env=env)
        if r1.returncode == 0 or "error: could not compile" in r1.stdout:
            print(b["id"], "DEMO rc", r1.returncode, "with patch\n", r1.stdout[-1500:]); continue
        t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", copy, env=env)
        res = re.findall(r"test result: \w+\. (\d+) passed; (\d+) failed", t.stdout)
        p, f = sum(int(x) for x, _ in res), sum(int(y) for _, y in res)
        if f or p < 138:
            print(b["id"], f"TESTS: {p} passed {f} failed", re.findall(r"test (\S+).*FAILED", t.stdout)[:5]); continue
        diff = sh("git diff -- src", copy).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(dd + "/demo.rs", d); shutil.copy(dd + "/demo.sh", d)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        print(b["id"], "kept", b["property"])
    sh("git checkout -q -f .", copy)
main()
