#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the planted bugs below: each is a list of edits of /repo's HEAD and the body of a demonstration.

usage: mkseeds.py [id ...]      (all by default)
"""
import json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}

def seed(id, prop, edits, needs, breaks, demo, files=None):
    assert id not in SEEDS
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

DEMO_SH = r'''#!/bin/bash
# Run with cwd /repo: exit 0 when the property holds on this demonstration, non-zero otherwise.
export HOME=/root LC_ALL=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS
here=$(cd "$(dirname "$0")" && pwd) || exit 99
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/main.rs" "$work/src/main.rs" && cp "$here/Cargo.lock.txt" "$work/Cargo.lock" || exit 99
cat >"$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
poreader = { path = "$repo" }
locale_config = "0.3.0"
T
export CARGO_TARGET_DIR=$work/target
cd "$work" || exit 99
cargo build --offline >build.log 2>&1 || { tail -30 build.log; exit 98; }
timeout 100 ./target/debug/demo
'''

PRELUDE = r'''#![allow(dead_code, unused_imports)]
use poreader::{plural::*, unit::Unit, CatalogueReader, Message, PoParser, State};
use std::io::{self, Read};

fn units(doc: &str) -> Vec<Unit> {
    let p = PoParser::new();
    let r = p.parse(doc.as_bytes()).expect("opening");
    r.map(|u| u.expect("unit")).collect()
}

fn results(doc: &[u8]) -> Vec<Result<Unit, poreader::error::Error>> {
    let p = PoParser::new();
    match p.parse(doc) {
        Ok(r) => r.collect(),
        Err(e) => vec![Err(e)],
    }
}

fn forms(nplurals: &str, formula: &str, texts: usize) -> String {
    let mut s = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={nplurals}; plural={formula};\\n\"\n\nmsgid \"one\"\nmsgid_plural \"many\"\n");
    for i in 0..texts {
        s += &format!("msgstr[{i}] \"t{i}\"\n");
    }
    s
}

'''

def build(id):
    s = SEEDS[id]
    d = os.path.join(ROOT, "seeded", id)
    tmp = tempfile.mkdtemp(prefix="mkseed.")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for f, old, new in s["edits"]:
            p = os.path.join(tmp, "r", f)
            t = open(p).read()
            n = t.split("#[cfg(test)]")[0].count(old)
            assert n == 1, f"{id}: {f}: {n} matches of {old!r}"
            open(p, "w").write(t.replace(old, new, 1))
        diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(tmp)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(PRELUDE + s["demo"].lstrip("\n"))
    lock = open(os.path.join(ROOT, "harness/Cargo.lock")).read().replace('name = "pcheck"', 'name = "demo"')
    open(d + "/Cargo.lock.txt", "w").write(lock)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_defs.py")).read())

if __name__ == "__main__":
    for i in sys.argv[1:] or sorted(SEEDS):
        build(i)
        print(i)
