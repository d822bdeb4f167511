#!/usr/bin/env python3
"""Make and verify the planted bugs under seeded/.

  plant.py make   [ID...]   write seeded/<ID>/{patch.diff,demo.sh,demo.rs,meta.json} and verify each in a scratch copy
  plant.py check  [ID...]   apply each patch to /repo, run the check of its property, undo
Seeds are described in plants*.py beside this file.
"""
import sys, os, subprocess, shutil, json, glob, importlib.util, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SEEDED = os.path.join(ROOT, "seeded")
REPO = "/repo"

DEMO_SH = r'''#!/bin/sh
# Builds demo.rs against the crate in the current directory, in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$(pwd)
s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
mkdir "$s/src" && cp "$here/demo.rs" "$s/src/main.rs" && cp "$repo/Cargo.lock" "$s/Cargo.lock" || exit 2
cat >"$s/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
wadec = { path = "$repo" }
END
unset CARGO_TARGET_DIR RUSTFLAGS
cd "$s" || exit 2
cargo build --quiet --offline --target-dir "$s/target" >"$s/log" 2>&1 || { cat "$s/log"; exit 2; }
%RUN%
'''
RUN = 'timeout 200 "$s/target/debug/demo"'
RELEASE = RUN + r''' || exit 1
cargo build --quiet --release --offline --target-dir "$s/target" >"$s/log" 2>&1 || { cat "$s/log"; exit 2; }
timeout 200 "$s/target/release/demo"'''
CLI = r'''cd "$repo" && cargo build --quiet --offline -p wadec-cli --target-dir "$s/target" >"$s/log" 2>&1 || { cat "$s/log"; exit 2; }
WADEC="$s/target/debug/wadec" timeout 200 "$s/target/debug/demo"'''

MACHINE = r'''export XDG_CACHE_HOME="$s/cache" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
timeout 200 cargo +nightly miri run --quiet --offline --target %MACHINE% --target-dir "$s/target" 2>"$s/log" || { tail -n 20 "$s/log"; exit 1; }'''

PRELUDE = r'''// Exits 0 when the property holds, and panics when it does not.
#![allow(dead_code, unused_imports)]
use std::io::{self, Read};
use wadec::*;
use wadec::core::{*, indices::*, instruction::{*, Instruction}, types::*};
use wadec::core::types::{heaptype::*, reftype::*, valtype::*, comptype::*, rectype::*};
use wadec::decode_errors::DecodeModuleError;

fn u(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 { v.push(b); return v; }
        v.push(b | 0x80);
    }
}
fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
/// a length followed by the bytes
fn sized(b: &[u8]) -> Vec<u8> { cat(&[&u(b.len() as u64), b]) }
/// a count followed by the entries
fn list(items: &[Vec<u8>]) -> Vec<u8> { cat(&[&u(items.len() as u64), &items.concat()]) }
fn sec(id: u8, body: &[u8]) -> Vec<u8> { cat(&[&[id], &sized(body)]) }
fn module(secs: &[Vec<u8>]) -> Vec<u8> { cat(&[b"\0asm\x01\0\0\0", &secs.concat()]) }
/// a function body without locals
fn body(ins: &[u8]) -> Vec<u8> { sized(&cat(&[&[0], ins, &[0x0b]])) }
fn type_sec() -> Vec<u8> { sec(1, &[1, 0x60, 0, 0]) }
fn func_sec(n: usize) -> Vec<u8> { sec(3, &list(&vec![vec![0]; n])) }
/// a module with one function for each of the given bodies
fn funcs(bodies: &[Vec<u8>]) -> Vec<u8> { module(&[type_sec(), func_sec(bodies.len()), sec(10, &list(bodies))]) }
fn ok(b: &[u8]) -> Module { decode_module(b).unwrap_or_else(|e| panic!("rejected: {e:?}")) }
fn err(b: &[u8]) -> DecodeModuleError {
    match decode_module(b) { Ok(m) => panic!("accepted: {m:?}"), Err(e) => e }
}
fn ins1(b: &[u8]) -> Instruction {
    let mut m = ok(&funcs(&[body(b)]));
    assert_eq!(m.funcs[0].body.len(), 1, "{:?}", m.funcs[0].body);
    m.funcs.remove(0).body.remove(0)
}
'''

def load():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, "plants*.py"))):
        spec = importlib.util.spec_from_file_location("p", f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]] = s
    return seeds

def sh(cmd, cwd, t=900):
    e = dict(os.environ); e.pop("CARGO_TARGET_DIR", None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t, env=e)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests"):
        if k in d: return d[k]
    return d

def make(s):
    scratch = f"/tmp/plant/{s['id']}"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", REPO, scratch], check=True)
    try:
        out = os.path.join(SEEDED, s["id"])
        os.makedirs(out, exist_ok=True)
        open(f"{out}/demo.rs", "w").write(PRELUDE + s["demo"])
        open(f"{out}/demo.sh", "w").write(DEMO_SH.replace("%RUN%", CLI if s.get("cli") else RELEASE if s.get("release") else MACHINE.replace("%MACHINE%", s["machine"]) if s.get("machine") else RUN))
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(f"{out}/meta.json", "w"), indent=1)
        demodir = f"/tmp/plant/{s['id']}-demo"
        shutil.rmtree(demodir, ignore_errors=True); shutil.copytree(out, demodir)
        rc, o = sh(f"sh {demodir}/demo.sh", scratch, 300)
        if rc != 0: return s["id"], f"demo fails on the unchanged tree ({rc}): {o[-700:]}"
        for f, old, new in s["edits"]:
            p = os.path.join(scratch, f); t = open(p).read()
            if t.count(old) != 1: return s["id"], f"edit matches {t.count(old)} times: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        rc, o = sh("git diff", scratch); open(f"{out}/patch.diff", "w").write(o)
        rc, o = sh("cargo test --workspace --no-run --offline", scratch)
        if rc != 0: return s["id"], "does not build: " + o[-2500:]
        warn = "warning" in o
        rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --skip upstream_spec_tests", scratch)
        if rc != 0:
            bad = [l for l in o.splitlines() if "FAILED" in l]
            return s["id"], "existing tests fail: " + "; ".join(bad[:4])
        rc, o = sh(f"sh {demodir}/demo.sh", scratch, 300)
        if rc == 0: return s["id"], "demo does not fail with the patch"
        if rc == 2: return s["id"], "demo does not build with the patch: " + o[-800:]
        return s["id"], f"ok{' (warnings)' if warn else ''}: demo {rc}: {' '.join(o[o.find('panicked'):].split())[:200]!r}"
    finally:
        shutil.rmtree(scratch, ignore_errors=True); shutil.rmtree(f"/tmp/plant/{s['id']}-demo", ignore_errors=True)

def main():
    seeds = load(); cmd = sys.argv[1]; ids = sys.argv[2:] or list(seeds)
    if cmd == "make":
        with cf.ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(make, [seeds[i] for i in ids]):
                print(f"{i}: {r}", flush=True)
                if not r.startswith("ok"): shutil.rmtree(os.path.join(SEEDED, i), ignore_errors=True)
    elif cmd == "check":
        for i in ids:
            d = os.path.join(SEEDED, i)
            if not os.path.exists(f"{d}/patch.diff"): print(f"{i}: not planted"); continue
            prop = json.load(open(f"{d}/meta.json"))["property"]
            rc, o = sh(f"git apply {d}/patch.diff", REPO)
            assert rc == 0, o
            try:
                props = os.environ.get("PROPS", prop).split(",")
                for p in props:
                    rc, o = sh(f"VERIF_SEED=1 VERIF_TIER=quick ./run.sh {p}", ROOT)
                    v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                    good = rc == 1 and any(f"property={p} " in l for l in v)
                    print(f"{i}: {p} {'caught' if good else 'MISSED rc=%d %s' % (rc, o[-300:])}", flush=True)
            finally:
                sh("git checkout -- .", REPO)
main()
