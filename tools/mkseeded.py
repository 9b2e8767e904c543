"""Regenerates /verif/seeded from the table below and confirms each change in a scratch copy of /repo:
it applies, builds, passes the 18 stable tests, and its demonstration passes without and fails with it.

    python3 tools/mkseeded.py [id ...]

A change is (id, property, file, [(old, new[, occurrence])], needs, breaks, demonstration).
"""
import json, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "seeded")

PRELUDE = r'''
#![allow(unused)]
use fxd::{Error, FixedDecimal};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
fn p(s: &str) -> FixedDecimal { s.parse().unwrap_or_else(|e| panic!("{} refused: {}", s, e)) }
fn s(d: &FixedDecimal) -> String { d.to_string(-1) }
fn z() -> FixedDecimal { FixedDecimal::zero() }
fn add(a: &FixedDecimal, b: &FixedDecimal) -> FixedDecimal { let mut r = z(); FixedDecimal::add_to(a, b, &mut r).unwrap(); r }
fn sub(a: &FixedDecimal, b: &FixedDecimal) -> FixedDecimal { let mut r = z(); FixedDecimal::sub_to(a, b, &mut r).unwrap(); r }
fn mul(a: &FixedDecimal, b: &FixedDecimal) -> FixedDecimal { let mut r = z(); FixedDecimal::mul_to(a, b, &mut r).unwrap(); r }
fn div(a: &FixedDecimal, b: &FixedDecimal, n: usize) -> FixedDecimal { let mut r = z(); FixedDecimal::div_to(a, b, &mut r, n).unwrap(); r }
fn rem(a: &FixedDecimal, b: &FixedDecimal) -> FixedDecimal { let mut r = z(); FixedDecimal::rem_to(a, b, &mut r).unwrap(); r }
fn eq(a: &FixedDecimal, t: &str) { assert_eq!(s(a), t); }
fn hash(d: &FixedDecimal) -> u64 { let mut h = DefaultHasher::new(); d.hash(&mut h); h.finish() }
fn main() {
'''

DEMO = r'''#!/bin/bash
# Runs demo.rs against the crate in the current directory. Everything is built in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fxd = { path = "$repo" }
TOML
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2>"$work/log" || { cat "$work/log"; exit 2; }
timeout 60 "$work/target/debug/demo"
'''
# the same with the crate built as users build it
RELEASE = DEMO.replace("build --offline", "build --release --offline").replace("target/debug", "target/release")

B = []


def bug(id, prop, file, edits, needs, breaks, demo, sh=None):
    B.append((id, prop, file, edits, needs, breaks, demo, sh or DEMO))


exec(open(os.path.join(ROOT, "tools", "bugs.py")).read())


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, env=env)


def main():
    want = set(sys.argv[1:])
    work = tempfile.mkdtemp(prefix="seeded.", dir="/tmp")
    try:
        repo = os.path.join(work, "repo")
        sh(["git", "clone", "-q", "/repo", repo])
        if not os.path.exists(os.path.join(repo, "Cargo.lock")):
            shutil.copy("/repo/Cargo.lock", repo)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, "target"))
        ids = set()
        for id, prop, file, edits, needs, breaks, demo, script in B:
            assert id not in ids, id
            ids.add(id)
            if want and id not in want:
                continue
            sh(["git", "checkout", "-q", "--", "."], cwd=repo)
            path = os.path.join(repo, file)
            src = open(path).read()
            ok = True
            for e in edits:
                old, new = e[0], e[1]
                n = src.count(old)
                k = e[2] if len(e) > 2 else 1
                if n < k or (n > 1 and len(e) < 3):
                    print("%-28s anchor found %d times: %s" % (id, n, old[:60]))
                    ok = False
                    break
                at = -1
                for _ in range(k):
                    at = src.index(old, at + 1)
                src = src[:at] + new + src[at + len(old):]
            if not ok:
                continue
            d = os.path.join(work, id)
            os.makedirs(d)
            with open(os.path.join(d, "demo.rs"), "w") as f:
                f.write(PRELUDE.lstrip() + demo.strip("\n") + "\n}\n")
            with open(os.path.join(d, "demo.sh"), "w") as f:
                f.write(script)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            clean = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
            open(path, "w").write(src)
            diff = sh(["git", "diff"], cwd=repo).stdout
            with open(os.path.join(d, "patch.diff"), "w") as f:
                f.write(diff)
            t = sh("cargo test --offline -q 2>&1 | tail -40", cwd=repo, env=env)
            passed = "test result: ok. 18 passed" in t.stdout
            broken = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
            good = clean.returncode == 0 and passed and broken.returncode not in (0, 2)
            print("%-28s %s%s" % (id, "kept" if good else "DROPPED", "" if good else "  clean=%d tests=%s broken=%d" % (
                clean.returncode, passed, broken.returncode)))
            if not good:
                out = clean.stdout if clean.returncode else (t.stdout if not passed else broken.stdout)
                print("      " + "\n      ".join(out.strip().splitlines()[-14:]))
                continue
            with open(os.path.join(d, "meta.json"), "w") as f:
                json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
                f.write("\n")
            dst = os.path.join(OUT, id)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
    finally:
        shutil.rmtree(work)


main()
