#!/usr/bin/env python3
"""Development aid, not a check: writes /verif/seeded/<id>/ from plants*.py and confirms each in scratch copies:
the patch applies, touches only lines of the original repository, the tests pass with it, the demonstration passes without it
and fails with it.   plant.py [--only ID,ID] [--slots N] [--keep]"""
import glob, json, os, queue, re, shutil, subprocess, sys, threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
BASE = "5f33e90"

CARGO = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
amqp-codec = { path = "@REPO@" }
bytes = "0.4"
chrono = "0.4"
hashbrown = "0.1.8"
ordered-float = "1.0"
string = "0.1.3"
tokio-io = "0.1"
tokio-codec = "0.1"
uuid = { version = "0.7", features = ["v4"] }
libc = "0.2"
futures = "0.1"

[profile.dev]
debug = 0
incremental = false
"""

DEMO = """#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/Cargo.lock" "$dir/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$dir/Cargo.toml"
cd "$dir" || exit 2
unset RUSTFLAGS
CARGO_TARGET_DIR="$dir/target" cargo run --offline --locked -q
"""

DEMO_REGEN = """#!/bin/bash
# runs the crate's generator in a copy, then builds main.rs against that copy and runs it
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/repo" "$dir/demo/src"
cp -r Cargo.toml build.rs codegen src "$dir/repo/"
cp Cargo.lock "$dir/repo/" 2>/dev/null
if [ -f "$here/ext.json" ]; then
    python3 - "$dir/repo/codegen/specification.json" "$here/ext.json" <<'EOF' || exit 2
import json, sys
t = json.load(open(sys.argv[1])) + json.load(open(sys.argv[2]))
json.dump(t, open(sys.argv[1], "w"), indent=1)
EOF
fi
unset RUSTFLAGS
export CARGO_TARGET_DIR="$dir/target"
(cd "$dir/repo" && cargo check --offline -q --features from-spec) || exit 2
cp "$here/main.rs" "$dir/demo/src/main.rs"
cp "$here/Cargo.lock" "$dir/demo/Cargo.lock"
sed "s#@REPO@#$dir/repo#" "$here/Cargo.toml.in" > "$dir/demo/Cargo.toml"
cd "$dir/demo" || exit 2
cargo run --offline --locked -q
"""

PRELUDE = """#![allow(unused_imports, dead_code)]
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::*;
use bytes::{Bytes, BytesMut, BufMut};
use tokio_io::codec::{Decoder, Encoder};

fn enc<T: Encode>(v: &T) -> Vec<u8> {
    let mut b = BytesMut::with_capacity(v.encoded_size() * 2 + (1 << 16));
    v.encode(&mut b);
    b.to_vec()
}
fn dec<T: Decode>(b: &[u8]) -> T {
    match T::decode(b) {
        Ok((rest, v)) => {
            assert!(rest.is_empty(), "{} bytes left over", rest.len());
            v
        }
        Err(e) => panic!("refused: {:?}", e),
    }
}
fn frame(kind: u8, channel: u16, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&((body.len() + 8) as u32).to_be_bytes());
    v.extend_from_slice(&[2, kind]);
    v.extend_from_slice(&channel.to_be_bytes());
    v.extend_from_slice(body);
    v
}

"""


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "plants*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        out += ns["P"]
    ids = [p["id"] for p in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out


def sub(root, file, old, new, n=1):
    p = os.path.join(root, file)
    s = open(p).read()
    if s.count(old) < n:
        raise ValueError("no match in %s: %r" % (file, old))
    i = -1
    for _ in range(n):
        i = s.index(old, i + 1)
    open(p, "w").write(s[:i] + new + s[i + len(old):])


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def original_lines_only(repo, diff):
    """line numbers the diff removes must blame to the base commit"""
    bad = []
    f = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            bl = sh(["git", "blame", "-l", "-s", "HEAD", "--", f], repo).stdout.decode().splitlines()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            if not bl[n - 1].lstrip("^").startswith(BASE):
                bad.append((f, n, bl[n - 1][41:]))
            n += 1
        elif line.startswith(" "):
            n += 1
    return bad


def one(p, repo):
    d = os.path.join(SEEDED, p["id"])
    sh(["git", "checkout", "-q", "--", "."], repo)
    for e in p["edits"]:
        sub(repo, *e)
    diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE).stdout.decode()
    bad = original_lines_only(repo, diff)
    if bad:
        return "changes lines of a fix: %s" % bad
    if not any(l.startswith("-") and not l.startswith("---") for l in diff.splitlines()):
        return "removes no original line"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "main.rs"), "w").write(PRELUDE + p["demo"].strip() + "\n")
    open(os.path.join(d, "Cargo.toml.in"), "w").write(CARGO)
    if p.get("ext"):
        json.dump(p["ext"], open(os.path.join(d, "ext.json"), "w"), indent=1)
    lock = open(os.path.join(VERIF, "harness", "Cargo.lock")).read().replace('name = "amqpmon"', 'name = "demo"')
    # keep the packages sorted by name, as cargo writes them
    head, *pk = lock.split("\n[[package]]\n")
    pk = sorted((x.strip("\n") for x in pk), key=lambda x: x)
    open(os.path.join(d, "Cargo.lock"), "w").write(head + "".join("\n[[package]]\n" + x + "\n" for x in pk))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_REGEN if p.get("regen") else DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    t = sh(["cargo", "test", "--offline", "-q"], repo)
    if t.returncode:
        return "TESTS FAIL with the patch:\n" + t.stdout.decode()[-1500:]
    r = sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
    if r.returncode == 0:
        return "demo passes with the patch:\n" + r.stdout.decode()[-800:]
    out1 = r.stdout.decode()
    if not p.get("ext") and ("error: could not compile" in out1 or "error[E" in out1):
        return "demo does not build:\n" + out1[-2500:]
    sh(["git", "checkout", "-q", "--", "."], repo)
    r = sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
    if r.returncode != 0:
        return "demo fails on the clean tree:\n" + r.stdout.decode()[-1500:]
    return "ok   " + out1.strip().replace("\n", " / ")[:150]


def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    ps = load()
    if "--only" in a:
        want = opt("--only", "").split(",")
        ps = [p for p in ps if any(p["id"].startswith(w) for w in want)]
    q = queue.Queue()
    for p in ps:
        q.put(p)
    def work(n):
        repo = "/tmp/plant/%d/repo" % n
        shutil.rmtree("/tmp/plant/%d" % n, ignore_errors=True)
        os.makedirs("/tmp/plant/%d" % n)
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        shutil.copy("/repo/Cargo.lock", repo)
        while True:
            try:
                p = q.get_nowait()
            except queue.Empty:
                return
            try:
                r = one(p, repo)
            except Exception as e:
                r = "EXC %r" % e
            if not r.startswith("ok") and "--keep" not in a:
                shutil.rmtree(os.path.join(SEEDED, p["id"]), ignore_errors=True)
            print(p["id"], p["property"], r, flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(opt("--slots", "6")))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree("/tmp/plant", ignore_errors=True)


main()
