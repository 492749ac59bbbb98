#!/usr/bin/env python3
"""tools/seed.py SPEC.py [ID...]: create and validate planted bugs described in SPEC.py (development aid).

SPEC.py defines BUGS = {id: dict(property, needs, what, edits=[(file, old, new)], demo=<rust source> or sh=<shell>)}"""
import json
import os
import subprocess
import sys
import runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SEEDREPO", "/tmp/seedrepo")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")

DEMO = r'''#!/bin/bash
# run with cwd = the repository, after a build; exit 0 iff the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
mkdir "$s/src" "$s/work"
cp "$here/demo.rs" "$s/src/main.rs"
cp "$repo/Cargo.lock" "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
corecrypto = { package = "volaris-crypto", path = "$repo/crates/volaris-crypto" }
tools = { package = "volaris-tools", path = "$repo/crates/volaris-tools" }
rand = "0.8.5"
anyhow = "1"
zeroize = "1"
zip = { version = "2.2.0", default-features = false, features = ["zstd"] }
[profile.dev]
debug = 0
opt-level = 2
[workspace]
EOF
cd "$s/work" || exit 2
CARGO_TARGET_DIR="$s/target" cargo build -q --offline --manifest-path "$s/Cargo.toml" || exit 2
timeout 200 "$s/target/debug/demo"
'''
SH = r'''#!/bin/bash
# run with cwd = the repository, after a build; exit 0 iff the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
BIN=$PWD/target/debug/volaris-cli
[ -x "$BIN" ] || BIN=$PWD/target/debug/volaris
s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
cd "$s" || exit 2
'''


BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = BASE.get("stable") or BASE.get("passed") or BASE.get("tests")


def sh(c, cwd=W, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for i in sys.argv[2:] or bugs:
        b = bugs[i]
        if not os.path.isdir(W):
            sh("cp -a /repo " + W, "/")
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(W, "crates", f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "edit does not match once (%d): %s %r" % (s.count(old), f, old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(i, "BAD", bad)
            continue
        rc, diff = sh("git diff")
        open(d + "/patch.diff", "w").write(diff)
        if "demo" in b:
            open(d + "/demo.rs", "w").write(b["demo"])
            open(d + "/demo.sh", "w").write(DEMO)
        else:
            open(d + "/demo.sh", "w").write(SH + b["sh"])
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        rc, o = sh("cargo build --workspace --offline 2>&1 | tail -30; cargo test --workspace --no-run --offline 2>&1 | tail -3; test ${PIPESTATUS[0]} = 0")
        if "error" in o and "could not compile" in o:
            print(i, "BAD does not compile\n", o)
            continue
        rc, o = sh("rm -rf crates/volaris-tools/hello_[0-9]*.txt crates/volaris-tools/bar_[0-9]*; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/t.log 2>&1; python3 /opt/vp/results.py /tmp/seedres.json cargo:target/t.log | tail -1; rm -rf crates/volaris-tools/hello_[0-9]*.txt crates/volaris-tools/bar_[0-9]*")
        r = json.load(open("/tmp/seedres.json"))
        failed = len(set(STABLE) - set(r["passed"]))
        rc1, o1 = sh(d + "/demo.sh")
        sh("git checkout -q -- . && cargo build --workspace --offline")
        rc0, o0 = sh(d + "/demo.sh")
        ok = failed == 0 and rc1 != 0 and rc1 != 2 and rc0 == 0
        print(i, "OK" if ok else "BAD", "tests failed %d, demo patched %d, clean %d" % (failed, rc1, rc0), "" if ok else "\n--patched\n%s\n--clean\n%s" % (o1[-600:], o0[-600:]))
        sys.stdout.flush()


main()
