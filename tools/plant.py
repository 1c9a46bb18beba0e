#!/usr/bin/env python3
"""plant.py new ID PROPERTY FILE SPEC.py   -- record and confirm a planted bug
SPEC.py defines: edits=[(file, old, new), ...], needs, breaks, demo (Rust main.rs text).
Confirms in a scratch copy that the change builds, passes the tests in both configurations, and that the demo
fails with it and passes without it."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RC = "/tmp/rc/repo"
E = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
         CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0: behaves as the property demands
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
vers-vecs = { path = "$repo"@FEATURES@ }
[profile.dev]
debug = false
[workspace]
EOF
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
@FLAGS@
cd "$work"
CARGO_TARGET_DIR="$work/target" timeout 200 cargo build --offline -q || exit 3
timeout 60 "$work/target/debug/demo"
'''

def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)

def sync():
    os.makedirs("/tmp/rc", exist_ok=True)
    if not os.path.exists(RC):
        sh("cp -a /repo /tmp/rc/repo", "/tmp")
    sh("git checkout -q -- . ; git clean -fdq -e target -e Cargo.lock", RC)
    r = sh("git -C /repo rev-parse HEAD", RC).stdout.strip()
    sh(f"git fetch -q /repo && git reset -q --hard {r}", RC)

def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = {}
    for c, f, cpu in (("fallback", "--features serde", "x86-64"), ("all-features", "--all-features", "x86-64-v4")):
        e = dict(E, RUSTFLAGS=f"-C target-cpu={cpu}", RUSTDOCFLAGS=f"-C target-cpu={cpu}", CARGO_TARGET_DIR=f"{RC}/target/{c}-{cpu}")
        r = sh(f"cargo test --workspace --no-fail-fast --offline {f} -- --test-threads 8", RC, e)
        bad = [l for l in r.stdout.splitlines() if l.startswith("error") or (l.startswith("test ") and "FAILED" in l)]
        n = sum(int(l.split(" passed")[0].split()[-1]) for l in r.stdout.splitlines() if l.startswith("test result"))
        out[c] = (n, bad[:8])
    return out

def demo(d):
    return sh(f"bash {d}/demo.sh", RC, timeout=400)

def main():
    spec = sys.argv[1]
    g = {}
    exec(open(spec).read(), g)
    for b in g["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
        sync()
        for f, o, n in b["edits"]:
            p = f"{RC}/{f}"
            s = open(p).read()
            if s.count(o) < 1 or (s.count(o) > 1 and not b.get("multi")):
                print(b["id"], "EDIT MATCHES", s.count(o), "times:", o[:60]); break
            s = s.replace(o, n, 1) if not b.get("multi") else s.replace(o, n)
            open(p, "w").write(s)
        else:
            d = f"/tmp/rc/{b['id']}"
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(f"{d}/patch.diff", "w").write(sh("git diff", RC).stdout)
            ft = b.get("features")
            open(f"{d}/demo.sh", "w").write(DEMO.replace("@FEATURES@", f", features = {json.dumps(ft)}" if ft else "")
                .replace("@FLAGS@", "export RUSTFLAGS='-C target-cpu=x86-64-v4'" if ft else "unset RUSTFLAGS")); open(f"{d}/demo.rs", "w").write(b["demo"])
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            t = tests()
            ok = all(not x[1] for x in t.values()) and sum(x[0] for x in t.values()) >= 545
            r = demo(d)
            sh("git checkout -q -- .", RC)
            r0 = demo(d)
            print(b["id"], b["property"], "tests", {k: v for k, v in t.items()}, "demo bug rc", r.returncode, "clean rc", r0.returncode)
            if r.returncode == 3 or r0.returncode: print(r.stdout[-1500:], r0.stdout[-1500:])
            if ok and r.returncode not in (0, 3) and r0.returncode == 0:
                shutil.rmtree(f"{V}/seeded/{b['id']}", ignore_errors=True)
                shutil.copytree(d, f"{V}/seeded/{b['id']}")
                print("   KEPT")
main()
