#!/usr/bin/env python3
"""Helper to make and validate seeded bugs (never used by a check).
seed.py make <id> <property> <crate> : takes the working-tree diff of /tmp/scratch/seed (a copy of /repo) as
  patch.diff, and demo.rs from stdin; writes demo.sh. seed.py test <id>...: validates in the scratch copy."""
import json, os, subprocess, sys, shutil
V = "/verif/seeded"; W = "/tmp/scratch/seed"
DEMO = '''#!/bin/bash
# Run with cwd /repo. Exit 0 when the behaviour is right, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
%s
END
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cd "$t" && cargo build -q --offline && ./target/debug/demo
'''
DEPS = {"iri": 'rdftk_iri = { path = "$repo/rdftk_iri" }\nserde_json = "1"\nurl = "2"',
        "core": 'rdftk_core = { path = "$repo/rdftk_core" }\nrdftk_iri = { path = "$repo/rdftk_iri" }',
        "io": 'rdftk_io = { path = "$repo/rdftk_io" }\nrdftk_core = { path = "$repo/rdftk_core" }\nrdftk_iri = { path = "$repo/rdftk_iri" }',
        "cli": "",
        "names": 'rdftk_names = { path = "$repo/rdftk_names" }\nrdftk_iri = { path = "$repo/rdftk_iri" }'}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.isdir(W):
        os.makedirs("/tmp/scratch", exist_ok=True)
        sh(f"cp -a /repo {W}")
    r = sh(f"cd {W} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq")
    assert r.returncode == 0, r.stderr
def demo(i):
    r = sh(f"bash {V}/{i}/demo.sh", cwd=W)
    return r.returncode, (r.stdout + r.stderr)[-300:]
def own_lines(i):
    """Lines the patch removes which the original repository does not have."""
    own, f, old = [], None, set()
    for l in open(f"{V}/{i}/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            old = set(x.strip() for x in sh(f"git -C /repo show 686a6da:{f}").stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() not in old:
            own.append(l.strip())
    return own
def test(i, ok=None):
    fresh()
    a = demo(i)
    r = sh(f"git apply {V}/{i}/patch.diff", cwd=W)
    if r.returncode: return print(i, "PATCH FAILS", r.stderr)
    env = "source /opt/vp/env.sh; cd %s; " % W
    t = sh(f"bash -c '{env} cargo test -p rdftk_iri --no-fail-fast --offline -- --test-threads 8 > /tmp/scratch/t.log 2>&1; python3 /opt/vp/results.py /tmp/scratch/o.json cargo:/tmp/scratch/t.log'")
    o = json.load(open("/tmp/scratch/o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    missing = set(b["stable"]) - set(o["passed"])
    d = demo(i)
    new = own_lines(i)
    if new: print(i, "CHANGES LINES OF OUR OWN:", new[:3])
    good = not new and a[0] == 0 and d[0] != 0 and not missing
    print(i, "OK" if good else "BAD", "clean:", a[0], "" if a[0] == 0 else a[1], "patched:", d[0], d[1].strip().replace("\n", " ")[-160:], "missing:", list(missing)[:3], flush=True)
    fresh()
def make(i, prop, crate, needs, breaks, src):
    d = sh("git diff", cwd=W).stdout
    assert d.strip(), "no diff"
    os.makedirs(f"{V}/{i}", exist_ok=True)
    open(f"{V}/{i}/patch.diff", "w").write(d)
    open(f"{V}/{i}/demo.rs", "w").write(src)
    open(f"{V}/{i}/demo.sh", "w").write(DEMO % DEPS[crate])
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{V}/{i}/meta.json", "w"), indent=1)
    fresh()
def edit(path, *pairs):
    p = f"{W}/{path}"; s = open(p).read()
    for a, b in pairs:
        assert s.count(a) == 1, (s.count(a), a)
        s = s.replace(a, b)
    open(p, "w").write(s)
if __name__ == "__main__":
    for i in (sys.argv[2:] or sorted(os.listdir(V))): test(i)
