#!/usr/bin/env python3
"""Planted bugs: creation and validation in a scratch copy of /repo (never in /repo).

seed.py validate ID..   applies each patch in /tmp/seed/repo, builds and runs the tests, runs the demonstration on the
                        patched and on the unchanged copy
seed.py catch ID..      applies each patch to a second scratch copy's sources and runs the check of its property there
A planted bug is written with `seed(...)` from a specification file: see `make`.
"""
import json, os, re, subprocess, sys, shutil
ROOT = "/verif/seeded"
WORK = "/tmp/seed/repo"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

DEMO = """#!/bin/bash
# Builds and runs demo.rs against the working tree in the current directory: exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=/tmp/fenris-demo-@ID@
mkdir -p "$d/src"
trap 'rm -rf /tmp/fenris-demo-@ID@' EXIT
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
[profile.dev]
debug = false
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${FENRIS_DEMO_TARGET:-$d/target}
cargo build -q --offline --manifest-path "$d/Cargo.toml" 2> "$d/build.log" || { cat "$d/build.log"; exit 3; }
timeout 100 "$CARGO_TARGET_DIR/debug/demo"
"""
DEPS = {
 "fenris": 'fenris = { path = "$repo" }',
 "fenris-solid": 'fenris-solid = { path = "$repo/fenris-solid" }',
 "fenris-optimize": 'fenris-optimize = { path = "$repo/fenris-optimize" }',
 "fenris-sparse": 'fenris-sparse = { path = "$repo/fenris-sparse" }',
 "fenris-nested-vec": 'fenris-nested-vec = { path = "$repo/fenris-nested-vec" }',
 "fenris-paradis": 'fenris-paradis = { path = "$repo/fenris-paradis" }',
 "fenris-geometry": 'fenris-geometry = { path = "$repo/fenris-geometry" }',
 "fenris-quadrature": 'fenris-quadrature = { path = "$repo/fenris-quadrature" }',
 "polyquad-parse": 'polyquad-parse = { path = "$repo/polyquad-parse" }',
  "fenris-geometry-proptest": 'fenris-geometry = { path = "$repo/fenris-geometry", features = ["proptest-support"] }',
 "proptest": 'proptest = "1.0"',
 "rayon": 'rayon = "*"', "serde_json": 'serde_json = "*"', "nalgebra": "nalgebra = \"*\"", "nalgebra-sparse": 'nalgebra-sparse = "*"', "vtkio": 'vtkio = "*"', "eyre": 'eyre = "*"',
}

def make(id, prop, edits, demo, deps=("fenris",), needs="", breaks=""):
    """edits: list of (file, old, new), each `old` unique in the file at HEAD"""
    d = os.path.join(ROOT, id)
    os.makedirs(d, exist_ok=True)
    tmp = "/tmp/seed/mk"
    sh("rm -rf /tmp/seed/mk && mkdir -p /tmp/seed/mk && cd /repo && git archive HEAD | tar -x -C /tmp/seed/mk && cd /tmp/seed/mk && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x")
    for f, a, b in edits:
        p = os.path.join(tmp, f)
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run("git diff", shell=True, cwd=tmp, stdout=subprocess.PIPE, text=True).stdout
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo.strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO.replace("@ID@", id).replace("@DEPS@", "\n".join(DEPS[x] for x in deps)))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    sh("rm -rf /tmp/seed/mk")

ENV = ("export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 "
       "CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 PROPTEST_RNG_SEED=20230925 INSTA_UPDATE=no RUST_BACKTRACE=0; ")

def copy_tree():
    """make /tmp/seed/repo equal to /repo's HEAD, touching only files that differ"""
    os.makedirs(WORK, exist_ok=True)
    if not os.path.exists(WORK + "/.git"):
        sh("cd /repo && git archive HEAD | tar -x -C /tmp/seed/repo && cp /repo/Cargo.lock /tmp/seed/repo/ && cd /tmp/seed/repo && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x")
    sh("cd /tmp/seed/repo && git checkout -q -- . && rm -rf /tmp/seed/new && mkdir /tmp/seed/new && cd /repo && git archive HEAD | tar -x -C /tmp/seed/new")
    for base, _, files in os.walk("/tmp/seed/new"):
        for f in files:
            p = os.path.join(base, f)
            q = os.path.join(WORK, os.path.relpath(p, "/tmp/seed/new"))
            if not os.path.exists(q) or open(p, "rb").read() != open(q, "rb").read():
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copyfile(p, q)
    sh("cd /tmp/seed/repo && git add -A && git -c user.name=x -c user.email=x commit -qm x; rm -rf /tmp/seed/new")

def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh(ENV + "cd /tmp/seed/repo && CARGO_TARGET_DIR=/tmp/seed/target cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    sh("cd /tmp/seed/repo && git clean -fdq")
    bad = re.findall(r"^test (.*?) \.\.\. FAILED", r.stdout, re.M) + re.findall(r"^test (.*?) - .*FAILED", r.stdout, re.M)
    err = re.findall(r"^error.*", r.stdout, re.M)
    n = len(re.findall(r"^test .* ok$", r.stdout, re.M))
    return n, [b for b in bad if "basic_extrapolation" not in b], [e for e in err if "test failed" not in e and "target failed" not in e and "targets failed" not in e and "doctest failed" not in e], r.stdout

def demo(id):
    return sh("export FENRIS_DEMO_TARGET=/tmp/seed/demotarget; cd /tmp/seed/repo && bash %s/%s/demo.sh" % (ROOT, id))

def validate(ids):
    copy_tree()
    for id in ids:
        out = []
        d = demo(id)
        out.append("demo unchanged: %d" % d.returncode)
        if d.returncode: out.append(d.stdout[-1500:])
        a = sh("cd /tmp/seed/repo && git apply %s/%s/patch.diff" % (ROOT, id))
        if a.returncode: out.append("APPLY FAILED " + a.stdout)
        d = demo(id)
        out.append("demo patched: %d %s" % (d.returncode, d.stdout.strip()[-300:].replace("\n", " | ")))
        ok = d.returncode not in (0, 3) and out[0].endswith(": 0")
        n, bad, err, log = tests()
        out.append("tests ok %d failed %s errors %s" % (n, bad, err[:5]))
        ok = ok and not bad and not err and n >= 297
        sh("cd /tmp/seed/repo && git checkout -q -- . && git clean -fdq")
        print(("VALID " if ok else "INVALID ") + id, "; ".join(out), flush=True)

def scratch_checks():
    """scratch copies of /repo's HEAD and of the machinery, the latter building against the former"""
    global WORK
    keep, WORK = WORK, "/tmp/catch/repo"
    os.makedirs("/tmp/catch/verif", exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    if not os.path.exists(WORK + "/.git"):
        sh("cd /repo && git archive HEAD | tar -x -C /tmp/catch/repo && cp /repo/Cargo.lock /tmp/catch/repo/ && cd /tmp/catch/repo && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x")
    head = sh("git -C /repo rev-parse HEAD").stdout
    if not os.path.exists("/tmp/catch/head") or open("/tmp/catch/head").read() != head:
        sh("cd /tmp/catch/repo && git checkout -q -- . && git archive --remote=/repo HEAD | tar -x -C /tmp/catch/repo && git add -A && git -c user.name=x -c user.email=x commit -qm x")
        open("/tmp/catch/head", "w").write(head)
    sh("cd /tmp/catch/repo && git checkout -q -- . && git clean -fdq")
    sh("cd /verif && tar --exclude=./target --exclude=./.git --exclude=./seeded --exclude=./evidence --exclude=./harness/target -c . | tar -x -C /tmp/catch/verif --skip-old-files")
    for base, _, files in os.walk("/verif"):
        if any(x in base for x in ("/target", "/.git", "/seeded", "/evidence", "/replays")): continue
        for f in files:
            p = os.path.join(base, f)
            q = p.replace("/verif", "/tmp/catch/verif", 1)
            d = open(p, "rb").read()
            if p in ("/verif/build", "/verif/harness/Cargo.toml"):
                d = d.replace(b"/repo", b"/tmp/catch/repo").replace(b"tmp/catch/repo.stamp", b"repo.stamp")
            if not os.path.exists(q) or open(q, "rb").read() != d:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "wb").write(d)
                shutil.copymode(p, q)
    WORK = keep

def catch(ids):
    scratch_checks()
    for id in ids:
        prop = json.load(open("%s/%s/meta.json" % (ROOT, id)))["property"]
        a = sh("cd /tmp/catch/repo && git apply %s/%s/patch.diff" % (ROOT, id))
        if a.returncode: print("APPLY FAILED", id, a.stdout); continue
        try:
            r = sh("cd /tmp/catch/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check %s" % prop)
        finally:
            sh("git -C /tmp/catch/repo checkout -q -- .")
        v = re.findall(r"^VIOLATION.*|^ERROR.*", r.stdout, re.M)
        f = re.findall(r"^C\d\d (\S+)[^\n]*\n  case (\d+) failed: (.{0,110})", r.stdout, re.M)
        print("CAUGHT" if r.returncode == 1 and v else "MISSED", id, prop, "rc=%d" % r.returncode, f[:2] if f else v, flush=True)

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if ids == ["all"]: ids = sorted(os.listdir(ROOT))
    {"validate": validate, "catch": catch}[cmd](ids)
