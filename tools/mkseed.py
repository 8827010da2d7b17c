#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a spec file and confirms it in a scratch copy of /repo.

spec: python file defining  id, property, needs, breaks, edits=[(file, old, new)], demo (rust main.rs)
      and optionally compile_fail (rust source that must NOT compile), features
"""
import os, subprocess, sys, shutil, json
V = "/verif"
WT = "/tmp/seedwt"

DEMO = '''#!/bin/bash
# Run with the repository as working directory. Exit 0: the property is observed to hold.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
rm -rf /tmp/dync-demo
mkdir -p /tmp/dync-demo/src
cat > /tmp/dync-demo/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dync = { path = "$repo"%(features)s }
[workspace]
[profile.dev]
debug-assertions = %(debug)s
overflow-checks = %(debug)s
T
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" /tmp/dync-demo/Cargo.lock
cd /tmp/dync-demo || exit 3
export CARGO_TARGET_DIR=/tmp/dync-demo/target
%(steps)s
rm -rf /tmp/dync-demo
exit $rc
'''
RUN = '''cp "$here/main.rs" src/main.rs
cargo build --offline --quiet || { rm -rf /tmp/dync-demo; exit 4; }
timeout 120 ./target/debug/demo
rc=$?
'''
CF = '''# the permitted program must compile, the forbidden one must not
cp "$here/allowed.rs" src/main.rs
cargo check --offline --quiet || { rm -rf /tmp/dync-demo; exit 4; }
cp "$here/forbidden.rs" src/main.rs
if cargo check --offline --quiet 2>/dev/null; then rc=1; else rc=0; fi
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    sid = spec["id"]
    if not os.path.isdir(WT):
        sh("cp -a /repo " + WT)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=WT)
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    for f, old, new in spec["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print("edit of %s matches %d times: %r" % (f, n, old[:60]))
            return 1
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run("git diff", shell=True, cwd=WT, stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    feats = spec.get("features")
    steps = ""
    if spec.get("demo"):
        open(os.path.join(d, "main.rs"), "w").write(spec["demo"])
        steps = RUN
    else:
        open(os.path.join(d, "allowed.rs"), "w").write(spec["allowed"])
        open(os.path.join(d, "forbidden.rs"), "w").write(spec["forbidden"])
        steps = CF
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % {
        "features": ', features = ["%s"]' % feats if feats else "", "steps": steps, "debug": "true" if spec.get("debug") else "false"})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok = True
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("demo on the unchanged tree:", r.returncode)
    ok &= r.returncode == 0
    if r.returncode:
        print(r.stdout[-1500:])
    r = sh("bash %s/demo.sh" % d, cwd=WT)
    print("demo with the patch:", r.returncode, "|", "\n".join(r.stdout.strip().splitlines()[-3:])[-300:])
    ok &= r.returncode not in (0, 4)
    # the test driver names /repo, so the tests run there, with the patch applied and undone
    if "--notest" not in sys.argv:
        sh("git apply %s/patch.diff" % d, cwd="/repo")
        try:
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seed-t.json")
        finally:
            sh("git checkout -- .", cwd="/repo")
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open("/tmp/seed-t.json"))
        names = base["stable"]
        gp = set(got.get("passed") or got.get("pass") or [])
        miss = [n for n in names if n not in gp]
        print("build", b.returncode, "stable tests failing:", miss[:5] if miss else "none")
        ok &= b.returncode == 0 and not miss
    print(sid, "CONFIRMED" if ok else "NOT CONFIRMED")
    return 0 if ok else 1


sys.exit(main())
