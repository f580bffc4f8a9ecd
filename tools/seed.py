#!/usr/bin/env python3
"""Development tool (no check uses it).  seed.py verify ID.. | catch ID.. [--scale]
verify: in a scratch copy of /repo: demo passes, patch applies, builds, tests pass, demo fails.
catch:  apply to /repo, run the check of the property, undo."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/seedcopy"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.isdir(COPY):
        sh("cp -a /repo " + COPY, "/")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- . && git clean -fdq", COPY)
def demo(d):
    # elsewhere, and without the patch
    sh("rm -rf /tmp/seeddemo && mkdir /tmp/seeddemo && cp -r %s/. /tmp/seeddemo/ && rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json" % d, "/")
    r = sh("bash /tmp/seeddemo/demo.sh", COPY, timeout=300)
    return r.returncode, r.stdout
def verify(i):
    d = os.path.join(ROOT, "seeded", i)
    fresh()
    b = "cargo build --workspace --offline && cargo build -p json_typegen_shared --no-default-features --offline && cargo test --workspace --no-run --offline"
    r = sh(b, COPY)
    if r.returncode: return "base build fails\n" + r.stdout[-2000:]
    rc, o = demo(d)
    if rc: return "demo fails on the unchanged tree: %d\n%s" % (rc, o[-3000:])
    r = sh("git apply " + d + "/patch.diff", COPY)
    if r.returncode: return "does not apply: " + r.stdout
    r = sh(b, COPY)
    if r.returncode: return "does not build\n" + r.stdout[-3000:]
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", COPY)
    if r.returncode: return "tests fail\n" + r.stdout[-3000:]
    rc, o = demo(d)
    if rc == 0: return "demo passes with the patch\n" + o[-2000:]
    return "OK  (demo: %s)" % o.strip().splitlines()[-1:]
def catch(i):
    d = os.path.join(ROOT, "seeded", i)
    p = json.load(open(d + "/meta.json"))["property"]
    if sh("git status --porcelain -uno", "/repo").stdout.strip(): return "/repo is not clean"
    r = sh("git apply " + d + "/patch.diff", "/repo")
    if r.returncode: return "does not apply: " + r.stdout
    try:
        r = sh("./check " + p, ROOT)
    finally:
        sh("git checkout -- .", "/repo")
    out = [l for l in r.stdout.splitlines() if l.strip()]
    hit = r.returncode == 1 and any(l.startswith("VIOLATION property=%s " % p) for l in out)
    return ("CAUGHT by " if hit else "MISSED by ") + p + " rc=%d\n   " % r.returncode + "\n   ".join(l[:200] for l in out[:6])
if __name__ == "__main__":
    f = {"verify": verify, "catch": catch}[sys.argv[1]]
    ids = sys.argv[2:] or sorted(os.listdir(ROOT + "/seeded"))
    for i in ids:
        print(i + ":", f(i), flush=True)
