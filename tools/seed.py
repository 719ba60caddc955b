#!/usr/bin/env python3
"""Planted bugs: seed.py make ID (from the edited worktree) | verify ID... | check ID...   (development aid, not used by any check)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt/repo"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    r = sh("cargo test --workspace --no-run --offline", WT)
    if r.returncode:
        print(r.stdout[-3000:])
    return r.returncode == 0


def tests():
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test .*(ok|FAILED)$'", WT)
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = json.dumps(base)
    bad = [l for l in r.stdout.splitlines() if l.endswith("FAILED") and l.split()[1] in names]
    return bad


def demo(i):
    d = "/tmp/wt/demo"
    subprocess.run(["rm", "-rf", d])
    subprocess.run(["cp", "-a", os.path.join(V, "seeded", i), d])
    return sh("bash %s/demo.sh" % d, WT, timeout=300)


def main():
    op, ids = sys.argv[1], sys.argv[2:]
    for i in ids:
        d = os.path.join(V, "seeded", i)
        patch = os.path.join(d, "patch.diff")
        if op == "make":
            os.makedirs(d, exist_ok=True)
            open(patch, "w").write(sh("git diff", WT).stdout)
            sh("git checkout -- .", WT)
            print(open(patch).read())
        elif op == "verify":
            sh("git checkout -- . && git checkout -q --detach $(git -C /repo rev-parse HEAD)", WT)
            r = sh("git apply %s" % patch, WT)
            if r.returncode:
                print(i, "patch does not apply", r.stdout)
                continue
            ok = build()
            bad = tests() if ok else ["build"]
            r1 = demo(i) if ok else None
            sh("git checkout -- .", WT)
            build()
            r0 = demo(i)
            print(i, "build", ok, "tests-failing", bad, "demo-with", r1 and r1.returncode, "demo-without", r0.returncode, flush=True)
            if r0.returncode or not r1 or not r1.returncode:
                print("WITH:", r1 and r1.stdout[-1500:], "\nWITHOUT:", r0.stdout[-1500:])
        elif op == "check":
            m = json.load(open(os.path.join(d, "meta.json")))
            r = sh("git apply %s" % patch, "/repo")
            if r.returncode:
                print(i, "patch does not apply", r.stdout)
                continue
            try:
                r = sh("VERIF_SEED=1 VERIF_TIER=quick ./run %s" % m["property"], V, timeout=1000)
            finally:
                sh("git checkout -- .", "/repo")
            print(i, m["property"], "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s " % m["property"] in r.stdout else "MISSED rc=%d" % r.returncode, flush=True)
            print("   ", "\n    ".join(r.stdout.splitlines()[:4]), flush=True)


main()
