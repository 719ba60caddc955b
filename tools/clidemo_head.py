import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import numpy as np
from lib import dng, tiff
env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "dnglab", "--bin", "dnglab"], env=env, capture_output=True, text=True)
assert r.returncode == 0, r.stderr
exe = os.getcwd() + "/target/debug/dnglab"
tmp = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
os.makedirs(tmp + "/in"); os.makedirs(tmp + "/out")


def img(k, h=16, w=16):
    return (np.arange(h * w).reshape(h, w) * (2 * k + 3) + k) % 4096


def run(*a):
    r = subprocess.run([exe, *a], cwd=tmp, capture_output=True, text=True, timeout=250)
    return r.returncode, r.stderr


def done(ok, msg=""):
    shutil.rmtree(tmp, ignore_errors=True)
    print("ok" if ok else "BROKEN", msg)
    sys.exit(0 if ok else 1)

