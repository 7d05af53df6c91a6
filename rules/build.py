"""Builds the compiler driver and extracts the facts of /repo's current tree."""
import fcntl
import hashlib
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(ROOT, ".cache")
DRIVER = os.path.join(ROOT, "driver", "target", "debug", "mirfacts")

CONFIGS = {
    "default": ["--features", "json"],
    "noray": ["--no-default-features", "--features", "zlib-ng,json"],
    "all": ["--all-features"],
}


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None, tmo=850):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def base_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET_DIR", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_driver():
    e = base_env()
    run(["cargo", "+nightly", "build", "--offline", "-q"], os.path.join(ROOT, "driver"), e)


def tree_hash(cfg):
    h = hashlib.sha256()
    files = []
    for top in ("src",):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    files += [os.path.join(ROOT, "driver", "src", "main.rs")]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    h.update(cfg.encode())
    return h.hexdigest()[:24]


def facts(cfg="default"):
    """path of the facts file for a configuration, rebuilt from /repo's working tree"""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_driver()
        out = os.path.join(CACHE, "facts-%s-%s.json" % (cfg, tree_hash(cfg)))
        if os.path.exists(out):
            return out
        for f in os.listdir(CACHE):
            if f.startswith("facts-%s-" % cfg):
                os.unlink(os.path.join(CACHE, f))
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"], ROOT, base_env()).strip()
        e = base_env()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target-" + cfg)
        e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        e["MIRFACTS_OUT"] = tmp
        # cargo's freshness check would silently skip the driver
        run(["cargo", "clean", "--offline", "-p", "wz_reader"], REPO, e)
        had = os.path.exists(os.path.join(REPO, "Cargo.lock"))
        run(["cargo", "check", "--lib", "--offline"] + CONFIGS[cfg], REPO, e)
        if not had and os.path.exists(os.path.join(REPO, "Cargo.lock")):
            os.unlink(os.path.join(REPO, "Cargo.lock"))
        if not os.path.exists(tmp):
            raise BuildError("the driver wrote no facts")
        os.rename(tmp, out)
        return out
    finally:
        lock.close()
