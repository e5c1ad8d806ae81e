"""Compiles the MIR extraction driver and dumps the crate under /repo as it is now."""
import fcntl
import hashlib
import os
import shutil
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SAV_REPO", "/repo")
CACHE = os.environ.get("SAV_CACHE", os.path.join(ROOT, ".cache"))
CRATE = "substrate_parser"
BASE_FLAGS = "-Zmir-opt-level=0 -Coverflow-checks=on "
FLAGS = {t: BASE_FLAGS + "-Cdebug-assertions=off" for t in ("64", "32", "64ns")}
FLAGS["64da"] = BASE_FLAGS + "-Cdebug-assertions=on -Zub-checks=no"
TARGETS = {
    # 64-bit, default features: what `cargo build` gives
    "64": ["--lib"],
    # 32-bit without std: the embedded configuration
    "32": ["--lib", "--no-default-features", "-Zbuild-std=core,alloc", "--target", "i686-unknown-linux-gnu"],
    # 64-bit without default features
    "64ns": ["--lib", "--no-default-features"],
    # 64-bit, default features, with debug assertions compiled in
    "64da": ["--lib"],
}


class BuildError(Exception):
    pass


class SourceError(BuildError):
    """the crate itself does not compile in this configuration"""


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        kind = SourceError if "could not compile `substrate_parser`" in p.stdout.replace("-", "_") else BuildError
        raise kind("%s failed (%d):\n%s" % (" ".join(cmd), p.returncode, p.stdout[-4000:]))
    return p.stdout


def source_files():
    out = []
    for top in ("src",):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            out += [os.path.join(d, f) for f in sorted(fs)]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs", "rust-toolchain", "rust-toolchain.toml",
              ".cargo/config", ".cargo/config.toml", "README.md"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def dump(target="64"):
    """path of the dumped program for the current working tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _dump(target)


def _dump(target):
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copyfile(os.path.join(ROOT, "driver", "Cargo.lock.repo"), lock)
    src = os.path.join(ROOT, "driver", "main.rs")
    dkey = digest([src])
    drv = os.path.join(CACHE, "driver-" + dkey)
    sysroot = _run(["rustc", "+nightly", "--print", "sysroot"]).strip()
    if not os.path.exists(drv):
        _run(["rustc", "+nightly", "--edition", "2021", "-O", "-o", drv + ".tmp", src])
        os.rename(drv + ".tmp", drv)
    key = hashlib.sha256((dkey + digest(source_files()) + target + FLAGS[target]).encode()).hexdigest()[:20]
    out = os.path.join(CACHE, "dump-%s-%s.json" % (target, key))
    if os.path.exists(out):
        return out
    tgt = os.path.join(CACHE, "target-" + target)
    # cargo's freshness check would skip the wrapper: forget this crate only
    for d, ds, _ in os.walk(tgt):
        if os.path.basename(d) == ".fingerprint":
            for x in ds:
                if x.startswith(CRATE) or x.startswith(CRATE.replace("_", "-")):
                    shutil.rmtree(os.path.join(d, x))
            ds[:] = []
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            env.pop(k)
    env.update(SAV_CRATE=CRATE, SAV_OUT=out + ".tmp", LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
               RUSTC_WORKSPACE_WRAPPER=drv, RUSTFLAGS=FLAGS[target], CARGO_TARGET_DIR=tgt)
    log = _run(["cargo", "+nightly", "check", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
               + TARGETS[target], env=env, cwd=REPO)
    if not os.path.exists(out + ".tmp"):
        raise BuildError("the compiler did not emit a program dump\n" + log[-2000:])
    os.rename(out + ".tmp", out)
    # keep the cache small
    old = sorted((f for f in os.listdir(CACHE) if f.startswith("dump-%s-" % target)),
                 key=lambda f: os.path.getmtime(os.path.join(CACHE, f)))
    for f in old[:-4]:
        os.remove(os.path.join(CACHE, f))
    return out


if __name__ == "__main__":
    import sys
    for t in sys.argv[1:] or ["64", "32"]:
        print(t, dump(t))
