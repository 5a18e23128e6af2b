"""Builds the harness against /repo's working tree and loads the emitted IR."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

import irparse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, ".build")

VARIANTS = {
    "std": [],
    "libm": ["--no-default-features", "--features", "nostd"],
}


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for base in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(HARNESS, "Cargo.toml"))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()


def prepare(variant="std"):
    """Returns the directory holding the IR and the shared library."""
    tgt = os.path.join(CACHE, variant)
    os.makedirs(tgt, exist_ok=True)
    deps = os.path.join(tgt, "release", "deps")
    with open(os.path.join(tgt, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        stamp = os.path.join(tgt, "stamp")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == want:
            return tgt
        # drop everything derived from the crate under test: mtimes are not trusted
        for pat in ("sgp4-*", "libsgp4-*", "harness*", "libharness*"):
            for f in glob.glob(os.path.join(deps, pat)) + glob.glob(os.path.join(tgt, "release", pat)):
                if os.path.isfile(f):
                    os.remove(f)
        for pat in ("sgp4-*", "harness-*"):
            for d in glob.glob(os.path.join(tgt, "release", ".fingerprint", pat)):
                shutil.rmtree(d)
        env = dict(os.environ)
        env.update(
            RUSTUP_TOOLCHAIN="stable",
            CARGO_TARGET_DIR=tgt,
            CARGO_NET_OFFLINE="true",
            RUSTFLAGS="--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp",
        )
        env.pop("CARGO_ENCODED_RUSTFLAGS", None)
        cmd = ["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")] + VARIANTS[variant]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError(p.stdout[-6000:])
        with open(stamp, "w") as f:
            f.write(want)
    return tgt


_mods = {}


def modules(variant="std", crates=("harness", "sgp4")):
    tgt = prepare(variant)
    res = []
    for c in crates:
        key = (variant, c)
        if key not in _mods:
            fs = glob.glob(os.path.join(tgt, "release", "deps", c + "-*.ll")) + glob.glob(os.path.join(tgt, "release", "deps", c + ".ll"))
            if len(fs) != 1:
                raise BuildError("expected one IR file for %s, found %r" % (c, fs))
            _mods[key] = irparse.Module(open(fs[0]).read(), fs[0])
        res.append(_mods[key])
    return res


def library(variant="std"):
    return os.path.join(prepare(variant), "release", "libharness.so")
