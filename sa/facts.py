"""Builds the MIR fact file of /repo's current working tree.

The rustc driver (driver/main.rs) is compiled once, then run by `cargo check`
over /repo as workspace wrapper.  Build products live in /verif/.cache; the
fact file is keyed by the content of everything it depends on."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HTP_REPO", "/repo")
CACHE = os.environ.get("HTP_CACHE", os.path.join(VERIF, ".cache"))


class FactsError(Exception):
    pass


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _run(cmd, env, cwd, what):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise FactsError("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


def build():
    """path of the fact file for the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build()


def _build():
    env = _env()
    drv_src = os.path.join(VERIF, "driver", "main.rs")
    drv = os.path.join(CACHE, "htpfacts-" + _digest([drv_src]))
    if not os.path.exists(drv):
        _run(["rustc", "+nightly", "-O", "-C", "debuginfo=0", "--edition", "2021", drv_src, "-o", drv + ".tmp"],
             env, CACHE, "compiling the MIR driver")
        os.rename(drv + ".tmp", drv)
    srcs = []
    for d, dn, fs in os.walk(os.path.join(REPO, "src")):
        srcs += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs", "cbindgen.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            srcs.append(p)
    key = _digest(srcs + [drv_src])
    out = os.path.join(CACHE, "facts-%s.json" % key)
    if os.path.exists(out):
        return out
    for f in os.listdir(CACHE):
        if f.startswith("facts-"):
            os.remove(os.path.join(CACHE, f))
    lock = os.path.join(REPO, "Cargo.lock")
    made_lock = False
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, "driver", "repo.Cargo.lock"), lock)
        made_lock = True
    tgt = os.path.join(CACHE, "target")
    fpd = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fpd):
        for f in os.listdir(fpd):
            if f.startswith("htp-"):
                shutil.rmtree(os.path.join(fpd, f))
    hdr = os.path.join(CACHE, "hdr")
    os.makedirs(os.path.join(hdr, "htp"), exist_ok=True)
    sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env, CACHE, "rustc").strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    env["HTPFACTS_OUT"] = out + ".tmp"
    env["CARGO_TARGET_DIR"] = tgt
    env["CBINDGEN_HEADERS_DIR"] = hdr
    try:
        log = _run(["cargo", "+nightly", "check", "--lib", "--offline", "--no-default-features"], env, REPO,
                   "extracting MIR facts")
    finally:
        if made_lock:
            os.remove(lock)
    if not os.path.exists(out + ".tmp"):
        raise FactsError("the MIR driver wrote no facts:\n" + log[-3000:])
    os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    print(build())
