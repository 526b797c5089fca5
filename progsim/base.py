"""Builds hooq and the simulator runtime from /repo's working tree, and compiles batches against them."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "1.88.0"


class HarnessError(Exception):
    pass


def cargo_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    if extra:
        e.update(extra)
    return e


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "docs", "assets"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def cargo_build(crate_dir, target, args, extra=None, clean=True):
    """cargo build with a content stamp: sources changed under equal mtimes are rebuilt all the same"""
    os.makedirs(target, exist_ok=True)
    env = cargo_env({"CARGO_TARGET_DIR": target, **(extra or {})})
    lock = open(os.path.join(target, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        stamp = os.path.join(target, ".stamp")
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else None
        if clean and have is not None and have != want:
            subprocess.run(["cargo", "clean", "--offline", "-p", "hooq-macros", "-p", "hooq", "-p", "hooq-helpers"],
                           cwd=crate_dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if have != want and have is not None:
            os.unlink(stamp)
        p = subprocess.run(["cargo", "build", "--offline", "--message-format=json-render-diagnostics"] + args, cwd=crate_dir, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise HarnessError("build failed:\n" + p.stderr[-6000:])
        with open(stamp, "w") as f:
            f.write(want)
        arts = {}
        for line in p.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                for fn in m["filenames"]:
                    if fn.endswith((".rlib", ".so")):
                        arts[m["target"]["name"].replace("-", "_")] = fn
                if m.get("executable"):
                    arts["exe:" + m["target"]["name"]] = m["executable"]
        return arts
    finally:
        lock.close()


_cache = {}


def ensure(feature):
    """feature: '' or 'consume'; returns rustc arguments"""
    if feature in _cache:
        return _cache[feature]
    target = os.path.join(BUILD, "p-" + (feature or "default"))
    arts = cargo_build(os.path.join(VERIF, "progsim", "base"), target, ["--features", feature] if feature else [])
    args = ["-L", "dependency=" + os.path.join(target, "debug", "deps")]
    for n in ("simrt", "hooq", "anyhow", "eyre", "color_eyre", "log", "tracing"):
        args += ["--extern", f"{n}={arts[n]}"]
    _cache[feature] = args
    return args


def rustc(d, feature, timeout=300, emit=None):
    """compile d/src/main.rs; returns (ok, [(file, message)])"""
    args = ensure(feature)
    env = cargo_env({"CARGO_MANIFEST_DIR": d, "CARGO_PKG_NAME": "batch", "CARGO_CRATE_NAME": "batch"})
    cmd = ["rustc", "--edition", "2024", "--crate-name", "batch", "--crate-type", "bin", "src/main.rs", "-o", "batch",
           "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=1", 
           "--error-format=json", "-A", "warnings"] + args
    if emit:
        cmd += ["--emit", emit]
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    errs = []
    for line in p.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            errs.append(("", line))
            continue
        if m.get("level") in ("error", "error: internal compiler error"):
            fs = [s["file_name"] for s in m.get("spans", []) if s.get("is_primary")]
            fs += [s["file_name"] for s in m.get("spans", [])]
            errs.append((next((f for f in fs if f.startswith("src/")), ""), m.get("rendered") or m.get("message")))
    return p.returncode == 0, errs

