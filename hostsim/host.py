"""Builds the macro library and the expansion host from /repo's working tree, and runs scenarios on host processes."""
import json
import os
import queue
import subprocess
import threading

import base

HERE = os.path.dirname(os.path.abspath(__file__))
_built = {}


def ensure():
    """(host executable, macro library, symbol)"""
    if "r" in _built:
        return _built["r"]
    so_t, host_t = os.path.join(base.BUILD, "h-so"), os.path.join(base.BUILD, "h-host")
    arts = base.cargo_build(os.path.join(base.VERIF, "progsim", "base"), so_t, ["-p", "hooq-macros"],
                            extra={"RUSTUP_TOOLCHAIN": "stable", "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "1"})
    so = arts["hooq_macros"]
    arts = base.cargo_build(os.path.join(HERE, "host"), host_t, [],
                            extra={"RUSTUP_TOOLCHAIN": "stable", "RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-C link-arg=-rdynamic -Z export-executable-symbols"}, clean=False)
    exe = arts["exe:hosthost"]
    out = subprocess.run(["nm", "-D", "--defined-only", so], stdout=subprocess.PIPE, text=True).stdout
    syms = [x.split()[-1] for x in out.splitlines() if "__rustc_proc_macro_decls_" in x]
    if len(syms) != 1:
        raise base.HarnessError("no macro table in " + so)
    _built["r"] = (exe, so, syms[0])
    return _built["r"]


class Worker:
    def __init__(self):
        exe, so, sym = ensure()
        env = {"PATH": os.environ.get("PATH", ""), "LANG": "C"}
        self.p = subprocess.Popen([exe, so, sym], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def run(self, sc):
        self.p.stdin.write(json.dumps(sc).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise base.HarnessError("host process ended")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


_local = threading.local()
_all = []


def run(sc):
    """runs a scenario on this thread's host process"""
    w = getattr(_local, "w", None)
    if w is None:
        w = _local.w = Worker()
        _all.append(w)
    return w.run(sc)


def shutdown():
    for w in _all:
        w.close()
    _all.clear()
    _local.__dict__.clear()
