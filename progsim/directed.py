"""Single programs with a stated expectation: corner cases outside the generator's grammar, and the known findings."""
import os
import re
import shutil

import base
import drive

KNOWN = os.path.join(base.VERIF, "known_findings.txt")

# property -> [(name, toml, source of the module, True if it must compile / a pattern its diagnostics must contain)]
NEVER = "pub fn f() -> Result<i64, E> {{ {} }}\npub fn entry() -> String {{ String::new() }}\n"
HEAD = "use simrt::*; use hooq::hooq;\n#[hooq]\n#[hooq::method(.map(|v| v))]\n"
CASES = {
    "C01": [
        ("tail-of-type-never-loop", None, HEAD + NEVER.format("loop { op(1)?; }"), True),
        ("tail-of-type-never-macro", None, HEAD + NEVER.format("op(1)?; todo!()"), True),
    ],
    "C11": [
        ("empty-not-redefinable", '[empty]\nmethod = ".map(|v| v)"\n', "use simrt::*; use hooq::hooq;\n#[hooq(empty)]\npub fn f() -> Result<i64, E> { op(1) }\npub fn entry() -> String { String::new() }\n", r"empty"),
        ("empty-not-redefinable-nested", '[log.empty]\nmethod = ".map(|v| v)"\n', "use simrt::*; use hooq::hooq;\n#[hooq(empty)]\npub fn f() -> Result<i64, E> { op(1) }\npub fn entry() -> String { String::new() }\n", r"empty"),
    ],
}


def known():
    out = set()
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) (\S+?):? ", line)
            if m:
                out.add((m.group(1), m.group(2)))
    return out


def run(pid):
    res = []
    kn = known()
    for name, toml, src, want in CASES.get(pid, []):
        d = os.path.join(drive.WORK, f"directed-{os.getpid()}-{name}")
        u = drive.Unit(0, {k: src for k in "abc"}, False, True)
        try:
            drive.write_batch(d, [u], toml)
            ok, errs = base.rustc(d, "")
            text = "\n".join(m for _, m in errs)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if want is True:
            bad = None if ok else "does not compile: " + text.strip().split("\n")[0]
        else:
            bad = ("compiles, but must be rejected" if ok else
                   None if re.search(want, text) else "rejected for another reason: " + text[:300])
        if bad is None:
            res.append((name, "ok", ""))
        elif (pid, name) in kn:
            res.append((name, "known", bad))
        else:
            res.append((name, "violation", bad))
    return res
