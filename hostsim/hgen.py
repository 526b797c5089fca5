"""Worlds (projects, configuration versions, source programs) and the histories run in them."""
import json
import random

import hmodel

# ---------------------------------------------------------------- writing TOML

def tstr(r, s):
    k = r.randrange(6)
    if k == 0 and "'" not in s and "\n" not in s:
        return "'" + s + "'"
    if k == 1 and "'''" not in s and not s.endswith("'"):
        return "'''" + ("\n" if r.random() < .5 else "") + s + "'''"
    if k == 2:
        return '"""' + ("\n" if r.random() < .5 else "") + s.replace("\\", "\\\\").replace('"', '\\"') + '"""'
    return json.dumps(s, ensure_ascii=r.random() < .5)


def tkey(r, k):
    if not all(c.isascii() and (c.isalnum() or c in "-_") for c in k) or k == "":
        return json.dumps(k, ensure_ascii=False)
    x = r.random()
    return k if x < .85 else f'"{k}"' if x < .95 else f"'{k}'"


def tval(r, v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return tstr(r, v)
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, list):
        if r.random() < .2:
            return "[\n" + "".join(f"    {tval(r, x)},{' # c' if r.random() < .2 else ''}\n" for x in v) + "]"
        return "[" + ", ".join(tval(r, x) for x in v) + ("," if v and r.random() < .2 else "") + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{tkey(r, k)} = {tval1(r, x)}" for k, x in v.items()) + " }"
    return v.raw


def tval1(r, v):
    """inside an inline table: no newlines"""
    while True:
        t = tval(r, v)
        if "\n" not in t:
            return t


class Raw:
    def __init__(self, raw):
        self.raw = raw


def write(r, tables, shuffle=True):
    """TOML text of nested tables, in any of the ways TOML has to say it"""
    secs = []
    inline_root = []

    def sec(path, t):
        own = []
        for k, v in shuffled(t.items()):
            if isinstance(v, dict):
                x = r.random()
                if x < .55 or k not in hmodel.FIELDS and x < .8:
                    sec(path + [k], v)
                elif x < .85 and k == "bindings" and v:
                    own += [f"{tkey(r, k)}.{tkey(r, b)} = {tval(r, e)}" for b, e in v.items()]
                else:
                    own.append(f"{tkey(r, k)} = {tval1(r, deep(v))}")
            else:
                own.append(f"{tkey(r, k)} = {tval(r, v)}")
        has_sub = any(s[0][:len(path)] == path for s in secs)
        if own or not has_sub or r.random() < .5:
            secs.append((path, own))

    def deep(v):
        return v

    def shuffled(xs):
        xs = list(xs)
        if shuffle:
            r.shuffle(xs)
        return xs
    for k, v in shuffled(tables.items()):
        if not isinstance(v, dict):
            inline_root.append(f"{tkey(r, k)} = {tval(r, v)}")
        elif r.random() < .08:
            inline_root.append(f"{tkey(r, k)} = {tval1(r, v)}")
        else:
            sec([k], v)
    if shuffle:
        r.shuffle(secs)
    out = inline_root
    for path, own in secs:
        if r.random() < .2:
            out.append(r.choice(["", "# comment", "   "]))
        out.append("[" + r.choice([".", ".", ".", " . "]).join(tkey(r, p) for p in path) + "]")
        out += own
    t = "\n".join(out) + r.choice(["\n", "", "\n\n"])
    if r.random() < .1:
        t = t.replace("\n", "\r\n")
    return t


# ---------------------------------------------------------------- configurations

NAMES = ["default", "hook", "log", "anyhow", "eyre", "color_eyre", "tracing", "my", "other", "zeta", "a1", "Default", "_x"]
SUBS = ["sub", "deep", "error", "info", "release", "a", "b", "default", "Sub"]
IDENTS = ["Err", "Ok", "Fail", "Done", "Bad", "mk"]
TARGETS = [["?"], ["return"], ["tail_expr"], ["?", "return"], ["return", "tail_expr"], ["?", "tail_expr"], ["?", "return", "tail_expr"], [],
           ["tail_expr", "return", "?"]]
TYPES = [["Result"], ["Result", "MyRes"], ["Option"], [], ["Outcome", "Option"], ["i64"], ["MyRes"]]


def idents(r, neg=.35):
    return [("!" if r.random() < neg else "") + x for x in r.sample(IDENTS, r.randrange(0, 4))]


class Tags:
    def __init__(self, pre):
        self.pre, self.n = pre, 0

    def __call__(self):
        self.n += 1
        return f"{self.pre}{self.n}"


def full_table(r, tags, depth, dens=.5):
    t = {}
    if r.random() < dens:
        t["trait_uses"] = [f"tr::{tags()}" for _ in range(r.randrange(0, 3))]
    if r.random() < dens:
        t["method"] = r.choice(['.hk("%s", $line)', '.hkb("%s", $line, $bindings)', 'hkr("%s", $line, $expr)', '.hkb("%s", $line, $vars)',
                                '.hkb("%s", $line, $bindings)', 'hkrb("%s", $line, $expr, $bindings)', '.hk("%s",\n    $line)']) % tags()
    if r.random() < dens:
        t["hook_targets"] = list(r.choice(TARGETS))
    if r.random() < dens:
        t["tail_expr_idents"] = idents(r)
    if r.random() < dens * .8:
        t["ignore_tail_expr_idents"] = idents(r, 0)
    if r.random() < dens:
        t["result_types"] = list(r.choice(TYPES))
    if r.random() < dens:
        t["hook_in_macros"] = r.random() < .5
    if r.random() < dens * 1.2:
        t["bindings"] = {r.choice(["b1", "b2", "b3", "ver", "B1", "vEr", "B2", "a_b", "aB"]): r.choice([f'"{tags()}"', str(r.randrange(99)), "1 + 2", "x::Y", "f(1, 2)", "::log::Level::Warn"])
                         for _ in range(r.randrange(0, 4))}
        if r.random() < .25:
            t["bindings"]["level"] = r.choice([f'"{tags()}"', f"lv::L{r.randrange(9)}", "x::Y", "::log::Level::Warn"])
    if depth > 0:
        for s in r.sample(SUBS, r.choice([0, 0, 1, 1, 2, 3])):
            t[s] = full_table(r, tags, depth - 1, dens)
    return t


def full_config(r, pre):
    tags = Tags(pre)
    dens = r.choice([.15, .4, .7])
    depth = r.choice([1, 2, 2, 3])
    return {n: full_table(r, tags, depth, dens) for n in r.sample(NAMES, r.randrange(1, 6))}


def tagged_config(r, tag, names=("default", "my", "log")):
    """a version of a project's configuration: every flavor of it carries the tag in several fields"""
    def tab(sub):
        t = {"method": '.hk("%s", $line, $ver)' % tag, "bindings": {"ver": f'"{tag}"'}, "trait_uses": [f"tv::{tag}"]}
        if r.random() < .3:
            t["hook_targets"] = r.choice([["?"], ["?", "return"], ["?", "return", "tail_expr"]])
        if r.random() < .3:
            t["tail_expr_idents"] = idents(r)
        if r.random() < .2:
            t["hook_in_macros"] = r.random() < .5
        if sub:
            t["sub"] = tab(False)
            if r.random() < .5:
                t["sub"].pop(r.choice(["method", "bindings", "trait_uses"]))
        return t
    c = {n: tab(n == "my" or r.random() < .2) for n in names}
    if r.random() < .4:
        # a long file, read in several pieces
        c["pad"] = {"method": ".pad()", "bindings": {f"k{i}": f'"{tag}{"x" * r.randrange(200)}"' for i in range(r.randrange(2, 90))}}
    return c


def bad_config(r, tag):
    """an invalid version: the text, from tables that carry the tag, with something wrong somewhere"""
    c = tagged_config(r, tag)
    n = r.choice(list(c))
    k = r.randrange(17)
    where = c[n]
    if r.random() < .4:
        where = c["my"].setdefault("sub", {})
    new = r.choice(["zz", "aa"])
    if k == 0:
        return write(r, c) + r.choice(["\n[my", "\n]", "\nx = ", "\nmethod = 'a", "\n[a]\n[a]\n", "\n= 1", "\n\"", "\nkey value\n", "\u0007"])
    if k == 1:
        where["method"] = 3
    elif k == 2:
        where[r.choice(["hook_targets", "tail_expr_idents", "result_types", "trait_uses"])] = r.choice(["?", True, {"a": "b"}, ["?", 1]])
    elif k == 3:
        where["hook_in_macros"] = r.choice(["true", 1])
    elif k == 4:
        where["method"] = r.choice(['.hk("%s"' % tag, "}", "(", ".hk(\"x]\")]"])
    elif k == 5:
        x = r.choice(["1 +", "(", "a b", "", "let"])
        where["bindings"] = r.choice([{"ver": f'"{tag}"', "zb": x}, {"ver": x}, {"aa": "1", "ver": x, "zz": "2"}])
    elif k == 6:
        where["trait_uses"] = [f"tv::{tag}", r.choice(["", "a b", "::", "1"])]
    elif k == 7:
        where["hook_targets"] = ["?", r.choice(["questions", "Return", "", "??"])]
    elif k == 8:
        c["empty"] = {"method": '.hk("%s", $line)' % tag}
    elif k == 9:
        c["my"]["empty"] = {}
    elif k == 10:
        where[r.choice(["methods", "hook_target", "unknown"])] = r.choice(["x", 1, True])
    elif k == 11:
        c[new] = r.choice(["x", 1])
    elif k == 12:
        where["bindings"] = {"ver": r.choice([1, True])}
    elif k == 13:
        c[""] = {}
    elif k == 15:
        # loads, but makes no expression where it is used
        where["method"] = r.choice(["", ".", "let", ". 1 +", ";", "$", ".hk($)", "$nope", ".hk($nope)", ". . .", "$expr $expr", "a b", ".hk(\"%s\") x" % tag, "=> 1"])
    elif k == 14:
        return write(r, c) + "\n# caf\x00e\n" + "".join(chr(x) for x in (0x63, 0xe9, 0xff))  # written as latin-1: not UTF-8
    else:
        return write(r, c) + "\n[default]\nmethod = 1\n"
    return write(r, c)


ATTRS = ["", "", "my", "my::sub", "log", 'flavor = "my.sub"', 'flavor = "my"', "hook", "log::warn", "empty", "my, trait_use(zz::T)", "trait_use(zz::T)",
         'flavor = "default"']


def small_item(r):
    t, _ = hmodel.probe(r, r.randrange(2, 5))
    return t.replace(hmodel.IND, "  ")


class World:
    """projects and requests; version texts are latin-1 strings of their UTF-8 bytes"""


def utf(s):
    return s.encode("utf-8").decode("latin-1")


def raw_latin(s):
    """bad_config's last kind is not UTF-8 on purpose"""
    if "\x00e\n" in s and s.endswith("\xe9\xff"):
        return s
    return utf(s)


DIRS = ["/sim/a/app", "/sim/b/app", "/sim/ws", "/sim/ws/app", "/sim/a", "/sim/x y/\u00fcn", "/sim/ws/app2", "/sim/A/app", "/sim/a/app-1", "/sim/a/ap"]


def cargo(r, i, dep):
    d = {"hooq": 'hooq = "0.3"', "ren": f'ren{i} = {{ package = "hooq", version = "0.3" }}', "dash": f'ren-{i} = {{ version = "0.3", package = "hooq" }}',
         "sec": f'[dependencies.ren{i}]\npackage = "hooq"\nversion = "0.3"', "dev": f'[dev-dependencies]\nren{i} = {{ package = "hooq", version = "0.3" }}'}[dep]
    if dep not in ("sec", "dev"):
        d = "[dependencies]\n" + d
    return f'[package]\nname = "{r.choice(["app", f"app{i}"])}"\nversion = "0.1.0"\nedition = "2024"\n\n{d}\n'


def project(r, i, d, cwd=False):
    p = {"i": i, "dir": d, "env": {} if cwd else {"CARGO_MANIFEST_DIR": d}, "path": d + "/hooq.toml", "cargo": None, "dep": "hooq"}
    if not cwd and r.random() < .9:
        dep = r.choice(["hooq", "ren", "ren", "dash", "sec", "dev"])
        p["cargo"] = cargo(r, i, dep)
        p["dep"] = {"hooq": "hooq", "dash": f"ren_{i}"}.get(dep, f"ren{i}")
    if not cwd:
        p["env"] = dict(p["env"], CARGO_PKG_NAME=r.choice(["app", f"app{i}"]), CARGO_CRATE_NAME="app")
    return p


def version(r, i, j, bad=0.):
    tag = f"P{i}V{j}"
    if r.random() < bad:
        return raw_latin(bad_config(r, tag))
    return utf(write(r, tagged_config(r, tag)))


def base_scenario(r, w, seed):
    files = []
    for p in w.projects:
        if p["cargo"]:
            files.append([p["dir"] + "/Cargo.toml", utf(p["cargo"])])
    return {"id": 0, "seed": seed, "hash": r.getrandbits(48), "p": r.choice(P), "p_editor": [0, 0, 0], "p_spurious": r.choice([0, 0, 100]), "files": files, "editor": [], "faults": [],
            "threads": [], "limit": 3_000_000, "max_read": r.choice([1 << 40, 1 << 40, 1 << 40, 64, 1000]) if w.short else 1 << 40}


# switch probabilities (per mille) at file operations, bridge calls, allocations
P = [[0, 0, 0, 0], [300, 0, 0, 300], [600, 5, 0, 500], [200, 20, 2, 100], [50, 2, 1, 200], [900, 50, 5, 500], [500, 1, 0, 300], [100, 100, 20, 100], [0, 0, 0, 400]]


def req(w, p, k):
    a, it, f = w.items[k]
    d = {"file": f, "env": p["env"], "pj": p["i"], "k": k}
    if a is None:
        d["src"] = it
    else:
        d["attr"], d["item"] = a, it
    return d


def spread(r, reqs, nt):
    th = [[] for _ in range(nt)]
    for q in reqs:
        th[r.randrange(nt)].append(q)
    return [t for t in th if t] or [[]]


SOFT = [("open", "EINTR"), ("read", "EINTR"), ("read", "SHORT"), ("read", "SHORT"), ("fstat", "EIO")]
HARD = [("open", "EIO"), ("open", "EACCES"), ("open", "EMFILE"), ("open", "ENFILE"), ("open", "ELOOP"), ("open", "ENOMEM"), ("read", "EIO"), ("read", "EIO"), ("read", "ESTALE"),
        ("open", "ESTALE"), ("open", "ETIMEDOUT"), ("read", "ENOMEM")]


def fault(r, path, pool, many=8):
    op, kind = r.choice(pool)
    return {"path": path, "op": op, "kind": kind, "nth": r.randrange(many), "times": r.choice([1, 1, 2, 5]), "n": r.choice([1, 1, 7, 60])}


def world(pid, seed, i):
    r = random.Random(f"{pid}/{seed}/{i}/world")
    w = World()
    w.pid, w.seed, w.i, w.short = pid, seed, i, True
    n = {"C12": r.randrange(2, 6), "C13": 1, "C14": r.choice([1, 2, 2])}[pid]
    dirs = r.sample(DIRS, n)
    if pid == "C12" and r.random() < .6:
        dirs[0], dirs[1] = r.choice([("/sim/a/app", "/sim/b/app"), ("/sim/ws", "/sim/ws/app"), ("/sim/a", "/sim/A/app"), ("/sim/a/ap", "/sim/a/app")])
        dirs = list(dict.fromkeys(dirs))
    w.projects = [project(r, k, d) for k, d in enumerate(dirs)]
    if r.random() < (.25 if pid == "C12" else .1):
        k = r.randrange(len(w.projects))
        w.projects[k] = project(r, k, "/sim/cwd", True)
    w.versions = [[version(r, p["i"], j, {"C12": .1, "C13": .25, "C14": .6}[pid]) for j in range(r.randrange(2, 5))] for p in w.projects]
    w.items = []
    for _ in range(r.randrange(2, 5)):
        w.items.append((r.choice(ATTRS), small_item(r), r.choice(["src/main.rs", "/sim/a/app/src/lib.rs"])))
    return w


def edits(r, w, p, n, torn):
    """primitive steps that take the project's file through n changes"""
    out = []
    for _ in range(n):
        k = r.random()
        if k < .55:
            out.append({"op": "put", "path": p["path"], "data": r.choice(w.versions[p["i"]])})
        elif k < (.62 if torn else .9):
            out.append({"op": "rm", "path": p["path"]})
        elif torn:
            if k < .85:
                v = r.choice(w.versions[p["i"]])
                out.append({"op": "trunc", "path": p["path"]})
                cuts = sorted(r.sample(range(len(v)), min(r.randrange(0, 4), len(v))))
                for a, b in zip([0] + cuts, cuts + [len(v)]):
                    out.append({"op": "append", "path": p["path"], "data": v[a:b]})
                if r.random() < .3:
                    out.pop()  # the writer crashed
            elif k < .92:
                out += [{"op": "rm", "path": p["path"]}, {"op": "dir", "path": p["path"]}, {"op": "put", "path": p["path"], "data": r.choice(w.versions[p["i"]])}]
            else:
                out += [{"op": "deny", "path": p["path"]}, {"op": "allow", "path": p["path"]}]
        else:
            out.append({"op": "clock", "path": p["path"], "d": r.choice([-1, 1]) * r.randrange(10 ** 12)})
    return out


def scenario(w, j):
    """the j-th history in a world"""
    r = random.Random(f"{w.pid}/{w.seed}/{w.i}/{j}")
    s = base_scenario(r, w, r.getrandbits(48))
    pid = w.pid
    w_edit = []
    for p in w.projects:
        v = w.versions[p["i"]]
        if pid == "C12":
            mode = r.choice(["const", "const", "none", "edit", "fault", "appear"])
        elif pid == "C13":
            mode = r.choice(["edit", "edit", "edit", "appear", "const", "softfault", "hardfault", "editfault"])
        else:
            mode = r.choice(["bad", "fault", "fault", "torn", "torn", "tornfault", "const", "softfault"])
            if p["i"] == 1 and r.random() < .6:
                mode = "const"
        x = r.random()
        if mode != "none" and not (mode == "appear") and x < .88:
            s["files"].append([p["path"], r.choice(v)])
        elif pid == "C14" and x > .97:
            s["files"].append([p["path"], 1])
        if "edit" in mode or mode == "appear":
            w_edit += [edits(r, w, p, r.randrange(1, 5), False)]
        if "torn" in mode or mode == "bad":
            w_edit += [edits(r, w, p, r.randrange(1, 4), "torn" in mode)]
        if mode in ("fault", "hardfault", "editfault", "tornfault"):
            s["faults"] += [fault(r, p["path"], HARD, 5) for _ in range(r.randrange(1, 4))]
        if mode != "const" or r.random() < .3:
            s["faults"] += [fault(r, p["path"], SOFT) for _ in range(r.choice([0, 0, 1, 3]))]
        if p["cargo"] and r.random() < .2:
            s["faults"].append(fault(r, p["dir"] + "/Cargo.toml", SOFT[:4]))
    # interleave the editors of the projects
    while any(w_edit):
        e = r.choice([e for e in w_edit if e])
        s["editor"].append(e.pop(0))
    if s["editor"]:
        # per mille at file operations, bridge calls and ends of expansions
        s["p_editor"] = r.choice([[100, 0, 300], [30, 1, 100], [300, 0, 500], [0, 0, 500], [200, 2, 0], [0, 0, 200], [60, 0, 60]])
    if s["max_read"] < 1 << 40 and any(e["op"] in ("trunc", "append") for e in s["editor"]) and r.random() < .7:
        s["max_read"] = 1 << 40
    nreq = r.randrange(2, 9) if pid != "C12" else r.randrange(3, 12)
    reqs = [req(w, r.choice(w.projects), r.randrange(len(w.items))) for _ in range(nreq)]
    s["threads"] = spread(r, reqs, r.choice([1, 2, 2, 3, 4, 6]))
    return s
