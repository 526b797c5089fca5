"""Reduces a failing program: removes statements, attributes, items and calls, and replaces expressions by
their parts, as long as a run of the same seed still fails in the same class."""
import copy
import time

import drive
import rules
from tree import N


def number(prog):
    """give every node of the program an id"""
    n = [0]

    def go(x):
        if isinstance(x, N):
            n[0] += 1
            x.f["_id"] = n[0]
            for k, v in x.f.items():
                if k != "_id":
                    go(v)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    for r in prog.roots:
        go(r[0])
    for e in prog.extra:
        go(e)


EXPR = {"try", "call", "mcall", "closure", "if", "match", "loop", "while", "for", "block", "unsafe", "paren", "array", "tuple", "struct", "await",
        "index", "mac", "async", "unary", "ref", "const", "field", "bin", "cast", "range", "repeat"}


def size(x):
    if isinstance(x, N):
        return 1 + sum(size(v) for v in x.f.values())
    if isinstance(x, (list, tuple)):
        return sum(size(y) for y in x)
    return 0


def moves(prog):
    """every single reduction, biggest first"""
    out = []

    def go(x, role=None):
        if isinstance(x, N):
            i = x.f["_id"]
            for j, a in enumerate(x.attrs):
                out.append((3, ("attr", i, j)))
            if x.wrap:
                out.append((1, ("wrap", i)))
            if x.k in EXPR and role == "e":
                out.append((size(x), ("lit", i)))
                for k, v in x.f.items():
                    if isinstance(v, N):
                        out.append((size(x) - size(v), ("sub", i, k)))
            for k, v in x.f.items():
                if k in ("stmts", "then", "els") and isinstance(v, list):
                    for s in v:
                        out.append((size(s), ("del", s.f["_id"])))
                if k == "els" and isinstance(v, N):
                    out.append((size(v), ("none", i, "els")))
                if k == "guard" and isinstance(v, N):
                    out.append((size(v), ("none", i, "guard")))
                if k in ("args", "xs", "arms") and isinstance(v, list):
                    for s in v:
                        if isinstance(s, N):
                            out.append((size(s), ("del", s.f["_id"])))
                if k == "items":
                    for s in v:
                        out.append((size(s), ("del", s.f["_id"])))
                go(v, "e")
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y, role)
    for r in prog.roots:
        out.append((size(r[0]), ("root", r[0].f["_id"])))
        go(r[0])
    for e in prog.extra:
        out.append((size(e), ("extra", e.f["_id"])))
        go(e)
    for c in prog.calls:
        out.append((20, ("call", c[0])))
    out.sort(key=lambda t: -t[0])
    return [m for _, m in out]


def apply(prog, ms):
    p = copy.copy(prog)
    dele, subs, none, attr, wrap, lits = set(), {}, set(), {}, set(), set()
    roots, calls = set(), set()
    for m in ms:
        if m[0] == "del":
            dele.add(m[1])
        elif m[0] == "sub":
            subs[m[1]] = m[2]
        elif m[0] == "lit":
            lits.add(m[1])
        elif m[0] == "none":
            none.add((m[1], m[2]))
        elif m[0] == "attr":
            attr.setdefault(m[1], set()).add(m[2])
        elif m[0] == "wrap":
            wrap.add(m[1])
        elif m[0] in ("root", "extra"):
            roots.add(m[1])
        else:
            calls.add(m[1])

    def tx(x):
        if isinstance(x, N):
            i = x.f["_id"]
            if i in lits:
                y = N("lit", t="1", _id=i)
                return y
            if i in subs:
                return tx(x.f[subs[i]])
            y = N(x.k)
            y.attrs = [a for j, a in enumerate(x.attrs) if j not in attr.get(i, ())]
            y.wrap = x.wrap and i not in wrap
            y.f = {k: (None if (i, k) in none else tx(v)) for k, v in x.f.items()}
            return y
        if isinstance(x, list):
            return [tx(y) for y in x if not (isinstance(y, N) and y.f["_id"] in dele)]
        if isinstance(x, tuple):
            return tuple(tx(y) for y in x)
        return x
    p.roots = [[tx(r[0])] + list(r[1:]) for r in prog.roots if r[0].f["_id"] not in roots]
    p.extra = [tx(e) for e in prog.extra if e.f["_id"] not in roots]
    p.calls = [c for c in prog.calls if c[0] not in calls]
    return p


def heads(msg):
    return {x for x in msg.split("\n") if x.startswith("error")}


def failing(cands, job, flavors, toml, seed, budget, cls, name, want=frozenset()):
    """indices of the candidates that fail in the same class -> violation record"""
    d = drive.os.path.join(drive.WORK, name)
    units = []
    for i, p in enumerate(cands):
        try:
            texts, env = p.forms(drive.bpath(i), job.prof.get("consume", False))
        except Exception:
            continue
        units.append(drive.Unit(i, texts, p.asy, job.prof.get("observing", True), p.seed, p, env))
    good, bad = drive.compile_units(d, units, toml, job.feature)
    out = {}
    for u, form, msg in bad:
        if form == "b" and cls == "compile" and heads(msg) & want:
            out[u.pid] = {"unit": u, "class": "compile", "plan": "", "msg": msg}
    if good and cls != "compile":
        args = ["run", str(seed), str(budget), "1"] + (["stderr"] if job.prof.get("stderr") else [])
        rc, res, err = drive.run_exe(d, args, 60)
        gb = {m["id"] for m in res if m["t"] == "genbug"}
        for m in res:
            if m["t"] == "viol" and m["class"] == cls and m["id"] not in gb:
                u = next(x for x in good if x.pid == m["id"])
                out.setdefault(m["id"], {"unit": u, "class": m["class"], "plan": m["plan"], "want": m["want"], "got": m["got"]})
    drive.shutil.rmtree(d, ignore_errors=True)
    return out


def shrink(viol, job, seed, budget, limit=60, name="shrink", log=None):
    """the smallest failing variant found within the time limit"""
    t0 = time.time()
    base = viol["unit"].program
    number(base)
    flavors = rules.Flavors(job.tables or {})
    toml = drive.toml_table(job.tables) + job.toml_extra if job.tables is not None else None
    cur, best = [], viol
    cls = viol["class"]
    want = heads(viol.get("msg") or "")
    if cls == "crash":
        return viol
    rounds = 0
    while time.time() - t0 < limit and rounds < 12:
        rounds += 1
        p = apply(base, cur)
        ms = moves(p)[:150]
        if not ms:
            break
        sets = [[m] for m in ms]
        k = 8
        while k <= len(ms):
            sets += [ms[i:i + k] for i in range(0, len(ms), k)]
            k *= 3
        res = failing([apply(base, cur + s) for s in sets], job, flavors, toml, seed, budget, cls, name, want)
        if not res:
            break
        wins = sorted(res, key=lambda i: len(res[i]["unit"].texts["b"]))
        nxt, rec = cur + sets[wins[0]], res[wins[0]]
        # several reductions at once
        if len(wins) > 1 and time.time() - t0 < limit:
            combos, acc, seen = [], [], set()
            for i in wins:
                acc = acc + [m for m in sets[i] if m not in acc]
                combos.append(list(acc))
            combos = combos[1:][:40] + combos[-1:]
            r2 = failing([apply(base, cur + s) for s in combos], job, flavors, toml, seed, budget, cls, name, want)
            if r2:
                j = min(r2, key=lambda i: len(r2[i]["unit"].texts["b"]))
                if len(r2[j]["unit"].texts["b"]) < len(rec["unit"].texts["b"]):
                    nxt, rec = cur + combos[j], r2[j]
        if len(rec["unit"].texts["b"]) >= len(best["unit"].texts["b"]):
            break
        cur, best = nxt, rec
        if log:
            log(f"shrunk to {len(best['unit'].texts['b'])} bytes after {time.time() - t0:.0f} s")
    return best
