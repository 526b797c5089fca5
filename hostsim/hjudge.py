"""What a recorded history of the host may look like."""
import bisect
import re

import hmodel

BIG = 10 ** 12


def canon(text):
    """order-insensitive form of an output"""
    return tuple(sorted(hmodel.toks(text)))


class Out:
    __slots__ = ("text", "spans", "canon", "kind", "tags", "deps", "panic", "errs", "parsed")

    def __init__(self, r):
        self.text, self.spans, self.panic = r.get("out", ""), r.get("spans"), r.get("panic")
        self.errs, self.parsed = r.get("errs") or [], r.get("parsed")
        self.canon = canon(self.text)
        ce = hmodel.compile_error(self.text)
        if self.panic is not None:
            self.kind = "panic"
        elif ce and "toml" in " ".join(ce).lower() and "fn probe" not in self.text:
            self.kind = "conferr"
        elif ce:
            self.kind = "error"
        else:
            self.kind = "code"
        self.tags = set(re.findall(r"\bP\d+V\d+\b", self.text)) if self.kind != "conferr" else set()
        self.deps = set(re.findall(r":: (\w+) :: source_excerpt_helpers", self.text))


class Req:
    pass


def history(res, path):
    h = [(s, c) for s, p, c in res["files"] if p == path]
    if not h or h[0][0] > 0:
        h.insert(0, (0, None))
    return h


def during(h, a, b):
    """what the path held at the instants of [a, b]"""
    steps = [x[0] for x in h]
    i = max(bisect.bisect_right(steps, a) - 1, 0)
    return [c for s, c in h[i:bisect.bisect_right(steps, b)]]


def collect(sc, res):
    out = []
    for x in res["results"]:
        q = sc["threads"][x["t"]][x["i"]]
        r = Req()
        r.t, r.i, r.q, r.start, r.end, r.pj, r.k = x["t"], x["i"], q, x["start"], x["end"], q["pj"], q["k"]
        r.o = Out(x)
        out.append(r)
    return out


def judge(pid, w, sc, res, ref):
    """violations: [(class, message)]; ref(project, item, content) -> Out of that expansion in a fresh process"""
    if "crash" in res:
        return [("crash", f"the host process died (status {res['crash']})")]
    viol = []
    if res["end"] != "done":
        if pid != "C12":
            viol.append(("hang", f"the simulation ended with {res['end']} after {res['steps']} steps"))
        return viol
    reqs = collect(sc, res)
    hard = {}
    soft = set()
    for s, path, op, kind, t, i in res["fired"]:
        if kind not in ("EINTR", "SHORT"):
            if op == "fstat":
                soft.add((t, i, path))
            else:
                hard.setdefault((t, i, path), []).append(kind)
    for p in w.projects:
        rs = [r for r in reqs if r.pj == p["i"]]
        if not rs:
            continue
        path = p["path"]
        h = history(res, path)
        inplace = any(e["op"] in ("trunc", "append") and e["path"] == path for e in sc["editor"])
        delivered = {}
        for t, i, s, pa, data, err, eof in res["opens"]:
            if pa == path and data is not None and err is None and eof:
                delivered.setdefault((t, i), set()).add(data)
        const = len(h) == 1 and not any(k[2] == path for k in hard)
        seen = {c for _, c in h if not isinstance(c, int)}
        for r in rs:
            r.during = during(h, r.start, r.end)
            r.hard = hard.get((r.t, r.i, path), [])
            r.soft = (r.t, r.i, path) in soft
            pool = {c for s, c in h if s <= r.end and not isinstance(c, int)} | delivered.get((r.t, r.i), set())
            pool |= {d for k, v in delivered.items() for d in v}
            r.cand = set()
            for c in pool:
                o = ref(p, r.k, c)
                if o.kind != "panic" and r.o.kind != "panic" and o.canon == r.o.canon:
                    r.cand.add(c)
            r.delivered = delivered.get((r.t, r.i), set())
        name = f"project {p['i']} ({p['dir']})"

        def who(r):
            return f"{name}, thread {r.t} request {r.i} (steps {r.start}-{r.end}, attribute {r.q.get('attr')!r})"
        # --- C12: nothing of another project
        if pid == "C12":
            for r in rs:
                alien = {t for t in r.o.tags if not t.startswith(f"P{p['i']}V")}
                if alien:
                    viol.append(("foreign", f"{who(r)}: uses the configuration of another project: {sorted(alien)}"))
                elif r.o.deps - {p["dep"]}:
                    viol.append(("foreign", f"{who(r)}: refers to hooq as {sorted(r.o.deps)}, its Cargo.toml says {p['dep']}"))
                elif const and not r.cand and r.o.kind in ("conferr", "panic", "error", "code"):
                    viol.append(("collateral", f"{who(r)}: its configuration is constant and readable, but the outcome is not that of a fresh process: {r.o.kind} {r.o.panic or r.o.text[:300]}"))
                elif const and h[0][1] not in r.cand and not isinstance(h[0][1], int):
                    viol.append(("collateral", f"{who(r)}: expanded as if its configuration were different: {r.o.text[:300]}"))
            continue

        def absent(r):
            return None in r.during

        def broken(r):
            """could reading the file have failed, or delivered something invalid?"""
            if r.hard or r.soft or any(isinstance(c, int) for c in r.during):
                return True
            cs = [c for c in r.during if c is not None] + list(r.delivered)
            return any(ref(p, r.k, c).kind == "conferr" for c in cs)
        # --- outcomes that nothing explains
        bad = False
        for r in rs:
            if r.o.kind == "panic":
                viol.append(("panic", f"{who(r)}: the macro panicked: {r.o.panic}"))
                bad = True
            elif not r.cand and r.o.kind != "conferr":
                if len({t for t in r.o.tags}) > 1:
                    viol.append(("mixed", f"{who(r)}: mixes versions {sorted(r.o.tags)}"))
                else:
                    viol.append(("unexplained", f"{who(r)}: the outcome is that of no version of the configuration: {r.o.kind} {r.o.text[:300]}"))
                bad = True
            elif r.o.kind == "conferr" and not broken(r):
                viol.append(("stale-error", f"{who(r)}: a configuration error although the file was readable and valid throughout: {r.o.text[:300]}"))
                bad = True
        if bad:
            continue
        # --- one version once used
        users = [r for r in rs if r.o.kind != "conferr" and None not in r.cand]

        def ok_without(r, first):
            """an outcome that used no file, or a reported failure"""
            if r.start > first:
                return False
            if r.o.kind == "conferr":
                return True
            return None in r.cand and absent(r)
        if not users:
            # nobody used a version: every other outcome must be explained by absence, or could be any version that looks the same
            for r in rs:
                if r.o.kind != "conferr" and not absent(r) and not any(c is not None for c in r.cand):
                    cls = "fault-ignored" if broken(r) else "config-ignored"
                    viol.append((cls, f"{who(r)}: expanded as if there were no configuration file, but there was one throughout ({r.hard or 'no fault'})"))
            if viol:
                continue
            if all(ok_without(r, BIG) for r in rs):
                continue
        good = None
        vs = set()
        for r in users or rs:
            vs |= {c for c in r.cand if c is not None}
        why = []
        for v in sorted(vs):
            us = [r for r in rs if r.o.kind != "conferr" and v in r.cand]
            must = [r for r in us if None not in r.cand or not absent(r)]
            first = min([r.end for r in must], default=BIG)
            e = None
            for r in rs:
                if r.o.kind != "conferr" and v in r.cand:
                    continue
                if not ok_without(r, first):
                    e = r
                    break
            if e is not None:
                why.append((v, e, "disagrees"))
                continue
            # somebody must have been able to read this version while it was there
            if must and not any(q.start <= first and (v in q.during or v in q.delivered) and v in q.cand for q in rs):
                why.append((v, must[0], "was not there to be read"))
                continue
            good = v
            break
        if good is None:
            def tag(v):
                m = re.search(r"P\d+V\d+", v or "")
                return m.group(0) if m else repr((v or "")[:30])
            v, e, what = why[-1] if why else (None, rs[0], "no version")
            viol.append(("version", f"{who(e)}: no single version explains the outcomes: " +
                         "; ".join(f"t{r.t}r{r.i} steps {r.start}-{r.end}: " + (r.o.kind if r.o.kind == "conferr" else "/".join(sorted("none" if c is None else tag(c) for c in r.cand))) for r in rs)
                         + f"; last tried {tag(v)}: {what}"))
    return viol


CLASSES = {
    "C12": {"foreign", "collateral", "crash"},
    "C13": {"version", "mixed", "unexplained", "stale-error", "config-ignored", "hang", "crash"},
    "C14": {"panic", "hang", "crash", "unexplained", "mixed", "stale-error", "fault-ignored", "bad-version"},
    "C15": {"determinism", "hang", "crash"},
    "C16": {"resolve", "crash"},
    "C19": {"panic", "accepted", "place", "rejected", "invalid", "determinism", "hang", "crash"},
}
