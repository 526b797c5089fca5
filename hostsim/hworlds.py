"""Worlds per property: what is in them, the histories run in them, and their judgement."""
import collections
import random
import re

import hbad
import hgen
import hjudge
import hmodel
import host


class Base:
    def __init__(self, w):
        self.w = w
        self.cache = {}
        self.nrefs = 0
        self.x = collections.Counter()

    def ref(self, p, k, content, hashseed=11):
        """the outcome in a fresh process that nothing disturbs"""
        key = (p["i"], k, content)
        o = self.cache.get(key)
        if o is None:
            files = [[p["path"], content]] if content is not None else []
            if p["cargo"]:
                files.append([p["dir"] + "/Cargo.toml", hgen.utf(p["cargo"])])
            res = host.run({"id": 0, "seed": 1, "hash": hashseed, "p": [0, 0, 0], "files": files, "threads": [[hgen.req(self.w, p, k)]]})
            self.nrefs += 1
            if "crash" in res or not res["results"]:
                o = hjudge.Out({"out": "", "panic": "crash"})
            else:
                o = hjudge.Out(res["results"][0])
            self.cache[key] = o
        return o

    def scenario(self, j):
        return hgen.scenario(self.w, j)

    def judge(self, sc, res):
        return hjudge.judge(self.w.pid, self.w, sc, res, self.ref)

    def static(self):
        return []

    def describe(self, r):
        return r["env"].get("CARGO_MANIFEST_DIR")

    def extra(self):
        return self.x


class Faulty(Base):
    """C14: what each invalid version does by itself is checked too"""

    def static(self):
        out = []
        w = self.w
        for p in w.projects:
            for v in w.versions[p["i"]]:
                try:
                    hmodel.load(v.encode("latin-1").decode("utf-8"))
                    bad = False
                except (hmodel.Bad, UnicodeDecodeError) as e:
                    bad = str(e) or "bad"
                self.x["invalid_versions" if bad else "valid_versions"] += 1
                for k in range(len(w.items)):
                    o = self.ref(p, k, v)
                    if bad and o.kind != "conferr":
                        out.append(("bad-version", f"an invalid configuration ({bad}) ends in {o.kind}: {(o.panic or o.text)[:300]}",
                                    {"static": True, "content": v, "item": list(w.items[k])}))
                        break
                    if not bad and o.kind in ("conferr", "panic"):
                        out.append(("bad-version", f"a valid configuration ends in {o.kind}: {(o.panic or o.text)[:300]}",
                                    {"static": True, "content": v, "item": list(w.items[k])}))
                        break
        return out[:1]


class Flavors(Base):
    """C16: random configurations against the reference resolver"""

    def __init__(self, pid, seed, i):
        r = random.Random(f"{pid}/{seed}/{i}/world")
        w = hgen.World()
        w.pid, w.seed, w.i, w.short = pid, seed, i, False
        w.projects = [hgen.project(r, 0, "/sim/a/app")]
        w.config = hgen.full_config(r, "T")
        w.texts = [hgen.utf(hgen.write(r, w.config)) for _ in range(3)]
        w.fl = hmodel.load(w.texts[0].encode("latin-1").decode())
        self.levels = sorted(hmodel.levels(w.fl))
        req, opt = hmodel.names(w.fl)
        # every declared flavor, and some that do not exist
        names = sorted(req)
        w.items, w.sites, w.paths = [], [], []
        for _ in range(14):
            it, sites = hmodel.probe(r)
            x = r.random()
            path = r.choice(names).split("::")
            own = [n for n in names if n.split("::")[0] in w.config]
            if x < .65 and own:
                path = r.choice(own).split("::")
            elif x < .75:
                path = path + [r.choice(["nosuch", "sub", "Error", "deep"])]
            elif x < .8:
                path = [r.choice(["nosuch", "Log", "defaults", "sub"])]
            form = r.randrange(5)
            ident = all(c.isidentifier() for c in path)
            traits = []
            if path == ["default"] and r.random() < .5:
                a = ""
            elif form < 2 and ident:
                a = "::".join(path)
            elif form == 2:
                a = f'flavor = "{".".join(path)}"'
            elif form == 3 and len(path) > 2:
                a = f'flavor = "{path[0]}.{"::".join(path[1:])}"'
            else:
                a = f'flavor = "{"::".join(path)}"'
            if r.random() < .2:
                traits = [f"ex::X{r.randrange(9)}" for _ in range(r.randrange(1, 3))]
                tu = f"{r.choice(['trait_use', 'trait_uses'])}({', '.join(traits)})"
                a = f"{a}, {tu}" if a and r.random() < .5 else f"{tu}, {a}" if a else tu
            w.items.append((a, it, "src/main.rs"))
            w.sites.append(sites)
            w.paths.append((path, traits))
        super().__init__(w)

    def scenario(self, j):
        w = self.w
        r = random.Random(f"{w.pid}/{w.seed}/{w.i}/{j}")
        s = hgen.base_scenario(r, w, r.getrandbits(48))
        if j % 2 == 0:
            s["p"] = [0, 0, 0]
        s["files"].append([w.projects[0]["path"], w.texts[j % len(w.texts)]])
        ks = list(range(len(w.items)))
        r.shuffle(ks)
        s["threads"] = hgen.spread(r, [hgen.req(w, w.projects[0], k) for k in ks[:r.randrange(4, len(ks) + 1)]], r.choice([1, 1, 2, 3]))
        return s

    def judge(self, sc, res):
        w = self.w
        if "crash" in res:
            return [("crash", f"the host process died (status {res['crash']})")]
        if res["end"] != "done":
            return []
        out = []
        dep = w.projects[0]["dep"]
        req, opt = hmodel.names(w.fl)
        for x in res["results"]:
            q = sc["threads"][x["t"]][x["i"]]
            k = q["k"]
            path, traits = w.paths[k]
            f = hmodel.find(w.fl, path)
            o = hjudge.Out(x)
            head = f"attribute {q['attr']!r}, flavor {'::'.join(path)}"
            if f is None:
                self.x["unknown_flavor_requests"] += 1
                ce = hmodel.compile_error(o.text)
                if not ce or o.panic or "fn probe" in o.text:
                    out.append(("resolve", f"{head}: does not exist, but the expansion gave {o.panic or o.text[:300]}"))
                    continue
                msg = hmodel.unq(ce[0])
                words = set(re.findall(r"[\w:\-]+", msg))
                lines = {l.strip().lstrip("-* ").strip("`") for l in msg.split("\n")[1:]}
                miss = {n for n in req if n not in words}
                if miss:
                    out.append(("resolve", f"{head}: the list of available flavors lacks {sorted(miss)}: {msg}"))
                elif (lines & {"nosuch", "::".join(path)}) - req - opt:
                    out.append(("resolve", f"{head}: the list of available flavors has the unknown one: {msg}"))
                continue
            self.x["flavor_requests"] += 1
            if o.kind != "code":
                out.append(("resolve", f"{head}: exists, but the expansion gave {o.kind}: {o.panic or o.text[:400]}"))
                continue
            want = hmodel.expected(f, w.sites[k], dep, traits)
            got = hmodel.signature(o.text, self.levels)
            if want != got:
                d = [a for a in want[1] if a not in got[1]], [a for a in got[1] if a not in want[1]]
                out.append(("resolve", f"{head}: settings differ from the documented ones: trait uses {want[0]} / {got[0]}; expected but not seen {d[0][:3]}, seen but not expected {d[1][:3]}"))
        return out


SRC_PIDS = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C07", "C08", "C09")

DIAG = [
    ("nosuch", None), ('flavor = "no.such"', None), ("my::nosuch", None), ("log::nosuch", None), ("trait_use(1)", None), ("flavor = 3", None), ("x(y)", None), ('flavor = ""', None), ("a::<u8>", None),
    ("", "fn f() -> Result<(), E> {\n #[hooq::method(.hk($nope))]\n g()?;\n Ok(()) }"),
    ("", "#[hooq::binding(zb = 1)]\n#[hooq::binding(za = 2)]\n#[hooq::binding(zc = 3)]\nfn f() -> Result<(), E> {\n #[hooq::method(.hk($nope))]\n g()?;\n Ok(()) }"),
    ("", "#[hooq::za = 1]\n#[hooq::zb = 2]\n#[hooq::zc = 3]\n#[hooq::zd = 4]\n#[hooq::method(.hkb($bindings))]\nfn f() -> Result<(), E> {\n g()?;\n #[hooq::ze = 5]\n h()?;\n Ok(()) }"),
    ("", "#[hooq::unknown(x)]\nfn f() -> Result<(), E> {\n g()?;\n Ok(()) }"),
    ("", "#[hooq::hook_targets(\"nope\")]\nfn f() -> Result<(), E> {\n g()?;\n Ok(()) }"),
    ("hook", "#[hooq::a = 1]\n#[hooq::b = 2]\n#[hooq::c = 3]\nfn f() -> Result<(), E> {\n g()?;\n return Err(1);\n }"),
    ("", "#[hooq::flavor = \"nosuch\"]\nfn f() -> Result<(), E> {\n g()?;\n Ok(()) }"),
    ("", "#[hooq::log = nosuch]\nfn f() -> Result<(), E> {\n g()?;\n Ok(()) }"),
]


class Same(Base):
    """C15: everything expanded in any history equals the expansion in a fresh process"""

    def __init__(self, pid, seed, i):
        import drive
        import profiles
        import rules
        r = random.Random(f"{pid}/{seed}/{i}/world")
        w = hgen.World()
        w.pid, w.seed, w.i, w.short = pid, seed, i, True
        w.projects, w.texts, w.items, w.of = [], [], [], []
        for p in range(r.randrange(1, 4)):
            pr = hgen.project(r, p, hgen.DIRS[p + r.randrange(3) * 3])
            w.projects.append(pr)
            ks = []
            if r.random() < .6:
                src = r.choice(SRC_PIDS)
                prof, tables, feature = profiles.make(src, seed, r.randrange(10 ** 6))
                fl = rules.Flavors(tables or {})
                text = hgen.utf(drive.toml_table(tables)) if tables is not None else None
                for n in range(r.randrange(1, 3)):
                    u = drive.make_unit(n, f"C15/{seed}/{i}/{p}/{n}", prof, tables, fl)
                    w.items.append((None, u.texts["b"], f"src/sub/p{n}b.rs"))
                    ks.append(len(w.items) - 1)
            else:
                cfg = hgen.full_config(r, "T")
                text = hgen.utf(hgen.write(r, cfg))
                names = sorted(hmodel.names(hmodel.load(text.encode("latin-1").decode()))[0])
                for _ in range(r.randrange(2, 6)):
                    n = r.choice(names)
                    w.items.append((f'flavor = "{n}"', hmodel.probe(r)[0].replace(hmodel.IND, "   "), "src/main.rs"))
                    ks.append(len(w.items) - 1)
                if r.random() < .15:
                    text = hgen.raw_latin(hgen.bad_config(r, "T1"))
                elif r.random() < .2:
                    # several things wrong at once: which one is reported must not vary
                    for t in list(cfg.values()):
                        t[r.choice(["method", "hook_in_macros", "result_types", "bindings", "trait_uses"])] = r.choice([3, {"zq": "(", "zr": ")", "zs": "1 +"}, ["::"], "("])
                    text = hgen.utf(hgen.write(r, cfg))
            for _ in range(r.randrange(1, 4)):
                a, it = r.choice(DIAG)
                w.items.append((a, it or hmodel.probe(r, 3)[0].replace(hmodel.IND, "   "), "src/lib.rs"))
                ks.append(len(w.items) - 1)
            w.texts.append(text)
            w.of.append(ks)
        super().__init__(w)

    def describe(self, r):
        return "program" if "src" in r else r["env"].get("CARGO_MANIFEST_DIR")

    def static(self):
        """fresh processes with different hash keys agree"""
        out = []
        w = self.w
        for p in w.projects:
            for k in w.of[p["i"]]:
                a = self.ref(p, k, w.texts[p["i"]])
                for h in (12, 13):
                    self.cache.pop((p["i"], k, w.texts[p["i"]]))
                    b = self.ref(p, k, w.texts[p["i"]], h)
                    if (a.text, a.spans, a.panic) != (b.text, b.spans, b.panic):
                        out.append(("determinism", f"two fresh processes differ: {diff(a, b)}", {"static": True, "project": p["i"], "k": k}))
                        return out
                self.cache[(p["i"], k, w.texts[p["i"]])] = a
        return out

    def scenario(self, j):
        w = self.w
        r = random.Random(f"{w.pid}/{w.seed}/{w.i}/{j}")
        s = hgen.base_scenario(r, w, r.getrandbits(48))
        for p in w.projects:
            if w.texts[p["i"]] is not None:
                s["files"].append([p["path"], w.texts[p["i"]]])
            if r.random() < .3:
                s["faults"] += [hgen.fault(r, p["path"], hgen.SOFT[:4]) for _ in range(r.randrange(1, 3))]
        reqs = []
        for _ in range(r.randrange(2, 8)):
            p = r.choice(w.projects)
            reqs.append(hgen.req(w, p, r.choice(w.of[p["i"]])))
        s["threads"] = hgen.spread(r, reqs, r.choice([1, 2, 3, 4]))
        return s

    def judge(self, sc, res):
        w = self.w
        if "crash" in res:
            return [("crash", f"the host process died (status {res['crash']})")]
        if res["end"] != "done":
            return [("hang", f"the simulation ended with {res['end']} after {res['steps']} steps")]
        out = []
        for x in res["results"]:
            q = sc["threads"][x["t"]][x["i"]]
            if x.get("bad"):
                continue
            p = w.projects[q["pj"]]
            a, b = self.ref(p, q["k"], w.texts[p["i"]]), hjudge.Out(x)
            self.x["compared_" + b.kind] += 1
            if (a.text, a.spans, a.panic) != (b.text, b.spans, b.panic):
                out.append(("determinism", f"project {p['i']}, thread {x['t']} request {x['i']}: differs from the expansion in a fresh process: {diff(a, b)}"))
        return out


class Malformed(Base):
    """C19: items with malformed, valid and noisy attributes, among others, in any history"""

    def __init__(self, pid, seed, i):
        r = random.Random(f"{pid}/{seed}/{i}/world")
        w = hgen.World()
        w.pid, w.seed, w.i, w.short = pid, seed, i, True
        w.projects, w.texts, w.items, w.of, w.exp = [], [], [], [], []
        for p in range(r.randrange(1, 3)):
            pr = hgen.project(r, p, hgen.DIRS[p + r.randrange(3) * 3])
            w.projects.append(pr)
            w.texts.append(hgen.utf(hgen.write(r, hgen.tagged_config(r, f"P{p}V0", r.choice([("my",), ("default", "my"), ("my", "log")])))) if r.random() < .6 else None)
            ks = []
            for _ in range(r.randrange(5, 12)):
                a, it, exp, mode = hbad.item(r)
                w.items.append((a, it, "src/main.rs"))
                w.exp.append((exp, mode))
                ks.append(len(w.items) - 1)
            w.of.append(ks)
        super().__init__(w)

    def describe(self, r):
        return [r["attr"].strip(), r["item"]]

    def scenario(self, j):
        w = self.w
        s = Same.scenario(self, j)
        for t in s["threads"]:
            for q in t:
                q["parse"] = True
        return s

    def judge(self, sc, res):
        w = self.w
        if "crash" in res:
            return [("crash", f"the host process died (status {res['crash']})")]
        if res["end"] != "done":
            return [("hang", f"the simulation ended with {res['end']} after {res['steps']} steps")]
        out = []
        for x in res["results"]:
            if x.get("bad"):
                continue
            q = sc["threads"][x["t"]][x["i"]]
            (exp, *rng), mode = w.exp[q["k"]]
            o = hjudge.Out(x)
            self.x[f"{mode}_{'panic' if o.panic else 'rejected' if o.errs else 'expanded'}"] += 1
            head = f"attribute {q['attr'].strip()!r}, item {q['item']!r}"
            if o.panic is not None:
                out.append(("panic", f"{head}: the macro panicked: {o.panic}"))
            elif not o.errs and o.parsed is False:
                out.append(("invalid", f"{head}: the output is not Rust: {o.text[:600]}"))
            elif exp == "code" and o.errs:
                out.append(("rejected", f"{head}: is valid, but was rejected: {o.text[:300]}"))
            elif exp == "error" and not o.errs:
                out.append(("accepted", f"{head}: is malformed ({mode}), but no error was reported: {o.text[:600]}"))
            elif exp == "error" and not any(rng[0] <= e[:2] and e[2:] <= rng[1] for e in o.errs) and not (re.search(r'{"(unexpected end of input|expected )', o.text) and o.errs == [CALL]):
                # (where an attribute ends too early the error has no token to point at: it is the whole invocation's)
                out.append(("place", f"{head}: the error is reported at {o.errs}, the malformed part is at {rng[0]} to {rng[1]}: {o.text[:300]}"))
            p = w.projects[q["pj"]]
            a = self.ref(p, q["k"], w.texts[p["i"]])
            if (a.text, a.spans, a.panic) != (o.text, o.spans, o.panic):
                out.append(("determinism", f"{head}: thread {x['t']} request {x['i']}: differs from the expansion in a fresh process: {diff(a, o)}"))
        return out


CALL = [1, 1, 1, 8]


def diff(a, b):
    if a.text == b.text:
        return f"same text, spans {a.spans} / {b.spans}, panic {a.panic} / {b.panic}"
    n = next((i for i, (x, y) in enumerate(zip(a.text, b.text)) if x != y), min(len(a.text), len(b.text)))
    return f"at character {n}: {a.text[max(n - 60, 0):n + 120]!r} / {b.text[max(n - 60, 0):n + 120]!r}"


def make(pid, seed, i):
    if pid == "C16":
        return Flavors(pid, seed, i)
    if pid == "C19":
        return Malformed(pid, seed, i)
    if pid == "C15":
        return Same(pid, seed, i)
    w = hgen.world(pid, seed, i)
    return Faulty(w) if pid == "C14" else Base(w)
