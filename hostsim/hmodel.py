"""The documented meaning of hooq.toml: a reference resolver, probe programs, and what an expansion shows of its settings."""
import copy
import re
import tomllib

FIELDS = ("trait_uses", "method", "hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types", "hook_in_macros", "bindings")
GOOD_TARGETS = {"?": "?", "question": "?", "return": "return", "tail_expr": "tail_expr", "tail expr": "tail_expr", "tailexpr": "tail_expr",
                "tailExpr": "tail_expr", "all": "all"}
BAD_CODE = ("(", "1 +", "}", "\"open", "a b", "::", "", "let")


def balanced(s):
    """is it Rust tokens with matched delimiters? (for the texts the generator writes)"""
    st = []
    for t in re.sub(r'"(?:[^"\\]|\\.)*"', " ", s):
        if t == '"':
            return False
        if t in "([{":
            st.append(t)
        elif t in ")]}" and (not st or st.pop() + t not in ("()", "[]", "{}")):
            return False
    return not st


class Bad(Exception):
    pass


class Flavor:
    def __init__(self, method=("preset", "default"), traits=(), binds=None, subs=None):
        self.method, self.traits = method, list(traits)
        self.targets, self.tail, self.ign, self.types = {"?", "return", "tail_expr"}, ["Err"], ["Ok"], ["Result"]
        self.inmac = True
        self.binds = dict(binds or {})
        self.subs = dict(subs or {})
        self.quirk = False

    def clone(self):
        return copy.deepcopy(self)


def presets():
    lv = ("error", "warn", "info", "debug", "trace")
    o = {"default": Flavor(), "hook": Flavor(("preset", "hook"))}
    e = Flavor(("preset", "empty"))
    e.targets, e.tail, e.ign, e.types = set(), [], [], []
    o["empty"] = e
    o["log"] = Flavor(("preset", "log"), binds={"level": "::log::Level::Error"},
                      subs={x: Flavor(("preset", "log"), binds={"level": "::log::Level::" + x.capitalize()}) for x in lv})
    o["tracing"] = Flavor(("preset", "tracing"), binds={"level": "::tracing::Level::ERROR"},
                          subs={x: Flavor(("preset", "tracing"), binds={"level": "::tracing::Level::" + x.upper()}) for x in lv})
    o["anyhow"] = Flavor(("preset", "anyhow"), ["::anyhow::Context"])
    o["eyre"] = Flavor(("preset", "eyre"), ["::eyre::ContextCompat", "::eyre::WrapErr"])
    o["color_eyre"] = Flavor(("preset", "eyre"), ["::color_eyre::eyre::ContextCompat", "::color_eyre::eyre::WrapErr"])
    return o


def strs(x):
    if not isinstance(x, list) or any(not isinstance(y, str) for y in x):
        raise Bad("not a list of strings")
    return x


def apply(flavors, tables, base):
    for name, t in tables.items():
        if not isinstance(t, dict):
            raise Bad(f"{name} is not a table")
        if name in ("", "empty"):
            raise Bad("empty")
        if name not in flavors:
            flavors[name] = base.clone()
            for s in flavors[name].subs.values():
                s.quirk = True
        f = flavors[name]
        if "trait_uses" in t:
            if any(x in ("", "1", "a b", "::") for x in strs(t["trait_uses"])):
                raise Bad("trait path")
            f.traits = list(t["trait_uses"])
        if "method" in t:
            if not isinstance(t["method"], str) or not balanced(t["method"]):
                raise Bad("method")
            f.method = ("own", t["method"])
        if "hook_targets" in t:
            x = strs(t["hook_targets"])
            if any(y not in GOOD_TARGETS for y in x):
                raise Bad("target")
            f.targets = set()
            for y in x:
                f.targets |= {"?", "return", "tail_expr"} if y == "all" else {GOOD_TARGETS[y]}
        ign = None
        if "tail_expr_idents" in t:
            x = strs(t["tail_expr_idents"])
            f.tail = [y for y in x if not y.startswith("!")]
            n = [y[1:] for y in x if y.startswith("!")]
            if n:
                ign = n
        if "ignore_tail_expr_idents" in t:
            ign = (ign or []) + strs(t["ignore_tail_expr_idents"])
        if ign is not None:
            f.ign = ign
        if "result_types" in t:
            f.types = strs(t["result_types"])
        if "hook_in_macros" in t:
            if not isinstance(t["hook_in_macros"], bool):
                raise Bad("bool")
            f.inmac = t["hook_in_macros"]
        if "bindings" in t:
            b = t["bindings"]
            if not isinstance(b, dict) or any(not isinstance(v, str) for v in b.values()):
                raise Bad("bindings")
            if any(v in BAD_CODE for v in b.values()):
                raise Bad("binding")
            f.binds.update(b)
        subs = {k: v for k, v in t.items() if k not in FIELDS}
        if subs:
            apply(f.subs, subs, f.clone())


def load(text):
    """flavors of a configuration text (None: no file); raises Bad"""
    fl = presets()
    if text is not None:
        try:
            t = tomllib.loads(text)
        except (tomllib.TOMLDecodeError, ValueError) as e:
            raise Bad(str(e))
        apply(fl, t, Flavor())
    return fl


def find(fl, path):
    cur = None
    for s in path:
        cur = (fl if cur is None else cur.subs).get(s)
        if cur is None:
            return None
    return cur


def names(fl, pre="", quirk=False):
    """(required, optional) flavor names"""
    req, opt = set(), set()
    for k, f in fl.items():
        q = quirk or f.quirk
        (opt if q else req).add(pre + k)
        a, b = names(f.subs, pre + k + "::", q)
        req |= a
        opt |= b
    return req, opt


# ---------------------------------------------------------------- probes

IND = " " * 200
CTORS = ["Err", "Ok", "Fail", "Done", "a::Err", "Bad::<i64>", "mk", "b::Ok"]
RTYPES = ["Result<(), E>", "MyRes<i64>", "Option<u8>", "i64", "io::Result<()>", "Outcome", "Result"]


def last(p):
    return p.split("<")[0].rstrip(":").split("::")[-1]


def probe(r, n=None):
    """an item with one possible site per line: (text, [(line, predicate spec)])"""
    rt = r.choice(RTYPES[:2] + RTYPES)
    lines, sites = [], []
    head = r.choice(["fn probe() -> %s {", "pub async fn probe(x: u8) -> %s {", "unsafe fn probe<T>(t: T) -> %s {"]) % rt
    lines.append(head)
    j = 0

    def add(text, spec=None):
        lines.append(IND + text)
        if spec:
            sites.append((len(lines), spec))
    for _ in range(n or r.randrange(5, 12)):
        j += 1
        k = r.randrange(10)
        c = r.choice(CTORS)
        if k < 2:
            add(f"let v{j} = s{j}()?;", ("?", False))
        elif k == 2:
            add(f"println!(\"{{}}\", s{j}()?);", ("?", True))
        elif k < 5:
            add(f"if c{j} {{ return {c}(w{j}); }}", ("return", rt, last(c)))
        elif k == 5:
            e = r.choice([f"w{j}", f"w{j}.m()", f"(w{j})"])
            add(f"if c{j} {{ return {e}; }}", ("return", rt, None))
        elif k == 6:
            ct = r.choice(RTYPES)
            add(f"let v{j} = |z: u8| -> {ct} {{ {c}(w{j}) }};", ("tail", ct, last(c)))
        elif k == 7:
            add(f"let v{j} = |z: u8| {c}(w{j});", ("tail", None, last(c)))
        elif k == 8:
            add(f"let v{j} = {{ {c}(w{j}) }};", ("tail", None, last(c)))
        else:
            add(f"let v{j} = match w{j} {{ _ => {c}(w{j}), }};", ("tail", None, last(c)))
    c = r.choice(CTORS)
    add(f"{c}(w0)", ("tail", rt, last(c)))
    lines.append("}")
    return "\n".join(lines), sites


def hooked(f, spec):
    if spec[0] == "?":
        return "?" in f.targets and (f.inmac or not spec[1])
    if spec[0] == "return" and "return" not in f.targets or spec[0] == "tail" and "tail_expr" not in f.targets:
        return False
    rt, c = spec[1], spec[2]
    return c in f.tail or (rt is not None and last(rt) in f.types and c not in f.ign)


def expected(f, sites, dep, extra_traits=()):
    """signature of an expansion under a flavor"""
    out = []
    for line, spec in sites:
        if not hooked(f, spec):
            continue
        kind, m = f.method
        if kind == "own":
            # pool of known templates: name(TAG, $line[, $bindings])
            name = re.search(r"(\w+)\(\"(\w+)\"", m)
            ev = [name.group(1), name.group(2)]
            if "$bindings" in m or "$vars" in m or "$hooq_meta" in m:
                ev.append(tuple(sorted((k, norm(v)) for k, v in f.binds.items())))
            for b in re.findall(r"\$(b\d|ver)\b", m):
                ev.append(norm(f.binds[b]) if b in f.binds else None)
            out.append((line, tuple(ev)))
        elif m == "hook":
            out.append((line, ("hook", tuple(sorted((k, norm(v)) for k, v in f.binds.items())))))
        elif m in ("log", "tracing"):
            out.append((line, (m, norm(f.binds["level"]), dep)))
        elif m == "empty":
            pass
        else:
            out.append((line, (m, dep)))
    return (tuple(sorted(norm(t) for t in list(extra_traits) + f.traits)), tuple(sorted(out, key=repr)))


def norm(s):
    return re.sub(r"\s+", "", s)


def levels(fl):
    """every level any flavor has"""
    out = set()
    for f in fl.values():
        if "level" in f.binds:
            out.add(norm(f.binds["level"]))
        out |= levels(f.subs)
    return out


# ---------------------------------------------------------------- reading an expansion

TOK = re.compile(r'''(r\#*"|b?"(?:[^"\\]|\\.)*"|b?'(?:[^'\\]|\\.[^']*)'(?!\w)|'\w+|r\#\w+|[A-Za-z_]\w*|\d[\w.]*|[(){}\[\]]|\S)''')


def toks(s):
    out = []
    for m in TOK.finditer(s):
        t = m.group(0)
        out.append(t)
    return out


def tree(ts):
    st = [[]]
    for t in ts:
        if t in "([{" and len(t) == 1:
            st.append([t])
        elif t in ")]}" and len(t) == 1 and len(st) > 1:
            g = st.pop()
            st[-1].append(g)
        else:
            st[-1].append(t)
    return st[0]


def flat(g):
    for x in g:
        if isinstance(x, list):
            yield x[0]
            yield from flat(x[1:])
            yield {"(": ")", "[": "]", "{": "}"}[x[0]]
        else:
            yield x


def compile_error(out):
    """the messages if the output is nothing but compile errors"""
    if "compile_error" not in out:
        return None
    return re.findall(r'compile_error ?! ?[({] ?("(?:[^"\\]|\\.)*")', out)


def unq(s):
    return s[1:-1].replace('\\"', '"').replace("\\n", "\n").replace("\\'", "'").replace("\\\\", "\\")


def strings_of(g):
    """arguments of the to_string calls in a hook's text, in order"""
    f = list(flat(g))
    out = []
    for i in range(len(f) - 2):
        if f[i] == "to_string" and f[i + 1] == "(" and f[i + 2].startswith('"'):
            out.append(unq(f[i + 2]))
    return out


def signature(out, levels=()):
    g = tree(toks(out))
    f = list(flat(g))
    traits = []
    for i, t in enumerate(f):
        if t == "use":
            j = f.index(";", i) if ";" in f[i:] else len(f)
            if f[j - 2:j] == ["as", "_"]:
                traits.append("".join(f[i + 1:j - 2]))
    ev = []

    def line_of(grp):
        for t in flat(grp):
            m = re.fullmatch(r"(\d+)usize", t)
            if m and int(m.group(1)) < 150:
                return int(m.group(1))
        return None

    def crate_of(grp):
        fl = list(flat(grp))
        for i, t in enumerate(fl):
            if t == "source_excerpt_helpers":
                return fl[i - 3]
        return None

    def binds(xs):
        return tuple(sorted((a, norm(b)) for a, b in zip(xs[0::2], xs[1::2])))

    def walk(xs):
        for i, x in enumerate(xs):
            if not isinstance(x, list):
                if i + 1 < len(xs) and isinstance(xs[i + 1], list) and xs[i + 1][0] == "(":
                    a = xs[i + 1]
                    if re.fullmatch(r"hk\w*", x):
                        parts = [[]]
                        for y in a[1:]:
                            if y == ",":
                                parts.append([])
                            else:
                                parts[-1].append(y)
                        e = [x, unq(parts[0][0]) if parts[0] and isinstance(parts[0][0], str) else None]
                        for p in parts[2:]:
                            if x in ("hkr", "hkrb") and p is parts[2]:
                                continue
                            txt = "".join(flat(p))
                            e.append(binds(strings_of(p)) if "HashMap" in txt else norm(txt))
                        ev.append((line_of(a), tuple(e)))
                    elif x == "hook":
                        ev.append((line_of(a), ("hook", binds(strings_of(a)))))
                    elif x in ("with_context", "context", "wrap_err_with", "wrap_err"):
                        ev.append((line_of(a), ("anyhow" if "context" in x else "eyre", crate_of(a))))
                    elif x in ("inspect_err", "map_err"):
                        txt = "".join(flat(a))
                        if "eprintln!" in txt:
                            ev.append((line_of(a), ("default", crate_of(a))))
                        else:
                            # the levels that can be told apart in it
                            lv = [l for l in levels if l in txt]
                            lv = [l for l in lv if not any(l != m and l in m for m in lv)]
                            ev.append((line_of(a), ("tracing" if "event!" in txt else "log", lv[0] if len(lv) == 1 else tuple(sorted(lv)), crate_of(a))))
            else:
                walk(x[1:])
    walk(g)
    return (tuple(sorted(traits)), tuple(sorted(ev, key=repr)))
