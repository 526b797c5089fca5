"""The documented hooking rules, as a reference: decides for every site of a program tree which hook it gets.

This is the specification side of the simulator.  It is written from the documentation and never looks at
the implementation: it walks the generator's own tree, keeps the settings in effect, and attaches to each
selected site a `Hook` that knows how to write the hook call out by hand.
"""
import re

import excerpt

from tree import N, Out, block, pe, ps, sig, source, sub

# ---------------------------------------------------------------- flavors

DEFAULT = dict(trait_uses=[], method=("default",), targets={"?", "return", "tail_expr"}, idents=["Err"], ignores=["Ok"],
               types=["Result"], macros=True, binds={})
LOG = "error warn info debug trace".split()


def builtin():
    def mk(**kw):
        d = {k: (dict(v) if isinstance(v, dict) else v) for k, v in DEFAULT.items()}
        d["subs"] = {}
        d.update(kw)
        return d
    out = {
        "default": mk(),
        "empty": mk(targets=set(), idents=[], ignores=[], types=[], macros=False, method=("empty",)),
        "hook": mk(method=(".hook(|| { $hooq_meta })",)),
        "anyhow": mk(trait_uses=["::anyhow::Context"], method=("anyhow",)),
        "eyre": mk(trait_uses=["::eyre::WrapErr"], method=("eyre",)),
        "color_eyre": mk(trait_uses=["::color_eyre::eyre::WrapErr"], method=("color_eyre",)),
    }
    for fam, lv in (("log", lambda l: "::log::Level::" + l.capitalize()), ("tracing", lambda l: "::tracing::Level::" + l.upper())):
        out[fam] = mk(method=(fam,), binds={"level": lv("error")})
        out[fam]["subs"] = {l: mk(method=(fam,), binds={"level": lv(l)}) for l in LOG}
    return out


def copyf(f):
    g = dict(f)
    g["binds"] = dict(f["binds"])
    g["subs"] = {k: copyf(v) for k, v in f["subs"].items()}
    return g


def apply_table(flavors, tables, base):
    """tables: name -> dict(trait_uses, method, hook_targets, tail_expr_idents, ignore_tail_expr_idents,
    result_types, hook_in_macros, bindings, subs)"""
    for name, t in tables.items():
        f = copyf(flavors[name]) if name in flavors else copyf(base)
        flavors[name] = f
        if "trait_uses" in t:
            f["trait_uses"] = list(t["trait_uses"])
        if "method" in t:
            f["method"] = (t["method"],)
        if "hook_targets" in t:
            f["targets"] = norm_targets(t["hook_targets"])
        ign = None
        if "tail_expr_idents" in t:
            f["idents"] = [x for x in t["tail_expr_idents"] if not x.startswith("!")]
            no = [x[1:] for x in t["tail_expr_idents"] if x.startswith("!")]
            if no:
                ign = no
        if "ignore_tail_expr_idents" in t:
            ign = (ign or []) + list(t["ignore_tail_expr_idents"])
        if ign is not None:
            f["ignores"] = ign
        if "result_types" in t:
            f["types"] = list(t["result_types"])
        if "hook_in_macros" in t:
            f["macros"] = t["hook_in_macros"]
        f["binds"].update(t.get("bindings", {}))
        if t.get("subs"):
            apply_table(f["subs"], t["subs"], copyf(f))


def norm_targets(xs):
    o = set()
    for x in xs:
        if x in ("?", "question"):
            o.add("?")
        elif x == "return":
            o.add("return")
        elif x in ("tail_expr", "tail expr", "tailexpr", "tailExpr"):
            o.add("tail_expr")
        elif x == "all":
            o |= {"?", "return", "tail_expr"}
    return o


class Flavors:
    def __init__(self, tables):
        self.f = builtin()
        base = builtin()["default"]
        apply_table(self.f, tables, base)

    def get(self, path):
        parts = [q for p in path.split(".") for q in p.split("::")]
        cur = self.f[parts[0]]
        for p in parts[1:]:
            cur = cur["subs"][p]
        return cur


# ---------------------------------------------------------------- hooks

def lit(s):
    """a Rust string literal"""
    o = '"'
    for c in s:
        if c in '"\\':
            o += "\\" + c
        elif c == "\n":
            o += "\\n"
        else:
            o += c
    return o + '"'


class Meth:
    """one configured method and the one it overrode"""

    def __init__(self, text, prev):
        self.text, self.prev = text, prev


REF = {
    # built-in flavors, written out by hand
    "default": "::std::result::Result::inspect_err($expr, |e| { ::std::eprintln!(\"[{}:{}:{}] {e:?}\\n{}\", $path, $line, $col, $_summary); })",
    "anyhow": "::anyhow::Context::with_context($expr, || ctx($path, $line, $col, &$_summary.to_string()))",
    "eyre": "::eyre::WrapErr::wrap_err_with($expr, || ctx($path, $line, $col, &$_summary.to_string()))",
    "color_eyre": "::color_eyre::eyre::WrapErr::wrap_err_with($expr, || ctx($path, $line, $col, &$_summary.to_string()))",
    "log": "::std::result::Result::inspect_err($expr, |e| ::log::log!($level, \"({}:{}:{}) {}\\n{}\", $path, $line, $col, e, $_summary))",
    "tracing": "::std::result::Result::inspect_err($expr, |e| ::tracing::event!($level, path = $path, line = $line, col = $col, error = %e, expr = $_oneline))",
}

ORD = {1: "st", 2: "nd", 3: "rd"}


def ordinal(n):
    if 11 <= n % 100 <= 13:
        return f"{n}th"
    return f"{n}{ORD.get(n % 10, 'th')}"


class Hook:
    def __init__(self, kind, meth, binds, count, fn, env, node):
        self.kind, self.meth, self.binds, self.count, self.fn, self.env, self.node = kind, meth, binds, count, fn, env, node
        t = meth.text.rstrip()
        self.consume = kind == "?" and env.consume and t.endswith("!")
        self.src = source(node)

    def at(self):
        return self.node.tpos if self.kind == "tail expr" else self.node.pos

    def render(self, operand, n):
        t = self.meth.text.strip()
        if t in REF:
            return self.expand(REF[t], operand, self.meth)
        if self.env.consume and t.endswith("!"):
            t = t[:-1]
        if t.startswith("."):
            return "(" + operand + ")." + self.expand(t[1:], operand, self.meth)
        return self.expand(t, operand, self.meth)

    HELPER = re.compile(r"(?:::)?hooq::(?:source_excerpt_helpers::)?(summary|excerpted_pretty_stringify|pretty_stringify|one_line_stringify)!\(([^$()]*)\$source\)")

    def expand(self, t, operand, meth):
        text = self.env.btext[self.node.span[0]:self.node.span[1]] if "hooq::" in t else ""
        t = self.HELPER.sub(lambda m: lit(excerpt.helper(m.group(1), m.group(2), text, self.node.tpos[0])), t)
        return re.sub(r"\$([A-Za-z_][A-Za-z_0-9]*)", lambda m: self.var(m.group(1), operand, meth), t)

    def var(self, v, operand, meth):
        e = self.env
        line, col = self.at()
        kindname = self.kind
        cnt = f"{ordinal(self.count)} {kindname}"
        if v == "line":
            return f"{line}usize"
        if v in ("column", "col"):
            return f"{col}usize"
        if v == "path":
            return lit(e.path)
        if v == "file":
            return lit(e.path.split("/")[-1])
        if v == "expr":
            return "(" + operand + ")"
        if v in ("_summary", "_oneline"):
            # the excerpt a reader of the report sees, from the text of the program
            text = e.btext[self.node.span[0]:self.node.span[1]]
            if v == "_oneline":
                return lit(excerpt.one_line(text))
            return lit(excerpt.summary(text, self.node.tpos[0]))
        if v == "source":
            return self.src
        if v in ("nth", "count"):
            return lit(cnt)
        if v in ("fnname", "fn_name"):
            return lit(self.fn.name if self.fn else "<unknown>")
        if v in ("fnsig", "fn_sig"):
            return lit(self.fn.sig if self.fn else "<unknown>")
        if v in ("sofar", "so_far"):
            p = meth.prev
            t = p.text.strip()
            if e.consume and t.endswith("!"):
                t = t[:-1]
            if t.startswith("."):
                t = t[1:]
            return self.expand(t, operand, p)
        if v in ("bindings", "vars"):
            return "binds(" + self.bl() + ")"
        if v in ("hooqmeta", "hooq_meta"):
            return (f"meta({line}usize, {col}usize, {lit(e.path)}, {lit(e.path.split('/')[-1])}, {lit(self.src)}, "
                    f"{lit(cnt)}, {self.bl()})")
        return self.binds[v]

    def bl(self):
        return "vec![" + ", ".join(
            f"({lit(k)}, {lit(v)}, ::std::rc::Rc::new({v}) as ::std::rc::Rc<dyn ::std::any::Any>)"
            for k, v in sorted(self.binds.items())) + "]"


# ---------------------------------------------------------------- the walk

class Fn:
    def __init__(self, name, sig, ret):
        self.name, self.sig, self.ret = name, sig, ret


class Ctx:
    __slots__ = ("meth", "targets", "idents", "ignores", "types", "macros", "binds", "skip", "fn", "fnname")

    def copy(self):
        c = Ctx()
        for s in Ctx.__slots__:
            setattr(c, s, getattr(self, s))
        return c


class Env:
    """per-program: where it lives and what features are on"""

    def __init__(self, path, flavors, consume=False):
        self.path, self.flavors, self.consume = path, flavors, consume
        self.counts = {}
        self.nhooks = 0
        self.btext = ""


def lastseg(ty):
    """last path segment of a type, None if it is not a path"""
    if ty is None:
        return None
    t = ty.strip()
    if not re.match(r"^[A-Za-z_:]", t) or t.startswith(("impl ", "dyn ")):
        return None
    depth, cut = 0, len(t)
    for i, ch in enumerate(t):
        if ch == "<":
            if depth == 0:
                head = i
            depth += 1
        elif ch == ">":
            depth -= 1
            if depth == 0 and i == len(t) - 1:
                cut = head
    return t[:cut].rstrip(":").split("::")[-1].strip()


def callee(n):
    """last segment of the callee when the expression is a call to a path"""
    if n.k == "call":
        if isinstance(n.fn, str):
            return lastseg(n.fn)
        if n.fn.k == "path":
            return lastseg(n.fn.t)
    return None


def settings(c, at, env, clear):
    """one attribute list on one node; returns the context inside it"""
    if not at:
        return c
    c = c.copy()
    meth = None
    idents = ign = None
    binds = {}
    skip = None
    ignfl = False
    for a in at:
        if a.plain:
            continue
        k = a.kind
        fl = env.flavors.get(a.args[0]) if k.endswith("=") else None
        if k == "flavor=":
            meth = fl["method"][0]
            c.targets = fl["targets"]
            idents, ign = fl["idents"], fl["ignores"]
            c.types, c.macros = fl["types"], fl["macros"]
            binds.update(fl["binds"])
        elif k == "method":
            meth = a.args[0]
        elif k == "method=":
            meth = fl["method"][0]
        elif k == "hook_targets":
            c.targets = norm_targets(a.args[0])
        elif k == "hook_targets=":
            c.targets = fl["targets"]
        elif k == "tail_expr_idents":
            idents = [x for x in a.args[0] if not x.startswith("!")]
            no = [x[1:] for x in a.args[0] if x.startswith("!")]
            if ign is not None:
                ign = ign + no
            elif no:
                ign = no
        elif k == "tail_expr_idents=":
            idents, ign = fl["idents"], fl["ignores"]
        elif k == "ignore_tail_expr_idents":
            ign = (ign or []) + list(a.args[0])
        elif k == "result_types":
            c.types = a.args[0]
        elif k == "result_types=":
            c.types = fl["types"]
        elif k == "hook_in_macros":
            c.macros = a.args[0]
        elif k == "hook_in_macros=":
            c.macros = fl["macros"]
        elif k == "bindings=":
            binds.update(fl["binds"])
        elif k == "bind":
            binds[a.args[0]] = a.args[1]
        elif k == "skip":
            skip = skip or "same"
        elif k == "skip_all":
            skip = "all"
        else:
            raise AssertionError(k)
    if meth is not None:
        c.meth = Meth(meth, c.meth)
    if idents is not None:
        c.idents = idents
    if ign is not None:
        c.ignores = ign
    if binds:
        c.binds = {**c.binds, **binds}
    if skip is not None and c.skip != "all":
        c.skip = skip
    return c


class Walk:
    def __init__(self, env):
        self.env = env
        self.counts = {"?": 0, "return": 0, "tail expr": 0}

    def root(self, item, flavor, c0=None):
        f = self.env.flavors.get(flavor or "default")
        c = Ctx()
        c.meth = Meth(f["method"][0], None)
        c.targets, c.idents, c.ignores = f["targets"], f["idents"], f["ignores"]
        c.types, c.macros, c.binds = f["types"], f["macros"], dict(f["binds"])
        c.skip = None
        c.fn = None
        c.fnname = "<unknown>"
        self.item(item, c)

    def sub(self, c):
        if c.skip == "same":
            c = c.copy()
            c.skip = None
        return c

    def site(self, kind, n, c, own=None):
        if c.skip is not None:
            return None
        self.counts[kind] += 1
        t = "tail_expr" if kind == "tail expr" else kind
        if t not in c.targets:
            return None
        self.env.nhooks += 1
        return Hook(kind, c.meth, c.binds, self.counts[kind], c.fn, self.env, n)

    # -- items
    def item(self, n, c):
        k = n.k
        if k in ("raw", "decl"):
            return
        if k == "imac":
            self.mac(n.m, c)
            return
        c = settings(c, n.attrs, self.env, None)
        if k == "fn":
            c = c.copy()
            c.fn = Fn(n.name, sig(n), lastseg(n.ret))
            c.fnname = n.name
            self.fnbody(n.stmts, self.sub(c))
        elif k in ("impl", "trait", "mod"):
            for x in n.items:
                self.item(x, c)
        elif k in ("const", "static", "tconst"):
            self.ex(n.e, c)
        else:
            raise AssertionError(k)

    def fnbody(self, stmts, c):
        self.body(stmts, c, "fn")

    def body(self, stmts, c, tail):
        """a block: `c` is already the context inside it"""
        for i, s in enumerate(stmts):
            last = i == len(stmts) - 1
            if s.k == "local":
                if s.init is None:
                    continue
                d = settings(c, s.attrs, self.env, None)
                self.ex(s.init, d)
                if s.els is not None:
                    self.body(s.els, self.sub(d), "block")
            elif s.k == "expr":
                if last and not s.semi:
                    self.tail(s.e, c, tail)
                else:
                    self.ex(s.e, c)
            elif s.k == "item":
                self.item(s.i, c)
            elif s.k == "smac":
                if last and not s.semi and s.m.delim != "{":
                    self.tail(s.m, c, tail)
                else:
                    self.mac(s.m, c)

    def tail(self, n, c, kind):
        self.ex(n, c)
        d = settings(c, n.attrs, self.env, None)
        name = callee(n)
        diverges = n.k in ("return", "break", "continue")
        isres = d.fn is not None and d.fn.ret is not None and d.fn.ret in d.types
        if (name is not None and name in d.idents) or (
                kind == "fn" and isres and not (name is not None and name in d.ignores) and not diverges):
            n.tailhook = self.site("tail expr", n, d)

    def ret(self, n, d):
        v = n.e
        name = callee(v)
        isres = d.fn is not None and d.fn.ret is not None and d.fn.ret in d.types
        if (name is not None and name in d.idents) or (isres and not (name is not None and name in d.ignores)):
            n.hook = self.site("return", n, d)

    def mac(self, n, c):
        d = settings(c, n.attrs, self.env, None)
        if not d.macros:
            return
        if n.mk == "exprs":
            for x in n.args:
                self.ex(x, d)
        elif n.mk == "stmts":
            for s in n.args:
                if s.k == "local":
                    self.ex(s.init, settings(d, s.attrs, self.env, None))
                elif s.k == "expr":
                    self.ex(s.e, d)
                elif s.k == "item":
                    self.item(s.i, d)
                elif s.k == "smac":
                    self.mac(s.m, d)
        elif n.mk == "items":
            for s in n.args:
                self.item(s, d)
        elif n.mk == "raw" and n.f.get("rust", False):
            for x in n.args:
                if not isinstance(x, str):
                    self.ex(x, d)

    # -- expressions
    def ex(self, n, c):
        k = n.k
        if k in ("lit", "path", "continue"):
            return
        if k == "mac":
            self.mac(n, c)
            return
        c = settings(c, n.attrs, self.env, None)
        s = self.sub
        if k == "try":
            self.ex(n.e, c)
            n.hook = self.site("?", n, c)
        elif k == "return":
            if n.e is not None:
                self.ex(n.e, c)
                self.ret(n, c)
        elif k == "call":
            if not isinstance(n.fn, str):
                self.ex(n.fn, c)
            for x in n.args:
                self.ex(x, c)
        elif k == "mcall":
            self.ex(n.recv, c)
            for x in n.args:
                self.ex(x, c)
        elif k in ("await", "paren", "unary", "cast", "field", "ref", "rawaddr", "let"):
            self.ex(n.e, c)
        elif k in ("bin", "assign"):
            self.ex(n.l, c)
            self.ex(n.r, c)
        elif k == "index":
            self.ex(n.e, c)
            self.ex(n.i, c)
        elif k in ("array", "tuple"):
            for x in n.xs:
                self.ex(x, c)
        elif k == "repeat":
            self.ex(n.e, c)
        elif k == "struct":
            for f in n.fields:
                self.ex(f.e, settings(c, f.attrs, self.env, None))
            if n.rest is not None:
                self.ex(n.rest, c)
        elif k == "range":
            for x in (n.l, n.r):
                if x is not None:
                    self.ex(x, c)
        elif k in ("block", "unsafe", "const", "async", "loop"):
            self.body(n.stmts, s(c), "block")
        elif k == "closure":
            d = c.copy()
            o = Out("b")
            head = ("async " if n.asy else "") + ("move " if n.move else "") + "|" + n.params + "|" + (
                " -> " + n.ret if n.ret else "")
            pl = "".join(a.text for a in n.attrs if a.plain)
            d.fn = Fn(f"__closure_in_{c.fnname}__", pl + head + " {}", lastseg(n.ret))
            if n.body.k == "block" and not n.body.label:
                e = settings(d, n.body.attrs, self.env, None)
                self.body(n.body.stmts, s(e), "fn")
            else:
                self.tail(n.body, d, "fn")
        elif k == "if":
            self.ex(n.cond, c)
            d = s(c)
            self.body(n.then, d, "block")
            if n.els is not None:
                self.ex(n.els, d)
        elif k == "match":
            self.ex(n.e, c)
            d = s(c)
            for a in n.arms:
                if a.guard is not None:
                    self.ex(a.guard, d)
                if a.body.k == "block":
                    self.ex(a.body, d)
                else:
                    self.tail(a.body, d, "block")
        elif k == "while":
            self.ex(n.cond, c)
            self.body(n.stmts, s(c), "block")
        elif k == "for":
            self.ex(n.e, c)
            self.body(n.stmts, s(c), "block")
        elif k == "break":
            if n.e is not None:
                self.ex(n.e, c)
        else:
            raise AssertionError(k)
