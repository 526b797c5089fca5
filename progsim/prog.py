"""Whole programs: root items, attributes, entry point, and the three forms of the text."""
import random
import re

import rules
from gen import C, Gen, RET_TY, bare, blk, call, closure, es, lit, local, mac, path, tri
from rules import Env, Flavors, Walk, lit as rlit
from tree import FRAGS, LAYOUT, At, N, Out, pe, pi, proot, ps, sig, source


# ---------------------------------------------------------------- positions that can carry an attribute

EXPR_OK = {"try", "call", "mcall", "closure", "if", "match", "loop", "while", "for", "block", "unsafe", "paren", "array",
           "tuple", "struct", "await", "index", "return", "mac", "async", "unary", "ref", "const", "field"}


def positions(item, inmac_ok=True):
    """(node, role) for every node where an inner attribute may be written; preorder"""
    out = []

    def ok(n, role):
        if n.k not in EXPR_OK or n.attrs:
            return
        if n.k == "return" and n.e is None:
            return
        out.append((n, role))

    def ex(n, lead=False, role="expr", noattr=False):
        k = n.k
        if not lead and not noattr:
            if k == "block" and role not in ("stmt", "arm", "tail", "closure"):
                pass
            elif k == "unary" and n.op == "-" and n.e.k == "lit":
                pass
            else:
                ok(n, role)
        if k == "call":
            if not isinstance(n.fn, str):
                ex(n.fn, True)
            for x in n.args:
                ex(x, role="arg")
        elif k == "mcall":
            ex(n.recv, True)
            for x in n.args:
                ex(x, role="arg")
        elif k in ("try", "await", "field", "cast"):
            ex(n.e, True)
        elif k == "index":
            ex(n.e, True)
            ex(n.i)
        elif k in ("bin", "assign"):
            ex(n.l, True)
            ex(n.r, noattr=n.r.k == "let")
        elif k == "range":
            if n.l:
                ex(n.l, True)
            if n.r:
                ex(n.r)
        elif k in ("paren", "unary", "ref", "rawaddr"):
            ex(n.e)
        elif k == "let":
            ex(n.e)
        elif k in ("array", "tuple"):
            for x in n.xs:
                ex(x, role="arg")
        elif k == "repeat":
            ex(n.e)
        elif k == "struct":
            for f in n.fields:
                out.append((f, "field"))
                ex(f.e)
            if n.rest:
                ex(n.rest)
        elif k in ("block", "unsafe", "const", "async", "loop"):
            body(n.stmts)
        elif k == "closure":
            ex(n.body, role="closure", noattr=n.body.k == "block" and n.ret is not None)
        elif k == "if":
            ex(n.cond, noattr=True)
            body(n.then)
            if n.els is not None:
                ex(n.els, noattr=True)
        elif k == "match":
            ex(n.e)
            for a in n.arms:
                if a.guard:
                    ex(a.guard)
                ex(a.body, role="arm")
        elif k == "while":
            ex(n.cond, noattr=True)
            body(n.stmts)
        elif k == "for":
            ex(n.e)
            body(n.stmts)
        elif k in ("break", "return"):
            if n.e is not None:
                ex(n.e)
        elif k == "mac":
            mac(n)

    def mac(n):
        if not inmac_ok:
            return
        if n.mk == "items":
            for x in n.args:
                it(x)
            return
        for x in n.args:
            if isinstance(x, str):
                continue
            if n.mk == "stmts":
                if not inmac_ok:
                    continue
                body([x], inmac=True)
            elif inmac_ok:
                ex(x)

    def body(stmts, inmac=False):
        for i, s in enumerate(stmts):
            last = i == len(stmts) - 1
            if s.k == "local":
                if s.init is not None and not s.attrs and not inmac:
                    out.append((s, "local"))
                if s.init is not None:
                    ex(s.init, noattr=inmac)
                if s.els is not None:
                    body(s.els)
            elif s.k == "expr":
                role = "tail" if last and not s.semi else "stmt"
                ex(s.e, role=role, noattr=inmac or s.e.k in ("bin", "assign", "cast", "range"))
            elif s.k == "item":
                if s.i.k == "imac":
                    mac(s.i.m)
                else:
                    it(s.i)
            elif s.k == "smac":
                out.append((s.m, "stmt"))
                mac(s.m)

    def it(n):
        if n.k in ("raw", "decl"):
            return
        if n.k == "imac":
            mac(n.m)
            return
        out.append((n, "item"))
        if n.k == "fn":
            body(n.stmts)
        elif n.k in ("impl", "trait", "mod"):
            for x in n.items:
                it(x)
        elif n.k in ("const", "static", "tconst"):
            ex(n.e)

    it(item)
    return out


# ---------------------------------------------------------------- attributes

SETS = [["Err"], ["Err", "Fail"], ["Fail", "Bad"], ["Err", "!Ok", "!Done"], ["Done"], ["op"], [], ["Err", "Ok"], ["opx", "!Ok"],
        ["!op", "!Ok"], ["Some", "opt"], ["Err", "!op"], ["Fail", "!Done", "!op"], ["!Fine"], ["Err", "op", "!opx"]]
IGN = [["Ok"], ["Ok", "Done"], ["Done", "Fine"], [], ["op"], ["Ok", "Err"], ["optx", "Some"]]
TYPES = [["Result"], ["Result", "MyRes"], ["Outcome"], [], ["MyRes", "Outcome"], ["Option"], ["Maybe", "Result"]]
TGT = [["?"], ["return"], ["tail_expr"], ["?", "return"], ["return", "tail_expr"], ["all"], ["?", "return", "tail_expr"], [], ["question", "tailexpr"],
       ["tailExpr"], ["tail expr", "?"]]


def strs(xs):
    return ", ".join(rlit(x) for x in xs)


class Attrs:
    def __init__(self, r, prof, fl):
        self.r, self.p, self.fl = r, prof, fl
        self.n = 0

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def tag(self):
        self.n += 1
        return f"t{self.n}"

    def method(self, sofar=False):
        """a type-preserving observing method"""
        if self.p.get("consume"):
            return self.consume_method()
        if self.p.get("replace"):
            o = ["hkf($expr, $line, $col)", f'hkt("{self.tag()}", $expr)', f'hk3(mark("{self.tag()}"), $expr, mark("{self.tag()}"))',
                 f'Hk::htp($expr, "{self.tag()}", $line, $column)']
            if sofar:
                o += [f'hkt("{self.tag()}", $so_far)'] * 3
            if self.p.get("binds"):
                o += ["hkt($bx, $expr)", "hkt(($bx, $by), $expr)"]
                if sofar:
                    o.append("hkt($by, $so_far)")
            return self.pick(o)
        o = [f'.htp("{self.tag()}", $line, $column)', f'.ht("{self.tag()}")', ".hp($line, $col)",
             '.hk($line, $column, $path, $file, "", $fn_name, $fn_sig, ::std::stringify!($source))',
             ".hsrc($line, stringify!($source))", f'.hp($line, $col).ht("{self.tag()}")']
        if self.p.get("count"):
            o = ['.hk($line, $column, $path, $file, $count, $fn_name, $fn_sig, ::std::stringify!($source))',
                 '.hk($line, $col, $path, $file, $nth, $fnname, $fnsig, stringify!($source))', ".hook(|| $hooq_meta)"]
        if sofar:
            o += [f'.ht("{self.tag()}").$so_far', f'.$so_far.ht("{self.tag()}")', f'.ht("{self.tag()}").$sofar.ht("{self.tag()}")']
        if self.p.get("binds"):
            b = [".ht($bx)", ".ht($by)", ".ht(($bx, $by))", f'.htp(($by, "{self.tag()}"), $line, $col)', ".hookb($bindings)", ".hook(|| $hooq_meta)",
                 ".hookb($vars)", ".hook(|| { $hooqmeta })"]
            if sofar:
                b += [".ht($bx).$so_far", ".$so_far.ht($by)"]
            o = o[:2] + b + (o[-3:] if sofar else [])
        return self.pick(o)

    def consume_method(self):
        return self.pick([".eat($line, $column)!", "eatf($expr, $line, $col)!", ".eat($line, $col)!", f'.htp("{self.tag()}", $line, $col)'])

    def value(self):
        return self.pick(["1", "42", '"s"', '"x y"', "true", "7i64", "(1, 2)", "1 + 2", "KC", 'mark("b")', '"' + self.tag() + '"', str(self.r.randrange(99))])

    def bind(self, name=None):
        nm = name or self.pick(["bx", "by", "bz", "bx", "by"])
        v = self.value()
        f = self.r.randrange(3)
        t = {0: f"#[hooq::binding({nm} = {v})]", 1: f"#[hooq::var({nm} = {v})]", 2: f"#[hooq::{nm} = {v}]"}[f]
        return At("bind", t, nm, v)

    def fpath(self, p):
        """ways to write a flavor path as attribute value"""
        if self.r.random() < .5:
            return p
        return rlit(p if self.r.random() < .5 else p.replace("::", "."))

    def one(self, kind, sofar=False):
        r = self.r
        if kind == "skip":
            return At("skip", "#[hooq::skip]")
        if kind == "skip_all":
            return At("skip_all", "#[hooq::skip_all]")
        if kind == "bind":
            return self.bind()
        if kind == "method":
            m = self.method(sofar)
            return At("method", f"#[hooq::method({m})]", m)
        if kind == "hook_targets":
            x = self.pick(TGT)
            return At(kind, f"#[hooq::hook_targets({strs(x)})]", x)
        if kind == "tail_expr_idents":
            x = self.pick(SETS)
            return At(kind, f"#[hooq::tail_expr_idents({strs(x)})]", x)
        if kind == "ignore_tail_expr_idents":
            x = self.pick(IGN)
            return At(kind, f"#[hooq::ignore_tail_expr_idents({strs(x)})]", x)
        if kind == "result_types":
            x = self.pick(TYPES)
            return At(kind, f"#[hooq::result_types({strs(x)})]", x)
        if kind == "hook_in_macros":
            x = r.random() < .4
            return At(kind, f"#[hooq::hook_in_macros({'true' if x else 'false'})]", x)
        if kind == "level":
            lv = self.pick(self.p["levels"])
            w = self.pick(["#[hooq::level = %s]", "#[hooq::binding(level = %s)]", "#[hooq::var(level = %s)]"])
            return At("bind", w % lv, "level", lv)
        if kind.endswith("="):
            p = self.pick(self.fl)
            return At(kind, f"#[hooq::{kind[:-1]} = {self.fpath(p)}]", p)
        raise AssertionError(kind)


# ---------------------------------------------------------------- programs

def clear(x):
    """forget what an earlier walk attached"""
    if isinstance(x, N):
        x.hook = x.tailhook = None
        x.pos = x.tpos = x.span = None
        for v in x.f.values():
            clear(v)
    elif isinstance(x, (list, tuple)):
        for y in x:
            clear(y)


BRANCHY = {"if", "match", "while", "for", "loop", "closure", "async", "unsafe", "block"}


def hasmac(x):
    if isinstance(x, N):
        return x.k in ("mac", "smac", "imac") or any(hasmac(v) for v in x.f.values())
    return isinstance(x, (list, tuple)) and any(hasmac(y) for y in x)


HOISTABLE = {"call", "mcall", "try", "lit", "path", "index", "field", "tuple", "array", "paren"}


class Program:
    def __init__(self, pid, seed, prof, tables, flavors):
        self.pid, self.seed, self.prof = pid, seed, prof
        self.r = random.Random(f"{seed}/p")
        self.g = Gen(f"{seed}/g", prof)
        self.tables, self.flavors = tables, flavors
        self.roots = []   # (item, flavor or None, root attr text)
        self.extra = []   # unattributed items, text
        self.calls = []
        self.build()

    def kind(self):
        return self.g.pick(self.prof["kinds"])

    def fin(self, kind, e, asy):
        if asy:
            e += ".await"
        return {"E": "fin", "F": "fin", "O": "fino", "A": "fin_any", "Y": "fin_eyre"}.get(kind[0], "i2s") + f"({e})"

    def build(self):
        g, p = self.g, self.prof
        n = g.wn(p.get("roots", [0, 3, 3, 1]))
        # items that hold closures of type E
        self.closures = not (p.get("fam") in ("A", "Y") or "E" not in p["kinds"] or p.get("consume"))
        self.asy = p.get("async", False)
        # some code the attribute does not touch
        for i in range(g.wn([2, 2])):
            kd = "E" if "E" in p["kinds"] else self.kind()
            f = g.fn(f"h{i}", kd, 2, size=12)
            self.extra.append(f)
            g.fns.append((f.name, kd, 1, False))
        for i in range(n):
            shape = g.wpick(p.get("shapes", [(8, "fn"), (2, "impl"), (1.5, "trait"), (2, "mod"), (1, "const"), (.7, "static")]))
            if shape in ("const", "static") and (p.get("fam") in ("A", "Y") or "E" not in p["kinds"] or p.get("consume")):
                shape = "fn"
            self.root(shape, i)
        self.attribute()
        self.ordinary()

    def fnconst(self, k, nm, vis):
        """a constant that holds a function"""
        g = self.g
        cc = C(kind="E", ret="E", asy=False, inasync=False, loop=None, vars=["x"], muts=[], allmuts=frozenset(), cls=[], nostruct=False, depth=0)
        return N(k, vis=vis, name=nm, ty="fn(i64) -> Result<i64, E>",
                 e=closure("x: i64", blk(g.body(cc, self.prof.get("depth", 3))), ret=g.pick(["Result<i64, E>", "MyRes<i64>"])))

    def inmac(self, f):
        """an item may come through a macro that takes items"""
        if self.closures and not self.prof.get("noitems") and self.g.ch(.12):
            return N("imac", m=mac("items_mac", "{", "items", [f]))
        return f

    def root(self, shape, i):
        g, p = self.g, self.prof
        d = p.get("depth", 3)
        size = p.get("size", 45)

        def fn(name, recv=None, vis="pub", sz=size):
            kd = self.kind()
            asy = self.asy and g.ch(.75)
            na = g.wn([1, 3, 1])
            f = g.fn(name, kd, d, size=sz, vis=vis, asy=asy, recv=recv, nargs=na)
            return f, kd, asy, na

        def reg(call_name, kd, asy, na):
            g.fns.append((call_name, kd, na, asy))
            self.calls.append((call_name, kd, asy, na))
        if shape == "fn":
            f, kd, asy, na = fn(f"f{i}")
            if p.get("pad") and kd[0] == "E" and g.ch(p["pad"]):
                f.stmts[:0] = [es(tri(call("quiet")), True) for _ in range(g.r.randrange(96, 118) + (100 if g.ch(.2) else 0))]
            reg(f.name, kd, asy, na)
            it = f
        elif shape == "impl":
            items, rs = [], []
            ty = f"S{i}"
            decls = []
            of = f"T{i}" if g.ch(.3) else None
            self.extra.append(N("raw", t=f"pub struct {ty};"))
            for j in range(g.wn([0, 2, 2])):
                recv = g.pick(["&self", "&self", "&mut self", "self: &Self", "mut self"][:3 if self.asy else 5])
                f, kd, asy, na = fn(f"m{i}_{j}", recv=recv, vis="" if of else "pub", sz=size // 2 + 5)
                if of:
                    decls.append(sig(f).replace("&mut ", "&!").replace("mut ", "").replace("&!", "&mut ").replace(" @ _", "") + ";")
                items.append(self.inmac(f))
                rs.append((f"{ty}.{f.name}", kd, asy, na))
            if g.ch(.3):
                items.append(N("raw", t="const K: i64 = 3;"))
                decls.append("const K: i64;")
            if self.closures and g.ch(.4):
                nm = f"L{i}"
                items.insert(g.r.randrange(len(items) + 1), self.fnconst("const", nm, "" if of else "pub"))
                decls.append(f"const {nm}: fn(i64) -> Result<i64, E>;")
                rs.append((f"{ty}::{nm}", "E", False, 1))
            for r in rs:
                reg(*r)
            if of:
                self.extra.append(N("raw", t=f"pub trait {of} {{ " + " ".join(decls) + " }"))
            it = N("impl", head=f"{of} for {ty}" if of else ty, items=items)
        elif shape == "trait":
            ty, tr = f"S{i}", f"T{i}"
            items, rs = [N("decl", vis="", name=f"need{i}", params="&self", ret="i64", asy=False, gen=None, where=None)], []
            for j in range(g.wn([0, 2, 1])):
                f, kd, asy, na = fn(f"m{i}_{j}", recv=g.pick(["&self", "&self", "&mut self"]), vis="", sz=size // 2 + 5)
                if f.asy:
                    f.f["vis"] = ""
                items.append(self.inmac(f))
                rs.append((f"{ty}.{f.name}", kd, asy, na))
            if self.closures and g.ch(.35):
                nm = f"L{i}"
                items.insert(g.r.randrange(len(items) + 1), self.fnconst("tconst", nm, ""))
                items.append(N("raw", t=f"const U{i}: i64;"))
                rs.append((f"{ty}::{nm}", "E", False, 1))
                more = f"const U{i}: i64 = 1;"
            else:
                more = ""
            for r in rs:
                reg(*r)
            self.extra.append(N("raw", t=f"pub struct {ty}; impl {tr} for {ty} {{ {more} fn need{i}(&self) -> i64 {{ 1 }} }}"))
            it = N("trait", name=tr, items=items)
        elif shape == "mod":
            rs = []

            def module(name, path, depth):
                items = [N("raw", t="use super::*;")]
                for j in range(g.wn([0, 2, 2])):
                    f, kd, asy, na = fn(f"q{i}_{j}", vis="pub", sz=size // 2 + 5)
                    items.append(self.inmac(f))
                    rs.append((f"{path}::{f.name}", kd, asy, na))
                if g.ch(.25):
                    items.append(N("raw", t=g.pick(["pub struct W(pub i64);", "pub enum En { A, B }", "pub type Al = i64;", "pub union Un { pub a: i64, pub b: u64 }",
                                                    "extern crate std as st;", "pub mod em {}"])))
                if self.closures and g.ch(.25):
                    nm = f"L{i}"
                    items.append(self.fnconst(g.pick(["const", "static"]), nm, "pub"))
                    rs.append((f"{path}::{nm}", "E", False, 1))
                if depth < 2 and g.ch(.3):
                    items.insert(g.r.randrange(1, len(items) + 1), module(f"e{i}", path + f"::e{i}", depth + 1))
                return N("mod", name=name, items=items)
            it = module(f"d{i}", f"d{i}", 0)
            for r in rs:
                reg(*r)
        else:
            nm = f"C{i}"
            it = self.fnconst(shape, nm, "pub")
            reg(nm, "E", False, 1)
        bare(it, random.Random(f"{self.seed}/bare/{i}"), p.get("bare", .5))
        self.roots.append([it, None, "", self.fragment(it, shape)])

    def fragment(self, it, shape):
        """does the item reach the attribute through a macro of the user, and how"""
        r = random.Random(f"{self.seed}/frag/{it.f.get('name', it.f.get('head'))}")
        p = self.prof
        if r.random() >= p.get("frag", .3):
            return None
        # an excerpt shows lines of one contiguous text
        how = r.choice(["parts", "item", "tts"] + ["def"] * 3 * (not (p.get("fam") or p.get("excerpt"))))
        if how == "parts":
            if shape != "fn" or it.gen or it.where or not it.ret or not re.fullmatch(r"(\w+: i64(, )?)*", it.params):
                how = "tts"
        if how != "def":
            return how
        o = Out("a")
        pi(o, it)
        text = o.text()
        bound = {"self", "Self", "break", "continue", "async", "await", "super"}

        def names(x):
            if isinstance(x, N):
                if x.k == "fn":
                    bound.add(x.name)
                    if r.random() < .4:
                        x.f["tyfrag"] = True
                for kk in ("pat", "params", "name"):
                    v = x.f.get(kk)
                    if isinstance(v, str) and x.k not in ("mcall", "mac", "field"):
                        bound.update(re.findall(r"[A-Za-z_]\w*", v))
                for v in x.f.values():
                    names(v)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    names(y)
        names(it)
        bound -= {"i64", "E", "F", "Some", "Ok", "Err", "None", "usize", "_", "mut", "ref"}

        def free(n):
            t = source(n)
            return not (set(re.findall(r"[A-Za-z_]\w*", t)) & bound) and not any(c in t for c in "'!#{}|\n")

        def go(x, parent=None, slot=None, inmac=False):
            if isinstance(x, N):
                inmac = inmac or x.k in ("mac", "smac", "imac")
                if slot == "e" and x.k in HOISTABLE and r.random() < .35 and free(x):
                    if x.k in ("call", "mcall", "try", "lit", "path", "index", "field", "tuple", "array") and not (x.k == "lit" and x.t.startswith("-")):
                        x.f["hoist"] = True
                        return
                    if not inmac and x.k == "paren" and x.e.k == "bin" and parent.k in ("mcall", "try", "unary", "field", "index"):
                        x.f["hoist"] = True
                        return
                    if not inmac and x.k == "paren" and x.e.k == "bin" and parent.k == "bin" and parent.op == "*" and x.e.op in ("+", "-"):
                        x.f["hoist"] = True
                        return
                for kk, v in x.f.items():
                    if x.k == "local" and kk == "init" or x.k == "expr" and kk == "e" and x.semi is False and v.k != "call":
                        go(v, x, "e" if x.k == "local" else None, inmac)
                    else:
                        go(v, x, "e" if isinstance(v, N) or kk in ("args", "xs") else None, inmac)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    go(y, parent, slot, inmac)
        go(it)
        return how

    def attribute(self):
        p, r = self.prof, self.r
        usable = p.get("flavors", ["obs"])
        A = Attrs(r, p, usable)
        self.A = A
        kinds = p.get("attr_kinds", [])
        nomac = p.get("macattr_off", False)
        for root in self.roots:
            it = root[0]
            # root attribute
            f = p.get("root_flavor")
            if f is None:
                f = A.pick(usable + p.get("root_extra", []))
            elif isinstance(f, list):
                f = A.pick(f)
            root[1] = f
            tu = ""
            if p.get("trait_use"):
                tu = f"trait_use({p['trait_use']})"
            form = r.randrange(3)
            if f == "":
                root[1] = None
                inner = tu
            elif form == 0:
                inner = f + (", " + tu if tu else "")
            elif form == 1:
                inner = (tu + ", " if tu else "") + f'flavor = {rlit(f)}'
            else:
                inner = f'flavor = {rlit(f.replace("::", "."))}' + (", " + tu if tu else "")
            root[2] = f"#[hooq({inner})]" if inner else "#[hooq]"
            sofar = f != "" and not p.get("nosofar")
            if p.get("root_method", f == ""):
                m = A.method(sofar and p.get("sofar", False))
                it.attrs.append(At("method", f"#[hooq::method({m})]", m))
                sofar = True
            if p.get("binds"):
                for nm in ("bx", "by"):
                    it.attrs.append(A.bind(nm))
            if p.get("levels") and r.random() < .7:
                it.attrs.append(A.one("level"))
            ra = list(p.get("root_attrs", []))
            r.shuffle(ra)
            for kd in ra:
                if r.random() < .5:
                    it.attrs.append(A.one(kd))
            if not kinds:
                continue
            pos = positions(it, inmac_ok=not nomac)[1:]
            if not pos:
                continue
            macky = [x for x in pos if hasmac(x[0])] if p.get("macs") else []
            branchy = macky or [x for x in pos if x[0].k in BRANCHY or x[0].k == "local" and x[0].init.k in BRANCHY]
            na = r.randrange(p.get("nattr", (1, 6))[0], p.get("nattr", (1, 6))[1] + 1)
            for _ in range(na):
                n, role = pos[r.randrange(len(pos))]
                if branchy and r.random() < .3:
                    n, role = branchy[r.randrange(len(branchy))]
                for _ in range(1 + (r.random() < .25)):
                    kd = A.pick(kinds)
                    if any(a.kind == kd and kd != "bind" for a in n.attrs):
                        continue
                    a = A.one(kd, sofar and p.get("sofar", False))
                    if a.kind == "bind" and any(b.kind == "bind" and b.args[0] == a.args[0] for b in n.attrs):
                        continue
                    n.attrs.append(a)
                    # the two attributes that work together, in either order
                    if kd.endswith("=") and r.random() < .5:
                        # a flavor and a setting of its own at one place, in either order
                        of = kd[:-1]
                        of = r.choice([x for x in kinds if x in ("method", "hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types",
                                                                 "hook_in_macros")] or [of]) if kd == "flavor=" else of
                        if of in kinds and not any(a.kind == of for a in n.attrs):
                            n.attrs.insert(r.randrange(len(n.attrs) + 1), A.one(of, False))
                    pair = {"tail_expr_idents": "ignore_tail_expr_idents", "ignore_tail_expr_idents": "tail_expr_idents"}.get(kd)
                    if pair and r.random() < .4 and not any(a.kind == pair for a in n.attrs):
                        n.attrs.insert(r.randrange(len(n.attrs) + 1), A.one(pair))

    def ordinary(self):
        """ordinary Rust attributes where stable Rust takes them; they stay in the program"""
        r = random.Random(f"{self.seed}/plain")
        p = self.prof
        if p.get("fam") or p.get("stderr") or p.get("excerpt") or r.random() >= p.get("plain", .35):
            return
        for root in self.roots:
            pos = [(n, role) for n, role in positions(root[0], inmac_ok=False)
                   if role in ("stmt", "local", "field", "arg", "item") or role == "tail" and n.k == "return"]
            for n, role in r.sample(pos, min(len(pos), r.randrange(0, 6))):
                t = r.choice(["#[allow(unused)]", "#[allow(clippy::all)]", "#[cfg(all())]", "#[warn(unused)]", "#[allow(unused, dead_code)]"])
                if role in ("arg", "field", "tail") and "cfg" in t:
                    t = "#[allow(unused_mut)]"
                if role == "stmt" and n.k in ("try", "call") and r.random() < .15:
                    t = "#[cfg(any())]"
                n.attrs.insert(r.randrange(len(n.attrs) + 1), At("plain", t, plain=True))

    # ------------------------------------------------------------ text
    def forms(self, path, consume=False):
        """text of the three forms; also the environment with the hooks attached"""
        y = random.Random(f"{self.seed}/layout")
        LAYOUT.v = (y.choice(["    "] * 6 + ["\t", "", "  ", " " * 25]), y.choice([0] * 7 + [1, 2, 3]))
        self.far = y.choice([0] * 6 + [y.choice([7, 40, 80, 96, 230, 990, 9980, y.randrange(300)])]) if y.random() > .01 else 65500
        crlf = y.random() < .08
        env = Env(path, self.flavors, consume)
        for it in [x[0] for x in self.roots] + self.extra:
            clear(it)
        head_b = self.prelude("b")
        o = Out("b", record=True)
        o.w(head_b)
        for it in self.extra:
            pi(o, it)
            o.w("\n")
        for it, fl, attr, frag in self.roots:
            proot(o, it, attr, frag)
        tail = self.entry()
        o.w(tail)
        b = o.text()
        env.btext = b
        for it, fl, attr, frag in self.roots:
            Walk(env).root(it, fl)
        out = {"b": b}
        for m in "ac":
            o = Out(m)
            o.w(self.prelude(m))
            for it in self.extra:
                pi(o, it)
                o.w("\n")
            for it, _, attr, frag in self.roots:
                proot(o, it, attr, frag)
            o.w(tail)
            out[m] = o.text()
        LAYOUT.v = ("    ", 0)
        if crlf:
            out = {k: v.replace("\n", "\r\n") for k, v in out.items()}
        return out, env

    def prelude(self, mode):
        hk = self.prof.get("hooktrait", "nc")
        s = "\n" * self.far + "use simrt::*;\n"
        if mode == "b":
            s += "use hooq::hooq;\n"
        s += f"use simrt::{hk}::Hook as _;\n"
        s += self.prof.get("uses_" + mode, "")
        s += "pub const KC: i32 = 5;\n"
        if any(r[3] for r in self.roots):
            s += FRAGS
        return s

    def entry(self):
        r = random.Random(f"{self.seed}/e")
        cs = list(self.calls)
        if not cs:
            return "pub fn entry() -> String { String::new() }\n"
        if len(cs) > 4:
            cs = r.sample(cs, 3) + [cs[-1]]
        L = []
        if self.asy:
            ts = []
            nt = r.choice([1, 2, 2, 3])
            for i in range(nt):
                body = []
                for name, kd, asy, na in (r.sample(cs, min(len(cs), 2))):
                    e = f"{name}({', '.join(str(r.randrange(4)) for _ in range(na))})"
                    body.append(f"s += &{self.fin(kd, e, asy)};")
                ts.append("Box::pin(async { let mut s = String::new(); " + " ".join(body) + " s })")
            return "pub fn entry() -> String {\n    run(vec![" + ",\n        ".join(ts) + "])\n}\n"
        for name, kd, asy, na in cs:
            e = f"{name}({', '.join(str(r.randrange(4)) for _ in range(na))})"
            L.append(f"    s += &{self.fin(kd, e, False)};\n    mark_call({rlit(name)});\n")
        return "pub fn entry() -> String {\n    let mut s = String::new();\n" + "".join(L) + "    s\n}\n"
