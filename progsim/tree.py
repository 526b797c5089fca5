"""Program trees and their printer.

A tree is printed in three modes:
  a  plain program
  b  attributed program; the printer records where each `?`, `return` and tail expression starts
  c  reference: every hooked site is wrapped by the hook call the rule engine attached to it
"""
import threading


class N:
    __slots__ = ("k", "f", "attrs", "hook", "tailhook", "pos", "tpos", "span", "wrap")

    def __init__(self, k, **f):
        self.k = k
        self.f = f
        self.attrs = []      # inert attributes (list of text) written before the node
        self.hook = None     # hook of a `?` or `return` site
        self.tailhook = None  # hook of the node as a tail value
        self.pos = None
        self.tpos = None
        self.span = None     # its place in the text of form b
        self.wrap = False    # layout: break lines inside

    def __getattr__(self, n):
        try:
            return object.__getattribute__(self, "f")[n]
        except KeyError:
            raise AttributeError(n)


# how this thread's program is laid out: indentation, and a comment before every so many lines
LAYOUT = threading.local()


class Out:
    def __init__(self, mode, record=False, ind=0):
        self.mode = mode
        self.record = record
        self.parts = []
        self.line = 1
        self.col = 1
        self.off = 0
        self.ind = ind
        self.comments = True
        self.unit, self.every = getattr(LAYOUT, "v", ("    ", 0))
        self.n = 0
        self.hoist = None    # pieces written as fragments of a macro: (name, node) in order
        self.ty = None

    def w(self, s):
        self.parts.append(s)
        self.off += len(s)
        i = s.rfind("\n")
        if i < 0:
            self.col += len(s)
        else:
            self.line += s.count("\n")
            self.col = len(s) - i

    def nl(self):
        self.w("\n" + self.unit * self.ind)
        if self.every and self.comments:
            self.n += 1
            if self.n % self.every == 0:
                self.w("/* é? 漢 */ ")

    def text(self):
        return "".join(self.parts)


def sub(n, mode, ind=0, noattr=True):
    """text of an expression on its own"""
    o = Out(mode, False, ind)
    pe(o, n, noattr=noattr, nohook=False)
    return o.text()


def commas(o, xs, f):
    for i, x in enumerate(xs):
        if i:
            o.w(", ")
        f(x)


class At:
    """an attribute: `plain` ones (ordinary Rust attributes) appear in every form"""
    __slots__ = ("kind", "args", "text", "plain")

    def __init__(self, kind, text, *args, plain=False):
        self.kind, self.text, self.args, self.plain = kind, text, args, plain


def attrs(o, n, inline=True):
    for a in n.attrs:
        if a.plain or o.mode == "b":
            o.w(a.text)
            if inline:
                o.w(" ")
            else:
                o.nl()


def block(o, stmts):
    o.w("{")
    if not stmts:
        o.w("}")
        return
    o.ind += 1
    for s in stmts:
        o.nl()
        ps(o, s)
    o.ind -= 1
    o.nl()
    o.w("}")


def pe(o, n, noattr=False, nohook=False):
    """print an expression; in mode c apply its hooks"""
    if not noattr:
        attrs(o, n)
    if o.hoist is not None and n.f.get("hoist") and not n.attrs:
        nm = f"$e{len(o.hoist)}"
        o.hoist.append((nm, n, o.off))
        o.w(nm)
        return
    if o.mode == "c" and n.tailhook is not None:
        h = n.tailhook
        so = Out("c", False, o.ind)
        pe0(so, n)
        o.w(h.render(so.text(), n))
        return
    if o.record:
        n.tpos = (o.line, o.col)
        start = o.off
        pe0(o, n)
        n.span = (start, o.off)
        return
    pe0(o, n)


def pe0(o, n):
    k = n.k
    if k == "lit" or k == "path":
        o.w(n.t)
    elif k == "call":
        if isinstance(n.fn, str):
            o.w(n.fn)
        else:
            pe(o, n.fn)
        o.w("(")
        commas(o, n.args, lambda x: pe(o, x))
        o.w(")")
    elif k == "mcall":
        pe(o, n.recv)
        if n.wrap:
            o.ind += 1
            o.nl()
        o.w("." + n.name + "(")
        commas(o, n.args, lambda x: pe(o, x))
        o.w(")")
        if n.wrap:
            o.ind -= 1
    elif k == "try":
        if o.mode == "c" and n.hook is not None:
            so = Out("c", False, o.ind)
            pe(so, n.e)
            r = n.hook.render(so.text(), n)
            o.w("(" + r + ")")
            if not n.hook.consume:
                o.w("?")
        else:
            pe(o, n.e)
            if n.wrap:
                o.ind += 1
                o.nl()
                o.ind -= 1
            if o.record:
                n.pos = (o.line, o.col)
            o.w("?")
    elif k == "await":
        pe(o, n.e)
        if n.wrap:
            o.ind += 1
            o.nl()
            o.ind -= 1
        o.w(".await")
    elif k == "paren":
        o.w("(")
        pe(o, n.e)
        o.w(")")
    elif k == "unary":
        o.w(n.op)
        pe(o, n.e)
    elif k == "bin":
        pe(o, n.l)
        if n.wrap:
            o.ind += 1
            o.nl()
            o.ind -= 1
        else:
            o.w(" ")
        o.w(n.op + " ")
        pe(o, n.r)
    elif k == "assign":
        pe(o, n.l)
        o.w(" = ")
        pe(o, n.r)
    elif k == "cast":
        pe(o, n.e)
        o.w(" as " + n.ty)
    elif k == "field":
        pe(o, n.e)
        o.w("." + n.name)
    elif k == "index":
        pe(o, n.e)
        o.w("[")
        pe(o, n.i)
        o.w("]")
    elif k == "array":
        o.w("[")
        commas(o, n.xs, lambda x: pe(o, x))
        o.w("]")
    elif k == "repeat":
        o.w("[")
        pe(o, n.e)
        o.w("; " + n.n + "]")
    elif k == "tuple":
        o.w("(")
        commas(o, n.xs, lambda x: pe(o, x))
        if len(n.xs) == 1:
            o.w(",")
        o.w(")")
    elif k == "struct":
        o.w(n.path + " { ")

        def fld(fx):
            attrs(o, fx)
            o.w(fx.name + ": ")
            pe(o, fx.e)
        commas(o, n.fields, fld)
        if n.rest is not None:
            if n.fields:
                o.w(", ")
            o.w("..")
            pe(o, n.rest)
        o.w(" }")
    elif k == "range":
        if n.l is not None:
            pe(o, n.l)
        o.w(n.op)
        if n.r is not None:
            pe(o, n.r)
    elif k == "ref":
        o.w("&mut " if n.mut else "&")
        pe(o, n.e)
    elif k == "rawaddr":
        o.w("&raw const ")
        pe(o, n.e)
    elif k == "block":
        if n.label:
            o.w(n.label + ": ")
        block(o, n.stmts)
    elif k == "unsafe":
        o.w("unsafe ")
        block(o, n.stmts)
    elif k == "const":
        o.w("const ")
        block(o, n.stmts)
    elif k == "async":
        o.w("async move " if n.move else "async ")
        block(o, n.stmts)
    elif k == "closure":
        if n.asy:
            o.w("async ")
        if n.move:
            o.w("move ")
        o.w("|" + n.params + "|")
        if n.ret:
            o.w(" -> " + n.ret)
        o.w(" ")
        pe(o, n.body)
    elif k == "if":
        o.w("if ")
        pe(o, n.cond)
        o.w(" ")
        block(o, n.then)
        if n.els is not None:
            o.w(" else ")
            pe(o, n.els)
    elif k == "let":
        o.w("let " + n.pat + " = ")
        pe(o, n.e)
    elif k == "match":
        o.w("match ")
        pe(o, n.e)
        o.w(" {")
        o.ind += 1
        for arm in n.arms:
            o.nl()
            o.w(arm.pat)
            if arm.guard is not None:
                o.w(" if ")
                pe(o, arm.guard)
            o.w(" => ")
            pe(o, arm.body)
            o.w(",")
        o.ind -= 1
        o.nl()
        o.w("}")
    elif k == "loop":
        if n.label:
            o.w(n.label + ": ")
        o.w("loop ")
        block(o, n.stmts)
    elif k == "while":
        if n.label:
            o.w(n.label + ": ")
        o.w("while ")
        pe(o, n.cond)
        o.w(" ")
        block(o, n.stmts)
    elif k == "for":
        if n.label:
            o.w(n.label + ": ")
        o.w("for " + n.pat + " in ")
        pe(o, n.e)
        o.w(" ")
        block(o, n.stmts)
    elif k == "break":
        o.w("break")
        if n.label:
            o.w(" " + n.label)
        if n.e is not None:
            o.w(" ")
            pe(o, n.e)
    elif k == "continue":
        o.w("continue")
        if n.label:
            o.w(" " + n.label)
    elif k == "return":
        if o.record:
            n.pos = (o.line, o.col)
        o.w("return")
        if n.e is not None:
            o.w(" ")
            if o.mode == "c" and n.hook is not None:
                so = Out("c", False, o.ind)
                pe(so, n.e)
                o.w(n.hook.render(so.text(), n))
            else:
                pe(o, n.e)
    elif k == "mac":
        mac(o, n)
    else:
        raise AssertionError(k)


def mac(o, n):
    o.w(n.name + "!")
    op, cl = {"(": "()", "[": "[]", "{": "{}"}[n.delim]
    o.w(op)
    if n.mk == "exprs":
        commas(o, n.args, lambda x: pe(o, x))
    elif n.mk == "stmts":
        o.ind += 1
        for s in n.args:
            o.nl()
            ps(o, s)
        o.ind -= 1
        o.nl()
    elif n.mk == "items":
        o.ind += 1
        for s in n.args:
            o.nl()
            pi(o, s)
        o.ind -= 1
        o.nl()
    elif n.mk == "raw":
        # pieces: text or expression
        for x in n.args:
            if isinstance(x, str):
                o.w(x)
            else:
                pe(o, x)
    o.w(cl)


def ps(o, s):
    k = s.k
    if k == "local":
        attrs(o, s, inline=False)
        o.w("let " + s.pat)
        if s.ty:
            o.w(": " + s.ty)
        if s.init is not None:
            o.w(" = ")
            pe(o, s.init)
            if s.els is not None:
                o.w(" else ")
                block(o, s.els)
        o.w(";")
    elif k == "expr":
        attrs(o, s.e, inline=False)
        pe(o, s.e, noattr=True)
        if s.semi:
            o.w(";")
    elif k == "item":
        pi(o, s.i)
    elif k == "smac":
        attrs(o, s.m, inline=False)
        mac(o, s.m)
        if s.semi:
            o.w(";")
    elif k == "comment":
        if o.comments:
            o.w("// " + s.t)
    else:
        raise AssertionError(k)


def sig(n):
    return ("async " if n.asy else "") + "fn " + n.name + (n.gen or "") + "(" + n.params + ")" + (
        " -> " + n.ret if n.ret else "") + (" " + n.where if n.where else "")


def pi(o, n):
    k = n.k
    attrs(o, n, inline=False)
    if k == "fn":
        o.w((n.vis + " ") if n.vis else "")
        if o.ty is not None and n.ret and n.f.get("tyfrag") and not n.where:
            nm = f"$t{len(o.ty)}"
            o.ty.append((nm, n.ret))
            s = sig(n)
            o.w(s[:len(s) - len(n.ret)] + nm + " ")
        else:
            o.w(sig(n) + " ")
        block(o, n.stmts)
    elif k == "impl":
        o.w("impl " + n.head + " {")
        o.ind += 1
        for x in n.items:
            o.nl()
            pi(o, x)
        o.ind -= 1
        o.nl()
        o.w("}")
    elif k == "trait":
        o.w("pub trait " + n.name + " {")
        o.ind += 1
        for x in n.items:
            o.nl()
            pi(o, x)
        o.ind -= 1
        o.nl()
        o.w("}")
    elif k == "mod":
        o.w("pub mod " + n.name + " {")
        o.ind += 1
        for x in n.items:
            o.nl()
            pi(o, x)
        o.ind -= 1
        o.nl()
        o.w("}")
    elif k in ("const", "static"):
        o.w((n.vis + " ") if n.vis else "")
        o.w(k + " " + n.name + ": " + n.ty + " = ")
        pe(o, n.e)
        o.w(";")
    elif k == "tconst":
        o.w("const " + n.name + ": " + n.ty + " = ")
        pe(o, n.e)
        o.w(";")
    elif k == "imac":
        mac(o, n.m)
        if n.m.delim != "{":
            o.w(";")
    elif k == "raw":
        o.w(n.t)
    elif k == "decl":
        o.w(sig(n) + ";")
    else:
        raise AssertionError(k)


def source(n):
    """user source of a node as the hook reports it: own hooq attributes are gone"""
    o = Out("b")
    o.comments = False
    keep = n.attrs
    n.attrs = [a for a in n.attrs if a.plain]
    try:
        pe(o, n)
    finally:
        n.attrs = keep
    return o.text()


# ---------------------------------------------------------------- items that come out of a macro

FRAGS = """macro_rules! frag_parts {
    ($(#[$a:meta])* $v:vis async fn $n:ident($($p:ident: $pt:ty),*) -> $t:ty $b:block) => { $(#[$a])* $v async fn $n($($p: $pt),*) -> $t $b };
    ($(#[$a:meta])* $v:vis fn $n:ident($($p:ident: $pt:ty),*) -> $t:ty $b:block) => { $(#[$a])* $v fn $n($($p: $pt),*) -> $t $b };
}
macro_rules! frag_item { ($i:item) => { $i }; }
macro_rules! frag_tts { ($($t:tt)*) => { $($t)* }; }
"""


def proot(o, it, attr, frag):
    """a root item: as it is, or through a macro of the user"""
    def head():
        if o.mode == "b":
            o.w(attr + "\n")
    if frag is None:
        head()
        pi(o, it)
        o.w("\n")
        return
    if o.mode == "c":
        pi(o, it)
        o.w("\n")
        return
    if frag in ("parts", "item", "tts"):
        o.w(f"frag_{frag}! {{\n")
        head()
        pi(o, it)
        o.w("\n}\n")
        return
    # the item is the body of a macro, some of its expressions and types are arguments
    so = Out(o.mode, o.record)
    so.hoist, so.ty = [], []
    pi(so, it)
    hs, ts = so.hoist, so.ty
    pats = [f"{nm}:expr" for nm, _, _ in hs] + [f"{nm}:ty" for nm, _ in ts]
    if not pats:
        head()
        pi(o, it)
        o.w("\n")
        return
    nm = f"frag_def_{it.f.get('name', 'i')}"
    o.w(f"macro_rules! {nm} {{ ({'; '.join(pats)}) => {{\n")
    head()
    o.hoist, o.ty = [], []
    pi(o, it)
    hs = o.hoist
    o.hoist = o.ty = None
    o.w(f"\n}} }}\n{nm}! {{\n")
    first = {}
    for i, (_, n, off) in enumerate(hs):
        if i:
            o.w("; ")
        if o.record:
            first[off] = (o.line, o.col)
        if n.k == "paren":
            pe(o, n.e)
        else:
            pe(o, n)
    for i, (_, t) in enumerate(ts):
        if i or hs:
            o.w(";\n")
        o.w(t)
    o.w("\n}\n")
    if o.record:
        fix(it, first, o)


def fix(x, first, o):
    """an expression that begins with a fragment begins where the fragment was written"""
    if isinstance(x, N):
        if x.span is not None and not x.f.get("hoist") and x.span[0] in first:
            x.tpos = first[x.span[0]]
        for v in x.f.values():
            fix(v, first, o)
    elif isinstance(x, (list, tuple)):
        for y in x:
            fix(y, first, o)
