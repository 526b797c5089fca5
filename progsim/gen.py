"""Seeded generator of typed programs made of fallible operations."""
import random

from tree import At, N

BLOCKY = {"block", "unsafe", "const", "async", "if", "match", "loop", "while", "for"}
POSTFIX_OK = {"lit", "path", "call", "mcall", "try", "await", "paren", "field", "index", "array", "tuple", "mac"}


def lit(t):
    return N("lit", t=str(t))


def path(t):
    return N("path", t=t)


def call(fn, *args):
    return N("call", fn=fn, args=list(args))


def mcall(recv, name, *args):
    return N("mcall", recv=atom(recv), name=name, args=list(args))


def tri(e):
    return N("try", e=atom(e))


def paren(e):
    return N("paren", e=e)


def bmac(e):
    """a macro call in braces would end a statement it starts"""
    return e.k == "mac" and e.delim == "{"


def atom(e):
    return e if e.k in POSTFIX_OK and not bmac(e) and not (e.k == "lit" and e.t.startswith("-")) else paren(e)


def unlead(e):
    """syn does not read `break 'a ::path`"""
    return paren(e) if e.k == "call" and isinstance(e.fn, str) and e.fn.startswith("::") else e


def opnd(e):
    return e if e.k in POSTFIX_OK and not bmac(e) else paren(e)


def blk(stmts, label=None):
    return N("block", stmts=stmts, label=label)


def es(e, semi=True):
    return N("expr", e=e, semi=semi)


def local(pat, init, ty=None, els=None):
    return N("local", pat=pat, ty=ty, init=init, els=els)


def closure(params, body, ret=None, move=False, asy=False):
    return N("closure", params=params, body=body, ret=ret, move=move, asy=asy)


def iff(c, t, e):
    return N("if", cond=c, then=t, els=e)


def arm(pat, body, guard=None):
    return N("arm", pat=pat, body=body, guard=guard)


def match(e, arms):
    return N("match", e=e, arms=arms)


def ret(e):
    return N("return", e=e)


def smac(m, semi=True):
    return N("smac", m=m, semi=semi)


def mac(name, delim, mk, args, rust=True):
    return N("mac", name=name, delim=delim, mk=mk, args=args, rust=rust)


class C:
    """generation context"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def but(self, **k):
        d = dict(self.__dict__)
        d.update(k)
        return C(**d)


# what `?` means in a function: which operands it takes and how results look
RET_TY = {
    "E": ["Result<i64, E>", "std::result::Result<i64, E>", "::core::result::Result<i64, E>"],
    "EA": ["MyRes<i64>", "Outcome<i64>"],
    "EL": ["alias::Result<i64>"],
    "F": ["Result<i64, F>"],
    "O": ["Option<i64>"],
    "OA": ["Maybe<i64>", "std::option::Option<i64>"],
    "I": ["i64"],
    "A": ["anyhow::Result<i64>", "Result<i64, anyhow::Error>", "::anyhow::Result<i64>"],
    "Y": ["eyre::Result<i64>", "Result<i64, eyre::Report>"],
}


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.nid = 0
        self.nv = 0
        self.fns = []      # (name, kind, nargs, async)
        self.budget = prof.get("size", 60)
        self.sites = 0

    def k(self):
        self.nid += 1
        return self.nid

    def v(self, pre="v"):
        self.nv += 1
        return f"{pre}{self.nv}"

    def ch(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def wpick(self, xs):
        t = sum(w for w, _ in xs)
        x = self.r.random() * t
        for w, f in xs:
            x -= w
            if x < 0:
                return f
        return xs[-1][1]

    # ------------------------------------------------------------ kinds
    def fam_kinds(self):
        return self.p["kinds"]

    def q(self, c):
        """family of `?` in this context: R (results), O (options) or None"""
        return {"E": "R", "F": "R", "A": "R", "Y": "R", "O": "O", "I": None}[c.kind[0]]

    # ------------------------------------------------------------ tryables
    def tryable(self, c, d, ty="i"):
        """an expression `?` can be applied to in this context, yielding ty"""
        q = self.q(c)
        k = self.k
        if ty == "i":
            return self.R(c, d) if q == "R" else self.O(c, d)
        if q == "R":
            f = {"b": "opb", "z": "ix", "u": "opu", "v": "items", "p": "pt", "f": "pick"}[ty]
        else:
            f = {"b": "optb", "z": "oix", "v": "oitems", "p": "opt_pt"}.get(ty)
            if f is None:
                return None
        e = call(f, lit(k()))
        if ty == "p" and q == "R" and d > 0 and self.ch(.3):
            return mcall(tri(e), "go", lit(k()))
        if d > 0 and self.ch(.08):
            return paren(e)
        return e

    def try_(self, c, d, ty="i"):
        if self.q(c) is None:
            return None
        e = self.tryable(c, d, ty)
        if e is None:
            return None
        n = tri(e)
        if self.ch(self.p.get("wrap", .1)):
            n.wrap = True
        self.sites += 1
        return n

    def R(self, c, d):
        """Result<i64, E> (or the family's error type)"""
        k = self.k
        self.budget -= 1
        o = [(6, lambda: call("op", lit(k()))),
             (2, lambda: call("opx", lit(k()), self.I(c, d - 1))),
             (1, lambda: mcall(call("guard", lit(k())), "opg", lit(k())))]
        if d > 0 and self.budget > 0:
            o += [
                (1, lambda: call("op2", lit(k()), self.I(c, d - 1), self.I(c, d - 1))),
                (.4, lambda: call(self.pick(["Done", "Fine", "ctor::Done"]), self.I(c, d - 1))),
                (.2, lambda: call(self.pick(["Fail::<i64>", "Bad::<i64>", "ctor::Fail::<i64>"]), lit(k()))),
                (.2, lambda: call("Err::<i64, E>", call("er", lit(k())))),
                (.3, lambda: call("Ok::<i64, E>", self.I(c, d - 1))),
                (.5, lambda: paren(self.R(c, d - 1))),
                (.5, lambda: paren(iff(self.cond(c, d - 1), self.blk_of(c, d - 1, self.R), blk(self.blk_of(c, d - 1, self.R))))),
                (.4, lambda: paren(match(self.I(c.but(nostruct=True), d - 1), [
                    arm("0", self.armbody(c, d - 1, self.R)), arm("_", self.armbody(c, d - 1, self.R))]))),
                (.4, lambda: paren(blk(self.blk_of(c, d - 1, self.R)))),
                (.3, lambda: mcall(call("op", lit(k())), "map", closure("x: i64", self.pureI(["x"])))),
                (.4, lambda: mcall(call("op", lit(k())), "and_then", self.cl1(c, d - 1))),
                (.4, lambda: mcall(call("op", lit(k())), "and_then", self.clq(c, d - 1))),
                (.15, lambda: mcall(call("op", lit(k())), "map::<i64, _>", closure("x: i64", self.pureI(["x"])))),
                (.3, lambda: mcall(call("op", lit(k())), "or_else", closure("_e: E", self.R(c.but(kind="I", asy=False, loop=None), 0)))),
                (.5, lambda: call(paren(self.cl1(c, d - 1, ann=True)), self.I(c, d - 1))),
                (.2, lambda: mac("ident", self.pick("(["), "exprs", [self.R(c, d - 1)])),
            ]
            cl = [x for x in c.cls if x[1] == "E"]
            if cl:
                o.append((1.2, lambda: call(self.pick(cl)[0], self.I(c, d - 1))))
            fs = [f for f in self.fns if f[1] in ("E", "EA", "EL") and (not f[3] or c.asy)]
            if fs:
                o.append((2, lambda: self.callfn(c, d, fs)))
            if self.q(c) == "R" and c.kind[0] in "EF":
                o.append((.5, lambda: tri(call("opn", lit(k())))))
            if c.asy:
                o.append((3, lambda: self.aw(call("aop", lit(k())))))
                o.append((.6, lambda: self.aw(self.asyncblk(c, d - 1))))
        elif c.asy and self.ch(.5):
            return self.aw(call("aop", lit(k())))
        if self.p.get("fam") in ("A", "Y"):
            # only forms whose error type stays E
            return self.RA(c, d)
        return self.wpick(o)()

    def RA(self, c, d):
        """anyhow / eyre programs: an operand with error E or the report type"""
        k = self.k
        o = [(6, lambda: call("op", lit(k()))),
             (1, lambda: mcall(call("guard", lit(k())), "opg", lit(k())))]
        if d > 0 and self.budget > 0:
            kd = self.p["fam"]
            o += [(2, lambda: call("opx", lit(k()), self.I(c, d - 1))),
                  (1.5, lambda: call("opx", lit(k()), call("tagged", lit(self.S()), self.I(c, d - 1)))),
                  (.5, lambda: paren(self.RA(c, d - 1))),
                  (.3, lambda: mac("ident", self.pick("(["), "exprs", [self.RA(c, 0)])),
                  (.5, lambda: call(paren(closure("x: i64", blk(self.body(c.but(kind=kd, ret=kd, asy=False, loop=None, vars=c.vars + ["x"], muts=[], cls=[], depth=c.depth + 1), d - 1)),
                                                  ret=self.pick(RET_TY[kd]))), self.I(c, d - 1)))]
            fs = [f for f in self.fns if f[1] == kd and (not f[3] or c.asy)]
            if fs:
                o.append((5, lambda: self.callfn(c, d, fs)))
            if c.asy:
                o.append((3, lambda: self.aw(call("aop", lit(k())))))
        return self.wpick(o)()

    def O(self, c, d):
        k = self.k
        self.budget -= 1
        o = [(6, lambda: call("opt", lit(k()))),
             (2, lambda: call("optx", lit(k()), self.I(c, d - 1))),
             (1, lambda: mcall(call("guard", lit(k())), "optg", lit(k())))]
        if d > 0 and self.budget > 0:
            o += [
                (.4, lambda: call("Some", self.I(c, d - 1))),
                (.4, lambda: paren(self.O(c, d - 1))),
                (.5, lambda: paren(iff(self.cond(c, d - 1), self.blk_of(c, d - 1, self.O), blk(self.blk_of(c, d - 1, self.O))))),
                (.4, lambda: paren(match(self.I(c.but(nostruct=True), d - 1), [
                    arm("0", self.armbody(c, d - 1, self.O)), arm("_", self.armbody(c, d - 1, self.O))]))),
                (.4, lambda: mcall(call("op", lit(k())), "ok")),
                (.4, lambda: mcall(call("opt", lit(k())), "and_then", closure("x: i64", call("optx", lit(k()), path("x"))))),
                (.5, lambda: call(paren(closure("x: i64", blk(self.body(c.but(kind="O", ret="O", asy=False, loop=None, vars=c.vars + ["x"], muts=[], cls=[], depth=c.depth + 1), d - 1)), ret="Option<i64>")), self.I(c, d - 1))),
            ]
            fs = [f for f in self.fns if f[1] in ("O", "OA") and (not f[3] or c.asy)]
            if fs:
                o.append((2, lambda: self.callfn(c, d, fs)))
        return self.wpick(o)()

    def aw(self, e):
        n = N("await", e=atom(e))
        if self.ch(self.p.get("wrap", .1)):
            n.wrap = True
        return n

    def callfn(self, c, d, fs):
        f = self.pick(fs)
        e = call(f[0], *[self.I(c, d - 1) for _ in range(f[2])])
        return self.aw(e) if f[3] else e

    def asyncblk(self, c, d):
        """async block producing Result<i64, E>"""
        fam = self.p.get("fam")
        if fam in ("A", "Y"):
            cc = c.but(kind=fam, ret=fam, loop=None, muts=[], asy=True, inasync=True, depth=c.depth + 1)
            st = self.stmts(cc, self.r.randrange(0, 3), d)
            st.append(es(call("Ok::<i64, %s>" % ("anyhow::Error" if fam == "A" else "eyre::Report"), self.I(cc, d)), False))
            return N("async", stmts=st, move=False)
        mv = self.ch(.3)
        cc = c.but(kind="E", ret="E", loop=None, muts=[], asy=True, inasync=True, depth=c.depth + 1, cls=[] if mv else c.cls)
        st = self.stmts(cc, self.r.randrange(0, 3), d)
        st.append(es(call(self.pick(["Ok::<i64, E>", "Done"]) if self.ch(.7) else "Done", self.I(cc, d)) if self.ch(.7) else self.typedR(cc, d), False))
        return N("async", stmts=st, move=mv)

    def typedR(self, c, d):
        return call("op", lit(self.k()))

    def cl1(self, c, d, ann=None):
        """|x: i64| -> Result<i64, E>"""
        ann = self.ch(.6) if ann is None else ann
        cc = c.but(kind="E", ret="E", asy=False, loop=None, vars=c.vars + ["x"], muts=[], cls=[], depth=c.depth + 1)
        if ann:
            return closure("x: i64", blk(self.body(cc, d)), ret=self.pick(["Result<i64, E>", "Result<i64, E>", "MyRes<i64>"]), move=self.ch(.1))
        cc = cc.but(kind="I", ret="?")
        return closure("x: i64", self.pick([
            lambda: call("opx", lit(self.k()), path("x")),
            lambda: call("Err::<i64, E>", call("er", lit(self.k()))),
            lambda: call("Fail::<i64>", lit(self.k())),
            lambda: call("Ok::<i64, E>", path("x")),
            lambda: blk([es(call("Fail::<i64>", lit(self.k())), False)]),
            lambda: iff(call("flag", lit(self.k())), [es(call("Fail::<i64>", lit(self.k())), False)], blk([es(call("Done", path("x")), False)])),
        ])())

    def clq(self, c, d):
        """a closure whose body is an expression with a `?`"""
        cc = c.but(kind="E", ret="?", asy=False, loop=None, vars=c.vars + ["x"], muts=[], cls=[], depth=c.depth + 1, inasync=False)
        body = self.pick([
            lambda: call("opx", lit(self.k()), self.try_(cc, d)),
            lambda: call(self.pick(["Done", "Ok::<i64, E>", "Fine"]), N("bin", op="+", l=opnd(self.try_(cc, d)), r=path("x"))),
            lambda: mcall(call("op2", lit(self.k()), self.try_(cc, 0), path("x")), "map", closure("y: i64", path("y"))),
            lambda: blk([local("_q", self.try_(cc, d)), es(call("opx", lit(self.k()), path("x")), False)]),
        ])()
        return closure("x: i64", body, move=False)

    # ------------------------------------------------------------ blocks
    def blk_of(self, c, d, f):
        st = self.stmts(c, self.wn([5, 3, 1]), d - 1) if d > 0 else []
        return st + [es(f(c.but(nostruct=False, vars=self.lastvars(c, st)), d), False)]

    def lastvars(self, c, st):
        return c.vars + [s.f["newvar"] for s in st if s.f.get("newvar")]

    def wn(self, ws):
        return self.wpick([(w, i) for i, w in enumerate(ws)])

    def armbody(self, c, d, f):
        c = c.but(nostruct=False)
        if self.ch(.4) and d > 0:
            return blk(self.blk_of(c, d, f))
        return f(c, d)

    # ------------------------------------------------------------ values
    def pureI(self, vs):
        v = self.pick(vs)
        return self.pick([lambda: path(v), lambda: N("bin", op="+", l=path(v), r=lit(self.r.randrange(5))),
                          lambda: mcall(path(v), "wrapping_mul", lit(3))])()

    def S(self):
        """a string literal"""
        r = self.r
        x = r.random()
        if x < .4:
            return self.pick(['"s"', '""', '"0123456789"', '"0123456789a"', '"some rather long text"',
                              '"first line\n  second, longer line\nx"', '"a \\"quoted\\" text"', '"tab\\tand\\nnewline escapes"'])
        n = r.choice([1, 2, 5, 6, 8, 9, 10, 11, 12, 14])
        if x < .55:
            raw = r.choice(["abc\\ (d", "a\u00e9\u6f22/", "xy\"z'"])
            return 'r#"%s"#' % "".join(r.choice(raw) for _ in range(n)).replace('"#', '"')
        ch = r.choice([["\u00e9", "\u6f22", "\U0001f980"], ["a", "b", "\u00e9", "-"], ["a", "\\n", "\\\\", "\\\"", "'", "\\t"],
                       ["\\u{e9}", "\\x41", "z", "\\0", "\\r"], ["a", "b", "c", "\n", " "], ["q", "\\\n      ", "w", "v", "u"]])
        return '"%s"' % "".join(r.choice(ch) for _ in range(n))

    def I(self, c, d):
        """i64"""
        k = self.k
        self.budget -= 1
        o = [(2, lambda: lit(self.r.randrange(9))), (1, lambda: call("val", lit(k())))]
        if c.vars:
            o.append((4, lambda: path(self.pick(c.vars))))
        if self.q(c):
            o.append((5 if d > 0 else 3, lambda: self.try_(c, d - 1)))
        if d > 0 and self.budget > 0:
            b = [
                (2, lambda: N("bin", op=self.pick("+-^|&"), l=opnd(self.I(c, d - 1)), r=opnd(self.I(c, d - 1)))),
                (.6, lambda: paren(self.I(c.but(nostruct=False), d - 1))),
                (.4, lambda: N("unary", op="-", e=atom(self.I(c, d - 1)))),
                (.5, lambda: N("cast", e=opnd(self.Z(c, d - 1)), ty="i64")),
                (.3, lambda: N("cast", e=opnd(self.B(c, d - 1)), ty="i64")),
                (.5, lambda: self.fieldI(c, d - 1)),
                (.6, lambda: N("index", e=N("array", xs=[self.I(c, d - 1), self.I(c, d - 1)]), i=self.Z(c, d - 1))),
                (.3, lambda: N("field", e=N("tuple", xs=[self.I(c, d - 1), self.I(c, d - 1)]), name=self.pick("01"))),
                (.4, lambda: call("id", self.I(c, d - 1))),
                (2.5 if self.p.get("strings") else .4, lambda: call("tagged", lit(self.S()), self.I(c, d - 1))),
                (.5, lambda: paren(blk(self.blk_of(c, d - 1, self.I)))),
                (.3, lambda: paren(N("unsafe", stmts=self.blk_of(c, d - 1, self.I)))),
                (.15, lambda: paren(N("const", stmts=[es(N("bin", op="+", l=lit(2), r=lit(3)), False)]))),
                (.3, lambda: self.lblock(c, d - 1)),
                (.8, lambda: paren(iff(self.cond(c, d - 1), self.blk_of(c, d - 1, self.I), blk(self.blk_of(c, d - 1, self.I))))),
                (.7, lambda: paren(self.matchI(c, d - 1))),
                (.4, lambda: self.loopI(c, d - 1)),
                (.4, lambda: call(paren(closure("x: i64", self.pureI(["x"]))), self.I(c, d - 1))),
                (.5 * self.p.get("macs", 1), lambda: mac("sum", self.pick("(["), "exprs", [self.I(c.but(nostruct=False), d - 1) for _ in range(self.r.randrange(1, 4))])),
                (.4 * self.p.get("macs", 1), lambda: self.blkmac(c, d - 1)),
                (.2 * self.p.get("macs", 1), lambda: mac("ident", "(", "exprs", [self.I(c.but(nostruct=False), d - 1)])),
                (.2, lambda: N("unary", op="*", e=N("ref", mut=False, e=atom(self.I(c, d - 1))))),
                (.2, lambda: N("cast", e=paren(mcall(paren(N("range", op=self.pick(["..", "..="]), l=lit(0), r=opnd(self.I(c, d - 1)))), "contains", N("ref", mut=False, e=atom(self.I(c, d - 1))))), ty="i64")),
                (.2, lambda: N("index", e=N("repeat", e=self.I(c, d - 1), n="2"), i=self.Z(c, d - 1))),
                (.15 * self.p.get("macs", 1), lambda: mcall(N("mcall", recv=mac("vec", "[", "raw", [self.I(c, d - 1), "; 2"], rust=True), name="iter", args=[]), "sum::<i64>")),
                (.2 * self.p.get("macs", 1), lambda: N("cast", e=opnd(mcall(mac("format", "(", "raw", [self.pick(['"{} {}", ', '"{} {}", ', '"a longer text {} and\n   {}", ']), self.I(c, d - 1), ", ", self.I(c, d - 1)]), "len")), ty="i64")),
                (.15 * self.p.get("macs", 1), lambda: N("cast", e=opnd(mac("matches", "(", "raw", [self.I(c, d - 1), ", 1 | 2"])), ty="i64")),
            ]
            b += [
                (.3, lambda: N("index", e=N("index", e=N("array", xs=[N("array", xs=[self.I(c, d - 1), lit(3)]), N("array", xs=[lit(4), self.I(c, d - 1)])]),
                                            i=self.Z(c, d - 1)), i=self.Z(c, d - 1))),
                (.2, lambda: N("field", e=N("field", e=N("tuple", xs=[N("tuple", xs=[self.I(c, d - 1), self.I(c, d - 1)]), self.I(c, 0)]), name="0"), name=self.pick("01"))),
                (.3, lambda: N("bin", op=self.pick("%/"), l=opnd(self.I(c, d - 1)), r=paren(N("bin", op="|", l=opnd(self.I(c, d - 1)), r=lit(1))))),
                (.3, lambda: N("bin", op=self.pick(["<<", ">>"]), l=opnd(self.I(c, d - 1)), r=paren(N("bin", op="&", l=opnd(self.I(c, d - 1)), r=lit(3))))),
                (.2, lambda: N("bin", op="*", l=opnd(self.I(c, d - 1)), r=opnd(self.I(c, d - 1)))),
                (.4, lambda: N("bin", op=self.pick("+-"), l=N("bin", op=self.pick("+-"), l=opnd(self.I(c, d - 1)), r=opnd(self.I(c, d - 1))), r=opnd(self.I(c, d - 1)))),
                (.3, lambda: N("bin", op="^", l=N("bin", op="&", l=opnd(self.I(c, d - 1)), r=N("bin", op="+", l=opnd(self.I(c, 0)), r=opnd(self.I(c, d - 1)))), r=opnd(self.I(c, d - 1)))),
                (.2, lambda: N("bin", op="+", l=N("cast", e=opnd(self.Z(c, d - 1)), ty="i64"), r=opnd(self.I(c, d - 1)))),
                (.15, lambda: N("cast", e=N("cast", e=call("id::<i64>", self.I(c, d - 1)), ty="i32"), ty="i64")),
                (.2, lambda: N("unary", op="!", e=N("unary", op="!", e=atom(self.I(c, d - 1))))),
                (.25, lambda: N("cast", e=mcall(N("index", e=N("array", xs=[self.I(c, d - 1), self.I(c, d - 1)]), i=self.rangeZ(c, d - 1)), "len"), ty="i64")),
                (.15, lambda: paren(self.rawI(c, d - 1))),
                (.3, lambda: paren(self.matchT(c, d - 1))),
            ]
            if self.q(c):
                b.append((.3, lambda: self.callpick(c, d - 1)))
                b.append((.6, lambda: self.chainI(c, d - 1)))
            if c.asy and c.inasync:
                b.append((.5, lambda: self.joinI(c, d - 1)))
            o += b
            fs = [f for f in self.fns if f[1] == "I" and (not f[3] or c.asy)]
            if fs:
                o.append((.8, lambda: self.callfn(c, d, fs)))
        for _ in range(4):
            e = self.wpick(o)()
            if e is not None:
                return e
        return lit(1)

    def rangeZ(self, c, d):
        x = self.r.randrange(3)
        return N("range", op=[".."if x != 1 else "..=", "..=", ".."][x], l=self.Z(c, d) if x != 1 else None, r=None if x == 0 else self.Z(c, d) if x == 1 else lit(2))

    def rawI(self, c, d):
        v = self.v("a")
        return N("unsafe", stmts=[local(v, N("array", xs=[self.I(c, d), self.I(c, d)])),
                                  es(N("unary", op="*", e=paren(N("rawaddr", e=N("index", e=path(v), i=self.Z(c, d))))), False)])

    def chainI(self, c, d):
        e = self.tryable(c, d)
        while e.k == "paren":
            e = e.e
        if e.k == "mcall" or e.k == "call" and e.fn in ("op", "opt", "opx", "optx"):
            e = tri(e)
        else:
            # (a constructor's integer literal has no type of its own for a method to be looked up on)
            e = tri(call("op" if self.q(c) == "R" else "opt", lit(self.k())))
        x = self.r.randrange(5)
        if x == 0:
            return N("unary", op="-", e=mcall(e, "abs"))
        m = mcall(e, "wrapping_add", self.I(c, d)) if x < 4 else mcall(e, "wrapping_neg")
        if self.ch(.3):
            m.wrap = True
        return mcall(m, "min", self.I(c, d)) if x == 1 else m

    def matchT(self, c, d):
        """a scrutinee of several values"""
        cc = c.but(nostruct=True)
        v = self.v("m")
        return match(N("tuple", xs=[self.I(cc, d), self.B(cc, d)]), [
            arm("(0, _)", self.armI(c, d), guard=self.G(c.but(nostruct=False), d) if self.ch(.25) else None),
            arm(f"({v}, true)", self.armI(c.but(vars=c.vars + [v]), d), guard=self.G(c.but(vars=c.vars + [v], nostruct=False), d) if self.ch(.4) else None),
            arm("_", self.armbody(c, d, self.I))])

    def callpick(self, c, d):
        f = self.try_(c, 0, "f")
        return call(paren(f) if self.ch(.5) else f, self.I(c, d)) if f is not None else None

    def joinI(self, c, d):
        if c.kind[0] not in "EF":
            return None
        if self.ch(.5):
            v = self.v("j")
            return paren(match(self.aw(call("join2", self.asyncblk(c, d), self.asyncblk(c, d))), [
                arm(f"(Ok(a{v}), Ok(b{v}))", N("bin", op="+", l=path("a" + v), r=path("b" + v))),
                arm("_", self.I(c, 0))]))
        return tri(self.aw(call("race", self.asyncblk(c, d), self.asyncblk(c, d))))

    def fieldI(self, c, d):
        e = self.try_(c, d, "p")
        if e is not None and self.ch(.6):
            if self.ch(.4):
                return N("field", e=e, name=self.pick("xy"))
            return mcall(e, "sum")
        if c.nostruct:
            return None
        rest = self.try_(c, d, "p") if self.ch(.3) else None
        fl = [N("fld", name="x", e=self.I(c, d))]
        if rest is None:
            fl.append(N("fld", name="y", e=self.I(c, d)))
        return mcall(paren(N("struct", path="Pt", fields=fl, rest=rest)), "sum")

    def lblock(self, c, d):
        lb = "'" + self.v("l")
        cc = c.but(nostruct=False, loop=None)
        st = self.stmts(cc, self.wn([3, 3, 1]), d)
        st.append(es(iff(self.cond(cc, d), [es(N("break", label=lb, e=self.I(cc, d)))], None), False))
        st.append(es(self.I(cc, d), False))
        return paren(blk(st, label=lb))

    def matchI(self, c, d):
        cc = c.but(nostruct=True)
        free = c.but(nostruct=False)
        arms = []

        def some(pats, n):
            """arms that may or may not have a guard"""
            for _ in range(n):
                q = self.pick(pats)
                x = c
                if "{}" in q:
                    v = self.v("m")
                    q, x = q.format(v), c.but(vars=c.vars + [v])
                irref = q == "_"
                arms.append(arm(q, self.armI(x, d), guard=self.G(x.but(nostruct=False), d) if irref or self.ch(.35) else None))

        def rest(pats=("_",)):
            q = self.pick(pats)
            x = c
            if "{}" in q:
                v = self.v("m")
                q, x = q.format(v), c.but(vars=c.vars + [v])
            arms.append(arm(q, self.armbody(x, d, self.I)))
        w = self.wn([3, 2, 2])
        if w == 0:
            sc = self.I(cc, d)
            some(["0", "1 | 2", "2..=5", "..=-1", "{} @ 6..=9"], 1)
            some(["_", "_", "{} @ 3..=40", "3 | 4 | 7..=20", "-4..0"], self.wn([3, 2, 1]))
            v = self.v("m")
            if self.ch(.7):
                arms.append(arm(v, self.armI(c.but(vars=c.vars + [v]), d), guard=self.G(free.but(vars=c.vars + [v]), d)))
            rest(("_", "_", "{}"))
        elif w == 1:
            sc = self.R(cc, d) if self.p.get("fam") not in ("A", "Y") else call("op", lit(self.k()))
            some(["Ok(0)", "Ok(1..=4)", "Ok(_)", "Err(_)", "_"], self.wn([4, 2, 1]))
            v = self.v("m")
            arms.append(arm(f"Ok({v})", self.armI(c.but(vars=c.vars + [v]), d)))
            rest(("Err(_)", "_", "Err(..)"))
        else:
            sc = call("opt", lit(self.k()))
            some(["Some(0)", "Some(1 | 3)", "None", "_", "Some(_)"], self.wn([4, 2, 1]))
            v = self.v("m")
            arms.append(arm(f"Some({v})", self.armI(c.but(vars=c.vars + [v]), d), guard=self.G(free, d) if self.ch(.3) else None))
            rest()
        return match(sc, arms)

    def armI(self, c, d):
        if self.ch(.12) and c.ret != "?":
            return ret(self.retval(c, d)) if self.ch(.7) else blk([es(ret(self.retval(c, d)))])
        return self.armbody(c, d, self.I)

    def loopI(self, c, d):
        cc = c.but(loop="i", nostruct=False)
        st = self.stmts(cc, self.wn([2, 3, 1]), d)
        t = self.tick(c)
        if t is None:
            st.append(es(N("break", label=None, e=self.I(cc, d)), self.ch(.5)))
        else:
            st.append(es(iff(N("unary", op="!", e=t), [es(N("break", label=None, e=self.I(cc, d)))], None), False))
        return paren(N("loop", stmts=st, label=None))

    def tick(self, c):
        q = self.q(c)
        if q is None:
            return None
        return tri(call("tick" if q == "R" else "otick", lit(self.k()), lit(self.r.randrange(1, 3))))

    def blkmac(self, c, d):
        cc = c.but(nostruct=False)
        st = []
        vs = list(cc.vars)
        for _ in range(self.r.randrange(1, 3)):
            if self.ch(.5):
                v = self.v()
                st.append(local(v, self.I(cc.but(vars=vs), d)))
                vs.append(v)
            else:
                st.append(es(call("show", lit(self.k()), self.I(cc.but(vars=vs), d))))
        st.append(es(self.I(cc.but(vars=vs), d), False))
        return mac("blk", self.pick("({"), "stmts", st)

    def G(self, c, d):
        """a match guard; no await in it: rustc 1.88 miscompiles a guard that suspends while the scrutinee is a place
        inside a temporary (seen with the plain form of a program)"""
        return self.B(c.but(asy=False, inasync=False), d)

    def B(self, c, d):
        k = self.k
        o = [(2, lambda: call("flag", lit(k()))),
             (1, lambda: N("bin", op=self.pick(["<", ">=", "==", "!=", "<=", ">"]), l=opnd(self.noless(self.I(c, d - 1))), r=opnd(self.I(c, d - 1))))]
        if self.q(c):
            o.append((4, lambda: self.try_(c, d - 1, "b")))
        if d > 0 and self.budget > 0:
            o += [(1, lambda: N("unary", op="!", e=atom(self.B(c, d - 1)))),
                  (1.2, lambda: N("bin", op=self.pick(["&&", "||"]), l=opnd(self.B(c, d - 1)), r=opnd(self.B(c, d - 1)))),
                  (.4, lambda: paren(self.B(c.but(nostruct=False), d - 1)))]
        for _ in range(4):
            e = self.wpick(o)()
            if e is not None:
                return e
        return path("true")

    def noless(self, e):
        return paren(e) if e.k == "cast" else e

    def Z(self, c, d):
        e = self.try_(c, d, "z") if self.ch(.7) else None
        return e if e is not None else lit(self.r.randrange(2))

    def cond(self, c, d):
        """a condition, possibly with let"""
        c = c.but(nostruct=True)
        x = self.r.random()
        if x < .7 or d <= 0:
            return self.B(c, d)
        v = "_" + self.v("c")
        if self.q(c) and self.ch(.6):
            le = N("let", pat=f"{v} @ 0..=3", e=opnd(self.try_(c, d - 1)))
        else:
            le = N("let", pat=f"Some({v})", e=opnd(call("opt", lit(self.k()))))
        if x < .85:
            return le
        if x > .96:
            v2 = "_" + self.v("c")
            return N("bin", op="&&", l=N("bin", op="&&", l=le, r=opnd(self.B(c, d - 1))), r=N("let", pat=f"Some({v2})", e=opnd(call("opt", lit(self.k())))))
        return N("bin", op="&&", l=opnd(self.B(c, d - 1)), r=le) if self.ch(.5) else N("bin", op="&&", l=le, r=opnd(self.B(c, d - 1)))

    # ------------------------------------------------------------ statements
    def stmts(self, c, n, d):
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            s = self.stmt(c, d)
            if s is None:
                continue
            for x in s:
                if x.f.get("newvar"):
                    c = c.but(vars=c.vars + [x.f["newvar"]])
                if x.f.get("newmut"):
                    c = c.but(vars=c.vars + [x.f["newmut"]], muts=c.muts + [x.f["newmut"]], allmuts=c.allmuts | {x.f["newmut"]})
                if x.f.get("newcl"):
                    c = c.but(cls=c.cls + [x.f["newcl"]])
                out.append(x)
        self.last = c
        return out

    def stmt(self, c, d):
        k = self.k
        o = [
            (4, lambda: self.s_let(c, d)),
            (1.2, lambda: self.s_mut(c, d)),
            (2, lambda: [es(call("show", lit(k()), self.I(c, d)))]),
            (.3, lambda: [N("comment", t=self.pick(["note ?", "return Err(1)", "#[hooq::skip]", "x"]))]),
            (.6, lambda: [local("_" + self.v("g"), call("guard", lit(k())))]),
        ]
        if self.q(c):
            o += [(3, lambda: [es(self.try_(c, d))]), (1, lambda: [es(self.try_(c, d, self.pick("ub")) or lit(0))])]
        if c.muts:
            o.append((2, lambda: self.s_assign(c, d)))
        if d > 0 and self.budget > 0:
            o += [
                (1.3, lambda: [self.s_if(c, d)]),
                (.8, lambda: [self.s_match(c, d)]),
                (.6, lambda: self.s_loop(c, d)),
                (.5, lambda: [es(blk(self.stmts(c.but(nostruct=False), 2, d - 1)), False)]),
                (.3, lambda: [es(N("unsafe", stmts=self.stmts(c.but(nostruct=False), 2, d - 1)), False)]),
                (.8, lambda: self.s_letelse(c, d)),
                (.5, lambda: self.s_tuple(c, d)),
                (.8, lambda: self.s_closure(c, d)),
                (.4, lambda: self.s_item(c, d)),
                (.5 * self.p.get("macs", 1), lambda: self.s_mac(c, d)),
                (.4, lambda: self.s_rvar(c, d)),
                (.8, lambda: self.s_bare(c, d)),
                (.4, lambda: self.s_uninit(c, d)),
                (.3, lambda: self.s_unitcl(c, d)),
            ]
            if c.ret != "?":
                o.append((.4, lambda: [es(N("bin", op="||", l=opnd(self.B(c, d - 1)), r=ret(self.retval(c, d - 1))))]))
                o.append((.5, lambda: self.s_matcherr(c, d)))
            if c.ret != "?":
                o.append((1.3, lambda: [es(iff(self.cond(c, d - 1), [es(ret(self.retval(c, d - 1)), self.ch(.8))], None), False)]))
            if c.asy and c.inasync and c.kind[0] in "EF":
                o.append((.8, lambda: self.s_async(c, d)))
        for _ in range(4):
            s = self.wpick(o)()
            if s is not None:
                return s
        return None

    def s_let(self, c, d):
        v = self.v()
        s = local(v, self.I(c, d), ty=self.pick([None, None, "i64"]))
        s.f["newvar"] = v
        if self.ch(.05):
            s.attrs.append(At("plain", "#[allow(unused)]", plain=True))
        return [s]

    def s_bare(self, c, d):
        """`?`, a method or an operator directly after a block-like expression"""
        x = self.r.randrange(4)
        v = self.v()
        if x < 2 and self.q(c):
            for _ in range(6):
                e = self.tryable(c, d)
                while e.k == "paren":
                    e = e.e
                if e.k in BLOCKY:
                    break
            else:
                f = self.R if c.ret[0] in "EF" else lambda c, d: call("op", lit(self.k()))
                if self.q(c) == "O":
                    f = self.O
                e = iff(self.cond(c, d - 1), self.blk_of(c, d - 1, f), blk(self.blk_of(c, d - 1, f)))
            i = N("try", e=e)
        elif x == 2:
            e = self.pick([lambda: iff(self.cond(c, d - 1), self.blk_of(c, d - 1, self.I), blk(self.blk_of(c, d - 1, self.I))), lambda: self.matchT(c, d - 1)])()
            i = N("bin", op=self.pick("+-"), l=e, r=opnd(self.I(c, d - 1)))
        else:
            def typed(c, d):
                return call("id::<i64>", self.I(c, d))
            e = self.pick([lambda: blk(self.blk_of(c, d - 1, typed)), lambda: N("unsafe", stmts=self.blk_of(c, d - 1, typed))])()
            i = N("mcall", recv=e, name="wrapping_add", args=[self.I(c, d - 1)])
        s = local(v, i, ty="i64")
        s.f["newvar"] = v
        return [s]

    def s_uninit(self, c, d):
        v = self.v("u")
        s = N("local", pat=v, ty="i64", init=None, els=None)
        if self.ch(.5):
            a = es(N("assign", l=path(v), r=self.I(c, d)))
        else:
            c2 = c.but(nostruct=False)
            a = es(iff(self.cond(c, d - 1), self.stmts(c2, 1, d - 1) + [es(N("assign", l=path(v), r=self.I(c2, d - 1)))],
                       blk([es(N("assign", l=path(v), r=self.I(c2, d - 1)))])), False)
        a.f["newvar"] = v
        return [s, a]

    def s_unitcl(self, c, d):
        v = self.v("cl")
        frozen = [x for x in c.vars if x not in c.allmuts]
        cc = c.but(kind="I", ret="?", asy=False, loop=None, vars=frozen + ["x"], muts=[], cls=[], depth=c.depth + 1, inasync=False)
        st = [es(iff(N("bin", op="<", l=path("x"), r=lit(2)), [es(N("return", e=None))], None), False), es(call("show", lit(self.k()), self.I(cc, d - 1)))]
        return [local(v, closure("x: i64", blk(st))), es(call(v, self.I(c, 0)))]

    def s_matcherr(self, c, d):
        kd = c.ret[0]
        if kd in "AY":
            return None
        v, e = self.v(), self.v("e")
        if kd == "E":
            m = match(self.R(c.but(nostruct=True), d - 1), [arm(f"Ok({e})", path(e)), arm(f"Err({e})", ret(call("Err", path(e))))])
        elif kd == "F":
            m = match(call("op", lit(self.k())), [arm(f"Ok({e})", path(e)), arm(f"Err({e})", ret(call("Err", mcall(path(e), "into"))))])
        elif kd == "O":
            m = match(self.O(c.but(nostruct=True), d - 1), [arm(f"Some({e})", path(e)), arm("None", ret(path("None")))])
        else:
            m = match(call("op", lit(self.k())), [arm(f"Ok({e})", path(e)), arm("Err(_)", ret(lit(1)))])
        s = local(v, m, ty="i64")
        s.f["newvar"] = v
        return [s]

    def s_mut(self, c, d):
        v = self.v()
        s = local("mut " + v, self.I(c, d), ty="i64")
        s.f["newmut"] = v
        return [s]

    def s_assign(self, c, d):
        m = self.pick(c.muts)
        k = self.k
        o = [(3, lambda: es(N("assign", l=path(m), r=self.I(c, d)))),
             (2, lambda: es(N("bin", op=self.pick(["+=", "-=", "^=", "+=", "|=", "&="]), l=path(m), r=self.I(c, d)))),
             (.5, lambda: es(N("bin", op=self.pick(["%=", "/="]), l=path(m), r=N("bin", op="|", l=opnd(self.I(c, d)), r=lit(1))))),
             (.5, lambda: es(N("bin", op=self.pick(["<<=", ">>="]), l=path(m), r=N("bin", op="&", l=opnd(self.I(c, d)), r=lit(3)))))]
        if self.q(c) and self.p.get("lhs", True):
            # fields and elements of things that are built on the spot
            o.append((.5, lambda: es(N(*self.pick([("assign",), ("bin",)]), op="-=", l=N("field", e=self.try_(c, 0, "p"), name="x"), r=self.I(c, d)))))
        if self.q(c) == "R" and self.p.get("lhs", True):
            o.append((1, lambda: es(N("assign", l=N("unary", op="*", e=tri(call("pm", N("ref", mut=True, e=path(m)), lit(k())))), r=self.I(c, d)))))
            o.append((.6, lambda: es(N("bin", op="+=", l=N("unary", op="*", e=tri(call("pm", N("ref", mut=True, e=path(m)), lit(k())))), r=self.I(c, 0)))))
        st = []
        if self.q(c) and self.p.get("lhs", True):
            def arr():
                a = self.v("a")
                st.append(local("mut " + a, N("array", xs=[self.I(c, 0), self.I(c, 0)])))
                l = N("index", e=path(a), i=self.try_(c, 0, "z"))
                st.append(es(N("assign", l=l, r=self.I(c, d)) if self.ch(.6) else N("bin", op="+=", l=l, r=self.I(c, d))))
                return es(call("show", lit(k()), path(a)))
            o.append((1, arr))
        if len(c.muts) > 1:
            o.append((.5, lambda: es(N("assign", l=N("tuple", xs=[path(c.muts[0]), path(c.muts[1])]), r=N("tuple", xs=[self.I(c, d), self.I(c, d)])))))
        x = self.wpick(o)()
        return st + [x]

    def s_if(self, c, d):
        c2 = c.but(nostruct=False)
        els = None
        if self.ch(.5):
            els = blk(self.stmts(c2, 2, d - 1))
            if self.ch(.4):
                els = iff(self.cond(c, d - 1), self.stmts(c2, 1, d - 1), els)
        return es(iff(self.cond(c, d - 1), self.stmts(c2, 2, d - 1), els), False)

    def s_match(self, c, d):
        arms = []
        c2 = c.but(nostruct=False)
        for p in (["0"], ["1", "2 | 3"])[self.r.randrange(2)] + ["_"]:
            g = self.B(c2, d - 1) if p != "_" and self.ch(.3) else None
            b = blk(self.stmts(c2, 2, d - 1)) if self.ch(.6) else self.unit(c2, d - 1)
            arms.append(arm(p, b, g))
        return es(match(opnd(self.I(c.but(nostruct=True), d - 1)), arms), False)

    def unit(self, c, d):
        o = [(2, lambda: call("show", lit(self.k()), self.I(c, d)))]
        if self.q(c) == "R":
            o.append((1, lambda: tri(call("opu", lit(self.k())))))
        if c.ret != "?":
            o.append((1, lambda: ret(self.retval(c, d))))
        if c.loop:
            o.append((.6, lambda: N("continue", label=None)) if c.loop != "i" else (.1, lambda: N("tuple", xs=[])))
        return self.wpick(o)()

    def s_loop(self, c, d):
        cc = c.but(loop="u", nostruct=False)
        x = self.r.randrange(6)
        if x >= 4:
            t = self.tick(c)
            if t is None:
                return None
        if x == 4:
            lb = "'" + self.v("l")
            v = self.v("i")
            jump = N(self.pick(["break", "continue"]), label=lb, **({"e": None}))
            inner = self.stmts(cc.but(vars=c.vars + [v]), 1, d - 1) + [es(iff(self.cond(c, d - 1), [es(jump)], None), False)] + self.stmts(cc.but(vars=c.vars + [v]), 1, d - 1)
            f = es(N("for", label=None, pat=v, e=self.try_(c, 0, "v") or N("range", op="..", l=lit(0), r=lit(2)), stmts=inner), False)
            return [es(N("while", label=lb, cond=t, stmts=self.stmts(cc, 1, d - 1) + [f] + self.stmts(cc, 1, d - 1)), False)]
        if x == 5:
            v = "_" + self.v("c")
            cond = self.pick([lambda: N("let", pat="true", e=t),
                              lambda: N("bin", op="&&", l=t, r=N("let", pat=f"Some({v})", e=opnd(call("opt", lit(self.k()))))),
                              lambda: N("bin", op="&&", l=N("let", pat=self.pick(["true", v + " @ true"]), e=t), r=opnd(self.B(c.but(nostruct=True), d - 1)))])()
            return [es(N("while", label=None, cond=cond, stmts=self.stmts(cc, 2, d - 1)), False)]
        if x == 0:
            t = self.tick(c)
            if t is None:
                return None
            return [es(N("while", label=None, cond=t, stmts=self.stmts(cc, 2, d - 1)), False)]
        if x == 1:
            v = self.v("i")
            it = self.try_(c, 0, "v") or N("range", op="..", l=lit(0), r=lit(2))
            return [es(N("for", label=None, pat=v, e=it, stmts=self.stmts(cc.but(vars=c.vars + [v]), 2, d - 1)), False)]
        if x == 2:
            v = self.v("i")
            rng = N("range", op=self.pick(["..", "..="]), l=lit(0), r=opnd(N("bin", op="&", l=opnd(self.I(c.but(nostruct=True), d - 1)), r=lit(1))))
            return [es(N("for", label=None, pat=v, e=rng, stmts=self.stmts(cc.but(vars=c.vars + [v]), 2, d - 1)), False)]
        t = self.tick(c)
        if t is None:
            return None
        lb = self.pick([None, "'" + self.v("l")])
        st = self.stmts(cc.but(loop=None), 1, d - 1) + [es(iff(N("unary", op="!", e=t), [es(N("break", label=lb, e=None))], None), False)] + self.stmts(cc, 1, d - 1)
        return [es(N("loop", label=lb, stmts=st), False)]

    def diverge(self, c, d):
        if c.loop == "u" and self.ch(.4):
            return [es(N(self.pick(["break", "continue"]), label=None, e=None))]
        if c.ret == "?":
            return [es(call("panic_stop"))] if False else None
        st = self.stmts(c.but(nostruct=False), self.wn([2, 1]), d - 1)
        return st + [es(ret(self.retval(c, d)), self.ch(.7))]

    def s_letelse(self, c, d):
        els = self.diverge(c, d - 1)
        if els is None:
            return None
        v = self.v()
        x = self.r.randrange(3)
        if x == 0:
            s = local(f"Some({v})", call("opt", lit(self.k())), els=els)
        elif x == 1 and self.p.get("fam") not in ("A", "Y"):
            s = local(f"Ok({v})", call("opx", lit(self.k()), self.I(c, d - 1)), els=els)
        else:
            s = local(f"{v} @ 0..=3", self.nobrace(self.I(c, d - 1)), els=els)
        s.f["newvar"] = v
        return [s]

    def nobrace(self, e):
        """let-else initialisers may not end in a brace nor be lazy booleans"""
        return paren(e) if e.k not in ("lit", "path", "call", "try", "paren") else e

    def s_tuple(self, c, d):
        a, b = self.v(), self.v()
        s = local(f"({a}, {b})", N("tuple", xs=[self.I(c, d - 1), self.I(c, d - 1)]))
        s.f["newvar"] = a
        return [s, local("_", path(b))]

    def s_closure(self, c, d):
        if self.p.get("fam") in ("A", "Y"):
            return None
        v = self.v("cl")
        kind = self.pick(["E", "E", "O", "I"])
        if kind not in self.p["kinds"]:
            kind = "E" if "E" in self.p["kinds"] else None
        if kind is None:
            return None
        frozen = [x for x in c.vars if x not in c.allmuts]
        cc = c.but(kind=kind, ret=kind, asy=False, loop=None, vars=frozen + ["x"], muts=[], cls=[], depth=c.depth + 1, inasync=False)
        s = local(v, closure("x: i64", blk(self.body(cc, d - 1)), ret=self.pick(RET_TY[kind]), move=self.ch(.2)))
        s.f["newcl"] = (v, kind)
        # captured mutable locals would be frozen: closures only see immutable ones
        return [s, es(call("show", lit(self.k()), mcall(call(v, self.I(c, 0)), "is_err" if kind == "E" else "is_none" if kind == "O" else "abs")))]

    def s_item(self, c, d):
        if self.p.get("noitems"):
            return None
        x = self.r.randrange(4)
        if x == 0:
            nm = self.v("C").upper()
            s = N("item", i=N("const", vis="", name=nm, ty="i64", e=N("bin", op="+", l=lit(1), r=lit(2))))
            return [s, es(call("show", lit(self.k()), path(nm)))]
        if x == 1 and self.p.get("fam") not in ("A", "Y"):
            nm = self.v("S").upper()
            cc = C(kind="E", ret="E", asy=False, inasync=False, loop=None, vars=["x"], muts=[], allmuts=frozenset(), cls=[], nostruct=False, depth=c.depth + 1)
            s = N("item", i=N(self.pick(["const", "static"]), vis="", name=nm, ty="fn(i64) -> Result<i64, E>",
                              e=closure("x: i64", blk(self.body(cc, d - 1)), ret="Result<i64, E>")))
            return [s, es(call("show", lit(self.k()), mcall(call(nm, self.I(c, 0)), "is_ok")))]
        kind = self.pick([q for q in self.p["kinds"] if q not in ("I",)] or self.p["kinds"])
        nm = self.v("n")
        y = self.r.random()
        if y < .3:
            # an impl or a module inside a body
            f = self.fn(nm, kind, d - 1, size=10, vis="pub", recv="&self" if y < .2 else None)
            big = nm.upper()
            if y < .1:
                its = [N("raw", t=f"struct {big};"), N("impl", head=big, items=[f])]
            elif y < .2:
                f.f["vis"] = ""
                its = [N("raw", t=f"struct {big};"), N("trait", name="T" + big, items=[f]), N("raw", t=f"impl T{big} for {big} {{}}")]
            else:
                its = [N("mod", name="m" + nm, items=[N("raw", t="use super::*;"), f])]
            its = [N("item", i=q) for q in its]
            callee = "m" + nm + "::" + nm if y >= .2 else big + "." + nm
            if self.p.get("consume"):
                return its
            m = {"O": "is_none", "I": "abs"}.get(kind[0], "is_ok")
            return its + [es(call("show", lit(self.k()), mcall(call(callee, self.I(c, 0)), m)))]
        f = self.fn(nm, kind, d - 1, size=10, vis="")
        s = N("item", i=f)
        if self.p.get("consume"):
            return [s, es(call("show", lit(self.k()), lit(0)))]
        m = {"O": "is_none", "I": "abs"}.get(kind[0], "is_ok")
        return [s, es(call("show", lit(self.k()), mcall(call(nm, self.I(c, 0)), m)))]

    def s_mac(self, c, d):
        x = self.r.randrange(4)
        if x == 0:
            return [smac(mac("sum", self.pick("([{"), "exprs", [self.I(c, d - 1), self.I(c, d - 1)]), semi=True)]
        if x == 1:
            return [smac(mac("assert", "(", "raw", [self.B(c, d - 1), ' || true, "a {}", 1']) if False else mac("assert", "(", "raw", [N("bin", op="||", l=opnd(self.B(c, d - 1)), r=path("true"))]))]
        if x == 2 and not self.p.get("noitems") and self.p.get("fam") not in ("A", "Y") and "E" in self.p["kinds"]:
            nm = self.v("n")
            f = self.fn(nm, "E", d - 1, size=8, vis="")
            return [N("item", i=N("imac", m=mac("items_mac", "{", "items", [f]))),
                    es(call("show", lit(self.k()), mcall(call(nm, self.I(c, 0)), "is_ok")))]
        return [smac(mac("blk", "{", "stmts", self.macstmts(c, d - 1)), semi=False), es(lit(0))] if self.ch(.0) else [
            smac(mac("blk", "(", "stmts", self.macstmts(c, d - 1)))]

    def macstmts(self, c, d):
        st = []
        for _ in range(self.r.randrange(1, 3)):
            if self.q(c) and self.ch(.6):
                st.append(es(self.try_(c, d)))
            else:
                st.append(es(call("show", lit(self.k()), self.I(c, d))))
        return st

    def s_rvar(self, c, d):
        """a result kept in a variable and tried later"""
        if self.q(c) != "R" or self.p.get("fam") in ("A", "Y"):
            return None
        v = self.v("r")
        return [local(v, self.R(c, d - 1), ty="Result<i64, E>")] + ([es(call("show", lit(self.k()), self.I(c, 0)))] if self.ch(.5) else []) + [
            es(call("show", lit(self.k()), tri(path(v))))]

    def s_async(self, c, d):
        v = self.v("fu")
        if self.ch(.3):
            # never polled
            return [local(v, self.asyncblk(c, d - 1)), es(call("drop", path(v)))]
        if self.ch(.3):
            cc = c.but(kind="E", ret="E", loop=None, muts=[], vars=c.vars + ["x"], cls=[], asy=True, inasync=True, depth=c.depth + 1)
            return [local(v, closure("x: i64", blk(self.body(cc, d - 1)), ret="Result<i64, E>", asy=True)),
                    es(call("show", lit(self.k()), tri(self.aw(call(v, self.I(c, 0))))))]
        return [local(v, self.asyncblk(c, d - 1)), es(call("show", lit(self.k()), tri(self.aw(path(v)))))]

    # ------------------------------------------------------------ results of functions
    def retval(self, c, d):
        """value of the function's return type"""
        kd = c.ret[0]
        c = c.but(nostruct=False)
        k = self.k
        if kd == "E":
            o = [(3, lambda: call(self.pick(["Ok", "Ok", "Result::Ok", "std::result::Result::Ok"]), self.I(c, d))),
                 (2, lambda: call(self.pick(["Err", "Err", "Result::Err", "Err::<i64, E>", "::std::result::Result::Err"]), call("er", lit(k())))),
                 (1, lambda: call(self.pick(["Fail", "Bad", "ctor::Fail", "ctor::Bad"]), lit(k()))),
                 (1, lambda: call(self.pick(["Done", "Fine", "ctor::Done"]), self.I(c, d))),
                 (5, lambda: self.R(c, d))]
        elif kd == "F":
            o = [(3, lambda: call("Ok", self.I(c, d))),
                 (2, lambda: call("Err", call("F::from", call("er", lit(k()))))),
                 (2, lambda: mcall(call("op", lit(k())), "map_err", path("F::from")))]
            fs = [f for f in self.fns if f[1] == "F" and (not f[3] or c.asy)]
            if fs:
                o.append((3, lambda: self.callfn(c, d, fs)))
        elif kd == "O":
            o = [(3, lambda: call("Some", self.I(c, d))), (1, lambda: path("None")), (3, lambda: self.O(c, d))]
        elif kd == "I":
            return self.I(c, d)
        elif kd in "AY":
            new = "anyhow::Error::new" if kd == "A" else "eyre::Report::new"
            o = [(4, lambda: call("Ok::<i64, anyhow::Error>" if kd == "A" else "Ok::<i64, eyre::Report>", self.I(c, d))), (1, lambda: call("Err", call(new, call("er", lit(k()))))),
                 (1, lambda: mcall(call("op", lit(k())), "map_err", path(new)))]
            fs = [f for f in self.fns if f[1] == kd and (not f[3] or c.asy)]
            if fs:
                o.append((4, lambda: self.callfn(c, d, fs)))
        return self.wpick(o)()

    def tailval(self, c, d, nr=False):
        """a tail expression of the function's return type, nested in control flow now and then
        (nr: not one that never yields, so that the whole always has a type)"""
        if d <= 0 or self.budget <= 0:
            return self.retval(c, d)
        f = self.tailval

        def g(c, d):
            return f(c, d, True)
        c2 = c.but(nostruct=False)
        o = [(6, lambda: self.retval(c, d)),
             (1.2, lambda: iff(self.cond(c, d - 1), self.blk_of(c2, d - 1, f), blk(self.blk_of(c2, d - 1, g)))),
             (1, lambda: match(opnd(self.I(c.but(nostruct=True), d - 1)), [
                 arm("0", self.armtail(c2, d - 1), self.G(c2, d - 1) if self.ch(.2) else None), arm("1 | 2", self.armtail(c2, d - 1)), arm("_", self.armtail(c2, d - 1, True))])),
             (.5, lambda: blk(self.blk_of(c2, d - 1, g))),
             (.3, lambda: N("unsafe", stmts=self.blk_of(c2, d - 1, g))),
             (.3, lambda: self.ltail(c2, d - 1)),
             (.3, lambda: paren(g(c2, d - 1))),
             ]
        if self.p.get("rettail", True) and not nr:
            o.append((.4, lambda: ret(self.retval(c2, d - 1))))
        if c.ret == "E":
            o.append((.3, lambda: N("unary", op="*", e=call("Box::new", self.retvalbox(c2, d - 1)))) if self.p.get("derefs", True) else (0.01, lambda: self.retval(c, d)))
        return self.wpick(o)()

    def retvalbox(self, c, d):
        return call("op", lit(self.k()))

    def armtail(self, c, d, nr=False):
        def g(c, d):
            return self.tailval(c, d, nr)
        if self.ch(.35):
            return blk(self.blk_of(c, d, g))
        if self.ch(.12) and not nr:
            return ret(self.retval(c, d))
        return g(c, d) if self.ch(.3) else self.retval(c, d)

    def ltail(self, c, d):
        lb = "'" + self.v("l")
        cc = c.but(loop=None)
        if self.ch(.5):
            st = self.stmts(cc, 1, d)
            st.append(es(iff(self.cond(cc, d), [es(N("break", label=lb, e=unlead(self.retval(cc, d))))], None), False))
            st.append(es(self.retval(cc, d), False))
            return blk(st, label=lb)
        st = self.stmts(cc.but(loop="i"), 1, d)
        st.append(es(N("break", label=None, e=self.retval(cc, d)), True))
        return N("loop", stmts=st, label=None)

    def body(self, c, d):
        st = self.stmts(c, self.wn([2, 4, 3, 2]), d)
        c = self.last if st else c
        return st + [es(self.tailval(c, d), False)]

    def fn(self, name, kind, d, size=40, vis="pub ", asy=False, recv=None, nargs=1, rettype=None):
        """a function item"""
        b0 = self.budget
        self.budget = min(size, max(b0, 6))
        args = [f"a{i}" for i in range(nargs)]
        c = C(kind=kind[0], ret=kind[0], asy=asy, inasync=asy, loop=None, vars=list(args), muts=[], allmuts=frozenset(), cls=[], nostruct=False, depth=0)
        n = self.wn([1, 2, 4, 4, 3])
        st = self.stmts(c, n, d)
        c = self.last if st else c
        st.append(es(self.tailval(c, d), False))
        gen = where = None
        if self.ch(.2):
            gen, where = self.pick([("<'a>", None), ("<'a, 'b: 'a>", None), (None, "where i64: Copy + Clone"), ("<'a>", "where 'a: 'a, i64: Copy,"),
                                    (None, "where i64: Sized")])
        pat = [self.pick(["{}: i64", "mut {}: i64", "{} @ _: i64", "#[allow(unused)] {}: i64"]) if self.ch(.15) else "{}: i64" for a in args]
        if recv is not None and recv not in ("&self",) and not where:
            pat = ["{}: i64" for a in args]
        params = ", ".join(([recv] if recv else []) + [q.format(a) for q, a in zip(pat, args)])
        if recv is None and args and self.ch(.1):
            params += ","
        self.budget = b0 - (size - self.budget)
        return N("fn", vis=vis.strip(), name=name, params=params, ret=rettype or self.pick(RET_TY[kind]), asy=asy, gen=gen, where=where,
                 stmts=st)


def bare(x, r, p):
    """drop the parentheses of operands that end in a brace, where the language allows it"""
    def ex(n, start):
        """start: does the expression begin a statement, an arm or something a macro may read as a statement"""
        for kk, v in list(n.f.items()):
            lead = (kk, n.k) in LEAD
            if isinstance(v, N):
                if lead and n.k in ("mcall", "try", "await", "field", "index") and v.k == "paren" and not v.attrs and v.e.k in BARE and (
                        v.e.k == "async" or not start and not v.e.f.get("label")) and r.random() < p:
                    n.f[kk] = v = v.e
                if v.k in STMTS:
                    st(v)
                else:
                    ex(v, start if lead else n.k in ("mac", "smac", "closure", "arm") and kk != "guard")
            elif isinstance(v, (list, tuple)):
                for y in v:
                    if isinstance(y, N):
                        if y.k in STMTS:
                            st(y)
                        else:
                            ex(y, n.k in ("mac", "smac"))

    def st(s):
        if s.k == "expr":
            ex(s.e, True)
        elif s.k == "smac":
            ex(s.m, True)
        else:
            for v in s.f.values():
                for y in v if isinstance(v, (list, tuple)) else [v]:
                    if isinstance(y, N):
                        st(y) if y.k in STMTS else ex(y, s.k == "local" and s.els is not None)
    ex(x, True)


STMTS = {"expr", "local", "item", "smac", "comment"}
BARE = {"async", "if", "match", "unsafe", "loop", "block"}
LEAD = {("recv", "mcall"), ("e", "try"), ("e", "await"), ("e", "field"), ("e", "index"), ("l", "bin"), ("l", "assign"), ("e", "cast"), ("fn", "call"),
        ("l", "range")}
