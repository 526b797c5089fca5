"""Items with malformed, valid and noisy attributes (C19)."""
import re

# attributes that mean nothing: the error belongs at the attribute
BAD = ["hooq::nosuch", "hooq::nosuch(1)", "hooq::skip(1)", "hooq::skip()", "hooq::skip_all(a, b)", "hooq::method", "hooq::hook_targets", "hooq::tail_expr_idents", "hooq::binding",
       "hooq::result_types", "hooq::hook_in_macros", "hooq::flavor", "hooq::flavor(log)", "hooq::flavor()", "hooq::bindings", "hooq::bindings(log)", "hooq::skips", "hooq::Skip",
       "hooq::hook_targets(1)", "hooq::hook_targets(\"x\")", "hooq::hook_targets(\"?\", \"retrun\")", "hooq::hook_targets(\"\")", "hooq::hook_targets(\"?\" \"return\")", "hooq::hook_targets(return)",
       "hooq::hook_targets[\"Return\"]", "hooq::hook_in_macros()", "hooq::hook_in_macros(\"x\")", "hooq::hook_in_macros(1)", "hooq::hook_in_macros(true, false)", "hooq::hook_in_macros(True)",
       "hooq::tail_expr_idents(Err)", "hooq::tail_expr_idents(\"Err\", 1)", "hooq::ignore_tail_expr_idents(Ok)", "hooq::ignore_tail_expr_idents", "hooq::result_types(Result)",
       "hooq::result_types(\"Result\", b\"x\")", "hooq::binding(x)", "hooq::binding()", "hooq::binding(a::b = 1)", "hooq::binding(x = )", "hooq::binding(x = 1, y = 2)", "hooq::var(1 = 2)",
       "hooq::var(x == 2)", "hooq::binding(\"x\" = 2)", "hooq::binding(x = let)", "hooq::a::b = 1", "hooq::a::b::c(1)", "hooq::a::b", "hooq::skip::all", "hooq::flavor = 1", "hooq::flavor = nosuch", "hooq::flavor = \"no::such\"",
       "hooq::flavor = \"\"", "hooq::flavor = default::nosuch", "hooq::method = 1", "hooq::method = nosuch", "hooq::method = a + b", "hooq::hook_targets = true", "hooq::hook_targets = nosuch",
       "hooq::tail_expr_idents = 'x'", "hooq::tail_expr_idents = nosuch", "hooq::ignore_tail_expr_idents = default", "hooq::ignore_tail_expr_idents = 1", "hooq::result_types = f()",
       "hooq::result_types = nosuch", "hooq::hook_in_macros = true", "hooq::hook_in_macros = nosuch", "hooq::bindings = 1", "hooq::bindings = nosuch", "hooq::flavor = [log]",
       "hooq::flavor = log::<u8>"]
# method templates that cannot be expanded: an error where they are used
TMPL = [".hk($nope)", ".hk($ (x))", ".hk($$line)", ".hk($\"s\")", ".hk($1)", ".hk($, 2)", ".hk($Line)", ".hk($line $line)", "hk($expr) x", "hk(", "", ".", ". 1 +", "$nope", "$", "$expr $expr", "a b", "let",
        ".hk(|x| { $nope })", ".hk([$nope, 1])", ".hk($source2)", "=> 1", "hk($expr,, 2)", ".hk(1 2)", "; $expr", "$expr;", ".hk(); $expr", "fn f() {}", ".hk($)", ".hk($line, $)", "hk($expr) $", "struct", ".await?.hk($nope)"]
ROOT = ["nosuch", "log::nosuch", "my::sub::nosuch::x", 'flavor = "no.such"', 'flavor = "nosuch"', "flavor = 3", "flavor = log", "flavor", "flavor(\"log\")", "x(y)", "trait_use(1)", "trait_use(\"x\")", "trait_use(a b)",
        "trait_use = x", "trait_use", "trait_uses(a, 1)", "traits(a::B)", "a::<u8>", "\"log\"", "1", "log,, log", "log log", ", log", "= log", "flavor == \"log\"", "log => 1", "trait_use(tr::A), x(y)", "x(y), trait_use(tr::A)",
        "method(.hk())", "hook_targets(\"?\")", "skip", "flavor = \"a b\"", "flavor = true", "trait_use(tr::A) log", "#log", "trait_use[1]", "nosuch, trait_use(tr::A)", "trait_use(tr::A), nosuch", "log = 1", "binding(x = 1)"]
GOOD = ["hooq::skip", "hooq::skip_all", "hooq::method(.hk($line, $column, $count))", "hooq::method(hk($expr, $source))", "hooq::hook_targets(\"?\", \"return\",)", "hooq::hook_targets(\"?\")",
        "hooq::tail_expr_idents(\"Err\", \"!Ok\")", "hooq::ignore_tail_expr_idents(\"Ok\")", "hooq::result_types(\"Result\", \"MyRes\")", "hooq::result_types()", "hooq::hook_in_macros(false)", "hooq::hook_in_macros(true)",
        "hooq::binding(x = 1 + 2)", "hooq::var(x = f(1, [2; 3]))", "hooq::x = 1", "hooq::flavor = default", "hooq::flavor = \"default\"", "hooq::flavor = log", "hooq::method = anyhow", "hooq::hook_targets = hook",
        "hooq::tail_expr_idents = default", "hooq::result_types = \"log::warn\"", "hooq::hook_in_macros = anyhow", "hooq::bindings = log", "allow(unused)", "inline", "doc = \"x\"", "my::tool(1)", "cfg(any())", "hooqx::y",
        "hooq::method(.hk($bindings, $fn_name, $fn_sig, $path, $file))", "hooq::tag = \"t\""]
GOOD_ROOT = ["", "default", "log", "log::info", 'flavor = "log.info"', 'flavor = "log::info"', "trait_use(a::B)", "trait_use(a::B, c::D,), hook", "anyhow, trait_uses(a::B)", "empty", "trait_use()", "log,"]
WORDS = ["hooq", "method", "hook_targets", "flavor", "log", "x", "true", "false", "1", "2.5", "\"?\"", "\"return\"", "\"!Ok\"", "r#\"q\"#", "'c'", "b\"z\"", "'a", "$", "$line", "$expr", "$nope", ".", ",", ";", "=", "=>", "::", "!", "?", "#", "|", "||",
         "&", "&&", "+", "->", "<", ">", "..", "@", "~", "fn", "let", "match", "return", "if", "else", "async", "await", "move", "self", "Self", "crate", "r#fn", "_", "dyn", "union", "()", "[]", "{}", "(1)", "{ x? }", "[0; 2]", "0u8", "1_000", "1e9", "\u00fcn",
         "\"\u65e5\u672c\"", "\"\\u{1F600}\"", "c\"s\"", "0x1F", "/* c */", "break 'a", "loop {}", "x as u8", "s0()?", "unsafe { g()? }", "&raw const x", "..=", "<<=", "$bindings", "hooq::skip"]

TOK = re.compile(r'''r\#"[^"]*"\#|c?b?"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)'|'?[^\W\d]\w*|\d[\w]*(?:\.\d+)?|\s+|.''', re.S)
OPEN = {"(": ")", "[": "]", "{": "}"}


def trees(ts, i=0, end=None):
    out = []
    while i < len(ts):
        t = ts[i]
        if t == end:
            return out, i + 1
        if t in OPEN:
            g, i = trees(ts, i + 1, OPEN[t])
            out.append((t, g))
            continue
        if not t.isspace():
            out.append(t)
        i += 1
    return out, i


def text(g):
    return " ".join(x if isinstance(x, str) else x[0] + text(x[1]) + OPEN[x[0]] for x in g)


def noise(r, s, n=None):
    """a token-level mutation that keeps the delimiters balanced"""
    g, _ = trees(TOK.findall(s))

    def every(l):
        yield l
        for x in l:
            if not isinstance(x, str):
                yield from every(x[1])
    for _ in range(n or r.choice([1, 1, 2, 3, 6])):
        l = r.choice(list(every(g)))
        k = r.randrange(8)
        if k == 0 and l:
            del l[r.randrange(len(l))]
        elif k == 1 and l:
            l.insert(r.randrange(len(l)), r.choice(l))
        elif k == 2 and len(l) > 1:
            a, b = r.sample(range(len(l)), 2)
            l[a], l[b] = l[b], l[a]
        elif k == 3 and l:
            del l[r.randrange(len(l)):]
        elif k == 4 and l:
            a = r.randrange(len(l))
            l[a] = (r.choice("([{"), [l[a]])
        elif k == 5 and l:
            l[r.randrange(len(l))] = r.choice(WORDS)
        else:
            l.insert(r.randrange(len(l) + 1), r.choice(WORDS))
    return text(g)


SLOTS = [
    "{A}\nlet v{j} = s{j}()?;", "{A}\ns{j}()?;", "{A}\nfn n{j}() -> Result<(), E> {{ s{j}()?; Ok(()) }}", "let c{j} = {A}\n|x: u8| -> Result<(), E> {{ s{j}(x)?; Ok(()) }};",
    "{A}\nif s{j}()? {{ t{j}()?; }}", "{A}\n{{ s{j}()?; }}", "{A}\nwhile s{j}()? {{ }}", "{A}\nfor x in s{j}()? {{ t{j}(x)?; }}", "{A}\nmatch s{j}()? {{ 1 => t{j}()?, _ => {{ }} }}",
    "{A}\nunsafe {{ s{j}()?; }}", "g{j}({A}\ns{j}()?);", "if c {{ {A}\nreturn s{j}(t{j}()?); }}", "let v{j} = S {{ {A}\nx: s{j}()?, y: 1 }};", "let v{j} = [{A}\ns{j}()?, 2];", "let v{j} = ({A}\ns{j}()?, 2);",
    "mod m{j} {{ {A}\nfn n{j}() -> R {{ s{j}()?; Ok(()) }} }}", "struct T{j}; impl T{j} {{ {A}\nfn n{j}(&self) -> R {{ s{j}()?; Ok(()) }} }}", "trait Q{j} {{ {A}\nfn n{j}(&self) -> R {{ s{j}()?; Ok(()) }} }}",
    "let v{j} = {A}\nasync move {{ s{j}()?; Ok(()) }};", "{A}\nloop {{ s{j}()?; break; }}", "let v{j} = x.m{j}({A}\ns{j}()?).n();", "let v{j} = {A}\nT {{ x: s{j}()? }};", "{A}\nlet Some(v{j}) = s{j}()? else {{ return Err(t{j}()?) }};",
    "let v{j} = {{ {A}\ns{j}()? }};", "{A}\nconst fn n{j}() -> R {{ s{j}()?; Ok(()) }}", "{A}\nimpl X{j} for Y {{ fn n{j}(&self) -> R {{ s{j}()?; Ok(()) }} }}", "{A}\nmod m{j} {{ fn n{j}() -> R {{ s{j}()?; Ok(()) }} }}",
    "let v{j} = {A}\n&s{j}()?[1..];", "let v{j} = {A}\n(s{j}()? as u8);", "let v{j} = {A}\nloop {{ break s{j}()?; }};", "let v{j} = {A}\nif s{j}()? {{ 1 }} else {{ 2 }};",
]
MACROS = ["println!(\"{{}}\", s{j}()?);", "vec![s{j}()?, 2];", "m!{{ s{j}()?; }}", "let v = format!(\"{{x}}\", x = s{j}()?);", "a::b!(x => s{j}()?);", "assert!(s{j}()?, \"m\");", "matches!(s{j}()?, Some(1) | None);"]
HEADS = [("fn f() -> Result<(), E> {", "Ok(())\n}"), ("pub async fn f<T: X>(t: T) -> MyRes<u8>\nwhere T: Y {", "Ok(1)\n}"), ("impl<T> A<T> {\nconst K: u8 = 1;\nfn f(&self) -> Result<(), E> {", "Ok(())\n}\n}"),
         ("trait A {\nfn g();\nfn f(&self) -> Result<(), E> {", "Ok(())\n}\n}"), ("mod a {\nuse b::c;\nfn f() -> Option<u8> {", "None\n}\n}"), ("unsafe extern \"C\" fn f(x: i32, ...) -> Result<(), E> {", "Ok(())\n}")]


def pos(s, i):
    l = s.count("\n", 0, i)
    return [l + 1, i - (s.rfind("\n", 0, i) + 1) + 1]


ROOTLINE = 1000


def item(r):
    """(root attribute, item, expectation): expectation is ("code",), ("error", start, end) or ("any",)"""
    head, tail = r.choice(HEADS)
    mode = r.choice(["bad", "bad", "bad", "tmpl", "tmpl", "root", "good", "noise", "noise", "noise", "rootnoise", "macnoise"])
    root = r.choice(GOOD_ROOT)
    n = r.randrange(1, 5)
    at = r.randrange(n)
    body, mark = "", None
    for j in range(n):
        x = r.random()
        if mode == "macnoise" and j == at:
            m = r.choice(MACROS).format(j=j)
            k = re.search(r"!\s*([(\[{])", m)
            inner = m[k.end():max(m.rfind(")"), m.rfind("]"), m.rfind("}"))]
            body += m[:k.end()] + noise(r, inner) + m[k.end() + len(inner):] + "\n"
            continue
        if x < .15 and j != at:
            body += r.choice(MACROS).format(j=j) + "\n"
            continue
        slot = r.choice(SLOTS)
        a = ""
        if j == at and mode in ("bad", "tmpl", "noise"):
            if mode == "bad":
                a = r.choice(BAD)
            elif mode == "tmpl":
                t = r.choice(TMPL)
                a = f"hooq::method({t})" if t != "hk(" else "hooq::method(hk(1)(2 3))"
            else:
                a = r.choice(GOOD + BAD)
                k = re.search(r"[(=]", a)
                if k and a[k.end() - 1] == "(":
                    a = a[:k.end()] + noise(r, a[k.end():-1]) + ")"
                elif k:
                    a = a[:k.end()] + " " + noise(r, a[k.end():])
                else:
                    a = a + r.choice(["(", "[", "{"]) + noise(r, r.choice(WORDS))
                    a += OPEN[[c for c in a if c in OPEN][0]] if a.count("(") + a.count("[") + a.count("{") == 1 else ""
            others = [r.choice(["allow(unused)", "inline", "hooq::zq = 1"]) for _ in range(r.choice([0, 0, 1]))]
            attrs = [(a, True)] + [(o, False) for o in others]
            r.shuffle(attrs)
            s = ""
            for t, m in attrs:
                # (in the way a user breaks lines)
                s += ("\x01" if m else "") + f"#[{t}]" + ("\x02" if m else "") + r.choice([" ", "\n"])
            s = slot.replace("{A}\n", "\x03").format(j=j).replace("\x03", s)
            body += s + "\x04\n"
        elif x < .5 and mode != "tmpl":
            body += slot.replace("{A}", f"#[{r.choice(GOOD)}]").format(j=j) + "\n"
        else:
            body += slot.replace("{A}", a).format(j=j) + "\n"
    pre = ""
    if r.random() < .2:
        pre = f"#[{r.choice(['inline', 'doc = %s' % chr(34) + 'x' + chr(34), 'hooq::zr = 2'])}]\n"
    src = pre + head + "\n" + body + tail
    exp = ("code",) if mode in ("good", "macnoise") else ("any",)
    if mode in ("bad", "tmpl"):
        marks = {}
        for ch in "\x01\x02\x04":
            i = src.index(ch)
            src = src[:i] + src[i + 1:]
            marks[ch] = i
        # (the marks were taken out in order, so the later ones are already right)
        exp = ("error", pos(src, marks["\x01"]), pos(src, marks["\x02"] if mode == "bad" else marks["\x04"]))
        if root == "empty" or mode == "tmpl":
            root = r.choice(["", "default", "log", "hook"])
    else:
        for ch in "\x01\x02\x04":
            src = src.replace(ch, "")
    if mode == "root":
        root = "\n" * ROOTLINE + r.choice(ROOT)
        exp = ("error", [ROOTLINE + 1, 1], [ROOTLINE + 50, 1])
    elif mode == "rootnoise":
        root = noise(r, r.choice(ROOT + GOOD_ROOT))
        exp = ("any",)
    return root, src, exp, mode
