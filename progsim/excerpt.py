"""The documented excerpt of a hooked expression, computed from the program text alone."""
import re

TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|r"[^"]*"|r\#".*?"\#|"(?:[^"\\]|\\.)*"|'(?:[^'\\\n]|\\.)'|\s+|[A-Za-z_][A-Za-z_0-9]*|[0-9][A-Za-z_0-9]*|.''', re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "'": "'", '"': '"', "\\": "\\", "0": "\0"}
UNESC = {"\n": "\\n", "\t": "\\t", "\r": "\\r", '"': '\\"', "\\": "\\\\", "\0": "\\0"}


def value(lit):
    if lit[0] == "r":
        return lit[2:-1] if lit[1] == '"' else lit[3:-2]

    def esc(m):
        t = m.group(1)
        if t[0] == "\n":
            return ""
        if t[0] in "ux":
            return chr(int(t[1:].strip("{}"), 16))
        return ESC[t]
    return re.sub(r"\\(\n\s*|u\{[0-9a-f]+\}|x..|.)", esc, lit[1:-1], flags=re.S)


def shorten(v, n=10):
    a = max(n - 2, 0) // 2
    b = max(n - 2, 0) - a
    return "\n".join(x if len(x) <= n else x[:a] + ".." + x[len(x) - b:] for x in v.split("\n"))


def quote(v):
    return '"' + "".join(UNESC.get(x, x) for x in v) + '"'


def lines(text, truncate):
    """the expression line by line: comments gone, strings longer than truncate (None: any) shortened (not inside macro calls)"""
    out, cur, i, depth, macro = [""], 0, 0, 0, []
    prev = prev2 = ""
    for m in TOK.finditer(text):
        t = m.group(0)
        nl = t.count("\n")
        if t.startswith(("//", "/*")):
            continue
        if t.isspace():
            out += [""] * nl
            if nl or t:
                prev2, prev = prev, " "
            continue
        if t in "([{":
            depth += 1
            if prev == "!" and re.match(r"[A-Za-z_]", prev2 or " "):
                macro.append(depth)
        elif t in ")]}":
            if macro and macro[-1] == depth:
                macro.pop()
            depth -= 1
        if re.match(r'r?\#?"', t) and truncate is not None and not macro:
            t = quote(shorten(value(t), truncate))
        if truncate is None or macro:
            # as written
            a, *b = t.split("\n")
            out[-1] += a
            out += b
        else:
            out[-1] += t
            out += [""] * nl
        prev2, prev = prev, t
    return out


def one_line(text):
    return " ".join(lines(text, None))


def summary(text, line):
    return excerpted(text, line, {})


def pretty(text, line, o):
    return padded([x if "show_line_num" not in o else f"{line + i}{'|' if i else '>'}{x}" for i, x in enumerate(lines(text, None))],
                  "show_line_num" in o, o.get("padding", "none"))


def padded(ls, numbers, padding):
    bar = "|" if numbers else ""
    return "\n".join([bar] * (padding in ("top", "both")) + ls + [bar] * (padding in ("bottom", "both")))


def excerpted(text, line, o):
    n = o.get("excerpt_line", 5)
    ls = lines(text, o.get("truncate_str", 10))
    ls = [f"{line + i}{'|' if i else '>'}{x}" for i, x in enumerate(ls)]
    if n == 1:
        ls = ls[-1:]
    elif len(ls) > 2:
        ls = ls[:1] + (["..."] if len(ls) > n else []) + ls[1:][-(n - 1):]
    return padded(ls, True, "both" if o.get("padding") in ("top", "both") else "bottom")


def helper(name, opts, text, line):
    """one of the documented helper macros, called with options on $source"""
    o = {}
    for k, v in re.findall(r"@(\w+)(?:\s*=\s*([^,;]+))?", opts):
        o[k] = {"truncate_str": 10, "padding": "both"}.get(k, True) if not v else v.strip().strip('"') if v.strip()[0] == '"' else int(v)
    if name == "one_line_stringify":
        return " ".join(lines(text, o.get("truncate_str")))
    if name == "pretty_stringify":
        return pretty(text, line, o)
    return excerpted(text, line, o)
