"""Markdown documents converted to notebooks."""
from vf.ctx import harness
from harness.lib import ASCII


def unjson(c, text):
    """The value a JSON text stands for; the text may have free characters inside its strings."""
    if not c.symbolic:
        import json
        return json.loads(text)
    t = list(text)
    at = [0]
    WS = " \n\t\r"

    def peek():
        while at[0] < len(t) and isinstance(t[at[0]], str) and t[at[0]] in WS:
            at[0] += 1
        c.check(at[0] < len(t), "the notebook is complete JSON")
        return t[at[0]]

    def need(x):
        c.check(isinstance(x, str) and c.truth(c.eq(peek(), x)), "the notebook is JSON", "".join(map(str, t[at[0]:at[0] + 20])), x)
        at[0] += 1

    def string():
        need('"')
        out = ""
        while True:
            c.check(at[0] < len(t), "a string of the notebook ends")
            ch = t[at[0]]
            at[0] += 1
            if c.truth(c.eq(ch, '"')):
                return out
            if c.truth(c.eq(ch, "\\")):
                e = t[at[0]]
                at[0] += 1
                for k, v in zip('"\\/bfnrt', '"\\/\b\f\n\r\t'):
                    if c.truth(c.eq(e, k)):
                        out = out + v
                        break
                else:
                    c.check(c.truth(c.eq(e, "u")), "an escape of JSON", e)
                    out = out + chr(int("".join(t[at[0]:at[0] + 4]), 16))
                    at[0] += 4
                continue
            if not isinstance(ch, str) or ord(ch) < 32:
                c.check(c.truth(c.not_(c.member(ch, [chr(i) for i in range(32)]))), "no bare control character in JSON", ch)
            out = out + ch

    def value():
        x = peek()
        if c.truth(c.eq(x, '"')):
            return string()
        if x == "{":
            need("{")
            d = {}
            while peek() != "}":
                if d:
                    need(",")
                k = (peek(), string())[1]
                need(":")
                d[k] = value()
            need("}")
            return d
        if x == "[":
            need("[")
            a = []
            while peek() != "]":
                if a:
                    need(",")
                a.append(value())
            need("]")
            return a
        w = ""
        while at[0] < len(t) and isinstance(t[at[0]], str) and t[at[0]] not in WS + ",]}":
            w += t[at[0]]
            at[0] += 1
        import json
        c.check(w in ("true", "false", "null") or w.lstrip("-").isdigit(), "a value of JSON", w)
        return json.loads(w)
    v = value()
    c.check("".join(map(str, t[at[0]:])).strip() == "", "nothing after the notebook")
    return v


def code_of(c, line):
    """(number, code) of a line of code, None for other lines"""
    if not c.truth(line.startswith("[")):
        return None
    n = ""
    for ch in line[1:]:
        if c.truth(c.eq(ch, "]")):
            return n, line[len(n) + 2:]
        if not c.truth(c.member(ch, list("0123456789"))):
            return None
        n = n + ch
    return None


def trim(lines):
    """without blank lines at both ends"""
    lines = list(lines)
    while lines and lines[0] == "":
        lines.pop(0)
    while lines and lines[-1] == "":
        lines.pop()
    return lines


def blocks(c, lines):
    """[(kind, lines)]: runs of code of one number, and of other lines up to two blank ones"""
    out, cur = [], None
    for l in lines:
        k = code_of(c, l)
        kind = ("code", k[0]) if k else ("markdown", None)
        if cur and cur[0][0] == kind[0] and c.truth(c.eq(cur[0][1] or "", kind[1] or "")):
            if not k and l == "" and cur[1] and cur[1][-1] == "":
                out.append(cur)
                cur = None
                continue
            cur[1].append(k[1] if k else l)
        else:
            if cur:
                out.append(cur)
            cur = (kind, [k[1] if k else l])
    if cur:
        out.append(cur)
    return [(k[0], trim(b)) for k, b in out if trim(b)]


def check_notebook(c, text, want):
    nb = unjson(c, text)
    c.check(nb["nbformat"] == 4 and isinstance(nb["metadata"], dict), "a notebook")
    got = []
    for x in nb["cells"]:
        c.check(isinstance(x["source"], list) and isinstance(x["metadata"], dict), "a cell", x)
        if x["cell_type"] == "code":
            c.check(x["outputs"] == [] and x["execution_count"] is None, "code not yet run", x)
        b = trim("".join(x["source"]).split("\n")) if not c.symbolic else trim(join(x["source"]).split("\n"))
        if b:
            got.append((x["cell_type"], b))
    c.check(len(got) == len(want), "one cell for each part", [len(b) for _, b in got], [len(b) for _, b in want])
    for (k, b), (wk, wb) in zip(got, want):
        c.check(k == wk, "kind of cell", k, wk)
        c.equal(b, wb, "lines of the cell")


def join(parts):
    r = ""
    for p in parts:
        r = r + p
    return r


LINES = ["", "t", "[1]x", "[1]", "[12]y", "[]z", "  "]


def convert(c, text):
    import metaknowledge.bin.metaknowledgeMdToNb as nb
    p = c.put("d/doc.md", text)
    with (nb.open if hasattr(nb, "open") else nb.__builtins__["open"])(p) as f:
        out = nb.convert(f)
    c.check(out == p[:-3] + ".ipynb", "the notebook is beside the document", out)
    return c.text(out)


@harness("C42", quick=[dict(n=n, few=int(n > 3)) for n in range(6)], thorough=[dict(n=5, few=0), dict(n=6, few=1)], bounds="documents of up to 5 (thorough 6) lines, each empty, blanks, text, or code of one of three numbers or without code, the last one with or without an end of line")
def parts(c, n, few):
    """Every line is in one cell of its kind, in order."""
    lines = [c.pick("line%d" % i, ["", "t", "[1]x", "  "] if few else LINES) for i in range(n)]
    end = "\n" if n == 0 or c.b("end") else ""
    if n == 0:
        end = ""
    check_notebook(c, convert(c, "\n".join(lines) + end), blocks(c, lines))


@harness("C42", quick=[dict(k=3, where=w) for w in ("text", "code", "last", "start")], thorough=[dict(k=5, where=w) for w in ("text", "code", "last", "start")],
         bounds="a line with 3 (thorough 5) characters over printable ASCII, tab, form feed, escape, U+0085, e acute and U+2028")
def characters(c, k, where):
    """Text and code of any characters come through unchanged."""
    wide = ASCII + "\t\x0c\x1b\x85\u00e9\u2028"
    v = c.s("v", [wide, k])
    lines = {"text": ["a", "b" + v, "c"], "code": ["[1]" + v, "[1]c", "d"], "last": ["a", "[2]x", "b" + v], "start": [v, "b"]}[where]
    text = join([l + "\n" for l in lines[:-1]] + [lines[-1]])
    check_notebook(c, convert(c, text if where == "last" else text + "\n"), blocks(c, lines))


@harness("C42", quick=[dict(n=2)], bounds="up to two documents with a free character each, names with and without a folder or other dots")
def documents(c, n):
    """Each document given gets a notebook of its own name; the documents stay as they were."""
    import argparse
    import os
    import metaknowledge.bin.metaknowledgeMdToNb as nb
    op = nb.open if hasattr(nb, "open") else nb.__builtins__["open"]
    a, b = c.s("a", ["xy\"\\"]), c.s("b", ["xy\"\\"])
    p = c.put("d/" + c.pick("name", ["a.md", "a.b.md", "a", "a.txt"]), a + "\n")
    q = c.put("e/a.md", "[1]" + b + "\n")
    files = [p, q] if c.b("both") else [p]
    hs = [op(x) for x in files]
    old = nb.argumentParser
    nb.argumentParser = lambda: argparse.Namespace(files=hs)
    try:
        nb.mkMdToNb()
    finally:
        nb.argumentParser = old
        for h in hs:
            h.close()
    check_notebook(c, c.text(os.path.splitext(p)[0] + ".ipynb"), [("markdown", [a])])
    c.equal(c.text(p), a + "\n", "the document stays")
    if len(files) == 2:
        check_notebook(c, c.text(q[:-3] + ".ipynb"), [("code", [b])])
    else:
        c.check(sorted(os.listdir(c.tmp() + "/e")) == ["a.md"], "only those given", os.listdir(c.tmp() + "/e"))
