"""The printable overview of a collection."""
from vf.ctx import harness
from harness.lib import rc, wos, Count, but, ASCII


def sized(f, cols, rows):
    """f called with a terminal of that size"""
    import os
    old = {k: os.environ.get(k) for k in ("COLUMNS", "LINES")}
    os.environ.update(COLUMNS=str(cols), LINES=str(rows))
    try:
        return f()
    finally:
        for k, v in old.items():
            if v is None:
                del os.environ[k]
            else:
                os.environ[k] = v


def ranks(c, values):
    """values with their ranks by number of occurrences"""
    n = Count(c)
    for v in values:
        n.add(v)
    levels = sorted(set(k for _, k in n.items()), reverse=True)
    out = Count(c)
    for v, k in n.items():
        out.set(v, 1 + levels.index(k))
    return out


def some(c, sizes, alpha, k):
    """records with names, and a text of k free characters"""
    recs, names, texts = [], [], []
    for i, n in enumerate(sizes):
        v = ["N" + c.s("n%d.%d" % (i, j), ["ab"]) for j in range(n)]
        t = c.s("t%d" % i, [alpha, k])
        recs.append(wos(c, "WOS:%d" % i, SE=t, **({"AF": v} if v else {})))
        names += v
        texts.append(t)
    return recs, names, texts


@harness("C38", quick=[dict(sizes=(2, 1), size=s) for s in ((80, 24), (60, 12), (55, 8), (20, 3))], thorough=[dict(sizes=s, size=z) for s in ((2, 1), (3,), (1, 1, 1)) for z in ((80, 24), (54, 9), (55, 8))],
         bounds="up to 3 records with up to 3 names of 2 values and texts of 2 free characters, terminals of several sizes, smaller than allowed too")
def plain(c, sizes, size):
    """Each field asked for has its most frequent values in order of their ranks, as many as fit."""
    recs, names, texts = some(c, sizes, but(""), 2)
    R = rc(c, recs, name="the collection with a name of more than thirty characters")
    tags = c.pick("tags", [("AF", "SE"), ("SE",), ("AF", "XX"), ()])
    got = sized(lambda: R.glimpse(*tags), *size).split("\n")
    c.check(got[0].startswith("RecordCollection glimpse made at: "), "kind", got[0])
    c.equal(got[1], "%d Records from %s" % (len(recs), R.name[:30]), "size and name")
    rows = size[1] if size[1] >= 6 else 24
    cols = size[0] if size[0] >= 55 else 80
    room = (rows - (7 if 75 > cols else 6)) // 2
    at = 2
    of = {"AF": names, "SE": texts, "XX": [], "Top Authors": names, "Top Journals": [], "Top Cited": []}
    for t in tags or ("Top Authors", "Top Journals", "Top Cited"):
        c.equal([got[at], got[at + 1]], ["", t], "title")
        at += 2
        want = ranks(c, of[t])
        m = min(room, len(want))
        here = got[at:at + m]
        at += m
        c.equal(len(here), m, "as many as fit")
        # the values listed are the first of some order by rank
        rest = want.items()
        for line in here:
            best = min(r for _, r in rest)
            hit = [x for x in rest if x[1] == best and c.truth(c.eq(line, "%d %s" % (best, x[0])))]
            c.check(hit, "a value of the best rank", line, rest)
            rest.remove(hit[0])
    c.equal(len(got), at, "nothing more")


@harness("C38", quick=[dict(n=1, size=s) for s in ((80, 24), (60, 12), (56, 7))] + [dict(n=2, size=(57, 10))], thorough=[dict(n=n, size=s) for n in (1, 2, 3) for s in ((80, 24), (61, 9), (200, 8))],
         bounds="a record with up to 2 (thorough 3) names, short and long, terminals of several sizes, one to four columns")
def table(c, n, size):
    """Every line of the compact table is as wide as the terminal, with the rank on the left of each column and the value on its right."""
    names = [c.s("n%d" % i, ["ab"]) + (c.pick("fill", ["xx", "x ", " x"]) if i == 0 else "xx") * (c.pick("len%d" % i, [0, 100] if i else [0, 24, 100]) // 2) for i in range(n)]
    R = rc(c, [wos(c, "WOS:0", AF=names, SE=c.s("se", [but("")]))], name="nm")
    tags = c.pick("tags", [("AF",), ("SE", "AF"), ("AF", "XX", "UT"), ("AF", "SE", "UT", "PT")])
    got = sized(lambda: R.glimpse(*tags, compact=True), *size).split("\n")
    cols, rows = size
    for line in got:
        c.equal(len(line), cols, "as wide as the terminal")
    c.check(got[0].startswith("+RecordCollection glimpse made at: ") and got[1].startswith("|1 Records from nm+"), "header", got[:2])
    top = 4 if cols - 2 < 75 else 3
    c.equal("".join(x.strip("|").rstrip("+") + " " for x in got[2:top]), "Columns are ranked by num. of occurrences and are independent of one another ", "explanation")
    head = got[top]
    c.equal([x.strip("-") for x in head.strip("|").split("+")], list(tags), "titles")
    widths = [len(x) for x in head.strip("|").split("+")]
    c.check(max(widths) - min(widths) <= 1, "columns of the same width", widths)
    body = got[top + 1:]
    c.equal(len(got), rows - 2, "as tall as the terminal")
    at = 1
    for t, w in zip(tags, widths):
        want = ranks(c, {"AF": names, "SE": [R.peek()["SE"]], "UT": ["WOS:0"], "PT": ["J"], "XX": []}[t])
        show = lambda v: v.rjust(w - 2, " ") if len(v) <= w - 2 else v[:w - 3] + "."
        rest = want.items()
        for line in body:
            x = line[at:at + w]
            if rest:
                best = min(r for _, r in rest)
                hit = [y for y in rest if y[1] == best and c.truth(c.eq(x, "%d " % best + show(y[0])))]
                c.check(hit, "a value of the best rank", x, rest)
                rest.remove(hit[0])
            else:
                c.equal(x, "-1" + "NA".rjust(w - 2), "no more values")
        at += w + 1
