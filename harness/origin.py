"""Where records and grants come from: the file and the line they start on."""
import os
from vf.ctx import harness
from harness.lib import wos, rc, LETTERS
from harness.files import HEAD, pq_file, header, ENCODING
from harness.grants import table


def tail(c, name):
    """some lines more, each of a free letter"""
    return ["%s" % c.s("%s.%d" % (name, j), [LETTERS]) for j in range(c.pick(name + ".more", [0, 1, 3]))]


def made(c, kind, n, gaps=1, name="r"):
    """text of a file of n records, and for each its id and the line (from 1) it starts on"""
    starts, ls = [], []

    def gap(i):
        return [""] * (c.pick("%s%d.gap" % (name, i), [0, 2]) if gaps else 0)
    if kind == "wos":
        ls = HEAD.split("\n")[:-1]
        for i in range(n):
            ls += gap(i)
            starts.append(("WOS:%s%d" % (name, i), len(ls) + 1))
            ls += ["PT J", "TI a"] + ["   " + x for x in tail(c, "%s%d" % (name, i))] + ["UT WOS:%s%d" % (name, i), "ER"]
        ls += ["", "EF"]
    elif kind == "medline":
        ls = [""]
        for i in range(n):
            starts.append(("PMID:%d%d" % (len(name), i), len(ls) + 1))
            ls += ["PMID- %d%d" % (len(name), i), "TI  - a"] + ["      " + x for x in tail(c, "%s%d" % (name, i))] + ["AU  - Doe J", ""] + gap(i)
        ls += [""]
    elif kind == "scopus":
        h = header(c)
        own = c.pick(name + "own", [0, 1, 2])
        h = h + ["Extra"] if own == 1 else h[1:] if own == 2 else h
        ls = ["\ufeff" + ",".join(h)]
        for i in range(n):
            starts.append(("EID:%s%d" % (name, i), len(ls) + 1))
            d = {"Title": c.s("%s%d" % (name, i), [LETTERS]), "EID": "%s%d" % (name, i)}
            ls.append(",".join(d.get(k, "") for k in h))
        ls += [""]
    else:
        recs = [[("Name", "A"), ("Title", "T%d" % i), ("Author", "Doe, J"), ("url", "http://x.y/"), ("Abstract", ["x"] + tail(c, "%s%d" % (name, i))), ("ProQuest document ID", "%d%d" % (len(name), i))] for i in range(n)]
        ls = pq_file(c, recs).split("\n")
        for i in range(n):
            at = [j for j, l in enumerate(ls) if c.truth(c.eq(l, "Document %d of %d" % (i + 1, n)))]
            starts.append(("PROQUEST:%d%d" % (len(name), i), at[0] + 1))
    return "\n".join(ls), starts


NAME = {"wos": "a.isi", "medline": "a.medline", "scopus": "a.csv", "proquest": "a.txt"}


@harness("C41", quick=[dict(kind=k, n=n) for k in NAME for n in (1, 3)], bounds="files of one or three records of each format, with 0, 1 or 3 more lines in a field, and 0 or 2 more empty lines between records")
def records(c, kind, n):
    """Every record names the file it was read from and the line of it that it starts on, in a copy and after reading from a cache too."""
    t, starts = made(c, kind, n)
    p = c.put("in/" + NAME[kind], t, encoding=ENCODING[kind])
    os.chdir(c.tmp())
    p = c.pick("path", [p, "in/" + NAME[kind], "./in/" + NAME[kind]])
    R = c.mk.RecordCollection(p, quietStart=True)
    c.check(len(R) == n and not R.bad, "read", R.errors)
    alone, err = {"wos": c.mk.WOS.wosParser, "medline": c.mk.medline.medlineParser, "scopus": c.mk.scopus.scopusParser, "proquest": c.mk.proquest.proQuestParser}[kind](p)
    c.check(len(alone) == n and err is None, "read by its parser", err)
    for r in alone:
        c.check(r.sourceFile == p, "the file as it was given", r.sourceFile)
    for uid, line in starts:
        r = R.getID(uid)
        c.check(r is not None, "record", uid)
        for x in (r, r.copy()):
            c.check(os.path.realpath(x.sourceFile) == os.path.realpath(p), "file")
            c.equal(x.sourceLine, line, "line")


@harness("C41", quick=[dict(cached=k) for k in (0, 1)], bounds="a folder of four files of two records, one of each format, read twice, from the cache or not")
def folders(c, cached):
    """In a folder every record names its own file."""
    want = []
    os.mkdir(c.tmp() + "/d")
    for kind in NAME:
        t, starts = made(c, kind, 2, 0, "r" * (1 + len(want)))
        want.append((c.put("d/" + NAME[kind], t, encoding=ENCODING[kind]), starts))
    for _ in range(2):
        R = c.mk.RecordCollection(c.tmp() + "/d", quietStart=True, cached=bool(cached))
        c.equal(len(R), 8, "all of them")
        for p, starts in want:
            for uid, line in starts:
                r = R.getID(uid)
                c.check(os.path.realpath(r.sourceFile) == os.path.realpath(p), "file")
                c.equal(r.sourceLine, line, "line")
    A, B = [rc(c, [r for r in R if r.sourceFile.endswith(x)]) for x in (".isi", ".csv")]
    for r in (A | B):
        c.equal(r.sourceLine, R.getID(r.id).sourceLine, "in a union")


@harness("C41", quick=[dict(kind=k) for k in ("wos", "medline", "scopus")], bounds="a record of each format missing its id, or cut short, after a good one with 0, 1 or 3 more lines in a field")
def damaged(c, kind):
    """A bad record names its file and line too, and so does the refusal to write it."""
    t, starts = made(c, kind, 2, 0)
    if kind == "wos":
        t = t.replace("UT WOS:r1\n", "")
    elif kind == "medline":
        i = t.rfind("AU  - ")
        t = t[:i] + "?" + t[i:]
    else:
        t = t.replace("r1", "")
    p = c.put(NAME[kind], t, encoding=ENCODING[kind])
    R = c.mk.RecordCollection(p, quietStart=True)
    bad = [r for r in R if r.bad]
    c.equal(len(bad), 1, "bad records")
    c.check(os.path.realpath(bad[0].sourceFile) == os.path.realpath(p), "file")
    c.equal(bad[0].sourceLine, starts[1][1], "line")
    for x in (bad[0].copy(), bad[0]):
        c.check(os.path.realpath(x.sourceFile) == os.path.realpath(p) and x.bad and x.error is not None, "a copy is the same")
        c.equal(x.sourceLine, starts[1][1], "line of a copy")
    err = c.raises(bad[0].writeRecord, open(os.devnull, "w"))
    c.check(isinstance(err, c.mk.mkExceptions.mkException), "not written", err)
    c.check(p.rsplit("/", 1)[1] in str(err) and str(starts[1][1]) in str(err).replace(p, ""), "says where it is", err)


@harness("C41", quick=[dict(kind=k) for k in ("nserc", "cihr", "other", "nsf")], bounds="three grants of each format, a cell of a free letter, in a file or a folder of two")
def grants(c, kind):
    """Grants name their file and line."""
    v = c.s("v", [LETTERS])
    name = {"nserc": "NSERC_x.csv", "cihr": "cihr_x.csv", "other": "x.csv", "nsf": "x.xml"}[kind]
    if kind == "nserc":
        t, first, key = table(["Cle", "Name"], [["1", v], ["2", "b"], ["", "c"]]), 2, "Name"
    elif kind == "cihr":
        head = ["Title", "PI Names", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8"]
        t, first, key = "Search Criteria,,,,,,,,,\na,,,,,,,,,\n,,,,,,,,,\n" + table(head, [["1", v] + [""] * 8, ["2", "b"] + [""] * 8, ["3", ""] + [""] * 8]), 5, "PI Names"
    elif kind == "other":
        t, first, key = table(["A", "B"], [["1", v], ["2", "b"], ["3", "c"]]), 2, "B"
    else:
        t, first, key = "<?xml version='1.0'?><rootTag><Award><AwardID>" + v + "</AwardID><Title>t</Title></Award></rootTag>", 1, "Title"
    p = c.put("d/" + name, t, encoding="latin-1")
    for where in (p, c.tmp() + "/d"):
        G = c.mk.GrantCollection(where, quietStart=True)
        c.equal(len(G), 1 if kind == "nsf" else 3, "all of them")
        for g in G:
            c.check(os.path.realpath(g.sourceFile) == os.path.realpath(p), "file", g.sourceFile)
            if kind == "nsf":
                c.equal(g.sourceLine, first, "line")
            else:
                at = {"b": 1, "c": 2, "": 2}.get(g[key], 0) if c.truth(c.member(g[key], ["b", "c", ""])) and not c.truth(c.eq(g[key], v)) else None
                if at is not None:
                    c.equal(g.sourceLine, first + at, "line")
                elif c.truth(c.not_(c.member(v, ["b", "c"]))):
                    c.equal(g.sourceLine, first, "line")


@harness("C41", quick=[dict(kind=k) for k in ("nserc", "cihr", "other")], bounds="three grants of each format, the first two with cells of up to 3 lines, and up to 2 empty lines between them")
def long_grants(c, kind):
    """A grant of more than one line is where its first line is, and keeps the text of all of them."""
    v = c.s("v", [LETTERS])
    rows, at, line = [], [], {"nserc": 2, "cihr": 5, "other": 2}[kind]
    if kind == "cihr" and c.truth(c.b("longhead")):
        head, line = 'Title,"PI Names","x\n1",x2,x3,x4,x5,x6,x7,x8\n', line + 1
    else:
        head = {"nserc": "Cle,Name\n", "cihr": "Title,PI Names,x1,x2,x3,x4,x5,x6,x7,x8\n", "other": "A,B\n"}[kind]
    for i in range(3):
        gap, more = (c.pick("gap%d" % i, [0, 2]), c.pick("more%d" % i, [0, 1, 3])) if i < 2 else (1, 0)
        row = '%d,"N' % i + v + "\nmore" * more + '"' + ("," * 8 if kind == "cihr" else "") + "\n"
        rows.append("\n" * gap + row)
        at.append((line + gap, row))
        line += gap + 1 + more
    t = head + "".join(rows)
    if kind == "cihr":
        t = "Search Criteria,,,,,,,,,\na,,,,,,,,,\n,,,,,,,,,\n" + t
    p = c.put("d/" + {"nserc": "NSERC_x.csv", "cihr": "cihr_x.csv", "other": "x.csv"}[kind], t, encoding="latin-1")
    for where in (p, c.tmp() + "/d"):
        G = c.mk.GrantCollection(where, quietStart=True)
        c.check(not G.bad, "read", G.errors)
        key = {"nserc": "Cle", "cihr": "Title", "other": "A"}[kind]
        c.same_items([(g[key], g.sourceLine, g.original) for g in G], [(str(i), n, row) for i, (n, row) in enumerate(at)], "lines and text")
