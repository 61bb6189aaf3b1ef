"""Reading and writing record files."""
import os
from vf.ctx import harness
from harness.lib import rc, ASCII, TEXT, DIGITS, LETTERS, but

CAPS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

HEAD = "\ufeffFN Thomson Reuters Web of Science\u2122\nVR 1.0\n"


# ------------------------------------------------------------------ Web of Science
def wos_fields(c, p, nlines, alen=3, uid=None):
    """tag -> lines of one record, in file order"""
    out = [("PT", ["J"])]
    body = [c.s(p + "l%d" % i, [TEXT, alen]) if alen else "" for i in range(nlines)]
    if nlines:
        out.append((c.s(p + "tag", [CAPS], [CAPS + DIGITS]), body))
    out.append(("UT", ["WOS:" + (c.s(p + "id", [TEXT]) if uid is None else uid)]))
    return out


def wos_text(fields):
    t = ""
    for tag, lines in fields:
        for i, l in enumerate(lines):
            t += (tag + " " if i == 0 else "   ") + l + "\n"
    return t + "ER\n"


def same_record(c, R, fields, what):
    c.equal([(k, list(v)) for k, v in R.items(raw=True)], [(k, list(v)) for k, v in fields], what)


@harness("C07", quick=[dict(n=n, lines=l, alen=a) for n, l, a in ((1, 2, 6), (2, 1, 3), (2, 3, 3), (1, 1, 0), (3, 0, 1), (1, 5, 2), (3, 2, 2))],
         thorough=[dict(n=n, lines=l, alen=a) for n, l, a in ((1, 2, 12), (1, 6, 5), (2, 4, 6), (4, 2, 5), (5, 1, 3))],
         bounds="up to 3 (thorough 5) records, up to 5 (6) lines of up to 6 (12) characters over printable ASCII, tab, form feed, U+0085, e acute and U+2028, under a free two-character tag, free ids, blank lines between records")
def wos_parse(c, n, lines, alen):
    """Every record of a well-formed file is there with every line of every field, in order, and nothing is reported."""
    recs, t = [], HEAD
    for i in range(n):
        f = wos_fields(c, "r%d." % i, lines, alen)
        if lines:
            c.assume(c.not_(c.member(f[1][0], ["ER", "PT", "UT"])))
        recs.append(f)
        t += wos_text(f) + ("\n" if i != 1 else "")
    p = c.put("set.isi", t + "EF")
    R = c.mk.RecordCollection(p, quietStart=True)
    ids = c.distinct([f[-1][1][0] for f in recs])
    c.equal(len(R), len(ids), "one record per id")
    c.check(R.bad is False and len(R.errors) == 0, "nothing to report", R.errors)
    c.equal(R.name, "set", "named after the file")
    for f in recs:
        got = R.getID(f[-1][1][0])
        c.check(got is not None, "record is there")
        same = [g for g in recs if c.truth(c.eq(g[-1][1][0], f[-1][1][0]))]
        if len(same) == 1:
            same_record(c, got, f, "fields of the record")
            c.check(got.sourceFile == p, "source file")
            c.check(got.bad is False and got.error is None, "good record")
    return R


@harness("C07", quick=[dict(n=n, lines=l, alen=a, how=h) for n, l, a in ((1, 3, 5), (2, 2, 3)) for h in ("file", "list", "union", "added")],
         thorough=[dict(n=n, lines=l, alen=a, how=h) for n, l, a in ((1, 5, 10), (2, 4, 5), (3, 2, 4)) for h in ("file", "list", "union", "added")],
         bounds="as for reading; the collection comes from a file, a list, a union or by adding")
def wos_write(c, n, lines, alen, how):
    """Writing a collection and reading the file gives the collection back; records are written exactly as they were read."""
    recs = []
    for i in range(n):
        f = wos_fields(c, "r%d." % i, lines, alen, uid=str(i))
        if lines:
            c.assume(c.not_(c.member(f[1][0], ["ER", "PT", "UT"])))
        recs.append(f)
    if how == "file":
        p = c.put("in.isi", HEAD + "\n".join(wos_text(f) for f in recs) + "\nEF")
        R = c.mk.RecordCollection(p, quietStart=True)
    else:
        Rs = [c.mk.WOSRecord(dict(f)) for f in recs]
        if how == "list":
            R = rc(c, Rs)
        elif how == "union":
            R = rc(c, Rs[:1]) | rc(c, Rs[1:])
        else:
            R = c.mk.RecordCollection(quietStart=True)
            for x in Rs:
                R.add(x)
    out = c.tmp() + "/out.isi"
    R.writeFile(out)
    t = c.text(out)
    body = [wos_text(f) + "\n" for f in recs]
    h = "\ufeffFN Thomson Reuters Web of Science\u2122\nVR 1.0\n"
    c.check(c.any_([c.eq(t, h + "".join(b) + "EF") for b in orders(body)]), "the file holds the records as they were", t, body)
    B = c.mk.RecordCollection(out, quietStart=True)
    c.check(B == R, "the same collection")
    c.check(B.bad is False, "nothing to report", B.errors)
    for f in recs:
        same_record(c, B.getID(f[-1][1][0]), f, "fields of the record")
    for f in recs:
        x = R.getID(f[-1][1][0])
        c.equal(bytes(x), wos_text(f).encode("utf-8"), "as bytes")
        y = c.mk.WOSRecord(wos_text(f))
        c.check(y == x, "from text")
        same_record(c, y, f, "fields from text")


    c.check(c.any_([c.eq(bytes(R), "\n".join(wos_text(f) for f in o).encode("utf-8")) for o in orders(recs)]), "the collection as bytes")

@harness("C07", quick=[dict(n=n, names=k) for n in (3, 5) for k in (0, 1)], thorough=[dict(n=n, names=k) for n in (7, 8) for k in (0, 1)],
         bounds="one record with a field of up to 5 (thorough 8) lines, each of 0, 1 or 2 characters, or a name of the collection of 0 to 3 letters, 199 to 203 letters, given or not; written up to three times, with the field changed in between")
def wos_again(c, n, names):
    """Lines without text are written too, and writing again replaces what was written, under the name given or that of the collection."""
    ls = []
    for i in range(n):
        k = c.pick("k%d" % i, [0, 1, 2]) if not names else 1
        ls.append(c.s("l%d" % i, [TEXT, k]) if k else "")
    f = [("PT", ["J"]), ("AB", ls), ("UT", ["WOS:1"])]
    R = rc(c, [c.mk.WOSRecord(dict(f)), c.mk.WOSRecord(dict([("PT", ["J"]), ("UT", ["WOS:2"])]))])
    os.chdir(c.tmp())
    if names:
        name = c.pick("name", ["a", "b c", "a.isi", "x" * 199, "x" * 200, "x" * 201 + "yz", "x" * 199 + "yz"])
        R.name = name
        out = c.pick("out", [None, "o.isi", "a.txt"])
        path = out or name[:200] + ".txt"
        R.writeFile(out) if c.pick("way", [0, 1]) else R.writeFile(fname=out)
        c.equal(sorted(os.listdir(".")), [path], "the file that was written")
    else:
        path = "o.isi"
        R.writeFile(path)
    c.equal(len(c.mk.RecordCollection(path, quietStart=True)), 2, "both records")
    R.discardID("WOS:2")
    for _ in range(c.pick("times", [1, 2])):
        R.writeFile(path) if not names else R.writeFile(out)
    c.equal(sorted(os.listdir(".")), [path], "the same file")
    c.equal(c.text(path), HEAD + wos_text(f) + "\nEF", "what was there is replaced")
    B = c.mk.RecordCollection(path, quietStart=True)
    c.check(B == R and not B.bad, "the same collection", B.errors)
    same_record(c, B.getID("WOS:1"), f, "fields of the record")


@harness("C07", quick=[dict(n=n) for n in (0, 1, 2)], bounds="a collection of up to 2 records with free ids read from a folder, or those of it that cite a work with a DOI, or of some years, or a chunk of it, written without a name given, in each format")
def own_name(c, n):
    """A collection can be written under its own name however it was made."""
    recs = [[("PT", ["J"]), ("AU", ["Doe, J"]), ("CR", ["Roe A, 1990, J, DOI 10.1/x"]), ("PY", ["2001"]), ("UT", ["WOS:%d" % i + c.s("i%d" % i, ["12"])])] for i in range(n)]
    p = c.put("in/a.isi", HEAD + "\n".join(wos_text(f) for f in recs) + "\nEF")
    R = c.mk.RecordCollection(os.path.dirname(p), quietStart=True)
    how = c.pick("how", ["folder", "citing", "years", "copy"] + (["chunk"] if n else []))
    if how == "citing":
        R = R.localCitesOf("Roe A, 1990, J, DOI 10.1/x")
    elif how == "years":
        R = R.yearSplit(2000, 2002)
    elif how == "chunk":
        R = R.chunk(5)[0]
    elif how == "copy":
        R = R.copy()
    os.mkdir(c.tmp() + "/out")
    os.chdir(c.tmp() + "/out")
    what = c.pick("what", ["isi", "csv", "bib"])
    if what == "isi":
        R.writeFile()
    elif what == "csv":
        R.writeCSV(onlyTheseTags=["UT"], numAuthors=False, genderCounts=False)
    else:
        R.writeBib(reducedOutput=True)
    files = os.listdir(".")
    c.equal(len(files), 1, "one file")
    c.check(files[0].endswith({"isi": ".txt"}.get(what, "." + what)), "its extension", files)
    t = c.text(c.tmp() + "/out/" + files[0])
    ids = [f[-1][1][0] for f in recs]
    c.equal(bytes(R).decode("utf-8").count("UT WOS:"), n, "in bytes")
    if what == "isi" and n:
        c.same_items([r.id for r in c.mk.RecordCollection(files[0], quietStart=True)], ids, "the records")
    elif what == "csv":
        c.same_items([r.rstrip("\r") for r in t.strip("\n").split("\n")[1:]], ['"%s"' % x for x in ids], "the rows")
    elif what == "bib":
        c.equal(t.count("@misc"), n, "the entries")


@harness("C07", quick=[dict(n=n) for n in (0, 1, 2, 3)], bounds="up to 3 lines of 3 characters over printable ASCII, tab and U+2028 before the line of the version, with or without a byte order mark, 0 to 2 empty lines after it")
def wos_head(c, n):
    """The version is looked for in the first three lines."""
    t = "".join(c.s("h%d" % i, [ASCII + "\t\u2028", 3]) + "\n" for i in range(n))
    f = [("PT", ["J"]), ("AB", [c.s("x", [TEXT, 2])]), ("UT", ["WOS:1"])]
    t = c.pick("bom", ["\ufeff", ""]) + t + "VR 1.0" + c.pick("after", ["\n", " \n"]) + "\n" * c.pick("gap", [0, 1, 2]) + wos_text(f) + c.pick("end", ["\nEF", "EF\n", "\n\nEF"])
    p = c.put("a.isi", t)
    c.equal(c.mk.WOS.isWOSFile(p), n < 3, "recognized")
    c.equal(c.mk.WOS.isWOSFile(p, checkedLines=4), True, "recognized when more lines are read")
    c.equal(c.mk.WOS.isWOSFile(p, checkedLines=n), False, "not recognized when fewer are")
    if n < 3:
        R = c.mk.RecordCollection(p, quietStart=True)
        c.check(len(R) == 1 and not R.bad, "read", R.errors)
        same_record(c, R.getID("WOS:1"), f, "fields of the record")


def orders(xs):
    if len(xs) < 2:
        return [list(xs)]
    return [[xs[i]] + o for i in range(len(xs)) for o in orders(xs[:i] + xs[i + 1:])]


# ------------------------------------------------------------------ Medline
def med_text(fields):
    t = ""
    for tag, vals in fields:
        for v in vals:
            t += tag + " " * (4 - len(tag)) + "- " + v.replace("\n", "\n      ") + "\n"
    return t


LATIN = but("\u2028", base=TEXT)  # Medline files are written and read as Latin 1


def med_fields(c, p, shape, alen=4):
    """file order list of (tag, [value]) and what the record holds"""
    pid = c.s(p + "id", [DIGITS, 2])
    out = [("PMID", [pid])]
    held = [("PMID", [pid])]

    def hold(tag, v):
        for k, vs in held:
            if k == tag:
                vs.append(v)
                return
        held.append((tag, [v]))
    who = None
    for i, kind in enumerate(shape):
        v = c.s(p + "v%d" % i, [LATIN, alen])
        if kind == "t":
            out.append(("TI", [v]))
            hold("TI", v)
        elif kind == "m":
            v = v + "\n" + c.s(p + "w%d" % i, [LATIN, alen]) + "\n" + c.s(p + "y%d" % i, [LATIN])
            out.append(("AB", [v]))
            hold("AB", v)
        elif kind == "a":
            who = c.pick(p + "who%d" % i, ["None", "Auth%d " % i]) if i == 0 else "Auth%d " % i + c.s(p + "au%d" % i, [but(":", base=LATIN), 2])
            out.append(("AU", [who]))
            hold("AU", who)
        elif kind == "d":
            out.append(("AD", [v]))
            hold("AD", "{} : {}".format(who, v))
        elif kind == "o":
            out.append(("AUID", [v]))
            hold("AUID", "{} : {}".format(who, v))
        elif kind == "x":
            tag = c.s(p + "tag%d" % i, [CAPS, 2 + i % 3])
            c.assume(c.not_(c.member(tag, ["AU", "AD", "AUID", "PMID", "TI", "AB"])))
            c.assume(c.all_([c.not_(c.eq(tag, x)) for x, _ in out]))
            out.append((tag, [v]))
            hold(tag, v)
    return out, held


MED = ("tm", "tt", "adt", "adad", "addot", "aat", "xm", "at", "xxt", "ttt", "aoadm", "xmxm")


@harness("C08", quick=[dict(shapes=(s,)) for s in MED] + [dict(shapes=("t", "ad"))], thorough=[dict(shapes=(s, u)) for s in MED for u in ("m", "ad", "tx")] + [dict(shapes=("adoaddo",)), dict(shapes=("t", "a", "m"))],
         bounds="up to 2 (thorough 3) records with a free id and up to 5 (7) further lines: titles, several values of one tag, continued values, authors with affiliations and ids, unknown tags; values and continuation lines of 4 characters over printable ASCII, tab, form feed, U+0085 and e acute, tags of 2 to 4 letters")
def medline_parse(c, shapes):
    """Every value of every field is there, continued lines joined, affiliations with their author."""
    recs, t = [], ""
    for i, s in enumerate(shapes):
        f, held = med_fields(c, "r%d." % i, s)
        recs.append((f, held))
        t += "\n" + med_text(f)
    if c.truth(c.b("no newline at the end")):
        t = t.rstrip("\n")
    p = c.put("set.medline", t, encoding="latin-1")
    R = c.mk.RecordCollection(p, quietStart=True)
    ids = c.distinct([f[0][1][0] for f, _ in recs])
    c.equal(len(R), len(ids), "one record per id")
    c.check(R.bad is False and len(R.errors) == 0, "nothing to report", R.errors)
    for f, held in recs:
        got = R.getID("PMID:" + f[0][1][0])
        c.check(got is not None, "record is there")
        if len(ids) == len(recs):
            same_record(c, got, held, "fields of the record")
            c.check(got.bad is False and got.error is None, "good record")


@harness("C08", quick=[dict(shape=s) for s in MED + ("dt",)], thorough=[dict(shape=s) for s in MED + ("dt", "adoaddo", "atadm", "xxaod")],
         bounds="as for reading, one record; authors of a record distinct")
def medline_write(c, shape):
    """Writing a record and reading it again gives the same record."""
    f, held = med_fields(c, "", shape)
    p = c.put("in.medline", "\n" + med_text(f), encoding="latin-1")
    R = c.mk.RecordCollection(p, quietStart=True)
    out = c.tmp() + "/out.medline"
    R.writeFile(out)
    B = c.mk.RecordCollection(out, quietStart=True)
    c.equal(len(B), 1, "one record")
    c.check(B.bad is False, "nothing to report", B.errors)
    c.check(B == R, "the same collection")
    got = B.peek()
    c.same_map([(k, v) for k, v in got.items(raw=True)], [(k, v) for k, v in held], "fields of the record")
    a = c.mk.MedlineRecord(med_text(f).rstrip("\n"))
    c.check(a == got, "from text")
    c.same_map([(k, v) for k, v in a.items(raw=True)], [(k, v) for k, v in held], "fields from text")
    for x in (bytes(got), bytes(B)):
        b = c.mk.MedlineRecord(x.decode("latin-1").rstrip("\n"))
        c.check(b == got and b.bad is False, "from bytes", b.error)
        c.same_map([(k, v) for k, v in b.items(raw=True)], [(k, v) for k, v in held], "fields from bytes")


@harness("C08", quick=[dict(n=n, alen=a) for n, a in ((2, 2), (3, 1))], thorough=[dict(n=n, alen=a) for n, a in ((2, 4), (4, 1), (3, 2))],
         bounds="2 or 3 (thorough 4) records, a title of up to 2 (4) characters over printable ASCII, tab, form feed, U+0085 and e acute each, of two lines or one; the collection is read from a file, made of records or a union; written under a name or its own, twice")
def medline_collection(c, n, alen):
    """A collection of several records is written and read as it is, in its own encoding."""
    held = []
    for i in range(n):
        v = c.s("v%d" % i, [LATIN, alen]) + (c.pick("more%d" % i, ["", "\nb\u00e9"]) if i < 2 else "")
        held.append([("PMID", [str(i)]), ("TI", ["T" + v]), ("AU", ["Doe J"]), ("AD", ["Doe J : a" + str(i)])])
    how = c.pick("how", ["file", "list", "union"])
    text = "".join("\n" + med_text([(t, [x.split(" : ")[-1] for x in v]) for t, v in h]) for h in held)
    os.chdir(c.tmp())
    if how == "file":
        R = c.mk.RecordCollection(c.put("in.medline", text, encoding="latin-1"), quietStart=True)
    else:
        Rs = [c.mk.MedlineRecord(dict(h)) for h in held]
        R = rc(c, Rs) if how == "list" else rc(c, Rs[:1]) | rc(c, Rs[1:])
    R.name = "out"
    name = c.pick("name", [None, "o.medline"])
    R.writeFile(name)
    R.writeFile(name)
    out = name or "out.txt"
    B = c.mk.RecordCollection(out, quietStart=True)
    c.check(B == R and len(B) == n, "the same collection")
    c.check(B.bad is False, "nothing to report", B.errors)
    for h in held:
        got = B.getID("PMID:" + h[0][1][0])
        c.same_map([(k, v) for k, v in got.items(raw=True)], h, "fields of the record")
    parts = ["\n" + med_text([(t, [x.split(" : ")[-1] for x in v]) for t, v in h]) for h in held]
    c.check(c.any_([c.eq(c.text(out, encoding="latin-1"), "".join(o) + "\n") for o in orders(parts)]), "the file is in Latin 1")


@harness("C08", quick=[dict(shape="adad"), dict(shape="adao")], bounds="two authors who may have the same name")
def medline_same_name(c, shape):
    """As above when a record names an author twice."""
    f, held = [("PMID", ["1"])], []
    for i, k in enumerate(shape):
        v = c.s("v%d" % i, ["JKL"], ["abcde", 1])
        f.append(({"a": "AU", "d": "AD", "o": "AUID"}[k], [v]))
        if k == "a":
            who = v
        held.append(v if k == "a" else who + " : " + v)
    R = rc(c, [c.mk.MedlineRecord(med_text(f))])
    out = c.tmp() + "/out.medline"
    R.writeFile(out)
    got = c.mk.RecordCollection(out, quietStart=True).peek()
    au = [h for h, k in zip(held, shape) if k == "a"]
    ok = c.all_([c.eq(got.get({"a": "AU", "d": "AD", "o": "AUID"}[k], raw=True), [h for h, j in zip(held, shape) if j == k]) for k in set(shape)])
    c.known("medline-duplicate-author", ok, c.eq(au[0], au[1]), "fields after writing and reading")


# ------------------------------------------------------------------ Scopus
def quoted(v):
    return '"' + v.replace('"', '""') + '"'


def enc(c, v, always):
    if always or c.truth(c.any_([x in v for x in ',"'])):
        return quoted(v)
    return v


def header(c):
    from metaknowledge.scopus.recordScopus import scopusHeader
    return list(scopusHeader)


@harness("C09", quick=[dict(n=n, alpha=a, always=q) for n, a in ((1, TEXT), (2, TEXT), (3, TEXT), (4, but('"'))) for q in (0, 1)],
         thorough=[dict(n=n, alpha=a, always=q) for n, a in ((4, 'a ,"'), (8, but('"')), (10, but('",')), (4, TEXT), (5, 'a"|')) for q in (0, 1)],
         bounds="one row, title and abbreviated source of up to 3 characters each over printable ASCII, tab, form feed, U+0085, e acute and U+2028, or up to 4 (thorough 10) without quotation marks; quoted only where needed or always")
def scopus_parse(c, n, alpha, always):
    """Every field of a row means what it does in a CSV file."""
    t, s = c.s("t", [alpha, n]), c.s("s", [alpha, n])
    vals = {"Authors": "Q R., S T.", "Title": t, "Year": "2001", "Source title": s, "EID": "2-s2"}
    row = ",".join(enc(c, vals[k], always) if k in vals else "" for k in header(c))
    R = c.mk.ScopusRecord(row + "\n")
    c.check(R.bad is False, "good record", R.error)
    # doubled quotation marks are kept as they are (documented)
    vals["Title"], vals["Source title"] = t.replace('"', '""'), s.replace('"', '""')
    c.same_map(R.items(raw=True), [(k, v) for k, v in vals.items() if v != ""], "fields")
    if vals["Title"] != "":
        c.equal(R["title"], vals["Title"], "title")
    if vals["Source title"] != "":
        c.equal(R["journal"], vals["Source title"], "journal")
    c.equal(R.id, "EID:2-s2", "id")


@harness("C09", quick=[dict(n=n, alpha=a, last=l, which=w) for n, a, w in ((1, TEXT, 2), (2, TEXT, 0), (2, TEXT, 1), (3, but('"'), 0), (3, but('"'), 1)) for l in (0, 1)], thorough=[dict(n=n, alpha=a, last=l, which=w) for n, a in ((2, TEXT), (3, TEXT), (5, but('"')), (7, but('",'))) for l in (0, 1) for w in (0, 1, 2)],
         bounds="two rows, titles of up to 2 (thorough 3) characters over the same alphabet, up to 3 (7) without quotation marks, free ids; with or without a newline at the end")
def scopus_file(c, n, alpha, last, which):
    """Rows of a file become its records; writing and reading gives the same records."""
    recs, t = [], "\ufeff" + ",".join(header(c)) + "\n"
    for i in range(2):
        v = {"Title": c.s("t%d" % i, [alpha, n]) if which in (i, 2) else "An A, and \" or", "Year": "200%d" % i, "EID": c.s("e%d" % i, ["12"], ["3,"])}
        recs.append(v)
        t += ",".join(enc(c, v[k], 0) if k in v else "" for k in header(c)) + ("\n" if i == 0 or last else "")
    p = c.put("in.csv", t)
    R = c.mk.RecordCollection(p, quietStart=True)
    ids = c.distinct([v["EID"] for v in recs])
    c.equal(len(R), len(ids), "one record per id")
    c.check(R.bad is False, "nothing to report", R.errors)
    out = c.tmp() + "/out.csv"
    R.writeFile(out)
    B = c.mk.RecordCollection(out, quietStart=True)
    for X in (R, B):
        c.check(X == R, "the same collection")
        for v in recs:
            got = X.getID("EID:" + v["EID"])
            c.check(got is not None and got.bad is False, "record is there")
            if len(ids) == 2:
                c.same_map([(k, x) for k, x in got.items(raw=True) if x != ""], [(k, x.replace('"', '""')) for k, x in v.items()], "fields")


@harness("C09", quick=[dict(n=n, q=q) for n in (0, 1) for q in (0, 1)], thorough=[dict(n=n, q=q) for n in (2, 3) for q in (0, 1)],
         bounds="first, last and a middle column of 1 to 3 (thorough 5) characters over printable ASCII, tab, U+0085, e acute and U+2028; with or without a newline; written and read")
def scopus_edges(c, n, q):
    """Blanks at the ends of a row are part of its first and last columns."""
    alpha = but('"\x0c', base=TEXT)
    h = header(c)
    v = {h[0]: c.s("a", [alpha], [" b\t"]), "Title": c.s("t", [alpha, n]), h[-1]: c.s("e", ["1 "], [alpha, n])}
    c.assume(c.not_(v[h[-1]].isspace()))
    row = ",".join(enc(c, v[k], q) if k in v else "" for k in h)
    R = c.mk.ScopusRecord(row + c.pick("end", ["\n", ""]))
    c.check(R.bad is False, "good record", R.error)
    c.same_map([(k, x) for k, x in R.items(raw=True) if x != ""], [(k, x) for k, x in v.items() if c.truth(x != "")], "fields")
    c.equal(R.id, "EID:" + v[h[-1]], "id")
    S = c.mk.ScopusRecord(bytes(R).decode("utf-8"))
    c.check(S.bad is False and S == R, "from bytes", S.error)
    c.same_map([(k, x) for k, x in S.items(raw=True) if x != ""], [(k, x) for k, x in v.items() if c.truth(x != "")], "fields from bytes")
    p = c.tmp() + "/o.csv"
    rc(c, [R]).writeFile(p)
    B = c.mk.RecordCollection(p, quietStart=True)
    c.check(len(B) == 1 and B.bad is False, "nothing to report", B.errors)
    c.same_map([(k, x) for k, x in B.peek().items(raw=True) if x != ""], [(k, x) for k, x in v.items() if c.truth(x != "")], "fields after writing")


@harness("C09", quick=[dict(n=0), dict(n=1)], bounds="two columns of the header exchanged at any place, or one column added")
def scopus_header(c, n):
    """The file's own header says what the columns are."""
    h = header(c)
    if n:
        i = c.pick("col", list(range(0, len(h) - 1, 5)))
        h[i], h[i + 1] = h[i + 1], h[i]
    else:
        h.insert(c.pick("at", [0, 3, len(h)]), "New")
    t = c.s("t", [LETTERS])
    row = ",".join("EID%s" % t if k == "EID" else t + str(j) for j, k in enumerate(h))
    p = c.put("in.csv", "\ufeff" + ",".join(h) + "\n" + row + "\n")
    R = c.mk.RecordCollection(p, quietStart=True).peek()
    for j, k in enumerate(h):
        c.equal(R.get(k, raw=True), "EID%s" % t if k == "EID" else t + str(j), "column " + k)


# ------------------------------------------------------------------ ProQuest
def pq_file(c, recs):
    bar = "_" * 60 + "\n"
    t = bar + "\nReport Information from ProQuest\n" + "\n" * 9
    for i, r in enumerate(recs):
        t += "\n" + "%d. " % (i + 1) + r[1][1] + "\n"
    t += "\nBibliography\n\n\n" + bar
    for i, r in enumerate(recs):
        t += "Document %d of %d\n\n" % (i + 1, len(recs))
        for k, v in r:
            if k in ("Name", "url"):
                t += v + "\n\n"
            elif isinstance(v, list):
                t += k + ": " + v[0] + "\n" + "".join(x + "\n" for x in v[1:]) + "\n"
            else:
                t += k + ": " + v + "\n\n"
        t += bar + "\n"
    return t + "Bibliography\n"


PQ = ("Name", "Title", "Author", "url", "Abstract", "Lines", "Year", "Tag", "Field", "Id")


@harness("C10", quick=[dict(n=1, alen=3, more=1, free=f) for f in PQ] + [dict(n=1, alen=5, more=2, free=f) for f in ("Title", "Abstract", "Field", "Tag")] + [dict(n=2, alen=2, more=0, free=f) for f in ("Title", "Abstract", "Field", "Id")] + [dict(n=1, alen=2, more=3, free="Lines")],
         thorough=[dict(n=1, alen=7, more=2, free=f) for f in PQ] + [dict(n=2, alen=3, more=2, free=f) for f in PQ] + [dict(n=3, alen=2, more=1, free=f) for f in ("Title", "Field", "Id")],
         bounds="up to 2 (thorough 3) documents with a free name, title, author, address, first or further lines of an abstract of up to 4 lines, year, field or field name, one of these at a time, of up to 5 (7) characters over printable ASCII, tab, form feed, U+0085, e acute and U+2028, no colons in the further lines of an abstract or field names; free ids")
def proquest_parse(c, n, alen, more, free):
    """Every field of every document is there."""
    recs = []

    def s(what, name, alpha, k=alen, other="x"):
        return c.s(name, [alpha, k]) if what == free else other
    for i in range(n):
        p = "r%d." % i
        recs.append([("Name", "A" + s("Name", p + "n", TEXT) + "e"), ("Title", "T" + s("Title", p + "t", TEXT) + "z"),
                     ("Author", "Doe, J" + s("Author", p + "a", but(":", base=TEXT), 2) + "q"), ("url", "http://x.y/?z=" + s("url", p + "u", but(" "))),
                     ("Abstract", ["b" + s("Abstract", p + "b", TEXT) + "."] + [("  m" if j == 2 else "m") + s("Lines", p + "m%d" % j, but(":", base=TEXT)) + "n" if j != 1 else "http://z/" + s("Lines", p + "m%d" % j, TEXT) + ": n" for j in range(more)]),
                     ("Degree date", "2" + s("Year", p + "y", DIGITS, 3, "014")), ((c.pick(p + "K", ["K", "http", "Author", "url"]) if free == "Tag" else "K") + s("Tag", p + "k", but(":", base=TEXT)) + "y", "v" + s("Field", p + "v", TEXT) + "w"),
                     ("ProQuest document ID", c.s(p + "id", [DIGITS], ["0"]) if free == "Id" or n > 1 else "7")])
    p = c.put("in.txt", pq_file(c, recs))
    R = c.mk.RecordCollection(p, quietStart=True)
    c.check(R.bad is False, "nothing to report", R.errors)
    ids = c.distinct([r[-1][1] for r in recs])
    c.equal(len(R), len(ids), "one record per id")
    if len(ids) < n:
        return
    for r in recs:
        got = R.getID("PROQUEST:" + r[-1][1])
        c.check(got is not None, "record is there")
        c.same_map(got.items(raw=True), [(k, v if isinstance(v, list) else [v]) for k, v in r], "fields")
        c.equal(got.title, r[1][1], "title")
        c.equal(got["year"], int(r[5][1]), "year")
        c.equal(got.authors, [r[2][1]], "authors")


# ------------------------------------------------------------------ damaged files
PLAIN = but('"') + "\t\x0c"


def small(c, kind, i, n=2):
    """text of a small record, its id, and its raw fields"""
    x = n and c.s("x%d" % i, [PLAIN if kind == "scopus" else TEXT if kind != "medline" else LATIN, n]) or "x"
    if kind == "wos":
        f = [("PT", ["J"]), ("TI", ["a", x]), ("UT", ["WOS:%d" % i])]
        return wos_text(f), "WOS:%d" % i, f
    if kind == "medline":
        f = [("PMID", ["%d" % i]), ("TI", ["a\n" + x]), ("AU", ["Doe J"])]
        return med_text(f), "PMID:%d" % i, f
    if kind == "scopus":
        f = [("Authors", "Doe J."), ("Title", x + ",b"), ("EID", "%d" % i)]
        return ",".join(enc(c, dict(f).get(k, ""), k == "Title") for k in header(c)) + "\n", "EID:%d" % i, f
    f = [("Name", "A name"), ("Title", "T%d" % i), ("Author", "Doe, J"), ("url", "http://x.y/"), ("Abstract", [x + ".", "m"]), ("ProQuest document ID", "%d" % i)]
    return f, "PROQUEST:%d" % i, [(k, v if isinstance(v, list) else [v]) for k, v in f]


def whole(c, kind, texts):
    """file text, and for every record the offsets at which it starts and ends"""
    if kind == "proquest":
        t = pq_file(c, texts)
        spans, at = [], 0
        for i in range(len(texts)):
            a = t.index("Document %d of" % (i + 1))
            b = t.index("_" * 60, a) + 61
            spans.append((a, b))
        return t, spans
    pre = {"wos": HEAD, "medline": "\n", "scopus": "\ufeff" + ",".join(header(c)) + "\n"}[kind]
    sep = {"wos": "\n", "medline": "\n", "scopus": ""}[kind]
    t, spans = pre, []
    for x in texts:
        spans.append((len(t), len(t) + len(x)))
        t += x + sep
    return t + ("EF" if kind == "wos" else ""), spans


ENCODING = {"wos": "utf-8", "medline": "latin-1", "scopus": "utf-8", "proquest": "utf-8"}
KINDS = ("wos", "medline", "scopus", "proquest")
START = {"wos": len(HEAD), "medline": 8, "scopus": 0, "proquest": 61 + 1 + 33}


def intact(c, R, want, what):
    for uid, f in want:
        got = [r for r in R if r.id == uid]
        c.check(len(got) == 1, what + " is there", uid)
        c.check(got[0].bad is False, what + " is good", uid)
        c.same_map([(k, v) for k, v in got[0].items(raw=True)], f, what)


@harness("C11", quick=[dict(kind=k) for k in KINDS], bounds="two records, the file ends at any character after its header")
def truncated(c, kind):
    """A file that stops short is read without an exception, and the records before the end are as they were."""
    recs = [small(c, kind, i, 2 if kind in ("wos", "medline") else i - 1) for i in (1, 2)]
    t, spans = whole(c, kind, [r[0] for r in recs])
    lo = START[kind] if kind != "scopus" else t.index("\n") + 1
    n = c.pick("cut", list(range(lo, len(t))))
    p = c.put("in.txt", t[:n], encoding=ENCODING[kind])
    R, err = c.attempt(c.mk.RecordCollection, p, quietStart=True)
    c.check(err is None, "can be read", err)
    intact(c, R, [(r[1], r[2]) for r, s in zip(recs, spans) if s[1] <= n], "record before the end")
    c.check(len([r for r in R if not r.bad]) <= 2, "no records out of nowhere")
    if kind == "wos" and not t[:n].rstrip("\n").endswith("EF"):
        c.check(R.bad is True or any(r.bad for r in R), "the missing end is noticed")
    if kind == "proquest" and n < t.rindex("Bibliography"):
        c.check(R.bad is True or any(r.bad for r in R), "the missing end is noticed")
    if kind == "scopus" and n < len(t) and any(s[0] < n < s[1] - 2 for s in spans):
        c.check(any(r.bad for r in R), "the incomplete row is noticed")
    c.check(R.bad is (len(R.errors) > 0), "bad collections have errors", R.errors)


def lines_of(t):
    return [l + "\n" for l in t.split("\n")[:-1]]


@harness("C11", quick=[dict(kind=k, n=n, which=w) for k in ("wos", "medline") for n in (0, 1, 2, 4) for w in (0, 1)] + [dict(kind="proquest", n=n, which=w) for n in (1, 3) for w in (0, 1)],
         thorough=[dict(kind=k, n=n, which=w) for k in ("wos", "medline") for n in (3, 5, 6, 7) for w in (0, 1, 2)] + [dict(kind="proquest", n=n, which=w) for n in (2, 4) for w in (0, 1, 2)],
         bounds="two (thorough three) records with 2 free characters each, one line of up to 4 (thorough 7) characters over printable ASCII, tab, form feed, U+0085, e acute and U+2028 put before any line of either")
def garbage(c, kind, n, which):
    """A stray line costs at most the record it is in, and is noticed unless the record can be read with it."""
    count = 2 if which < 2 else 3
    which = min(which, 1)
    recs = [small(c, kind, i) for i in range(1, count + 1)]
    junk = c.s("junk", [LATIN if kind == "medline" else TEXT, n]) if n else ""
    t, spans = whole(c, kind, [r[0] for r in recs])
    a, b = spans[which]
    body = lines_of(t[a:b])
    at = c.pick("at", list(range(len(body))))
    if kind == "proquest" or (kind == "medline" and which == 0):
        c.assume(at > 0)
    t = t[:a] + "".join(body[:at]) + junk + "\n" + "".join(body[at:]) + t[b:]
    if kind == "wos":
        # EF is the end of the file, wherever it stands between records
        c.assume(c.not_(c.all_([at == 0, junk[:2] == "EF"])))
    p = c.put("in.txt", t, encoding=ENCODING[kind])
    R, err = c.attempt(c.mk.RecordCollection, p, quietStart=True)
    c.check(err is None, "can be read", err)
    others = [(r[1], r[2]) for i, r in enumerate(recs) if i != which]
    if kind == "proquest":
        others = others[:which]
    intact(c, R, others, "other record")
    bad = R.bad is True or any(r.bad for r in R)
    if kind == "wos":
        c.check(bad or len(junk) > 2 and c.truth(c.eq(junk[2], " ")) or at == 0 and c.truth(junk.isspace() if n else True), "the stray line is noticed", junk)
        if len(junk) > 2 and c.truth(c.all_([junk[2] != " ", junk[:2] != "ER", c.not_(junk.isspace()) if at == 0 else True])):
            c.check(recs[which][1] not in [r.id for r in R if not r.bad], "a record with a misshapen tag is left out whole", junk)
    if kind == "medline":
        c.check(all(r.bad or c.truth(c.member(r.id, [x[1] for x in recs])) for r in R), "no records out of nowhere")
        c.check(bad or junk == "" or len(junk) > 4 and c.truth(c.eq(junk[4], "-")) and c.truth(junk[:4].rstrip().isalpha()) or len(junk) >= 6 and c.truth(c.eq(junk[:6], "      ")), "the stray line is noticed", junk)
    c.check(R.bad is (len(R.errors) > 0), "bad collections have errors", R.errors)


@harness("C11", quick=[dict(d=d, which=w) for d in (-2, -1, 1, 2) for w in (0, 1)] + [dict(d=0, which=w) for w in (0, 1)],
         bounds="two rows, one with up to two columns too many or too few, or without an id")
def scopus_columns(c, d, which):
    """A row that does not fit the header is bad and does not touch the others."""
    recs = [small(c, "scopus", i, 1) for i in (1, 2)]
    t, spans = whole(c, "scopus", [r[0] for r in recs])
    a, b = spans[which]
    cells = [dict(recs[which][2]).get(k, "") for k in header(c)]
    at = c.pick("at", list(range(len(cells) - 2)))
    x = c.s("x", [LETTERS])
    if d > 0:
        cells[at:at] = [x] * d
    elif d < 0:
        del cells[at:at - d]
    else:
        cells[-1] = ""
    t = t[:a] + ",".join(enc(c, v, 0) for v in cells) + "\n" + t[b:]
    p = c.put("in.csv", t)
    R, err = c.attempt(c.mk.RecordCollection, p, quietStart=True)
    c.check(err is None, "can be read", err)
    intact(c, R, [(r[1], r[2]) for i, r in enumerate(recs) if i != which], "other record")
    c.check(len(R) == 2 and len([r for r in R if r.bad]) == 1, "the row is a bad record", len(R))
    B = R.badEntries()
    c.check(len(B) == 1 and B.peek().bad is True and B.peek().error is not None, "listed")
    c.check(c.raises(B.peek().writeRecord, None) is not None, "a bad record is not written")
    R.dropBadEntries()
    c.check(len(R) == 1 and R.bad is False and len(R.errors) == 0, "and can be dropped")


@harness("C11", quick=[dict(n=n) for n in (0, 1, 3, 6)], bounds="a file of one line of up to 6 free characters")
def unknown_file(c, n):
    """A file of no known format is refused."""
    t = c.s("t", [PLAIN, n]) + "\n" if n else ""
    c.assume(c.not_(c.member(t[:6], ["PMID- ", "VR 1.0"])))
    p = c.put("in.xyz", t)
    x = c.raises(c.mk.RecordCollection, p, quietStart=True)
    c.check(isinstance(x, c.mk.BadInputFile), "refused", type(x).__name__)
    c.check(isinstance(c.raises(c.mk.RecordCollection, p, extension=".abc", quietStart=True), Exception), "wrong extension")
    d = c.put("d/in.xyz", "zz\n")
    R = c.mk.RecordCollection(d[:-7], quietStart=True)
    c.check(len(R) == 0 and R.bad is False, "ignored in a directory")
    c.check(isinstance(c.raises(c.mk.RecordCollection, d[:-7], extension=".xyz", quietStart=True), c.mk.BadInputFile), "refused in a directory when asked for")
