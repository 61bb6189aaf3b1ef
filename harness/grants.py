"""Grants: reading, joining, investigators, networks; genders of names."""
from vf.ctx import harness
from harness.lib import wos, rc, Count, Pairs, check_graph
from harness.tables import use_genders, GENDERS
from harness.tagnets import attr

PART = 'aB, "'


def cell(v):
    return '"' + v.replace('"', '""') + '"'


def table(header, rows):
    return "".join(",".join(cell(x) for x in r) + "\n" for r in [header] + rows)


# ------------------------------------------------------------ grant strings
@harness("C34", quick=[dict(n=n, k=k) for n in range(0, 5) for k in (0, 1, 2, 3) if n or not k], bounds="up to 5 parts, the third last of up to 3 free characters, slashes included")
def medline(c, n, k):
    """The last parts are country and agency, then a code of two letters; the rest is the number."""
    parts = []
    for i in range(n + 1):
        if i == n - 2:
            p = c.s("p%d" % i, ["ab /", k]) if k else ""
        else:
            p = c.s("p%d" % i, ["ab"])
        parts.append(p)
    s = parts[0]
    for p in parts[1:]:
        s = s + "/" + p
    G = c.mk.MedlineGrant(s)
    want = []
    cut = s.split("/")
    c.check(c.eq(G.original, s), "original")
    if len(cut) == 1:
        c.check(G.bad is True and G.error is not None, "bad without an agency")
        c.same_map(G.items(), [("country", s)], "fields")
        return
    c.check(G.bad is False and G.error is None, "good")
    want = [("country", cut[-1]), ("agency", cut[-2])]
    rest = cut[:-2]
    if len(rest) in (1, 2) and len(rest[-1]) == 2:
        want.append(("code", rest[-1]))
        rest = rest[:-1]
    if rest:
        num = rest[0]
        for x in rest[1:]:
            num = num + "/" + x
        want.append(("number", num))
    c.same_map(G.items(), want, "fields")
    d = dict((a, b) for a, b in want)
    if "number" in d:
        want = d["number"] + "/" + d.get("code", "") + "-" + d["country"]
    else:
        want = d.get("code", "") + "-" + d["agency"] + "-" + d["country"]
    c.equal(G.id, want, "id")


@harness("C34", quick=[dict(n=n) for n in range(1, 5)], bounds="up to 4 parts of free characters, commas and spaces included")
def scopus(c, n):
    """The last parts are the agency, its code and the grant's code."""
    s = c.s("p0", ["a, ", 2])
    for i in range(1, n):
        s = s + ", " + c.s("p%d" % i, ["a, "])
    G = c.mk.grants.scopusGrant.ScopusGrant(s)
    cut = s.split(", ")
    want = list(zip(("agency", "agencyCode", "code"), cut[::-1]))
    c.check(G.bad is False and c.truth(c.eq(G.original, s)), "good")
    c.same_map(G.items(), want, "fields")
    d = dict(want)
    c.equal(G.id, d.get("code", "") + "-" + d.get("agencyCode", "") + "-" + d["agency"], "id")


# ------------------------------------------------------------ files
def joined(c, olds, value):
    """NSERC: values of rows with one key"""
    if c.truth(c.eq(value, "")):
        return olds
    return value if c.truth(c.eq(olds, "")) else olds + "; " + value


def nserc_rows(c, p, n, free=1, keys="12"):
    rows = []
    for i in range(n):
        cle = c.pick("%s.cle%d" % (p, i), list(keys) + [""])
        v = c.s("%s.v%d" % (p, i), [PART]) if i < free else c.pick("%s.w%d" % (p, i), ["", "z"])
        rows.append([cle, v, "r%s%d" % (p, i)])
    return rows


def nserc_expected(c, files):
    """[(bad, cle, values)] of the grants; rows of one key joined"""
    out = []
    for rows in files:
        here = []
        for r in rows:
            for g in here:
                if r[0] and g[0] == r[0]:
                    for j in range(len(r)):
                        g[1][j] = joined(c, g[1][j], r[j])
                    break
            else:
                here.append([r[0], list(r)])
        for h in here:
            for g in out:
                if h[0] and g[0] == h[0]:
                    for j in range(len(h[1])):
                        g[1][j] = joined(c, g[1][j], h[1][j])
                    break
            else:
                out.append(h)
    return out


HEAD = ["Cle", "CoName-Nom", "Row"]


@harness("C34", quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=3, free=3), dict(n=4)],
         bounds="files of up to 3 (thorough 4) rows with a key or none, a column with free characters, quotes and commas included")
def nserc_file(c, n, free=1):
    """Rows of one key are one grant with all their values; those without are bad; nothing else is reported."""
    rows = nserc_rows(c, "f", n, free)
    p = c.put("NSERC_x.csv", table(HEAD, rows))
    G = c.mk.GrantCollection(p, quietStart=True)
    check_nserc(c, G, [rows])
    c.check(G.bad is False and len(G.errors) == 0, "nothing wrong with the file", G.errors)
    c.check(G.name == "NSERC_x" and G._collectedTypes == {"NSERCGrant"}, "name and types", G.name, G._collectedTypes)


def check_nserc(c, G, files):
    want = nserc_expected(c, files)
    c.same_items([(g.bad, [g[k] for k in HEAD]) for g in G], [(not k, v) for k, v in want], "grants")
    for g in G:
        c.check(sorted(g) == sorted(HEAD) and isinstance(g, c.mk.NSERCGrant), "columns", sorted(g))
        if not g.bad:
            c.check(c.any_([c.eq(g.id, "NSERC:" + k) for k, _ in want]), "id", g.id)
        else:
            c.check(isinstance(g.error, c.mk.mkExceptions.BadGrant), "error")


@harness("C34", quick=[dict(a=1, b=1), dict(a=2, b=1)], thorough=[dict(a=2, b=2), dict(a=2, b=1, third=1)], bounds="two or three files of up to 2 rows")
def nserc_directory(c, a, b, third=0):
    """Rows of one key are joined over all files, whatever else is there."""
    files = [nserc_rows(c, "a", a), nserc_rows(c, "b", b, 0)]
    c.put("d/NSERC_a.csv", table(HEAD, files[0]))
    c.put("d/NSERC_b.csv", table(HEAD, files[1]))
    if third:
        files.append(nserc_rows(c, "c", 1, 0))
        c.put("d/NSERC_c.csv", table(HEAD, files[2]))
    c.put("d/notes.md", "some text")
    d = c.tmp() + "/d"
    G = c.mk.GrantCollection(d, quietStart=True)
    c.check(G.bad is False and not G.errors, "nothing wrong", G.errors)
    # the order of the files is that of the directory
    want = nserc_expected(c, files)
    back = nserc_expected(c, files[::-1])
    c.equal(len(G), len(want), "number of grants")
    for g in G:
        vals = [g[k] for k in HEAD]
        hits = [v for k, v in want + back if c.truth(c.eq(vals, v))] if not third else None
        if hits is None:
            parts = [sorted(x for x in vals[2].split("; "))]
            hits = [1 for k, v in want if sorted(v[2].split("; ")) == parts[0]]
        c.check(hits, "a grant of the files", vals, want)
    ids = [g.id for g in G]
    c.equal(len(c.distinct(ids)), len(ids), "ids are distinct")


@harness("C34", quick=[dict(n=n, cut=0) for n in (1, 2)] + [dict(n=2, cut=1)], thorough=[dict(n=3, cut=0)], bounds="files of up to 2 (thorough 3) rows, one free value and one missing or not; rows that end early")
def cihr_file(c, n, cut):
    """Each row is a grant, bad without investigators."""
    head = ["Title", "PI Names", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8"]
    rows = []
    for i in range(n):
        pi = c.s("pi%d" % i, [PART]) if c.truth(c.b("named%d" % i)) else ""
        rows.append([c.s("t%d" % i, [PART]) if i == 0 else "t", pi] + ["v%d" % i] * (0 if cut and i == 1 else 8))
    if cut:
        rows[0] = rows[0][:1]
    p = c.put("cihr_x.csv", "Search Criteria,,,,,,,,,\na,,,,,,,,,\n,,,,,,,,,\n" + table(head, rows))
    G = c.mk.GrantCollection(p, quietStart=True)
    c.check(G.bad is False and len(G.errors) == 0, "nothing wrong with the file", G.errors)
    c.check(G._collectedTypes == {"CIHRGrant"}, "type", G._collectedTypes)
    c.same_items([(g["Title"], g["PI Names"], g.bad) for g in G],
                 [(r[0], r[1] if len(r) > 1 else None, len(r) < 2 or c.truth(c.eq(r[1], ""))) for r in rows], "grants")
    for g in G:
        c.check(sorted(g) == sorted(head), "columns")


@harness("C34", quick=[dict(n=n) for n in (1, 2)], thorough=[dict(n=3)], bounds="files of up to 2 (thorough 3) rows of two free values, equal rows included")
def other_file(c, n):
    """Any other csv file gives a grant per row."""
    rows = [[c.s("a%d" % i, [PART]), c.s("b%d" % i, ["ab"])] for i in range(n)]
    p = c.put("x.csv", table(["A", "B"], rows))
    G = c.mk.GrantCollection(p, quietStart=True, name="given")
    c.check(G.bad is False and len(G.errors) == 0, "nothing wrong with the file", G.errors)
    c.check(G._collectedTypes == {"FallbackGrant"} and G.name == "given", "type", G._collectedTypes)
    c.same_items([(g["A"], g["B"]) for g in G], [tuple(r) for r in rows], "grants")
    c.check(all(isinstance(g, c.mk.FallbackGrant) and not g.bad for g in G), "good")
    err = c.raises(c.mk.GrantCollection, p, extension=".txt", quietStart=True)
    c.check(isinstance(err, c.mk.mkExceptions.GrantCollectionException), "another extension", err)


@harness("C34", quick=[dict()], bounds="files that are not grants: other text, rows too long, header only, empty, a Scopus file")
def no_grants(c):
    bad = c.pick("what", ["", "A,B\n", "A,B\n1,2,3\n", "some text", "<x><y/></x>"])
    name = c.pick("name", ["x.csv", "x.md", "x.xml", "NSERC_x.md", "cihr_x.md"])
    c.assume(not (bad == "some text" and name == "x.csv"))
    p = c.put("e/" + name, bad)
    err = c.raises(c.mk.GrantCollection, p, quietStart=True)
    c.check(isinstance(err, c.mk.mkExceptions.BadInputFile), "not a grant file", err)
    G = c.mk.GrantCollection(c.tmp() + "/e", quietStart=True)
    c.equal(len(G), 0, "skipped in a directory")
    err = c.raises(c.mk.GrantCollection, c.tmp() + "/e", extension="." + name.split(".")[1], quietStart=True)
    c.check(isinstance(err, c.mk.mkExceptions.BadInputFile), "unless asked for", err)
    c.check(isinstance(c.raises(c.mk.GrantCollection, c.tmp() + "/missing", quietStart=True), c.mk.mkExceptions.GrantCollectionException), "missing")


@harness("C34", quick=[dict(award=a) for a in ("id", "empty", "none")], bounds="an award with up to 2 organizations, investigators and institutions with free names")
def nsf_file(c, award):
    """Each file is a grant with the text of its elements; names of investigators come first."""
    a = c.s("a", ["12"])
    n = c.pick("people", [0, 1, 2])
    names = [(c.s("first%d" % i, ["AB"]), c.s("last%d" % i, ["CD"])) for i in range(n)]
    x = {"id": "<AwardID>" + a + "</AwardID>", "empty": "<AwardID/>", "none": ""}[award]
    for f, l in names:
        x = x + "<Investigator><LastName>" + l + "</LastName><FirstName>" + f + "</FirstName><EmailAddress/><RoleCode>P</RoleCode></Investigator>"
    m = c.pick("orgs", [0, 1, 2])
    orgs = [c.s("org%d" % i, ["XY"]) for i in range(m)]
    for o in orgs:
        x = x + "<Organization><Directorate><LongName>" + o + "</LongName><B/></Directorate><Division><L>d</L><L>" + o + "</L></Division></Organization>"
    inst = c.s("inst", ["IJ"])
    twice = c.pick("twice", ["", "<Title>t</Title>"])
    x = x + "<Institution><Name>" + inst + "</Name><City>c</City></Institution><Amount/><Title>t</Title>" + twice
    q = c.put("g/two.xml", "<?xml version='1.0'?><rootTag>" + c.pick("awards", ["<Award>" + x + "</Award><Award><AwardID>9</AwardID></Award>", "", "<Award/>" * 3, "<B><Award>" + x + "</Award></B>"]) + "</rootTag>")
    c.check(not c.mk.grants.isNSFfile(q) and isinstance(c.raises(c.mk.GrantCollection, q, quietStart=True), c.mk.mkExceptions.BadInputFile), "a file of more than one award, or none, is none")
    p = c.put("f/one.xml", "<?xml version='1.0'?><rootTag><Award>" + x + "</Award></rootTag>")
    G = c.mk.GrantCollection(p, quietStart=True)
    c.check(G.bad is False and len(G) == 1 and G._collectedTypes == {"NSFGrant"}, "a grant", G.errors)
    g = G.peek()
    t2 = bool(twice)
    want = [("Institution", [inst + "; c"]), ("Amount", None), ("Title", ["t", "t"] if t2 else "t")]
    if award != "none":
        want.append(("AwardID", a if award == "id" else None))
    if n:
        want.append(("Investigator", [f + " " + l + "; P" for f, l in names]))
    if m:
        want += [("Directorate", list(orgs)), ("Division", ["d; " + o for o in orgs])]
    c.same_map(g.items(), want, "fields")
    c.check(g.bad == (award != "id"), "bad without an id")
    if award == "id":
        c.equal(g.id, "NSF:" + a, "id")
    c.equal(g.getInvestigators(), [f + " " + l for f, l in names], "investigators")
    c.equal(g.getInstitutions(), [inst], "institutions")
    for extra in ("Title", ["Title"], ["Title", "Amount"]):
        t = list(extra) if isinstance(extra, list) else extra
        c.same_items(g.getInvestigators(extra), [f + " " + l for f, l in names] + ["t"] * (1 + t2), "with others")
        c.same_items(g.getInstitutions(extra), [inst] + ["t"] * (1 + t2), "with others")
        c.check(extra == t, "tags stay")


@harness("C34", quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=4)], bounds="an award with an element up to 3 (thorough 4) times, with text, none, or elements of its own, among others")
def nsf_repeats(c, n):
    """Every element of a name is kept, whatever the others of that name look like."""
    x, want, alone = "<AwardID>1</AwardID>", [], None
    for i in range(n):
        v = c.s("v%d" % i, ["abc"])
        kind = c.pick("kind%d" % i, ["text", "none", "one", "two"])
        x = x + {"text": "<E>" + v + "</E>", "none": "<E/>", "one": "<E><F>" + v + "</F></E>", "two": "<E><F>" + v + "</F><G/><H>h</H></E>"}[kind]
        x = x + c.pick("between%d" % i, ["", "<X/>"] if i == 0 else [""])
        if kind == "text":
            alone = v
        if kind != "none":
            want.append(v + "; h" if kind == "two" else v)
    p = c.put("f/one.xml", "<?xml version='1.0'?><rootTag><Award>" + x + "</Award></rootTag>")
    G, err = c.attempt(c.mk.GrantCollection, p, quietStart=True)
    c.check(err is None and len(G) == 1, "read", err)
    g = G.peek()
    if n == 1 and kind in ("text", "none"):
        c.equal(g["E"], alone, "text")
    else:
        c.equal(g["E"], want, "texts in order")
    c.equal(g.id, "NSF:1", "id")


@harness("C34", quick=[dict(n=2)], thorough=[dict(n=3)], bounds="a directory of two files with up to 2 (thorough 3) grants each, of free keys from three, and none or three of its own")
def over_files(c, n):
    """Every grant that is in several files has the values of all of them."""
    want = Count(c)
    for f in "ab":
        rows = []
        for i in range(c.pick("n" + f, range(1, n + 1))):
            k, v = c.s("%s%d" % (f, i), ["123"]), "%s%d" % (f, i)
            rows.append([k, v, "same"])
            want.set(k, want.get(k, []) + [v])
        for i in range(c.pick("own" + f, [0, 3])):
            rows.append(["7%s%d" % (f, i), "o", "same"])
            want.set("7%s%d" % (f, i), ["o"])
        c.put("d/NSERC_%s.csv" % f, table(["Cle", "Title", "CoName-Nom"], rows))
    G = c.mk.GrantCollection(c.tmp() + "/d", quietStart=True)
    c.same_map([(g["Cle"].split("; ")[0], sorted(g["Title"].split("; "))) for g in G], [(k, sorted(v)) for k, v in want.items()], "titles by key")


SCOPUS_ONLY = ["Conference location", "Conference code", "ISSN", "ISBN", "CODEN", "PubMed ID", "Language of Original Document", "Abbreviated Source Title", "Document Type", "Source", "EID"]


@harness("C34", quick=[dict(ext=e) for e in ("", ".csv", "csv", ".xml")], bounds="a folder of files of every kind, grants or not, and of a folder, any of the columns of a Scopus file left out")
def mixed_folder(c, ext):
    """A folder gives the grants of its files with the ending asked for, and of no others; a table of papers is none."""
    import os
    v = c.s("v", ["xy"])
    head = list(SCOPUS_ONLY)
    if c.truth(c.b("short")):
        del head[c.pick("without", list(range(len(head))))]
    out = len(head) < 11
    put = lambda name, t, **kw: c.put("d/" + name, t, **kw)
    want = [("NSERCGrant", v), ("CIHRGrant", v), ("FallbackGrant", v), ("NSFGrant", v)]
    put("NSERC_a.csv", table(["Cle", "K"], [["1", v]]))
    put("cihr_a.csv", "Search Criteria,,,,,,,,,\na,,,,,,,,,\n,,,,,,,,,\n" + table(["K", "PI Names"], [[v, "p"]]))
    put("a.csv", table(["K", "B"], [[v, "b"]]))
    put("a.xml", "<r><Award><AwardID>3</AwardID><K>" + v + "</K></Award></r>")
    put("s.csv", table(["K"] + head, [[v] + ["s"] * len(head)]))
    if out:
        want.append(("FallbackGrant", v))
    if not ext:
        put("w.isi", "FN x\nVR 1.0\nPT J\nTI t\nUT WOS:1\nER\n\nEF")
        put("m.txt", "\nPMID- 4\nTI  - t\n\n")
    put("sub.csv/NSERC_b.csv", table(["Cle", "K"], [["2", v]]))
    put("sub.xml/b.csv", table(["K"], [["2"]]))
    d = c.tmp() + "/d"
    if ext and not out and "csv" in ext:
        err = c.raises(c.mk.GrantCollection, d, extension=ext, quietStart=True)
        c.check(isinstance(err, c.mk.mkExceptions.BadInputFile), "asked for, but no grants", err)
        os.remove(d + "/s.csv")
    if ext:
        want = [x for x in want if (x[0] == "NSFGrant") == (ext == ".xml")]
    for cached in (False, True, True):
        G = c.mk.GrantCollection(d, extension=ext, cached=cached, quietStart=True)
        c.check(not G.bad and not G.errors, "nothing wrong", G.errors)
        c.same_items([(type(g).__name__, g["K"]) for g in G], want, "grants")
        c.equal(G._collectedTypes, {x[0] for x in want}, "types")
    if out:
        c.check(c.mk.grants.isFallbackGrantFile(d + "/s.csv"), "a table like any other")
    elif "csv" not in ext:
        c.check(not c.mk.grants.isFallbackGrantFile(d + "/s.csv"), "a Scopus file")


@harness("C34", quick=[dict(damage=x) for x in ("cut", "foreign")], bounds="a cache file of grants that ends at any of 40 places, or holds something else")
def grant_cache_damaged(c, damage):
    """A cache file that was not written completely, or is not one, is replaced."""
    import os
    import pickle
    v = c.s("v", ["xy"])
    c.put("d/a.csv", table(["A", "B"], [[v, "1"]]), mtime=3)
    d = c.tmp() + "/d"
    c.mk.GrantCollection(d, cached=True, quietStart=True)
    p = [f for f in os.listdir(d) if f.endswith("mkGrantDirCache")]
    c.check(len(p) == 1, "a cache file", p)
    p = d + "/" + p[0]
    if damage == "cut":
        k = c.pick("at", list(range(41)))
        os.truncate(p, os.path.getsize(p) * k // 41)
    else:
        k = c.pick("at", list(range(5)))
        with open(p, "wb") as f:
            f.write([b"", b"garbage\n", pickle.dumps(7), pickle.dumps((1, 2)), pickle.dumps(({}, None))][k])
    for again in range(2):
        G, err = c.attempt(c.mk.GrantCollection, d, cached=True, quietStart=True)
        c.check(err is None, "read anyway", err)
        c.same_items([(g["A"], g["B"]) for g in G], [(v, "1")], "grants")


@harness("C34", quick=[dict(what=w, ext=e) for w in ("same", "changed", "added", "removed") for e in ("", ".csv")], bounds="a directory of two files with any modification times, changed or not between readings")
def grant_cache(c, what, ext):
    """Reading through the cache gives what reading the files gives."""
    import os
    t = [c.i("mtime%d" % i, 1, 4) for i in range(2)]
    v = c.s("v", ["xy"])
    c.put("d/NSERC_a.csv", table(HEAD, [["1", v, "a"]]), mtime=t[0])
    c.put("d/b.csv", table(["A"], [["q"]]), mtime=t[1])
    d = c.tmp() + "/d"
    c.mk.GrantCollection(d, extension=ext, cached=True, quietStart=True)
    want = [("1", v), ("q",)]
    if what == "changed":
        t2 = c.i("mtime2", 1, 4)
        c.assume(c.not_(c.eq(t2, t[0])))
        c.put("d/NSERC_a.csv", table(HEAD, [["1", "new", "a"], ["2", v, "a"]]), mtime=t2)
        want = [("1", "new"), ("2", v), ("q",)]
    elif what == "added":
        c.put("d/c.csv", table(["A"], [["r"]]), mtime=2)
        want.append(("r",))
    elif what == "removed":
        os.remove(d + "/b.csv")
        want = want[:1]
    for again in range(2):
        G = c.mk.GrantCollection(d, extension=ext, cached=True, quietStart=True)
        c.same_items([(g["A"],) if "A" in g else (g["Cle"], g["CoName-Nom"]) for g in G], want, "grants")
    H = c.mk.GrantCollection(d, extension=ext, quietStart=True)
    c.check(G.name == H.name and len(G) == len(H), "the same collection")


@harness("C34", quick=[dict(n=n) for n in (0, 1, 2)], bounds="up to 2 grants with free ids in any kind of collection, or something else")
def from_items(c, n):
    """Collections can be made of grants and of nothing else; a cache is only kept for directories."""
    gs = [c.mk.MedlineGrant("n" + c.s("g%d" % i, ["12"]) + "/AA/a/c") for i in range(n)]
    how = c.pick("how", [list, tuple, set, iter])
    G = c.mk.GrantCollection(how(gs), cached=c.truth(c.b("cached")), quietStart=True)
    c.same_items([g.id for g in G], c.distinct([g.id for g in gs]), "grants")
    for x in (1, [1], gs + ["x"], [wos(c, "WOS:1")]):
        c.check(isinstance(c.raises(c.mk.GrantCollection, x, quietStart=True), c.mk.mkExceptions.GrantCollectionException), "refused", x)
    E = c.mk.GrantCollection(quietStart=True)
    c.check(len(E) == 0 and E.name == "Empty", "empty")


@harness("C34", quick=[dict()], bounds="free values for two fields, in any order of changes")
def fields(c):
    """Fields of grants can be set, removed and updated from another grant, which wins."""
    a, b, x = c.s("a", ["xy"]), c.s("b", ["xy"]), c.s("x", ["xy"])
    G, H = c.mk.MedlineGrant("1/AA/" + a + "/c"), c.mk.MedlineGrant("1/AA/" + b + "/d")
    G["note"] = x
    c.check(c.eq(G["note"], x) and c.truth(c.eq(dict(G)["note"], x)), "set")
    c.check(isinstance(c.raises(G.__setitem__, 1, "x"), KeyError), "only text as keys")
    G.update(H)
    c.same_map(G.items(), [("country", "d"), ("agency", b), ("code", "AA"), ("number", "1"), ("note", x)], "updated")
    c.same_map(H.items(), [("country", "d"), ("agency", b), ("code", "AA"), ("number", "1")], "the other stays")
    del G["note"]
    c.check("note" not in G and isinstance(c.raises(G.__getitem__, "note"), KeyError), "removed")
    c.check(G.update(c.mk.grants.scopusGrant.ScopusGrant("x")) is NotImplemented, "other kinds are refused")
    c.equal(len(G), 4, "and change nothing")
    P, Q = (c.mk.MedlineGrant("1/AA/BB/c" if c.truth(c.b(n)) else "none") for n in ("good", "good too"))
    bad = P.bad or Q.bad
    P.update(Q)
    c.check(P.bad == bad and (P.error is not None) == bad, "bad if either is")


# ------------------------------------------------------------ C35
@harness("C35", quick=[dict(kind=k, sizes=s) for k in ("list", "text") for s in ((2,), (2, 1), (3,), (0, 1))], thorough=[dict(kind=k, sizes=s) for k in ("list", "text") for s in ((2, 2), (3, 1), (1, 2, 1))],
         bounds="up to 2 (thorough 3) fields with up to 3 names, separators and spaces around them")
def investigators(c, kind, sizes):
    """Exactly the names in the fields asked for, in their order, without the spaces around them."""
    G = c.mk.MedlineGrant("1/AA/a/c")
    names, tags = [], []
    sep = c.pick("sep", [";", "|"])
    for i, n in enumerate(sizes):
        t = "T%d" % i
        here = [c.s("n%d.%d" % (i, j), ["ab"], ["b "], ["ab"]) for j in range(n)]
        if kind == "list":
            G[t] = [" " + x + sep + " more" + sep + "x" for x in here]
        elif n:
            s = here[0]
            for x in here[1:]:
                s = s + c.pick("gap%d" % i, ["", " "]) + sep + " " + x
            G[t] = s
        else:
            G[t] = None
        tags.append(t)
        names += [(x, t) for x in here]
    asked = tags + ["missing"]
    c.equal(G.getInvestigators(asked, seperator=sep), [x for x, _ in names], "names")
    c.equal(G.getInstitutions(asked, seperator=sep), [x for x, _ in names], "institutions")
    c.equal(G.getInvestigators(tags[0], seperator=sep), [x for x, t in names if t == tags[0]], "one tag")
    c.equal(G.getInvestigators(seperator=sep), [], "none unless asked for")
    c.equal(asked, tags + ["missing"], "tags stay")
    N = c.mk.grants.nsercGrant.NSERCGrant("l", {"Cle": "1", "CoName-Nom": "p; q", "Institution": "i", "Other": "o"}, "f", 1)
    for given in (None, "Other", ["Other"], ["CoName-Nom"], "CoName-Nom"):
        keep = list(given) if isinstance(given, list) else given
        more = ["o"] if given in ("Other", ["Other"]) else []
        c.same_items(N.getInvestigators(given), ["p", "q"] + more, "NSERC names")
        c.check(given == keep, "given tags stay", given)
        if given not in (["CoName-Nom"], "CoName-Nom"):
            c.same_items(N.getInstitutions(given), ["i"] + more, "NSERC institutions")
        c.check(given == keep, "given tags stay", given)


@harness("C35", quick=[dict()], bounds="an NSF award with free names in its own fields and in another, asked for alone, with one or two other tags, its own among them or not")
def nsf_names(c):
    """The names of an award are those in its own fields and the ones asked for."""
    x, y, z = [c.s(n, ["ab"]) for n in "xyz"]
    N = c.mk.NSFGrant({"AwardID": "1", "Investigator": [x + "; i"], "Institution": [y + "; j"], "Other": z, "More": "m"}, "f")
    for f, own, val in ((N.getInvestigators, "Investigator", x), (N.getInstitutions, "Institution", y)):
        for given, more in ((None, []), ("Other", [z]), (["Other"], [z]), (("Other", "More"), [z, "m"]), (own, []), ([own], []), ([own, "Other"], [z]), ("Missing", [])):
            keep = list(given) if isinstance(given, list) else given
            c.same_items(f(given), [val] + more, "names")
            c.check(given == keep, "given tags stay", given)


def nsf(c, i, names, tag="Investigator"):
    return c.mk.NSFGrant({"AwardID": str(i), tag: [x + "; info" for x in names]}, "f%d" % i)


@harness("C35", quick=[dict(sizes=s, w=w, count=k, level=l) for s in ((2, 2), (3, 1), (2, 0)) for w in (0, 1) for k in (0, 1) for l in (0, 1) if w or k or not l] + [dict(sizes=(1, 1)), dict(sizes=(2, 2), given=1)] + [dict(sizes=s, w=w, same=1) for s in ((2, 1), (3,)) for w in (0, 1)],
         thorough=[dict(sizes=s, w=w, count=k, level=0, given=g) for s in ((3, 2), (2, 2, 1), (3, 3), (4,)) for w, k, g in ((1, 1, 0), (0, 1, 0), (1, 0, 1))],
         bounds="2 grants (thorough 3) of up to 3 (4) names from 3 values, those of a grant distinct or not")
def co_investigators(c, sizes, w=1, count=1, level=0, given=0, same=0):
    """Names are counted as often as grants list them and joined to the others of the grant, as often as they are listed together."""
    gs, lists = [], []
    for i, n in enumerate(sizes):
        v = [c.s("g%d.%d" % (i, j), ["abc" if n < 4 else "abcd"]) for j in range(n)]
        for x in range(n):
            for y in range(x):
                c.assume(same or c.not_(c.eq(v[x], v[y])))
        lists.append(v)
        gs.append(nsf(c, i, v, "Institution" if level else "Investigator"))
    G = c.mk.GrantCollection(gs, quietStart=True)
    f = G.networkCoInvestigatorInstitution if level else G.networkCoInvestigator
    tags = ["Other"] if given else None
    g = f(targetTags=tags, count=bool(count), weighted=bool(w))
    c.check(tags is None or tags == ["Other"], "given tags stay", tags)
    nodes, edges = Count(c), Pairs(c)
    for v in lists:
        for i, a in enumerate(v):
            nodes.add(a)
            for b in v[i + 1:]:
                edges.add((a, b))
    nodes.rows = [[k, attr(count, "count", v) + [("field", "Institution" if level else "Investigator")]] for k, v in nodes.rows]
    edges.rows = [[k, attr(w, "weight", v)] for k, v in edges.rows]
    check_graph(c, g, nodes, edges)


@harness("C35", quick=[dict(level=l) for l in (0, 1)], bounds="an NSERC grant with three fields, each with a free name, named in any of seven ways, in any case")
def known_fields(c, level):
    """The known fields of an NSERC grant are all those that are named as one, in whatever case, and no other."""
    ways = ["Institution", "INSTITUTION", "Institution-2", "Co-institution", "Institu", "Name"] if level else ["Name-Nom", "NAME-NOM", "CoName-Nom", "name-", "Name", "Nom-Name", "Institution"]
    known = {"Institution", "INSTITUTION", "Institution-2", "Co-institution"} if level else {"Name-Nom", "NAME-NOM", "CoName-Nom", "name-"}
    keys = [c.pick("key%d" % i, ways[i:i + 5]) for i in range(3)]
    if len(set(keys)) < 3:
        return
    vals = [c.s("v%d" % i, ["ab"]) for i in range(3)]
    N = c.mk.grants.nsercGrant.NSERCGrant("l", dict(zip(["Cle"] + keys, ["1"] + vals)), "f", 1)
    f = N.getInstitutions if level else N.getInvestigators
    want = [v for k, v in zip(keys, vals) if k in known]
    c.equal(f(), want, "names in known fields")
    other = [v for k, v in zip(keys, vals) if k not in known]
    given = [k for k in keys if k not in known]
    c.same_items(f(given), want + other, "those asked for as well")
    c.same_items(f(tuple(keys)), vals, "each field once")


@harness("C35", quick=[dict(n=n) for n in (1, 2, 3)], bounds="a grant with up to 3 names in two fields, the same or not, asked for in either order")
def first_field(c, n):
    """A name in several fields of a grant is given the first of them."""
    d = {"N": ";".join([c.s("n%d" % i, ["ab"]) for i in range(n)]), "M": c.s("m", ["abc"])}
    tags = c.pick("tags", [["N", "M"], ["M", "N"]])
    if c.pick("kind", [0, 1]):
        G = c.mk.grants.medlineGrant.MedlineGrant("1/AA/a/c")
        for k, v in d.items():
            G[k] = v
    else:
        G = c.mk.FallbackGrant("l", d, "f", 1)
    g = c.mk.GrantCollection([G], quietStart=True)
    f = c.pick("f", ["networkCoInvestigator", "networkCoInvestigatorInstitution"])
    g = getattr(g, f)(targetTags=tags)
    want = Count(c)
    for t in tags[::-1]:
        for x in d[t].split(";"):
            want.set(x, t)
    c.same_map([(x, a["field"]) for x, a in g.nodes(data=True)], want.items(), "names and fields")


@harness("C35", quick=[dict()], bounds="a collection of grants of each kind, with a free common name, a separator and tags given")
def mixed_kinds(c):
    """Networks over different kinds of grants use the tags given, and the known ones of each kind."""
    x, y = c.s("x", ["ab"]), c.s("y", ["ab"])
    sep = c.pick("sep", [";", "|"])
    G0 = c.mk.MedlineGrant("1/AA/a/c")
    G0["PI"] = x + sep + " c"
    G1 = nsf(c, 1, []) if False else c.mk.NSFGrant({"AwardID": "1", "Investigator": [y + sep + " info", "d" + sep]}, "f1")
    G2 = c.mk.NSERCGrant("l", {"Cle": "2", "AppName-Nom": "e" + sep + y, "PI": "h"}, "f2", 1)
    g = c.mk.GrantCollection([G0, G1, G2], quietStart=True).networkCoInvestigator(targetTags=["PI"], tagSeperator=sep)
    nodes, edges, field = Count(c), Pairs(c), Count(c)
    for v in ([(x, "PI"), ("c", "PI")], [(y, "Investigator"), ("d", "Investigator")], [("h", "PI"), ("e", "AppName-Nom"), (y, "AppName-Nom")]):
        for i, (a, f) in enumerate(v):
            nodes.add(a)
            field.set(a, field.get(a, []) + [f])
            for b, _ in v[i + 1:]:
                edges.add((a, b))
    c.same_map([(n, d["count"]) for n, d in g.nodes(data=True)], nodes.items(), "names and counts")
    for n, d in g.nodes(data=True):
        c.check(d["field"] in field.get(n), "a field with the name", d["field"])
    c.equal(len(g.edges()), len(edges), "edges")
    for u, v, d in g.edges(data=True):
        c.check(c.eq(d["weight"], edges.get((u, v), 0)), "weight", d["weight"], edges.get((u, v), 0))


# ------------------------------------------------------------ C36
LETTERS = "aNbo"


def gender(c, name):
    """of a full name 'Last, First M'"""
    if c.truth(c.not_(", " in name)):
        return None
    first = name.split(", ")[1].split(" ")[0]
    for k, v in GENDERS.items():
        if len(first) == 3 and all(c.truth(c.any_([c.eq(first[i], k[i].lower()), c.eq(first[i], k[i].upper())])) for i in range(3)):
            return v
    return "Unknown"


@harness("C36", quick=[dict(shape=s) for s in ("plain", "short", "initial", "parts", "hyphen", "free")], thorough=[dict(shape="free", n=7)],
         bounds="names with a free first name of 2 or 3 letters in either case, with and without a comma, or 5 (thorough 7) free characters")
def name(c, shape, n=5):
    """The gender is that of the first name, in whatever case, and unknown for others."""
    use_genders(c)
    f = c.s("f", ["aAbB"], ["nNoO"], ["nNbB"])
    s = {"plain": "Last, " + f, "short": "Last, " + f[:2], "initial": "Last, " + f + " Q", "parts": "Last, " + f + ", Bob", "hyphen": "Last, " + f + "-" + c.pick("second", ["Bob", "x", ""]), "free": c.s("s", ["ann, ", n]) if shape == "free" else ""}[shape]
    want = gender(c, s)
    for quiet in (True, False):
        got, err = c.attempt(c.mk.genders.nameGender.nameStringGender, s, noExcept=quiet)
        if want is None and not quiet:
            c.check(isinstance(err, c.mk.mkExceptions.GenderException), "no name to look at", err)
        else:
            c.check(err is None, "no error", err)
            c.equal(got, want or "Unknown", "gender")


def people(c, sizes):
    out = []
    for i, n in enumerate(sizes):
        out.append([c.s("n%d.%d" % (i, j), ["PQ"]) + c.pick("first%d.%d" % (i, j), [", Ann", ", Bob X", ", Zed", " only"]) for j in range(n)])
    return out


@harness("C36", quick=[dict(sizes=s) for s in ((0,), (1,), (2,), (1, 1), (2, 0))], thorough=[dict(sizes=s) for s in ((3,), (2, 1), (2, 2))], bounds="up to 2 records with up to 2 (thorough 3) authors, with free last names and known, unknown or no first names")
def totals(c, sizes):
    """Records and collections count every distinct author of a record once, of known or unknown gender, and fractions add up."""
    use_genders(c)
    ps = people(c, sizes)
    recs = [wos(c, "WOS:%d" % i, **({"AF": v} if v else {})) for i, v in enumerate(ps)]
    total = [0, 0, 0]
    named = lambda d: [d[k] for k in ("Male", "Female", "Unknown")] if len(d) == 3 else d
    for v, R in zip(ps, recs):
        mine = [0, 0, 0]
        d = c.distinct(v)
        g = [gender(c, x) or "Unknown" for x in d]
        for x in g:
            k = ("Male", "Female", "Unknown").index(x)
            mine[k] += 1
            total[k] += 1
        c.same_map(R.authGenders().items(), list(zip(d, g)), "genders")
        c.equal(named(R.authGenders(countsOnly=True)), mine, "counts")
        n = sum(mine)
        got = named(R.authGenders(fractionsMode=True))
        c.check(len(got) == 3 and all(abs(a - (b / n if n else 0)) < 1e-9 for a, b in zip(got, mine)), "fractions", got)
        mode = R.authGenders(_countsTuple=True)
        c.equal(mode, tuple(mine), "tuple")
    RC = rc(c, recs)
    c.equal(named(RC.genderStats()), total, "counts of all")
    n = sum(total)
    got = named(RC.genderStats(asFractions=True))
    c.check(len(got) == 3 and all(abs(a - (b / n if n else 0)) < 1e-9 for a, b in zip(got, total)), "fractions of all", got)


@harness("C36", quick=[dict(n=n) for n in (1, 2)], thorough=[dict(n=3)], bounds="tables of up to 2 (thorough 3) rows with free names and any gender")
def names_table(c, n):
    """Names are looked up in the table that was stored, whatever the case."""
    ng = c.mk.genders.nameGender
    rows = []
    for i in range(n):
        rows.append((c.s("n%d" % i, ["aAbB"], ["nN"]), c.pick("g%d" % i, ["Male", "Female", "Unknown"])))
        for x, _ in rows[:-1]:
            c.assume(c.not_(c.eq(x.lower(), rows[-1][0].lower())))
    p = c.put("names.csv", head(rows))
    old, oldmap = ng.targetFilePath, ng.mappingDict
    try:
        ng.targetFilePath, ng.mappingDict = p, None
        q = c.s("q", ["aAbB"], ["nN"])
        got = ng.nameStringGender("Last, " + q)
        again = ng.nameStringGender("Last, " + q)
    finally:
        ng.targetFilePath, ng.mappingDict = old, oldmap
    want = "Unknown"
    for x, g in rows:
        if c.truth(c.eq(x.lower(), q.lower())):
            want = g
    c.equal(got, want, "gender")
    c.equal(again, want, "and again")


@harness("C36", quick=[dict(sep=x) for x in "-'."], bounds="names of three free letters of either case around a hyphen, apostrophe or stop")
def compound_names(c, sep):
    """Names of more than one part are looked up whole, whatever the case."""
    ng = c.mk.genders.nameGender
    x, q = [c.s(n + "1", ["aAbB"]) + sep + c.s(n + "2", ["nNlL"], ["oO"]) for n in "xq"]
    p = c.put("names.csv", head([(x, "Female"), ("Ann", "Male")]))
    old, oldmap = ng.targetFilePath, ng.mappingDict
    try:
        ng.targetFilePath, ng.mappingDict = p, None
        got = [ng.nameStringGender("Last, " + q + end) for end in ("", " B")]
    finally:
        ng.targetFilePath, ng.mappingDict = old, oldmap
    c.equal(got, ["Female" if c.truth(c.eq(x.lower(), q.lower())) else "Unknown"] * 2, "gender")


def head(rows):
    t = "Name,years.appearing,count.male,count.female,prob.gender,obs.male,est.male,upper,lower\n"
    for x, g in rows:
        t = t + x + ",1,2,3," + g + ",1,1,1,0\n"
    return t


@harness("C36", quick=[dict(n=n) for n in (0, 1, 2)], thorough=[dict(n=3)], bounds="tables of up to 2 (thorough 3) rows with free names and any gender, fetched from a stand-in for the archive; later lookups")
def names_fetched(c, n):
    """The table is fetched once, when it is missing, kept as it is in the archive, and used from then on."""
    import io
    import urllib.request
    from harness.jtable import Page
    ng = c.mk.genders.nameGender
    tabs, asked, opened = {}, [], []
    for which in ("us", "uk"):
        rows = []
        for i in range(n):
            rows.append((c.s("%s%d" % (which, i), ["aAbB"], ["nN"]), c.pick("g%s%d" % (which, i), ["Male", "Female"])))
            for x, _ in rows[:-1]:
                c.assume(c.not_(c.eq(x.lower(), rows[-1][0].lower())))
        tabs[which] = rows

    class Archive:
        def __init__(self, f, *k, **kw):
            c.equal(f.read(), b"the archive", "what was fetched")

        def open(self, name, *k):
            opened.append(name)
            return Page(head(tabs["us" if name.endswith("/usprocessed.csv") else "uk"]))

    def fetch(url, *k, **kw):
        asked.append(url)
        return io.BytesIO(b"the archive")
    uk = c.pick("uk", [False, True])
    p = c.tmp() + "/names.csv"
    saved = ng.targetFilePath, ng.mappingDict, urllib.request.urlopen, ng.zipfile.ZipFile
    qs = [c.s("q%d" % i, ["aAbB"], ["nN"]) for i in range(2)]
    try:
        ng.targetFilePath, ng.mappingDict, urllib.request.urlopen, ng.zipfile.ZipFile = p, None, fetch, Archive
        if uk:
            d = ng.getMapping(useUK=True)
            c.equal(len(d), n, "a name per row")
        got = []
        for q in qs:
            got.append(ng.nameStringGender("Last, " + q))
            if c.pick("again%d" % len(got), [0, 1]):
                ng.mappingDict = None
        c.equal(c.text(p), head(tabs["uk" if uk else "us"]), "the table is stored as it was in the archive")
    finally:
        ng.targetFilePath, ng.mappingDict, urllib.request.urlopen, ng.zipfile.ZipFile = saved
    c.equal(asked, [ng.dataURL], "fetched once")
    c.equal(opened, [ng.ukNamesPath if uk else ng.americanNamesPath], "the table asked for")
    for q, g in zip(qs, got):
        want = [w for x, w in tabs["uk" if uk else "us"] if c.truth(c.eq(x.lower(), q.lower()))]
        c.equal(g, want[0] if want else "Unknown", "gender")
