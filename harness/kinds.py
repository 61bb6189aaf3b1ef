"""Records of every kind: with the same values, a Medline, Scopus or ProQuest record does what a Web of Science record does."""
import os
from vf.ctx import harness
from harness.lib import wos, rc, Count, Pairs, check_graph
from harness.citations import journals

OTHERS = ("medline", "scopus", "proquest")


def make(c, kind, i, title=None, year=None, abstract=None, keywords=None, authors=None, journal=None):
    """A record of the kind with these values (names without commas; one at most for ProQuest)."""
    if kind == "wos":
        return wos(c, "W%d" % i, TI=title, PY=year, AB=abstract, ID=keywords and "; ".join(keywords), AF=authors, AU=authors, J9=journal, SO=journal)
    if kind == "medline":
        d = {"PMID": "%d" % i, "TI": title, "DP": year, "AB": abstract, "OT": keywords, "FAU": authors, "AU": authors, "TA": journal, "JT": journal}
        d = {k: list(v) if isinstance(v, (list, tuple)) else [v] for k, v in d.items() if v is not None}
        return c.mk.MedlineRecord(d)
    if kind == "scopus":
        d = {"EID": "%d" % i, "Title": title, "Year": year, "Abstract": abstract, "Index Keywords": keywords and "; ".join(keywords), "Authors": authors and ", ".join(authors),
             "Abbreviated Source Title": journal, "Source title": journal}
        return c.mk.ScopusRecord({k: v for k, v in d.items() if v is not None})
    d = {"ProQuest document ID": "%d" % i, "Title": title, "Degree date": year, "Abstract": abstract, "Identifier / keyword": keywords and ", ".join(keywords), "Author": authors and authors[0]}
    return c.mk.ProQuestRecord({k: [v] for k, v in d.items() if v is not None})


def values(c, kind, n=2):
    """free values for n records: all, or all but some"""
    out = []
    for i in range(n):
        v = dict(title="T" + c.s("t%d" % i, ["xy"]), year="200" + c.s("y%d" % i, ["12"]), keywords=["K" + c.s("k%d.%d" % (i, j), ["XY"]) for j in range(2 - i)],
                 authors=["A" + c.s("a%d.%d" % (i, j), ["xy"]) for j in range(1 if kind == "proquest" else 2 - i)])
        if kind != "proquest":
            v["journal"] = "J" + c.s("j%d" % i, ["XY"])
        out.append(v)
    gone = c.pick("gone", [None, "title", "year", "keywords", "authors"])
    if gone:
        del out[0][gone]
    return out


def twins(c, kind, vals):
    """the records as of this kind, and the same as of Web of Science; a mixed collection has one of each kind"""
    return [[make(c, k, i, **v) for i, v in enumerate(vals)] for k in (kind, "wos")]


def citer(c, kind, authors, journal):
    """a record that cites works of 2001 by these authors (as records of this kind name them)"""
    if kind == "scopus":
        return c.mk.ScopusRecord({"EID": "9", "Year": "2012", "Authors": "Zz Z.", "Abbreviated Source Title": "Q", "Index Keywords": "KT", "References": "; ".join("%s, TX (2001) %s, 3, pp. 2" % (a, journal) for a in authors)})
    return wos(c, "W9", AU=["Zz Z"], PY="2012", J9="Q", ID="KT", CR=["%s, 2001, %s" % (a, journal) for a in authors])


def same_graph(c, g, h, rename=lambda x: x, what="graph"):
    """the two graphs are the same"""
    nodes, edges = Count(c), Pairs(c, g.is_directed())
    for n, d in h.nodes(data=True):
        nodes.set(rename(n), [(k, rename(v)) for k, v in d.items()])
    if h.is_multigraph():
        for a, b, k, d in h.edges(keys=True, data=True):
            edges.set((rename(a), rename(b), k), list(d.items()))
    else:
        for a, b, d in h.edges(data=True):
            edges.set((rename(a), rename(b)), list(d.items()))
    check_graph(c, g, nodes, edges, directed=h.is_directed(), multi=h.is_multigraph(), what=what)


def col(kind, R, i):
    return {"wos": "W%d", "medline": "PMID:%d", "scopus": "EID:%d", "proquest": "PROQUEST:%d"}[kind] % i


BOUNDS = "two records of the kind, each value of one free character after a letter, all there or one field of the first missing"


@harness("C22", quick=[dict(kind=k, op=o) for k in OTHERS for o in ("one", "two", "counts")], bounds=BOUNDS)
def cooccurrence(c, kind, op):
    """The network of a field is the same for records of any kind with the same values."""
    got, want = [rc(c, x) for x in twins(c, kind, values(c, kind))]
    names = ["keywords", "authorsFull", "authorsShort", "year", "title"]
    a, b = c.pick("mode", names), c.pick("with", names[:4])
    if op == "one":
        g, h = [x.networkOneMode(a) for x in (got, want)]
    elif op == "two":
        if a == b:
            return
        g, h = [x.networkTwoMode(a, b) for x in (got, want)]
    else:
        g, h = [x.networkMultiLevel(a, b) for x in (got, want)]
    same_graph(c, g, h)


@harness("C23", quick=[dict(kind=k) for k in OTHERS], bounds=BOUNDS)
def modes(c, kind):
    """Networks of several fields are the same for records of any kind with the same values."""
    got, want = [rc(c, x) for x in twins(c, kind, values(c, kind))]
    tags = c.pick("tags", [("keywords", "year", "authorsFull"), ("authorsShort", "title", "keywords"), ("year", "title", "authorsFull")])
    f = c.pick("f", ["networkMultiMode", "networkMultiLevel"])
    same_graph(c, *[getattr(x, f)(*tags) for x in (got, want)])


@harness("C24", quick=[dict(kind=k, detail=d) for k in OTHERS for d in (0, 1, 2)], bounds=BOUNDS)
def coauthors(c, kind, detail):
    """The network of authors is the same for records of any kind with the same values, details too."""
    vals = values(c, kind)
    got, want = [rc(c, x) for x in twins(c, kind, vals)]
    use = dict(useShortNames=c.pick("short", [False, True]), weighted=c.pick("w", [True, False]))
    if detail == 1:
        use["detailedInfo"] = c.pick("info", [["title", "year"], ["keywords"], ("authorsFull", "title"), ["journal"]][:3 if kind == "proquest" else 4])
    elif detail:
        use["detailedInfo"] = True
    g, h = [x.networkCoAuthor(**use) for x in (got, want)]
    if detail:
        for x in (g, h):
            for n, d in x.nodes(data=True):
                for t in ("beginningPage", "volume"):
                    d.pop(t, None)  # ProQuest has 0 for any page
        once = Count(c)
        for v in vals:
            for a in v.get("authors", []):
                once.add(a)
        # whose record describes an author of several is not said
        if any(n > 1 for _, n in once.items()):
            return
    same_graph(c, g, h)


@harness("C25", quick=[dict(kind=k) for k in OTHERS], bounds="a record of the kind with a free author, title, journal and year, cited or not by a Web of Science record that cites another work too")
@harness("C26", quick=[dict(kind=k) for k in OTHERS], bounds="a record of the kind with a free author, title, journal and year, cited or not by a Web of Science record that cites another work too")
def cores(c, kind):
    """A record of any kind is found among the works cited, and describes them."""
    dot = "." if kind == "scopus" else ""
    v = dict(title="TX", year="200" + c.s("y", ["12"]), authors=["A " + c.s("a", ["BC"]) + dot], keywords=["KX", "KY"])
    if kind != "proquest":
        v["journal"] = "J" + c.s("j", ["XY"])
    core = make(c, kind, 7, **v)
    citing = citer(c, kind, ["A B" + dot, "X Y" + dot], "JX" if kind != "proquest" else "TX")
    R = rc(c, [citing, core])
    info = c.pick("info", [["title"], ["year", "authorsFull"], ["keywords"], ["TI", "id"]])
    pieces = c.truth(c.b("pieces"))
    f = c.pick("f", ["networkCoCitation", "networkCitation"])
    g = getattr(R, f)(detailedCore=info, detailedCoreAttributes=pieces)
    hit = c.truth(c.all_([c.eq(v["authors"][0], "A B" + dot), c.eq(v["year"], "2001"), c.eq(v.get("journal", "JX"), "JX")]))
    said = {"TI": "TX", "PY": int(v["year"]), "AF": v["authors"][0], "ID": "KX", "id": col(kind, R, 7)}
    tags = {"title": "TI", "year": "PY", "authorsFull": "AF", "keywords": "ID"}
    for n, d in g.nodes(data=True):
        mine = c.truth(c.eq(d["info"] if not d["inCore"] else "", "")) and c.truth(c.eq(d["MK-ID"], col(kind, R, 7)))
        if c.truth(c.eq(n, core.createCitation().ID())) and hit:
            c.check(d["inCore"] is True, "in the core")
            c.equal(d["MK-ID"], core.id, "which record")
            if pieces:
                for t in info:
                    t = tags.get(t, t)
                    if t == "ID":
                        c.equal(d[t], "KX|KY", "attribute " + t)
                    elif t != "id":
                        c.equal(d[t], said[t], "attribute " + t)
            elif "id" not in info and info != ["year", "authorsFull"]:
                c.equal(d["info"], said[tags[info[0]]], "info")
        else:
            c.check(not mine, "no other work is this record", n)
    names = [n for n in g if c.truth(c.eq(n, core.createCitation().ID()))]
    if f == "networkCoCitation":
        c.equal(len(names), 1 if hit else 0, "is there")
    else:
        c.check(len(names) >= (1 if hit else 0), "is there")
    c.equal(sum(1 for n, d in g.nodes(data=True) if d["inCore"] and c.truth(c.eq(d["MK-ID"], core.id))) if hit else 1, 1, "marked once")


@harness("C32", quick=[dict(kind=k) for k in OTHERS], bounds=BOUNDS + "; a Web of Science record that cites a work by free author, year and journal")
@harness("C33", quick=[dict(kind=k) for k in OTHERS], bounds=BOUNDS + "; a Web of Science record that cites a work by free author, year and journal")
def diffusion(c, kind):
    """Records of any kind are sources as Web of Science records with the same values are."""
    dot = "." if kind == "scopus" else ""
    v = [dict(title="TX", year="2001", authors=["A " + c.s("a", ["BC"]) + dot], keywords=["KX", "KY"]), dict(title="TX", year="200" + c.s("y", ["12"]), authors=["A B" + dot])]
    if kind != "proquest":
        v[0]["journal"], v[1]["journal"] = "JX", "J" + c.s("j", ["XY"])
    got = [make(c, kind, i, **x) for i, x in enumerate(v)]
    want = [make(c, "wos", i, **(dict(x) if kind != "proquest" else dict(x, journal="TX"))) for i, x in enumerate(v)]
    works = [["A B" + dot, "A C" + dot], ["A B", "A C"]]
    if kind == "scopus":
        want = [make(c, "wos", i, **dict(x, authors=[y[:-1] for y in x["authors"]])) for i, x in enumerate(v)]
    S = [rc(c, x) for x in (got, want)]
    T = [rc(c, [citer(c, k, w, "JX" if kind != "proquest" else "TX")]) for k, w in zip((kind, "wos"), works)]
    undot = lambda x: x
    if dot:
        undot = lambda x: x + "." if isinstance(x, str) and x[:2] == "A " else x
    t = c.pick("type", ["keywords", "authorsFull"])
    g, h = [c.mk.diffusionGraph(x, y, sourceType=t, targetType="keywords") for x, y in zip(S, T)]
    same_graph(c, g, h, undot, "graph")
    t = c.pick("counted", ["keywords", "authorsFull", "year"])
    a, b = [c.mk.diffusionCount(x, y, sourceType=t) for x, y in zip(S, T)]
    c.same_items(list(a.items()), [(undot(k), n) for k, n in b.items()], "counts")
    a, b = [c.mk.diffusionCount(x, y, sourceType=t, compareCounts=True, extraValue="year") for x, y in zip(S, T)]
    c.same_items(list(a.items()), [(undot(k), n) for k, n in b.items()], "counts by year")


@harness("C32", quick=[dict(kind=k) for k in OTHERS], bounds="a target record of the kind with free keywords and year, labels by year or title")
def targets(c, kind):
    """Edges are labelled by the fields of citing records of any kind."""
    if kind != "scopus":
        # records of these kinds cite nothing
        S, T = rc(c, [make(c, "wos", 1, year="2001", authors=["A B"], journal="JX", keywords=["KX"])]), rc(c, [make(c, kind, 2, year="2002", keywords=["KY"])])
        g = c.mk.diffusionGraph(S, T, sourceType="keywords", targetType="keywords", labelEdgesBy="year")
        c.same_items(list(g.nodes(data=True)), [("KX", {"source": True, "target": False}), ("KY", {"source": False, "target": True})], "nodes")
        c.equal(len(g.edges()), 0, "edges")
        return
    y, k = c.s("y", ["12"]), c.s("k", ["XY"])
    S = rc(c, [make(c, "scopus", 1, year="2001", authors=["Ab B."], journal="JX", keywords=["KX"], title="TX")])
    work = "Ab B., Title (200%s) JX, 3, pp. 2" % y
    T = rc(c, [c.mk.ScopusRecord({"EID": "2", "Title": "TT", "Year": "2012", "Index Keywords": "K" + k, "References": work})])
    by = c.pick("by", ["year", "title", "PY"])
    g = c.mk.diffusionGraph(S, T, sourceType="keywords", targetType="keywords", labelEdgesBy=by)
    cited = [x for x in T.peek()["citations"] if c.truth(c.eq(x.year, 2001))]
    hit = S.peek().createCitation() in cited
    c.check(hit == c.truth(c.eq(y, "1")), "cited", cited)
    c.same_items(list(g.edges(keys=True, data=True)), [("KX", "K" + k, "2012" if by != "title" else "TT", {"weight": 1})] if hit else [], "edges")


@harness("C17", quick=[dict(kind=k) for k in OTHERS], bounds=BOUNDS)
def series(c, kind):
    """Series and counts of a field are the same for records of any kind with the same values."""
    got, want = [rc(c, x) for x in twins(c, kind, values(c, kind))]
    t = c.pick("tag", ["keywords", "authorsFull", "title"])
    a, b = [x.rankedSeries(t, giveCounts=c.pick("counts", [True, False]), pandasMode=False) for x in (got, want)]
    c.same_items(a, b, "ranked")
    a, b = [x.timeSeries(t, giveYears=True, pandasMode=False) for x in (got, want)]
    c.same_items(a, b, "times")
    a, b = [x.cooccurrenceCounts(t, "year", "authorsShort") for x in (got, want)]
    flat = lambda x: [(k, sorted(v)) if not isinstance(v, dict) else (k, list(v.items())) for k, v in x.items()]
    c.same_items([k for k, _ in flat(a)], [k for k, _ in flat(b)], "with")
    for k, v in flat(a):
        c.same_items(v, [w for x, w in flat(b) if c.truth(c.eq(x, k))][0], "with it")


@harness("C19", quick=[dict(kind=k) for k in OTHERS], bounds=BOUNDS)
def tables(c, kind):
    """A column asked for by a name has the values of records of every kind."""
    vals = values(c, kind)
    recs, _ = twins(c, kind, vals)
    R = rc(c, recs)
    names = c.pick("names", [["title", "year"], ["authorsFull", "keywords"], ["year", "id"]])
    tags = [{"title": "TI", "year": "PY", "authorsFull": "AF", "keywords": "ID"}.get(t, t) for t in names]
    long = c.truth(c.b("long")) and "id" not in names
    heads = names if long else tags
    get = lambda i, t: {"title": vals[i].get("title"), "year": int(vals[i]["year"]) if "year" in vals[i] else None, "authorsFull": vals[i].get("authors"), "keywords": vals[i].get("keywords"), "id": None}[t]
    d = R.makeDict(onlyTheseTags=names, longNames=long, genderCounts=False, numAuthors=False)
    c.same_items(list(d), heads, "columns")
    for t, h in zip(names, heads):
        if t != "id":
            c.same_items(d[h], [get(i, t) for i in range(len(vals))], "column " + t)
    d = R.makeDict(onlyTheseTags=names, longNames=long, genderCounts=False)
    c.same_items(list(d), heads + ["num-Authors"], "columns with the number of authors")
    t = names[0] if names[0] != "id" else "title"
    c.same_items(list(zip(R.makeDict(onlyTheseTags=[t], genderCounts=False)[{"title": "TI", "authorsFull": "AF", "year": "PY"}.get(t, t)], R.makeDict(onlyTheseTags=[t], genderCounts=False)["num-Authors"])),
                 [(get(i, t), len(v.get("authors", []))) for i, v in enumerate(vals)], "numbers of authors by record")
    f = c.tmp() + "/x.csv"
    R.writeCSV(f, onlyTheseTags=names, longNames=long, genderCounts=False, numAuthors=False)
    rows = c.text(f).split("\r\n")[:-1]
    order = [t for t in ("id", "title", "authorsFull", "citations", "keywords", "DOI") if t in names]
    order += [t for t in names if t not in order]
    c.equal(rows[0], ",".join('"%s"' % heads[names.index(t)] for t in order), "head")
    text = lambda x: "" if x is None else "|".join(x) if isinstance(x, list) else str(x)
    if "id" not in names:
        c.same_items(rows[1:], [",".join('"%s"' % text(get(i, t)) for t in order) for i in range(len(vals))], "rows")
    # with the number of authors and every tag there is, nothing is lost
    R.writeCSV(f, genderCounts=False)
    rows = c.text(f).split("\r\n")[:-1]
    for i, v in enumerate(vals):
        for t in ("title", "year"):
            if t in v:
                c.check(c.any_(['"%s"' % v[t] in r for r in rows[1:]]), "in the table: " + t)
    c.same_items([r[r.rfind(","):] for r in rows[1:]], [',"%d"' % len(v.get("authors", [])) for v in vals], "numbers of authors")


@harness("C20", quick=[dict(kind=k) for k in OTHERS], bounds="two records of the kind, the first with a free title, year, keywords, and an abstract of one or two lines with a copyright mark and free characters before and after")
def prepared(c, kind):
    """Texts of records of every kind are prepared alike."""
    a = ["Of " + c.s("a", ["xY .", 2]), "b" + c.s("b", ["x ."])] if kind == "proquest" and c.truth(c.b("two")) else ["Of " + c.s("a", ["xY .", 2])]
    cop = c.pick("mark", ["", ". Copyright zz", ". (C) 2001 Ab"])
    text = "\n".join(a) + cop
    v = dict(title="T" + c.s("t", ["xy,"]), year="2001", keywords=["K" + c.s("k", ["XY"]), "KZ"])
    one = make(c, kind, 1, abstract=text, **v) if kind != "proquest" else None
    if one is None:
        one = make(c, kind, 1, **v)
        one = c.mk.ProQuestRecord(dict({k: one.get(k, raw=True) for k in one}, Abstract=a[:-1] + [a[-1] + cop]))
    R = rc(c, [one, make(c, kind, 2, title="U")])
    off = dict(lower=False, removeNumbers=False, removeNonWords=False, removeWhitespace=False)
    got = R.forNLP(extraColumns=["authorsFull"], **off)
    rows = list(zip(*[got[x] for x in ("id", "year", "title", "keywords", "abstract", "authorsFull")]))
    flat = lambda x: x.replace("\n", " ")
    c.same_items([r[:4] + (flat(r[4]), r[5]) for r in rows], [(col(kind, R, 1), 2001, v["title"], "|".join(v["keywords"]), flat(text), ""), (col(kind, R, 2), "", "U", "", "", "")], "rows")
    got = R.forNLP(removeCopyright=True, **off)
    for x, y in zip(got["abstract"], got["copyright"]):
        c.check(c.any_([c.eq(flat(x + y), flat(text)), c.eq(x + y, "")]), "nothing is lost", x + y, text)
    c.same_items([x for x in R.findProbableCopyright()], [x for x in got["copyright"] if not c.truth(c.eq(x, ""))], "copyrights")
    if cop:
        c.same_items(list(got["copyright"]), [cop[1:], ""], "the mark")
    got = R.forNLP(dropList=["Of"])
    c.check(not c.truth(c.any_([c.eq(x[:3], "of ") for x in got["abstract"]])), "dropped")
    tag = c.pick("tag", ["abstract", "title", "keywords"])
    words = R.forBurst(tag, **off)
    field = {"abstract": flat(text), "title": v["title"], "keywords": " ".join(v["keywords"])}[tag]
    full = lambda xs: [x for x in xs if not c.truth(c.eq(x, ""))]
    c.same_items(full(flat(" ".join(words["word"])).split(" ")), full(field.split(" ")), "words")
    c.check(all(y == 2001 for y in words["year"]), "years")


# ------------------------------------------------------------ works cited by Scopus records

def citing(c, n=2, more=1):
    """records of Scopus and the same of Web of Science, citing works by free authors, years and journals"""
    a, b = [], []
    for i in range(n):
        ws = [("A " + c.s("a%d.%d" % (i, j), ["BC"]), "200" + c.s("y%d.%d" % (i, j), ["12"]), "J" + c.s("j%d.%d" % (i, j), ["XY"])) for j in range(1 + (more and i == 0))]
        a.append(c.mk.ScopusRecord({"EID": "%d" % i, "Title": "T", "Year": "2012", "Authors": "A Z%d." % i, "Abbreviated Source Title": "JZ", "Source title": "JZ", "References": "; ".join("%s., Tx (%s) %s, 3, pp. 2" % w for w in ws)}))
        b.append(wos(c, "W%d" % i, TI="T", PY="2012", AU=["A Z%d" % i], J9="JZ", CR=["%s, %s, %s, V3, P2" % w for w in ws]))
    return rc(c, a), rc(c, b)


def dotted(x):
    """a name of Web of Science as Scopus gives it"""
    if not isinstance(x, str):
        return x
    if x[:1] == "W":
        return "EID:" + x[1:]
    if x[:2] == "A ":
        n = x.index(",") if "," in x else len(x)
        return x[:n] + "." + x[n:]
    return x


CITES = "two records that cite two and one works of one of two authors, years and journals each"


@harness("C25", quick=[dict(node=n) for n in ("full", "author", "year", "journal")], bounds=CITES)
def scopus_cocitations(c, node):
    """Works cited together by Scopus records are joined as those of Web of Science records are."""
    use = dict(nodeType=node, nodeInfo=False, weighted=c.pick("w", [True, False]), count=c.pick("n", [True, False]))
    if c.truth(c.b("some")):
        use["keyWords"] = "b"
    same_graph(c, *[x.networkCoCitation(**use) for x in citing(c)], rename=dotted)


@harness("C26", quick=[dict(node=n) for n in ("full", "author", "year", "journal")], bounds=CITES)
def scopus_citations(c, node):
    """Scopus records cite works as Web of Science records do."""
    use = dict(nodeType=node, nodeInfo=False, weighted=c.pick("w", [True, False]), directed=c.pick("d", [True, False]))
    g, h = [x.networkCitation(**use) for x in citing(c)]
    for x in (g, h):
        for t in list(x.edges(data=True)):
            t[2].pop("yearDiff", None)
    same_graph(c, g, h, rename=dotted)


@harness("C27", quick=[dict()], bounds=CITES)
def scopus_coupling(c):
    """Scopus records that cite the same work are coupled."""
    g, h = [x.networkBibCoupling(weighted=c.pick("w", [True, False])) for x in citing(c)]
    for x in (g, h):
        for n, d in x.nodes(data=True):
            d.clear()
    same_graph(c, g, h, rename=dotted)


@harness("C16", quick=[dict(field=f) for f in ("all", "author", "year", "journal", "V", "P")], bounds=CITES)
def scopus_filters(c, field):
    """Scopus records are kept for the works they cite as Web of Science records are."""
    got, want = citing(c)
    text = {"all": "A B", "author": "A C", "year": "2001", "journal": "JX", "V": "3", "P": "2"}[field]
    rev = c.pick("reverse", [False, True])
    a, b = [x.citeFilter(text, field, reverse=rev) for x in (got, want)]
    c.same_items([r.id for r in a], [dotted(r.id) for r in b], "kept")
    a, y, j = c.pick("work", [("A B", "2001", "JX"), ("A C", "2002", "JY")])
    works = [c.mk.Citation("%s., Tx (%s) %s, 4, pp. 1" % (a, y, j), scopusMode=True), c.mk.Citation("%s, %s, %s" % (a, y, j))]
    a, b = [x.localCitesOf(w) for x, w in zip((got, want), works)]
    c.same_items([r.id for r in a], [dotted(r.id) for r in b], "cite it")


@harness("C17", quick=[dict(key=k) for k in ("citation", "author", "year", "journal")], bounds=CITES)
def scopus_local(c, key):
    """Works cited by Scopus records are counted as those of Web of Science records are."""
    a, b = [x.localCiteStats(keyType=key) for x in citing(c)]
    if key == "citation":
        a, b = [{k.ID(): v for k, v in x.items()} for x in (a, b)]
    c.same_items(list(a.items()), [(dotted(k), v) for k, v in b.items()], "counts")
    a, b = [x.getCitations(pandasFriendly=True) for x in citing(c)]
    for t in ("author", "year", "journal", "num-cites"):
        if t in b:
            c.same_items(a[t], [dotted(x) for x in b[t]], "column " + t)


@harness("C18", quick=[dict()], bounds=CITES)
def scopus_years(c):
    """The spectrum of the years cited is the same for Scopus records."""
    a, b = [x.rpys() for x in citing(c)]
    c.same_items(list(a), list(b), "columns")
    for k in b:
        c.equal(a[k], b[k], "column " + k)
