"""Networks of authors and of citations."""
from vf.ctx import harness
from harness.lib import wos, rc, Count, Pairs, check_graph, same_attrs
from harness.citations import journals, WOSDB
from harness.tagnets import attr


def authors(c, i, n, alpha="ABC"):
    return [c.s("r%d.au%d" % (i, j), [alpha]) for j in range(n)]


# ------------------------------------------------------------------ co-authors
@harness("C24",
         quick=[dict(sizes=s, w=w, count=k) for s in ((2, 2), (3, 1)) for w in (0, 1) for k in (0, 1)]
               + [dict(sizes=s) for s in ((2, 2, 1), (3, 2), (4, 0), (1, 1), (0, 2))] + [dict(sizes=(2, 2), short=1)],
         thorough=[dict(sizes=s, w=w, count=k, short=sh) for s in ((3, 3), (4, 2), (2, 2, 2), (5,)) for w in (0, 1) for k in (0, 1) for sh in (0, 1)],
         bounds="up to 3 records with up to 4 (thorough 5) authors each out of 3 names, the authors of a record distinct")
def co_author(c, sizes, w=1, count=1, short=0):
    recs, lists = [], []
    for i, n in enumerate(sizes):
        full = authors(c, i, n, "ABC" if n < 4 else "ABCDE")
        other = ["Z%d.%d" % (i, j) for j in range(n)]
        for x in range(n):
            for y in range(x):
                c.assume(c.not_(c.eq(full[x], full[y])))
        lists.append(full)
        f = {}
        if n:
            f = {"AU": full, "AF": other} if short else {"AF": full, "AU": other}
        recs.append(wos(c, "WOS:%d" % i, **f))
    g = rc(c, recs).networkCoAuthor(weighted=bool(w), count=bool(count), useShortNames=bool(short))
    nodes, edges = Count(c), Pairs(c)
    for v in lists:
        for i, a in enumerate(v):
            nodes.add(a)
            for b in v[i + 1:]:
                edges.add((a, b))
    nodes.rows = [[k, attr(count, "count", v)] for k, v in nodes.rows]
    edges.rows = [[k, attr(w, "weight", v)] for k, v in edges.rows]
    check_graph(c, g, nodes, edges)


@harness("C24", quick=[dict(count=k, w=w) for k in (0, 1) for w in (0, 1)], thorough=[dict(count=k, w=w, n=4) for k in (0, 1) for w in (0, 1)],
         bounds="a record listing 3 (4) authors out of 2 names, so some of them more than once, and a record of 2 authors")
def co_author_twice(c, count, w, n=3):
    """Authors of one name on a paper are counted one by one; with or without weights and counts the network has the same nodes and edges."""
    lists = [authors(c, 0, n, "AB"), authors(c, 1, 2, "AB")]
    g = rc(c, [wos(c, "WOS:%d" % i, AF=v, AU=["Z"]) for i, v in enumerate(lists)]).networkCoAuthor(weighted=bool(w), count=bool(count))
    nodes, edges = Count(c), Pairs(c)
    for v in lists:
        for i, a in enumerate(v):
            nodes.add(a)
            for b in v[i + 1:]:
                edges.add((a, b))
    nodes.rows = [[k, attr(count, "count", v)] for k, v in nodes.rows]
    edges.rows = [[k, attr(w, "weight", v)] for k, v in edges.rows]
    check_graph(c, g, nodes, edges)


@harness("C24", quick=[dict(info=x) for x in (True, ("SO", "volume"))], bounds="two records of two authors with a free year digit, journal and volume letters")
def co_author_details(c, info):
    """Details on a node come from a record of that author; journals only, when asked for."""
    recs, auths, want = [], [], []
    with journals(c, WOSDB, None):
        for i in range(2):
            v = authors(c, i, 2)
            c.assume(c.not_(c.eq(v[0], v[1])))
            j9 = c.s("j%d" % i, ["J"], ["XY"])
            so = c.s("so%d" % i, ["S"], [",t"], ["q,"])
            vl = c.s("vl%d" % i, ["12"])
            recs.append(wos(c, "WOS:%d" % i, AF=v, AU=[x + ", X" for x in v], J9=j9, SO=so, VL=vl, PY="200%d" % i))
            auths.append(v)
            if info is True:
                want.append([("year", "200%d" % i), ("title", "None"), ("journal", so.replace(",", "").upper()), ("volume", vl), ("beginningPage", "None"), ("count", None)])
            else:
                want.append([("SO", so.replace(",", "").upper()), ("VL", vl), ("count", None)])
        g = rc(c, recs).networkCoAuthor(detailedInfo=info)
        for n, dat in g.nodes(data=True):
            hits = []
            for v, wa in zip(auths, want):
                if c.truth(c.member(n, v)):
                    hits.append(wa)
            c.check(len(hits) > 0, "every node is an author")
            k = len(hits)
            c.check(any(set(dat) == set(x for x, _ in wa) and all(c.truth(c.eq(dat[x], y if x != "count" else k)) for x, y in wa) for wa in hits),
                    "details are those of one record of the author", dat, hits)
        g = rc(c, recs).networkCoAuthor(dropNonJournals=True)
        keep = []
        for r, v in zip(recs, auths):
            if c.truth(c.eq(r["J9"], "JX")):
                keep += v
        c.same_items(g.nodes(), c.distinct(keep), "authors of journals only")


@harness("C24", quick=[dict(count=k, w=w, det=d) for k in (0, 1) for w in (0, 1) for d in (0, 1)], thorough=[dict(count=k, w=w, det=d, n=3) for k in (0, 1) for w in (0, 1) for d in (0, 1)],
         bounds="three records: two authors citing 2 (3) works, one author citing 1 work, one author citing nothing; names and works free")
def co_author_profile(c, count, w, det, n=2):
    """The profile of an author lists every work cited in his records with how often they cite it."""
    recs, auths, cites = [], [], []
    for i, (na, nc) in enumerate(((2, n), (1, 1), (1, 0))):
        v = authors(c, i, na, "AB,")
        if na == 2:
            c.assume(c.not_(c.eq(v[0], v[1])))
        ts = [(c.s("c%d.%d" % (i, j), ["PQ"]), "2001", "J") for j in range(nc)]
        auths.append(v)
        cites.append(ts)
        recs.append(record(c, i, ("Z", "1990", "Z"), ts, AF=v, DE="k, %d; m" % i))
    k = dict(detailedInfo=["DE", "authorsFull", "VL"]) if det else {}
    g = rc(c, recs).networkCoAuthor(citeProfile=True, count=bool(count), weighted=bool(w), **k)
    names = c.distinct([a for v in auths for a in v])
    c.same_items(g.nodes(), names, "nodes")
    for a in names:
        dat = dict(g.nodes[a])
        cn, wrote, infos = Count(c), 0, []
        for i, (v, ts) in enumerate(zip(auths, cites)):
            if c.truth(c.member(a, v)):
                wrote += 1
                infos.append(("k %d, m" % i, ", ".join(x.replace(",", "") for x in v), "None"))
                for t in ts:
                    cn.add(text(t))
        got = list(zip(dat.pop("citeProfileCites").split("|"), dat.pop("citeProfileCounts").split("|")))
        if got == [("", "")]:
            got = []
        c.same_items(got, [(x, str(q)) for x, q in cn.rows], "cited works and how often")
        c.check(("count" in dat) == bool(count), "counted if asked for")
        if count:
            c.equal(dat.pop("count"), wrote, "records written")
        if det:
            c.check(c.any_([c.all_([c.eq(dat["DE"], x), c.eq(dat["AF"], y), c.eq(dat["VL"], z)]) for x, y, z in infos]), "details of one record", dat, infos)
            c.check(len(dat) == 3, "nothing else", dat)
        else:
            c.check(not dat, "nothing else", dat)
    a, b = auths[0]
    c.same_items([d for _, _, d in g.edges(data=True)], [{"weight": 1}] if w else [{}], "one edge")
    c.check(g.has_edge(a, b), "joined")


# ------------------------------------------------------------------ citations
def ctext(c, name, dig=1, alpha="AB"):
    """author letter, year and journal letter of a citation"""
    a = c.s(name + ".a", [alpha])
    y = "200" + c.s(name + ".y", ["01"]) if dig else "2000"
    j = c.s(name + ".j", ["JK"])
    return a, y, j


def text(t):
    return t[0] + " X, " + t[1] + ", " + t[2] + "T"


def cid(t):
    return t[0] + " X, " + t[1] + ", " + t[2] + "T"


NODE = {"full": lambda t: cid(t), "author": lambda t: t[0] + " X", "year": lambda t: int(t[1]), "journal": lambda t: t[2] + "T"}


def owner(c, i, alpha="AB", extra=None):
    """a record and the citation triple naming it"""
    t = ctext(c, "own%d" % i, 0, alpha)
    return t


def record(c, i, own, cites, **f):
    return wos(c, "WOS:%d" % i, AU=[own[0] + ", X"] + f.pop("more", []), PY=own[1], J9=own[2] + "T", SO=f.pop("SO", own[2] + "T"),
               CR=[x if isinstance(x, str) or not isinstance(x, tuple) else text(x) for x in cites] if cites else None, **f)


def tally(c, groups, node, self_loops=True):
    nodes, edges = Count(c), Pairs(c)
    for g in groups:
        ids = [node(t) for t in g]
        for i, a in enumerate(ids):
            nodes.add(a)
            for b in ids[i + 1:]:
                edges.add((a, b))
    return nodes, edges


@harness("C25",
         quick=[dict(sizes=(2, 2), kind=k) for k in ("full", "author", "year", "journal")]
               + [dict(sizes=(2, 2), kind="full", w=w, count=n) for w in (0, 1) for n in (0, 1)] + [dict(sizes=(3, 1), kind="full"), dict(sizes=(3, 0), kind="author", w=0)],
         thorough=[dict(sizes=s, kind=k, w=w, count=n) for s in ((2, 2), (3, 1), (3, 2)) for k in ("full", "author", "year", "journal") for w in (0, 1) for n in (0, 1)],
         bounds="up to 2 records citing up to 3 works each: author, year and journal each one of 2 values, repeats allowed")
def co_citation(c, sizes, kind, w=1, count=1):
    """Nodes are the cited works (or their author, year or journal), counted once per citation; edges join works cited by
    the same record, weighted by how often."""
    groups, recs = [], []
    for i, n in enumerate(sizes):
        ts = [ctext(c, "c%d.%d" % (i, j), dig=(kind in ("year", "full"))) for j in range(n)]
        groups.append(ts)
        recs.append(record(c, i, ("Q", "1990", "Z"), ts))
    g = rc(c, recs).networkCoCitation(nodeType=kind, weighted=bool(w), count=bool(count), nodeInfo=False, detailedCore=False)
    nodes, edges = tally(c, groups, NODE[kind])
    nodes.rows = [[k, attr(count, "count", v)] for k, v in nodes.rows]
    edges.rows = [[k, attr(w, "weight", v)] for k, v in edges.rows]
    check_graph(c, g, nodes, edges)


@harness("C25", quick=[dict(opt=o) for o in ("anon", "anon_kept", "keyword", "keywords", "journals", "core")],
         bounds="one record citing 3 works, one option at a time; author, journal and keyword letters free")
def co_citation_filters(c, opt):
    ts, raw = [], []
    for j in range(3):
        if opt.startswith("anon"):
            t = (("[ANONYMOUS]" if c.pick("anon%d" % j, [0, 1]) else c.s("a%d" % j, ["AB"])), "200%d" % j, "J")
            txt = (t[0] if t[0] == "[ANONYMOUS]" else t[0] + " X") + ", " + t[1] + ", JT"
        else:
            t = ctext(c, "c%d" % j, 0)
            txt = text(t)
        ts.append((t, txt))
    own = ("A", "2000", "J")
    k = dict(nodeInfo=False, detailedCore=False)
    keep = ts
    if opt == "anon":
        keep = [x for x in ts if x[0][0] != "[ANONYMOUS]"]
    elif opt == "anon_kept":
        k["dropAnon"] = False
    elif opt == "keyword":
        word = c.s("word", ["ajx"])
        k["keyWords"] = word
        keep = [x for x in ts if not c.truth(word.upper() in x[1].upper())]
    elif opt == "keywords":
        word = [c.s("w0", ["Aj"], [" t"]), "kT"]
        k["keyWords"] = word
        keep = [x for x in ts if not any(c.truth(q.upper() in x[1].upper()) for q in word)]
    elif opt == "core":
        k["coreOnly"] = True
        keep = [x for x in ts if c.truth(c.eq(x[0], own))]
    recs = [record(c, 0, own, [x[1] for x in ts])]
    if opt == "journals":
        k["dropNonJournals"] = True
        with journals(c, {"JT": "Journal of T"}, None):
            g = rc(c, recs).networkCoCitation(**k)
        keep = [x for x in ts if c.truth(c.eq(x[0][2], "J"))]
    else:
        g = rc(c, recs).networkCoCitation(**k)

    def ident(x):
        return (x[0][0].title() if x[0][0] == "[ANONYMOUS]" else x[0][0] + " X") + ", " + x[0][1] + ", " + x[0][2] + "T"
    nodes, edges = Count(c), Pairs(c)
    for i, a in enumerate(keep):
        nodes.add(ident(a))
        for b in keep[i + 1:]:
            edges.add((ident(a), ident(b)))
    nodes.rows = [[k2, [("count", v)]] for k2, v in nodes.rows]
    edges.rows = [[k2, [("weight", v)]] for k2, v in edges.rows]
    check_graph(c, g, nodes, edges)


@harness("C25", quick=[dict(full=0), dict(full=1)], bounds="one record citing 2 works, two core records, letters free")
def co_citation_info(c, full):
    """Each node says whether it is a record of the collection, and which; full citations and descriptions are attached."""
    owns = [owner(c, 0), owner(c, 1)]
    c.assume(c.not_(c.eq(cid(owns[0]), cid(owns[1]))))
    ts = [ctext(c, "c%d" % j, 0) for j in range(2)]
    c.assume(c.not_(c.eq(cid(ts[0]), cid(ts[1]))))
    page = c.s("page", ["12"])
    vol = c.s("vol", ["12"])
    txts = [text(t) + ", V" + vol + ", P" + page + ", DOI 10.1/x" for t in ts]
    title = c.s("title", ["T"], ["t,"], ["uv"])
    recs = [record(c, 0, owns[0], txts, TI=title), record(c, 1, owns[1], None, TI="Other")]
    g = rc(c, recs).networkCoCitation(fullInfo=bool(full), detailedCore=["UT", "AF" if False else "AU", "TI"])
    c.check(len(g) == 2, "two nodes", len(g))
    for n, dat in g.nodes(data=True):
        c.equal(dat["count"], 1, "count")
        k = 0 if c.truth(c.eq(n, cid(ts[0]))) else 1
        c.equal(n, cid(ts[k]), "node")
        hit = [i for i in (0, 1) if c.truth(c.eq(n, cid(owns[i])))]
        if hit:
            i = hit[0]
            c.check(dat["inCore"] is True, "in the core")
            c.equal(dat["MK-ID"], "WOS:%d" % i, "id of the record")
            t = title.replace(",", "") if i == 0 else "Other"
            c.equal(dat["info"], "WOS:%d, " % i + owns[i][0] + " X, " + t, "description from the record")
        else:
            c.check(dat["inCore"] is False, "not in the core")
            c.equal(dat["MK-ID"], "None", "no record")
            c.equal(dat["info"], cid(ts[k]) + ", V" + vol + ", P" + page, "description without the DOI")
        if full:
            c.equal(dat["fullCite"], txts[k], "full citation")
        else:
            c.check("fullCite" not in dat, "no full citation")


@harness("C25", quick=[dict(net=n, w=w) for n in ("cocite", "cite") for w in (0, 1)], bounds="one record with two authors citing itself and another work, letters free")
def expanded_core(c, net, w):
    """Records of the collection appear once for each of their authors, joined to each other and to the same works."""
    other = ctext(c, "o", 0, "CD")
    own = owner(c, 0)
    second = c.s("second", ["MN"])
    recs = [record(c, 0, own, [own, other], more=[second + ", X"])]
    R = rc(c, recs)
    k = dict(weighted=bool(w), expandedCore=True)
    g = R.networkCoCitation(**k) if net == "cocite" else R.networkCitation(directed=False, **k)
    a, b, o = cid(own), cid((second, own[1], own[2])), cid(other)
    c.same_items(g.nodes(), [a, b, o], "nodes")
    for x, y in ((a, b), (a, o), (b, o)):
        c.check(g.has_edge(x, y), "joined", (x, y))
        if w:
            c.equal(g.edges[x, y]["weight"], 1, "weight")
    da, db = dict(g.nodes[a]), dict(g.nodes[b])
    c.check(da == db, "the copies carry the same information", da, db)


# ------------------------------------------------------------------ citation network
@harness("C26",
         quick=[dict(sizes=(1, 2), kind=k) for k in ("full", "author", "year", "journal")]
               + [dict(sizes=(2, 1), kind=k, w=w, count=n, directed=d) for k in ("full", "author") for w in (0, 1) for n in (0, 1) for d in (0, 1) if (w, n, d) != (1, 1, 1)]
               + [dict(sizes=(2, 1), kind=k, w=w, back=1) for k in ("full", "author") for w in (0, 1)],
         thorough=[dict(sizes=s, kind=k, w=w, count=n, directed=d, back=b) for s in ((2, 2), (1, 2), (3, 0)) for k in ("full", "author", "year", "journal")
                   for w in (0, 1) for n in (0, 1) for d in (0, 1) for b in (0, 1) if d or not b],
         bounds="up to 2 records citing up to 3 works; author and journal (and year, where it is the node) one of 2 values; records may cite each other")
def citation_network(c, sizes, kind, w=1, count=1, directed=1, back=0):
    """An edge from every citing record to every work it cites, weighted by how often."""
    recs, data = [], []
    for i, n in enumerate(sizes):
        own = owner(c, i)
        if kind == "year":
            own = (own[0], "200" + c.s("own%d.yy" % i, ["01"]), own[2])
        ts = [ctext(c, "c%d.%d" % (i, j), dig=(kind == "year")) for j in range(n)]
        data.append((own, ts))
        recs.append(record(c, i, own, ts))
    g = rc(c, recs).networkCitation(nodeType=kind, weighted=bool(w), count=bool(count), directed=bool(directed), nodeInfo=False,
                                    recordToCite=not back)
    node = NODE[kind]
    nodes, edges = Count(c), Pairs(c, bool(directed))
    for own, ts in data:
        if not ts:
            continue
        nodes.add(node(own))
        for t in ts:
            nodes.add(node(t))
            edges.add((node(t), node(own)) if back else (node(own), node(t)))
    nodes.rows = [[k, attr(count, "count", v)] for k, v in nodes.rows]
    want = []
    for k, v in edges.rows:
        want.append([k, attr(w, "weight", v)])
    edges.rows = want
    if w and kind == "full":
        for _, _, d in g.edges(data=True):
            d.pop("yearDiff", None)
    check_graph(c, g, nodes, edges, directed=bool(directed))


@harness("C26", quick=[dict(opt=o) for o in ("anon", "keyword", "journals", "core")], bounds="two records citing 2 works each, one option at a time")
def citation_filters(c, opt):
    """Filters apply to citing records and cited works alike."""
    recs, data = [], []
    for i in range(2):
        own = owner(c, i)
        ts = [ctext(c, "c%d.%d" % (i, j), 0) for j in range(2 - i)]
        cites = [text(t) for t in ts]
        if opt == "anon":
            cites.append("[ANONYMOUS], 2001, JT")
        data.append((own, ts))
        recs.append(record(c, i, own, cites))
    if opt == "core":
        c.assume(c.not_(c.eq(cid(data[0][0]), cid(data[1][0]))))
    R = rc(c, recs)
    ok = lambda t: True
    if opt == "anon":
        g = R.networkCitation(dropAnon=True, nodeInfo=False)
    elif opt == "keyword":
        word = c.s("word", ["ajx"])
        g = R.networkCitation(keyWords=[word], nodeInfo=False)
        ok = lambda t: not c.truth(word.upper() in text(t).upper())
    elif opt == "journals":
        with journals(c, {"JT": "Journal of T"}, None):
            g = R.networkCitation(dropNonJournals=True, nodeInfo=False)
        ok = lambda t: c.truth(c.eq(t[2], "J"))
    else:
        g = R.networkCitation(coreOnly=True, nodeInfo=False)
        ok = lambda t: c.truth(c.any_([c.eq(cid(t), cid(o)) for o, _ in data]))
    nodes, edges = Count(c), Pairs(c, True)
    for own, ts in data:
        if not ok(own):
            continue
        nodes.add(cid(own))
        for t in ts:
            if ok(t):
                nodes.add(cid(t))
                edges.add((cid(own), cid(t)))
    nodes.rows = [[k, [("count", v)]] for k, v in nodes.rows]
    edges.rows = [[k, [("weight", v), ("yearDiff", 0)]] for k, v in edges.rows]
    check_graph(c, g, nodes, edges, directed=True)


# ------------------------------------------------------------------ bibliographic coupling
@harness("C27",
         quick=[dict(sizes=s, w=w) for s in ((2, 2), (1, 1, 1), (3, 1)) for w in (0, 1)] + [dict(sizes=(2, 0)), dict(sizes=(2, 1, 1))],
         thorough=[dict(sizes=s, w=w) for s in ((2, 2, 1), (3, 2), (2, 2, 2), (1, 1, 1, 1)) for w in (0, 1)],
         bounds="up to 3 (thorough 4) records citing up to 3 works out of 4, which may be records of the collection; repeats allowed")
def coupling(c, sizes, w=1):
    """Records of the collection, joined when they cite the same works, weighted by how many works they share."""
    owns = [(x, "2000", "J") for x in "ABCD"[:len(sizes)]]
    recs, data = [], []
    for i, n in enumerate(sizes):
        ts = [(c.s("c%d.%d.a" % (i, j), ["AB"]), "2000", c.s("c%d.%d.j" % (i, j), ["JK"])) for j in range(n)]
        data.append((owns[i], ts))
        recs.append(record(c, i, owns[i], ts))
    g = rc(c, recs).networkBibCoupling(weighted=bool(w))
    seen = []
    for own, ts in data:
        if ts:
            seen.append(cid(own))
            seen += [cid(t) for t in ts]
    nodes, edges = Count(c), Pairs(c)
    for own, ts in data:
        if c.truth(c.member(cid(own), seen)):
            nodes.add(cid(own))
    nodes.rows = [[k, None] for k, _ in nodes.rows]
    for i, (o1, t1) in enumerate(data):
        d1 = c.distinct([cid(t) for t in t1])
        for o2, t2 in data[i + 1:]:
            shared = [x for x in d1 if c.truth(c.member(x, [cid(t) for t in t2]))]
            if shared:
                edges.add((cid(o1), cid(o2)), len(shared))
    edges.rows = [[k, attr(w, "weight", v)] for k, v in edges.rows]
    check_graph(c, g, nodes, edges)
    for n, dat in g.nodes(data=True):
        i = [cid(o) for o in owns].index(n)
        c.equal(dat["MK-ID"], "WOS:%d" % i, "node names its record")


# ------------------------------------------------------------------ kinds of nodes, details and filters together
@harness("C25", quick=[dict(kind=k, net="cocite", full=f) for k in ("author", "year", "journal", "original", "full") for f in (0, 1)], bounds="two records citing 2 and 1 works, letters, years and pages free; nodes of each kind with their description")
@harness("C26", quick=[dict(kind=k, net="cite", full=f) for k in ("author", "year", "journal", "original", "full") for f in (0, 1)], bounds="two records citing 2 and 1 works, letters, years and pages free; nodes of each kind with their description")
def node_info(c, kind, net, full):
    """Descriptions of nodes: the name itself, the full name of the journal, the text of the citation."""
    refs, recs = [], []
    with journals(c, {"JT": "Journal of T"}, {"KT": "Kin"} if c.pick("user", [0, 1]) else None):
        for i in range(2):
            own = ("Q", "1990", c.s("o%d" % i, ["JZ"]))
            ts = []
            for j in range(2 - i):
                t = ctext(c, "c%d.%d" % (i, j), 1)
                p = c.s("p%d.%d" % (i, j), ["12"]) if kind == "original" else "7"
                ts.append(text(t) + ", P" + p + (", DOI 10.1/X" if kind == "original" and not i and not j else ""))
            refs += ts
            if net == "cite":
                refs.append(text(own))
            recs.append(record(c, i, own, ts))
        R = rc(c, recs)
        k = dict(nodeType=kind, fullInfo=bool(full), detailedCore=False)
        g = R.networkCoCitation(**k) if net == "cocite" else R.networkCitation(**k)
        objs = [c.mk.Citation(r) for r in refs]
        for n, d in g.nodes(data=True):
            mine = []
            for o in objs:
                key = o.ID() if kind == "full" else o.original if kind == "original" else getattr(o, kind)
                if c.truth(c.eq(key, n)):
                    mine.append(o)
            c.check(len(mine) > 0, "every node is a work", n)
            c.equal(d["count"], len(mine), "count")
            if kind in ("author", "year"):
                c.equal(d["info"], n, "description is the name")
            elif kind == "journal":
                c.equal(d["info"], "Journal of T" if c.truth(c.eq(n, "JT")) else ("Kin" if c.truth(c.eq(n, "KT")) and mine[0].isJournal() else "None"), "description is the full name of the journal")
            elif kind == "original":
                c.equal(d["info"], n, "description is the text")
            else:
                c.check(c.member(d["info"], [o.allButDOI() for o in mine]), "description is the citation", d["info"])
            if full:
                c.check(c.member(d["fullCite"], [o.original for o in mine]), "full citation", d["fullCite"])
            c.check(set(d) == {"info", "count"} | ({"fullCite"} if full else set()), "nothing else", d)
        if net == "cite":
            for u, v, d in g.edges(data=True):
                if kind in ("full", "original"):
                    years = [int(x.split(", ")[1]) for x in (u, v)]
                    c.equal(d["yearDiff"], abs(years[0] - years[1]), "difference of the years")
                else:
                    c.check(set(d) == {"weight"}, "no difference of years", d)


@harness("C25", quick=[dict(net="cocite", det=d, addcr=a, core=k) for d in (0, 1) for a in (0, 1) for k in (0, 1)], bounds="two records citing each other, themselves or others; details as one text or separate, with and without their citations, or the works in the core only")
@harness("C26", quick=[dict(net="cite", det=d, addcr=a, core=k) for d in (0, 1) for a in (0, 1) for k in (0, 1)], bounds="two records citing each other, themselves or others; details as one text or separate, with and without their citations, or the works in the core only")
@harness("C27", quick=[dict(net="couple", det=0, addcr=a, core=0) for a in (0, 1)], bounds="two records citing each other, themselves or others; details and citations of the records")
def core_details(c, net, det, addcr, core):
    """Works that are records of the collection are marked, named and described by their record, others are not."""
    owns = [("A", "2000", "J"), ("B", "2001", "J")]
    ts = [[(c.s("c%d.%d" % (i, j), ["ABC"]), "200%d" % j, "J") for j in range(2 - i)] for i in range(2)]
    title, de = c.s("title", ["T"], [",u"], "s"), [c.s("de", ["ab,"]), "m"]
    recs = []
    for i in range(2):
        recs.append(record(c, i, owns[i], ts[i], TI=title + str(i), DE="; ".join(reversed(de)) if i else None, AF=["Full%d, Name" % i, "Other, X"], VL=str(i)))
    R = rc(c, recs)
    tags = ["UT", "AF", "TI", "VL", "CR", "DE"] if not det else ["title", "AF", "DE", "PY", "WC", "CR"]
    k = dict(detailedCore=tags, addCR=bool(addcr))
    if net != "couple":
        k.update(detailedCoreAttributes=bool(det), coreOnly=bool(core))
    if net == "cocite":
        g = R.networkCoCitation(**k)
    elif net == "cite":
        g = R.networkCitation(**k)
    else:
        g = R.networkBibCoupling(addCR=bool(addcr), fullInfo=True)
    own_ids = [cid(o) for o in owns]
    nodes = []
    for i in range(2):
        ids = [cid(t) for t in ts[i] if not core or c.truth(c.member(cid(t), own_ids))]
        if net == "cocite":
            nodes += ids
        else:
            nodes.append(own_ids[i])
            if net == "cite":
                nodes += ids
    c.same_items(g.nodes(), c.distinct(nodes), "nodes")
    for n, d in g.nodes(data=True):
        d = dict(d)
        if net == "couple":
            c.check("fullCite" in d and "count" not in d, "full citation and no count", d)
            d.pop("fullCite")
        else:
            c.equal(d.pop("count"), len([x for x in nodes if c.truth(c.eq(x, n))]) if net == "cocite" else d_count(c, n, own_ids, ts, core), "count")
        hit = [i for i in (0, 1) if c.truth(c.eq(own_ids[i], n))]
        c.check(d.pop("inCore") is bool(hit), "in the core or not")
        c.equal(d.pop("MK-ID"), "WOS:%d" % hit[0] if hit else "None", "id of the record")
        if addcr:
            c.equal(d.pop("citations"), "|".join(text(t) for t in ts[hit[0]]) if hit else "", "citations of the record")
        if hit:
            i = hit[0]
            if det:
                kw = ([de[1], de[0]] if i else None)
                c.equal(d.pop("TI"), title + str(i), "title")
                c.equal(d.pop("AF"), "|".join(["Full%d, Name" % i, "Other, X"]), "authors")
                c.equal(d.pop("PY"), 2000 + i, "year")
                c.check(d.pop("WC", 0) is None, "missing field")
                v, raw = d.pop("CR"), [text(t) for t in ts[i]]
                c.check(c.any_([c.eq(v, "|".join(raw)), c.eq(v, "|".join(reversed(raw)))]), "citations", v, raw)
                v = d.pop("DE", 0)
                if i:
                    c.check(c.any_([c.eq(v, "|".join(kw)), c.eq(v, "|".join(reversed(kw)))]), "keywords", v, kw)
                else:
                    c.check(v is None, "no keywords")
            elif net == "couple":
                info = [x for x in d.pop("info").split(", ") if x not in ("2000", "2001")]
                c.equal(", ".join(info), ", ".join(["WOS:%d" % i, "Full%d Name" % i, (title + str(i)).replace(",", ""), owns[i][2] + "T", str(i)]), "description")
            else:
                c.equal(d.pop("info"), ", ".join(["WOS:%d" % i, "Full%d Name" % i, (title + str(i)).replace(",", ""), str(i), text(ts[i][0]).replace(",", "")] + (["m"] if i else [])), "description")
        else:
            c.equal(d.pop("info"), n, "description of a work outside of the core")
        c.check(not d, "nothing else", d)


def d_count(c, n, own_ids, ts, core):
    k = 0
    for o, t in zip(own_ids, ts):
        k += 1 if c.truth(c.eq(o, n)) else 0
        k += len([x for x in t if c.truth(c.eq(cid(x), n))])
    return k


@harness("C26", quick=[dict(kind=k) for k in ("full", "author", "year", "journal")], bounds="two records citing each other or others, read in both orders; letters and years free")
@harness("C25", quick=[dict(kind=k, net="cocite") for k in ("full", "author", "year", "journal")], bounds="two records citing works in common, read in both orders; letters and years free")
@harness("C27", quick=[dict(kind="full", net="couple")], bounds="two records citing works in common, read in both orders")
def any_order(c, kind, net="cite"):
    """The order of the records is without influence."""
    spec = []
    for i in range(2):
        own = (c.s("own%d" % i, ["AB"]), "200%d" % i, "J")
        ts = [ctext(c, "c%d.%d" % (i, j), 1) for j in range(2 - i)]
        spec.append((own, ts))

    def make(order):
        R = rc(c, [record(c, i, *spec[i]) for i in order])
        if net == "cite":
            return R.networkCitation(nodeType=kind, nodeInfo=False)
        if net == "cocite":
            return R.networkCoCitation(nodeType=kind, nodeInfo=False)
        return R.networkBibCoupling()
    a, b = make((0, 1)), make((1, 0))
    n, e = Count(c), Pairs(c, net == "cite")
    for x, d in b.nodes(data=True):
        n.rows.append([x, list(d.items())])
    for x, y, d in b.edges(data=True):
        e.rows.append([(x, y), list(d.items())])
    check_graph(c, a, n, e, directed=net == "cite")


@harness("C25", quick=[dict(net="cocite", kind=k, opt=o) for k in ("full", "author", "journal") for o in ("anon", "words", "core", "all")], bounds="one record citing three works, one of them anonymous, with one or all filters, for nodes of three kinds")
@harness("C26", quick=[dict(net="cite", kind=k, opt=o) for k in ("full", "author", "journal") for o in ("anon", "words", "core", "all")], bounds="one record citing three works, one of them anonymous, with one or all filters, for nodes of three kinds")
def filters_and_kinds(c, net, kind, opt):
    """Filters look at the citations, whatever the nodes are."""
    own = ("A", "2000", "J")
    ts = [ctext(c, "c%d" % j, 0) for j in range(2)]
    raw = [text(t) for t in ts] + ["[ANONYMOUS], 2000, " + c.s("aj", ["JK"]) + "T"]
    word = c.s("word", ["bkZ"])
    recs = [record(c, 0, own, raw), record(c, 1, ("C", "2000", "J"), None)]
    k = dict(nodeType=kind, nodeInfo=False, dropAnon=opt in ("anon", "all"), coreOnly=opt in ("core", "all"))
    if opt in ("words", "all"):
        k["keyWords"] = ["nowhere", word]
    objs = [c.mk.Citation(x) for x in raw]
    me = c.mk.Citation(text(own))
    core = [me, c.mk.Citation("C X, 2000, JT")]

    def ok(o):
        if k["dropAnon"] and o.isAnonymous():
            return False
        if k["coreOnly"] and not c.truth(c.any_([c.eq(o.ID(), x.ID()) for x in core])):
            return False
        return not ("keyWords" in k and c.truth(word.upper() in o.original.upper()))

    def name(o):
        return o.ID() if kind == "full" else getattr(o, kind)
    nodes, edges = Count(c), Pairs(c, net == "cite")
    ids = [name(o) for o in objs if ok(o)]
    if net == "cocite":
        g = rc(c, recs).networkCoCitation(**k)
        for i, x in enumerate(ids):
            nodes.add(x)
            for y in ids[i + 1:]:
                edges.add((x, y))
    else:
        g = rc(c, recs).networkCitation(**k)
        if ok(me):
            nodes.add(name(me))
            for x in ids:
                nodes.add(x)
                edges.add((name(me), x))
    nodes.rows = [[x, [("count", v)]] for x, v in nodes.rows]
    edges.rows = [[x, [("weight", v)]] for x, v in edges.rows]
    if kind == "full" and net == "cite":
        for _, _, d in g.edges(data=True):
            c.equal(d.pop("yearDiff"), 0, "difference of the years")
    check_graph(c, g, nodes, edges, directed=net == "cite")


@harness("C26", quick=[dict(kind=k, w=w) for k in ("full", "original") for w in (0, 1)], bounds="a record, with a year or not, citing two works, with years or not, the last digits of the years free")
def years_apart(c, kind, w):
    """The difference of the years of two works is on the edge between them, or None where one has no year."""
    y0 = c.s("own", ["19"], ["05"]) if c.pick("dated", [1, 0]) else None
    f = {"PY": "20" + y0} if y0 is not None else {}
    texts, ys = [], []
    for j in range(2):
        y = c.s("y%d" % j, ["19"], ["05"]) if c.pick("dated%d" % j, [1, 0]) else None
        t = ("%s X, " % "BC"[j]) + ("20" + y + ", " if y is not None else "") + "JT, V1"
        texts.append(t)
        ys.append(y)
    r = wos(c, "WOS:0", AU=["Q, X"], J9="JX", CR=texts, **f)
    me = r.createCitation()
    works = [c.mk.Citation(t) for t in texts]
    name = lambda o: o.ID() if kind == "full" else o.original
    g = rc(c, [r]).networkCitation(nodeType=kind, weighted=bool(w), nodeInfo=False)
    c.equal(len(g.edges()), 2, "edges")
    for o, y in zip(works, ys):
        c.check(g.has_edge(name(me), name(o)), "the record cites it")
        d = g.edges[name(me), name(o)]
        if not w:
            c.equal(dict(d), {}, "nothing on it")
            continue
        want = None if y is None or y0 is None else abs(int("20" + y) - int("20" + y0))
        c.same_map(d.items(), [("weight", 1), ("yearDiff", want)], "on the edge")


@harness("C25", quick=[dict()], bounds="kinds of nodes there are not")
@harness("C26", quick=[dict()], bounds="kinds of nodes there are not")
def kinds_refused(c):
    R = rc(c, [record(c, 0, ("A", "2000", "J"), ["A X, 2000, JT"])])
    for k in ("Full", "", "authors", None):
        for f in (R.networkCoCitation, R.networkCitation):
            c.check(isinstance(c.raises(f, nodeType=k), c.mk.mkExceptions.RCValueError), "refused", k)


@harness("C25", quick=[dict(net="cocite", n=n, w=w) for n in (2, 3) for w in (0, 1)], bounds="three records with up to 3 authors, the first two works of the collection cited or not by the third")
@harness("C26", quick=[dict(net=k, n=n, w=w) for k in ("cite", "citeu") for n in (2, 3) for w in (0, 1)], bounds="three records with up to 3 authors, the first two works of the collection cited or not by the third")
def expanded_network(c, net, n, w):
    """Works of the collection, and only those, get a node for each author, joined to what the first one is joined to."""
    owns = [("A", "2000", "J"), ("B", "2001", "J"), ("E", "2002", "J")]
    more = [["A%d" % i for i in range(1, n)], ["B1"], []]
    cand = [("A", "2000", "J"), ("B", "2001", "J"), ("O", "1990", "K"), ("P", "1990", "K")]
    ts = [c.pick("c%d" % j, cand) for j in range(3)]
    R = rc(c, [record(c, 0, owns[0], [cand[2]], more=[x + ", X" for x in more[0]]),
               record(c, 1, owns[1], None, more=[x + ", X" for x in more[1]]), record(c, 2, owns[2], ts)])
    k = dict(weighted=bool(w))

    def make(**o):
        return R.networkCoCitation(**o, **k) if net == "cocite" else R.networkCitation(directed=net == "cite", **o, **k)
    base, g = make(), make(expandedCore=True)
    groups = [[cid(o)] + [cid((x,) + o[1:]) for x in m] for o, m in zip(owns, more)]
    nodes = list(base.nodes())
    for grp in groups:
        if grp[0] in nodes:
            nodes += grp[1:]
    c.same_items(g.nodes(), nodes, "nodes")

    def origin(x):
        for grp in groups:
            if x in grp:
                return grp[0]
        return x
    for x in g.nodes():
        c.same_map(g.nodes[x].items(), list(base.nodes[origin(x)].items()), "a copy has the attributes of the original")
    for u, v, d in base.edges(data=True):
        c.check(g.has_edge(u, v), "edges stay", (u, v))
        if w and u != v and not (origin(u) == origin(v)):
            c.equal(g.edges[u, v]["weight"], d["weight"], "weights stay")
        if net != "cite":
            for x in g.nodes():
                for a, b in ((u, v), (v, u)):
                    if origin(x) == a and b != a and x != a:
                        c.check(g.has_edge(x, b), "a copy is joined to the neighbours of the original", (x, b))
                        if w and origin(b) != a:
                            c.equal(g.edges[x, b]["weight"], d["weight"], "as often")
        else:
            for x in g.nodes():
                if origin(x) == u and x != u and origin(v) != u:
                    c.check(g.has_edge(x, v), "a copy cites what the original cites", (x, v))
                    if w:
                        c.equal(g.edges[x, v]["weight"], d["weight"], "as often")
    for u, v in g.edges():
        # the tests count the loops of the copies, which are joined to all their original is joined to
        c.check(u != v or base.has_edge(u, u) or origin(u) != u, "no other loops", u)
        c.check(origin(u) == origin(v) or base.has_edge(origin(u), origin(v)) or (net != "cite" and base.has_edge(origin(v), origin(u))), "no other edges", (u, v))
    for grp in groups:
        if grp[0] in base:
            for i, a in enumerate(grp):
                for b in grp[i + 1:]:
                    c.check(g.has_edge(a, b) or (net == "cite" and g.has_edge(b, a)), "the copies are joined to each other", (a, b))
