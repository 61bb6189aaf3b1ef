"""Diffusion of one collection into another."""
from vf.ctx import harness
from harness.lib import wos, rc, Count, Pairs, check_graph
from harness.citenets import ctext, text


def matches(c, g, nodes, edges, multi):
    if g.is_multigraph() != multi or not g.is_directed():
        return False
    gn = list(g.nodes(data=True))
    ge = [((u, v, k), d) for u, v, k, d in g.edges(keys=True, data=True)] if multi else [((u, v), d) for u, v, d in g.edges(data=True)]
    if len(gn) != len(nodes) or len(ge) != len(edges):
        return False
    for n, d in gn:
        r = nodes.find(n)
        if r is None or sorted(d) != sorted(k for k, _ in r[1]) or not all(c.truth(c.eq(d[k], v)) for k, v in r[1]):
            return False
    for e, d in ge:
        r = edges.find(e)
        if r is None or sorted(d) != sorted(k for k, _ in r[1]) or not all(c.truth(c.eq(d[k], v)) for k, v in r[1]):
            return False
    return True


def sources(c, sizes, alpha="ab", authors=1, pad="AB"):
    """source records with distinct citations; (record, [citation triple per author], values)"""
    out = []
    for i, n in enumerate(sizes):
        own = ctext(c, "own%d" % i, 0, pad)
        for _, o, _ in out:
            c.assume(c.not_(c.all_([c.eq(own[0], o[0][0]), c.eq(own[2], o[0][2])])))
        vs = [c.s("s%d.%d" % (i, j), [alpha]) for j in range(n)]
        f = {"AF": vs} if n else {}
        cites = [own]
        au = [own[0] + ", X"]
        for j in range(1, authors):
            au.append("E%d%d, X" % (i, j))
            cites.append(("E%d%d" % (i, j), own[1], own[2]))
        f["SE"] = c.s("s%d.se" % i, ["xy"], "z")
        out.append((wos(c, "WOS:%d" % i, AU=au, PY=own[1], J9=own[2] + "T", **f), cites, vs))
    return out


def cited(c, name, n, src, both=False):
    """n citations, each free or of a source's other author"""
    out = []
    for j in range(n):
        if both and c.truth(c.b("%s.other%d" % (name, j))):
            out.append(src[0][1][1])
        else:
            out.append(ctext(c, "%s.c%d" % (name, j), 0))
    return out


def tagged(how, R, vs, single):
    """the nodes of a record"""
    if how == "AF":
        return vs
    if how == "raw":
        return [R]
    v = R.get(how)
    return [] if v is None else [v]


def expect(c, src, tgt, stype, ttype, weighted, label):
    """the graph: nodes and edges"""
    nodes, edges = Count(c), Pairs(c, True)
    for x in src:
        for v in stype(x):
            nodes.set(v, [True, False])
    for y in tgt:
        labels = y[3] if label else [None]
        if label and labels is None:
            continue
        for v in ttype(y):
            if nodes.find(v) is None:
                nodes.set(v, [False, True])
            else:
                nodes.set(v, [nodes.get(v)[0], True])
            for t in y[1]:
                for x in src:
                    if c.truth(c.all_([c.eq(t[0], x[1][0][0]), c.eq(t[1], x[1][0][1]), c.eq(t[2], x[1][0][2])])):
                        for s in stype(x):
                            for l in labels:
                                edges.add((s, v, l) if label else (s, v))
    nodes.rows = [[k, [("source", v[0]), ("target", v[1])]] for k, v in nodes.rows]
    edges.rows = [[k, [("weight", v)] if weighted else []] for k, v in edges.rows]
    return nodes, edges


@harness("C32", quick=[dict(ss=s, ts=t, w=w) for s, t in (((1, 1), ((1, 1),)), ((2, 1), ((1, 1),)), ((1,), ((1, 2), (1, 1))), ((2,), ((2, 1),)), ((1, 0), ((1, 1), (0, 1)))) for w in (0, 1)]
         + [dict(ss=(1, 1), ts=((1, 1),), label=l, w=w) for l in ("BE", "SE", "PY", "editedBy") for w in (0, 1)] + [dict(ss=(1,), ts=((1, 2),), label="BE"), dict(ss=(1,), ts=((1, 1), (1, 1)), label="BE")],
         thorough=[dict(ss=s, ts=t, w=w, label=l) for s, t in (((2, 2), ((2, 1),)), ((1, 1), ((1, 2), (1, 1))), ((2,), ((2, 2),)), ((1, 1, 1), ((1, 1), (1, 1)))) for w, l in ((0, None), (1, None), (1, "BE"))],
         bounds="1 to 3 source and 1 or 2 target records with up to 2 values and 2 citations each, all free; edges labelled by a tag or not")
def graph(c, ss, ts, w=1, label=None):
    """Exactly the cited values point to the values of the citing records, as often as cited; every node says which side it is of."""
    src = sources(c, ss)
    tgt = []
    for i, (n, m) in enumerate(ts):
        vs = [c.s("t%d.%d" % (i, j), ["abc"]) for j in range(n)]
        cs = cited(c, "t%d" % i, m, src)
        f = {"AF": vs} if n else {}
        labels = None
        if label:
            k = c.pick("t%d.labels" % i, [1, 2] if label in ("BE", "editedBy") else [1])
            if label == "PY":
                labels = ["199" + c.s("t%d.year" % i, ["01"])]
                f["PY"] = labels[0]
            else:
                labels = [c.s("t%d.l%d" % (i, j), ["xy"]) for j in range(k)]
                f["SE" if label == "SE" else "BE"] = labels
        tgt.append((wos(c, "WOS:t%d" % i, CR=[text(t) for t in cs] or None, **f), cs, vs, labels))
    g = c.mk.diffusionGraph(rc(c, [x[0] for x in src]), rc(c, [x[0] for x in tgt]), weighted=bool(w), sourceType="AF", targetType="AF", labelEdgesBy=label)
    nodes, edges = expect(c, src, tgt, lambda x: x[2], lambda x: x[2], w, label)
    check_graph(c, g, nodes, edges, directed=True, multi=bool(label))


@harness("C32", quick=[dict(st=s, tt=t) for s in ("raw", "SE", "AF", "PY") for t in ("raw", "SE", "AF", "PY") if (s, t) != ("AF", "AF")],
         bounds="two sources and a target with up to 2 values, one of them cited or not; every kind of node")
def graph_single(c, st, tt):
    """The same for single values and for the records themselves."""
    src = sources(c, (1, 1))
    cs = [src[c.pick("which", [0, 1])][1][0]] if c.truth(c.b("cites")) else []
    f = {"SE": c.s("t.se", ["xyz"], "z"), "AF": [c.s("t.af", ["abc"])], "PY": "1999"}
    R = wos(c, "WOS:t", CR=[text(t) for t in cs] or None, **f)
    tgt = [(R, cs, f["AF"])]
    g, err = c.attempt(c.mk.diffusionGraph, rc(c, [x[0] for x in src]), rc(c, [x[0] for x in tgt]), sourceType=st, targetType=tt)

    def node(how):
        return lambda x: tagged(how, x[0], x[2], True)

    def atoms(how):
        def f(x):
            if how == "raw":
                return list(x[0])
            if how == "SE":
                return list(x[0]["SE"])
            return tagged(how, x[0], x[2], True)
        return f
    ok = err is None and matches(c, g, *expect(c, src, tgt, node(st), node(tt), True, None), multi=False)
    region = False
    if not ok:
        if "PY" in (st, tt):
            region = isinstance(err, TypeError)
        else:
            region = err is None and matches(c, g, *expect(c, src, tgt, atoms(st), atoms(tt), True, None), multi=False)
    c.known("diffusion-graph-single-values", ok, region,
            "diffusionGraph with records ('raw') or single values as nodes makes nodes of the tags of the records or the letters of the values, or fails for numbers")


@harness("C32", quick=[dict()], bounds="unknown tags for each argument")
def graph_refuses(c):
    e = rc(c, [])
    for k in ("sourceType", "targetType", "labelEdgesBy"):
        c.check(isinstance(c.raises(c.mk.diffusionGraph, e, e, **{k: "nonsense"}), RuntimeError), "refused")
    g = c.mk.diffusionGraph(e, e)
    c.equal(len(g), 0, "no records, no nodes")


# ------------------------------------------------------------ C33
def fits(c, t, x, every):
    return c.truth(c.any_([c.all_([c.eq(t[0], o[0]), c.eq(t[1], o[1]), c.eq(t[2], o[2])]) for o in (x[1] if every else x[1][:1])]))


def targets(c, ts, src, p="t", both=False):
    out = []
    for i, (m, k, single) in enumerate(ts):
        cs = cited(c, "%s%d" % (p, i), m, src, both)
        vals = [c.s("%s%d.v%d" % (p, i, j), ["xy"]) for j in range(k)]
        f = {("SE" if single else "BE"): vals} if k else {}
        out.append((wos(c, "WOS:%s%d" % (p, i), CR=[text(t) for t in cs] or None, **f), cs, vals))
    return out


def tally(c, src, tgt, how, extra, every, mapping=lambda x: x):
    """[(key, count or {value: count})]"""
    out = Count(c)
    for x in src:
        for v in ([x[0]] if how == "raw" else x[2] if how == "AF" else [x[0]["SE"]]):
            if out.find(v) is None:
                out.set(v, Count(c) if extra else 0)
                if extra:
                    out.get(v).set("TargetCount", 0)
    for y in tgt:
        for t in y[1]:
            for x in src:
                if fits(c, t, x, every):
                    for v in ([x[0]] if how == "raw" else x[2] if how == "AF" else [x[0]["SE"]]):
                        if extra:
                            out.get(v).add("TargetCount")
                            for e in y[2]:
                                out.get(v).add(mapping(e))
                        else:
                            out.add(v)
    return out


def same_counts(c, got, want, extra, msg):
    c.equal(len(got), len(want), msg + ": keys")
    for k, v in got.items():
        w = want.find(k)
        c.check(w is not None, msg + ": a key", k, want.keys())
        if extra:
            c.same_map(v.items(), w[1].items(), msg + ": counts by value")
        else:
            c.check(c.eq(v, w[1]), msg + ": count", v, w[1])


SHAPES = [((1, 1), ((2, 1, 0),)), ((2, 1), ((1, 1, 0),)), ((1,), ((1, 2, 0), (1, 1, 1))), ((1, 0), ((1, 0, 0),)), ((), ((1, 1, 0),)), ((1, 1), ())]


@harness("C33", quick=[dict(ss=s, ts=t, how=h, extra=e) for s, t in SHAPES for h in ("raw", "AF", "SE") for e in (0, 1)],
         thorough=[dict(ss=s, ts=t, how=h, extra=e) for s, t in (((2, 1), ((2, 2, 0),)), ((1, 1), ((2, 1, 0), (1, 1, 1))), ((2, 2), ((1, 1, 0), (1, 1, 0))), ((1, 1, 1), ((2, 1, 1),))) for h in ("raw", "AF", "SE") for e in (0, 1)],
         bounds="up to 2 (thorough 3) source records with up to 2 values and up to 2 target records with up to 2 citations and 2 extra values, all free")
def counts(c, ss, ts, how, extra):
    """Every value of a source has exactly the number of citations of records with it, and how many of them come from each extra value."""
    src = sources(c, ss, authors=2)
    tgt = targets(c, ts, src, both=bool(ss))
    S, T = rc(c, [x[0] for x in src]), rc(c, [x[0] for x in tgt])
    every = c.truth(c.b("every"))
    kw = dict(sourceType=how, useAllAuthors=every)
    if extra:
        kw["extraValue"] = "BE"
        tgt = [(r, cs, v if r.get("BE") is not None else []) for r, cs, v in tgt]
        if c.truth(c.b("map")):
            kw["extraMapping"] = lambda x: x + "!"
    want = tally(c, src, tgt, how, extra, every, kw.get("extraMapping", lambda x: x))
    got = c.mk.diffusionCount(S, T, **kw)
    same_counts(c, got, want, extra, "counts")
    if len(ss) > 1 and ts:
        cmp_ = c.mk.diffusionCount(S, T, compareCounts=True, **kw)
        c.equal(len(cmp_), len(want), "compared keys")
        for k, v in cmp_.items():
            c.check(isinstance(v, tuple) and len(v) == 2, "both counts", v)
            w = want.get(k)
            if extra:
                c.same_map(v[0].items(), w.items(), "compared counts")
                c.same_map(v[1].items(), [("TargetCount", 0)], "local counts")
            else:
                c.check(c.eq(v[0], w) , "compared count", v[0], w)
                c.equal(v[1], 0, "local count")


@harness("C33", quick=[dict(how=h, extra=e) for h in ("raw", "AF", "SE") for e in (0, 1)], thorough=[dict(how=h, extra=e, m=2) for h in ("raw", "AF", "SE") for e in (0, 1)],
         bounds="two source records citing each other or not, and a target citing freely")
def compare(c, how, extra, m=1):
    """Compared counts are those within the source, made alike."""
    src = sources(c, (1, 1))
    ext = []
    for i in range(2):
        o = src[1 - i]
        n = c.pick("cites%d" % i, [0, 1, 2])
        cs = [o[1][0]] * n
        r = src[i][0]
        v = [c.s("own%d.v" % i, ["xy"])]
        R = wos(c, "WOS:%d" % i, AU=src[i][1][0][0] + ", X", PY="2000", J9=src[i][1][0][2] + "T", AF=src[i][2], SE=r["SE"], CR=[text(t) for t in cs] or None, BE=v)
        src[i] = (R,) + src[i][1:]
        ext.append((R, cs, v))
    tgt = targets(c, ((m, 1, 0),), src)
    S, T = rc(c, [x[0] for x in src]), rc(c, [x[0] for x in tgt])
    kw = dict(sourceType=how, extraValue="BE" if extra else None)
    mapping = lambda x: x
    if extra and c.truth(c.b("map")):
        mapping = kw["extraMapping"] = lambda x: x + "!"
    want, local = tally(c, src, tgt, how, extra, True, mapping), tally(c, src, ext, how, extra, True, mapping)
    got = c.mk.diffusionCount(S, T, compareCounts=True, **kw)
    same_counts(c, {k: v[0] for k, v in got.items()}, want, extra, "target")
    same_counts(c, {k: v[1] for k, v in got.items()}, local, extra, "source")
    table = c.mk.diffusionCount(S, T, compareCounts=True, pandasFriendly=True, **kw)
    lens = set(len(v) for v in table.values())
    c.check(len(lens) == 1, "columns of one length", {k: len(v) for k, v in table.items()})
    rows = []
    key = table["UT"] if how == "raw" else table[how]
    for j in range(len(key)):
        k = key[j]
        if how == "raw":
            k = [x for x in src if c.truth(c.eq(x[0].id, k))][0][0]
        rows.append((k, table["BE"][j] if extra else None, table["TargetCount"][j], table["SourceCount"][j]))
    exp = []
    for k, v in want.items():
        l = local.get(k)
        if extra:
            for e, n in v.items():
                exp.append((k, e, n, l.get(e, 0)))
        else:
            exp.append((k, None, v, l))
    c.same_items(rows, exp, "rows of the table")


@harness("C33", quick=[dict(extra=e) for e in (0, 1)], thorough=[dict(extra=e, n=2) for e in (0, 1)], bounds="a source record with two authors, another citing it by free authors; the same (thorough 2 more) as targets; all authors or the first only")
def compare_authors(c, extra, n=1):
    """Which authors of the source count is the same for both of the compared counts."""
    a = wos(c, "WOS:0", AU=["AA, X", "AB, X"], PY="2000", J9="JT")
    every = c.truth(c.b("every"))
    fit = lambda x: c.truth(c.eq(x, "A")) or every
    cite = lambda x: "A%s X, 2000, JT" % x
    own = [c.s("own%d" % i, ["AB"]) for i in range(2)]
    b = wos(c, "WOS:1", AU="BA, X", PY="2001", J9="JT", CR=[cite(x) for x in own], BE="p")
    tgt, hits = [], 0
    for i in range(n):
        x = c.s("t%d" % i, ["AB"])
        tgt.append(wos(c, "WOS:t%d" % i, CR=[cite(x)], BE="q"))
        hits += 1 if fit(x) else 0
    local = sum(1 for x in own if fit(x))
    got = c.mk.diffusionCount(rc(c, [a, b]), rc(c, tgt), compareCounts=True, useAllAuthors=every, extraValue="BE" if extra else None)
    c.equal(len(got), 2, "records")
    for r, t, l in ((a, hits, local), (b, 0, 0)):
        if extra:
            c.same_map(got[r][0].items(), [("TargetCount", t)] + ([("q", t)] if t else []), "target")
            c.same_map(got[r][1].items(), [("TargetCount", l)] + ([("p", l)] if l else []), "source")
        else:
            c.equal(got[r], (t, l), "counts")


@harness("C33", quick=[dict(n=n, extra=e) for n in (0, 1, 2) for e in (0, 1)], thorough=[dict(n=3, extra=e) for e in (0, 1)],
         bounds="up to 2 (thorough 3) source records with up to 2 authors, fields there or not, a target with 2 citations")
def table(c, n, extra):
    """As a table: a row per record and value, with the record's fields, authors and counts."""
    src = sources(c, (1,) * n)
    for i in range(n):
        k = c.pick("authors%d" % i, [1, 2])
        o = src[i][1][0]
        f = {}
        if c.truth(c.b("vol%d" % i)):
            f["VL"] = "7"
        R = wos(c, "WOS:%d" % i, AU=[o[0] + ", X", "Z, Z"][:k], PY="2000", J9=o[2] + "T", **f)
        src[i] = (R, [o], [])
    tgt = targets(c, ((2, 1, 0),), src)
    num = c.truth(c.b("numAuthors"))
    t = c.mk.diffusionCount(rc(c, [x[0] for x in src]), rc(c, [x[0] for x in tgt]), extraValue="BE" if extra else None, pandasFriendly=True, numAuthors=num)
    want = tally(c, src, tgt, "raw", extra, True)
    tags = sorted(set(k for x in src for k in x[0].keys()))
    c.equal(sorted(t), sorted(tags + ["TargetCount"] + (["numAuthors"] if num else []) + (["BE"] if extra else [])), "columns")
    rows = list(zip(*[t[k] for k in sorted(t)]))
    c.check(len(set(len(v) for v in t.values())) == 1, "columns of one length")
    exp = []
    for R, v in want.items():
        for e, k in (v.items() if extra else [(None, v)]):
            d = {x: R.get(x) for x in tags}
            d.update({"TargetCount": k, "numAuthors": len(R["AU"]), "BE": e})
            exp.append(tuple(d[x] for x in sorted(t)))
    c.same_items(rows, exp, "rows")


@harness("C33", quick=[dict(extra=e, given=g) for e in (0, 1) for g in (0, 1)], bounds="two sources with free values, a target with 2 citations, a graph of 3 nodes")
def add_counts(c, extra, given):
    """Each node gets the count of its value, 0 without one, and nothing else changes."""
    import networkx as nx
    src = sources(c, (1, 1))
    tgt = targets(c, ((2, 1, 0),), src)
    g = nx.Graph()
    for x in "abc":
        g.add_node(x, info=x + "!", x=9)
    g.add_edge("a", "b", weight=3)
    S, T = rc(c, [x[0] for x in src]), rc(c, [x[0] for x in tgt])
    want = tally(c, src, tgt, "AF", extra, True)
    label = c.pick("label", ["DiffusionCount", "n"])
    kw = dict(nodeType="AF", diffusionLabel=label)
    if extra:
        kw["extraType"] = "BE"
        if c.truth(c.b("keys")):
            kw["extraKeys"] = ["x", "q"]
    if given:
        cd = c.mk.diffusionCount(S, T, sourceType="AF", extraValue="BE" if extra else None)
        kw["countsDict"] = cd
    got = c.mk.diffusionAddCountsFromSource(g, S, T, **kw)
    same_counts(c, got, want, extra, "returned")
    if given:
        same_counts(c, cd, want, extra, "the given counts stay")
    c.equal(sorted(g.nodes()), ["a", "b", "c"], "nodes")
    c.equal(list(g.edges(data="weight")), [("a", "b", 3)], "edges")
    for x, d in g.nodes(data=True):
        w = want.get(x, None)
        exp = Count(c)
        exp.set("info", x + "!")
        exp.set("x", 9)
        if extra:
            for k in kw.get("extraKeys", []):
                exp.set(k, 0)
            exp.set(label, 0)
            for k, v in (w.items() if w is not None else []):
                exp.set(label if c.truth(c.eq(k, "TargetCount")) else k, v)
        else:
            exp.set(label, w or 0)
        c.same_map(d.items(), exp.items(), "attributes")


@harness("C33", quick=[dict(how=h, extra=e) for h in ("citations", "raw", "PY", "year") for e in (0, 1)], bounds="two sources with a citation and year each, a target with 2 citations, a graph whose nodes are named after citations, records or years")
def add_counts_by_text(c, how, extra):
    """Nodes are found by the text of their citation, record or number; values are mapped as asked for."""
    import networkx as nx
    src = sources(c, (1, 1))
    keys = []
    for i in range(2):
        own = src[i][1][0]
        ref = "AX, 200%s, JK" % c.s("ref%d" % i, ["12"])
        R = wos(c, "WOS:%d" % i, AU=own[0] + ", X", PY=own[1], J9=own[2] + "T", CR=[ref])
        src[i] = (R, [own], [c.mk.Citation(ref)] if how == "citations" else [R] if how == "raw" else [int(own[1])])
        keys.append(ref if how == "citations" else str(R) if how == "raw" else own[1])
    tgt = targets(c, ((2, 1, 0),), src)
    want = Count(c)
    for k in keys:
        if want.find(k) is None:
            want.set(k, 0)
    ext = Count(c)
    for y in tgt:
        for t in y[1]:
            for x, k in zip(src, keys):
                if fits(c, t, x, True):
                    want.add(k)
                    for e in y[2]:
                        ext.add((k, e + "!" if extra else e))
    g = nx.Graph()
    for k in c.distinct(keys):
        g.add_node(k)
    g.add_node("other")
    kw = dict(extraType="BE", extraMapping=lambda x: x + "!") if extra else {}
    if how != "citations" or c.truth(c.b("said")):
        kw["nodeType"] = how
    c.mk.diffusionAddCountsFromSource(g, rc(c, [x[0] for x in src]), rc(c, [x[0] for x in tgt]), **kw)
    for x, d in g.nodes(data=True):
        exp = [("DiffusionCount", want.get(x, 0))]
        if extra:
            exp += [(k[1], n) for k, n in ext.items() if c.truth(c.eq(k[0], x))]
        c.same_map(d.items(), exp, "attributes")


@harness("C33", quick=[dict()], bounds="arguments of other kinds")
def counts_refuse(c):
    """Arguments that make no sense are refused."""
    S = rc(c, [wos(c, "WOS:1", AF=["A"])])
    f = c.mk.diffusionCount
    for a, k in (((S, S), dict(sourceType=5)), ((S, S), dict(extraValue=5)), (([], S), {}), ((S, [1]), {}), ((None, S), {})):
        c.check(isinstance(c.raises(f, *a, **k), RuntimeError), "refused")


@harness("C33", quick=[dict(how=h) for h in ("PY", "year", "AF")], bounds="two source records with a free year or name or none, a target with 2 citations that has years as extra values")
def number_counts(c, how):
    """Numbers are counted and tabled like other values."""
    src = sources(c, (1, 1))
    for i in range(2):
        own = src[i][1][0]
        v = ["N" + c.s("v%d" % i, ["ab"])] if c.truth(c.b("has%d" % i)) else []
        R = wos(c, "WOS:%d" % i, AU=own[0] + ", X", PY=own[1], J9=own[2] + "T", AF=v or None)
        src[i] = (R, [own], v if how == "AF" else [int(own[1])])
    cs = cited(c, "t", 2, src)
    y = c.pick("year", [2001, None])
    T = wos(c, "WOS:t", CR=[text(t) for t in cs], PY=None if y is None else str(y))
    S, T = rc(c, [x[0] for x in src]), rc(c, [T])
    want = tally(c, src, [(None, cs, [] if y is None else [y])], "AF", True, True)
    got = c.mk.diffusionCount(S, T, sourceType=how, extraValue="year")
    same_counts(c, got, want, True, "counts")
    t = c.mk.diffusionCount(S, T, sourceType=how, extraValue="year", pandasFriendly=True)
    c.same_items(list(t), [how, "TargetCount", "year"] if how != "year" else ["TargetCount", "year"], "columns")
    if how != "year":
        c.same_items(list(zip(t[how], t["year"], t["TargetCount"])), [(k, e, n) for k, v in want.items() for e, n in v.items()], "rows")
    plain = c.mk.diffusionCount(S, T, sourceType=how, pandasFriendly=True)
    c.same_items(list(zip(plain[how], plain["TargetCount"])), [(k, v.get("TargetCount")) for k, v in want.items()], "rows without values")
