"""Working with graphs: dropping parts, merging, writing and reading, measures."""
from vf.ctx import harness
from harness.lib import Count, Pairs

INF = float("inf")
KINDS = ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph")


def new(kind):
    import networkx as nx
    return getattr(nx, kind)()


def build(c, kind, pairs, nodes="abc", lo=0, hi=4, missing=True, name="w", extra=True):
    """a graph with those edges ('ab'; parallel ones only in multigraphs) and free or missing weights; [(u, v, key, weight)]"""
    g = new(kind)
    for n in nodes:
        g.add_node(n, label="n" + n)
    rows = []
    for i, p in enumerate(pairs):
        u, v = p[0], p[1]
        f = {"i": i} if extra else {}
        w = None
        if not (missing and c.truth(c.b("%s_missing%d" % (name, i)))):
            w = c.i("%s%d" % (name, i), lo, hi)
            f["weight"] = w
        if "Multi" in kind:
            k = g.add_edge(u, v, key="k%d" % i, **f)
        else:
            k = None
            g.add_edge(u, v, **f)
        rows.append((u, v, k, w, i))
    return g, rows


def edge_rows(g):
    if g.is_multigraph():
        return [(u, v, k, d) for u, v, k, d in g.edges(keys=True, data=True)]
    return [(u, v, None, d) for u, v, d in g.edges(data=True)]


def same_edges(c, g, rows, msg):
    """rows identify edges by their number"""
    got = edge_rows(g)
    c.check(sorted(d["i"] for _, _, _, d in got) == sorted(r[4] for r in rows), msg, [d["i"] for _, _, _, d in got], [r[4] for r in rows])
    for u, v, k, d in got:
        r = [r for r in rows if r[4] == d["i"]][0]
        c.check({u, v} == {r[0], r[1]} and k == r[2] and (not g.is_directed() or u == r[0]), msg + ": ends", (u, v, k), r)
        if r[3] is None:
            c.check("weight" not in d, msg + ": no weight")
        else:
            c.check(c.eq(d["weight"], r[3]), msg + ": weight", d.get("weight"), r[3])
    c.observe(msg, len(got))


EDGES = {"Graph": [("ab", "bc", "aa"), ("ab", "ac", "bc")], "DiGraph": [("ab", "ba", "bb"), ("ab", "bc")],
         "MultiGraph": [("ab", "ab", "bc"), ("ab", "ba", "aa")], "MultiDiGraph": [("ab", "ab", "ba"), ("aa", "aa", "ab")]}
MORE = {"Graph": [("ab", "bc", "aa", "ac"), ("ab", "ac", "bc", "cc")], "DiGraph": [("ab", "ba", "bb", "bc")], "MultiGraph": [("ab", "ab", "ab", "bc"), ("aa", "aa", "ab", "bc")],
        "MultiDiGraph": [("ab", "ab", "ba", "ba"), ("aa", "aa", "ab", "ba")]}


@harness("C28", quick=[dict(kind=k, pairs=p) for k in KINDS for p in EDGES[k]], thorough=[dict(kind=k, pairs=p) for k in KINDS for p in MORE[k]],
         bounds="graphs of all four kinds with 3 nodes and 3 (thorough 4) edges, loops and parallel edges included, weights any of 0 to 4 or missing, any bounds of -1 to 5")
def drop_edges(c, kind, pairs):
    """Exactly the edges with a weight within the bounds stay, with all they had."""
    g, rows = build(c, kind, pairs)
    which = c.pick("bounds", ["both", "min", "max", "none"])
    lo = c.i("lo", -1, 5) if which in ("both", "min") else -INF
    hi = c.i("hi", -1, 5) if which in ("both", "max") else INF
    loops, ignore = c.truth(c.b("loops")), c.truth(c.b("ignore"))
    kw = {}
    if which in ("both", "min"):
        kw["minWeight"] = lo
    if which in ("both", "max"):
        kw["maxWeight"] = hi
    err = c.raises(c.mk.dropEdges, g, ignoreUnweighted=ignore, dropSelfLoops=loops, **kw)
    left = [r for r in rows if not (loops and r[0] == r[1])]
    if which != "none" and not ignore and any(r[3] is None for r in left):
        c.check(isinstance(err, KeyError), "an edge without a weight", err)
        return
    c.check(err is None, "no error", err)
    keep = [r for r in left if r[3] is None or which == "none" or c.truth(c.all_([r[3] >= lo if which in ("both", "min") else True, r[3] <= hi if which in ("both", "max") else True]))]
    same_edges(c, g, keep, "edges")
    c.check(sorted(g.nodes(data="label")) == [("a", "na"), ("b", "nb"), ("c", "nc")], "all nodes stay", sorted(g.nodes()))


@harness("C28", quick=[dict(kind=k, pairs=p, weight=w) for k in KINDS for p in EDGES[k] for w in (0, 1)], thorough=[dict(kind=k, pairs=p, weight=w) for k in KINDS for p in MORE[k] for w in (0, 1)],
         bounds="as for edges; the degree is the sum of the weights, or the number, of the edges touching the node")
def drop_by_degree(c, kind, pairs, weight):
    """Exactly the nodes with a degree within the bounds stay, and exactly the edges between them."""
    g, rows = build(c, kind, pairs, missing=bool(weight))
    lo, hi = c.i("lo", -1, 6), c.i("hi", -1, 9)
    include = c.truth(c.b("include")) if weight else True
    err = c.raises(c.mk.dropNodesByDegree, g, minDegree=lo, maxDegree=hi, useWeight=bool(weight), includeUnweighted=include)
    if not include and any(r[3] is None for r in rows):
        c.check(isinstance(err, KeyError), "an edge without a weight", err)
        return
    c.check(err is None, "no error", err)
    keep = []
    for n in "abc":
        d = c.total([(r[3] if weight and r[3] is not None else 1) for r in rows if n in (r[0], r[1])])
        if c.truth(c.all_([d >= lo, d <= hi])):
            keep.append(n)
    c.equal(sorted(g.nodes()), keep, "nodes")
    c.check(all(d["label"] == "n" + n for n, d in g.nodes(data=True)), "with their attributes")
    same_edges(c, g, [r for r in rows if r[0] in keep and r[1] in keep], "edges")


@harness("C28", quick=[dict(kind=k, pairs=EDGES[k][0], n=2) for k in KINDS], thorough=[dict(kind=k, pairs=p, n=3) for k in KINDS for p in MORE[k]],
         bounds="graphs with 3 nodes, counts of 2 (thorough all) any of 0 to 4 or missing, any bounds of -1 to 5")
def drop_by_count(c, kind, pairs, n):
    """Exactly the nodes with a count within the bounds stay, and exactly the edges between them."""
    g, rows = build(c, kind, pairs, missing=False)
    name = c.pick("name", ["count", "other"])
    counts = {}
    for i, x in enumerate("abc"):
        if i < n and c.truth(c.b("count_missing" + x)):
            counts[x] = None
        else:
            counts[x] = c.i("count" + x, 0, 4) if i < n else 2
            g.nodes[x][name] = counts[x]
    lo, hi = c.i("lo", -1, 5), c.i("hi", -1, 5)
    ignore = c.truth(c.b("ignore"))
    err = c.raises(c.mk.dropNodesByCount, g, minCount=lo, maxCount=hi, parameterName=name, ignoreMissing=ignore)
    if not ignore and any(v is None for v in counts.values()):
        c.check(isinstance(err, KeyError), "a node without a count", err)
        return
    c.check(err is None, "no error", err)
    keep = [x for x in "abc" if counts[x] is None or c.truth(c.all_([counts[x] >= lo, counts[x] <= hi]))]
    c.equal(sorted(g.nodes()), keep, "nodes")
    same_edges(c, g, [r for r in rows if r[0] in keep and r[1] in keep], "edges")


# ------------------------------------------------------------ C29

def counted(c, p, kind, n, m, gaps=1):
    """a graph with n free nodes with counts, and m free edges with weights between them; its nodes and edges"""
    g = new(kind)
    nodes, edges = Count(c), Pairs(c, kind == "DiGraph")
    names = []
    for i in range(n):
        x = c.s("%s.n%d" % (p, i), ["abc"])
        for y in names:
            c.assume(c.not_(c.eq(x, y)))
        names.append(x)
        f = {"by": p}
        if i >= gaps or not c.truth(c.b("%s.nocount%d" % (p, i))):
            f["count"] = c.i("%s.count%d" % (p, i), 0, 5)
        g.add_node(x, **f)
        nodes.set(x, f)
    for j in range(m):
        u, v = c.pick("%s.e%d" % (p, j), [(a, b) for a in range(n) for b in range(n)])
        u, v = names[u], names[v]
        if edges.find((u, v)) is not None:
            continue
        f = {"by": p}
        if not c.truth(c.b("%s.noweight%d" % (p, j))):
            f["weight"] = c.i("%s.weight%d" % (p, j), 0, 5)
        g.add_edge(u, v, **f)
        edges.set((u, v), f)
    return g, nodes, edges


def merged(c, a, b, attr, mine):
    """(expected attributes that are specified, [attributes left open])"""
    if a is None:
        return dict(b)
    out = dict(a)
    if attr and attr in a and attr in b:
        out[attr] = a[attr] + b[attr]
    elif attr and attr in b:
        out[attr] = b[attr]
    return out


@harness("C29", quick=[dict(kind=k, t=t, a=a) for k in ("Graph", "DiGraph") for t, a in (((1, 0), (2, 1)), ((2, 1), (1, 1)), ((0, 0), (1, 1)))] + [dict(kind=k, t=(2, 1), a=(2, 1), gaps=0) for k in ("Graph", "DiGraph")],
         thorough=[dict(kind=k, t=t, a=a, gaps=2) for k in ("Graph", "DiGraph") for t, a in (((2, 1), (2, 1)), ((2, 2), (2, 1)), ((2, 1), (2, 2)), ((3, 1), (2, 1)), ((2, 1), (3, 1)))],
         bounds="two graphs of up to 2 (thorough 3) free nodes and one (thorough 2) free edges, counts and weights of 0 to 5 or missing")
def merge(c, kind, t, a, gaps=1):
    """The first graph has the nodes and edges of both; counts and weights of common ones are added, other attributes stay."""
    T, tn, te = counted(c, "t", kind, *t, gaps=gaps)
    A, an, ae = counted(c, "a", kind, *a, gaps=gaps)
    names = c.pick("names", [("count", "weight"), (None, None)])
    c.mk.mergeGraphs(T, A, incrementedNodeVal=names[0], incrementedEdgeVal=names[1])
    for g, na, nb, ea, eb, msg in ((T, tn, an, te, ae, "merged"), (A, an, Count(c), ae, Pairs(c), "the added graph is as it was")):
        want = c.distinct(na.keys() + nb.keys())
        c.same_items(list(g.nodes()), want, msg + ": nodes")
        for x, d in g.nodes(data=True):
            e = merged(c, na.get(x, None), nb.get(x, {}), names[0], "t")
            for k in ("by", "count"):
                if k in e:
                    c.check(k in d and c.truth(c.eq(d[k], e[k])), msg + ": node " + k, d.get(k), e[k])
                elif names[0] or msg != "merged" or na.find(x) is None or nb.find(x) is None:
                    c.check(k not in d, msg + ": node has no " + k, d.get(k))
        ge = list(g.edges(data=True))
        allp = Pairs(c, kind == "DiGraph")
        for k in ea.keys() + eb.keys():
            allp.set(k, 1)
        c.equal(len(ge), len(allp), msg + ": number of edges")
        for u, v, d in ge:
            c.check(allp.find((u, v)) is not None, msg + ": an edge of one of them", (u, v))
            e = merged(c, ea.get((u, v), None), eb.get((u, v), {}), names[1], "t")
            for k in ("by", "weight"):
                if k in e:
                    c.check(k in d and c.truth(c.eq(d[k], e[k])), msg + ": edge " + k, d.get(k), e[k])
                elif names[1] or msg != "merged" or ea.find((u, v)) is None or eb.find((u, v)) is None:
                    c.check(k not in d, msg + ": edge has no " + k, d.get(k))
    for x in list(T.nodes()):
        T.nodes[x]["new"] = 1
    for u, v in list(T.edges()):
        T.edges[u, v]["new"] = 1
    c.check(all("new" not in d for _, d in A.nodes(data=True)) and all("new" not in d for _, _, d in A.edges(data=True)), "they share no attributes")


# ------------------------------------------------------------ C30

TEXT = 'a", \n\r'


@harness("C30", quick=[dict(kind=k, n=2, m=1, how=h) for k in ("Graph", "DiGraph") for h in ("", "attrs", "noinfo")] + [dict(kind="Graph", n=0, m=0, how=""), dict(kind="DiGraph", n=2, m=0, how="attrs")],
         thorough=[dict(kind=k, n=n, m=m, how=h, free=3) for k in ("Graph", "DiGraph") for h in ("", "attrs", "noinfo") for n, m in ((2, 1), (3, 2))],
         bounds="graphs of up to 2 (thorough 3) nodes with free names (quotes, commas, spaces and line ends included) and up to 1 (thorough 2) edges, free or missing attributes of text or number")
def round_trip(c, kind, n, m, how, free=1):
    """Reading the written files gives the same nodes, edges and attributes, as text and blank where missing."""
    g = new(kind)
    names, nodes, edges = [], Count(c), Pairs(c, kind == "DiGraph")
    cols = set()
    for i in range(n):
        x = (c.s("n%d" % i, [TEXT]) if i < free else "n,") + "%d" % i
        names.append(x)
        f = {}
        if how == "attrs":
            if c.truth(c.b("has%d" % i)):
                f["info"] = c.s("info%d" % i, [TEXT]) if i < free else 'x"' 
                cols.add("info")
            f["count"] = c.i("count%d" % i, -1, 12) if i < free else 7
            cols.add("count")
        g.add_node(x, **f)
        nodes.set(x, f)
    ecols = set()
    for j in range(m):
        u, v = c.pick("e%d" % j, [(a, b) for a in range(n) for b in range(n)])
        u, v = names[u], names[v]
        if edges.find((u, v)) is not None:
            continue
        f = {}
        if how in ("attrs", "noinfo"):
            f["weight"] = c.i("w%d" % j, 0, 12)
            if c.truth(c.b("ehas%d" % j)):
                f["tag"] = c.s("tag%d" % j, [TEXT]) if j + 1 < free or how == "noinfo" else "t\r\n"
        if how != "noinfo":
            ecols |= set(f)
        g.add_edge(u, v, **f)
        edges.set((u, v), f if how != "noinfo" else {})
    base = c.tmp() + "/g"
    c.mk.writeGraph(g, base, edgeInfo=how != "noinfo")
    h = c.mk.readGraph(base + "_edgeList.csv", base + "_nodeAttributes.csv", directed=kind == "DiGraph")
    c.check(h.is_directed() == (kind == "DiGraph") and not h.is_multigraph(), "kind of graph")
    c.same_items(list(h.nodes()), names, "nodes")
    for x, d in h.nodes(data=True):
        f = nodes.get(x)
        c.check(sorted(d) == sorted(cols), "node attributes", sorted(d), sorted(cols))
        for k in cols:
            c.check(c.eq(d[k], str(f[k]) if k in f else ""), "node " + k, d[k], f.get(k))
    c.equal(len(h.edges()), len(edges), "number of edges")
    for u, v, d in h.edges(data=True):
        c.check(edges.find((u, v)) is not None, "an edge of the graph", (u, v))
        f = edges.get((u, v))
        c.check(sorted(d) == sorted(ecols), "edge attributes", sorted(d), sorted(ecols))
        for k in ecols:
            c.check(c.eq(d[k], str(f[k]) if k in f else ""), "edge " + k, d[k], f.get(k))
    only = c.mk.readGraph(base + "_edgeList.csv", directed=kind == "DiGraph")
    c.equal(len(only.edges()), len(edges), "edges without the node file")
    # the graph itself is left alone
    c.same_items(list(g.nodes()), names, "nodes stay")
    for x, d in g.nodes(data=True):
        c.check(sorted(d) == sorted(nodes.get(x)), "attributes stay", sorted(d))
    for u, v, d in g.edges(data=True):
        c.check("Source" not in d and "Target" not in d, "edge attributes stay")


@harness("C30", quick=[dict(kind=k) for k in KINDS], bounds="every option for names, and every combination of files that are there already")
def written_files(c, kind):
    """The files are named as documented, never overwritten unless allowed, and hold a row per node and edge."""
    import os
    g, rows = build(c, kind, ("ab", "ab", "bc") if "Multi" in kind else ("ab", "bc", "ca"), missing=False, extra=False)
    typing, suffix = c.truth(c.b("typing")), c.pick("suffix", ["csv", "txt"])
    d = c.tmp() + "/out"
    os.mkdir(d)
    t = ("_directed" if "Di" in kind else "_undirected") if typing else ""
    e, n = "g_edgeList%s.%s" % (t, suffix), "g_nodeAttributes%s.%s" % (t, suffix)
    over = c.truth(c.b("overwrite"))
    info = over or c.truth(c.b("info"))
    there = [f for f in (e, n) if c.truth(c.b("there" + f[2]))]
    for f in there:
        c.put("out/" + f, "old")
    err = c.raises(c.mk.writeGraph, g, d + "/g", typing=typing, suffix=suffix, overwrite=over, edgeInfo=info)
    if there and not over:
        c.check(isinstance(err, OSError), "refused", err)
        for f in there:
            c.equal(c.text(d + "/" + f), "old", "left as it was")
        return
    c.check(err is None, "written", err)
    c.equal(sorted(os.listdir(d)), sorted([e, n]), "files")
    got = c.text(d + "/" + e).split("\r\n")[:-1]
    c.equal(got[0], '"Source","Target"' + (',"weight"' if info else ""), "header")
    und = "Di" not in kind
    want = []
    for u, v, k, w, i in rows:
        comma, w = ("," if info else ""), (w if info else "")
        want.append(('"%s","%s"%s' % (u, v, comma), '"%s","%s"%s' % (v, u, comma) if und else None, w))
    c.equal(len(got) - 1, len(rows), "a row per edge")
    for r in got[1:]:
        hit = [x for x in want if c.truth(c.any_([c.eq(r, y + str(x[2])) for y in x[:2] if y])) ]
        c.check(hit, "a row of an edge", r)
        want.remove(hit[0])
    c.equal(c.text(d + "/" + n), '"ID","label"\r\n' + "".join('"%s","n%s"\r\n' % (x, x) for x in "abc"), "nodes")


@harness("C30", quick=[dict(kind=k, n=2) for k in KINDS], thorough=[dict(kind=k, n=3) for k in KINDS], bounds="graphs of up to 2 (thorough 3) nodes and a free number of edges, none included, written over files of other graphs; 1 to 12 attributes")
def over_others(c, kind, n):
    """A file holds the graph written last, whatever it held before; all the attributes are in it."""
    d = c.tmp()
    big = new(kind)
    for i in range(5):
        big.add_edge("old%d" % i, "old%d" % (i + 1), old=i)
    k = c.pick("attributes", [1, 2, 11, 12])
    ats = ["t%d" % i for i in range(k)]
    size = c.pick("nodes", list(range(n + 1)))
    m = c.pick("edges", list(range(size + 1))) if size else 0
    g = new(kind)
    for i in range(size):
        g.add_node("x%d" % i, **{a: c.i("v%d" % i, 0, 9) for a in ats})
    for i in range(m):
        g.add_edge("x%d" % i, "x%d" % ((i + 1) % size), **{a: c.i("e%d" % i, 0, 9) for a in ats})
    m = len(g.edges())
    same = c.truth(c.b("same"))
    how = c.pick("how", ["each", "both"])
    if how == "each":
        for h in (big, g):
            c.mk.writeEdgeList(h, d + "/g_edgeList.csv", allSameAttribute=same)
            c.mk.writeNodeAttributeFile(h, d + "/g_nodeAttributes.csv", allSameAttribute=same)
    else:
        for h in (big, g):
            c.mk.writeGraph(h, d + "/g", typing=False, overwrite=True, allSameAttribute=same)
    rows = lambda f: [x for x in c.text(d + "/" + f).replace("\r\n", "\n").split("\n") if x]
    e, v = rows("g_edgeList.csv"), rows("g_nodeAttributes.csv")
    c.check(len(e) == m + 1 and len(v) == size + 1, "a row for each", (len(e), len(v)), (m + 1, size + 1))
    c.check(not [x for x in e + v if "old" in x], "nothing of the other graph")
    for have, first, some in ((e, ["Source", "Target"], m), (v, ["ID"], size)):
        c.check(sorted(x.strip('"') for x in have[0].split(",")) == sorted(first + (ats if some else [])), "header", have[0])
    for i in range(size):
        c.check(c.any_([c.eq(x, '"x%d"' % i + (",%d" % c.i("v%d" % i, 0, 9)) * k) for x in v[1:]]), "a row of node %d" % i, v[1:])


@harness("C30", quick=[dict(what=w) for w in ("edges", "nodes")], bounds="3 nodes or edges, each with or without an attribute")
def all_same(c, what):
    """Asking for the same attributes everywhere refuses graphs that do not have them."""
    import networkx as nx
    g = nx.Graph()
    has = []
    for i, x in enumerate("abc"):
        h = c.truth(c.b("has%d" % i))
        has.append(h)
        f = {"x": 1} if h else {}
        if what == "nodes":
            g.add_node(x, **f)
        else:
            g.add_edge(x, "d", **f)
    f = c.tmp() + "/f.csv"
    err = c.raises(c.mk.writeNodeAttributeFile if what == "nodes" else c.mk.writeEdgeList, g, f, allSameAttribute=True)
    c.equal(err is None, len(set(has)) == 1, "refused or not")


# ------------------------------------------------------------ C31

@harness("C31", quick=[dict(kind=k, pairs=p) for k in KINDS for p in EDGES[k]], thorough=[dict(kind=k, pairs=p) for k in KINDS for p in MORE[k]],
         bounds="graphs of all four kinds with 3 nodes and 3 (thorough 4) edges, weights of 0 to 4 or missing")
def degrees(c, kind, pairs):
    """Degrees are sums of weights over the edges at each end; the distribution counts them."""
    g, rows = build(c, kind, pairs)
    how = c.pick("how", ["bi", "in", "out"] if "Di" in kind else ["bi"])
    use = c.pick("weight", ["weight", False])
    strict = c.truth(c.b("strict"))
    kw = dict(weightString=use, strictMode=strict, edgeType=how)
    got, err = c.attempt(c.mk.graphHelpers.getNodeDegrees, g, **kw)
    dist, derr = c.attempt(c.mk.graphHelpers.getDegreeDistribution, g, weightParameter=use, strictWeightNames=strict, directionalType=how)
    if use and strict and any(r[3] is None for r in rows):
        c.check(isinstance(err, KeyError) and isinstance(derr, KeyError), "an edge without a weight", err)
        return
    c.check(err is None and derr is None, "no error", err or derr)
    want = {}
    for n in "abc":
        want[n] = c.total([0] + [(r[3] if use and r[3] is not None else 1) for r in rows for end, on in ((r[0], how in ("bi", "out")), (r[1], how in ("bi", "in"))) if on and end == n])
    c.check(sorted(got) == list("abc"), "nodes", sorted(got))
    for n in "abc":
        c.equal(got[n], want[n], "degree")
    top = 0
    for n in "abc":
        if c.truth(want[n] > top):
            top = want[n]
    c.equal(len(dist), top + 1, "up to the highest degree")
    for i, k in enumerate(dist):
        c.equal(k, sum(1 for n in "abc" if c.truth(c.eq(want[n], i))), "nodes of degree")
    c.check(isinstance(c.raises(c.mk.graphHelpers.getNodeDegrees, g, edgeType="x"), ValueError), "unknown way")
    c.check(list(c.mk.graphHelpers.getDegreeDistribution(new(kind))) == [0], "an empty graph")


@harness("C31", quick=[dict(kind=k, n=3) for k in ("Graph", "DiGraph")], thorough=[dict(kind="Graph", n=4), dict(kind="DiGraph", n=3)],
         bounds="every graph on 3 (thorough 4) nodes, with a loop or not")
def stats(c, kind, n):
    """Numbers of nodes, edges, isolates and loops, density and transitivity, in the order and form asked for."""
    g = new(kind)
    nodes = "abcd"[:n]
    g.add_nodes_from(nodes)
    es = []
    for i, u in enumerate(nodes):
        for j, v in enumerate(nodes):
            if (i < j or (kind == "DiGraph" and j < i and u == "b") or (i == j == 0)) and c.truth(c.b("e" + u + v)):
                g.add_edge(u, v)
                es.append((u, v))
    import networkx as nx
    m = len(es)
    touched = set(x for e in es for x in e)
    loops = sum(1 for u, v in es if u == v)
    dens = (m if kind == "DiGraph" else 2 * m) / (n * (n - 1))
    if kind == "Graph":
        tri, triads = 0, 0
        nb = {x: set(y for y in nodes if y != x and ((x, y) in es or (y, x) in es)) for x in nodes}
        for x in nodes:
            k = len(nb[x])
            triads += k * (k - 1)
            tri += sum(1 for y in nb[x] for z in nb[x] if z in nb[y])
        tr = tri / triads if tri else 0
    else:
        tr = nx.transitivity(g)
    want = dict(nodes=n, edges=m, isolates=n - len(touched), loops=loops, density=dens, transitivity=tr)
    asked = c.pick("stats", [("nodes", "edges", "isolates", "loops", "density", "transitivity"), ("edges", "loops", "edges"), ["isolates"], ()])
    got = c.mk.graphStats(g, stats=asked, makeString=False)
    c.check(isinstance(got, tuple) and len(got) == len(asked), "one per stat", got)
    for k, v in zip(asked, got):
        c.check(abs(v - want[k]) < 1e-9, k, v, want[k])
    text = dict(nodes="Nodes: %s", edges="Edges: %s", isolates="Isolates: %s", loops="Self loops: %s", density="Density: %s", transitivity="Transitivity: %s")
    sent = dict(nodes="%s nodes", edges="%s edges", isolates="%s isolates", loops="%s self loops", density="a density of %s", transitivity="a transitivity of %s")
    order = [k for k in ("nodes", "edges", "isolates", "loops", "density", "transitivity") if k in asked]
    show = lambda k: "{:G}".format(want[k])
    c.equal(c.mk.graphStats(g, stats=asked), "\n".join(text[k] % show(k) for k in order), "as lines")
    s = [sent[k] % show(k) for k in order]
    c.equal(c.mk.graphStats(g, stats=asked, sentenceString=True), "The graph has " + (", ".join(s[:-1]) + " and " if len(s) > 1 else "") + (s[-1] if s else ""), "as a sentence")
    c.check(isinstance(c.raises(c.mk.graphStats, g, stats=("x",)), RuntimeError), "unknown stat")


@harness("C31", quick=[dict(kind=k, time=t) for k in KINDS for t in (0, 1)], thorough=[dict(kind=k, time=t, m=3) for k in KINDS for t in (0, 1)],
         bounds="4 nodes of free modes, 2 (thorough 3) edges between free ends, free weights; every option")
def tnet(c, kind, time, m=2):
    """Every edge is a line from the first mode to the second with the ids given to the nodes; other networks are refused."""
    g = new(kind)
    modes = {}
    for i, x in enumerate("abcd"):
        modes[x] = c.pick("mode" + x, ["A", "B"]) if i in (0, 3) else "AB"[i - 1]
        g.add_node(x, kind=modes[x])
    es = []
    for j in range(m):
        u, v = c.pick("e%d" % j, [("a", "c"), ("c", "b"), ("b", "d"), ("d", "c"), ("a", "b")])
        if not g.is_multigraph() and ((u, v) in [e[:2] for e in es] or (not g.is_directed() and (v, u) in [e[:2] for e in es])):
            continue
        w = c.i("w%d" % j, 0, 9)
        t = "t%d" % j
        if g.is_multigraph() and not c.truth(c.b("attr%d" % j)):
            g.add_edge(u, v, key=t, weight=w)
        elif g.is_multigraph():
            g.add_edge(u, v, when=t, weight=w)
        else:
            g.add_edge(u, v, when=t, weight=w)
        es.append((u, v, w, t))
    f = c.tmp() + "/t.txt"
    weighted = c.truth(c.b("weighted"))
    src = c.pick("source", [None, "A", "B"])
    err = c.raises(c.mk.writeTnetFile, g, f, "kind", weighted=weighted, sourceMode=src, timeString="when" if time else None)
    if any(modes[u] == modes[v] for u, v, _, _ in es):
        c.check(isinstance(err, c.mk.RCValueError), "refused", err)
        return
    c.check(err is None, "written", err)
    ids = {x: d["tnet-ID"] for x, d in g.nodes(data=True)}
    c.check(sorted(ids.values()) == [1, 2, 3, 4], "ids", ids)
    got = c.text(f).split("\n")[:-1]
    wants = []
    for first in ([src] if src else ["A", "B"]):
        want = []
        for u, v, w, t in es:
            if modes[u] != first:
                u, v = v, u
            s = "%s%d %d" % ('"%s" ' % t if time else "", ids[u], ids[v])
            want.append(s + (" " + str(w) if weighted else ""))
        wants.append(want)

    def fits(want):
        rest = list(want)
        for x in got:
            for y in rest:
                if c.truth(c.eq(x, y)):
                    rest.remove(y)
                    break
            else:
                return False
        return not rest
    c.check(any(fits(w) for w in wants), "lines", got, wants)


@harness("C31", quick=[dict(n=n) for n in (1, 2, 3)], bounds="up to 3 nodes of one, two or three modes or none")
def tnet_modes(c, n):
    """Networks without exactly two modes are refused."""
    g = new("Graph")
    seen = []
    for x in "abc"[:n]:
        k = c.pick("mode" + x, ["A", "B", "C", None])
        g.add_node(x, **({"kind": k} if k else {}))
        seen.append(k)
    err = c.raises(c.mk.writeTnetFile, g, c.tmp() + "/t.txt", "kind")
    ok = len(set(seen)) == 2 and None not in seen
    c.equal(err is None, ok, "two modes")
    c.check(ok or isinstance(err, c.mk.RCValueError), "the error", err)


@harness("C28", quick=[dict(kind=k) for k in KINDS], bounds="graphs of all four kinds with 3 nodes and 3 edges, another weight of a half, one and a half, 2 or missing, bounds that are whole or not")
def drop_other_weight(c, kind):
    """The weight and count are those of the name given, whole numbers or not, and given limits on one side only."""
    g = new(kind)
    for n in "abc":
        g.add_node(n, label="n" + n, size=c.pick("size" + n, [0.5, 2]))
    rows = []
    for i, (u, v) in enumerate(EDGES[kind][0]):
        w = c.pick("w%d" % i, [0.5, 1.5, 2, None]) if i < 2 else 1.5
        f = dict(i=i, weight=9)
        if w is not None:
            f["cost"] = w
        if "Multi" in kind:
            g.add_edge(u, v, key="k%d" % i, **f)
        else:
            g.add_edge(u, v, **f)
        rows.append((u, v, "k%d" % i if "Multi" in kind else None, 9, i, w))
    what = c.pick("what", ["edges", "degree", "count"])
    bound = c.pick("bound", [1.5, 2, 0])
    side = c.pick("side", ["min", "max"])
    ok = (lambda x: x >= bound) if side == "min" else (lambda x: x <= bound)
    if what == "edges":
        c.mk.dropEdges(g, parameterName="cost", ignoreUnweighted=True, **{side + "Weight": bound})
        same_edges(c, g, [r[:5] for r in rows if r[5] is None or ok(r[5])], "edges")
        return
    if what == "degree":
        c.mk.dropNodesByDegree(g, parameterName="cost", **{side + "Degree": bound})
        deg = lambda n: sum(1 if r[5] is None else r[5] for r in rows if n in r[:2])
        keep = [n for n in "abc" if ok(deg(n))]
    else:
        sizes = dict(g.nodes(data="size"))
        c.mk.dropNodesByCount(g, parameterName="size", **{side + "Count": bound})
        keep = [n for n in "abc" if ok(sizes[n])]
    c.equal(sorted(g.nodes()), keep, "nodes")
    same_edges(c, g, [r[:5] for r in rows if r[0] in keep and r[1] in keep], "edges")


@harness("C29", quick=[dict(kind=k) for k in ("Graph", "DiGraph")], bounds="two graphs with one common node and edge, with counts of two names of 0 to 5 or missing, every choice of what is added up")
def merge_names(c, kind):
    """What is added up is the attribute of the name given, for nodes and for edges alike."""
    def make(p):
        g = new(kind)
        nd = {k: c.i(p + k, 0, 5) for k in ("count", "size") if not (k == "size" and c.truth(c.b(p + "no" + k)))}
        ed = {k: c.i(p + k, 0, 5) for k in ("weight", "cost") if not (k == "cost" and c.truth(c.b(p + "no" + k)))}
        g.add_node("a", **nd)
        g.add_edge("a", p, **ed)
        g.add_edge("a", "z", **ed)
        return g, nd, ed
    T, tn, te = make("t")
    A, an, ae = make("u")
    nv, ev = c.pick("node", ["count", "size", None]), c.pick("edge", ["weight", "cost", None])
    c.mk.mergeGraphs(T, A, incrementedNodeVal=nv, incrementedEdgeVal=ev)
    c.equal(sorted(T.nodes()), ["a", "t", "u", "z"], "nodes")
    c.equal(sorted(T.edges()) if kind == "DiGraph" else len(T.edges()), [("a", "t"), ("a", "u"), ("a", "z")] if kind == "DiGraph" else 3, "edges")

    def common(t, a, which):
        out = dict(t)
        if which and which in a:
            out[which] = t[which] + a[which] if which in t else a[which]
        return out
    for d, t, a, which, msg in ((T.nodes["a"], tn, an, nv, "node"), (T.edges["a", "z"], te, ae, ev, "edge")):
        for k, v in common(t, a, which).items():
            c.check(k in d and c.truth(c.eq(d[k], v)), msg + " " + k, d.get(k), v)
    for k, v in ae.items():
        c.check(c.eq(T.edges["a", "u"][k], v) and c.eq(A.edges["a", "u"][k], v) and c.eq(A.edges["a", "z"][k], v), "the added edge has its own", T.edges["a", "u"])
    for k, v in te.items():
        c.check(c.eq(T.edges["a", "t"][k], v), "the other edge stays", T.edges["a", "t"])
    for k, v in an.items():
        c.check(c.eq(A.nodes["a"][k], v), "the added node stays", A.nodes["a"])


@harness("C29", quick=[dict(kind=k, t=t, a=a) for k in ("MultiGraph", "MultiDiGraph") for t, a in ((("ab0",), ("ab0", "ab1")), (("ab0", "ab1"), ("ba0",)), (("aa0",), ("aa0", "aa1")))],
         thorough=[dict(kind=k, t=t, a=a) for k in ("MultiGraph", "MultiDiGraph") for t, a in ((("ab0", "ab1", "bc0"), ("ab1", "ba1", "ac0")), (("aa0", "ab1"), ("aa1", "aa0", "ba0")))],
         bounds="two multigraphs with up to two (thorough three) edges, parallel ones and loops included, weights of 0 to 5 or missing")
def merge_multi(c, kind, t, a):
    """In multigraphs the common edges are those with the same ends and key, which no other edge takes."""
    directed = kind == "MultiDiGraph"

    def make(p, edges):
        g, rows = new(kind), {}
        for i, (u, v, k) in enumerate(edges):
            f = {"by": p + str(i)}
            if not c.truth(c.b("%s.noweight%d" % (p, i))):
                f["weight"] = c.i("%s.weight%d" % (p, i), 0, 5)
            g.add_edge(u, v, key=k, **f)
            rows[(u, v) if directed else tuple(sorted((u, v))), k] = f
        return g, rows
    T, te = make("t", t)
    A, ae = make("a", a)
    name = c.pick("name", ["weight", None])
    c.mk.mergeGraphs(T, A, incrementedEdgeVal=name)
    for g, x, y, msg in ((T, te, ae, "merged"), (A, ae, {}, "the added graph is as it was")):
        left = {**y, **x}
        c.equal(len(list(g.edges())), len(left), msg + ": number of edges")
        for u, v, k, d in g.edges(keys=True, data=True):
            e = (u, v) if directed else tuple(sorted((u, v))), k
            c.check(e in left, msg + ": an edge of one of them", e)
            want = merged(c, x.get(e), y.get(e, {}), name, "t")
            c.equal(d["by"], want["by"], msg + ": edge by")
            if "weight" in want:
                c.check("weight" in d and c.truth(c.eq(d["weight"], want["weight"])), msg + ": edge weight", d.get("weight"), want["weight"])
            elif name or msg != "merged" or e not in y or e not in x:
                c.check("weight" not in d, msg + ": edge has no weight", d.get("weight"))


@harness("C30", quick=[dict(k=2, kind="Graph"), dict(k=1, kind="DiGraph")], thorough=[dict(k=4, kind=x) for x in ("Graph", "DiGraph")],
         bounds="a node name or attribute of 2 (thorough 4) free characters, or an odd column name, over printable ASCII, tab, form feed, U+0085, e acute and U+2028")
def any_text(c, k, kind):
    """Names of nodes and attributes, and their values, of any characters come back."""
    from harness.lib import TEXT as WIDE
    v = c.s("v", [WIDE, k])
    g = new(kind)
    where = c.pick("where", ["node", "value", "edge value", "column", "edge column"])
    n = v + "1" if where == "node" else "n"
    col = c.pick("column", ['a"b', "a,b", "a\nb", " a", "\u00e9", "a'"]) if "column" in where else "info"
    nd = {(col if where == "column" else "info"): v if where == "value" else "i"}
    ed = {(col if where == "edge column" else "info"): v if where == "edge value" else "i"}
    g.add_node(n, **nd)
    g.add_node("z", **nd)
    g.add_edge("z", n, **ed)
    base = c.tmp() + "/g"
    c.mk.writeGraph(g, base)
    h = c.mk.readGraph(base + "_edgeList.csv", base + "_nodeAttributes.csv", directed=kind == "DiGraph")
    c.same_items(list(h.nodes()), [n, "z"], "nodes")
    for x, d in h.nodes(data=True):
        c.same_map(d.items(), nd.items(), "attributes of nodes")
    es = list(h.edges(data=True))
    c.equal(len(es), 1, "edges")
    c.check(c.any_([c.eq(es[0][:2], ("z", n)), c.all_([kind == "Graph", c.eq(es[0][:2], (n, "z"))])]), "ends", es[0][:2])
    c.same_map(es[0][2].items(), ed.items(), "attributes of edges")


@harness("C30", quick=[dict(kind=k) for k in ("Graph", "DiGraph")], bounds="two edges and three nodes with one or two attributes each, of up to one free character, empty ones too")
def empty_values(c, kind):
    """Attributes come back if their value is empty, too."""
    g = new(kind)
    two = c.b("two")
    val = lambda x: "" if c.b(x + ".empty") else c.s(x, ["xy 0"])
    want = {}
    for x in ("a", "b", "c", "ab", "cb"):
        d = {"t": val(x)}
        if two:
            d["u"] = val(x + ".u") if x in ("a", "ab") else ""
        if len(x) == 1:
            g.add_node(x, **d)
        else:
            g.add_edge(x[0], x[1], **d)
        want[x] = d
    base = c.tmp() + "/g"
    c.mk.writeGraph(g, base)
    h = c.mk.readGraph(base + "_edgeList.csv", base + "_nodeAttributes.csv", directed=kind == "DiGraph")
    c.equal(sorted(h.nodes()), ["a", "b", "c"], "nodes")
    c.equal(len(h.edges()), 2, "edges")
    for x, d in want.items():
        c.same_map((h.nodes[x] if len(x) == 1 else h.edges[x[0], x[1]]).items(), d.items(), "attributes of " + x)


@harness("C30", quick=[dict(kind=k, info=i) for k in KINDS for i in (0, 1)], bounds="graphs of all four kinds, each list written on its own, under a plain name or one with a folder; read with other column names, in either order")
def each_file(c, kind, info):
    """Each list can be written alone, has a row per edge or node, parallel edges too, and is read by the names of its columns."""
    import os
    g, rows = build(c, kind, ("ab", "ab", "bc", "cc") if "Multi" in kind else ("ab", "bc", "cc"), missing=False, extra=False, hi=2)
    os.mkdir(c.tmp() + "/sub")
    os.chdir(c.tmp())
    e, n = c.pick("names", [("e.csv", "n.csv"), ("sub/e.csv", "sub/n.csv"), ("./e.txt", "sub/../n.csv")])
    c.mk.writeEdgeList(g, e, extraInfo=bool(info))
    c.mk.writeNodeAttributeFile(g, n)
    got = c.text(c.tmp() + "/" + e).split("\r\n")[:-1]
    c.equal(got[0], '"Source","Target"' + (',"weight"' if info else ""), "header")
    want = []
    for u, v, _, w, _ in rows:
        tail = ",%d" % w if info else ""
        want.append(['"%s","%s"%s' % (u, v, tail)] + ([] if "Di" in kind else ['"%s","%s"%s' % (v, u, tail)]))
    c.equal(len(got) - 1, len(want), "a row per edge")
    for r in got[1:]:
        hit = [x for x in want if c.truth(c.member(r, x))]
        c.check(hit, "a row of an edge", r)
        want.remove(hit[0])
    c.equal(c.text(c.tmp() + "/" + n), '"ID","label"\r\n' + "".join('"%s","n%s"\r\n' % (x, x) for x in "abc"), "nodes")
    if "Multi" not in kind:
        turn = c.truth(c.b("turned"))
        cells = lambda f: "".join(",".join(reversed(r.split(",")) if turn else r.split(",")) + "\r\n" for r in c.text(c.tmp() + "/" + f).split("\r\n")[:-1])
        a, b = c.put("in/e.csv", cells(e).replace("Source", "From").replace("Target", "To")), c.put("in/n.csv", cells(n).replace("ID", "Name"))
        h = c.mk.readGraph(a, b, directed=kind == "DiGraph", idKey="Name", eSource="From", eDest="To")
        c.equal(sorted(h.nodes(data="label")), [("a", "na"), ("b", "nb"), ("c", "nc")], "nodes read")
        c.equal(len(h.edges()), len(rows), "edges read")
        for u, v, _, w, _ in rows:
            c.check(h.has_edge(u, v), "edge read", (u, v))
            c.same_map(h.edges[u, v].items(), [("weight", str(w))] if info else [], "attributes read")
        p = c.mk.readGraph(a, directed=kind == "DiGraph", eSource="From", eDest="To")
        c.check(all(not d for _, d in p.nodes(data=True)), "no attributes of nodes without their file")


@harness("C31", quick=[dict(kind=k) for k in KINDS], bounds="graphs of all four kinds with a loop and parallel edges, a weight of another name, whole or not, or missing; as whole or fractional numbers")
def other_degrees(c, kind):
    """Degrees add the weight of the name given, as numbers of the type given; one weight is read likewise."""
    gh = c.mk.graphHelpers
    g, rows = build(c, kind, EDGES[kind][0], missing=False)
    costs = []
    for u, v, k, w, i in rows:
        d = g.edges[u, v, k] if "Multi" in kind else g.edges[u, v]
        x = c.pick("cost%d" % i, [0.5, 2, None]) if i < 2 else 2
        if x is not None:
            d["cost"] = x
        costs.append(x)
    ty = c.pick("type", [int, float])
    how = c.pick("how", ["bi", "in", "out"] if "Di" in kind else ["bi"])
    got = gh.getNodeDegrees(g, weightString="cost", returnType=ty, edgeType=how)
    for n in "abc":
        want = sum(ty(1 if x is None else x) for r, x in zip(rows, costs) for end, on in ((r[0], how in ("bi", "out")), (r[1], how in ("bi", "in"))) if on and end == n)
        c.check(got[n] == want and isinstance(got[n], ty), "degree", got[n], want)
    c.check(isinstance(c.raises(gh.getNodeDegrees, g, weightString="cost", strictMode=True), KeyError) == (None in costs), "strict")
    c.check(isinstance(c.raises(gh.getDegreeDistribution, g, weightType=float), ValueError), "distributions are of whole numbers")
    if "Multi" not in kind:
        u, v, _, w, _ = rows[0]
        c.equal(gh.getWeight(g, u, v), w, "weight")
        c.check(gh.getWeight(g, u, v, weightString=None) == 1 and gh.getWeight(g, u, v, weightString="", returnType=float) == 1.0, "no weight asked for")
        if costs[0] is not None:
            c.equal(gh.getWeight(g, u, v, weightString="cost", returnType=ty), ty(costs[0]), "other weight")


@harness("C31", quick=[dict(kind=k) for k in ("Graph", "MultiDiGraph")], bounds="three nodes of two modes, two edges, weights, ids and modes under any of several names")
def tnet_names(c, kind):
    """The names of the attributes for weights, ids and modes are those given."""
    w, ident, mode = c.pick("w", ["wa", "tnet-ID", "x y"]), c.pick("i", ["ib", "weight"]), c.pick("m", ["ma", "mode"])
    g = new(kind)
    for x in "abc":
        g.add_node(x, **{mode: x == "b", "kind": "same"})
    g.add_edge("a", "b", **{w: 5, "weight": 1})
    g.add_edge("b", "c", **{w: 7, "weight": 1})
    f = c.tmp() + "/t.txt"
    c.mk.writeTnetFile(g, f, mode, weighted=True, sourceMode=True, nodeIndexString=ident, weightString=w)
    ids = {x: d[ident] for x, d in g.nodes(data=True)}
    c.equal(sorted(ids.values()), [1, 2, 3], "ids")
    c.same_items(c.text(f).split("\n")[:-1], ["%d %d 5" % (ids["b"], ids["a"]), "%d %d 7" % (ids["b"], ids["c"])], "lines")
