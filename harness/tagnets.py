"""Networks made from the values of tags: one mode, n-level, two mode, n-mode."""
from vf.ctx import harness
from harness.lib import wos, rc, Count, Pairs, check_graph


def vals(c, name, n, alpha="abc"):
    return [c.s("%s%d" % (name, i), [alpha]) for i in range(n)]


def attr(on, name, v):
    return [(name, v)] if on else []


@harness("C22",
         quick=[dict(sizes=s, nc=nc, ew=ew) for s in ((2, 2), (3, 1), (1, 0, 2)) for nc in (0, 1) for ew in (0, 1)]
               + [dict(sizes=s) for s in ((2, 2, 1), (3, 2), (4, 0), (1, 1, 1))],
         thorough=[dict(sizes=s, nc=nc, ew=ew) for s in ((3, 2), (3, 3), (4, 2), (2, 2, 2), (4, 1), (5,), (0, 3, 1))
                   for nc in (0, 1) for ew in (0, 1)],
         bounds="up to 3 records with up to 4 (thorough 5) author names each, names drawn from 3 values, repeats allowed")
def one_mode(c, sizes, nc=1, ew=1, tag="AF"):
    """Nodes are the values, counted once per occurrence; edges join values occurring together, weighted by how often."""
    recs, lists = [], []
    for i, n in enumerate(sizes):
        v = vals(c, "r%d.v" % i, n)
        lists.append(v)
        recs.append(wos(c, "WOS:%d" % i, **({"AF": v} if n else {})))
    g = rc(c, recs).networkOneMode(tag, nodeCount=bool(nc), edgeWeight=bool(ew))
    cn, ce = Count(c), Pairs(c)
    for v in lists:
        for i, a in enumerate(v):
            cn.add(a)
            for b in v[i + 1:]:
                ce.add((a, b))
    nodes, edges = Count(c), Pairs(c)
    nodes.rows = [[k, attr(nc, "count", v)] for k, v in cn.rows]
    edges.rows = [[k, attr(ew, "weight", v)] for k, v in ce.rows]
    check_graph(c, g, nodes, edges)


@harness("C22",
         quick=[dict(af=a, de=d) for a in ((1, 2), (2, 0)) for d in ((1, 1), (2, 0), (0, 0))],
         thorough=[dict(af=a, de=d) for a in ((1, 2), (2, 0), (2, 2), (3, 1)) for d in ((1, 1), (2, 0), (0, 2), (2, 2))],
         bounds="two records, two tags (list and single valued), up to 3 values each, plus a stemmer taking the first letter")
def n_level(c, af, de):
    recs, lists = [], []
    for i in range(2):
        a = [c.s("a%d.%d" % (i, j), ["ab"], ["xy"]) for j in range(af[i])]
        d = [c.s("d%d.%d" % (i, j), ["ab"], ["xy"]) for j in range(de[i])]
        f = {}
        if a:
            f["AF"] = a
        if d:
            f["SE" if len(d) == 1 else "BE"] = d
        recs.append(wos(c, "WOS:%d" % i, **f))
        lists.append(a + d)
    R = rc(c, recs)
    for stem in (False, True):
        g = R.networkMultiLevel("AF", "BE", "SE", stemmer=(lambda x: x[0]) if stem else None)
        cn, ce = Count(c), Pairs(c)
        for v in lists:
            v = [x[0] for x in v] if stem else v
            for i, a in enumerate(v):
                cn.add(a)
                for b in v[i + 1:]:
                    ce.add((a, b))
        nodes, edges = Count(c), Pairs(c)
        nodes.rows = [[k, [("count", v)]] for k, v in cn.rows]
        edges.rows = [[k, [("weight", v)]] for k, v in ce.rows]
        check_graph(c, g, nodes, edges, what="stemmed" if stem else "graph")


@harness("C22", quick=[dict(nk=k, ew=ew) for k in ((1, 1), (2, 1), (2, 0)) for ew in (0, 1)],
         thorough=[dict(nk=k, ew=ew, n=3) for k in ((1, 1), (2, 1), (2, 0), (2, 2)) for ew in (0, 1)],
         bounds="two records of 2 (3) names with up to 2 edge keys and node attribute values each")
def one_mode_attributes(c, nk, ew, n=2):
    recs, lists, keys = [], [], []
    for i in range(2):
        v = vals(c, "r%d.v" % i, n, "ab" if n == 3 else "abc")
        for x in range(n):
            for y in range(x):
                c.assume(c.not_(c.eq(v[x], v[y]))) if n == 2 else None
        k = vals(c, "r%d.k" % i, nk[i], "pq")
        if len(k) == 2:
            c.assume(c.not_(c.eq(k[0], k[1])))
        lists.append(v)
        keys.append(k)
        recs.append(wos(c, "WOS:%d" % i, AF=v, **({"BE": k} if k else {})))
    R = rc(c, recs)
    g = R.networkOneMode("AF", nodeCount=True, edgeWeight=bool(ew), edgeAttribute="BE")
    cn, ce = Count(c), Pairs(c)
    for v, ks in zip(lists, keys):
        for i, a in enumerate(v):
            cn.add(a)
            for b in v[i + 1:]:
                for k in ks:
                    ce.add((a, b, k))
    nodes, edges = Count(c), Pairs(c)
    nodes.rows = [[k, [("count", v)]] for k, v in cn.rows]
    edges.rows = [[k, attr(ew, "weight", v)] for k, v in ce.rows]
    check_graph(c, g, nodes, edges, multi=True, what="keyed edges")
    g = R.networkOneMode("AF", nodeAttribute="BE", edgeWeight=bool(ew))
    for nd, dat in g.nodes(data=True):
        want = []
        for v, ks in zip(lists, keys):
            if c.truth(c.member(nd, v)):
                want += ks
        c.same_items(dat["BE"], c.distinct(want), "node attribute values")


def build_two(c, sizes1, sizes2, alpha1="ab", alpha2="xy"):
    recs, l1, l2 = [], [], []
    for i, (n, m) in enumerate(zip(sizes1, sizes2)):
        a = vals(c, "r%d.a" % i, n, alpha1)
        b = vals(c, "r%d.b" % i, m, alpha2)
        l1.append(a)
        l2.append(b)
        f = {}
        if a:
            f["AF"] = a
        if b:
            f["BE"] = b
        recs.append(wos(c, "WOS:%d" % i, **f))
    return rc(c, recs), l1, l2


@harness("C23",
         quick=[dict(s1=a, s2=b, directed=d) for a, b in (((1, 2), (2, 1)), ((2, 1), (1, 0)), ((0, 2), (2, 1)), ((2, 2), (1, 1))) for d in (0, 1)]
               + [dict(s1=(1, 2), s2=(2, 1), nc=nc, ew=ew, ty=ty) for nc in (0, 1) for ew in (0, 1) for ty in (0, 1)]
               + [dict(s1=(2, 1), s2=(0, 1), nc=nc, ew=1, ty=ty) for nc in (0, 1) for ty in (0, 1)],
         thorough=[dict(s1=a, s2=b, directed=d, nc=nc, ew=ew) for a, b in (((2, 2), (2, 1)), ((2, 1, 1), (1, 0, 2)), ((0, 2), (2, 2)), ((3, 1), (1, 2)))
                   for d in (0, 1) for nc in (0, 1) for ew in (0, 1)],
         bounds="two or three records with up to 3 values of each of two tags with disjoint ranges of 2 values")
def two_mode(c, s1, s2, directed=0, nc=1, ew=1, ty=1):
    R, l1, l2 = build_two(c, s1, s2)
    g = R.networkTwoMode("AF", "BE", directed=bool(directed), recordType=bool(ty), nodeCount=bool(nc), edgeWeight=bool(ew))
    cn, ce = Count(c), Pairs(c, bool(directed))
    kind = {}
    for a, b in zip(l1, l2):
        for x in a:
            cn.add((x, "AF"))
            for y in b:
                ce.add((x, y))
        for y in b:
            cn.add((y, "BE"))
    nodes, edges = Count(c), Pairs(c, bool(directed))
    nodes.rows = [[k[0], attr(nc, "count", v) + attr(ty, "type", k[1])] for k, v in cn.rows]
    edges.rows = [[k, attr(ew, "weight", v)] for k, v in ce.rows]
    check_graph(c, g, nodes, edges, directed=bool(directed))


@harness("C23", quick=[dict(nk=(2, 1), ew=1), dict(nk=(1, 1), ew=0), dict(nk=(1, 0), ew=1, directed=1)],
         bounds="two records with 1-2 values of each tag and up to 2 edge keys each; stemmers taking the first letter")
def two_mode_attributes(c, nk, ew, directed=0):
    recs, edges, cn = [], Pairs(c, bool(directed)), Count(c)
    for i in range(2):
        a = [c.s("r%d.a%d" % (i, j), ["ab"], ["12"]) for j in range(2 - i)]
        b = [c.s("r%d.b" % i, ["xy"], ["12"])]
        k = vals(c, "r%d.k" % i, nk[i], "pq")
        if len(k) == 2:
            c.assume(c.not_(c.eq(k[0], k[1])))
        f = {"AF": a, "BE": b}
        if k:
            f["GP" if False else "C1x" if False else "BA"] = k
        recs.append(wos(c, "WOS:%d" % i, **f))
        for x in a:
            cn.add((x[0], "AF"))
            for y in b:
                for kk in k:
                    edges.add((x[0], y[0], kk))
        for y in b:
            cn.add((y[0], "BE"))
    g = rc(c, recs).networkTwoMode("AF", "BE", directed=bool(directed), edgeWeight=bool(ew), edgeAttribute="BA",
                                   stemmerTag1=lambda s: s[0], stemmerTag2=lambda s: s[0])
    nodes, e2 = Count(c), Pairs(c, bool(directed))
    nodes.rows = [[k[0], [("count", v), ("type", k[1])]] for k, v in cn.rows]
    e2.rows = [[k, attr(ew, "weight", v)] for k, v in edges.rows]
    check_graph(c, g, nodes, e2, directed=bool(directed), multi=True)


@harness("C23",
         quick=[dict(s=((1, 1, 1), (1, 0, 1)), nc=nc, ew=ew) for nc in (0, 1) for ew in (0, 1)] + [dict(s=((2, 1, 0), (0, 1, 2))), dict(s=((2, 0, 0), (1, 1, 0)))],
         thorough=[dict(s=s, nc=nc, ew=ew, ty=ty) for s in (((2, 1, 0), (0, 1, 2)), ((2, 2, 1), (1, 0, 1)), ((2, 0, 0), (1, 2, 1))) for nc in (0, 1) for ew in (0, 1) for ty in (0, 1)],
         bounds="two records, three tags with disjoint ranges of 2 values, up to 2 values per tag; a stemmer taking the first letter")
def n_mode(c, s, nc=1, ew=1, ty=1):
    """Edges only between values of different tags."""
    tags, alph = ("AF", "BE", "BA"), ("ab", "mn", "xy")
    recs, cn, ce = [], Count(c), Pairs(c)
    for i, sizes in enumerate(s):
        f, groups = {}, []
        for t, al, n in zip(tags, alph, sizes):
            v = [c.s("r%d.%s%d" % (i, t, j), [al], ["12"]) for j in range(n)]
            if v:
                f[t] = v
            groups.append([x[0] for x in v])
        recs.append(wos(c, "WOS:%d" % i, **f))
        for x, g1 in enumerate(groups):
            for a in g1:
                cn.add((a, tags[x]))
                for g2 in groups[x + 1:]:
                    for b in g2:
                        ce.add((a, b))
    R = rc(c, recs)
    g = R.networkMultiMode(*tags, recordType=bool(ty), nodeCount=bool(nc), edgeWeight=bool(ew), stemmer=lambda q: q[0])
    nodes, edges = Count(c), Pairs(c)
    nodes.rows = [[k[0], attr(nc, "count", v) + attr(ty, "type", k[1])] for k, v in cn.rows]
    edges.rows = [[k, attr(ew, "weight", v)] for k, v in ce.rows]
    check_graph(c, g, nodes, edges)


@harness("C23", quick=[dict(nk=(2, 1), ew=1), dict(nk=(1, 1), ew=0)], bounds="two records, two tags, up to 2 edge keys")
def n_mode_attributes(c, nk, ew):
    recs, ce, cn = [], Pairs(c), Count(c)
    for i in range(2):
        a, b = c.s("r%d.a" % i, ["ab"]), c.s("r%d.b" % i, ["xy"])
        k = vals(c, "r%d.k" % i, nk[i], "pq")
        if len(k) == 2:
            c.assume(c.not_(c.eq(k[0], k[1])))
        recs.append(wos(c, "WOS:%d" % i, AF=[a], BE=[b], BA=k))
        cn.add((a, "AF"))
        cn.add((b, "BE"))
        for kk in k:
            ce.add((a, b, kk))
    g = rc(c, recs).networkMultiMode("AF", "BE", edgeWeight=bool(ew), edgeAttribute="BA")
    nodes, edges = Count(c), Pairs(c)
    nodes.rows = [[k[0], [("count", v), ("type", k[1])]] for k, v in cn.rows]
    edges.rows = [[k, attr(ew, "weight", v)] for k, v in ce.rows]
    check_graph(c, g, nodes, edges, multi=True)


# ------------------------------------------------------------------ values of any characters, single and number valued tags
@harness("C22", quick=[dict(opt=o, nc=nc, ew=ew) for o in ("plain", "edge", "node", "stem") for nc in (0, 1) for ew in (0, 1) if (nc, ew) != (1, 1) or o == "plain"],
         bounds="three records: two values, one value and none of the tag; a year as the edge key, node attribute or second mode; 3 of any characters per name")
def one_mode_single(c, opt, nc, ew):
    """Single values and numbers count like lists of one; records without values give nothing."""
    recs, lists, years = [], [], []
    n = (2, 1, 0)
    for i in range(3):
        v = [c.s("r%d.v%d" % (i, j), ["aA, "], "x", ["12"]) for j in range(n[i])]
        y = c.i("y%d" % i, 1999, 2001) if i < 2 else 2001
        lists.append(v)
        years.append(y)
        recs.append(wos(c, "WOS:%d" % i, TI="T%d" % i, PY=str(y), **({"AF": v} if v else {})))
    R = rc(c, recs)
    k = dict(nodeCount=bool(nc), edgeWeight=bool(ew))
    if opt == "edge":
        k["edgeAttribute"] = "PY"
    elif opt == "node":
        k["nodeAttribute"] = "PY"
    elif opt == "stem":
        k["stemmer"] = lambda s: s[-1:]
        lists = [[x[-1] for x in v] for v in lists]
    g = R.networkOneMode("AF", **k)
    cn, ce = Count(c), Pairs(c)
    yrs = Count(c)
    for v, y in zip(lists, years):
        for i, a in enumerate(v):
            cn.add(a)
            r = yrs.find(a)
            if r is None:
                yrs.rows.append([a, [str(y)]])
            elif not c.truth(c.member(str(y), r[1])):
                r[1].append(str(y))
            for b in v[i + 1:]:
                ce.add((a, b, str(y)) if opt == "edge" else (a, b))
    nodes, edges = Count(c), Pairs(c)
    nodes.rows = [[x, attr(nc, "count", q) + ([("PY", yrs.get(x))] if opt == "node" else [])] for x, q in cn.rows]
    edges.rows = [[x, attr(ew, "weight", q)] for x, q in ce.rows]
    check_graph(c, g, nodes, edges, multi=opt == "edge")
    if opt == "plain":
        g = R.networkOneMode("year", **k)
        cn = Count(c)
        for y in years:
            cn.add(str(y))
        cn.rows = [[x, attr(nc, "count", q)] for x, q in cn.rows]
        check_graph(c, g, cn, Pairs(c), what="years")
        g = R.networkMultiLevel("AF", "year", **k)
        cn, ce = Count(c), Pairs(c)
        for v, y in zip(lists, years):
            v = v + [str(y)]
            for i, a in enumerate(v):
                cn.add(a)
                for b in v[i + 1:]:
                    ce.add((a, b))
        cn.rows = [[x, attr(nc, "count", q)] for x, q in cn.rows]
        ce.rows = [[x, attr(ew, "weight", q)] for x, q in ce.rows]
        check_graph(c, g, cn, ce, what="names and years")


@harness("C22", quick=[dict()], bounds="stemmers that are no functions")
def one_mode_refused(c):
    R = rc(c, [wos(c, "WOS:1", AF=["a", "b"])])
    for s in ("x", 1, []):
        e = c.raises(R.networkOneMode, "AF", stemmer=s)
        c.check(isinstance(e, c.mk.mkExceptions.TagError), "a stemmer that is no function is refused", e)


@harness("C23", quick=[dict(kind=k, nc=nc, ew=ew, ty=ty) for k in ("two", "twodir", "many", "list") for nc in (0, 1) for ew in (0, 1) for ty in (0, 1)],
         bounds="two records; up to two names and the title (a single value) or the year as the other tag, the names may be the title of their or the other record")
def modes_overlap(c, kind, nc, ew, ty):
    """One node per value also when it occurs in both tags, with the types of both; single values count as lists of one."""
    directed = kind == "twodir"
    recs, cn, ce = [], Count(c), Pairs(c, directed)
    for i in range(2):
        a = [c.s("r%d.a%d" % (i, j), ["xy"]) for j in range(2 - i)]
        t = c.s("r%d.t" % i, ["xz"])
        recs.append(wos(c, "WOS:%d" % i, AF=a, TI=t))
        for x in a:
            r = cn.find(x)
            cn.rows.append([x, [1, ["AF"]]]) if r is None else (r[1].__setitem__(0, r[1][0] + 1), r[1][1].append("AF"))
            ce.add((x, t))
        r = cn.find(t)
        cn.rows.append([t, [1, ["TI"]]]) if r is None else (r[1].__setitem__(0, r[1][0] + 1), r[1][1].append("TI"))
    R = rc(c, recs)
    k = dict(recordType=bool(ty), nodeCount=bool(nc), edgeWeight=bool(ew))
    if kind.startswith("two"):
        g = R.networkTwoMode("AF", "TI", directed=directed, **k)
    elif kind == "many":
        g = R.networkMultiMode("AF", "TI", **k)
    else:
        g = R.networkMultiMode(["AF", "TI"], **k)
    types = {}
    for n, d in g.nodes(data=True):
        if ty:
            r = cn.find(n)
            c.check(r is not None, "node is a value", n)
            c.check(d.get("type") in ("AF", "TI", "AFTI", "TIAF") and all(x in d["type"] for x in r[1][1]) and len(d["type"]) == 2 * len(set(r[1][1])),
                    "the node's types are the tags it occurs in", d, r[1])
            del d["type"]
    cn.rows = [[x, attr(nc, "count", q[0])] for x, q in cn.rows]
    ce.rows = [[x, attr(ew, "weight", q)] for x, q in ce.rows]
    check_graph(c, g, cn, ce, directed=directed)


@harness("C23", quick=[dict(kind=k, nc=nc, ew=ew) for k in ("two", "many") for nc in (0, 1) for ew in (0, 1)],
         bounds="two records with a journal, a year and up to two names, as modes, edge keys and stemmed values")
def modes_single(c, kind, nc, ew):
    """Years and journals as modes and as keys of the edges; stemmers see every value as text."""
    recs, cn, ce = [], Count(c), Pairs(c)
    seen = []

    def stem(s):
        seen.append(s)
        return s[-1:]
    for i in range(2):
        y = c.i("y%d" % i, 1999, 2001)
        b = c.s("b%d" % i, ["xy"], ["pq"])
        a = [c.s("r%d.a%d" % (i, j), ["mn"]) for j in range(i)]
        v = c.s("v%d" % i, ["34"]) if i else None
        recs.append(wos(c, "WOS:%d" % i, PY=str(y), TI=b, AF=a or None, VL=v))
        for z in [(str(y)[-1], "PY"), (b[-1], "TI")]:
            cn.add(z)
        if v is not None:
            ce.add((str(y)[-1], b[-1], v))
    R = rc(c, recs)
    k = dict(nodeCount=bool(nc), edgeWeight=bool(ew), edgeAttribute="VL")
    if kind == "two":
        g = R.networkTwoMode("PY", "TI", stemmerTag1=stem, stemmerTag2=stem, **k)
    else:
        g = R.networkMultiMode("PY", "TI", stemmer=stem, **k)
    c.check(all(isinstance(s, str) for s in seen), "stemmers are given text", seen)
    cn.rows = [[x[0], attr(nc, "count", q) + [("type", x[1])]] for x, q in cn.rows]
    ce.rows = [[x, attr(ew, "weight", q)] for x, q in ce.rows]
    check_graph(c, g, cn, ce, multi=True)
    if kind == "two":
        g = R.networkTwoMode("AF", "PY", nodeCount=bool(nc), edgeWeight=bool(ew))
    else:
        g = R.networkMultiMode("AF", "PY", nodeCount=bool(nc), edgeWeight=bool(ew))
    cn, ce = Count(c), Pairs(c)
    for i, r in enumerate(recs):
        y = str(r.get("year"))
        for a in (r.get("AF") or []):
            cn.add((a, "AF"))
            ce.add((a, y))
        cn.add((y, "PY"))
    cn.rows = [[x[0], attr(nc, "count", q) + [("type", x[1])]] for x, q in cn.rows]
    ce.rows = [[x, attr(ew, "weight", q)] for x, q in ce.rows]
    check_graph(c, g, cn, ce, what="names and years")


@harness("C23", quick=[dict()], bounds="tags and stemmers of other types")
def modes_refused(c):
    R = rc(c, [wos(c, "WOS:1", AF=["a", "b"], TI="t")])
    E = c.mk.mkExceptions.TagError
    for f, a, k in ((R.networkTwoMode, (1, "AF"), {}), (R.networkTwoMode, ("AF", None), {}), (R.networkTwoMode, ("AF", "TI"), dict(stemmerTag1="x")),
                    (R.networkTwoMode, ("AF", "TI"), dict(stemmerTag2=3)), (R.networkMultiMode, (1,), {}), (R.networkMultiMode, ("AF", 2), {}),
                    (R.networkMultiMode, ("AF", "TI"), dict(stemmer="x"))):
        c.check(isinstance(c.raises(f, *a, **k), E), "refused", a, k)


# ------------------------------------------------------------------ every option with every other
TAGS = ("AF", "BE", "TI", "SE")


def tagged(c, shape, alpha="ab"):
    """records with these numbers of values of AF, BE, TI and SE (the last two single); any value may be in any tag"""
    recs, held = [], []
    for i, sizes in enumerate(shape):
        h = {t: [c.s("r%d.%s%d" % (i, t, j), [alpha]) for j in range(n)] for t, n in zip(TAGS, sizes)}
        recs.append(wos(c, "WOS:%d" % i, **{t: v or None for t, v in h.items()}, BF=["k%d" % i, "k"] if i < 2 else None, VL="7" if i else None))
        h["BF"], h["VL"] = (["k%d" % i, "k"] if i < 2 else []), (["7"] if i else [])
        held.append(h)
    return recs, held


STEM = {"": None, "1": lambda s: s + "1", "2": lambda s: "2" + s, "id": lambda s: s}


def types_of(c, g, types, ty):
    """nodes are marked by the tags they occur in, each once, whatever the order"""
    for n, d in g.nodes(data=True):
        if not ty:
            c.check("type" not in d, "no type", d)
            continue
        r = types.find(n)
        c.check(r is not None, "node is a value", n)
        want = sorted(set(r[1]))
        c.check("type" in d and d["type"] in ["".join(p) for p in perms(want)], "the tags it occurs in", d, want)
        del d["type"]


def perms(x):
    return [[]] if not x else [[y] + p for i, y in enumerate(x) for p in perms(x[:i] + x[i + 1:])]


MODES = [(("AF", "BE"), ((1, 1, 0, 0), (1, 1, 0, 0), (1, 0, 0, 0))), (("AF", "TI"), ((2, 0, 1, 0), (1, 0, 1, 0))), (("TI", "SE"), ((0, 0, 1, 1), (0, 0, 1, 1), (0, 0, 1, 0))),
         (("AF", "AF"), ((2, 0, 0, 0), (1, 0, 0, 0))), (("SE", "BE"), ((0, 2, 0, 1), (0, 1, 0, 1))), (("TI", "TI"), ((0, 0, 1, 0), (0, 0, 1, 0)))]
ODD = [("", "", "", 0, 1, 1, 1), ("1", "", "", 0, 1, 1, 1), ("", "2", "BF", 0, 1, 1, 0), ("1", "2", "", 1, 0, 1, 1), ("", "1", "VL", 1, 1, 1, 1), ("", "", "BF", 1, 1, 0, 1), ("2", "1", "VL", 0, 0, 0, 1),
       ("", "", "", 1, 1, 0, 0), ("", "", "", 0, 0, 0, 1), ("1", "1", "BF", 1, 0, 1, 0)]


@harness("C23", quick=[dict(tags=t, shape=s, opt=o) for t, s in MODES for o in ODD], thorough=[dict(tags=t, shape=s, opt=(a, b, e, d, nc, ew, ty)) for t, s in MODES for a in ("", "1") for b in ("", "2") for e in ("", "BF", "VL") for d in (0, 1) for nc in (0, 1) for ew in (0, 1) for ty in (0, 1)],
         bounds="two or three records, two tags (lists, single values, one tag twice) whose values may be the same, combinations of stemmers for either tag, edge keys that are lists or single, directed or not, with and without counts, weights and types")
def two_mode_any(c, tags, shape, opt):
    """Every option does what it does alone, also together with the others."""
    a, b, e, d, nc, ew, ty = opt
    recs, held = tagged(c, shape)
    k = {}
    if a:
        k["stemmerTag1"] = STEM[a]
    if b:
        k["stemmerTag2"] = STEM[b]
    if e:
        k["edgeAttribute"] = e
    g = rc(c, recs).networkTwoMode(tags[0], tags[1], directed=bool(d), recordType=bool(ty), nodeCount=bool(nc), edgeWeight=bool(ew), **k)
    cn, ce, types = Count(c), Pairs(c, bool(d)), Count(c)
    for h in held:
        v1 = [STEM[a or "id"](x) for x in h[tags[0]]]
        v2 = [STEM[b or "id"](x) for x in h[tags[1]]]
        for t, v in ((tags[0], v1), (tags[1], v2)):
            for x in v:
                cn.add(x)
                r = types.find(x)
                types.rows.append([x, [t]]) if r is None else r[1].append(t)
        for x in v1:
            for y in v2:
                for q in ([(x, y, z) for z in h[e]] if e else [(x, y)]):
                    ce.add(q)
    types_of(c, g, types, ty)
    cn.rows = [[x, attr(nc, "count", v)] for x, v in cn.rows]
    ce.rows = [[x, attr(ew, "weight", v)] for x, v in ce.rows]
    check_graph(c, g, cn, ce, directed=bool(d), multi=bool(e))


MANY = [(("AF", "BE"), ((2, 1, 0, 0), (1, 1, 0, 0))), (("AF", "TI", "SE"), ((1, 0, 1, 1), (1, 0, 1, 0))), (("TI", "AF"), ((1, 0, 1, 0), (2, 0, 1, 0))), (("AF", "AF"), ((2, 0, 0, 0), (1, 0, 0, 0))),
        (("AF",), ((2, 0, 0, 0), (1, 0, 0, 0))), (("SE", "BE", "AF", "TI"), ((1, 1, 1, 1), (0, 1, 0, 0)))]
ODM = [("", "", 1, 1, 1), ("1", "", 1, 1, 1), ("", "BF", 1, 1, 0), ("2", "VL", 0, 1, 1), ("", "VL", 1, 0, 1), ("", "", 0, 0, 1), ("", "", 0, 1, 0), ("1", "BF", 0, 0, 0)]


@harness("C23", quick=[dict(tags=t, shape=s, opt=o) for t, s in MANY for o in ODM], thorough=[dict(tags=t, shape=s, opt=(a, e, nc, ew, ty)) for t, s in MANY for a in ("", "1") for e in ("", "BF", "VL") for nc in (0, 1) for ew in (0, 1) for ty in (0, 1)],
         bounds="two records, one to four tags (lists, single values, one tag twice) whose values may be the same, combinations of a stemmer, edge keys that are lists or single, with and without counts, weights and types")
def n_mode_any(c, tags, shape, opt):
    """Every option does what it does alone, also together with the others."""
    a, e, nc, ew, ty = opt
    recs, held = tagged(c, shape)
    k = {}
    if a:
        k["stemmer"] = STEM[a]
    if e:
        k["edgeAttribute"] = e
    g = rc(c, recs).networkMultiMode(*tags, recordType=bool(ty), nodeCount=bool(nc), edgeWeight=bool(ew), **k)
    cn, ce, types = Count(c), Pairs(c), Count(c)
    for h in held:
        vs = [[STEM[a or "id"](x) for x in h[t]] for t in tags]
        for i, (t, v) in enumerate(zip(tags, vs)):
            for x in v:
                cn.add(x)
                r = types.find(x)
                types.rows.append([x, [t]]) if r is None else r[1].append(t)
                for w in vs[i + 1:]:
                    for y in w:
                        for q in ([(x, y, z) for z in h[e]] if e else [(x, y)]):
                            ce.add(q)
    types_of(c, g, types, ty)
    cn.rows = [[x, attr(nc, "count", v)] for x, v in cn.rows]
    ce.rows = [[x, attr(ew, "weight", v)] for x, v in ce.rows]
    check_graph(c, g, cn, ce, multi=bool(e))


ODL = [("", "", "", 1, 1), ("1", "", "", 1, 1), ("", "BF", "", 1, 1), ("2", "VL", "BF", 0, 1), ("", "VL", "", 1, 0), ("", "", "VL", 0, 0), ("1", "BF", "VL", 1, 0), ("", "", "BF", 1, 1)]


@harness("C22", quick=[dict(tags=t, shape=s, opt=o) for t, s in MANY for o in ODL], thorough=[dict(tags=t, shape=s, opt=(a, e, n, nc, ew)) for t, s in MANY for a in ("", "1") for e in ("", "BF", "VL") for n in ("", "BF", "VL") for nc in (0, 1) for ew in (0, 1)],
         bounds="two records, one to four tags (lists, single values, one tag twice) whose values may be the same, combinations of a stemmer, edge keys and node attributes that are lists or single, with and without counts and weights")
def n_level_any(c, tags, shape, opt):
    """Every option does what it does alone, also together with the others."""
    a, e, na, nc, ew = opt
    recs, held = tagged(c, shape)
    k = {}
    if a:
        k["stemmer"] = STEM[a]
    if e:
        k["edgeAttribute"] = e
    if na:
        k["nodeAttribute"] = na
    R = rc(c, recs)
    k.update(nodeCount=bool(nc), edgeWeight=bool(ew))
    g = R.networkOneMode(tags[0], **k) if len(tags) == 1 else R.networkMultiLevel(*tags, **k)
    cn, ce, ats = Count(c), Pairs(c), Count(c)
    for h in held:
        v = [STEM[a or "id"](x) for t in tags for x in h[t]]
        for i, x in enumerate(v):
            cn.add(x)
            r = ats.find(x)
            if r is None:
                ats.rows.append([x, list(h[na])] if na else [x, None])
            elif na:
                r[1] += [z for z in h[na] if z not in r[1]]
            for y in v[i + 1:]:
                for q in ([(x, y, z) for z in h[e]] if e else [(x, y)]):
                    ce.add(q)
    cn.rows = [[x, attr(nc, "count", v) + attr(na, na, ats.get(x))] for x, v in cn.rows]
    ce.rows = [[x, attr(ew, "weight", v)] for x, v in ce.rows]
    check_graph(c, g, cn, ce, multi=bool(e))
