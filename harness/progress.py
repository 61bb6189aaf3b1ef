"""The progress display: showing it changes nothing but what is on the terminal."""
import os
from vf.ctx import harness
from harness.lib import wos, rc
from harness.files import small, whole, KINDS, ENCODING
from harness.citenets import ctext, text
from harness.diffusion import sources
from harness.grants import nsf
from harness.citations import journals
from harness.kinds import make

MODULES = ("recordCollection", "mkCollection", "diffusion", "graphHelpers", "grantCollection")


class Slept(Exception):
    pass


class Shown:
    """Runs what is inside with the display on. The display's thread is a step taken at the update numbered `at`
    (before it, or after it), at all of them or at none, in a terminal of `width` columns or in none."""

    def __init__(self, c, width, at, clock):
        self.c, self.width, self.at, self.clock = c, width, at, clock
        self.bars, self.out, self.updates, self.threads = [], [], 0, []

    def tick(self, t):
        try:
            t.target(**t.kwargs)
        except Slept:
            pass

    def step(self, when):
        if self.at == "all" or self.at == (self.updates, when):
            for t in list(self.threads):
                if t.started and not t.joined:
                    self.tick(t)

    def __enter__(self):
        import importlib
        mk = self.c.mk
        P = importlib.import_module("metaknowledge.progressBar")
        me = self

        class Out:
            def write(s, x):
                me.out.append(x)

            def flush(s):
                pass

            def fileno(s):
                if me.width is None:
                    raise OSError("not a terminal")
                return 1

        class Size:
            columns = me.width

        class OS:
            @staticmethod
            def get_terminal_size(*a):
                return Size

        class Time:
            now = 0

            @staticmethod
            def time():
                Time.now += me.clock
                return Time.now

            @staticmethod
            def sleep(x):
                raise Slept()

        class Thread:
            def __init__(s, target, kwargs):
                s.target, s.kwargs, s.started, s.joined = target, kwargs, False, False
                me.threads.append(s)

            def start(s):
                s.started = True
                if me.at == "all":
                    me.tick(s)

            def join(s):
                s.joined = True
                me.c.check(s.kwargs["self"].finished is True, "the display is told to end before it is waited for")
                me.tick(s)

        class Threading:
            pass
        Threading.Thread = Thread
        Real = P._ProgressBar
        output = Out()

        class Bar(Real):
            def __init__(s, *a, **k):
                k["output"] = output
                me.bars.append(s)
                Real.__init__(s, *a, **k)

            def updateVal(s, *a, **k):
                me.updates += 1
                me.step(0)
                Real.updateVal(s, *a, **k)
                me.step(1)

        self.P, self.saved = P, [(m, m._ProgressBar) for m in [importlib.import_module("metaknowledge." + n) for n in MODULES]]
        self.lib = (P.os, P.time, P.threading)
        P.os, P.time, P.threading = OS, Time, Threading
        for m, _ in self.saved:
            m._ProgressBar = Bar
        self.verbose = mk.VERBOSE_MODE
        mk.VERBOSE_MODE = True
        return self

    def __exit__(self, *a):
        self.c.mk.VERBOSE_MODE = self.verbose
        for m, b in self.saved:
            m._ProgressBar = b
        # a display that was not told to end draws for ever: its thread holds on to it
        self.going = [b for b in self.bars if not b.dummy and not b.finished]
        for b in self.going:
            b.finished = True
        self.P.os, self.P.time, self.P.threading = self.lib


def plain(c, x, d):
    """what a result says, in a form that can be compared"""
    mk = c.mk
    if hasattr(x, "nodes"):
        e = x.edges(keys=True, data=True) if x.is_multigraph() else x.edges(data=True)
        return [type(x).__name__, [(n, sorted(a.items())) for n, a in x.nodes(data=True)], [(t[:-1], sorted(t[-1].items())) for t in e]]
    if isinstance(x, (mk.RecordCollection, mk.GrantCollection)):
        return [x.name.replace(d, ""), x.bad, len(x.errors), sorted(r.id for r in x), sorted(str(r.bad) for r in x), sorted(x._collectedTypes)]
    if isinstance(x, dict):
        return [(k, plain(c, v, d)) for k, v in x.items()]
    if isinstance(x, list):
        return [plain(c, v, d) for v in x]
    if isinstance(x, BaseException):
        return [type(x).__name__]
    return x


def folder(c, d):
    out = []
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p) and not f.endswith("DirCache"):
            out.append((f, c.text(p)))
    return out


def works(c, n):
    rs = []
    for i in range(n):
        rs.append(wos(c, "WOS:%d" % i, AU=["Ab, X" if i else c.s("a%d" % i, ["AB"]) + "b, X", "Z, Y"], AF=["Ab, Xena" if i else c.s("f%d" % i, ["AB"]) + "b, Xena", "Z, Yve"], PY="1999", SO="KT",
                      J9="KT", TI="On T%d" % i, AB="Of things %d. And more" % i, DE="q; w", CR=["A X, 2000, JT", "AB, 1999, KT"] if i else [text(ctext(c, "cited", 0)), "B X, 2001, JT"]))
    return rs


def simple(kind):
    import networkx as nx
    g = getattr(nx, kind)()
    for n, k in (("a", 1), ("b", 3), ("c", 2)):
        g.add_node(n, count=k, label="n" + n)
    g.add_edge("a", "b", weight=2)
    g.add_edge("b", "c", weight=1)
    g.add_edge("c", "c", weight=3)
    return g


def network(name, *a, **k):
    return lambda c, rs, d: getattr(rc(c, rs), name)(*a, **k)


def on_graph(name, *a, **k):
    def f(c, rs, d):
        g = simple("Graph")
        r = getattr(c.mk, name)(g, *a, **k)
        return g if r is None else r
    return f


def written(name, *a, **k):
    def f(c, rs, d):
        os.chdir(d)
        getattr(c.mk, name)(simple(k.pop("kind", "Graph")) if not name.startswith("empty") else None, *a, **k)
        return folder(c, d)
    return f


def empty_edges(c, rs, d):
    import networkx as nx
    os.chdir(d)
    g = nx.Graph()
    g.add_node("a", label="x")
    c.mk.writeGraph(g, "net")
    return folder(c, d)


def bare(name):
    def f(c, rs, d):
        import networkx as nx
        os.chdir(d)
        getattr(c.mk, name)(nx.Graph(), "x.csv")
        return folder(c, d)
    return f


def read(c, rs, d):
    os.chdir(d)
    c.mk.writeGraph(simple("Graph"), "net")
    return c.mk.readGraph("net_edgeList.csv", "net_nodeAttributes.csv")


def spread(what):
    def f(c, rs, d):
        S, T = rc(c, rs[:1]), rc(c, rs[1:])
        if what == "graph":
            return c.mk.diffusionGraph(S, T, sourceType="authorsShort", targetType="authorsShort")
        if what == "count":
            return c.mk.diffusionCount(S, T, sourceType="UT")
        if what == "compare":
            return c.mk.diffusionCount(S, T, sourceType="UT", compareCounts=True)
        if what == "extra":
            return c.mk.diffusionCount(S, T, sourceType="UT", extraValue="year", pandasFriendly=True)
        g = rc(c, rs).networkTwoMode("UT", "year")
        c.mk.diffusionAddCountsFromSource(g, S, T, nodeType="UT")
        return g
    return f


def table(name, *a, **k):
    def f(c, rs, d):
        os.chdir(d)
        x = getattr(rc(c, rs), name)(*a, **k)
        return [plain(c, x, d), folder(c, d)]
    return f


def load(kind, n=1, what="good", cached=False):
    """read a file, or a folder of them"""
    def f(c, rs, d):
        t, _ = whole(c, kind, [small(c, kind, i, int(kind != "scopus"))[0] for i in (1, 2)])
        if what == "cut":
            t = t[:-9]
        for i in range(n):
            c.put(d[len(c.tmp()) + 1:] + "/f%d.txt" % i, t, encoding=ENCODING[kind])
        if what == "unknown":
            c.put(d[len(c.tmp()) + 1:] + "/f9.txt", "what?\nno\n")
        p = d + ("/f0.txt" if n == 1 else "")
        R = c.mk.RecordCollection(p, cached=cached)
        return [R, c.mk.RecordCollection(p, cached=True)] if cached else R
    return f


def empty(c, rs, d):
    return [c.mk.RecordCollection(), c.mk.RecordCollection(rs), c.mk.GrantCollection()]


def grant_files(c, rs, d):
    for i in (0, 1):
        c.put(d[len(c.tmp()) + 1:] + "/g%d.csv" % i, "Name,Note\nA%d,x\nB%d,y\n" % (i, i))
    return [c.mk.GrantCollection(d), c.mk.GrantCollection(d + "/g0.csv"), c.mk.GrantCollection(d, cached=True), c.mk.GrantCollection(d, cached=True)]


def grants(c, rs, d):
    G = c.mk.GrantCollection([nsf(c, i, ["p", "q", "r"][:i + 1]) for i in range(2)], quietStart=True)
    return G.networkCoInvestigator()


OPS = {
    "coauthor": network("networkCoAuthor"), "coauthor2": network("networkCoAuthor", detailedInfo=True, useShortNames=True),
    "cocite": network("networkCoCitation"), "cocite2": network("networkCoCitation", expandedCore=True, coreOnly=False),
    "cite": network("networkCitation"), "cite2": network("networkCitation", expandedCore=True, directed=False),
    "couple": network("networkBibCoupling"), "one": network("networkOneMode", "authorsShort"), "multi": network("networkMultiLevel", "authorsShort", "year"),
    "two": network("networkTwoMode", "authorsShort", "year"), "n": network("networkMultiMode", "authorsShort", "year", "title"),
    "local": network("localCiteStats"), "local2": network("localCiteStats", pandasFriendly=True, keyType="journal"),
    "graph": spread("graph"), "count": spread("count"), "compare": spread("compare"), "extra": spread("extra"), "added": spread("added"),
    "dropedges": on_graph("dropEdges", minWeight=2, dropSelfLoops=True), "dropdegree": on_graph("dropNodesByDegree", minDegree=2),
    "dropcount": on_graph("dropNodesByCount", minCount=2), "writegraph": written("writeGraph", "net"), "writedigraph": written("writeGraph", "net", kind="MultiDiGraph"),
    "edges": written("writeEdgeList", "e.csv"), "nodes": written("writeNodeAttributeFile", "n.csv"), "bare": written("writeEdgeList", "e.csv", extraInfo=False),
    "noedges": empty_edges, "noedges2": bare("writeEdgeList"), "nonodes": bare("writeNodeAttributeFile"), "read": read,
    "burst": table("forBurst", "keywords"), "nlp": table("forNLP", "out.csv"), "grants": grants, "empty": empty, "grantfiles": grant_files, "cut": load("wos", what="cut"), "folder": load("wos", 2), "unknown": load("wos", 2, "unknown"), "cache": load("wos", 2, cached=True),
}


def missing_attribute(name):
    def f(c, rs, d):
        g = simple("Graph")
        del g.nodes["b"]["label"]
        del g.edges["a", "b"]["weight"]
        os.chdir(d)
        return getattr(c.mk, name)(g, "x.csv", allSameAttribute=True)
    return f


FAIL = {
    "no file": lambda c, rs, d: c.mk.RecordCollection(d + "/none"), "no grants": lambda c, rs, d: c.mk.GrantCollection(d + "/none"),
    "no records": lambda c, rs, d: c.mk.RecordCollection([1]), "number": lambda c, rs, d: c.mk.RecordCollection(3), "grant number": lambda c, rs, d: c.mk.GrantCollection(3),
    "kind of node": network("networkCoCitation", nodeType="none"), "gap edges": missing_attribute("writeEdgeList"), "gap nodes": missing_attribute("writeNodeAttributeFile"),
    "gap graph": lambda c, rs, d: (os.chdir(d), missing_attribute("writeGraph")(c, rs, d)), "no graph": lambda c, rs, d: c.mk.readGraph(d + "/none"),
    "stemmer": network("networkOneMode", "authorsShort", stemmer=3), 
    "no count": on_graph("dropNodesByCount", parameterName="none"), "no weight": on_graph("dropEdges", parameterName="none", minWeight=1),
    "no tag": lambda c, rs, d: c.mk.diffusionGraph(rc(c, rs), 3), "extra": lambda c, rs, d: c.mk.diffusionCount(rc(c, rs[:1]), rc(c, rs[1:]), sourceType="UT", extraValue="year", extraMapping=lambda x: 1 // 0),
    "profile": lambda c, rs, d: rc(c, rs).localCiteStats(keyType="none"), "nlp folder": lambda c, rs, d: rc(c, rs).forNLP(d + "/none/x.csv"),
    "levels": network("networkMultiLevel", "authorsShort", stemmer=lambda x: 1 // 0), "modes": network("networkMultiMode", "authorsShort", "year", stemmer=lambda x: 1 // 0),
    "two modes": network("networkTwoMode", "authorsShort", "year", stemmerTag1=lambda x: 1 // 0),
}
FAIL = {"fails " + k: v for k, v in FAIL.items()}
OPS.update(FAIL)
for k in KINDS:
    OPS["read " + k] = load(k)
QUICK = sorted(OPS)


def watch(c):
    """how the display is seen"""
    at = c.pick("at", ["none", "all"] + [(i, w) for i in (1, 2, 3) for w in (0, 1)])
    return c.pick("width", [80, None, 30, 8, 3]), at, c.pick("clock", [0, 0.4, 30000000])


KEPT = "coauthor coauthor2 cocite cocite2 cite cite2 couple one multi two n local graph count burst nlp".split()


@harness("C40", quick=[dict(op=o) for o in QUICK] + [dict(op=o, kinds=k) for o in KEPT for k in (["medline", "scopus"], ["proquest", "wos"])], bounds="each kind of work on two records of free names and citations (networks and tables: of other kinds too) or on a graph of three nodes; the display drawn at no, any one of the first three, or every update, before or after it, in terminals of 5 widths or none, at 3 speeds")
def same_result(c, op, kinds=None):
    """What comes out and what is written is the same with the display as without, and every display has ended."""
    rs = [make(c, k, i, title="T%d" % i, year="2001", abstract="Of it", keywords=["KX", "KY"], authors=["A " + c.s("a%d" % i, ["BC"])]) for i, k in enumerate(kinds)] if kinds else works(c, 2)
    width, at, clock = watch(c)
    f = OPS[op]
    with journals(c, {"KT": "Kin T"}, None):
        res = []
        for show in (0, 1):
            d = c.tmp() + "/" + str(show)
            os.mkdir(d)
            if show:
                with Shown(c, width, at, clock) as s:
                    r, err = c.attempt(f, c, rs, d)
                    r = plain(c, r if err is None else err, d)
                c.check(op in FAIL or len(s.bars) > 0 and any(s.out), "something is shown")
                c.check(not s.going, "every display has ended", [b.inputString for b in s.going])
                c.check(all(t.joined or not t.started for t in s.threads), "no display is left drawing")
            else:
                r, err = c.attempt(f, c, rs, d)
                r = plain(c, r if err is None else err, d)
            res.append(r)
    c.check((err is None) == (op not in FAIL), "it works", err)
    c.check(c.eq(res[1], res[0]), "the same with the display as without", res[1], res[0])


@harness("C40", quick=[dict(n=n) for n in range(9, 22)], thorough=[dict(n=n) for n in range(9, 80)], bounds="texts of 0 to n+2 free characters in a place of n columns, from 9 to 21 (thorough 79)")
def cut(c, n):
    """A text takes exactly the place it has: filled up with blanks, or with its middle left out."""
    P = __import__("metaknowledge.progressBar", fromlist=["x"])._ProgressBar
    k = c.pick("k", [0, 1, n - 3, n - 2, n - 1, n, n + 1, n + 2])
    s = c.s("s", ["ab .", k]) if k else ""
    got = P.prepString(s, n)
    c.equal(len(got), n, "its place")
    if k < n:
        c.equal(got, s + " " * (n - k), "all of it")
    else:
        c.check(c.any_([c.eq(got, s[:i] + "..." + s[k - (n - i - 4):] + " ") for i in range(1, n - 4)]), "its beginning and its end", got, s)


@harness("C40", quick=[dict(big=b, cols=w) for b in (0, 1) for w in (30, 31, 32, 33, 80)], bounds="terminals of 30 to 33 or 80 columns, texts of any of several lengths, any share of the work done, times of up to 5 digits")
def width(c, big, cols):
    """No line drawn is wider than the terminal."""
    text = "t" * c.pick("len", [0, 3, 18, 24, 25, 60, 100])
    with Shown(c, cols, "none", c.pick("clock", [0, 7, 99.99, 12345])) as t:
        B = t.P._ProgressBar(c.pick("share", [0, 0.5, 1]), text, output=Terminal(t), secondRow=bool(big))
        B.updateVal(c.pick("later", [0.25, 1]))
        for th in t.threads:
            t.tick(th)
        B.finish("f" * c.pick("last", [0, 20, 24, 25, 60]))
    for line in "".join(t.out).replace("\033[F", "\n").replace("\033[", "").replace("\r", "\n").split("\n"):
        c.check(len(line) <= cols, "no wider than the terminal", line, cols)


class Terminal:
    def __init__(self, shown):
        self.shown = shown

    def write(self, x):
        self.shown.out.append(x)

    def flush(self):
        pass

    def fileno(self):
        return 1
