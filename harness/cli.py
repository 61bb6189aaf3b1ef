"""The command line interface: what is asked for on its menus is what is done."""
from vf.ctx import harness
from harness.lib import rc, wos, Count, ASCII, but
from harness.graphs import build
from harness.citations import journals, forget, WOSDB


class Said:
    """Answers given in turn to the questions of the interface."""

    def __init__(self, c, *answers):
        import metaknowledge.bin.metaknowledgeCLI as cli
        self.c, self.cli, self.rest, self.out = c, cli, list(answers), []

    def __enter__(self):
        self.cli.input = lambda *a: self.rest.pop(0)
        self.cli.print = lambda *a, **k: self.out.append(a)
        return self

    def __exit__(self, *a):
        del self.cli.input, self.cli.print

    def done(self):
        self.c.equal(list(self.rest), [], "every answer was asked for")


def named(name):
    import argparse
    n = argparse.Namespace()
    n.name = name
    n.files, n.suffix = [], ""
    return n


def same_graph(c, g, h, msg):
    """two graphs of the same nodes, edges and attributes"""
    c.check(type(g) is type(h), msg + ": kind")
    c.same_map([(n, dict(d)) for n, d in g.nodes(data=True)], [(n, dict(d)) for n, d in h.nodes(data=True)], msg + ": nodes")
    c.equal(len(g.edges()), len(h.edges()), msg + ": number of edges")
    for u, v, d in h.edges(data=True):
        c.check(g.has_edge(u, v), msg + ": edge", (u, v))
        c.same_map(g.edges[u, v].items(), d.items(), msg + ": edge attributes")


BEFORE = [[], ["x"], ["", "10"]]


@harness("C39", quick=[dict(opt=o) for o in "0123456"], bounds="an undirected graph of 4 or 5 nodes with 3 or 4 edges, a loop among them and a node with just a loop, of free weights 1 to 4 and a threshold of 0 to 5, after wrong answers or none")
def thresholds(c, opt):
    """Each choice drops exactly the edges or nodes it names and asks again until told to continue."""
    alone = opt in "156"
    g, rows = build(c, "Graph", ("ab", "bc", "cc", "ee") if alone else ("ab", "bc", "cc"), nodes="abcde" if alone else "abcd", lo=1, missing=False)
    limit = c.pick("limit", ["0", "2", "2.5", "5"])
    wrong = c.pick("wrong", [[], ["ten", ""]]) if opt in "3456" else []
    before = c.pick("before", BEFORE)
    answers = before + [opt] + (wrong + [limit] if opt in "3456" else []) + ([] if opt == "0" else ["0"])
    nodes = "abcde" if alone else "abcd"
    x = float(limit)
    deg = {n: c.total([0] + [r[3] for r in rows if n in r[:2]]) for n in nodes}
    keep, left = list(nodes), rows
    low = lambda vals: [v for v in vals]
    if opt == "1":
        keep = list("abce")
    elif opt == "2":
        left = rows[:2]
    elif opt == "3":
        left = [r for r in rows if c.truth(r[3] >= x)]
    elif opt == "4":
        left = [r for r in rows if c.truth(r[3] <= x)]
    elif opt == "5":
        keep = [n for n in nodes if c.truth(deg[n] >= x)]
    elif opt == "6":
        keep = [n for n in nodes if c.truth(deg[n] <= x)]
    left = [r for r in left if r[0] in keep and r[1] in keep]
    with Said(c, *answers) as said:
        got = said.cli.getThresholds(None, g)
        said.done()
    c.check(got is g, "the graph itself")

    def is_(ks, es):
        return sorted(got.nodes()) == ks and sorted(d["i"] for _, _, d in got.edges(data=True)) == sorted(r[4] for r in es)
    c.observe("left", (sorted(got.nodes()), sorted(d["i"] for _, _, d in got.edges(data=True))))
    msg = "the parts asked for"
    if opt in "46":
        # what happens instead: the parts below are dropped
        if opt == "4":
            other = (list(nodes), [r for r in rows if c.truth(r[3] >= x)])
        else:
            ks = [n for n in nodes if c.truth(deg[n] >= x)]
            other = (ks, [r for r in rows if r[0] in ks and r[1] in ks])
        c.known("cli-above-threshold", is_(keep, left), is_(*other), "the menu entries to remove edges or nodes above a limit remove those below it (bin/metaknowledgeCLI.py getThresholds; test_Thresholds depends on it)")
    else:
        c.check(is_(keep, left), msg, (sorted(got.nodes()), sorted(d["i"] for _, _, d in got.edges(data=True))), (keep, [r[4] for r in left]))


@harness("C39", quick=[dict(opt=o) for o in "123456"], bounds="two records with up to two free names and citations, wrong answers first or none, tags in either case")
def networks(c, opt):
    """Each choice makes the network it names of the tags given."""
    recs = [wos(c, "WOS:0", AF=["N" + c.s("a", ["ab"]), "Na"], SE=c.s("s", ["xy"]), CR=["AX, 2001, JK", "AY, 200%s, JL" % c.s("y", ["12"])]),
            wos(c, "WOS:1", AF=["Nb"], SE="x", CR=["AX, 2001, JK"])]
    R = rc(c, recs)
    t1 = c.pick("t1", ["AF", "af"])
    wrong = ["qq", ""] if c.truth(c.b("wrong")) else []
    if opt == "1":
        more, want = wrong + [t1], R.networkOneMode("AF")
    elif opt == "2":
        more, want = wrong + [t1, "se"], R.networkTwoMode("AF", "SE")
    elif opt == "3":
        tags = c.pick("tags", [["Se"], [], ["SE", "AF"], ["se", "SE", "PT"]])
        more, want = wrong + [t1] + wrong[:1] + tags + [""], R.networkMultiMode(["AF"] + [t.upper() for t in tags])
    else:
        more, want = [], {"4": R.networkCitation, "5": R.networkCoCitation, "6": R.networkCoAuthor}[opt]()
    with Said(c, *(wrong + [opt] + more)) as said:
        got = said.cli.getNetwork(None, R)
        said.done()
    same_graph(c, got, want, "network")


@harness("C39", quick=[dict(opt=o, given=g) for o in "123456" for g in (0, 1)], bounds="two records with a free text and two citations each, one of them a journal or not; a file that is there already or not")
def writing(c, opt, given):
    """Each choice writes the file it names, under the name given or asked for, and says whether a network is next."""
    import os
    v = c.s("v", [ASCII])
    recs = [wos(c, "WOS:0", SE=v, CR=["AX, 2001, JK", "AY, 2002, JL"]), wos(c, "WOS:1", CR=["AX, 2001, JK", "AZ, 200%s, JL" % c.s("y", ["12"])])]
    R = rc(c, recs)
    suffix = "" if opt == "1" else ".txt" if opt in "23" else ".csv"
    d = c.tmp()
    base = d + "/file"
    there = not given and suffix and c.truth(c.b("there"))
    if there:
        c.put("file" + suffix, "old")
    drop = c.truth(c.b("journals")) if opt == "6" else False
    answers = c.pick("before", BEFORE) + [opt] + ([c.pick("yes", ["y", "Y", ""]) if drop else c.pick("no", ["n", "N"])] if opt == "6" else [])
    again = False
    if suffix and not given:
        answers.append(base)
        if there:
            again = c.truth(c.b("other"))
            answers += ["maybe", "n", d + "/other"] if again else ["y"]
    listed = ["AX, 2001, JK"]
    with journals(c, {"JK": "Journal K"}, {}), Said(c, *answers) as said:
        got = said.cli.getWhatToDo(named(base if given else None), R)
        said.done()
    c.equal(bool(got), opt in "135", "a network is next or not")
    if not suffix:
        c.equal(os.listdir(d), [], "no file")
        return
    f = (d + "/other" if again else base) + suffix
    if again:
        c.equal(c.text(base + suffix), "old", "left as it was")
    c.equal(len(os.listdir(d)), 2 if again else 1, "one file")
    if opt in "23":
        R.writeFile(d + "/want")
        c.check(c.eq(c.text(f), c.text(d + "/want")), "records")
    elif opt in "45":
        R.writeCSV(d + "/want")
        c.check(c.eq(c.text(f), c.text(d + "/want")), "table")
    else:
        cites = c.distinct([str(x) for r in recs for x in r["citations"] if not drop or c.truth(c.member(str(x), listed))])
        c.same_items(c.text(f).split("\n")[:-1], cites, "every citation once")


@harness("C39", quick=[dict(n=2, db=d) for d in (0, 1)], thorough=[dict(n=3, db=d) for d in (0, 1)], bounds="up to 2 (thorough 3) citations of a listed journal, of any of two others, or without one; the usual or another data base; any answers")
def classify(c, n, db):
    """Going over citations asks about each journal not known once, and notes the answer in the data base asked for."""
    cites, ask, state = [], [], {}
    name = c.pick("name", ["", "manualj9Abbreviations"]) if not db else "otherAbbreviations"
    for i in range(n):
        j = c.pick("j%d" % i, ["JX", "JP", "JQ", None])
        cites.append("A%d, 2001, %s" % (i, j) if j else "Q%d" % i)
        if j in ("JP", "JQ") and j not in state:
            state[j] = c.truth(c.b("yes" + j))
            ask.append("y" if state[j] else "n")
    R = rc(c, [wos(c, "WOS:0", CR=cites)])
    with journals(c, WOSDB, {}) as d:
        if db:
            c.mk.journalAbbreviations.addToDB(dbname=name)
        with Said(c, "7", name, *ask) as said:
            c.check(not said.cli.getWhatToDo(named(None), R), "no network")
            said.done()
        for again in (0, 1):
            if again:
                forget(c)
            kw = {"manualDB": name} if name else {}
            for j in ("JX", "JP", "JQ"):
                x = c.mk.Citation("Aa, 2001, " + j)
                want = j == "JX" or state.get(j, False)
                c.check(bool(x.isJournal(**kw)) is want, "a journal or not", j, want)
                c.check(bool(x.isJournal(checkIfExcluded=True, **kw)) is (state.get(j) is False), "skipped or not", j)


@harness("C39", quick=[dict(given=g) for g in (0, 1)], bounds="a graph of 3 nodes and two edges; a file that is there already or not; the writer of networkx stood in for")
def graphml(c, given):
    """The last choice has the graph written, by networkx, to the one file named."""
    import os
    import networkx
    g, rows = build(c, "Graph", ("ab", "bc"), missing=False)
    base, calls = c.tmp() + "/net", []
    there = c.truth(c.b("there"))
    if there:
        c.put("net.graphml", "old")
    refuse = there and not given and c.truth(c.b("refuse"))
    answers = ["4"]
    if not given:
        answers.append(base)
        if there:
            answers += ["n", c.tmp() + "/two"] if refuse else ["y"]
    old = networkx.write_graphml
    networkx.write_graphml = lambda G, path, *a, **k: calls.append((G, path))
    try:
        with Said(c, *answers) as said:
            said.cli.outputNetwork(named(base if given else None), g)
            said.done()
    finally:
        networkx.write_graphml = old
    c.equal(len(calls), 1, "written once")
    c.check(calls[0][0] is g, "the graph")
    c.check(str(calls[0][1]) == (c.tmp() + "/two" if refuse else base) + ".graphml", "the file")
    c.same_items(os.listdir(c.tmp()), ["net.graphml"] if there else [], "nothing else is written")


@harness("C39", quick=[dict(opt=o, given=g) for o in "123" for g in (0, 1)], bounds="a graph of 3 nodes and two edges of free weights; files that are there already or not")
def outputs(c, opt, given):
    """Each choice writes the lists it names, and files that are there only if allowed."""
    import os
    g, rows = build(c, "Graph", ("ab", "bc"), missing=False)
    d = c.tmp()
    base = d + "/net"
    os.mkdir(d + "/want")
    files = {"1": ["net_edgeList.csv", "net_nodeAttributes.csv"], "2": ["net.csv"], "3": ["net.csv"]}[opt]
    there = c.truth(c.b("there"))
    if there:
        c.put(files[0], "old")
    refuse = there and not given and c.truth(c.b("refuse"))
    answers = [opt]
    if not given:
        answers.append(base)
        if there:
            answers += ["n", d + "/two"] if refuse else ["y"]
    with Said(c, *answers) as said:
        said.cli.outputNetwork(named(base if given else None), g)
        said.done()
    c.mk.writeGraph(g, d + "/want/net")
    if refuse:
        c.equal(c.text(d + "/" + files[0]), "old", "left as it was")
        names = [f.replace("net", "two") for f in files]
    else:
        names = files
    c.same_items([f for f in os.listdir(d) if f != "want"], names + ([files[0]] if refuse else []), "files")
    for f in names:
        want = "net_edgeList.csv" if "edge" in f or opt == "2" else "net_nodeAttributes.csv"
        c.check(c.eq(c.text(d + "/" + f), c.text(d + "/want/" + want)), "contents")


@harness("C39", quick=[dict(n=1), dict(n=2)], bounds="one or two files or a folder of records with free titles, with or without an extension or name")
def sources(c, n):
    """The records are those of all the files and folders given, of the suffix given; what does not exist is refused or asked for again."""
    def isi(u, t):
        return "FN x\nVR 1.0\nPT J\nTI %s\nUT %s\nER\n\nEF" % (t, u)
    paths, want = [], []
    for i in range(n):
        t = "T" + c.s("t%d" % i, [but("")])
        if c.truth(c.b("folder%d" % i)):
            c.put("d%d/a.isi" % i, isi("WOS:%da" % i, t))
            c.put("d%d/b.txt" % i, isi("WOS:%db" % i, t))
            paths.append(c.tmp() + "/d%d" % i)
            want += [("WOS:%da" % i, t), ("WOS:%db" % i, t)]
        else:
            paths.append(c.put("f%d.isi" % i, isi("WOS:%d" % i, t)))
            want.append(("WOS:%d" % i, t))
    suffix = c.pick("suffix", ["", ".isi", ".txt"])
    if suffix:
        want = [x for x in want if x[0][-1] not in "ab" or x[0][-1] == ("a" if suffix == ".isi" else "b")]
        if suffix == ".txt" and any(not "/d" in p[len(c.tmp()):] for p in paths):
            want = None     # a file that has not the suffix
    args = named(None)
    args.suffix = suffix
    missing = c.truth(c.b("missing"))
    answers = []
    if c.truth(c.b("asked")):
        answers = ([c.tmp() + "/nothing", c.tmp() + "/nothing " + c.tmp() + "/none"] if missing else []) + [" ".join(paths)]
        missing = False
    else:
        args.files = paths + ([c.tmp() + "/nothing"] if missing else [])
    with Said(c, *answers) as said:
        got, err = c.attempt(said.cli.getFiles, args)
        if missing:
            c.check(err is not None, "a missing file is refused")
            return
        if want is None:
            return
        c.check(err is None, "read", err)
        said.done()
    c.same_map([(r.id, r["TI"]) for r in got], want, "records")


@harness("C39", quick=[dict(n=0), dict(n=1), dict(n=2)], bounds="a menu of three entries, any two answers of up to 2 (first) and 1 (second) free characters before a good one")
def menu(c, n):
    """A menu gives back the entry chosen, opens the console or ends when told to, and asks again for anything else."""
    import collections
    options = collections.OrderedDict([("1", "a"), ("2", "b"), ("i2", "c")])
    extra = c.truth(c.b("extra"))
    tries = [c.s("t%d" % i, [but(""), 1 if i else c.pick("len", [1, 2])]) for i in range(n)] + [c.pick("last", ["1", "2", "i2"])]
    opened = []
    want, ends, consoles = None, False, 0
    used = 0
    for t in tries:
        used += 1
        if any([c.truth(c.eq(t, k)) for k in options]):
            want = t
            break
        if extra and c.truth(c.eq(t, "q")):
            ends = True
            break
        if extra and c.truth(c.eq(t, "i")):
            consoles += 1
    with Said(c, *tries) as said:
        real = said.cli.code.interact
        said.cli.code.interact = lambda **k: opened.append(k)
        try:
            got, ended = None, False
            try:
                got = said.cli.inputMenu(options, extraOptions=extra)
            except SystemExit:
                ended = True
            c.equal(ended, ends, "ended or not")
            c.check(ends or c.eq(got, want), "the entry chosen", got, want)
        finally:
            said.cli.code.interact = real
        c.equal(len(said.rest), len(tries) - used, "answers not asked for")
    c.equal(len(opened), consoles, "times the console was opened")


@harness("C39", quick=[dict(given=g, fail=f) for g in (0, 1) for f in (0, 1)], bounds="two files of a record with free titles and citations; answers to every menu; an error or none")
def whole(c, given, fail):
    """From the files on the command line to the one written: each menu is followed in turn."""
    import os
    import sys

    def isi(u, t, cr):
        return "FN x\nVR 1.0\nPT J\nAU AA\n   AB\nTI %s\nCR %s\n   BZ, 2002, JL\nUT %s\nER\n\nEF" % (t, cr, u)
    d = c.tmp()
    os.mkdir(d + "/want")
    files = [c.put("f%d.isi" % i, isi("WOS:%d" % i, "TS"[i] + c.s("t%d" % i, ["ab"]), "BX, 200%s, JK" % c.s("y%d" % i, ["12"]))) for i in (0, 1)]
    debug = c.truth(c.b("debug"))
    argv = ["mk", "-q"] + (["-d"] if debug else []) + (["--name", d + "/out"] if given else []) + files + ([d + "/none"] if fail else [])
    net = c.pick("net", ["4", "5", "6"])
    out = c.pick("out", ["1", "2", "3"])
    first = c.pick("first", ["1", "2", "3", "4", "5"])
    name = [] if given else [d + "/out"]
    answers = [] if fail else [first] + (name if first != "1" else []) + ([net, "0", out] + name if first in "135" else [])
    if first == "5" and out in "23":
        # the table was written under that name
        answers += [] if given else ["y"]
    old, mode = sys.argv, c.mk.VERBOSE_MODE
    c.mk.VERBOSE_MODE = True
    sys.argv = argv
    try:
        with Said(c, *answers) as said:
            got, err = c.attempt(said.cli.mkCLI)
            rest = list(said.rest)
        quiet = c.mk.VERBOSE_MODE is False
    finally:
        sys.argv, c.mk.VERBOSE_MODE = old, mode
    c.check(quiet, "no progress bar is asked for")
    if fail:
        if debug:
            c.check(err is not None, "the error is let through")
        else:
            c.check(err is None and isinstance(got, Exception), "the error is given back")
        c.same_items(os.listdir(d), ["f0.isi", "f1.isi", "want"], "nothing written")
        return
    c.check(err is None, "no error", err)
    c.equal(got, 1, "what is given back")
    c.equal(rest, [], "every answer was asked for")
    R = c.mk.RecordCollection(files[0]) | c.mk.RecordCollection(files[1])
    G = {"4": R.networkCitation, "5": R.networkCoCitation, "6": R.networkCoAuthor}[net]()
    if first in "135":
        # the same graph, whatever the order of its nodes
        same_graph(c, said.cli.G, G, "graph")
    c.same_items([(r.id, r["TI"]) for r in said.cli.RC], [(r.id, r["TI"]) for r in R], "records")
    R = said.cli.RC
    want = {}
    if first in "23":
        R.writeFile(d + "/want/a")
        want["out.txt"] = "a"
    elif first in "45":
        R.writeCSV(d + "/want/a")
        want["out.csv"] = "a"
    if first in "135":
        G = said.cli.G
        c.mk.writeGraph(G, d + "/want/n")
    if first in "24":
        pass
    elif out == "1":
        want["out_edgeList.csv"], want["out_nodeAttributes.csv"] = "n_edgeList.csv", "n_nodeAttributes.csv"
    else:
        want["out.csv"] = "n_edgeList.csv" if out == "2" else "n_nodeAttributes.csv"
    c.same_items(os.listdir(d), ["f0.isi", "f1.isi", "want"] + list(want), "files written")
    for f in want:
        c.check(c.eq(c.text(d + "/" + f), c.text(d + "/want/" + want[f])), "contents", f)


@harness("C39", quick=[dict(bad=b) for b in (0, 1)], bounds="any of the options, in their long or short form, before or after up to two files; an option there is not")
def options(c, bad):
    """Each option has one meaning, however it is spelled and wherever it stands."""
    import contextlib
    import io
    import sys
    import metaknowledge.bin.metaknowledgeCLI as cli
    want = dict(files=[], verbose=False, name=False, debug=False, quiet=False, suffix="")
    opts = []
    for o in ("verbose", "debug", "quiet", "name", "suffix"):
        k = c.pick(o, ["", "--" + o, "-" + o[0]] if o not in ("name", "suffix") else ["", "--" + o, "-" + o[0], "--" + o + "="])
        if k:
            v = True
            if o in ("name", "suffix"):
                v = o + "X"
                opts += [k + v] if k.endswith("=") else [k, v]
            else:
                opts.append(k)
            want[o] = v
    files = c.pick("files", [[], ["a"], ["a", "b c"]])
    want["files"] = files
    if bad:
        opts = opts + ["-x"]
    old = sys.argv
    sys.argv = ["mk"] + (opts + files if bad or c.truth(c.b("first")) else files + opts)
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            got = cli.argumentParser()
    except SystemExit as e:
        c.check(bad and e.code == 2, "refused", e.code)
        return
    finally:
        sys.argv = old
    c.check(not bad, "an option there is not")
    c.equal(vars(got), want, "options")


@harness("C39", quick=[dict(there=t) for t in (0, 1)], bounds="a graph of 3 nodes and two edges of free weights; pictures can be made or not, up to two of them before the file")
def view(c, there):
    """The graph is shown when that is asked for, and only offered where it can be; what follows is as without it."""
    import sys
    import types
    d = c.tmp()
    g, _ = build(c, "Graph", ("ab", "bc"), missing=False)
    shown = []
    fake = types.ModuleType("metaknowledge.contour")
    fake.quickVisual = lambda G, showLabel=False: shown.append(G)
    times = c.pick("times", [0, 1, 2])
    out = c.pick("out", ["2", "3"])
    cl = named(d + "/out")
    old = sys.modules.get("metaknowledge.contour")
    was = getattr(c.mk, "contour", None)
    sys.modules["metaknowledge.contour"] = fake if there else None
    if there:
        c.mk.contour = fake
    try:
        with Said(c, *(["0"] * times + [out])) as said:
            said.cli.outputNetwork(cl, g)
            menus = [x[0] for x in said.out if x and "view graph" in str(x[0])]
            said.done()
    finally:
        if old is None:
            del sys.modules["metaknowledge.contour"]
        else:
            sys.modules["metaknowledge.contour"] = old
        if was is None:
            if there:
                del c.mk.contour
        else:
            c.mk.contour = was
    c.equal(bool(menus), bool(there), "offered where it can be")
    c.equal(len(shown), times if there else 0, "shown as often as asked for")
    c.check(all(x is g for x in shown), "the graph itself")
    import os
    c.same_items(os.listdir(d), ["out.csv"], "file written")
    if out == "2":
        c.mk.writeEdgeList(g, d + "/want.csv")
    else:
        c.mk.writeNodeAttributeFile(g, d + "/want.csv")
    c.check(c.eq(c.text(d + "/out.csv"), c.text(d + "/want.csv")), "contents")
