"""Pictures of graphs: what is drawn, where and in which colour. Matplotlib, the layout and the blur are stood in for."""
import sys
import types

from vf.ctx import harness


class Canvas:
    """a figure or the axes of one: remembers the surfaces drawn and lets everything else happen"""

    def __init__(self, log, deep=False):
        self.log, self.deep = log, deep

    def add_subplot(self, *a, projection=None, **k):
        return Canvas(self.log, projection == "3d")

    def gca(self, **k):
        if k:
            raise TypeError("FigureBase.gca() got an unexpected keyword argument")
        return Canvas(self.log)

    def contourf(self, X, Y, Z, levels=None, **k):
        self.log.append(("coloured" if self.deep else "flat", X, Y, Z, levels))

    def plot_surface(self, X, Y, Z, **k):
        self.log.append(("solid" if self.deep else "flat", X, Y, Z, None))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Drawn:
    """metaknowledge.contour on stand-ins for everything that lays out, blurs or draws"""
    NAMES = ("matplotlib", "matplotlib.pyplot", "mpl_toolkits", "mpl_toolkits.mplot3d")
    DRAW = ("draw_networkx", "draw_networkx_nodes", "draw_networkx_edges", "draw_networkx_labels", "spring_layout")

    def __init__(self, c, pos):
        self.c, self.pos = c, pos
        self.surfaces, self.nodes, self.edges, self.labels, self.asked, self.blurred = [], [], [], [], [], []

    def layout(self, G, k=None, pos=None, fixed=None, iterations=50, threshold=1e-4, weight="weight", scale=1, center=None, dim=2, seed=None, **o):
        import numpy as np
        self.asked.append(iterations)
        return {n: np.array(self.pos[n], dtype=float) * scale for n in G.nodes()}

    def draw_nodes(self, G, pos, nodelist=None, node_size=300, node_color="b", **k):
        for i, n in enumerate(G.nodes() if nodelist is None else nodelist):
            self.nodes.append((n, tuple(pos[n]), node_color if isinstance(node_color, str) else node_color[i], node_size))
        if not isinstance(node_color, str):
            self.c.equal(len(node_color), len(list(G.nodes() if nodelist is None else nodelist)), "a colour for each node")

    def draw_edges(self, G, pos, edgelist=None, **k):
        for e in (G.edges() if edgelist is None else edgelist):
            self.edges.append((tuple(e[:2]), tuple(pos[e[0]]), tuple(pos[e[1]])))

    def draw_labels(self, G, pos, labels=None, **k):
        for n in G.nodes():
            self.labels.append((n, tuple(pos[n]), n if labels is None else labels[n]))

    def draw(self, G, pos=None, arrows=None, with_labels=True, edgelist=None, nodelist=None, node_size=300, node_color="b", **k):
        self.draw_nodes(G, pos, nodelist, node_size, node_color)
        self.draw_edges(G, pos, edgelist)
        if with_labels:
            self.draw_labels(G, pos)

    def blur(self, grid, sigma, *a, **k):
        self.blurred.append((grid.copy(), sigma))
        return grid * 2

    def __enter__(self):
        import networkx as nx
        self.nx = nx
        self.old = {n: sys.modules.get(n) for n in self.NAMES}
        log = self.surfaces
        plt = types.ModuleType("matplotlib.pyplot")
        plt.figure = lambda *a, **k: Canvas(log)
        plt.axes = plt.subplot = lambda *a, projection=None, **k: Canvas(log, projection == "3d")
        plt.subplots = lambda *a, subplot_kw=None, **k: (Canvas(log), Canvas(log, (subplot_kw or {}).get("projection") == "3d"))
        for n in ("axis", "show", "draw", "clf", "close", "title"):
            setattr(plt, n, lambda *a, **k: None)
        new = {n: types.ModuleType(n) for n in self.NAMES}
        new["matplotlib.pyplot"] = plt
        new["matplotlib"].pyplot = plt
        new["mpl_toolkits"].mplot3d = new["mpl_toolkits.mplot3d"]
        new["mpl_toolkits.mplot3d"].Axes3D = lambda *a, **k: Canvas(log, True)
        sys.modules.update(new)
        import metaknowledge.contour.plotting as P
        self.P = P
        self.was = {n: getattr(nx, n) for n in self.DRAW}
        self.ndi, self.plt = P.ndi, P.plt
        P.plt = plt
        P.ndi = types.SimpleNamespace(gaussian_filter=self.blur)
        nx.spring_layout = self.layout
        nx.draw_networkx, nx.draw_networkx_nodes, nx.draw_networkx_edges, nx.draw_networkx_labels = self.draw, self.draw_nodes, self.draw_edges, self.draw_labels
        return self

    def __exit__(self, *a):
        for n, f in self.was.items():
            setattr(self.nx, n, f)
        self.P.ndi, self.P.plt = self.ndi, self.plt
        for n, m in self.old.items():
            if m is None:
                del sys.modules[n]
            else:
                sys.modules[n] = m


def near(a, b):
    return abs(float(a) - float(b)) < 1e-6


def snapshot(G):
    return [(n, dict(d)) for n, d in G.nodes(data=True)], [(u, v, dict(d)) for u, v, d in G.edges(data=True)]


@harness("C44", quick=[dict(n=n, directed=d) for n in (0, 1, 2, 3) for d in (0, 1)], thorough=[dict(n=4, directed=d) for d in (0, 1)],
         bounds="graphs of up to 3 (thorough 4) nodes, each with a free type of up to 1 character or none, a free edge, labels or not")
def visual(c, n, directed):
    """Every node and edge is drawn once, nodes of one type in one colour and those of two types in two."""
    import networkx as nx
    G = nx.DiGraph() if directed else nx.Graph()
    kinds = []
    for i in range(n):
        t = c.s("t%d" % i, ["abcd"]) if c.truth(c.b("has%d" % i)) else None
        kinds.append(t)
        G.add_node("N%d" % i, x=i, **({} if t is None else {"type": t}))
    if n > 1:
        G.add_edge("N0", "N%d" % c.pick("to", list(range(n))), weight=2)
    label = c.truth(c.b("label"))
    before = snapshot(G)
    with Drawn(c, {"N%d" % i: (i * .1, -i * .2) for i in range(n)}) as D:
        got, err = c.attempt(lambda: D.P.quickVisual(G, showLabel=label) if label else D.P.quickVisual(G))
    c.equal(snapshot(G), before, "the graph is as it was")
    if any(k is None for k in kinds) and any(k is not None for k in kinds):
        c.check(isinstance(err, RuntimeError), "only some with a type are refused", err)
        return
    c.check(err is None, "drawn", err)
    c.same_items([x[0] for x in D.nodes], list(G.nodes()), "each node once")
    c.same_items([x[0] for x in D.edges], list(G.edges()), "each edge once")
    c.same_items([(x[0], x[2]) for x in D.labels], [(x, x) for x in G.nodes()] if label else [], "labels")
    at = {x: p for x, p, _, _ in D.nodes}
    for (u, v), p, q in D.edges:
        c.check(p == at[u] and q == at[v], "an edge goes from node to node")
    for x, p, _ in D.labels:
        c.check(p == at[x], "a label is on its node")
    c.check(len(set(at.values())) == n, "at places of their own")
    colour = {x: k for x, _, k, _ in D.nodes}
    for i in range(n):
        for j in range(i):
            a, b = colour["N%d" % i], colour["N%d" % j]
            if kinds[i] is None:
                c.check(a == b, "all alike")
            else:
                c.check(c.truth(c.eq(kinds[i], kinds[j])) == (a == b), "alike when of one type", (a, b))


@harness("C44", quick=[dict(n=n) for n in (8, 10)], bounds="graphs of up to 10 nodes of as many types, one of them free")
def many_types(c, n):
    """However many types there are, one type has one colour, and the first eight differ."""
    import networkx as nx
    G = nx.Graph()
    for i in range(n):
        G.add_node(i, type="T%d" % i)
    k = c.pick("same", list(range(n)))
    G.add_node(n, type="T%d" % k)
    with Drawn(c, {i: (i * .01, 0) for i in range(n + 1)}) as D:
        D.P.quickVisual(G)
    colour = {x: k for x, _, k, _ in D.nodes}
    c.equal(len(D.nodes), n + 1, "each node once")
    c.equal(colour[n], colour[k], "one type, one colour")
    c.equal(len({colour[i] for i in range(8)}), 8, "eight types, eight colours")


@harness("C44", quick=[dict(given=g, nodes=n, over=o) for g in (0, 1, 2) for n in (0, 1, 2) for o in (0, 1)], thorough=[dict(given=g, nodes=3, over=o) for g in (0, 1, 2) for o in (0, 1)],
         bounds="graphs of up to 2 (thorough 3) nodes at any of 6 (3 for more than one) distances along each axis, grids of 3 to 6 cells; every option")
def density(c, given, nodes, over):
    """Each node counts once, in the cell it is in; the surface drawn is the blurred count of each cell."""
    import networkx as nx
    import numpy as np
    G = c.pick("kind", [nx.Graph, nx.DiGraph])()
    span = [-1, -.9, -.4, .1, .6, 1] if nodes < 2 else [-1, -.3, .8] if nodes < 3 else [-1, .8]
    places = {}
    for i in range(nodes):
        G.add_node("N%d" % i)
        places["N%d" % i] = (c.pick("x%d" % i, span), c.pick("y%d" % i, span))
    if nodes > 1:
        G.add_edge("N0", "N1")
    n = c.pick("n", [4, 7])
    scale = 1 if not given else 2.5
    kw = dict(axisSamples=n)
    layout = None
    if given:
        layout = {k: np.array(v) * scale if given == 1 else tuple(x * scale for x in v) for k, v in places.items()}
        kw.update(layout=layout, layoutScaleFactor=scale)
    was = None if layout is None else {k: tuple(v) for k, v in layout.items()}
    b, how = .1, "coloured"
    levels, iters = 15, 50
    if c.truth(c.b("options")):
        b, how, levels, iters = .3, "solid" if over else "coloured", 7, 3
        kw.update(blurringFactor=b, graphType=how, contours=levels, iters=iters)
    size = 10
    if over:
        kw["overlay"] = True
        size = c.pick("size", [10, 4])
        kw["nodeSize"] = size
    before = snapshot(G)
    with Drawn(c, places) as D:
        D.P.graphDensityContourPlot(G, **kw)
    c.equal(snapshot(G), before, "the graph is as it was")
    if given:
        c.check({k: tuple(v) for k, v in layout.items()} == was, "the layout is as it was")
        c.equal(D.asked, [], "no other layout")
    else:
        c.equal(D.asked, [iters], "a layout of so many steps")
    want = np.zeros((n, n))
    cells = {}
    for k, (x, y) in places.items():
        cells[k] = ((x + 1) / 2 * (n - 1), (y + 1) / 2 * (n - 1))
        want[round(cells[k][1])][round(cells[k][0])] += 1
    c.equal(len(D.blurred), 1, "blurred once")
    grid, sigma = D.blurred[0]
    c.check(grid.shape == (n, n) and bool((grid == want).all()), "the nodes of each cell")
    sigma = sigma if isinstance(sigma, (tuple, list)) else (sigma, sigma)
    c.check(len(sigma) == 2 and all(near(s, b * n) for s in sigma), "blurred as asked for")
    c.equal(len(D.surfaces), 1, "one surface")
    kind, X, Y, Z, lev = D.surfaces[0]
    c.equal(kind, how, "kind of surface")
    if how == "coloured":
        c.equal(lev, levels, "heights")
    c.check(Z.shape == (n, n) and bool((Z == want * 2).all()), "the blurred counts")
    X, Y = np.broadcast_arrays(X, Y)
    c.check(X.shape == (n, n) and all(X[i][j] == j and Y[i][j] == i for i in range(n) for j in range(n)), "cells are where they are counted")
    if over:
        c.same_items([x[0] for x in D.nodes], list(G.nodes()), "the graph is drawn")
        for k, p, _, s in D.nodes:
            c.check(near(p[0], cells[k][0]) and near(p[1], cells[k][1]), "below its density", k)
            c.equal(s, size, "size of nodes")
    else:
        c.equal(D.nodes, [], "only the surface is drawn")


@harness("C44", quick=[dict()], bounds="things that are no graph or no layout")
def density_refuses(c):
    import networkx as nx
    G = nx.path_graph(2)
    with Drawn(c, {0: (0, 0), 1: (1, 1)}) as D:
        f = D.P.graphDensityContourPlot
        for a, k in ((([1, 2],), {}), (("G",), {}), ((None,), {}), ((G,), dict(layout=[(0, 0), (1, 1)])), ((G,), dict(layout="spring"))):
            c.check(isinstance(c.raises(f, *a, **k), TypeError), "refused")
    c.equal((D.surfaces, D.nodes), ([], []), "nothing drawn")
