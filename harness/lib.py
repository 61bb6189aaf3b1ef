"""Shared by the harnesses: alphabets, building records and comparing graphs."""

ASCII = "".join(map(chr, range(32, 127)))  # every printable character of ASCII
TEXT = ASCII + "\t\x0c\x85\u00e9\u2028"  # and what only looks like the end of a line
DIGITS = "0123456789"
LETTERS = "".join(x for x in ASCII if x.isalpha())


def but(*no, base=ASCII):
    """the alphabet without the characters given"""
    return "".join(x for x in base if x not in "".join(no))



def wos(c, uid, **fields):
    """A WOS record with the given tags; values are lists of raw lines (a string means one line)."""
    d = {"PT": ["J"], "UT": [uid]}
    for k, v in fields.items():
        if v is None:
            continue
        d[k] = list(v) if isinstance(v, (list, tuple)) else [v]
    return c.mk.WOSRecord(d)


def rc(c, recs, **k):
    return c.mk.RecordCollection(list(recs), quietStart=True, **k)


class Count:
    """A tally whose keys are compared by value, in first-seen order."""

    def __init__(self, c):
        self.c, self.rows = c, []

    def find(self, key):
        for r in self.rows:
            if self.c.truth(self.c.eq(r[0], key)):
                return r
        return None

    def add(self, key, n=1):
        r = self.find(key)
        if r is None:
            self.rows.append([key, n])
        else:
            r[1] = r[1] + n

    def get(self, key, default=0):
        r = self.find(key)
        return default if r is None else r[1]

    def set(self, key, v):
        r = self.find(key)
        if r is None:
            self.rows.append([key, v])
        else:
            r[1] = v

    def items(self):
        return [(k, v) for k, v in self.rows]

    def keys(self):
        return [k for k, _ in self.rows]

    def __len__(self):
        return len(self.rows)


class Pairs(Count):
    """A tally of unordered (or, if directed, ordered) pairs."""

    def __init__(self, c, directed=False):
        Count.__init__(self, c)
        self.directed = directed

    def find(self, key):
        c = self.c
        a, b = key[0], key[1]
        rest = tuple(key[2:])
        for r in self.rows:
            k = r[0]
            if c.truth(c.all_([c.eq(k[0], a), c.eq(k[1], b), c.eq(tuple(k[2:]), rest)])):
                return r
            if not self.directed and c.truth(c.all_([c.eq(k[0], b), c.eq(k[1], a), c.eq(tuple(k[2:]), rest)])):
                return r
        return None


def same_attrs(c, actual, expected, what):
    """actual: attribute dict; expected: list of (name, value)"""
    c.check(len(actual) == len(expected), what + ": which attributes", sorted(actual), sorted(k for k, _ in expected))
    for k, v in expected:
        c.check(k in actual, what + ": has " + k)
        if isinstance(v, list):
            c.same_items(actual[k], v, what + ": " + k)
        else:
            c.check(c.eq(actual[k], v), what + ": " + k, actual[k], v)


def check_graph(c, g, nodes, edges, directed=False, multi=False, what="graph"):
    """nodes: Count id -> [(attribute, value)]; edges: Pairs (a, b[, key]) -> [(attribute, value)]"""
    c.check(g.is_directed() == directed, what + ": directed", g.is_directed(), directed)
    c.check(g.is_multigraph() == multi, what + ": multigraph", g.is_multigraph(), multi)
    gn = list(g.nodes(data=True))
    c.check(len(gn) == len(nodes), what + ": number of nodes", [n for n, _ in gn], nodes.keys())
    for n, dat in gn:
        r = nodes.find(n)
        c.check(r is not None, what + ": expected node", n, nodes.keys())
        if r[1] is not None:
            same_attrs(c, dat, r[1], what + ": node")
    if multi:
        ge = [((u, v, k), dat) for u, v, k, dat in g.edges(keys=True, data=True)]
    else:
        ge = [((u, v), dat) for u, v, dat in g.edges(data=True)]
    c.check(len(ge) == len(edges), what + ": number of edges", [e for e, _ in ge], edges.keys())
    for e, dat in ge:
        r = edges.find(e)
        c.check(r is not None, what + ": expected edge", e, edges.keys())
        if r[1] is not None:
            same_attrs(c, dat, r[1], what + ": edge")
    c.observe(what, (len(gn), len(ge)))
