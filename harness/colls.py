"""Collections: set algebra, ids and errors, copies and chunks, caches, filters."""
import os
from vf.ctx import harness
from harness.lib import rc, wos


def ids_of(R):
    return [r.id for r in R]


def symset(c, p, n, alpha="123"):
    """(distinct ids, records) for n records with free ids"""
    ids = ["WOS:" + c.s("%s%d" % (p, i), [alpha]) for i in range(n)]
    return c.distinct(ids), [wos(c, x, TI="%s%d" % (p, i)) for i, x in enumerate(ids)]


OPS = {
    "or": (lambda a, b: a | b, lambda a, b: a.__ior__(b)),
    "and": (lambda a, b: a & b, lambda a, b: a.__iand__(b)),
    "sub": (lambda a, b: a - b, lambda a, b: a.__isub__(b)),
    "xor": (lambda a, b: a ^ b, lambda a, b: a.__ixor__(b)),
    "add": (lambda a, b: a + b, None),
}


def oracle(c, op, A, B):
    inA = lambda x: c.truth(c.member(x, A))
    inB = lambda x: c.truth(c.member(x, B))
    if op in ("or", "add"):
        return A + [x for x in B if not inA(x)]
    if op == "and":
        return [x for x in A if inB(x)]
    if op == "sub":
        return [x for x in A if not inB(x)]
    return [x for x in A if not inB(x)] + [x for x in B if not inA(x)]


@harness("C12", quick=[dict(op=o, n=n, m=m) for o in OPS for n, m in ((2, 2), (0, 1), (1, 0))], thorough=[dict(op=o, n=n, m=m) for o in OPS for n, m in ((3, 2), (2, 3), (3, 3))],
         bounds="collections of up to 2 (thorough 3) records with free ids; every pattern of errors")
def algebra(c, op, n, m):
    """Binary operators give the set the operator says, keep both error reports, and leave their operands alone."""
    A, ra = symset(c, "a", n)
    B, rb = symset(c, "b", m)
    ea, eb = c.b("bad_a"), c.b("bad_b")
    f, g = OPS[op]
    want = oracle(c, op, A, B)
    for how in (f, g):
        if how is None:
            continue
        X, Y = rc(c, ra, name="left"), rc(c, rb, name="right")
        if c.truth(ea):
            X.bad, X.errors = True, {"x": "ex"}
        if c.truth(eb):
            Y.bad, Y.errors = True, {"y": "ey"}
        Z = how(X, Y)
        c.check(isinstance(Z, c.mk.RecordCollection), "a collection")
        c.same_items(ids_of(Z), want, "records")
        c.equal(len(Z), len(want), "size")
        c.check(c.eq(Z.bad, c.any_([ea, eb])), "bad when either is")
        exp = ([("x", "ex")] if c.truth(ea) else []) + ([("y", "ey")] if c.truth(eb) else [])
        c.same_map(Z.errors.items(), exp, "errors of both")
        if how is f:
            c.same_items(ids_of(X), A, "left operand is as it was")
            c.check(X.name == "left" and Y.name == "right", "names are as they were")
            Z.add(wos(c, "WOS:9"))
            Z.errors["z"] = 1
            c.check(not X.containsID("WOS:9") and not Y.containsID("WOS:9"), "the result is a new collection")
            c.check("z" not in X.errors and "z" not in Y.errors, "the result has its own errors")
        else:
            c.check(Z is X, "changed in place")
            X.add(wos(c, "WOS:9"))
            c.check(not Y.containsID("WOS:9"), "the right operand is left alone")
        c.same_items(ids_of(Y), B, "right operand is as it was")
        if op != "add":
            c.check("left" in Z.name and "right" in Z.name, "named after both", Z.name)
        # which content: a record of an operand with that id
        for r in Z:
            if r.id != "WOS:9":
                c.check(c.any_([c.all_([r.id == q.id, r.title == q.title]) for q in ra + rb]), "a record of an operand")


@harness("C12", quick=[dict(n=n, m=m) for n, m in ((0, 0), (1, 1), (2, 1), (2, 2), (0, 1))], thorough=[dict(n=3, m=2), dict(n=3, m=3)],
         bounds="collections of up to 2 (thorough 3) records with free ids")
def comparison(c, n, m):
    """Collections are equal exactly when they hold the same records, and then hash alike."""
    A, ra = symset(c, "a", n)
    B, rb = symset(c, "b", m)
    X, Y = rc(c, ra, name="x"), rc(c, rb, name="y")
    same = len(A) == len(B) and all(c.truth(c.member(x, B)) for x in A)
    c.equal(X == Y, same, "equal")
    c.equal(X != Y, not same, "unequal")
    if same:
        c.check(hash(X) == hash(Y), "hash")
    c.equal(X.isdisjoint(Y), not any(c.truth(c.member(x, B)) for x in A), "disjoint")
    for r in ra + rb:
        c.check(c.eq(r in X, c.member(r.id, A)), "contains")
    c.equal(X == ra, False, "not a list")
    Z = rc(c, ra + rb)
    c.same_items(ids_of(Z), oracle(c, "or", A, B), "records once per id")


@harness("C12", quick=[dict(k=2, n=2), dict(k=3, n=1)], thorough=[dict(k=3, n=3), dict(k=4, n=2)],
         bounds="every sequence of up to 3 (thorough 4) changes with free ids")
def histories(c, k, n):
    """After any sequence of changes a collection holds what a set would."""
    A, ra = symset(c, "a", n)
    X = rc(c, ra)
    for j in range(k):
        what = c.pick("op%d" % j, ["add", "discard", "remove", "discardID", "removeID", "pop", "clear"])
        x = "WOS:" + c.s("x%d" % j, ["123"])
        there = c.truth(c.member(x, A))
        r = wos(c, x)
        if what != "clear":
            X.bad, X.errors = c.b("bad%d" % j), {"f": "e"}
            bad = X.bad
        err = None
        if what == "add":
            X.add(r)
            A = A + ([] if there else [x])
        elif what in ("discard", "remove", "discardID", "removeID"):
            err = c.raises(getattr(X, what), x if what.endswith("ID") else r)
            A = [y for y in A if not c.truth(c.eq(y, x))]
            if what.startswith("remove") and not there:
                c.check(isinstance(err, KeyError), "KeyError for a missing record", err)
            else:
                c.check(err is None, "no error", err)
        elif what == "pop":
            got, err = c.attempt(X.pop)
            if A:
                c.check(err is None and c.truth(c.member(got.id, A)), "a record of the collection")
                A = [y for y in A if not c.truth(c.eq(y, got.id))]
            else:
                c.check(isinstance(err, KeyError), "nothing to pop", err)
        else:
            X.bad, X.errors = True, {"f": "e"}
            X.clear()
            A = []
            c.check(X.bad is False and len(X.errors) == 0, "cleared")
        if what != "clear":
            c.check(c.truth(X.bad) == c.truth(bad) and X.errors == {"f": "e"}, "what is known of the files it was read from stays")
        # (which record pop takes is not said, so nothing after it is compared with the replay)
        got = ids_of(X)
        c.check(len(got) == len(A) and all(c.truth(c.member(y, got)) for y in A), "records", got, A)
        c.check(len(X) == len(A), "size")
    c.check(isinstance(c.raises(X.add, "WOS:1"), c.mk.CollectionTypeError), "only records")


@harness("C13", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=5)], bounds="up to 4 (thorough 5) records with free ids")
def by_id(c, n):
    """Asking for an id finds the record with that id, if there is one."""
    A, ra = symset(c, "a", n)
    x = "WOS:" + c.s("x", ["123"])
    there = c.truth(c.member(x, A))
    X = rc(c, ra)
    c.equal(X.containsID(x), there, "contains the id")
    got = X.getID(x)
    if there:
        c.check(got is not None and c.truth(c.eq(got.id, x)), "the record")
        c.check(got in X, "of the collection")
    else:
        c.check(got is None, "none")
    c.same_items(ids_of(X), A, "nothing changed")
    X.bad, X.errors = True, {"f": "e"}
    how = c.pick("how", ["discardID", "removeID"])
    err = c.raises(getattr(X, how), x)
    c.check(isinstance(err, KeyError) if how == "removeID" and not there else err is None, "only removing what is not there is an error", err)
    c.same_items(ids_of(X), [a for a in A if not c.truth(c.eq(a, x))], "all others stay")
    c.check(X.bad is True and X.errors == {"f": "e"}, "what is known of the files stays")
    c.check(not X.containsID(x) and X.getID(x) is None, "it is gone")


@harness("C13", quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=6)], bounds="up to 4 (thorough 6) records, each good or bad")
def bad_entries(c, n):
    """Bad entries are exactly the bad records; dropping them leaves the good ones and a clean report."""
    recs, good = [], []
    for i in range(n):
        if c.truth(c.b("bad%d" % i)):
            recs.append(c.mk.WOSRecord({"PT": ["J"], "TI": ["t%d" % i]}))
        else:
            r = wos(c, "WOS:%d" % i, TI=c.s("t%d" % i, ["ab"]))
            recs.append(r)
            good.append(r.id)
    X = rc(c, recs)
    X.bad, X.errors = True, {"f": "e"}
    B = X.badEntries()
    c.check(isinstance(B, c.mk.RecordCollection) and len(B) == n - len(good), "the bad entries", len(B))
    c.check(all(r.bad for r in B), "all bad")
    c.equal(len(X), n, "still there")
    X.dropBadEntries()
    c.same_items(ids_of(X), good, "good records stay")
    c.check(X.bad is False and len(X.errors) == 0, "clean")
    c.equal(len(X.badEntries()), 0, "none left")


@harness("C13", quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)], bounds="up to 3 (thorough 4) records, good or bad, with up to two optional fields")
def tags_of(c, n):
    """The tags of a collection are those of its records."""
    recs, want = [], []
    for i in range(n):
        k = {}
        bad = c.truth(c.b("bad%d" % i))
        for t in ("PT", "Title" if i else "ZZ") if bad else ("PT", "UT"):
            if t not in want:
                want.append(t)
        for t in ("AF", "DE"):
            if c.truth(c.b("%s%d" % (t, i))):
                k[t] = c.s("v%s%d" % (t, i), ["ab"])
                if t not in want:
                    want.append(t)
        if bad:
            k.update({"PT": ["J"], "Title" if i else "ZZ": ["z%d" % i]})
            recs.append(c.mk.WOSRecord({t: v if isinstance(v, list) else [v] for t, v in k.items()}))
        else:
            recs.append(wos(c, "WOS:%d" % i, **k))
    c.same_items(rc(c, recs).tags(), want, "tags")
    c.equal(len(rc(c, []).tags()), 0, "none")


@harness("C14", quick=[dict(n=n) for n in range(8)], thorough=[dict(n=n) for n in (10, 12)], bounds="up to 7 (thorough 12) records, every chunk size from 1 to one more than their number")
def chunks(c, n):
    """Chunks are as large as asked for except the last, share nothing, and together are the collection."""
    recs = [wos(c, "WOS:%d" % i, TI="t") for i in range(n)]
    size = c.pick("size", list(range(1, n + 2)))
    for how in ("chunk", "split"):
        X = rc(c, recs, name="all")
        X.bad, X.errors = True, {"f": "e"}
        parts = getattr(X, how)(size)
        c.equal(len(parts), (n + size - 1) // size, "number of chunks")
        seen = []
        for k, P in enumerate(parts):
            c.check(isinstance(P, c.mk.RecordCollection), "a collection")
            c.check(len(P) == size or k == len(parts) - 1 and 0 < len(P) <= size, "size", len(P))
            seen += ids_of(P)
        c.same_items(seen, [r.id for r in recs], "each record once")
        if how == "chunk":
            c.equal(len(X), n, "the collection stays")
            if parts:
                parts[0].clear()
                c.equal(len(X), n, "chunks are independent")
        else:
            c.equal(len(X), 0, "emptied")


@harness("C14", quick=[dict(n=n) for n in (0, 1, 2, 3)], thorough=[dict(n=4)], bounds="up to 3 (thorough 4) records; every way to change original or copy")
def copies(c, n):
    """A copy is equal and changing either leaves the other alone."""
    A, ra = symset(c, "a", n)
    X = rc(c, ra, name="x")
    X.errors = {"f": "e"}
    X.bad = True
    Y = X.copy()
    c.check(X == Y and Y.name == "x" and Y.bad is True and Y.errors == {"f": "e"}, "equal")
    P, Q = (X, Y) if c.truth(c.b("change the original")) else (Y, X)
    what = c.pick("what", ["add", "clear", "errors", "medline", "drop", "ior"])
    if what == "add":
        P.add(wos(c, "WOS:9"))
    elif what == "clear":
        P.clear()
    elif what == "errors":
        P.errors["g"] = "h"
    elif what == "medline":
        P.add(c.mk.MedlineRecord({"PMID": ["1"]}))
    elif what == "drop":
        P.dropNonJournals("X")
    else:
        P |= rc(c, [c.mk.MedlineRecord({"PMID": ["1"]})])
    c.same_items(ids_of(Q), A, "records of the other")
    c.check(Q.name == "x" and Q.bad is True and Q.errors == {"f": "e"}, "report of the other")
    out = c.tmp() + "/o.isi"
    Q.writeFile(out)
    if n:
        c.check("VR 1.0" in c.text(out), "the other is still a Web of Science collection")
    p = X.peek()
    c.check(p is None if len(X) == 0 else p in X, "peek")


def isi(recs, end="EF"):
    t = "\ufeffFN x\nVR 1.0\n"
    for uid, ti in recs:
        t += "PT J\nTI %s\nUT %s\nER\n\n" % (ti, uid)
    return t + end


def contents(R):
    return sorted((r.id, r.title) for r in R)


@harness("C15", quick=[dict(what=w) for w in ("same", "changed", "added", "removed", "name", "extension", "twice", "swap", "version")],
         bounds="a directory of two files with any modification times, changed in any of the listed ways between readings")
def cache(c, what):
    """Reading a directory through the cache gives what reading its files gives."""
    t = [c.i("mtime%d" % i, 1, 5) for i in range(2)]
    d = c.tmp() + "/d"
    names = ["a.isi", "b.isi"]
    ti = [c.s("ti%d" % i, ["xy"]) for i in range(2)]
    for i in range(2):
        c.put("d/" + names[i], isi([("WOS:%d" % i, ti[i])], end="EF" if i else ""), mtime=t[i])
    X = c.mk.RecordCollection(d, cached=True, quietStart=True)
    want = [("WOS:0", ti[0]), ("WOS:1", ti[1])]
    kw = {}
    if what in ("changed", "twice"):
        t2 = c.i("mtime2", 1, 5)
        c.assume(c.not_(c.eq(t2, t[1])))
        new = c.s("ti2", ["xy"])
        c.put("d/b.isi", isi([("WOS:1", new), ("WOS:2", "q")]), mtime=t2)
        want = [want[0], ("WOS:1", new), ("WOS:2", "q")]
        if what == "twice":
            c.mk.RecordCollection(d, cached=True, quietStart=True)
    elif what == "added":
        c.put("d/c.isi", isi([("WOS:5", "q")]), mtime=c.i("mtime2", 1, 5))
        want.append(("WOS:5", "q"))
    elif what == "removed":
        import os
        os.remove(d + "/b.isi")
        want = want[:1]
    elif what == "swap":
        import os
        os.remove(d + "/b.isi")
        c.put("d/c.isi", isi([("WOS:5", "q")]), mtime=t[1])
        want = [want[0], ("WOS:5", "q")]
    elif what == "name":
        kw["name"] = "other"
    elif what == "extension":
        kw["extension"] = ".isi"
    elif what == "version":
        import metaknowledge.mkCollection as m
        old = m.__version__
        m.__version__ = old + "x"
    try:
        Y = c.mk.RecordCollection(d, cached=True, quietStart=True, **kw)
    finally:
        if what == "version":
            m.__version__ = old
    Z = c.mk.RecordCollection(d, quietStart=True, **kw)
    for R, w in ((Y, "with the cache"), (Z, "without")):
        c.same_items([(r.id, r.title) for r in R], want, w)
        c.check(R.bad is True and list(R.errors) == [d + "/a.isi"], "errors " + w, list(R.errors))
    c.check(Y.name == Z.name and Y == Z, "the same collection")
    W = c.mk.RecordCollection(d, cached=True, quietStart=True, **kw)
    c.same_items([(r.id, r.title) for r in W], want, "and again")


@harness("C15", quick=[dict(damage=d) for d in ("cut", "foreign")], bounds="a cache file that ends at any of 40 places, or holds something else")
def cache_damaged(c, damage):
    """A cache file that was not written completely, or is not one, is replaced."""
    import os
    import pickle
    ti = c.s("ti", ["xy"])
    c.put("d/a.isi", isi([("WOS:0", ti)]), mtime=3)
    d = c.tmp() + "/d"
    c.mk.RecordCollection(d, cached=True, quietStart=True)
    p = [f for f in os.listdir(d) if f.endswith("mkRecordDirCache")]
    c.check(len(p) == 1, "a cache file", p)
    p = d + "/" + p[0]
    if damage == "cut":
        k = c.pick("at", list(range(41)))
        n = os.path.getsize(p)
        os.truncate(p, n * k // 41)
    else:
        k = c.pick("at", list(range(5)))
        with open(p, "wb") as f:
            f.write([b"", b"garbage\n", pickle.dumps(7), pickle.dumps((1, 2)), pickle.dumps(({}, None))][k])
    X, err = c.attempt(c.mk.RecordCollection, d, cached=True, quietStart=True)
    c.check(err is None, "read anyway", err)
    c.same_items([(r.id, r.title) for r in X], [("WOS:0", ti)], "records")
    Y = c.mk.RecordCollection(d, cached=True, quietStart=True)
    c.same_items([(r.id, r.title) for r in Y], [("WOS:0", ti)], "records from the new cache")


@harness("C15", quick=[dict(n=2)], bounds="a directory with files of every kind, names with and without the extension asked for")
def directory(c, n):
    """A directory gives the records of its files with the extension asked for; errors are reported by file."""
    ti = c.s("ti", ["xy"])
    uid = "WOS:" + c.s("u", ["12"])
    base = c.pick("base", ["d", "mkRecordDirCache", "a.mkRecordDirCache.b", "c.isi", ".isi", "d e.dat"])
    put = lambda name, *k, **kw: c.put(base + "/" + name, *k, **kw)
    put("a.isi", isi([("WOS:1", ti)]))
    put("b.isi", isi([(uid, ti)], end=""))
    put("c.txt", "\nPMID- 4\nTI  - %s\n\n" % ti, encoding="latin-1")
    put("e.dat", "nothing")
    os.mkdir(c.tmp() + "/" + base + "/f.isi")
    d = c.tmp() + "/" + base
    for sub in ("f.isi/g.isi", "f.isi/.isi"):
        put(sub, isi([("WOS:77", ti)]))
    X = c.mk.RecordCollection(d, quietStart=True)
    c.same_items(ids_of(X), c.distinct(["WOS:1", uid]) + ["PMID:4"], "all files")
    c.check(X.bad is True and list(X.errors) == [d + "/b.isi"], "errors by file", list(X.errors))
    Y = c.mk.RecordCollection(d, extension=".isi", quietStart=True)
    c.same_items(ids_of(Y), c.distinct(["WOS:1", uid]), "files with the extension")
    c.check(isinstance(c.raises(c.mk.RecordCollection, d, extension=".dat", quietStart=True), c.mk.BadInputFile), "unreadable file with the extension")
    c.check(isinstance(c.raises(c.mk.RecordCollection, d + "/nothing", quietStart=True), c.mk.RCTypeError), "no such file")


# ------------------------------------------------------------------ filters
@harness("C16", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], bounds="up to 2 (thorough 3) records of any year 2000-2004 or none, any range")
def year_split(c, n):
    """Exactly the records from the first to the last year."""
    recs, ys = [], []
    for i in range(n):
        y = c.pick("y%d" % i, [None, 2000, 2001, 2002, 2003, 2004])
        recs.append(wos(c, "WOS:%d" % i, PY=None if y is None else str(y)))
        ys.append(y)
    lo, hi = c.i("from", 1999, 2005), c.i("to", 1999, 2005)
    X = rc(c, recs, name="n")
    Y = X.yearSplit(lo, hi)
    c.same_items(ids_of(Y), ["WOS:%d" % i for i, y in enumerate(ys) if y is not None and c.truth(c.all_([lo <= y, y <= hi]))], "records of the range")
    c.equal(len(X), n, "the collection stays")
    if None in ys:
        c.check(isinstance(c.raises(X.yearSplit, lo, hi, dropMissingYears=False), TypeError), "a record without a year")
    else:
        B = rc(c, recs + [c.mk.WOSRecord({"PT": ["J"], "TI": ["no id"]})])
        c.check(B.yearSplit(lo, hi) == Y, "a bad record without a year is left out")
        c.check(isinstance(c.raises(B.yearSplit, lo, hi, dropMissingYears=False), TypeError), "a bad record without a year")
    Y.add(c.mk.MedlineRecord({"PMID": ["1"]}))
    c.check(not X.containsID("PMID:1"), "independent")


@harness("C16", quick=[dict(n=n, kind=k) for n in (1, 2) for k in ("", "bad", "scopus", "medline")], thorough=[dict(n=3, kind=k) for k in ("", "bad", "scopus", "medline")],
         bounds="up to 2 (thorough 3) records with a free type or none, and one more that is bad or of another kind; any type asked for")
def non_journals(c, n, kind):
    """Exactly the records of the asked for type stay (or, inverted, go)."""
    recs, pts = [], []
    for i in range(n):
        pt = c.pick("pt%d" % i, ["J", "B", "JB", None])
        d = {"UT": ["WOS:%d" % i]}
        if pt:
            d["PT"] = [pt]
        recs.append(c.mk.WOSRecord(d))
        pts.append((recs[-1].id, pt, False))
    if kind:
        x = {"bad": c.mk.WOSRecord({"PT": ["J"]}), "scopus": c.mk.ScopusRecord({"EID": "1"}), "medline": c.mk.MedlineRecord({"PMID": ["1"]})}[kind]
        recs.append(x)
        pts.append((x.id, "J" if kind == "bad" else None, kind == "bad"))
    want = c.pick("want", ["J", "j", "B", "jb", ""])
    inv, drop = c.truth(c.b("invert")), c.truth(c.b("drop"))
    X = rc(c, recs)
    X.dropNonJournals(want, dropBad=drop, invert=inv)
    c.same_items(ids_of(X), [u for u, pt, bad in pts if not (bad and drop) and (pt == want.upper()) != inv], "records of that type")


FIELDS = ("all", "author", "year", "journal", "V", "P", "misc", "anonymous", "bad")


@harness("C16", quick=[dict(field=f, n=2) for f in FIELDS], thorough=[dict(field=f, n=3) for f in FIELDS],
         bounds="up to 2 (thorough 3) records with one or no citation whose parts are free, any key of one or no character")
def cite_filter(c, field, n):
    """Exactly the records with a citation that has the key in the field, or exactly the others."""
    recs, parts = [], []
    for i in range(n):
        how = c.pick("kind%d" % i, ["full", "none", "anon", "short"] + (["left"] if field in ("misc", "bad", "V") else []))
        if how == "none":
            recs.append(wos(c, "WOS:%d" % i))
            parts.append(None)
            continue
        a, j, y, v, p = ("A" + c.s("a%d" % i, ["xY"]), "J" + c.s("j%d" % i, ["KL"]), 2000 + c.pick("y%d" % i, [0, 1]),
                         "V" + c.s("v%d" % i, ["12"]), "P" + c.s("p%d" % i, ["34"]))
        m = None
        if how == "full":
            s = "%s, %d, %s, %s, %s" % (a, y, j, v, p)
        elif how == "left":
            m = "M" + c.s("m%d" % i, ["n1"])
            s = "%s, %d, %s, %s, %s, %s" % (a, y, j, v, p, m)
        elif how == "anon":
            a = "[ANONYMOUS]"
            s = "%s, %d, %s" % (a, y, j)
            v = p = None
        else:
            s = j
        recs.append(wos(c, "WOS:%d" % i, CR=s))
        parts.append(dict(all=s, author=a, year=y, journal=j, V=v, P=p, misc=m, kind=how))
    key = {"all": lambda: c.s("key", ["xXk2,"]), "author": lambda: c.s("key", ["xXyA["]), "year": lambda: str(2000 + c.pick("ky", [0, 1, 2])),
           "journal": lambda: c.s("key", ["kKJ"]), "V": lambda: c.s("key", ["12"]), "P": lambda: c.s("key", ["34"]), "misc": lambda: c.s("key", ["nNM1"])}.get(field, lambda: "")()
    blank = field in ("all", "author", "year", "journal", "V", "P", "misc") and c.truth(c.b("blank"))
    if blank:
        key = ""
    case = c.truth(c.b("case")) if field == "all" else False
    hit = []
    for r, p in zip(recs, parts):
        if p is None:
            ok = False
        elif field == "all":
            ok = (key in p["all"]) if case else (key.upper() in p["all"].upper())
        elif field == "bad":
            ok = p["kind"] in ("short", "left")
        elif field == "anonymous":
            ok = p["kind"] == "anon"
        elif p["kind"] == "short" or p[field] is None:
            ok = False
        elif field == "year":
            ok = blank or key == str(p["year"])
        else:
            ok = key.upper() in p[field].upper()
        if p is not None and p["kind"] == "short" and field in ("journal", "author", "year", "V", "P", "misc"):
            # how a citation that could not be parsed is split is not specified
            ok = None
        hit.append(ok if ok is None else c.truth(ok))
    X = rc(c, recs)
    for rev in (False, True):
        Y = X.citeFilter(key, field, reverse=rev, caseSensitive=case)
        for i, h in enumerate(hit):
            if h is not None:
                c.equal(Y.containsID("WOS:%d" % i), h != rev, "record %d%s" % (i, " reversed" if rev else ""))
        c.equal(len(X), n, "the collection stays")


@harness("C16", quick=[dict(how=h, n=2) for h in ("record", "id", "string", "citation")], thorough=[dict(how=h, n=3) for h in ("record", "id", "string", "citation")],
         bounds="up to 2 (thorough 3) records, each citing one or no work of free author and year")
def cites_of(c, how, n):
    """Exactly the records that cite the work."""
    a, y = "A" + c.s("a", ["XY"]), 2000 + c.pick("y", [0, 1])
    T = wos(c, "WOS:9", AU="%s, B" % a, PY=str(y), J9="JJ")
    me = "%s B, %d, JJ" % (a, y)
    recs, want = [T], []
    for i in range(n):
        if c.truth(c.b("cites%d" % i)):
            ai, yi = "A" + c.s("a%d" % i, ["XY"]), 2000 + c.pick("y%d" % i, [0, 1])
            recs.append(wos(c, "WOS:%d" % i, CR=["[Anonymous], 1999, ZZ", "%s B, %d, JJ" % (ai, yi)]))
            if c.truth(c.all_([c.eq(a, ai), y == yi])):
                want.append("WOS:%d" % i)
        else:
            recs.append(wos(c, "WOS:%d" % i))
    X = rc(c, recs)
    q = {"record": T, "id": "WOS:9", "string": me, "citation": c.mk.Citation(me)}[how]
    Y = X.localCitesOf(q)
    c.same_items(ids_of(Y), want, "citing records")
    c.check(isinstance(c.raises(X.localCitesOf, 5), ValueError), "anything else is refused")


@harness("C16", quick=[dict(n=2)], thorough=[dict(n=3)], bounds="up to 2 (thorough 3) records, each citing an anonymous work of a free year or none; asked for by its text or as a citation")
def cites_of_anonymous(c, n):
    """Anonymous works are found like others."""
    t = "[Anonymous], 199%s, JJ" % c.s("t", ["12"])
    recs, want = [], []
    for i in range(n):
        ti = "[Anonymous], 199%s, JJ" % c.s("t%d" % i, ["12"]) if c.b("cites%d" % i) else "Doe J, 1999, ZZ"
        recs.append(wos(c, "WOS:%d" % i, CR=[ti]))
        if c.truth(c.eq(t, ti)):
            want.append("WOS:%d" % i)
    X = rc(c, recs)
    for q in (t, c.mk.Citation(t)):
        c.same_items(ids_of(X.localCitesOf(q)), want, "citing records")


@harness("C16", quick=[dict(n=2)], thorough=[dict(n=3)], bounds="up to 2 (thorough 3) records, each citing a work that cannot be read as a citation, another one, or none; asked for by its text or as a citation")
def cites_of_unreadable(c, n):
    """Works that could not be parsed are found by their text."""
    t = "ANON " + c.s("t", ["ABC", 2])
    recs, want = [], []
    for i in range(n):
        if c.b("cites%d" % i):
            ti = "ANON " + c.s("t%d" % i, ["ABC", 2])
            recs.append(wos(c, "WOS:%d" % i, CR=["Doe J, 1999, ZZ", ti]))
            if c.truth(c.eq(t, ti)):
                want.append("WOS:%d" % i)
        else:
            recs.append(wos(c, "WOS:%d" % i))
    X = rc(c, recs)
    for q in (t, c.mk.Citation(t)):
        c.same_items(ids_of(X.localCitesOf(q)), want, "citing records")


@harness("C16", quick=[dict(n=2, k=3), dict(n=3, k=2)], thorough=[dict(n=3, k=3), dict(n=4, k=2)], bounds="up to 3 (thorough 4) records, each citing the work asked for up to 2 or 3 times next to one that may be the same; by its text and as a citation")
def cites_of_repeats(c, n, k):
    """Records that cite a work several times are among those citing it, once."""
    t = "Doe J, 1999, " + c.s("t", ["ABC", 2])
    recs, want = [], []
    for i in range(n):
        m = c.pick("m%d" % i, list(range(k + 1)))
        other = "Doe J, 1999, " + c.s("t%d" % i, ["ABC", 2])
        recs.append(wos(c, "WOS:%d" % i, CR=[t] * m + [other]))
        if m or c.truth(c.eq(t, other)):
            want.append("WOS:%d" % i)
    X = rc(c, recs)
    for q in (t, c.mk.Citation(t)):
        Z = X.localCitesOf(q)
        c.same_items(ids_of(Z), want, "citing records")
        c.check(len(Z) == len(want), "each once", len(Z), len(want))
    c.check(len(X) == n, "the collection is left as it was", len(X), n)


# ------------------------------------------------------------------ further collections
@harness("C12", quick=[dict(op=o, n=2) for o in OPS], bounds="a collection of 2 records with free ids and itself, collections of grants, sets and lists")
def algebra_special(c, op, n):
    """A collection combined with itself, and with what is no collection of its kind."""
    A, ra = symset(c, "a", n)
    f, g = OPS[op]
    want = oracle(c, op, A, A)
    for how in (f, g):
        if how is None:
            continue
        X = rc(c, ra, name="x")
        Z = how(X, X)
        c.same_items(ids_of(Z), want, "with itself")
        if how is f:
            c.same_items(ids_of(X), A, "left as it was")
    if op == "add":
        return
    X = rc(c, ra, name="x")
    G = c.mk.GrantCollection()
    for other in ({1}, frozenset(), 5, None, "WOS:1"):
        e = c.raises(f, X, other)
        c.check(isinstance(e, TypeError), "refused", e)
        import operator
        e = c.raises({"or": operator.ior, "and": operator.iand, "sub": operator.isub, "xor": operator.ixor}[op], X, other)
        c.check(isinstance(e, TypeError), "refused in place", e)
        c.same_items(ids_of(X), A, "left as it was")
        c.check(X.name == "x" and X.bad is False, "name and report")
    c.check((X == G) is False and (X != G) is True, "not equal to a collection of another kind")


@harness("C12", quick=[dict(n=n, m=m) for n, m in ((2, 1), (1, 2))], bounds="collections of up to 2 records with free ids, one made from the other's records, by every way of making one")
def making(c, n, m):
    """Collections made from any iterable hold its records, once per id, whatever becomes of it; anything else is refused."""
    A, ra = symset(c, "a", n)
    B, rb = symset(c, "b", m)
    for kind in ("list", "set", "generator", "collection", "dict"):
        src = ra + rb
        if kind == "set":
            src = set(src)
        elif kind == "generator":
            src = (r for r in src)
        elif kind == "collection":
            src = rc(c, src, name="old")
        elif kind == "dict":
            src = {r: 1 for r in src}
        X = c.mk.RecordCollection(src, quietStart=True)
        want = oracle(c, "or", A, B)
        c.same_items(ids_of(X), want, "records from a " + kind)
        c.check(X.bad is False and len(X.errors) == 0, "no errors")
        X.add(wos(c, "WOS:9"))
        if kind in ("list", "set", "dict"):
            c.check(all(r.id != "WOS:9" for r in src), "its own records")
            X.clear()
            c.check(len(list(src)) >= len(want), "the iterable stays")
        elif kind == "collection":
            c.check(not src.containsID("WOS:9") and len(src) == len(want), "the other collection stays")
            X.clear()
            c.equal(len(src), len(want), "the other collection still stays")
    c.equal(len(c.mk.RecordCollection()), 0, "empty")
    E = c.mk.RCTypeError
    for bad in (5, 1.5, ra + ["WOS:1"], [None], (x for x in ["a"])):
        c.check(isinstance(c.raises(c.mk.RecordCollection, bad), E), "refused", bad)
    R = rc(c, ra)
    c.check(isinstance(c.raises(R.add, c.mk.Citation("A, 1999, B")), c.mk.CollectionTypeError), "only records can be added")
    c.same_items(ids_of(R), A, "left as it was")


@harness("C12", quick=[dict(n=2)], bounds="two collections of 2 records with free ids, with several errors each")
def errors_joined(c, n):
    """Reports of several errors are kept, also when both are about one file; the operands' own stay as they were."""
    A, ra = symset(c, "a", n)
    B, rb = symset(c, "b", n)
    for op, (f, g) in sorted(OPS.items()):
        for how in (f, g):
            if how is None:
                continue
            X, Y = rc(c, ra), rc(c, rb)
            X.bad = Y.bad = True
            X.errors, Y.errors = {"x1": 1, "x2": 2, "z": 3}, {"y1": 4, "z": 3, "y2": 5}
            Z = how(X, Y)
            c.same_map(Z.errors.items(), [("x1", 1), ("x2", 2), ("z", 3), ("y1", 4), ("y2", 5)], "all errors")
            c.check(Z.bad is True and Y.bad is True and len(Y.errors) == 3, "right operand")
            if how is f:
                c.check(len(X.errors) == 3 and X.bad is True, "left operand")


@harness("C12", quick=[dict(op=o) for o in ("or", "and", "sub", "xor")], bounds="two collections of 2 grants with free ids")
def grant_algebra(c, op):
    """Collections of grants are sets as well."""
    def grants(p):
        ids = [c.s("%s%d" % (p, i), ["123"]) for i in range(2)]
        return c.distinct(["NSERC:" + x for x in ids]), [c.mk.NSERCGrant("%s%d" % (p, i), {"Cle": x}, "f", i) for i, x in enumerate(ids)]
    A, ga = grants("a")
    B, gb = grants("b")
    want = oracle(c, op, A, B)
    f, g = OPS[op]
    for how in (f, g):
        X, Y = c.mk.GrantCollection(ga), c.mk.GrantCollection(gb)
        c.same_items([q.id for q in X], A, "once per id")
        Z = how(X, Y)
        c.check(isinstance(Z, c.mk.GrantCollection), "a collection of grants")
        c.same_items([q.id for q in Z], want, "grants")
        c.same_items([q.id for q in Y], B, "right operand")
        if how is f:
            c.same_items([q.id for q in X], A, "left operand")
    for q in ga:
        c.check(X.containsID(q.id) == (how is not None and c.truth(c.member(q.id, want))), "found by id")


@harness("C13", quick=[dict(kind=k) for k in ("medline", "scopus", "proquest", "grant")], bounds="three entries of each kind with free ids, looked up by a free id")
def by_id_kinds(c, kind):
    """Lookup works for all kinds of records, and for grants."""
    vals = [c.s("id%d" % i, ["12"]) for i in range(3)]
    x = c.s("x", ["123"])
    if kind == "grant":
        pre, items = "NSERC:", [c.mk.NSERCGrant("o%d" % i, {"Cle": v}, "f", i) for i, v in enumerate(vals)]
        X = c.mk.GrantCollection(items)
    else:
        cls, tag, pre = {"medline": (c.mk.MedlineRecord, "PMID", "PMID:"), "scopus": (c.mk.ScopusRecord, "EID", "EID:"), "proquest": (c.mk.ProQuestRecord, "ProQuest document ID", "")}[kind]
        items = [cls({tag: [v] if kind != "scopus" else v}) for v in vals]
        pre = items[0].id[:-1]
        X = c.mk.RecordCollection(items)
    nameless = {"medline": lambda: c.mk.MedlineRecord({"TI": ["t"]}), "scopus": lambda: c.mk.ScopusRecord({"Title": "t"}), "proquest": lambda: c.mk.ProQuestRecord({"Title": ["t"]})}
    if kind in nameless and c.pick("nameless", [0, 1]):
        y = nameless[kind]()
        Y = c.mk.RecordCollection([y] + items)
        c.check(not Y.containsID("None") and Y.getID("None") is None and not Y.containsID("") and Y.getID("") is None, "a record without an id has none")
        c.check(isinstance(c.raises(Y.removeID, "None"), KeyError), "it is not removed by it")
        Y.discardID("None")
        Y.discardID("")
        c.check(y in Y and len(Y) == len(X) + 1, "it stays")
    ids = c.distinct([i.id for i in items])
    c.same_items([i.id for i in X], ids, "entries")
    there = c.truth(c.member(pre + x, ids))
    c.check(X.containsID(pre + x) is there, "contains")
    got = X.getID(pre + x)
    c.check((got is not None) is there and (not there or c.truth(c.eq(got.id, pre + x))), "found")
    e = c.raises(X.removeID, pre + x)
    c.check((e is None) if there else isinstance(e, KeyError), "removed or missing", e)
    c.same_items([i.id for i in X], [i for i in ids if not c.truth(c.eq(i, pre + x))], "exactly that one is gone")
    X.discardID(pre + x)
    c.equal(len(X), len(ids) - (1 if there else 0), "discarding twice is no error")


@harness("C15", quick=[dict(what=w) for w in ("extension first", "extension both", "three", "touched", "same size")], bounds="a directory of two files, with titles and times free, changed again and again")
def cache_histories(c, what):
    """The cache is right after several changes, and for every extension."""
    import os
    ti = [c.s("ti%d" % i, ["xy"]) for i in range(3)]
    d = c.tmp() + "/p/d"
    c.put("p/d/a.isi", isi([("WOS:0", ti[0])]), mtime=3)
    c.put("p/d/b.txt", isi([("WOS:1", ti[1])]), mtime=c.i("t1", 1, 5))
    want = [("WOS:0", ti[0]), ("WOS:1", ti[1])]

    def read(w, path=None, **k):
        R = c.mk.RecordCollection(path or d, cached=True, quietStart=True, **k)
        c.same_items([(r.id, r.title) for r in R], w, what)
        c.check(R.bad is False, "no errors")
        return R
    if what.startswith("extension"):
        ext = [".isi", ""] if what == "extension first" else ["", ".isi"]
        for e in ext + ext:
            read(want if not e else want[:1], extension=e)
        new = c.s("new", ["xy"])
        c.put("p/d/a.isi", isi([("WOS:0", new)]), mtime=4)
        want[0] = ("WOS:0", new)
        for e in ext:
            read(want if not e else want[:1], extension=e)
    elif what == "three":
        read(want)
        for k in range(3):
            ch = c.pick("change%d" % k, ["edit", "add", "drop", "none"])
            if ch == "edit":
                c.put("p/d/a.isi", isi([("WOS:0", "v%d" % k)]), mtime=10 + k)
                want[0] = ("WOS:0", "v%d" % k)
            elif ch == "add":
                c.put("p/d/n%d.isi" % k, isi([("WOS:9%d" % k, "n")]), mtime=3)
                want.append(("WOS:9%d" % k, "n"))
            elif ch == "drop" and len(want) > 2:
                u = want.pop()[0]
                os.remove(d + "/n%s.isi" % u[-1])
            read(want)
    elif what == "touched":
        read(want)
        t = c.i("t2", 1, 9)
        os.utime(d + "/a.isi", (t, t))
        read(want)
    else:
        read(want)
        c.put("p/d/a.isi", isi([("WOS:0", ti[2])]), mtime=4)
        read([("WOS:0", ti[2]), want[1]])


@harness("C15", quick=[dict()], bounds="files and directories with free names, extensions and subdirectories")
def sources(c):
    """One file is read alone; directories only have the files in them, of every kind; names follow from the path."""
    ti = c.s("ti", ["xy"])
    c.put("d/a.isi", isi([("WOS:1", ti)]))
    c.put("d/sub/b.isi", isi([("WOS:2", ti)]))
    c.put("d/isi", isi([("WOS:3", ti)]))
    c.put("d/x.isi.txt", isi([("WOS:4", ti)]))
    d = c.tmp() + "/d"
    X = c.mk.RecordCollection(d + "/a.isi", quietStart=True)
    c.check(ids_of(X) == ["WOS:1"] and X.name == "a", "one file", X.name)
    X = c.mk.RecordCollection(d + "/a.isi", extension=".isi", name="n", quietStart=True, cached=True)
    c.check(ids_of(X) == ["WOS:1"] and X.name == "n", "one file with name and extension", X.name)
    c.check(isinstance(c.raises(c.mk.RecordCollection, d + "/a.isi", extension=".txt"), c.mk.RCTypeError), "a file with another extension")
    X = c.mk.RecordCollection(d, quietStart=True)
    c.same_items(ids_of(X), ["WOS:1", "WOS:3", "WOS:4"], "the files of the directory")
    c.check(X.name == "files-from-" + d, "name")
    X = c.mk.RecordCollection(d, extension=".isi", quietStart=True)
    c.same_items(ids_of(X), ["WOS:1"], "the files with the extension")
    c.check(X.name == ".isi-files-from-" + d, "name with the extension")
    X = c.mk.RecordCollection(d, extension="isi", quietStart=True, name="q")
    c.same_items(ids_of(X), ["WOS:1", "WOS:3"], "the files with the end")
    c.equal(X.name, "q", "name given")


POOL = ("wos", "medline", "scopus", "proquest", "bad1", "bad2", "badmed")


def of_pool(c, k, x=1):
    """an entry of the pool, a new one at each call"""
    if k == "wos":
        return wos(c, "WOS:%d" % x)
    if k == "bad1":
        return c.mk.WOSRecord("PT J\nUT WOS:%d" % x)
    if k == "bad2":
        return c.mk.WOSRecord({"PT": ["J"], "AU": ["X Y"]})
    if k == "badmed":
        return c.mk.MedlineRecord({"TI": ["A title"]})
    cls, tag = {"medline": (c.mk.MedlineRecord, "PMID"), "scopus": (c.mk.ScopusRecord, "EID"), "proquest": (c.mk.ProQuestRecord, "ProQuest document ID")}[k]
    return cls({tag: "%d" % x if k == "scopus" else ["%d" % x]})


TRIOS = (("wos", "bad1", "bad2"), ("medline", "badmed", "wos"), ("scopus", "proquest", "bad2"), ("bad1", "wos", "scopus"))


@harness("C12", quick=[dict(pool=p) for p in TRIOS], bounds="two collections of any of 3 records (of all kinds, good and bad), each record another object with the same contents; free error states, errors with and without being about a bad record")
def mixed(c, pool):
    """Bad records and those of other kinds are kept, dropped and compared like all others."""
    inA, inB = [c.truth(c.b("a%d" % i)) for i in range(len(pool))], [c.truth(c.b("b%d" % i)) for i in range(len(pool))]
    badA, badB = c.truth(c.b("badA")), c.truth(c.b("badB"))
    one = [of_pool(c, k) for k in pool]
    for op in ("or", "and", "sub", "xor"):
        keep = [{"or": a or b, "and": a and b, "sub": a and not b, "xor": a != b}[op] for a, b in zip(inA, inB)]
        for how in OPS[op]:
            X = rc(c, [of_pool(c, k) for k, a in zip(pool, inA) if a], name="left")
            Y = rc(c, [of_pool(c, k) for k, b in zip(pool, inB) if b], name="right")
            X.bad, Y.bad = badA, badB
            if badA:
                X.errors = {"x": "ex"}
            if badB:
                Y.errors = {"y": "ey"}
            Z = how(X, Y)
            c.check(len(Z) == sum(keep) and all((r in Z) is k for r, k in zip(one, keep)), op + ": records", [r.id for r in Z], [p for p, k in zip(pool, keep) if k])
            c.check(len(Y) == sum(inB) and all((r in Y) is k for r, k in zip(one, inB)), op + ": right operand")
            c.check(Z.bad is (badA or badB), op + ": bad when either is", Z.bad)
            c.same_map(Z.errors.items(), ([("x", "ex")] if badA else []) + ([("y", "ey")] if badB else []), op + ": errors")
            c.check(Y.bad is badB and len(Y.errors) == (1 if badB else 0), op + ": right operand's report")
            if Z is not X:
                c.check(len(X) == sum(inA) and all((r in X) is k for r, k in zip(one, inA)), op + ": left operand")
                c.check(X.bad is badA and len(X.errors) == (1 if badA else 0), op + ": left operand's report")
            c.check((Z == rc(c, [of_pool(c, k) for k, t in zip(pool, keep) if t])) is True, op + ": equal to a collection of the same")
            c.check(hash(Z) == hash(rc(c, [r for r, t in zip(one, keep) if t][::-1])), op + ": hash")


@harness("C12", quick=[dict(pool=p) for p in TRIOS], thorough=[dict(pool=p, steps=3) for p in TRIOS], bounds="a collection of 3 records (of all kinds, good and bad), every sequence of two (thorough three) changes by an object with the same contents")
def mixed_changes(c, pool, steps=2):
    """Taking bad records out, or putting them in, changes nothing but the records."""
    have = [True] * len(pool)
    X = rc(c, [of_pool(c, k) for k in pool], name="n")
    bad = c.truth(c.b("bad"))
    X.bad, X.errors = bad, ({"f": "e"} if bad else {})
    for j in range(steps):
        what, i = c.pick("op%d" % j, ["add", "discard", "remove", "pop", "discardID"]), c.pick("i%d" % j, list(range(len(pool))))
        r = of_pool(c, pool[i])
        if what == "pop":
            got, err = c.attempt(X.pop)
            c.check(err is None and isinstance(got, c.mk.Record), "popped", err)
            at = [j for j, k in enumerate(pool) if of_pool(c, k) == got]
            c.check(len(at) == 1 and have[at[0]], "a record of the collection")
            have[at[0]] = False
        elif what == "discardID":
            # records may share an id with others here, a good and a bad one of one file
            if not any(of_pool(c, k).id == r.id for j, k in enumerate(pool) if j != i):
                X.discardID(r.id)
                have[i] = False
        else:
            err = c.raises(getattr(X, what), r)
            c.check(isinstance(err, KeyError) if what == "remove" and not have[i] else err is None, what + " error", err)
            have[i] = what == "add"
        c.check(len(X) == sum(have) and all((of_pool(c, k) in X) is h for k, h in zip(pool, have)), "records after " + what, [x.id for x in X])
        c.check(X.bad is bad and X.errors == ({"f": "e"} if bad else {}), "the report stays")
    c.check(X.name == "n", "the name stays")


PARTIAL = ["AX, 2001, JK, V1, P3", "AX, 2001", "2001, JK", "AX, JK, V2", "BX, 2002, JL, V1, P4, M", "JL", "[ANONYMOUS], 2001, JK", "ZX, JL, P3"]


@harness("C16", quick=[dict(field=f, n=2) for f in FIELDS], thorough=[dict(field=f, n=3) for f in FIELDS],
         bounds="a record of 2 (thorough 3) citations, each complete or without any of its parts, in any order, beside one of none; any key of one or no character")
def cite_filter_several(c, field, n):
    """A citation without the field is no obstacle to another one that has it."""
    texts = [c.pick("t%d" % i, PARTIAL) for i in range(n)]
    cites = [c.mk.Citation(t) for t in texts]
    key = {"author": "xaBY[", "year": None, "journal": "klJ", "V": "12v", "P": "34p", "misc": "mn", "all": "xZ4M"}.get(field, "")
    if key is None:
        key = c.pick("key", ["", "2001", "2002", "2003"])
    elif key:
        key = "" if c.truth(c.b("blank")) else c.s("key", [key])
    def has(x):
        if field == "all":
            return key.upper() in str(x).upper()
        if field == "anonymous":
            return x.isAnonymous()
        if field == "bad":
            return x.bad
        v = getattr(x, field)
        if v is None:
            return False
        return key in ("", str(v)) if field == "year" else key.upper() in v.upper()
    hit = any([c.truth(has(x)) for x in cites])
    X = rc(c, [wos(c, "WOS:0", CR=texts), wos(c, "WOS:1")])
    for rev in (False, True):
        Y = X.citeFilter(key, field, reverse=rev)
        c.equal(Y.containsID("WOS:0"), hit != rev, "record" + (" reversed" if rev else ""))
        c.equal(Y.containsID("WOS:1"), rev, "the one of none")
