"""Tables made from collections: counted series, citations, years, dictionaries, csv, text and bibtex."""
from vf.ctx import harness
from harness.lib import rc, wos, Count, ASCII, TEXT, DIGITS, LETTERS, but

GENDERS = {"Ann": "Female", "Bob": "Male"}


def use_genders(c):
    import metaknowledge.genders.nameGender as n
    n.mappingDict = dict(GENDERS)


def lines(text):
    """The lines of a text written with csv's line ends."""
    out = text.split("\r\n")
    return out[:-1]


def tagged(c, sizes, se=(), alpha="ab", years=None):
    """records with that many free values of AF, and of SE (one or none); their values; the records"""
    recs, vals = [], []
    for i, n in enumerate(sizes):
        v = [c.s("v%d.%d" % (i, j), [alpha]) for j in range(n)]
        f = {"AF": v} if n else {}
        if i < len(se) and se[i]:
            f["SE"] = c.s("se%d" % i, ["xy"])
        if years:
            y = years[i]
            if y is not None:
                f["PY"] = str(y)
        recs.append(wos(c, "WOS:%d" % i, **f))
        vals.append((v, [f["SE"]] if "SE" in f else []))
    return recs, vals


def ordered(c, xs, greatest, msg):
    for a, b in zip(xs, xs[1:]):
        c.check(a >= b if greatest else a <= b, msg, list(xs))


@harness("C17", quick=[dict(sizes=s, limit=l) for s in ((2, 1), (3,), (0, 2, 1)) for l in (0, 1)] + [dict(sizes=(), limit=0)],
         thorough=[dict(sizes=s, limit=l, alpha="abc") for s in ((3, 1), (2, 2), (4,), (1, 1, 2)) for l in (0, 1)],
         bounds="up to 3 records with up to 3 (thorough 4) values of a tag, from 2 (thorough 3) values, repeats allowed; every mode")
def ranked(c, sizes, limit, alpha="ab"):
    """Each value with how often it occurs, or its rank by that, in order."""
    recs, vals = tagged(c, sizes, alpha=alpha)
    R = rc(c, recs)
    lim = [c.s("limit", [alpha])] if limit else None
    n = Count(c)
    for v, _ in vals:
        for x in v:
            if not lim or c.truth(c.eq(x, lim[0])):
                n.add(x)
    rank = Count(c)
    for x, k in n.items():
        rank.set(x, 1 + len(set(m for m in (m for _, m in n.items()) if m > k)))
    for greatest in (True, False):
        kw = dict(greatestFirst=greatest, limitTo=lim)
        got = R.rankedSeries("AF", pandasMode=False, **kw)
        c.same_map(got, n.items(), "counts")
        ordered(c, [k for _, k in got], greatest, "order of counts")
        got = R.rankedSeries("authorsFull", pandasMode=False, giveCounts=False, giveRanks=True, **kw)
        c.same_map(got, rank.items(), "ranks")
        ordered(c, [k for _, k in got], not greatest, "order of ranks")
        got = R.rankedSeries("AF", pandasMode=False, giveCounts=False, **kw)
        c.same_items(got, n.keys(), "entries")
        ordered(c, [n.get(x) for x in got], greatest, "order of entries")
        got = R.rankedSeries("AF", **kw)
        c.check(sorted(got) == ["count", "entry", "rank"], "columns", sorted(got))
        c.same_map(zip(got["entry"], got["count"]), n.items(), "column of counts")
        c.same_map(zip(got["entry"], got["rank"]), rank.items(), "column of ranks")
        c.equal(len(got["rank"]), len(n), "rows")
        ordered(c, got["count"], greatest, "order of rows")
        f = c.tmp() + "/out.csv"
        R.rankedSeries("AF", outputFile=f, **kw)
        rows = lines(c.text(f))
        c.equal(rows[0], "AF,count", "header")
        c.same_items(rows[1:], ["%s,%d" % (k, v) for k, v in n.items()], "written rows")
        ordered(c, [int(r.split(",")[1]) for r in rows[1:]], greatest, "order of written rows")
    c.check(isinstance(c.raises(R.rankedSeries, "AF", giveCounts=True, giveRanks=True), c.mk.mkException), "not both")


@harness("C17", quick=[dict(sizes=s, limit=l) for s in ((1, 1), (2, 1), (1, 1, 1)) for l in (0, 1)] + [dict(sizes=(0,), limit=0), dict(sizes=(2, 1), limit=0, tag=0)],
         thorough=[dict(sizes=s, limit=l) for s in ((2, 2), (2, 1, 1)) for l in (0, 1)] + [dict(sizes=(1, 1, 1), limit=0, tag=0)],
         bounds="up to 3 records of the years 2001 to 2002 or none, with up to 2 values of a tag, from 2 values; every mode")
def by_year(c, sizes, limit, tag=1):
    """Each value with each year it occurs in, and how often it does."""
    years = [c.pick("y%d" % i, [2001, 2002, None]) for i in range(len(sizes))]
    recs, vals = tagged(c, sizes, years=years)
    R = rc(c, recs)
    lim = [c.s("limit", ["ab"])] if limit else False
    n, of = Count(c), Count(c)
    for r, (v, _), y in zip(recs, vals, years):
        for x in (v if tag else [r]):
            if y is not None and (not lim or c.truth(c.eq(x, lim[0]))):
                n.add((x, y))
                of.set(x, sorted(set(of.get(x, []) + [y])))
    for greatest in (True, False):
        kw = dict(tag="AF" if tag else None, greatestFirst=greatest, limitTo=lim)
        got = R.timeSeries(pandasMode=False, **kw)
        c.same_items(got, n.keys(), "entries and years")
        ordered(c, [y for _, y in got], greatest, "order of years")
        got = R.timeSeries(pandasMode=False, giveYears=False, **kw)
        c.same_items(got, [x for x, _ in n.keys()], "entries")
        got = R.timeSeries(**kw)
        c.check(sorted(got) == ["count", "entry", "year"], "columns", sorted(got))
        c.same_map(zip(zip(got["entry"], got["year"]), got["count"]), n.items(), "rows")
        c.equal(len(got["count"]), len(n), "number of rows")
        ordered(c, got["year"], greatest, "order of rows")
        if tag:
            f = c.tmp() + "/out.csv"
            R.timeSeries(outputFile=f, **kw)
            rows = lines(c.text(f))
            c.equal(rows[0], "AF,years", "header")
            got = [r.split(",") for r in rows[1:]]
            c.same_map([(g[0], sorted(int(y) for y in g[1].split("|"))) for g in got], of.items(), "written rows")


@harness("C17", quick=[dict(sizes=s, se=e, tags=t) for s, e in (((2, 1), (1, 1)), ((1, 1, 1), (1, 1, 0)), ((0, 2), (1, 1))) for t in ("AF", "SE")],
         thorough=[dict(sizes=s, se=e, tags=t) for s, e in (((2, 2), (1, 1)), ((3, 1), (1, 1)), ((2, 1, 1), (1, 0, 1))) for t in ("AF", "SE", "both")],
         bounds="up to 3 records with up to 2 (thorough 3) values of one tag and one or no value of another, from 2 values each")
def occurring_together(c, sizes, se, tags):
    """For each value of the key tag, how often each value of the other tags occurs in the same record."""
    recs, vals = tagged(c, sizes, se)
    R = rc(c, recs)
    key, others = {"AF": ("AF", ["SE"]), "SE": ("SE", ["AF"]), "both": ("AF", ["SE", "authorsFull"])}[tags]
    n, keys = Count(c), []
    for v, s in vals:
        ks = v if key == "AF" else s
        keys += ks
        for o in others:
            for x in (s if o == "SE" else v):
                for k in ks:
                    n.add((k, x))
    got = R.cooccurrenceCounts(key, *others)
    c.same_items(list(got), c.distinct(keys), "keys")
    c.same_map([((k, x), m) for k, d in got.items() for x, m in d.items()], n.items(), "counts")
    err = c.mk.TagError
    c.check(isinstance(c.raises(R.cooccurrenceCounts, key), err), "something to count")
    c.check(isinstance(c.raises(R.cooccurrenceCounts, 5, "AF"), err) and isinstance(c.raises(R.cooccurrenceCounts, "AF", 5), err), "tags are strings")


def citing(c, kinds):
    """records with citations of those kinds; the citations as written, by record"""
    recs, cites = [], []
    for i, ks in enumerate(kinds):
        L = []
        for j, k in enumerate(ks):
            t = "%d.%d" % (i, j)
            if k == "f":
                L.append("A%s, 200%s, J%s" % (c.s("a" + t, ["XY"]), c.s("y" + t, ["12"]), c.s("j" + t, ["K"])))
            elif k == "v":
                L.append("AX, 2001, JK, V%s" % c.s("v" + t, ["12"]))
            else:
                L.append("JQ")
        cites.append(L)
        recs.append(wos(c, "WOS:%d" % i, **({"CR": L} if L else {})))
    return recs, cites


@harness("C17", quick=[dict(sizes=x) for x in ((3,), (2, 1), (2, 2))], thorough=[dict(sizes=x) for x in ((3, 2), (4,), (2, 2, 1))], bounds="up to 2 (thorough 3) records with up to 3 (thorough 4) values of a field, repeated ones too")
def with_itself(c, sizes):
    """A field counted against itself: each record adds as often as it has the one value times as often as it has the other."""
    vals = [[c.s("v%d.%d" % (i, j), ["ab"]) for j in range(k)] for i, k in enumerate(sizes)]
    R = rc(c, [wos(c, "WOS:%d" % i, AF=v) for i, v in enumerate(vals)])
    want = Count(c)
    for v in vals:
        for x in v:
            if want.find(x) is None:
                want.set(x, Count(c))
            for y in v:
                want.get(x).add(y)
    for tag in ("AF", "authorsFull"):
        got = R.cooccurrenceCounts("AF", tag)
        c.equal(len(got), len(want), "keys")
        for k, d in got.items():
            c.same_map(d.items(), want.get(k).items(), "counts")


@harness("C17", quick=[dict(kinds=k) for k in (("ff", "f"), ("f", "f", "s"), ("fs", ""), ("v", "vf"))],
         thorough=[dict(kinds=k) for k in (("ff", "ff"), ("ffs", "f"), ("f", "f", "f"), ("fff",), ("vv", "vf"))],
         bounds="up to 3 records with up to 3 citations of 2 authors, years and volumes, or too short")
def citations_of(c, kinds):
    """Every distinct citation once, with how often it is cited, overall and of its year."""
    recs, cites = citing(c, kinds)
    R = rc(c, recs)
    all_ = [(s, c.mk.Citation(s)) for L in cites for s in L]
    year = lambda x: getattr(x, "year", None)
    rows = []                       # [citation, texts, count]
    for s, x in all_:
        for r in rows:
            if c.truth(c.eq(r[0], x)):
                r[1].append(s)
                r[2] += 1
                break
        else:
            rows.append([x, [s], 1])
    got = R.getCitations()
    cols = ["author", "citeString", "fraction-cites-overall", "fraction-cites-year", "journal", "num-cites", "year"]
    c.check(sorted(got) == cols, "columns", sorted(got))
    c.check(all(len(got[k]) == len(rows) for k in cols), "one row per citation", [len(got[k]) for k in cols], len(rows))
    for i, s in enumerate(got["citeString"]):
        r = [r for r in rows if c.truth(c.member(s, r[1]))]
        c.check(len(r) == 1, "a citation of the records", s)
        x, _, k = r[0]
        c.equal(got["num-cites"][i], k, "times cited")
        c.equal(got["fraction-cites-overall"][i], k / len(all_), "fraction")
        y = year(x)
        if hasattr(x, "year"):
            c.equal(got["fraction-cites-year"][i], k / sum(1 for _, z in all_ if c.truth(c.eq(year(z), y))), "fraction of year")
        for f in ("year", "journal", "author"):
            c.equal(got[f][i], getattr(x, f, None), f)
    got = R.getCitations(counts=False)
    c.check(sorted(got) == ["author", "citeString", "journal", "year"], "columns without counts", sorted(got))
    got = R.getCitations(pandasFriendly=False)
    c.same_items(got, [r[0] for r in rows], "distinct citations")
    for rec, L in zip(recs, cites):
        c.same_items([str(x) for x in rec.getCitations(pandasFriendly=False)], L, "citations of the record")
    # how often each is cited locally
    got = R.localCiteStats()
    c.same_map(got.items(), [(r[0], r[2]) for r in rows], "local counts")
    got = R.localCiteStats(pandasFriendly=True)
    c.same_map(zip(got["Citations"], got["Counts"]), [(r[0], r[2]) for r in rows], "local counts as columns")
    for f in ("author", "year", "journal"):
        n = Count(c)
        for _, x in all_:
            v = getattr(x, f, None)
            if v is not None:
                n.add(v)
        c.same_map(R.localCiteStats(keyType=f).items(), n.items(), "local counts by " + f)
    c.check(isinstance(c.raises(R.localCiteStats, keyType="x"), TypeError), "unknown key")


@harness("C17", quick=[dict(kinds=k, field=f) for k in (("ff", "f"), ("fs", "f")) for f in ("author", "year", "journal", "V")],
         thorough=[dict(kinds=k, field=f) for k in (("ff", "ff"), ("fs", "fv"), ("f", "f", "v")) for f in ("author", "year", "journal", "V")],
         bounds="up to 3 records with up to 2 citations of 2 authors, years and volumes, or too short; one or two values asked for")
def citations_with(c, kinds, field):
    """Exactly the citations with one of the values in the field."""
    recs, cites = citing(c, kinds)
    R = rc(c, recs)
    v = {"author": lambda: "A" + c.s("v", ["XYz"]), "year": lambda: 2000 + c.pick("v", [1, 2, 3]), "journal": lambda: "J" + c.s("v", ["KQ"]),
         "V": lambda: "V" + c.s("v", ["12"])}[field]()
    if field != "year":
        v = v + c.pick("more", ["", "1", " A"])
    for vals in (v, [v], [v, "AX"], None):
        inside = vals if isinstance(vals, list) else [vals]
        want = []
        for L in cites:
            w = []
            for s in L:
                x = c.mk.Citation(s)
                g = getattr(x, field, None)
                if g is not None and (vals is None or c.truth(c.member(g, inside))):
                    w.append(x)
            want.append(w)
        for r, w in zip(recs, want):
            c.same_items(r.getCitations(field=field, values=vals, pandasFriendly=False), w, "of a record")
            c.same_items(r.getCitations(field=field, values=vals)["citeString"], [str(x) for x in c.distinct(w)], "of a record, as a table")
        c.same_items(R.getCitations(field=field, values=vals, pandasFriendly=False), c.distinct([x for w in want for x in w]), "of the collection")


@harness("C17", quick=[dict(k=3)], thorough=[dict(k=5)], bounds="a value of 3 (thorough 5) characters over printable ASCII, tab, form feed, U+0085, e acute and U+2028")
def any_text(c, k):
    """Series of values of any characters, in memory and in files."""
    v = c.s("v", [TEXT, k])
    R = rc(c, [wos(c, "WOS:0", AF=["z", v], PY="2001"), wos(c, "WOS:1", AF=[v], PY="2002")])
    f = c.tmp() + "/a.csv"
    got = R.rankedSeries("AF", outputFile=f, pandasMode=False)
    c.equal(got, [(v, 2), ("z", 1)], "counts")
    c.equal(lines(c.text(f)), ["AF,count", plain(c, v) + ",2", "z,1"], "written counts")
    f = c.tmp() + "/b.csv"
    R.timeSeries("AF", outputFile=f)
    rows = lines(c.text(f))
    c.equal(rows[0], "AF,years", "header")
    w = plain(c, v)
    c.check(c.any_([c.eq(sorted(rows[1:], key=len), sorted(["z,2001", w + "," + y], key=len)) for y in ("2001|2002", "2002|2001")]), "written years", rows)


@harness("C17", quick=[dict(tag=t, n=2, lim=l) for t in ("SE", "PY", "CR", "seriesTitle") for l in (0, 1)] + [dict(tag="PY", n=3, lim=0)],
         thorough=[dict(tag=t, n=3, lim=l) for t in ("SE", "PY", "CR") for l in (0, 1)],
         bounds="2 to 3 records with a text, year or citation of two kinds each, or none; every mode")
def single_values(c, tag, n, lim):
    """Series of fields that are one text, one number or citations."""
    recs, vals = [], []
    for i in range(n):
        f, v = {}, None
        if c.truth(c.b("has%d" % i)):
            if tag == "PY":
                y = c.pick("v%d" % i, [2001, 2002])
                f, v = {"PY": str(y)}, y
            elif tag == "CR":
                t = "AX, 200%s, JK" % c.s("v%d" % i, ["12"])
                f, v = {"CR": [t]}, c.mk.Citation(t)
            else:
                v = c.s("v%d" % i, ["ab", 2])
                f = {"SE": v}
        y = (v if tag == "PY" else 1999 + i)
        if tag != "PY":
            f["PY"] = str(y)
        recs.append(wos(c, "WOS:%d" % i, **f))
        if v is not None:
            vals.append((v, y))
    R = rc(c, recs)
    limit = None
    if lim:
        limit = c.pick("limit", [[2001], ["2001"], (2001,), {2001, "2001"}, [2000, 2001, "2002"]]) if tag == "PY" else [c.mk.Citation("AX, 2001, JK")] if tag == "CR" else ["ab", "bb"]
        vals = [x for x in vals if c.truth(c.member(x[0], limit))]
    k, years = Count(c), Count(c)
    for v, y in vals:
        k.add(v)
        years.add((v, y))
    got = R.rankedSeries(tag, pandasMode=False, limitTo=limit)
    c.same_map(got, k.items(), "counts")
    ordered(c, [m for _, m in got], True, "order")
    got = R.rankedSeries(tag, limitTo=limit)
    c.same_map(zip(got["entry"], got["count"]), k.items(), "columns")
    c.same_items(R.timeSeries(tag, pandasMode=False, limitTo=limit or False), years.keys(), "entries and years")
    got = R.timeSeries(tag, limitTo=limit or False)
    c.same_map(zip(zip(got["entry"], got["year"]), got["count"]), years.items(), "columns by year")
    if not lim:
        got = R.cooccurrenceCounts(tag, "PY", "UT")
        want = years.items()
        c.same_map([((a, b), m) for a, d in got.items() for b, m in d.items() if isinstance(b, int)], want, "with years")
        c.same_items([a for a in got], k.keys(), "keys")
        c.equal(sum(m for d in got.values() for b, m in d.items() if not isinstance(b, int)), len(vals), "with ids")


# ------------------------------------------------------------ C18

@harness("C18", quick=[dict(sizes=s, lo=lo, hi=hi, digits="12346") for s in ((2, 1),) for lo in (None, 1993) for hi in (None, 1994)]
               + [dict(sizes=s, lo=lo, hi=hi, drop=1) for s in ((1, 1),) for lo in (None, 1993) for hi in (None, 1994)] + [dict(sizes=(0, 1)), dict(sizes=()), dict(sizes=(1, 1), far=1), dict(sizes=(4,), drop=1, digits="123", dated=1), dict(sizes=(3, 2), drop=1, digits="12", dated=1)],
         thorough=[dict(sizes=s, lo=lo, hi=hi, drop=d) for s in ((3,), (2, 1)) for lo in (None, 1993) for hi in (None, 1994) for d in (0, 1)]
                  + [dict(sizes=s, lo=lo, hi=hi, digits="12346") for s in ((4,), (2, 2)) for lo in (None, 1993) for hi in (None, 1994)] + [dict(sizes=(2, 1), far=1)],
         bounds="up to 3 (thorough 4) citations of any of the years 1990 to 1999 (or far apart, or no year), up to 5 of two or three years next to each other, by records of 2010 or no year; every way to give bounds, a dropped year, ranks of empty years")
def spectrum(c, sizes, lo=None, hi=None, far=0, drop=0, digits="0123456789", dated=0):
    """Every year with its count, deviation from the five year median and rank by it."""
    recs, ys = [], []
    for i, n in enumerate(sizes):
        f = {}
        L = []
        for j in range(n):
            t = "%d.%d" % (i, j)
            if far:
                y = c.pick("y" + t, ["0990", "1001", "2098", "2101"])
            else:
                y = "199" + c.s("y" + t, [digits]) if dated or c.truth(c.b("dated" + t)) else None
            L.append("AX, %s, JK" % y if y is not None else "JQ")
            if y is not None:
                ys.append(int(y))
        if L:
            f["CR"] = L
        if not far and i == 0:
            f["PY"] = "2010"
        recs.append(wos(c, "WOS:%d" % i, **f))
    R = rc(c, recs)
    drop = c.pick("drop", [None, 1992, [1992, 1994], []]) if drop else None
    empty = c.truth(c.b("rank_empty"))
    if far:
        lo, hi = c.pick("bounds", [(None, None), (2097, None), (None, 1002)])
    got = R.rpys(minYear=lo, maxYear=hi, dropYears=drop, rankEmptyYears=empty)
    c.check(sorted(got) == ["abs-deviation", "count", "rank", "year"], "columns", sorted(got))
    inside = [y for y in ys if c.truth(c.all_([lo is None or y >= lo - 2, hi is None or y <= hi + 2]))]
    n = lambda y: sum(1 for x in inside if c.truth(c.eq(x, y)))
    if not inside and (lo is None or hi is None):
        years = []
    else:
        a = lo if lo is not None else max(min(inside), 1000)
        b = hi if hi is not None else min(max(inside), 2100)
        gone = [] if drop is None else drop if isinstance(drop, list) else [drop]
        years = [y for y in range(a, b + 1) if y not in gone]
    c.equal(list(got["year"]), years, "years")
    c.equal(list(got["count"]), [n(y) for y in years], "counts")
    dev = [n(y) - sorted(n(y + d) for d in (-2, -1, 0, 1, 2))[2] for y in years]
    c.equal(list(got["abs-deviation"]), dev, "deviations")
    c.equal(len(got["rank"]), len(years), "ranks")
    for y, d, r in zip(years, dev, got["rank"]):
        if n(y) == 0 and not empty:
            c.equal(r, 0, "no rank")
        else:
            c.check(sum(1 for e in dev if e < d) < r <= sum(1 for e in dev if e <= d), "rank", r, (y, d))
    some = [r for r in got["rank"] if r != 0]
    c.equal(len(set(some)), len(some), "ranks differ")


# ------------------------------------------------------------ C19

FULL = {"UT": "wosString", "AF": "authorsFull", "SE": "seriesTitle", "PY": "year", "AU": "authorsShort", "PT": "pubType", "TI": "title"}


def people(c, n, tag="", first=("Ann", "Bob", "Cy")):
    """n full names with a free given name; the genders of the names"""
    use_genders(c)
    names, kinds = [], []
    for j in range(n):
        g = c.pick("given%s%d" % (tag, j), list(first))
        names.append("F%s%d, %s" % (tag, j, g))
        kinds.append(GENDERS.get(g, "Unknown"))
    return names, tuple(kinds.count(k) for k in ("Male", "Female", "Unknown"))


def table_records(c, sizes, se, gen):
    recs, expect = [], []
    for i, n in enumerate(sizes):
        names, g = people(c, n if gen else 0, str(i))
        if not gen:
            names = [c.s("f%d.%d" % (i, j), [TEXT, 2]) if j or not c.truth(c.b("blank%d" % i)) else "" for j in range(n)]
            g = (0, 0, n)
        f = {}
        if n:
            f["AF"] = names
            f["AU"] = ["F%d, A" % j for j in range(n)]
        if se[i]:
            f["SE"] = c.s("se%d" % i, [TEXT, 3]) if not c.truth(c.b("empty%d" % i)) else ""
        u = "WOS:%d" % i
        recs.append(wos(c, u, **f))
        expect.append(dict(UT=u, PT="J", AF=names if n else None, SE=f.get("SE"), AU=f.get("AU"), n=n, g=g))
    return recs, expect


@harness("C19", quick=[dict(sizes=s, se=e, gen=g, long=l) for s, e in (((2,), (1,)), ((1, 0), (0, 1))) for g in (0, 1) for l in (0, 1)] + [dict(sizes=(), se=(), gen=1, long=0)],
         thorough=[dict(sizes=s, se=e, gen=g, long=l) for s, e in (((2, 1), (1, 1)), ((1, 1, 0), (0, 1, 1)), ((3,), (1,))) for g in (0, 1) for l in (0, 1)],
         bounds="up to 2 (thorough 3) records with up to 2 (3) authors and a free or missing text field; every option")
def as_dict(c, sizes, se, gen, long):
    """One row per record with its values, None where there is none, and its numbers of authors and genders."""
    recs, expect = table_records(c, sizes, se, gen)
    R = rc(c, recs)
    only = c.pick("only", [None, ["UT", "SE"], ("UT", "authorsFull", "PY"), ["UT", "title"], ["UT", "SE", "UT", "AF", "authorsFull"]])
    given = None if only is None else list(only)
    num, raw = c.truth(c.b("num")), c.truth(c.b("raw"))
    got = R.makeDict(onlyTheseTags=only, longNames=bool(long), raw=raw, numAuthors=num, genderCounts=bool(gen))
    if only is not None:
        c.check(list(only) == given, "the list given is as it was", list(only))
        # a tag given twice is one column
        tags = list(dict.fromkeys({"authorsFull": "AF", "title": "TI"}.get(t, t) for t in only))
    else:
        tags = [t for t in ("UT", "PT", "AF", "SE", "AU") if any(e[t] is not None for e in expect)]
    name = (lambda t: FULL[t]) if long else (lambda t: t)
    cols = [name(t) for t in tags]
    extra = (["num-Authors"] if num else []) + (["num-Male", "num-Female", "num-Unknown"] if gen else [])
    c.same_items(list(got), cols + extra, "columns")
    rows = list(zip(*[got[k] for k in cols + extra]))
    want = []
    for e in expect:
        w = []
        for t in tags:
            v = e.get(t)
            if raw and v is not None and not isinstance(v, list):
                v = [v]
            w.append(v)
        want.append(tuple(w + ([e["n"]] if num else []) + (list(e["g"]) if gen else [])))
    c.check(all(len(got[k]) == len(recs) for k in got), "a row per record")
    c.same_items(rows, want, "rows")


def cell(t, q='"'):
    return q + t.replace(q, q + q) + q


@harness("C19", quick=[dict(sizes=s, se=e, gen=g, how=h) for s, e in (((2,), (1,)), ((1, 0), (0, 1))) for g, h in ((0, "all"), (0, "only"), (1, "only"), (0, "first"), (0, "long"), (0, "delim"))]
               + [dict(sizes=(), se=(), gen=0, how="only")],
         thorough=[dict(sizes=s, se=e, gen=g, how=h) for s, e in (((2, 1), (1, 1)), ((1, 1, 0), (0, 1, 1))) for g, h in ((0, "all"), (0, "only"), (1, "only"), (0, "first"), (0, "long"), (0, "delim"))],
         bounds="up to 2 (thorough 3) records with up to 2 authors and a free or missing text field with quotes and delimiters; every option")
def as_csv(c, sizes, se, gen, how):
    """The file has a header and one quoted row per record; reading it gives the values back."""
    recs, expect = table_records(c, sizes, se, gen)
    R = rc(c, recs)
    num = c.truth(c.b("num"))
    kw, d, q, ld = {}, ",", '"', "|"
    if how == "all":
        tags = ["id", "TI", "AF", "CR", "ID", "DI"]
        more = [t for t in ("PT", "UT", "SE", "AU") if any(e[t] is not None for e in expect)]
    else:
        more = []
        only = {"only": ("SE", "authorsFull", "UT", "year"), "first": ["UT", "SE", "AF"], "long": ["UT", "AF", "SE"], "delim": ["UT", "AF", "SE"]}[how]
        kw["onlyTheseTags"] = only
        given = list(only)
        tags = {"only": ["AF", "SE", "UT", "PY"], "first": ["SE", "UT", "AF"]}.get(how, ["AF", "UT", "SE"])
    if how == "first":
        kw["firstTags"] = ["DI", "seriesTitle", "UT"]
    if how == "delim":
        d, q, ld = ";", "'", " & "
        kw.update(csvDelimiter=d, csvQuote=q, listDelimiter=ld)
    f = c.tmp() + "/out.csv"
    R.writeCSV(f, numAuthors=num, genderCounts=bool(gen), longNames=how == "long", **kw)
    if how != "all":
        c.check(list(only) == given, "the tags given are as they were", list(only))
    if how == "first":
        c.check(kw["firstTags"] == ["DI", "seriesTitle", "UT"], "the first tags given are as they were", kw["firstTags"])
    rows = lines(c.text(f))
    if how == "all":
        head = rows[0].split(",")
        c.equal([x for x in head[:6]], [cell(t) for t in tags], "first columns")
        c.same_items(head[6:6 + len(more)], [cell(t) for t in more], "further columns")
        tags = tags + [x[1:-1] for x in head[6:6 + len(more)]]
    name = (lambda t: FULL[t]) if how == "long" else (lambda t: t)
    extra = (["num-Authors"] if num else []) + (["num-Male", "num-Female", "num-Unknown"] if gen else [])
    head = d.join(cell(x, q) for x in [name(t) for t in tags] + extra)
    c.check(c.eq(rows[0], head), "header", rows[0], head)
    want = []
    for e in expect:
        w = []
        for t in tags:
            v = e["UT"] if t == "id" else e.get(t)
            w.append("" if v is None else ld.join(v) if isinstance(v, list) else v)
        w += ([str(e["n"])] if num else []) + ([str(x) for x in e["g"]] if gen else [])
        want.append(d.join(cell(x, q) for x in w))
    c.same_items(rows[1:], want, "rows")


@harness("C19", quick=[dict(by=b, n=2) for b in ("AF", "SE", "year", "CR")], thorough=[dict(by=b, n=3) for b in ("AF", "SE", "year", "CR")],
         bounds="2 (thorough 3) records with free or missing values of the tag to split by")
def split_csv(c, by, n):
    """One file per value of the tag, with exactly the records that have the value."""
    import os
    recs, files = [], Count(c)
    for i in range(n):
        f = {}
        v = []
        if c.truth(c.b("has%d" % i)):
            if by == "AF":
                v = [c.s("a%d" % i, ["xy"]), "z"]
                f["AF"] = v
            elif by == "SE":
                v = [c.s("s%d" % i, ["xy"])]
                f["SE"] = v
            elif by == "year":
                y = c.pick("y%d" % i, [2001, 2002])
                v = [str(y)]
                f["PY"] = v
            else:
                v = ["AX, 200%s, JK" % c.s("y%d" % i, ["12"])]
                f["CR"] = v
        recs.append(wos(c, "WOS:%d" % i, **f))
        for x in v:
            files.set(x, files.get(x, []) + ["WOS:%d" % i])
    d = c.tmp() + "/out"
    os.mkdir(d)
    rc(c, recs).writeCSV(d + "/t.csv", splitByTag=by, onlyTheseTags=["UT"], numAuthors=False, genderCounts=False)
    c.same_items(os.listdir(d), [v + "-t.csv" for v in files.keys()], "files")
    for v, ids in files.items():
        rows = lines(c.text(d + "/" + v + "-t.csv"))
        c.equal(rows[0], '"UT"', "header")
        c.same_items(rows[1:], [cell(u) for u in ids], "records of the value")


@harness("C19", quick=[dict(by=b, num=m) for b in (0, 1) for m in (0, 1)], bounds="two records with a year, citations, and a text of 2 free characters; file named after the collection; whole and split by year")
def csv_kinds(c, by, num):
    """Numbers and citations are written as text, in the file named after the collection if no name is given."""
    import os
    v = c.s("v", [TEXT, 2])
    y = c.pick("y", [2001, 2002])
    cites = ["AX, 200%s, JK" % c.s("c", ["12"]), "JQ"]
    recs = [wos(c, "WOS:0", SE=v, PY=str(y), CR=cites), wos(c, "WOS:1", PY="2001"), wos(c, "WOS:2", SE=v)]
    d = c.tmp() + "/out"
    os.mkdir(d)
    os.chdir(d)
    R = rc(c, recs, name="coll")
    tags = ["UT", "year", "citations", "SE"]
    kw = dict(onlyTheseTags=tags, numAuthors=bool(num), genderCounts=False)
    if by:
        kw["splitByTag"] = "year"
    R.writeCSV(**kw)
    row = {"WOS:0": ["WOS:0", str(y), "|".join(cites), v], "WOS:1": ["WOS:1", "2001", "", ""], "WOS:2": ["WOS:2", "", "", v]}
    order = [("CR", 2), ("UT", 0), ("PY", 1), ("SE", 3)]
    tail = [cell("0")] if num else []
    head = ",".join([cell(t) for t, _ in order] + ([cell("num-Authors")] if num else []))
    files = {"coll.csv": ["WOS:0", "WOS:1", "WOS:2"]}
    if by:
        files = {}
        files["%d-coll.csv" % y] = ["WOS:0"]
        files.setdefault("2001-coll.csv", []).append("WOS:1")
    c.same_items(os.listdir(d), list(files), "files")
    for name, ids in files.items():
        rows = lines(c.text(d + "/" + name))
        c.equal(rows[0], head, "header")
        c.same_items(rows[1:], [",".join([cell(row[u][i]) for _, i in order] + tail) for u in ids], "rows")


@harness("C19", quick=[dict(k=2)], thorough=[dict(k=3)], bounds="two records split by two texts of 2 (thorough 3) characters out of six (file names are made concrete)")
def split_names(c, k):
    """Each value has its own file, whatever characters it has."""
    import os
    vals = [c.s("v%d" % i, ['aB/"_.' if i == 0 or k > 2 else 'a/"', k]) for i in range(2)]
    d = c.tmp() + "/out"
    os.mkdir(d)
    rc(c, [wos(c, "WOS:%d" % i, SE=v) for i, v in enumerate(vals)]).writeCSV(d + "/t.csv", splitByTag="SE", onlyTheseTags=["SE", "UT"], numAuthors=False, genderCounts=False)
    got = {}
    names = os.listdir(d)
    for f in names:
        rows = lines(c.text(d + "/" + f))
        c.equal(rows[0], '"SE","UT"', "header")
        got[f] = rows[1:]
    same = c.truth(c.eq(vals[0], vals[1]))
    c.equal(len(names), 1 if same else 2, "files")
    want = [cell(v) + ',' + cell("WOS:%d" % i) for i, v in enumerate(vals)]
    c.same_items([r for x in got.values() for r in x], want, "rows")
    for v in c.distinct(vals):
        if not c.truth("/" in v):
            c.check(c.truth(c.member(v + "-t.csv", names)), "named after the value", names)


@harness("C19", quick=[dict(n=2)], thorough=[dict(n=4)], bounds="a record with a number of 2 (thorough 4) digits in each of four fields, and another without")
def numbers(c, n):
    """Numbers stay what they are, zeros too."""
    tags = ["TC", "NR", "VL", "PG"]
    v = {t: c.s(t, ["0123456789", n if t == "TC" else 1]) for t in tags}
    R = rc(c, [wos(c, "WOS:0", **v), wos(c, "WOS:1", TI="t")])
    f = c.tmp() + "/a.csv"
    R.writeCSV(f, onlyTheseTags=["UT"] + tags, numAuthors=False, genderCounts=False)
    want = {t: str(R.getID("WOS:0")[t]) for t in tags}
    for t in tags:
        c.equal(int(want[t]), int(v[t]), "the number")
    c.same_items(lines(c.text(f)), [",".join(cell(x) for x in ["UT"] + tags), ",".join(cell(x) for x in ["WOS:0"] + [want[t] for t in tags]), '"WOS:1","","","",""'], "csv")
    got = R.makeDict(onlyTheseTags=tags, numAuthors=False, genderCounts=False)
    for t in tags:
        c.same_items([str(x) for x in got[t]], [want[t], "None"], "table")
    x = R.forNLP(extraColumns=tags)
    for t in tags:
        c.same_items([str(y) for y in x[t]], [want[t], ""], "column")


@harness("C19", quick=[dict(n=199), dict(n=200), dict(n=203)], bounds="two values that differ in their last of 199, 200 or 203 characters")
def split_long(c, n):
    """Values that begin alike have files of their own."""
    import os
    vals = ["x" * (n - 1) + c.s("v%d" % i, ["ab"]) for i in range(2)]
    d = c.tmp() + "/out"
    os.mkdir(d)
    rc(c, [wos(c, "WOS:%d" % i, SE=v) for i, v in enumerate(vals)]).writeCSV(d + "/t.csv", splitByTag="SE", onlyTheseTags=["UT"], numAuthors=False, genderCounts=False)
    names = os.listdir(d)
    c.equal(len(names), len(c.distinct(vals)), "files")
    c.same_items([r for f in names for r in lines(c.text(d + "/" + f))[1:]], ['"WOS:0"', '"WOS:1"'], "records")


@harness("C19", quick=[dict(k=2)], bounds="tags that have no long name, among others that do")
def no_long_name(c, k):
    """Tags without a long name are refused when long names are asked for, and kept as they are otherwise."""
    t = c.s("t", ["XYQ", k])
    R = rc(c, [wos(c, "WOS:0", SE="s")])
    f = c.tmp() + "/a.csv"
    c.check(isinstance(c.raises(R.writeCSV, f, onlyTheseTags=["SE", t], longNames=True), KeyError), "csv refused")
    c.check(isinstance(c.raises(R.makeDict, onlyTheseTags=["SE", t], longNames=True), KeyError), "table refused")
    R.writeCSV(f, onlyTheseTags=["SE", t], numAuthors=False, genderCounts=False)
    c.equal(lines(c.text(f)), ['"SE",' + cell(t), '"s",""'], "csv")
    got = R.makeDict(onlyTheseTags=["SE", t], numAuthors=False, genderCounts=False)
    c.same_map(got.items(), [("SE", ["s"]), (t, [None])], "table")


# ------------------------------------------------------------ C20

PUNCT = but("_", LETTERS, DIGITS, " ")


def clean(c, t, drop, lower, nums, words, white):
    """The documented clean up of a text, by characters."""
    if drop is not None:
        t = " ".join(w for w in t.split(" ") if not c.truth(c.member(w, drop)))
    out = ""
    last = False
    for ch in t:
        blank = c.truth(c.member(ch, list(" \t\x0c\x85\u2028")))
        if blank and white:
            if not last:
                out += " "
            last = True
            continue
        last = blank
        if c.truth(c.eq(ch, " ")):
            out += " "
            continue
        if blank:
            out += "" if words else ch
        elif c.truth(c.member(ch, list(DIGITS))):
            out += "" if nums else ch
        elif c.truth(c.member(ch, list(PUNCT))):
            out += "" if words else ch
        else:
            out += ch.lower() if lower else ch
    return out


FLAGS = [dict(lower=1, nums=1, words=1, white=1), dict(lower=0, nums=1, words=0, white=1), dict(lower=0, nums=0, words=1, white=0), dict(lower=1, nums=0, words=0, white=0)]


@harness("C20", quick=[dict(k=4 - d, drop=d, **f) for d in (0, 1) for f in FLAGS], thorough=[dict(k=6 - d, drop=d, **f) for d in (0, 1) for f in FLAGS],
         bounds="an abstract of 4 (thorough 6) characters over printable ASCII, tab, form feed, U+0085, e acute and U+2028, two free words of one and two characters to drop; every option")
def nlp(c, k, drop, lower, nums, words, white):
    """Each record's row has its id, year, title, keywords and its abstract cleaned as asked for."""
    t = c.s("ab", [TEXT, k])
    drops = [c.s("d1", [but(" ")]), c.s("d2", [LETTERS], [but(" ")])] if drop else None
    use = dict(lower=bool(lower), removeNumbers=bool(nums), removeNonWords=bool(words), removeWhitespace=bool(white))
    recs = [wos(c, "WOS:0", AB=t, PY="2001", TI="T", ID="k; l", SE="s"), wos(c, "WOS:1")]
    R = rc(c, recs)
    extra = ["SE", "year", "AF"]
    got = R.forNLP(extraColumns=extra, dropList=drops, **use)
    c.check(extra == ["SE", "year", "AF"], "the list given is as it was", extra)
    cols = ["id", "year", "title", "keywords", "abstract", "SE", "AF"]
    c.same_items(list(got), cols, "columns")
    want = clean(c, t, drops, lower, nums, words, white)
    c.same_items(list(zip(*[got[x] for x in cols])), [("WOS:0", 2001, "T", "K|L", want, "s", ""), ("WOS:1", "", "", "", "", "", "")], "rows")
    c.observe("abstract", want)
    if drop:
        got = R.forNLP(dropList=drops, stemmer=lambda w: w + "s", **use)
        c.same_items(got["abstract"], [" ".join(w + "s" for w in want.split(" ")), "s"], "stemmed")


def plain(c, t):
    """a cell of a csv file, quoted only where it has to be"""
    return cell(t) if c.truth(c.any_([x in t for x in ',"'])) else t


@harness("C20", quick=[dict(k=2, copy=m) for m in (0, 1)], thorough=[dict(k=4, copy=m) for m in (0, 1)], bounds="an abstract, title, or extra field of 2 (thorough 4) free characters")
def nlp_file(c, k, copy):
    """The file has the rows returned."""
    f = {t: c.s("v", [but("\x85\u2028", base=TEXT), k]) if t == c.pick("field", ["AB", "TI", "SE"]) else "q" for t in ("AB", "TI", "SE")}
    R = rc(c, [wos(c, "WOS:0", PY="2001", ID="k; l", **f), wos(c, "WOS:1")])
    out = c.tmp() + "/nlp.csv"
    got = R.forNLP(outputFile=out, extraColumns=["SE"], removeCopyright=bool(copy), lower=False, removeNumbers=False, removeNonWords=False, removeWhitespace=False)
    rows = lines(c.text(out))
    cols = ["id", "year", "title", "keywords"] + [x for x in got if x not in ("id", "year", "title", "keywords")]
    c.same_items(list(got), ["id", "year", "title", "keywords", "abstract", "SE"] + (["copyright"] if copy else []), "columns")
    c.equal(rows[0], ",".join(cols), "header")
    want = [{"id": "WOS:0", "year": "2001", "title": f["TI"], "keywords": "K|L", "abstract": f["AB"], "SE": f["SE"], "copyright": ""}, {"id": "WOS:1"}]
    c.same_items(rows[1:], [",".join(plain(c, w.get(x, "")) for x in cols) for w in want], "rows")


@harness("C20", quick=[dict(k=3, drop=d, **f) for d in (0, 1) for f in FLAGS], thorough=[dict(k=5, drop=d, **f) for d in (0, 1) for f in FLAGS],
         bounds="a field of 3 (thorough 5) characters over the same alphabet, a free word of one character to drop; every option")
def burst(c, k, drop, lower, nums, words, white):
    """A row for each word of the field, cleaned as asked for, with the year of its record."""
    a = c.s("a", [TEXT, k])
    drops = [c.s("d1", [but(" bc")])] if drop else None
    use = dict(lower=bool(lower), removeNumbers=bool(nums), removeNonWords=bool(words), removeWhitespace=bool(white), dropList=drops)
    recs = [wos(c, "WOS:0", SE=a, PY="2001"), wos(c, "WOS:1", SE="b c", PY="2002"), wos(c, "WOS:2", SE="x"), wos(c, "WOS:3", PY="2002")]
    R = rc(c, recs)
    f = c.tmp() + "/burst.csv"
    want = [(2001, w) for w in clean(c, a, drops, lower, nums, words, white).split(" ")] + [(2002, "b"), (2002, "c")]
    want = [x for x in want if not c.truth(c.eq(x[1], ""))]
    for stem in (None, lambda w: w + "s" if w != "" else w):
        got = R.forBurst("SE", outputFile=f, stemmer=stem, **use)
        c.check(sorted(got) == ["word", "year"], "columns", sorted(got))
        rows = [x for x in zip(got["year"], got["word"]) if not c.truth(c.eq(x[1], ""))]
        c.same_items(rows, [(y, w + "s") for y, w in want] if stem else want, "words with years")
        written = [x for x in lines(c.text(f)) if not c.truth(c.any_([c.eq(x, "2001,"), c.eq(x, "2002,")]))]
        c.same_items(written, ["%d,%s" % (y, plain(c, w)) for y, w in rows], "written rows")


@harness("C20", quick=[dict(n=3, white=w) for w in (0, 1)], thorough=[dict(n=4, white=w) for w in (0, 1)], bounds="an abstract of 3 (thorough 4) words of one free letter, on a line or several, two free words to drop")
def drop_lines(c, n, white):
    """Words are dropped wherever they are, at the ends of lines too, and no others are."""
    w = [c.s("w%d" % i, ["abc"]) for i in range(n)]
    gap = [c.pick("g%d" % i, [" ", "\n"]) for i in range(n - 1)]
    drops = [c.s("d0", ["ab"]), c.s("d1", ["bc"])]
    text = w[0]
    for g, x in zip(gap, w[1:]):
        text += g + x
    R = rc(c, [c.mk.ProQuestRecord({"ID": ["1"], "Title": ["T"], "Year": ["2001"], "Abstract": text.split("\n")}) if c.truth(c.b("proquest")) else wos(c, "WOS:0", AB=text, PY="2001")])
    got = R.forNLP(dropList=drops, removeWhitespace=bool(white))["abstract"]
    c.check(len(got) == 1, "a row")
    want = [x for x in w if not c.truth(c.member(x, drops))]
    c.same_items([x for x in got[0].replace("\n", " ").split(" ") if not c.truth(c.eq(x, ""))], want, "words left")


@harness("C20", quick=[dict()], bounds="two words of two free letters, stemmed to nothing, one letter, or more letters")
def stems(c):
    """Every word is given as the stemmer returns it, also if that is nothing."""
    w = [c.s("w%d" % i, ["ab"], ["xy"]) for i in range(2)]
    to = {"ax": c.pick("to0", ["", "s", "long"]), "ay": "", "bx": c.pick("to1", ["", "ax"])}

    def stem(x):
        for k, v in to.items():
            if c.truth(c.eq(k, x)):
                return v
        return x
    t = w[0] + " " + w[1] + " end"
    R = rc(c, [wos(c, "WOS:0", SE=t, AB=t, PY="2001")])
    want = [stem(x) for x in w] + ["end"]
    got = R.forBurst("SE", stemmer=stem)
    c.same_items([x for x in got["word"] if not c.truth(c.eq(x, ""))], [x for x in want if not c.truth(c.eq(x, ""))], "words")
    c.equal(R.forNLP(stemmer=stem)["abstract"], [" ".join(want)], "abstract")


MARKS = [". (C) ", ". (c) ", ". Copyright", ". Crown Copyright", ". Published by Els", " Elsevier Ltd. ", ". &COPY; "]


@harness("C20", quick=[dict(k=3, mark=m) for m in range(len(MARKS))] + [dict(k=3, mark=-1), dict(k=3, mark=-2), dict(k=3, mark=-3)],
         thorough=[dict(k=6, mark=m) for m in range(len(MARKS))] + [dict(k=6, mark=-1), dict(k=5, mark=-2), dict(k=5, mark=-3)],
         bounds="an abstract of 3 (thorough 6) free characters, then any of the copyright marks or none, then 2 free characters")
def copyrights(c, k, mark):
    """The copyright is the part from the mark on, the abstract is the rest; nothing is lost and nothing invented."""
    a = c.s("a", ["ax. (c)", k]) if k < 5 else c.s("a", ["x. c", k])
    tail = c.s("tail", ["y "]) + "z"
    if mark == -1:
        text = a
    elif mark == -2:
        m = ". %s2002 " % c.pick("m", ["c ", "C ", "(c) ", "(C) ", "(C ", "c) "])
        text = a + m + tail
    elif mark == -3:
        m = ". 2002 Elsevier"
        text = a + m + tail
    else:
        m = MARKS[mark]
        text = a + m + tail
    R = rc(c, [wos(c, "WOS:0", AB=text)])
    got = R.forNLP(removeCopyright=True, lower=False, removeNumbers=False, removeNonWords=False, removeWhitespace=False)
    ab, cop = got["abstract"][0], got["copyright"][0]
    c.observe("split", (ab, cop))
    c.equal(ab + cop, text, "nothing is lost") if mark != -1 else c.equal((ab + cop).rstrip(), text.rstrip(), "nothing is lost")
    found = R.findProbableCopyright()
    if mark == -1:
        c.equal(len(found), 0 if c.truth(c.eq(cop, "")) else 1, "found as often")
        has = c.any_([x in text for x in MARKS])
        if c.truth(c.not_(has)):
            c.equal(cop, "", "none")
    else:
        c.equal(cop, (m[1:] if m[0] == "." else m) + tail, "the copyright")
        c.equal(list(found), [cop], "found")
        two = rc(c, [wos(c, "WOS:0", AB=text), wos(c, "WOS:1", AB=text), wos(c, "WOS:2")])
        c.equal(list(two.findProbableCopyright()), [cop], "found once")


@harness("C20", quick=[dict()], bounds="an abstract with something short of a copyright mark, before and after free characters")
def no_copyright(c):
    """What is short of a mark is no copyright."""
    m = c.pick("m", [x[:-1] for x in MARKS if x != ". Copyright"] + [x[2:] for x in MARKS if x[0] == "."] + [". 2002 Elsevie", " 2002 Elsevier", ". c 200 ", " (c) 2002 ", ". (c)2002 "])
    text = "a" + c.s("a", ["xy"]) + m + c.s("b", ["xyz"]) + "w"
    R = rc(c, [wos(c, "WOS:0", AB=text)])
    got = R.forNLP(removeCopyright=True, lower=False, removeNumbers=False, removeNonWords=False, removeWhitespace=False)
    c.equal(got["abstract"], [text], "the abstract")
    c.equal(got["copyright"], [""], "no copyright")
    c.equal(len(R.findProbableCopyright()), 0, "none found")


@harness("C20", quick=[dict(m=m) for m in range(len(MARKS))], bounds="an abstract with one of the copyright marks twice, free characters between and after")
def last_copyright(c, m):
    """The copyright is the part from the last mark on."""
    a, b = "One " + c.s("a", ["x. "]) + "w", c.s("b", ["x. "]) + "y" + c.s("tail", ["z \t"])
    mark = MARKS[m]
    text = a + mark + a + mark + b
    use = dict(lower=False, removeNumbers=False, removeNonWords=False, removeWhitespace=False)
    got = rc(c, [wos(c, "WOS:0", AB=text)]).forNLP(removeCopyright=True, **use)
    ab, cop = got["abstract"][0], got["copyright"][0]
    c.equal(ab, a + mark + a + ("." if mark[0] == "." else ""), "the abstract")
    c.equal(cop, (mark[1:] if mark[0] == "." else mark) + b.rstrip(), "the copyright")


@harness("C20", quick=[dict(k=2)], thorough=[dict(k=3)], bounds="a list of two names of 2 (thorough 3) free characters, a year, citations")
def lists_in_text(c, k):
    """Values of a list are joined by spaces for words, and by bars in a column."""
    a, b = [c.s(x, [but("|"), k]) for x in "ab"]
    cites = ["AX, 2001, JK", "AY, 200%s, JL" % c.s("y", ["12"])]
    R = rc(c, [wos(c, "WOS:0", AF=[a, b], PY="2001", CR=cites), wos(c, "WOS:1", PY="2002")])
    off = dict(lower=False, removeNumbers=False, removeNonWords=False, removeWhitespace=False)
    pairs = lambda got: [x for x in zip(got["year"], got["word"]) if not c.truth(c.eq(x[1], ""))]
    c.same_items(pairs(R.forBurst("authorsFull", **off)), [(2001, w) for w in (a + " " + b).split(" ") if not c.truth(c.eq(w, ""))], "words of names")
    c.same_items(pairs(R.forBurst("year", **off)), [(2001, "2001"), (2002, "2002")], "words of a year")
    c.same_items(pairs(R.forBurst("CR", **off)), [(2001, w) for w in " ".join(cites).split(" ")], "words of citations")
    out = c.tmp() + "/a.csv"
    extra = ("AF", "CR", "year", "title", "SE")
    got = R.forNLP(extraColumns=extra, outputFile=out, **off)
    c.same_items(list(got), ["id", "year", "title", "keywords", "abstract", "AF", "CR", "SE"], "columns")
    c.same_items(list(zip(*[got[x] for x in ("id", "AF", "CR", "SE", "year")])), [("WOS:0", a + "|" + b, "|".join(cites), "", 2001), ("WOS:1", "", "", "", 2002)], "rows")
    c.same_items(lines(c.text(out)), ["id,year,title,keywords,abstract,AF,CR,SE", "WOS:0,2001,,,,%s,%s," % (plain(c, a + "|" + b), plain(c, "|".join(cites))), "WOS:1,2002,,,,,,"], "written rows")


# ------------------------------------------------------------ C21

def unbib(c, v):
    """What a BibTeX reader makes of a value: strings joined by #, or a braced text."""
    if v[0] == "{":
        return v[1:-1].replace("\\{", "{").replace("\\}", "}")
    return "".join(p for p in (v[1:-1]).split('" # "'))


def entry(c, s, wos_mode):
    """key and fields of an entry"""
    ind = "" if wos_mode else "    "
    c.check(s.startswith("@misc{ ") and s.endswith("\n}"), "an entry", s)
    body = s[len("@misc{ "):-2].split(",\n" + ind)
    fields = []
    for line in body[1:]:
        k, v = line.split(" = ", 1)
        fields.append((k, v))
    c.check(fields[-1][1].endswith(","), "ends with a comma")
    fields[-1] = (fields[-1][0], fields[-1][1][:-1])
    return body[0], fields


@harness("C21", quick=[dict(n=2, k=3, mode=m) for m in ("", "wos")] + [dict(n=0, k=2, mode=m) for m in ("", "wos")], thorough=[dict(n=2, k=5, mode=m) for m in ("", "wos")] + [dict(n=3, k=4, mode="")],
         bounds="a record with up to 2 (thorough 3) free names and a field of 3 (thorough 5) free characters over printable ASCII, tab, form feed, U+0085, e acute and U+2028")
def bib_entry(c, n, k, mode):
    """Every field is in the entry, and reading it gives the value back."""
    names = ["F%s, X" % c.s("f%d" % i, ["ab"]) for i in range(n)]
    v = c.s("v", [TEXT, k])
    f = dict(SE=v, PY="2001", CR=["AX, 2001, JK", "AY, 2002, JL"])
    if n:
        f["AF"] = names
    r = wos(c, "WOS:12", **f)
    for nice in (False, True):
        key, got = entry(c, r.bibString(WOSMode=mode == "wos", niceID=nice), mode == "wos")
        if nice:
            if n:
                c.check(key.startswith((names[0].title().replace(",", "").replace(" ", "")) + "-2001"), "key of author and year", key)
            c.check("WOS:12" in key, "the id makes a short key unique", key)
        else:
            c.equal(key, "ISI:12" if mode == "wos" else "WOS:12", "key")
        c.equal(got[0], ("author", "{{%s}}" % (" and ".join(names) if n else "None")), "authors")
        want = [("PT", "J"), ("UT", "WOS:12"), ("SE", v), ("PY", "2001"), ("CR", f["CR"])] + ([("AF", names)] if n else [])
        if mode == "wos":
            want = [(t, "{{%s}}" % ("\n   ".join(x) if isinstance(x, list) else x)) for t, x in want]
            c.same_items(got[1:], want, "fields")
        else:
            want = [(t, " and ".join(x) if isinstance(x, list) else x) for t, x in want]
            c.same_items([(t, unbib(c, x)) for t, x in got[1:]], want, "fields")
            for t, x in got[1:]:
                c.check(c.any_([c.all_([x.startswith('"'), x.endswith('"')]), c.all_([x.startswith("{"), x.endswith("}")])]), "delimited", x)
    short = r.bibString(WOSMode=mode == "wos", restrictedOutput=True, niceID=False)
    _, got = entry(c, short, mode == "wos")
    allowed = [t for t in c.mk.commonRecordFields]
    for t, _ in got[1:]:
        c.check(t in allowed, "only common fields", t)


@harness("C21", quick=[dict(k=k, m=m) for k, m in ((2, 3), (3, 3), (4, 3), (4, 2), (6, 3), (5, 2))], thorough=[dict(k=k, m=m) for k, m in ((7, 3), (8, 3), (6, 2), (9, 3), (8, 4))],
         bounds="a value of up to 6 (thorough 9) free characters with quotes, cut into strings of 2 to 4")
def bib_long(c, k, m):
    """A long value is cut into strings no longer than allowed, and nothing is lost but quotation marks."""
    v = c.s("v", [ASCII if k < 7 else ASCII, k])
    r = wos(c, "WOS:1", SE=v)
    _, got = entry(c, r.bibString(maxLength=m, niceID=False), False)
    val = [x for t, x in got if t == "SE"][0]
    if k > m:
        parts = val[1:-1].split('" # "')
        for p in parts:
            c.check(len(p) <= m, "no part is too long", p)
        want = v.replace('"', "")
    else:
        want = v
    back = unbib(c, val)
    c.observe("value", back)
    c.known("bib-long-value-tail", c.eq(back, want), c.all_([k > m, c.eq(back, want[:len(want) // m * m])]),
            "bibString of a value longer than maxLength loses the characters after the last full string (metaknowledge/mkRecord.py _bibFormatter; the file sizes in the tests depend on it)")


@harness("C21", quick=[dict(n=2), dict(n=0)], thorough=[dict(n=3)], bounds="up to 2 (thorough 3) records, each good or bad, every option")
def bib_file(c, n):
    """The file has the entry of each good record and of no other."""
    recs, good = [], []
    for i in range(n):
        bad = c.truth(c.b("bad%d" % i))
        r = wos(c, "WOS:%d" % i, SE=c.s("v%d" % i, ['a"'])) if not bad else c.mk.WOSRecord({"PT": ["J"], "SE": ["x%d" % i]})
        recs.append(r)
        if not bad:
            good.append(r)
    R = rc(c, recs)
    mode, short, nice = c.truth(c.b("wos")), c.truth(c.b("short")), c.truth(c.b("nice"))
    f = c.tmp() + "/out.bib"
    err = c.raises(R.writeBib, f, wosMode=mode, reducedOutput=short, niceIDs=nice)
    c.check(err is None, "written", err)
    parts = c.text(f).split("\n\n@")
    c.check(all(x.startswith("%") for x in parts[0].strip().split("\n")), "only comments before the entries", parts[0])
    c.same_items([("@" + p).strip() for p in parts[1:]], [r.bibString(WOSMode=mode, restrictedOutput=short, niceID=nice) for r in good], "entries")
    for r in recs:
        if r not in good:
            c.check(isinstance(c.raises(r.bibString), c.mk.BadRecord), "a bad record has no entry")


@harness("C21", quick=[dict(fam=f, mode=m) for f in ("medline", "scopus", "proquest") for m in ("", "wos")], bounds="a Medline, Scopus or ProQuest record with two authors, a title of 3 free characters and a year")
def bib_kinds(c, fam, mode):
    """Records of every kind have entries with their authors and fields."""
    t = c.s("t", [but("\"", " .,", base=ASCII), 3])
    names = ["Doe, %s" % c.s("n", ["AB"]), "Roe, C"]
    if fam == "medline":
        r = c.mk.MedlineRecord({"PMID": ["12345"], "TI": [t], "FAU": list(names), "DP": ["2001"]})
        want = [("PMID", "12345"), ("TI", t), ("FAU", names), ("DP", "2001")]
        ident, year = "PMID:12345", 2001
    elif fam == "scopus":
        r = c.mk.ScopusRecord({"EID": "12345", "Authors": ", ".join(n.replace(", ", " ") for n in names), "Title": t, "Year": "2001"})
        names = [n.replace(", ", " ") for n in names]
        want = [("EID", "12345"), ("Title", t), ("Authors", names), ("Year", "2001")]
        ident, year = r.id, 2001
    else:
        r = c.mk.ProQuestRecord({"ProQuest document ID": ["12345"], "Title": [t], "Author": ["; ".join(names)], "Degree date": ["2001"]})
        want = [("ProQuest document ID", "12345"), ("Title", t), ("Author", names), ("Degree date", "2001")]
        ident, year = r.id, 2001
    w = mode == "wos"
    for short in (False, True):
        key, got = entry(c, r.bibString(WOSMode=w, niceID=False, restrictedOutput=short), w)
        c.equal(key, "ISI:" + ident[4:] if w else ident, "key")
        c.equal(got[0], ("author", "{{%s}}" % " and ".join(r.get("authorsFull", ["None"]))), "authors")
        if short:
            for k, v in got[1:]:
                c.check(k in c.mk.commonRecordFields and k in r, "only common fields", k)
            fields = dict(got[1:])
            c.equal(unbib(c, fields["title"]) if not w else fields["title"], t if not w else "{{%s}}" % t, "title")
            c.equal(unbib(c, fields["year"]) if not w else fields["year"], str(year) if not w else "{{%d}}" % year, "year")
            c.equal(len(fields), sum(1 for x in c.mk.commonRecordFields if x in r), "every common field")
        elif w:
            c.same_items(got[1:], [(k, "{{%s}}" % ("\n   ".join(str(y) for y in r[k]) if isinstance(r[k], list) else str(r[k]))) for k, x in want], "fields")
        else:
            c.same_items([(k, unbib(c, x)) for k, x in got[1:]], [(k, " and ".join(str(y) for y in r[k]) if isinstance(r[k], list) else str(r[k])) for k, x in want], "fields")


@harness("C21", quick=[dict(n=0), dict(n=1)], bounds="a title of words of lengths 1 to 18 with free letters, with or without author and month")
def bib_keys(c, n):
    """The readable key has author, year, month and long words of the title, and the id only if it is short."""
    words = [c.s("w%d" % i, ["ab"]) * k for i, k in enumerate((3, 1, 18, 9))][:c.pick("words", [0, 1, 2, 4])]
    f = {"PY": "2001"} if c.truth(c.b("year")) else {}
    if c.truth(c.b("month")):
        f["PD"] = "MAY 3"
    if words:
        f["TI"] = " ".join(words)
    if n:
        f["AF"] = ["Van Doe, J. B."]
    r = wos(c, "WOS:12", **f)
    key, _ = entry(c, r.bibString(), False)
    want = "VanDoeJB" if n else ""
    if "PY" in f:
        want += "-2001"
    if "PD" in f:
        want += "-5"
    for i, w in enumerate(sorted(words, key=len, reverse=True)):
        if i == 0 or len(want) < 35:
            want += "-" + w[0].upper() + w[1:]
    if len(want) < 30:
        want += "WOS:12"
    c.equal(key, want, "key")


@harness("C21", quick=[dict(n=n, k=k) for n, k in ((0, 2), (1, 1))], thorough=[dict(n=2, k=1), dict(n=1, k=2), dict(n=0, k=3)],
         bounds="a first author and a title word with 1 or 2 (thorough 3) free characters each")
def bib_key_text(c, n, k):
    """Whatever the author and the title hold, the readable key ends where the entry says: nothing that ends a key is in it."""
    f = dict(PY="2001", SE="s")
    if n:
        f["AF"] = ["Doe" + c.s("a", [TEXT, n]) + "J"]
    f["TI"] = "A " + "Long" + c.s("t", [TEXT, k]) + "Word of"
    s = wos(c, "WOS:12", **f).bibString()
    c.check(s.startswith("@misc{ "), "an entry", s)
    end = s.index(",")
    key = s[len("@misc{ "):end]
    c.check(c.all_([c.not_(c.member(ch, list(" \t\n\r\x0b\x0c\"#%'(),={}"))) for ch in key]), "a key that BibTeX reads", key)
    c.equal(s[end:end + 2], ",\n", "the fields follow the key")
    c.check("Long" in key and "2001" in key, "a readable key", key)


@harness("C21", quick=[dict(m=m) for m in (2, 4)], bounds="a collection named after a file, with a value of 4 free characters, strings of 2 or 4")
def bib_named(c, m):
    """The file is named after the collection, and the length of strings is as asked for."""
    import os
    v = c.s("v", [but('"'), 4])
    R = rc(c, [wos(c, "WOS:0", SE=v)], name="coll")
    os.chdir(c.tmp())
    R.writeBib(maxStringLength=m, niceIDs=False)
    c.equal(os.listdir(c.tmp()), ["coll.bib"], "file")
    parts = c.text(c.tmp() + "/coll.bib").split("\n\n@")
    _, got = entry(c, "@" + parts[1], False)
    val = [x for t, x in got if t == "SE"][0]
    c.equal(val, '"%s"' % v if m == 4 else '"%s" # "%s"' % (v[:2], v[2:]), "value")
