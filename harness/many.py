"""Large inputs: as the small ones elsewhere, with many records, values, lines, nodes or rows, of which one place, free, differs."""
import os
from vf.ctx import harness
from harness.lib import rc, wos, ASCII, but
from harness.files import HEAD, wos_text, med_text, pq_file, quoted, header
from harness.grants import table as csv_text

SOME = "xyz"


def place(c, n, name="at"):
    """one of n places: the first, the last, the tenth and eleventh, one in the middle"""
    return c.pick(name, sorted({i for i in (0, 9, 10, n // 2, n - 1) if i < n}))


def plain(c, R):
    return sorted((r.id, [(k, list(v) if isinstance(v, list) else [v]) for k, v in r.items(raw=True)]) for r in R)


def words(n, tag="w"):
    return ["%s%d" % (tag, i) for i in range(n)]


# ------------------------------------------------------------------ files
@harness("C07", quick=[dict(n=12, lines=3), dict(n=2, lines=60)], thorough=[dict(n=40, lines=12)], bounds="12 records of fields of 3 lines, and 2 of 60, one line of them free (thorough 40 of 12)")
def wos_many(c, n, lines):
    at, line = place(c, n), place(c, lines, "line")
    x = c.s("x", [but(""), 2])
    recs = []
    for i in range(n):
        cr = ["Cited %d.%d, 2000, J" % (i, j) for j in range(lines)]
        au = ["Author %d.%d" % (i, j) for j in range(lines)]
        if i == at:
            cr[line] = x
        recs.append([("PT", ["J"]), ("AU", au), ("TI", ["A title %d" % i]), ("CR", cr), ("UT", ["WOS:%03d" % i])])
    t = HEAD + "\n".join(wos_text(f) for f in recs) + "EF"
    R = c.mk.RecordCollection(c.put("set.isi", t), quietStart=True)
    c.equal(len(R), n, "number of records")
    c.check(R.bad is False and len(R.errors) == 0, "nothing to report", R.errors)
    for f in recs:
        c.equal([(k, list(v)) for k, v in R.getID(f[-1][1][0]).items(raw=True)], f, "fields")
    out = c.tmp() + "/out.isi"
    R.writeFile(out)
    S = c.mk.RecordCollection(out, quietStart=True)
    c.equal(len(S), n, "as many again")
    c.check(S.bad is False, "well-formed")
    for f in recs:
        c.equal([(k, list(v)) for k, v in S.getID(f[-1][1][0]).items(raw=True)], f, "the same fields again")


@harness("C08", quick=[dict(n=12, lines=3), dict(n=2, lines=15)], thorough=[dict(n=40, lines=12)], bounds="12 records of 3 authors with affiliations, and 2 of 15, one of them free (thorough 40 of 12)")
def medline_many(c, n, lines):
    at, line = place(c, n), place(c, lines, "line")
    x = c.s("x", ["abc ", 2]) + "."
    recs, texts = [], []
    for i in range(n):
        ads = ["Place %d.%d" % (i, j) for j in range(lines)]
        if i == at:
            ads[line] = "P" + x
        ab = "\n".join("line %d.%d" % (i, j) for j in range(lines))
        f = [("PMID", [str(100 + i)]), ("TI", ["Title %d" % i]), ("AB", [ab])]
        for j in range(lines):
            f += [("AU", ["Doe %d" % j]), ("AD", [ads[j]])]
        f.append(("JT", ["A journal"]))
        texts.append(med_text([(k, [y.replace("\n", " ") if k != "AB" else y for y in v]) for k, v in f]))
        recs.append(("PMID:%d" % (100 + i), ads, ab))
    R = c.mk.RecordCollection(c.put("set.medline", "\n" + "\n".join(texts) + "\n"), quietStart=True)

    def check(S, what):
        c.equal(len(S), n, what + ": number")
        c.check(S.bad is False and len(S.errors) == 0, what + ": nothing to report", S.errors)
        for u, ads, ab in recs:
            r = S.getID(u)
            c.equal(list(r.get("AU")), ["Doe %d" % j for j in range(lines)], what + ": authors")
            c.equal(list(r.get("AD", raw=True)), ["Doe %d : %s" % (j, a) for j, a in enumerate(ads)], what + ": affiliations")
            c.equal(r.get("AB"), ab, what + ": abstract")
    check(R, "read")
    out = c.tmp() + "/out.medline"
    R.writeFile(out)
    check(c.mk.RecordCollection(out, quietStart=True), "written and read")


@harness("C09", quick=[dict(n=12, parts=3), dict(n=3, parts=20)], thorough=[dict(n=40, parts=12)], bounds="12 rows with 3 commas in every field, and 3 with 20, one part of them free (thorough 40 with 12)")
def scopus_many(c, n, parts):
    at, part = place(c, n), place(c, parts, "part")
    x = c.s("x", [but('"'), 2])
    h = header(c)
    rows, want = [], []
    for i in range(n):
        v = {k: ", ".join("%s %d.%d" % (k, i, j) for j in range(parts)) for k in h}
        v["EID"], v["Year"] = "2-%d" % i, "2001"
        if i == at:
            p = v["Abstract"].split(", ")
            p[part] = x
            v["Abstract"] = ", ".join(p)
        want.append(v)
        rows.append(",".join(quoted(v[k]) for k in h) + "\n")
    R = c.mk.RecordCollection(c.put("scopus.csv", "\ufeff" + ",".join(h) + "\n" + "".join(rows)), quietStart=True)
    c.equal(len(R), n, "number of records")
    c.check(R.bad is False and len(R.errors) == 0, "nothing to report", R.errors)
    for v in want:
        r = R.getID("EID:" + v["EID"])
        for k in h:
            c.equal(r.get(k, raw=True), v[k], "column " + k)
    out = c.tmp() + "/out.csv"
    R.writeFile(out)
    S = c.mk.RecordCollection(out, quietStart=True)
    c.equal(len(S), n, "as many again")
    for v in want:
        r = S.getID("EID:" + v["EID"])
        c.equal(r.get("Abstract", raw=True), v["Abstract"], "the same again")


@harness("C10", quick=[dict(n=12, lines=3), dict(n=2, lines=30)], thorough=[dict(n=40, lines=10)], bounds="12 documents of 3 lines of abstract and locations, and 2 of 30, one line free (thorough 40 of 10)")
def proquest_many(c, n, lines):
    at, line = place(c, n), place(c, lines, "line")
    x = c.s("x", ["abc ", 2]) + "."
    recs = []
    for i in range(n):
        ab = ["Words %d.%d" % (i, j) for j in range(lines)]
        if i == at:
            ab[line] = "W" + x
        recs.append([("Name", "A name %d" % i), ("Title", "Title %d" % i), ("Author", "Doe%d, J" % i), ("url", "http://x.y/%d" % i), ("Abstract", ab),
                     ("Subject", ", ".join(words(lines))), ("ProQuest document ID", str(100 + i))])
    R = c.mk.RecordCollection(c.put("proquest.txt", pq_file(c, recs)), quietStart=True)
    c.equal(len(R), n, "number of records")
    c.check(R.bad is False and len(R.errors) == 0, "nothing to report", R.errors)
    for r in recs:
        d = dict(r)
        got = R.getID("PROQUEST:" + d["ProQuest document ID"])
        c.check(got is not None, "there")
        for k in ("Title", "Author", "Subject", "url", "Name"):
            c.equal(got.get(k, raw=True), [d[k]], k)
        c.equal(list(got.get("Abstract", raw=True)), d["Abstract"], "abstract")


@harness("C11", quick=[dict(kind=k) for k in ("wos", "medline", "proquest", "scopus")], bounds="files of 12 records, one of them, at any of 5 places, damaged by a free line or its lack of an id")
def one_damaged_of_many(c, kind):
    """What is well-formed is read whatever the rest, and the rest is reported."""
    n = 12
    at = place(c, n)
    x = c.s("x", ["ab"])
    if kind == "wos":
        recs = [wos_text([("PT", ["J"]), ("TI", ["T%d" % i])] + ([("UT", ["WOS:%d" % i])] if i != at else [("A" + x.upper(), [x])])) for i in range(n)]
        text, uid = HEAD + "\n".join(recs) + "EF", "WOS:%d"
    elif kind == "medline":
        recs = [med_text(([("PMID", [str(i)])] if i != at else [("PMID", [str(i)])]) + [("TI", ["T%d" % i])]) for i in range(n)]
        recs[at] = recs[at].replace("TI  - ", "TI " + x + "- ")
        text, uid = "\n" + "\n".join(recs) + "\n", "PMID:%d"
    elif kind == "proquest":
        recs = [[("Name", "A name"), ("Title", "T%d" % i), ("Author", "Doe, J"), ("url", "http://x.y/"), ("ProQuest document ID" if i != at else "ProQuest " + x, str(i))] for i in range(n)]
        text, uid = pq_file(c, recs), "PROQUEST:%d"
    else:
        h = header(c)
        rows = [",".join(quoted({"Title": "T%d" % i, "EID": str(i)}.get(k, "")) for k in h) for i in range(n)]
        rows[at] = '"' + x + '",' * 3
        text, uid = "\ufeff" + ",".join(h) + "\n" + "\n".join(rows) + "\n", "EID:%d"
    R, err = c.attempt(c.mk.RecordCollection, c.put("set." + {"wos": "isi", "scopus": "csv"}.get(kind, "txt"), text), quietStart=True)
    c.check(err is None, "no error", err)
    good = {r.id: r for r in R if not r.bad}
    for i in range(n):
        if i != at and not (kind == "medline" and i > at):
            c.check(uid % i in good, "well-formed ones are read", i)
            c.equal(good[uid % i]["title"], "T%d" % i, "whole")
    c.check(R.bad is True or any(r.bad for r in R), "what is wrong is reported")


# ------------------------------------------------------------------ collections
@harness("C12", quick=[dict(op=o) for o in ("|", "&", "-", "^")], bounds="two collections of 30 records, 15 of them common, one more of either free id")
def algebra_many(c, op):
    import operator
    f = {"|": operator.or_, "&": operator.and_, "-": operator.sub, "^": operator.xor}[op]
    x, y = c.pick("x", [0, 14, 15, 29, 30, 44, 50]), c.pick("y", [0, 14, 15, 29, 30, 44, 50])
    a, b = set(range(30)) | {x}, set(range(15, 45)) | {y}
    A, B = [rc(c, [wos(c, "WOS:%d" % i, TI="t") for i in sorted(s)]) for s in (a, b)]
    got = f(A, B)
    c.equal(sorted(r.id for r in got), sorted("WOS:%d" % i for i in f(a, b)), "records")
    c.equal((len(A), len(B)), (len(a), len(b)), "operands as they were")


@harness("C14", quick=[dict(n=n, k=k) for n in (23, 30) for k in (1, 7, 10, 30, 40)], bounds="23 or 30 records in parts of up to 40")
def chunks_many(c, n, k):
    R = rc(c, [wos(c, "WOS:%d" % i, TI=c.s("t", ["ab"])) for i in range(n)])
    before = sorted(r.id for r in R)
    parts = R.chunk(k)
    c.same_items([r.id for p in parts for r in p], before, "each record once")
    c.check(all(len(p) <= k for p in parts) and len(parts) == -(-n // k), "as full as can be", [len(p) for p in parts])
    c.equal(sorted(r.id for r in R), before, "the collection is as it was")
    S = R.copy()
    parts = S.split(k)
    c.same_items([r.id for p in parts for r in p], before, "each record once when split")
    c.equal(len(S), 0, "and none are left")
    c.check(all(len(p) <= k for p in parts), "no part is too large")


@harness("C16", quick=[dict()], bounds="60 records of 30 years, one of a free year; every range of a few")
def years_many(c):
    at = c.pick("at", [0, 10, 59])
    y = c.pick("y", ["1990", "2004", "2019"])
    years = ["%d" % (1985 + i % 30) for i in range(60)]
    years[at] = y
    R = rc(c, [wos(c, "WOS:%d" % i, PY=v) for i, v in enumerate(years)])
    lo, hi = c.pick("lo", [1985, 1990, 2004]), c.pick("hi", [1999, 2004, 2005, 2030])
    got = R.yearSplit(lo, hi)
    c.equal(sorted(r.id for r in got), sorted("WOS:%d" % i for i, v in enumerate(years) if lo <= int(v) <= hi), "records")


# ------------------------------------------------------------------ counting
@harness("C17", quick=[dict()], bounds="40 records with 3 of 25 keywords each and 15 citations, one record's free")
def counts_many(c):
    at = place(c, 40)
    k = [["K%d" % ((i * 7 + j * 5) % 25) for j in range(3)] for i in range(40)]
    k[at] = ["K" + c.pick("k", ["0", "7", "X"]), "K3", "Q"]
    cr = ["Au%d X, 2000, J%d" % (j, j) for j in range(15)]
    R = rc(c, [wos(c, "WOS:%d" % i, ID="; ".join(v), PY="%d" % (2000 + i % 4), CR=cr[:i % 16] or None) for i, v in enumerate(k)])
    tally = {}
    for v in k:
        for x in v:
            tally[x] = tally.get(x, 0) + 1
    ranked = R.rankedSeries("ID", giveCounts=True, pandasMode=False)
    c.equal(dict(ranked), tally, "counts")
    c.equal([n for _, n in ranked], sorted(tally.values(), reverse=True), "in order")
    T = R.timeSeries("ID", pandasMode=True)
    want = {}
    for i, v in enumerate(k):
        for x in v:
            want[(x, 2000 + i % 4)] = want.get((x, 2000 + i % 4), 0) + 1
    c.equal({(e, y): n for e, y, n in zip(T["entry"], T["year"], T["count"])}, want, "per year")
    c.equal(T["year"], sorted(T["year"], reverse=True), "newest first")
    co = R.cooccurrenceCounts("ID", "year")
    want = {}
    for i, v in enumerate(k):
        for x in v:
            want.setdefault(x, {}).setdefault(2000 + i % 4, 0)
            want[x][2000 + i % 4] += 1
    c.equal({x: dict(d) for x, d in co.items()}, want, "together")
    r = R.getID("WOS:%d" % 31)
    c.equal(len(r.getCitations()["citeString"]), 15, "all citations are listed")


@harness("C18", quick=[dict()], bounds="60 records of 3 citations, of 40 years, one of a free year")
def rpys_many(c):
    at = place(c, 60)
    years = [[1900 + (i * 7 + j * 11) % 40 for j in range(3)] for i in range(60)]
    years[at][0] = c.pick("y", [1900, 1925, 1939, 1950])
    R = rc(c, [wos(c, "WOS:%d" % i, CR=["B%d X, %d, J%d" % (i, y, j) for j, y in enumerate(v)]) for i, v in enumerate(years)])
    got = R.rpys()
    flat = [y for v in years for y in v]
    span = list(range(min(flat), max(flat) + 1))
    c.equal(list(got["year"]), span, "years")
    n = [flat.count(y) for y in span]
    c.equal(list(got["count"]), n, "counts")
    import statistics
    dev = [x - statistics.median([n[j] if 0 <= j < len(n) else 0 for j in range(i - 2, i + 3)]) for i, x in enumerate(n)]
    c.check([float(x) for x in got["abs-deviation"]] == dev, "deviations", got["abs-deviation"], dev)


# ------------------------------------------------------------------ tables and text
@harness("C19", quick=[dict()], bounds="60 records with 12 authors each, one title free")
def tables_many(c):
    import csv
    import io
    at = place(c, 60)
    x = c.s("x", [but("|"), 2])
    t = ["Title %d" % i for i in range(60)]
    t[at] = x
    au = [["Doe%d.%d, J" % (i, j) for j in range(i % 13)] for i in range(60)]
    R = rc(c, [wos(c, "WOS:%02d" % i, TI=t[i], AF=au[i] or None, AU=au[i] or None) for i in range(60)])
    d = R.makeDict(onlyTheseTags=["UT", "TI", "AF"], numAuthors=True, genderCounts=False)
    rows = sorted(zip(d["UT"], d["TI"], d["AF"], d["num-Authors"]), key=lambda r: r[0])
    c.equal([(u, k, a, n) for u, k, a, n in rows], [("WOS:%02d" % i, t[i], au[i] or None, len(au[i])) for i in range(60)], "rows")
    f = c.tmp() + "/t.csv"
    R.writeCSV(f, onlyTheseTags=["UT", "TI", "AF"], numAuthors=True, genderCounts=False)
    got = [x.rstrip("\r") for x in c.text(f).strip("\n").split("\n")]
    head = got[0].replace('"', "").split(",")
    want = []
    for i in range(60):
        cells = dict(zip(("UT", "TI", "AF", "num-Authors"), ("WOS:%02d" % i, t[i], "|".join(au[i]), str(len(au[i])))))
        want.append(",".join('"' + cells[k].replace('"', '""') + '"' for k in head))
    c.same_items(got[1:], want, "rows of the file")


@harness("C19", quick=[dict(n=15)], thorough=[dict(n=60)], bounds="a record with 15 (thorough 60) authors, one of them free, and another with one of them; a file for each")
def split_many(c, n):
    import os
    at = place(c, n)
    x = c.s("x", ["ab"])
    au = ["Doe%d, J" % i for i in range(n)]
    au[at] = "Do%s, J" % x
    d = c.tmp() + "/out"
    os.mkdir(d)
    rc(c, [wos(c, "WOS:0", AF=au), wos(c, "WOS:1", AF=[au[2]])]).writeCSV(d + "/t.csv", splitByTag="AF", onlyTheseTags=["UT"], numAuthors=False, genderCounts=False)
    c.same_items(os.listdir(d), [a + "-t.csv" for a in au], "files")
    for i, a in enumerate(au):
        c.same_items([y.rstrip("\r") for y in c.text(d + "/" + str(a) + "-t.csv").strip("\n").split("\n")[1:]], ['"WOS:0"'] + (['"WOS:1"'] if i == 2 else []), "rows")


@harness("C20", quick=[dict()], bounds="60 records with abstracts of 40 words, one word free")
def text_many(c):
    at, w = place(c, 60), place(c, 40, "word")
    x = c.s("x", ["abc", 3])
    abst = [words(40, "w%d" % i) for i in range(60)]
    abst[at][w] = x
    R = rc(c, [wos(c, "WOS:%02d" % i, TI="T%d" % i, AB=" ".join(a), PY="2001") for i, a in enumerate(abst)])
    d = R.forNLP(removeNumbers=False)
    rows = sorted(zip(d["id"], d["title"], d["abstract"]), key=lambda r: r[0])
    c.equal(rows, [("WOS:%02d" % i, "T%d" % i, " ".join(a)) for i, a in enumerate(abst)], "rows")


@harness("C21", quick=[dict(n=12), dict(n=30)], bounds="a record with 30 authors, keywords and citations, one of them free")
def bib_many(c, n):
    at = place(c, n)
    x = c.s("x", ["abc", 2])
    au = ["Doe%d, J" % i for i in range(n)]
    au[at] = "D" + x + ", J"
    ti = " ".join(words(n))
    R = wos(c, "WOS:1", AF=au, AU=au, TI=[ti], PY="2001")
    b = R.bibString(maxLength=100000, WOSMode=False)
    c.check(c.truth(c.not_(c.eq(b.find(" and ".join(au)), -1))), "every author")
    c.check(c.truth(c.not_(c.eq(b.find(ti), -1))), "all of the title")
    c.check(b.endswith("}\n") or b.rstrip().endswith("}"), "closed")


@harness("C38", quick=[dict(rows=12), dict(rows=40)], bounds="60 records with 3 authors of 70, one of them free")
def glimpse_many(c, rows):
    from harness.glimpses import sized
    at = place(c, 60)
    names = [["N%d" % ((i * 7 + j * 3) % 70) for j in range(3)] for i in range(60)]
    names[at][0] = c.pick("x", ["N0", "Nx"])
    R = rc(c, [wos(c, "WOS:%d" % i, AF=v) for i, v in enumerate(names)])
    got = sized(lambda: R.glimpse("AF"), 80, rows).split("\n")
    flat = [x for v in names for x in v]
    tally = {x: flat.count(x) for x in flat}
    levels = sorted(set(tally.values()), reverse=True)
    rank = {x: 1 + levels.index(k) for x, k in tally.items()}
    c.equal(got[1].split(" ")[0], "60", "number of records")
    here = [g for g in got[4:] if g]
    c.equal(len(here), min((rows - 6) // 2, len(tally)), "as many as fit")
    c.equal([int(g.split(" ")[0]) for g in here], sorted(rank.values())[:len(here)], "the best")
    c.check(len(set(here)) == len(here), "each once")
    for g in here:
        c.equal(rank[g.split(" ")[1]], int(g.split(" ")[0]), "with its rank")


# ------------------------------------------------------------------ networks
def pairs(xs):
    return [(a, b) for i, a in enumerate(xs) for b in xs[i + 1:]]


def weights(c, g, want, what="edges"):
    got = {}
    for u, v, d in g.edges(data=True):
        got[(u, v) if g.is_directed() else tuple(sorted((u, v)))] = d.get("weight")
    c.equal(got, want, what)


def tallied(groups):
    nodes, edges = {}, {}
    for xs in groups:
        for x in xs:
            nodes[x] = nodes.get(x, 0) + 1
        for a, b in pairs(xs):
            k = tuple(sorted((a, b)))
            edges[k] = edges.get(k, 0) + 1
    return nodes, edges


@harness("C22", quick=[dict()], bounds="20 records with 12 of 30 keywords each, one of them free")
@harness("C24", quick=[dict()], bounds="20 records with 12 of 30 authors each, one of them free")
def networks_many(c):
    at, pos = c.pick("at", [0, 10, 19]), c.pick("pos", [0, 10, 11])
    groups = [["K%d" % ((i * 7 + j) % 30) for j in range(12)] for i in range(20)]
    groups[at][pos] = "K" + c.pick("k", ["X", "30"])
    nodes, edges = tallied(groups)
    R = rc(c, [wos(c, "WOS:%d" % i, ID="; ".join(v), AF=v, AU=v) for i, v in enumerate(groups)])
    g = R.networkOneMode("ID")
    c.equal({n: d["count"] for n, d in g.nodes(data=True)}, nodes, "keywords")
    weights(c, g, edges)
    g = R.networkCoAuthor()
    c.equal({n: d["count"] for n, d in g.nodes(data=True)}, nodes, "authors")
    weights(c, g, edges)


@harness("C23", quick=[dict()], bounds="20 records with 8 of 12 keywords and 5 of 9 authors each, one free")
def modes_many(c):
    at = place(c, 20)
    ks = [["K%d" % ((i * 5 + j) % 12) for j in range(8)] for i in range(20)]
    aus = [["A%d" % ((i * 2 + j) % 9) for j in range(5)] for i in range(20)]
    ks[at][0] = "K" + c.pick("k", ["X", "Y"])
    R = rc(c, [wos(c, "WOS:%d" % i, ID="; ".join(k), AF=a) for i, (k, a) in enumerate(zip(ks, aus))])
    want, both = {}, {}
    for k, a in zip(ks, aus):
        for x in k:
            for y in a:
                want[(y, x)] = want.get((y, x), 0) + 1
    g = R.networkTwoMode("AF", "ID")
    weights(c, g, want)
    for f in (R.networkMultiMode, R.networkMultiLevel):
        g = f("AF", "ID")
        if f == R.networkMultiMode:
            c.equal({n: d["type"] for n, d in g.nodes(data=True)}, {x: "ID" if x[0] == "K" else "AF" for v in ks + aus for x in v}, "types")
        weights(c, g, want if f == R.networkMultiMode else tallied([k + a for k, a in zip(ks, aus)])[1], "together")


def works(n, tag="A"):
    return ["%s%d X, %d, J%d" % (tag, i, 1990 + i % 15, i) for i in range(n)]


@harness("C25", quick=[dict()], bounds="15 records with 12 of 40 citations each, one free")
@harness("C27", quick=[dict()], bounds="15 records with 12 of 40 citations each, one free")
def cited_many(c):
    at, pos = c.pick("at", [0, 10, 14]), c.pick("pos", [0, 10, 11])
    all_ = works(40)
    cites = [[all_[(i * 3 + j) % 40] for j in range(12)] for i in range(15)]
    cites[at][pos] = "Other X, 1970, " + c.pick("j", ["JX", "JY"])
    R = rc(c, [wos(c, "WOS:%02d" % i, AU="Own%d, X" % i, PY="2010", J9="OWN", CR=v) for i, v in enumerate(cites)])
    nodes, edges = tallied([[x.replace(" X,", " X,").upper() for x in v] for v in cites])
    up = lambda x: x.upper()
    g = R.networkCoCitation()
    c.equal({up(n): d["count"] for n, d in g.nodes(data=True)}, nodes, "works")
    got = {}
    for u, v, d in g.edges(data=True):
        got[tuple(sorted((up(u), up(v))))] = d["weight"]
    c.equal(got, edges, "together")
    g = R.networkBibCoupling()
    want = {}
    for i, j in pairs(list(range(15))):
        n = len(set(cites[i]) & set(cites[j]))
        if n:
            want[("WOS:%02d" % i, "WOS:%02d" % j)] = n
    got = {}
    ids = {str(R.getID("WOS:%02d" % i).createCitation().ID()): "WOS:%02d" % i for i in range(15)}
    for u, v, d in g.edges(data=True):
        got[tuple(sorted((g.nodes[u].get("MK-ID", ids.get(str(u), str(u))), g.nodes[v].get("MK-ID", ids.get(str(v), str(v))))))] = d["weight"]
    c.equal(got, want, "coupled")


@harness("C26", quick=[dict()], bounds="15 records with 12 of 40 citations each, one free, the first citing the others")
def citing_many(c):
    at, pos = c.pick("at", [0, 10, 14]), c.pick("pos", [0, 10, 11])
    all_ = works(40)
    cites = [[all_[(i * 3 + j) % 40] for j in range(12)] for i in range(15)]
    cites[at][pos] = "Other X, 1970, " + c.pick("j", ["JX", "JY"])
    cites[0] = cites[0] + ["Own%d X, 2010, OWN" % i for i in range(1, 15)]
    R = rc(c, [wos(c, "WOS:%02d" % i, AU="Own%d, X" % i, PY="2010", J9="OWN", CR=v) for i, v in enumerate(cites)])
    g = R.networkCitation()
    want = {}
    for i, v in enumerate(cites):
        for x in v:
            k = ("OWN%d X, 2010, OWN" % i, x.upper())
            want[k] = want.get(k, 0) + 1
    c.equal({(u.upper(), v.upper()): d["weight"] for u, v, d in g.edges(data=True)}, want, "citations")


@harness("C32", quick=[dict()], bounds="15 sources with 4 of 20 authors, 15 targets with 10 citations each, one free")
@harness("C33", quick=[dict()], bounds="15 sources with 4 of 20 authors, 15 targets with 10 citations each, one free")
def diffusion_many(c):
    at, pos = place(c, 15), place(c, 10, "pos")
    own = ["Own%d X, %d, OWN" % (i, 2000 + i) for i in range(15)]
    aus = [["A%d" % ((i * 3 + j) % 20) for j in range(4)] for i in range(15)]
    cites = [[(i + j) % 18 for j in range(10)] for i in range(15)]
    cites[at][pos] = c.pick("x", [0, 14, 17])
    S = rc(c, [wos(c, "WOS:S%d" % i, AU=["Own%d, X" % i], AF=aus[i], PY="%d" % (2000 + i), J9="OWN") for i in range(15)])
    T = rc(c, [wos(c, "WOS:T%d" % i, AF=["B%d" % (i % 6)], CR=["Own%d X, %d, OWN" % (k, 2000 + k) if k < 15 else "No%d X, 1980, J" % k for k in v]) for i, v in enumerate(cites)])
    n = {}
    e = {}
    for i in range(15):
        for a in aus[i]:
            n.setdefault(a, 0)
    for i, v in enumerate(cites):
        for k in v:
            if k < 15:
                for a in aus[k]:
                    n[a] += 1
                    e[(a, "B%d" % (i % 6))] = e.get((a, "B%d" % (i % 6)), 0) + 1
    c.equal(dict(c.mk.diffusionCount(S, T, "AF")), n, "counts")
    g = c.mk.diffusionGraph(S, T, sourceType="AF", targetType="AF")
    weights(c, g, e)


# ------------------------------------------------------------------ graphs
def long_graph(c, n=1005, kind="Graph", free=True):
    import networkx as nx
    g = getattr(nx, kind)()
    for i in range(n):
        g.add_node("n%04d" % i, count=i % 7)
    for i in range(n - 1):
        g.add_edge("n%04d" % i, "n%04d" % (i + 1), weight=i % 5 + 1)
    if free:
        at = c.pick("at", [0, n // 2, n - 2])
        g.edges["n%04d" % at, "n%04d" % (at + 1)]["weight"] = c.pick("w", [1, 9])
    return g


def rows_of(g):
    return sorted((tuple(sorted((u, v))), int(d["weight"])) for u, v, d in g.edges(data=True))


@harness("C30", quick=[dict(kind=k) for k in ("Graph", "DiGraph")], bounds="a path of 1005 nodes, one weight free")
def files_many(c, kind):
    g = long_graph(c, kind=kind)
    d = c.tmp()
    c.mk.writeGraph(g, d + "/g")
    c.equal(sorted(os.listdir(d)), ["g_edgeList.csv", "g_nodeAttributes.csv"], "files")
    c.equal(len(c.text(d + "/g_edgeList.csv").splitlines()), 1005, "a row per edge")
    c.equal(len(c.text(d + "/g_nodeAttributes.csv").splitlines()), 1006, "a row per node")
    h = c.mk.readGraph(d + "/g_edgeList.csv", d + "/g_nodeAttributes.csv", directed=kind == "DiGraph")
    c.equal(sorted((n, int(a["count"])) for n, a in h.nodes(data=True)), sorted((n, a["count"]) for n, a in g.nodes(data=True)), "nodes")
    c.equal(rows_of(h), rows_of(g), "edges")


@harness("C30", quick=[dict(what=w) for w in ("edge", "node")], bounds="a path of 1005 nodes, one edge or node in any of eight places with an attribute no other has")
def attribute_many(c, what):
    g = long_graph(c, free=False)
    at = c.pick("at", [0, 99, 100, 499, 500, 999, 1000, 1003])
    names = ["n%04d" % at, "n%04d" % (at + 1)]
    v = c.s("v", ["ab"])
    (g.edges[names[0], names[1]] if what == "edge" else g.nodes[names[0]])["special"] = v
    f = c.tmp() + "/f.csv"
    if what == "edge":
        c.mk.writeEdgeList(g, f)
    else:
        c.mk.writeNodeAttributeFile(g, f)
    rows = c.text(f).splitlines()
    head = rows[0].replace('"', "").split(",")
    c.check("special" in head, "a column for it")
    i = head.index("special")
    cells = [r.split(",")[i].strip('"') for r in rows[1:]]
    c.equal([x for x in cells if x != ""], [v], "its value")
    c.equal(cells[at], v, "in its row")


@harness("C31", quick=[dict()], bounds="a path of 1005 nodes, one weight free")
def tnet_many(c):
    g = long_graph(c)
    for i, n in enumerate(g.nodes()):
        g.nodes[n]["type"] = "ab"[i % 2]
    d = c.tmp()
    c.mk.writeTnetFile(g, d + "/t", "type", weighted=True)
    want = {}
    text = c.text(d + "/t").splitlines()
    c.equal(len(text), 1004, "a line per edge")
    c.equal(sum(int(l.split()[-1]) for l in text), sum(w for _, w in rows_of(g)), "weights")
    seen = {}
    for l in text:
        w = l.split()
        a, b = l.split('"')[1::2][:2] if '"' in l else (w[0], w[1])
        c.check((a, b) not in seen, "each once")
        seen[(a, b)] = 1


@harness("C28", quick=[dict(what=w) for w in ("weight", "degree", "count", "loops")], bounds="a path of 1005 nodes, one weight free")
def drop_many(c, what):
    g = long_graph(c)
    if what == "weight":
        want = [r for r in rows_of(g) if 2 <= r[1] <= 8]
        c.mk.dropEdges(g, minWeight=2, maxWeight=8)
        c.equal(rows_of(g), want, "edges in range")
        c.equal(len(g), 1005, "nodes stay")
    elif what == "degree":
        c.mk.dropNodesByDegree(g, minDegree=2, useWeight=False)
        c.equal(sorted(g.nodes()), ["n%04d" % i for i in range(1, 1004)], "all but the ends")
    elif what == "count":
        c.mk.dropNodesByCount(g, minCount=2, maxCount=5)
        c.equal(sorted(g.nodes()), ["n%04d" % i for i in range(1005) if 2 <= i % 7 <= 5], "nodes in range")
    else:
        at = c.pick("loop", [0, 500, 1004])
        g.add_edge("n%04d" % at, "n%04d" % at, weight=3)
        want = [r for r in rows_of(g) if r[0][0] != r[0][1]]
        c.mk.dropEdges(g, dropSelfLoops=True)
        c.equal(rows_of(g), want, "all but the loop")


@harness("C29", quick=[dict()], bounds="two paths of 305 nodes, half of them common, one weight free each")
def merge_many(c):
    import networkx as nx
    g = long_graph(c, 305)
    h = nx.Graph()
    for i in range(150, 455):
        h.add_node("n%04d" % i, count=2)
    for i in range(150, 454):
        h.add_edge("n%04d" % i, "n%04d" % (i + 1), weight=3)
    want = {r[0]: r[1] for r in rows_of(g)}
    for r in rows_of(h):
        want[r[0]] = want.get(r[0], 0) + r[1]
    count = {n: d["count"] for n, d in g.nodes(data=True)}
    for n in h:
        count[n] = count.get(n, 0) + 2
    c.mk.mergeGraphs(g, h)
    c.equal(dict(rows_of(g)), want, "weights add up")
    c.equal({n: d["count"] for n, d in g.nodes(data=True)}, count, "counts add up")


# ------------------------------------------------------------------ grants
@harness("C34", quick=[dict()], bounds="a file of 40 grants of 3 lines, one cell free")
@harness("C35", quick=[dict()], bounds="a file of 40 grants of 3 lines, one cell free")
def grants_many(c):
    at = place(c, 40)
    x = c.s("x", ["xyz"])
    rows = []
    for i in range(40):
        for j in range(3):
            rows.append([str(i), "V" + (x if i == at and j == 1 else str(j)), "Doe%d.%d, J" % (i, j)])
    G = c.mk.GrantCollection(c.put("NSERC_a.csv", csv_text(["Cle", "V", "N"], rows)))
    got = {}
    for g in G:
        got[g["Cle"].split(";")[0]] = (g["V"], g["N"])
    c.equal(len(G), 40, "a grant per number")
    for i in range(40):
        v = [r for r in rows if r[0] == str(i)]
        c.equal(got[str(i)][0].split("; "), [r[1] for r in v], "values of all of its lines")
        c.equal(got[str(i)][1].split("; "), [r[2] for r in v], "names of all of its lines")


@harness("C36", quick=[dict()], bounds="a record with 25 authors, one of a free gender")
def genders_many(c):
    from harness.tables import use_genders, GENDERS
    use_genders(c)
    names = ["F%d, %s" % (i, ["Ann", "Bob", "Cy"][i % 3]) for i in range(25)]
    at = place(c, 25)
    names[at] = "F%d, " % at + c.pick("g", ["Ann", "Bob", "Cy"])
    R = wos(c, "WOS:1", AF=names)
    kinds = [GENDERS.get(n.split(", ")[1], "Unknown") for n in names]
    c.equal(dict(R.authGenders()), dict(zip(names, kinds)), "each author")
    c.equal(R.authGenders(_countsTuple=True), tuple(kinds.count(k) for k in ("Male", "Female", "Unknown")), "counts")
