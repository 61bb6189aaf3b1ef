"""Citation parsing, identity and filtering."""
from vf.ctx import harness
from harness.lib import ASCII, DIGITS, TEXT, but

UP = "AbZ"


def ref(author, year, journal):
    return "{}, {}, {}".format(author, year, journal)


def wellformed(c, p, alen=3, jlen=3, ylen=4):
    """(text parts) of a citation that follows the documented layout"""
    author = c.s(p + "author", [but(DIGITS, ",")], [but(","), alen - 1])
    year = c.s(p + "year", [DIGITS, 4]) if ylen == 4 else c.s(p + "year", ["12"], "00", ["09"])
    journal = c.s(p + "journal", [but(","), jlen])
    return author, year, journal


@harness("C01",
         quick=[dict(v=v, p=p, d=d) for v in (0, 1) for p in (0, 1) for d in (0, 1)],
         thorough=[dict(v=v, p=p, d=d, alen=a, jlen=j) for v in (0, 1) for p in (0, 1) for d in (0, 1)
                   for a in (2, 3, 5) for j in (1, 3, 5)],
         bounds="author <=3 (thorough 5) characters, 4-digit year, journal <=3 (5), volume/page/DOI <=3 characters after their marker")
def parse_wellformed(c, v, p, d, alen=3, jlen=3):
    author, year, journal = wellformed(c, "", alen, jlen)
    text = author + ", " + year + ", " + journal
    V = P = D = None
    if v:
        V = "V" + c.s("vol", [but(","), 2])
        text += ", " + V
    if p:
        P = "P" + c.s("page", [but(","), 2])
        text += ", " + P
    if d:
        D = c.s("doi", [ASCII, 3])
        text += ", DOI " + D
    cite = c.mk.Citation(text)
    c.equal(str(cite), text, "the original text is kept")
    c.equal(cite.original, text, "original attribute")
    c.equal(cite.author, author.replace(".", "").title(), "author")
    c.equal(cite.year, int(year), "year")
    c.equal(cite.journal, journal.upper(), "journal")
    c.equal(cite.V, None if V is None else V.upper(), "volume")
    c.equal(cite.P, None if P is None else P.upper(), "page")
    c.equal(cite.DOI, None if D is None else D.upper(), "DOI")
    c.check(cite.misc is None, "nothing left over", cite.misc, None)
    c.check(cite.bad is False, "a complete citation is good")
    c.check(cite.error is None, "a complete citation has no error")
    c.equal(cite.ID(), ref(author.replace(".", "").title(), int(year), journal.upper()), "ID")
    extra = [x.upper() for x in (V, P, D) if x is not None]
    c.equal(cite.Extra(), ", ".join(extra), "Extra")
    noDOI = [cite.ID()] + [x.upper() for x in (V, P) if x is not None]
    c.equal(cite.allButDOI(), ", ".join(noDOI), "allButDOI")


@harness("C01",
         quick=[dict(n=n) for n in range(0, 6)] + [dict(n=n, wide=1) for n in range(1, 5)],
         thorough=[dict(n=n) for n in range(6, 8)] + [dict(n=5, wide=1)],
         bounds="any text of up to 5 (thorough 7) printable characters, or of up to 4 (5) of any characters, line ends included")
def parse_any(c, n, wide=0):
    """Whatever the text, a citation object results and its flags are consistent with its parts."""
    text = c.s("text", [TEXT + "\r\n" if wide else ASCII, n])
    cite = c.mk.Citation(text)
    c.equal(str(cite), text, "the original text is kept")
    complete = cite.author is not None and cite.year is not None and cite.journal is not None
    left = cite.misc is not None
    c.check(cite.bad is (not complete or left), "bad flag", cite.bad, (complete, left))
    if cite.bad:
        c.check(isinstance(cite.error, c.mk.BadCitation), "a bad citation explains itself", cite.error)
    else:
        c.check(cite.error is None, "a good citation has no error")
    parts = []
    if cite.author:
        parts.append(cite.author)
    if cite.year is not None and c.truth(cite.year != 0):
        parts.append(str(cite.year))
    elif cite.year is not None and not cite.bad:
        parts.append("0")
    if cite.journal:
        parts.append(cite.journal)
    if complete and not left:
        c.equal(cite.ID(), "{}, {}, {}".format(cite.author, cite.year, cite.journal), "ID of a good citation")
    else:
        c.equal(cite.ID(), ", ".join(parts), "ID of a bad citation lists the parts there are")
    c.check(cite.Extra() is not None, "Extra does not fail")
    c.check(cite.allButDOI() is not None, "allButDOI does not fail")
    # nothing but separators is lost: journal, volume, page, DOI and leftovers appear in the text
    up = text.upper()
    for part in (cite.journal, cite.V, cite.P, cite.DOI, cite.misc):
        if part is not None:
            c.check(part in up, "parts come from the text", part, up)


@harness("C01",
         quick=[dict(v=v, p=p, two=two, title=t) for v in (0, 1) for p in (0, 1) for two in (0, 1) for t in (0, 1)],
         thorough=[dict(v=v, p=p, two=two, title=t, n=n) for v in (0, 1) for p in (0, 1) for two in (0, 1)
                   for t in (0, 1) for n in (2, 3, 4)],
         bounds="Scopus style citation of one or two authors, title and journal of 2 (thorough 4) characters")
def parse_scopus(c, v, p, two, title, n=2):
    W = "".join(x for x in ASCII if x.isalnum()) + "_-"
    name = c.s("name", [W, n]) + " " + c.s("init", [W]) + "."
    text = name + ", "
    if two:
        text += c.s("name2", [W, 2]) + " K., "
    if title:
        text += c.s("title", [but("(,."), n]) + " "
    year = c.s("year", [DIGITS[1:]], [DIGITS, 3])
    journal = c.s("journal", [but(","), n])
    text += "(" + year + ") " + journal
    if v:
        vol = c.s("vol", [W, 2])
        issue = c.s("issue", [W])
        text += ", " + vol + " (" + issue + ")"
    if p:
        pages = c.s("pages", [W, 2])
        text += ", pp. " + pages
    cite = c.mk.Citation(text, scopusMode=True)
    c.equal(str(cite), text, "the original text is kept")
    c.equal(cite.author, name.upper(), "author")
    c.equal(cite.year, int(year), "year")
    c.equal(cite.journal, journal.upper(), "journal")
    c.check(cite.bad is False and cite.error is None, "a complete citation is good")
    c.equal(cite.ID(), ref(name.upper(), int(year), journal.upper()), "ID")
    if v:
        c.equal(cite.V, vol.upper(), "volume")
        c.equal(cite.issue, issue.upper(), "issue")
    else:
        c.check(cite.V is None and cite.issue is None, "no volume")
    if p:
        c.equal(cite.P, pages.upper(), "pages")
    else:
        c.check(cite.P is None, "no pages")
    extra = cite.Extra()
    for x in (vol.upper() if v else None, pages.upper() if p else None):
        c.check(x is None or x in extra, "Extra has the volume and the pages", extra, x)


@harness("C01", quick=[dict(n=n) for n in range(0, 4)], thorough=[dict(n=n) for n in range(0, 6)],
         bounds="any Scopus-mode text of up to 3 (5) free characters around a bracketed year")
def parse_scopus_any(c, n):
    text = c.s("text", [ASCII, n]) + c.s("tail", ["( "], ["1a"], [DIGITS], [") "])
    cite = c.mk.Citation(text, scopusMode=True)
    c.equal(str(cite), text, "the original text is kept")
    if cite.bad:
        c.check(isinstance(cite.error, c.mk.BadCitation), "a bad citation explains itself", cite.error)
    else:
        c.equal(cite.ID(), "{}, {}, {}".format(cite.author, cite.year, cite.journal), "ID of a good citation")
    hash(cite)
    c.check(cite.Extra() is not None and cite.allButDOI() is not None, "Extra and allButDOI do not fail")


@harness("C01",
         quick=[dict(v=v, p=p, m=m, d=d) for v in (0, 1) for p in (0, 1) for m in (1, 2) for d in (0, 1)],
         thorough=[dict(v=v, p=p, m=m, d=d, n=3) for v in (0, 1) for p in (0, 1) for m in (1, 2) for d in (0, 1)],
         bounds="a complete citation followed by one or two parts of 2 (3) characters that are no volume, page or DOI")
def parse_leftovers(c, v, p, m, d, n=2):
    """Parts that fit nowhere are kept as they are, and are no obstacle to the DOI after them."""
    text = "Doe J, " + c.s("year", ["12"], "00", ["09"]) + ", " + c.s("journal", [but(","), 2])
    head = text
    if v:
        text += ", V" + c.s("vol", [but(",")])
    if p:
        text += ", P" + c.s("page", [but(",")])
    rest = []
    for i in range(m):
        rest.append(c.s("rest%d" % i, [but(",", "VvPpDd" if i == 0 else "Dd")], [but(","), n - 1]))
    text += ", " + ", ".join(rest)
    D = None
    if d:
        D = "10." + c.s("doi", [but(","), 2])
        text += ", DOI " + D
    cite, plain = c.mk.Citation(text), c.mk.Citation(head)
    c.check(cite.bad is True and isinstance(cite.error, c.mk.BadCitation), "marked")
    for x in ("author", "year", "journal"):
        c.equal(getattr(cite, x), getattr(plain, x), x)
    c.equal(cite.V is None, not v, "volume")
    c.equal(cite.P is None, not p, "page")
    c.equal(cite.misc, ", ".join(rest).upper(), "leftovers")
    c.equal(cite.DOI, None if D is None else D.upper(), "DOI")
    c.equal(cite.ID(), plain.ID(), "ID")
    known = [x for x in (cite.V, cite.P, cite.DOI, cite.misc) if x]
    c.equal(cite.Extra(), ", ".join(known), "Extra")
    c.equal(cite.allButDOI(), ", ".join([cite.ID()] + [x for x in (cite.V, cite.P, cite.misc) if x]), "all but the DOI")


@harness("C01",
         quick=[dict(parts=x, ylen=y) for x in ("ay", "aj", "yj", "a", "y", "yjVPD", "ajVP", "yjP", "yjD") for y in (4,)] + [dict(parts=x, ylen=y) for x in ("ayj", "yj") for y in (1, 2, 3, 5)],
         bounds="citations with some of author, year of 1-5 digits and journal missing, of 2 characters each")
def parse_partial(c, parts, ylen):
    """What is missing is not invented, and what there is, is read."""
    V = P = D = author = year = journal = None
    out = []
    if "a" in parts:
        author = c.s("author", [but(DIGITS, ",-")], [but(",")])
        out.append(author)
    if "y" in parts:
        year = (c.pick("era", ["", "-"]) if author is not None else "") + c.s("year", [DIGITS[1:]], [DIGITS, ylen - 1])
        out.append(year)
    if "j" in parts:
        journal = c.s("journal", [but(",", DIGITS, "-")], [but(",")])
        out.append(journal)
    if "V" in parts:
        V = "V" + c.s("vol", [but(",")])
        out.append(V)
    if "P" in parts:
        P = "P" + c.s("page", [but(",")])
        out.append(P)
    if "D" in parts:
        D = c.s("doi", [but(","), 2])
        out.append("DOI " + D)
    cite = c.mk.Citation(", ".join(out))
    c.equal(cite.author, None if author is None else author.replace(".", "").title(), "author")
    c.equal(cite.year, None if year is None else int(year), "year")
    c.equal(cite.journal, None if journal is None else journal.upper(), "journal")
    c.equal(cite.V, None if V is None else V.upper(), "volume")
    c.equal(cite.P, None if P is None else P.upper(), "page")
    c.equal(cite.DOI, None if D is None else D.upper(), "DOI")
    c.check(cite.misc is None, "nothing left over")
    whole = parts[:3] == "ayj"
    c.check(cite.bad is (not whole), "marked exactly when something is missing")
    c.check((cite.error is None) is whole, "with its reason")
    c.equal(cite.ID(), ", ".join(str(x) for x in (cite.author, cite.year, cite.journal) if x is not None and (whole or not c.truth(c.eq(str(x), "")))), "ID")
    c.equal(c.truth(cite.isAnonymous()), author is not None and c.truth(c.eq(cite.author, "[Anonymous]")), "anonymous")


@harness("C01", quick=[dict(tail=t, v=v, p=p) for t in (0, 1) for v in ("", "v", "vi") for p in ("", "p. ", "pp. ", "P. ", "PP. ")],
         bounds="Scopus citations of three authors with a title, volume, issue and pages in every form, and more text after them")
def parse_scopus_parts(c, tail, v, p):
    W = "".join(x for x in ASCII if x.isalnum()) + "_-"
    comma = c.pick("comma", [", ", " "])
    name = "Doe" + comma + c.s("init", [W]) + "."
    more = "Roe" + comma + "R., Poe" + comma + "P.-Q., "
    title = "A " + c.s("title", [but("(,.")]) + ": b, c "
    year = c.s("year", ["12"], [DIGITS, 3])
    text = name + ", " + more + title + "(" + year + ") J " + c.s("journal", [but(",")])
    V = issue = P = None
    if v:
        V = c.s("vol", [W])
        text += ", " + V
        if v == "vi":
            issue = c.s("issue", [W])
            text += " (" + issue + ")"
    if p:
        P = c.s("page", [W]) + "-9"
        text += ", " + p + P
    rest = ""
    if tail:
        rest = ", " + c.s("rest", ["(+"], [but("(")])
        text += rest
    cite = c.mk.Citation(text, scopusMode=True)
    c.check(cite.bad is False and cite.error is None, "good")
    c.equal(cite.author, name.upper(), "author")
    c.equal(cite.extraAuthors, more.upper(), "other authors")
    c.equal(cite.name, title.upper(), "title")
    c.equal(cite.year, int(year), "year")
    c.equal(cite.V, None if V is None else V.upper(), "volume")
    c.equal(cite.issue, None if issue is None else issue.upper(), "issue")
    c.equal(cite.P, None if P is None else P.upper(), "pages")
    c.equal(cite.misc, rest.upper(), "rest")
    c.equal(str(cite), text, "text")


def triple(author, year, journal):
    return (author.replace(".", "").title(), int(year), journal.upper())


@harness("C02", quick=[dict(ex=(a, b)) for a in range(3) for b in range(3)],
         thorough=[dict(ex=(a, b), alen=al, jlen=jl) for a in range(4) for b in range(4) for al in (2, 3, 4) for jl in (1, 2, 3)],
         bounds="two citations with author <=3 (4) characters, journal <=2 (3) characters, 4-digit years, with or without volume/page/DOI")
def equality(c, ex, alen=3, jlen=2):
    """Equal exactly when normalised author, year and journal agree; hash and inequality follow."""
    out = []
    for i, x in enumerate(ex):
        p = "c%d." % i
        author, year, journal = wellformed(c, p, alen, jlen, 0)
        text = author + ", " + year + ", " + journal
        if x == 1:
            text += ", V" + c.s(p + "vol", ["12"]) + ", P" + c.s(p + "page", ["34"])
        elif x == 2:
            text += ", DOI 10." + c.s(p + "doi", ["12"])
        elif x == 3:
            text += ", P" + c.s(p + "page", ["34"], [" V"])
        out.append((c.mk.Citation(text), triple(author, year, journal)))
    (a, ta), (b, tb) = out
    same = c.eq(ta, tb)
    c.check(c.eq(c.truth(a == b), same), "== follows author, year and journal", None, same)
    c.check(c.eq(c.truth(b == a), same), "== is symmetric")
    c.check(c.eq(c.truth(a != b), c.not_(same)), "!= is the negation of ==")
    c.check(c.eq(c.truth(hash(a) == hash(b)), same), "hash agrees with ==")
    c.check(c.eq(len({a, b}) == 1, same), "a set merges exactly the equal ones")
    c.check(a == a and not (a != a), "reflexive")
    c.check(not (a == a.ID()) and a != a.ID() and a != None, "never equal to something that is not a citation")


@harness("C02", quick=[dict(kinds=k) for k in (("ay", "ay"), ("aj", "aj"), ("ay", "ayj"), ("yj", "yj"), ("a", "a"), ("j+", "ayj"))],
         bounds="two incomplete citations, author and journal of 2 characters, 4-digit years")
def equality_bad(c, kinds):
    """Incomplete citations: equal exactly when their IDs are equal, whatever else they carry."""
    out = []
    for i, k in enumerate(kinds):
        p = "c%d." % i
        author, year, journal = wellformed(c, p, 2, 2, 0)
        parts = []
        if "a" in k:
            parts.append(author)
        if "y" in k:
            parts.append(year)
        if "j" in k:
            parts.append(journal)
        text = ", ".join(parts)
        cite = c.mk.Citation(text)
        out.append(cite)
    a, b = out
    same = c.eq(a.ID(), b.ID())
    c.check(c.eq(c.truth(a == b), same), "== follows ID")
    c.check(c.eq(c.truth(a != b), c.not_(same)), "!= is the negation of ==")
    c.check(c.eq(c.truth(hash(a) == hash(b)), same), "hash agrees with ==")
    c.check(c.eq(len({a: 1, b: 2}) == 1, same), "a dict merges exactly the equal ones")


@harness("C02", quick=[dict(scopus=x) for x in (0, 1)], bounds="two citations, letters, volume and page free, without keeping the original text; two Scopus citations with any title, issue and other authors")
def equality_modes(c, scopus):
    """The same holds for Scopus citations and when the original text is not kept."""
    out = []
    old = c.mk.FAST_CITES
    try:
        c.mk.FAST_CITES = not scopus
        for i in range(2):
            a, y, j = c.s("a%d" % i, ["aAb"]), c.s("y%d" % i, ["12"]), c.s("j%d" % i, ["jJk"])
            v, t = c.s("v%d" % i, ["12"]), c.s("t%d" % i, ["xy"])
            if scopus:
                more = c.pick("more%d" % i, ["", "Roe R., "])
                k = c.mk.Citation("Doe %s., %s%stitle (199%s) J%s, %s (%s), pp. 1" % (a, more, t, y, j, v, t), scopusMode=True)
            else:
                k = c.mk.Citation("Doe %s., 199%s, J%s, V%s, P%s" % (a, y, j, v, t))
                c.equal(str(k), "Doe %s, 199%s, J%s" % (a.upper(), y, j.upper()), "shown by its ID")
            out.append((k, (a.upper(), y, j.upper())))
        (a, ta), (b, tb) = out
        same = c.eq(ta, tb)
        c.check(c.eq(c.truth(a == b), same), "== follows author, year and journal")
        c.check(c.eq(c.truth(a != b), c.not_(same)), "!= is the negation of ==")
        c.check(c.eq(c.truth(hash(a) == hash(b)), same), "hash agrees with ==")
        c.check(c.eq(len({a, b}) == 1, same), "a set merges exactly the equal ones")
    finally:
        c.mk.FAST_CITES = old


@harness("C02", quick=[dict()], bounds="three citations, one-letter case/punctuation variations")
def equality_transitive(c):
    cs = []
    for i in range(3):
        t = c.s("c%d" % i, ["Aa"], ["b."], ["cB"], ", ", ["12"], "000, ", ["Jj"], ["x"])
        cs.append(c.mk.Citation(t))
    if cs[0] == cs[1] and cs[1] == cs[2]:
        c.check(cs[0] == cs[2], "transitive")
    ids = c.distinct([x.ID() for x in cs])
    c.check(len(set(cs)) == len(ids), "a set holds one citation per ID", len(set(cs)), len(ids))


# ------------------------------------------------------------------ journal data base
class FakeDB:
    """stands in for a dbm.dumb file: str or bytes keys in, bytes out"""
    store = {}

    def __init__(self, name):
        self.d = FakeDB.store.setdefault(name, {})

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __len__(self):
        return len(self.d)

    @staticmethod
    def _s(k):
        return k.decode("utf-8") if isinstance(k, bytes) else k

    def __setitem__(self, k, v):
        self.d[self._s(k)] = self._s(v)

    def __getitem__(self, k):
        return self.d[self._s(k)].encode("utf-8")

    def __contains__(self, k):
        return self._s(k) in self.d

    def keys(self):
        return [k.encode("utf-8") for k in self.d]

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        return [(k.encode("utf-8"), v.encode("utf-8")) for k, v in self.d.items()]

    def get(self, k, default=None):
        return self[k] if k in self else default

    def update(self, o):
        for k in o:
            self[k] = o[k]


class journals:
    """the package with its journal data base replaced by an in-memory one"""

    def __init__(self, c, wos, manual):
        self.c, self.wos, self.manual = c, wos, manual

    def __enter__(self):
        import dbm.dumb
        import os.path
        import sys
        FakeDB.store = {"j9Abbreviations": dict(self.wos)}
        if self.manual is not None:
            FakeDB.store["manualj9Abbreviations"] = dict(self.manual)
        self.open, self.isfile = dbm.dumb.open, os.path.isfile
        real_isfile = self.isfile

        def fake_open(name, flag="c", mode=0o666):
            return FakeDB(str(name).replace("\\", "/").split("/")[-1])

        def fake_isfile(name):
            n = str(name).replace("\\", "/").split("/")[-1]
            if n.endswith("Abbreviations.dat"):
                return n[:-4] in FakeDB.store
            return real_isfile(name)
        dbm.dumb.open = fake_open
        os.path.isfile = sys.modules["os"].path.isfile = fake_isfile
        self._real_os_path = os.path
        forget(self.c)
        return self

    def __exit__(self, *a):
        import dbm.dumb
        import os.path
        dbm.dumb.open = self.open
        os.path.isfile = self.isfile
        forget(self.c)
        return False


def forget(c):
    """drop the package's cached copy of the data base"""
    import sys
    m = sys.modules["metaknowledge.citation"]
    for n in list(vars(m)):
        if n.lower().startswith("abbrev"):
            setattr(m, n, None)


WOSDB = {"NATURE": "Nature", "JX": "Journal of X|X Journal", "PNAS": "Proc"}


def cite_of(c, name, journal):
    return c.mk.Citation("Aa B, 1999, " + journal)


@harness("C03", quick=[dict(n=n, manual=m) for n in (1, 2, 3) for m in (0, 1)],
         bounds="up to 3 citations whose 2-letter journals range over listed, manually added, manually excluded and unlisted ones")
def filtering(c, n, manual):
    """filterNonJournals keeps exactly the citations of listed journals, in order; invert keeps the rest."""
    man = {"JY": "Journal of Y", "JZ": ""} if manual else None
    with journals(c, WOSDB, man):
        cites = []
        for i in range(n):
            j = c.s("j%d" % i, ["JQj"], ["XYZz"])
            cites.append(c.mk.Citation("Aa B, 199%d, " % i + j))
        cites.append(c.mk.Citation("Aa B, 2001"))

        def listed(x):
            if x.journal is None:
                return False
            return c.member(x.journal, ["JX", "JY"] if manual else ["JX"])
        keep = [x for x in cites if c.truth(listed(x))]
        drop = [x for x in cites if not c.truth(listed(x))]
        for x in cites:
            c.check(c.eq(bool(x.isJournal()), c.truth(listed(x))), "isJournal follows the data base")
            full = x.FullJournalName()
            if c.truth(listed(x)):
                want = c.truth(c.eq(x.journal, "JX"))
                c.equal(full, "Journal of X" if want else "Journal of Y", "full name is the first listed one")
            else:
                c.check(full is None, "no full name for an unlisted journal", full)
        got = c.mk.filterNonJournals(cites)
        inv = c.mk.filterNonJournals(cites, invert=True)
        c.check(len(got) == len(keep) and all(a is b for a, b in zip(got, keep)), "journals are kept in order", got, keep)
        c.check(len(inv) == len(drop) and all(a is b for a, b in zip(inv, drop)), "invert keeps the others in order", inv, drop)


@harness("C03", quick=[dict(ops=o) for o in (("add",), ("name",), ("excl",), ("add", "excl"), ("excl", "add"), ("add", "name"), ("name", "excl"))]
         + [dict(ops=o, fresh=1) for o in (("add",), ("name",), ("excl",), ("excl", "name"))],
         bounds="one or two data base edits, then a citation with an arbitrary 2-letter journal")
def manual_edits(c, ops, fresh=0):
    """After adding or removing a journal through a citation, every citation of that journal (and no other) sees it,
    at once and after the data base is read again."""
    with journals(c, WOSDB, {}):
        probe = c.mk.Citation("Cc D, 1999, " + c.s("probe", ["JK"], ["XYab"]))
        if not fresh:
            c.mk.Citation("Aa B, 1999, NATURE").isJournal()
        state = {}
        for k, op in enumerate(ops):
            t = c.mk.Citation("Aa B, 200%d, " % k + c.s("t%d" % k, ["JK"], ["XY"]))
            if op == "add":
                t.addToDB()
                new = str(t.journal)
            elif op == "name":
                t.addToDB(manualName="Full|Second")
                new = "Full"
            else:
                t.addToDB(invert=True)
                new = None
            state[t.journal] = new
        for again in (False, True):
            if again:
                forget(c)
            want = None
            if probe.journal in state:
                want = state[probe.journal]
            elif c.truth(c.eq(probe.journal, "JX")):
                want = "Journal of X"
            when = " after reloading" if again else " at once"
            c.check(bool(probe.isJournal()) is (want is not None), "isJournal" + when, probe.isJournal(), want)
            c.check(c.eq(probe.FullJournalName(), want), "full name" + when, probe.FullJournalName(), want)
            excluded = probe.journal in state and state[probe.journal] is None
            c.check(bool(probe.isJournal(checkIfExcluded=True)) is excluded, "exclusion is reported" + when)



@harness("C03", quick=[dict(how=h) for h in ("manual", "which", "full", "add")],
         bounds="two questions about a 2-letter journal, put to one of two manual data bases and one, the other or both kinds each")
def which_base(c, how):
    """A question about a journal is answered from the data bases it names, whatever was asked before."""
    with journals(c, {"JX": "Wos X", "JY": "Wos Y"}, {"JY": "Man Y", "JZ": ""}):
        FakeDB.store["otherAbbreviations"] = {"JX": "", "JZ": "Other Z"}
        known = {"WOS": dict(JX="Wos X", JY="Wos Y"), "manualj9Abbreviations": dict(JY="Man Y", JZ=""), "otherAbbreviations": dict(JX="", JZ="Other Z")}
        FakeDB.store["secondAbbreviations"] = {"JY": "", "JZ": "Second Z"}
        probe = c.mk.Citation("Cc D, 1999, " + c.s("probe", ["J"], ["XYZW"]))

        def asked(t):
            kw = {}
            man = "manualj9Abbreviations"
            if how in ("manual", "add", "full") and c.truth(c.b("other" + t)):
                man = kw["manualDB"] = "otherAbbreviations"
            ret = "both"
            if how == "which":
                ret = kw["returnDict"] = c.pick("ret" + t, ["both", "WOS", "manual"])
                if c.truth(c.b("named" + t)):
                    kw["dbname"] = "secondAbbreviations"
            d = {}
            if ret != "manual":
                d.update(dict(JY="", JZ="Second Z") if "dbname" in kw else known["WOS"])
            if ret != "WOS":
                d.update(known[man])
            return kw, d

        def right(t):
            kw, d = asked(t)
            j = str(probe.journal)
            c.check(bool(probe.isJournal(**kw)) is bool(d.get(j)), "listed in the data base asked for", (kw, probe.isJournal(**kw)), d.get(j))
            c.check(bool(probe.isJournal(checkIfExcluded=True, **kw)) is (d.get(j) == ""), "excluded in the data base asked for", kw)

        right("1")
        if how == "full":
            d = dict(known["WOS"], **known["manualj9Abbreviations"])
            c.check(c.eq(probe.FullJournalName(), d.get(str(probe.journal)) or None), "the full name of the usual data bases", probe.FullJournalName())
        if how == "add":
            to = c.pick("to", ["manualj9Abbreviations", "otherAbbreviations"])
            t = c.mk.Citation("Aa B, 2000, " + c.s("t", ["J"], ["XW"]))
            if c.truth(c.b("invert")):
                t.addToDB(manualDB=to, invert=True)
                known[to][str(t.journal)] = ""
            else:
                t.addToDB(manualDB=to, manualName="New")
                known[to][str(t.journal)] = "New"
        right("2")
