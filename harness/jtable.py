"""The table of journal abbreviations: made from the listing pages, changed by hand, read back."""
from vf.ctx import harness

NAMES = "abZ &<\"'é."
OTHERS = ["0-9"] + [chr(65 + i) for i in range(26)]
BASE = "https://images.webofknowledge.com/images/help/WOS/"


class Page:
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text.encode("utf-8")

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def listing(entries, before=""):
    """a page as the service gives it: the elements of the list are not closed where one would expect it"""
    t = "<HTML>\n<HEAD><TITLE>Journal Title Abbreviations</TITLE></HEAD>\n" + before + "<DL>\n"
    for i, (name, abbr) in enumerate(entries):
        t = t + ('<A NAME="X"></A><DT>' if i == 0 else "</B><DT>") + name + "\n<B><DD>\t" + abbr + "\n"
    return t + "</B></DL>\n</BODY></HTML>\n"


class world:
    """the tables in memory, the pages given, the folder of the tables a scratch one"""

    def __init__(self, c, pages=None, tables=None):
        self.c, self.pages, self.asked = c, pages, []
        self.tables = {k: dict(v) for k, v in (tables or {}).items()}

    def __enter__(self):
        import dbm.dumb
        import os.path
        import sys
        import urllib.error
        import urllib.request
        c, me = self.c, self
        self.m = sys.modules["metaknowledge.journalAbbreviations.backend"]
        self.saved = [(dbm.dumb, "open", dbm.dumb.open), (urllib.request, "urlopen", urllib.request.urlopen), (self.m, "__file__", self.m.__file__),
                      (os.path, "isfile", os.path.isfile)]
        self.dir = c.tmp() + "/package"
        import os
        os.mkdir(self.dir)
        self.m.__file__ = self.dir + "/backend.py"
        real_isfile = os.path.isfile

        def split(name):
            name = os.path.normpath(str(name))
            c.check(os.path.dirname(name) == self.dir, "the tables are kept beside the source file", name)
            return os.path.basename(name)

        def fake_open(name, flag="c", mode=0o666):
            return Table(me.tables.setdefault(split(name), {}))

        def fake_isfile(name):
            if str(name).endswith("Abbreviations.dat") or str(name).endswith("Mine.dat"):
                return split(name)[:-4] in me.tables
            return real_isfile(name)

        def fake_urlopen(url, *a, **k):
            me.asked.append(url)
            if me.pages is None:
                raise urllib.error.URLError("no network")
            return Page(me.pages[url[len(BASE):-len("_abrvjt.html")]])
        dbm.dumb.open = fake_open
        os.path.isfile = fake_isfile
        urllib.request.urlopen = fake_urlopen
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)
        return False


class Table:
    """stands in for a dbm.dumb file: str or bytes in, bytes out"""

    def __init__(self, d):
        self.d = d

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def sync(self):
        pass

    def __len__(self):
        return len(self.d)

    @staticmethod
    def _s(k):
        if isinstance(k, str):
            return k
        if hasattr(k, "decode"):
            return k.decode("utf-8")
        raise TypeError("keys and values must be bytes or strings")

    def __setitem__(self, k, v):
        self.d[self._s(k)] = self._s(v)

    def __getitem__(self, k):
        return self.d[self._s(k)].encode("utf-8")

    def __delitem__(self, k):
        del self.d[self._s(k)]

    def __contains__(self, k):
        return self._s(k) in self.d

    def keys(self):
        return [k.encode("utf-8") for k in self.d]

    def values(self):
        return [v.encode("utf-8") for v in self.d.values()]

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        return [(k.encode("utf-8"), v.encode("utf-8")) for k, v in self.d.items()]

    def get(self, k, default=None):
        return self[k] if k in self else default

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self[k]

    def pop(self, k, *a):
        if k not in self and a:
            return a[0]
        v = self[k]
        del self[k]
        return v

    def update(self, o=(), **kw):
        for k in o:
            self[k] = o[k]


def joined(c, entries, old=()):
    """abbreviation -> names, in order and each once; keys compared by the solver"""
    out = [(k, v.split("|")) for k, v in old]
    for name, abbr in entries:
        for k, names in out:
            if c.truth(c.eq(k, abbr)):
                if not c.truth(c.member(name, names)):
                    names.append(name)
                break
        else:
            out.append((abbr, [name]))
    return out


def same_table(c, got, want, msg):
    """names as sets, each once"""
    c.equal(len(got), len(want), msg + ": number of abbreviations")
    for k, names in want:
        c.check(k in got, msg + ": an abbreviation is missing", k)
        g = got[k]
        for n in g:
            c.check(c.member(n, names), msg + ": a name that is not listed", n, names)
        for n in names:
            c.check(c.member(n, g), msg + ": a name is missing", n, g)


def entries_of(c, p, n, wide=0):
    return [(c.s(p + "n%d" % i, [NAMES, 2]), c.s(p + "a%d" % i, ["JK"], ["XY"]) if not wide else "J" + c.s(p + "a%d" % i, [NAMES, wide])) for i in range(n)]


def plain_pages():
    return {k: listing([("Journal " + k, "J " + k)]) for k in OTHERS}


PLAIN = [("Journal " + k, "J " + k) for k in OTHERS]


@harness("C43", quick=[dict(shape=s) for s in ((1,), (2,), (3,), (1, 1), (2, 1))] + [dict(shape=(2,), wide=1), dict(shape=(1, 1), wide=2)], thorough=[dict(shape=s) for s in ((4,), (2, 2), (1, 1, 1))],
         bounds="27 pages, up to 2 (thorough 3) of them with up to 3 (4) free entries: names of 2 characters, abbreviations free and perhaps alike, of two letters or any of the same characters")
def update(c, shape, wide=0):
    """Every name of every page is in the table under its abbreviation and nothing else is, and each page is asked for once."""
    pages, ent = plain_pages(), list(PLAIN)
    for k, (p, n) in enumerate(zip("0-9 B Z".split(), shape)):
        e = entries_of(c, "p%d" % k, n, wide)
        pages[p] = listing([("Journal " + p, "J " + p)] + e if k != 1 else e + [("Journal " + p, "J " + p)])
        ent += e
    with world(c, pages) as w:
        w.m.updatej9DB()
        c.check(sorted(w.asked) == sorted(BASE + k + "_abrvjt.html" for k in OTHERS), "every page is asked for once", sorted(w.asked))
        c.check(list(w.tables) == ["j9Abbreviations"], "no other table", list(w.tables))
        same_table(c, {k: v.split("|") for k, v in w.tables["j9Abbreviations"].items()}, joined(c, ent), "table")
        d = w.m.getj9dict()
        same_table(c, d, joined(c, ent), "table read")


@harness("C43", quick=[dict(n=1, same=s) for s in (0, 1)] + [dict(n=2, same=0)], thorough=[dict(n=3, same=0)],
         bounds="a table of up to 2 free entries, updated from pages with up to 2 (thorough 3) free entries, twice")
def update_again(c, n, same):
    """An update keeps the names that were there and adds the new ones; updating again changes nothing."""
    old = [("JX", "Old one|" + c.s("o", [NAMES, 2])), ("NATURE", "Nature")]
    pages = plain_pages()
    e = entries_of(c, "p", n)
    if same:
        e.append(("Nature", "NATURE"))
    pages["N"] = listing([("Journal N", "J N")] + e)
    want = joined(c, PLAIN + e, old)
    with world(c, pages, {"j9Abbreviations": dict(old), "manualj9Abbreviations": {"MINE": "Mine"}}) as w:
        for when in ("", " twice"):
            w.m.updatej9DB()
            same_table(c, {k: v.split("|") for k, v in w.tables["j9Abbreviations"].items()}, want, "updated" + when)
            c.check(w.tables["manualj9Abbreviations"] == {"MINE": "Mine"}, "the manual table is left alone")


@harness("C43", quick=[dict(how=h) for h in ("named", "read", "raw")], bounds="a table of another name, given to be updated or read while empty; pages saved as well; one page with 2 free entries")
def other_table(c, how):
    """A table of another name is made and read under that name; the pages are saved beside the table, and the process stays where it is."""
    import os
    pages = plain_pages()
    e = entries_of(c, "p", 2)
    pages["Q"] = listing([("Journal Q", "J Q")] + e)
    want = joined(c, PLAIN + e)
    with world(c, pages) as w:
        cwd = os.getcwd()
        if how == "named":
            w.m.updatej9DB(dbname="Mine")
        elif how == "read":
            same_table(c, w.m.getj9dict(dbname="Mine"), want, "table made when it is empty")
        else:
            w.m.updatej9DB("Mine", saveRawHTML=True)
            top = w.dir + "/j9Raws"
            days = os.listdir(top)
            c.equal(len(days), 1, "one folder for today")
            names = sorted(os.listdir(top + "/" + days[0]))
            c.check(names == sorted(k + "_abrvjt.html" for k in OTHERS), "each page is saved", names)
            for k in OTHERS:
                with open(top + "/" + days[0] + "/" + k + "_abrvjt.html", "rb") as f:
                    c.equal(f.read().decode("utf-8"), pages[k], "a page as it was")
        c.check(os.getcwd() == cwd, "the working directory is as it was")
        c.check([k for k in w.tables if w.tables[k]] == ["Mine"], "the other tables are as they were", list(w.tables))
        same_table(c, {k: v.split("|") for k, v in w.tables["Mine"].items()}, want, "table")
        same_table(c, w.m.getj9dict(dbname="Mine"), want, "table read")


@harness("C43", quick=[dict(empty=e) for e in (0, 1)], bounds="a table of a free entry or none, no network")
def offline(c, empty):
    """Without the network an update says so, and the table is as it was."""
    old = {} if empty else {"JX": c.s("o", [NAMES, 2])}
    with world(c, None, {"j9Abbreviations": old}) as w:
        try:
            w.m.updatej9DB()
            c.check(False, "an update without the network fails")
        except w.m.JournalDataBaseError as e:
            c.check("connection" in str(e), "the message says so", str(e))
        c.check(list(w.tables["j9Abbreviations"]) == list(old), "the table is as it was")
        c.check(c.all_([c.eq(w.tables["j9Abbreviations"][k], old[k]) for k in old]), "its names are as they were")


@harness("C43", quick=[dict(cut=k) for k in ("none", "start", "short")], bounds="a page that is not a list of abbreviations, or ends in its first entry or after its last")
def bad_page(c, cut):
    """A page that cannot be read is an error that leaves the table as it was; a list that just ends is read."""
    pages = plain_pages()
    x = c.s("x", [NAMES, 3])
    whole = listing([("Journal C", "J C")])
    pages["C"] = {"none": "<HTML>\n" + x + "\n</HTML>\n", "start": whole[:whole.index("<A NAME")] + x, "short": whole[:whole.index("</B></DL>")]}[cut]
    with world(c, pages, {"j9Abbreviations": {"JX": "Old"}}) as w:
        try:
            w.m.updatej9DB()
        except Exception:
            c.check(cut != "short", "a list that ends is read")
            c.check(w.tables["j9Abbreviations"] == {"JX": "Old"}, "the table is as it was", w.tables)
        else:
            c.check(cut == "short", "a page without a list is an error")
            same_table(c, {k: v.split("|") for k, v in w.tables["j9Abbreviations"].items()}, joined(c, PLAIN, [("JX", "Old")]), "table")


OPS = ("add", "addmap", "excl", "excllist", "excltuple", "create", "exclnone")


def edit(c, w, op, p, state, table):
    a, b = c.s(p + "a", ["JK"], ["XY"]), c.s(p + "b", ["JK"], ["XY"])
    n = c.s(p + "n", [NAMES, 2])
    kw = {} if table is None else {"dbname": table}

    def put(k, v):
        for e in state:
            if c.truth(c.eq(e[0], k)):
                e[1] = v
                return
        state.append([k, v])
    if op == "add":
        w.m.addToDB(a, **kw)
        put(a, [a])
    elif op == "addmap":
        m = {a: n + "|Second"}
        put(a, [n, "Second"])
        if c.truth(c.not_(c.eq(a, b))):
            m[b] = c.pick(p + "other", ["Other", ""])
            put(b, [m[b]])
        w.m.addToDB(m, **kw)
    elif op == "excl":
        w.m.excludeFromDB(a, **kw)
        put(a, [""])
    elif op in ("excllist", "excltuple"):
        w.m.excludeFromDB([a, b] if op == "excllist" else (a, b), **kw)
        put(a, [""])
        put(b, [""])
    elif op == "create":
        w.m.addToDB(**kw)
    else:
        w.m.excludeFromDB(**kw)


@harness("C43", quick=[dict(ops=(o,)) for o in OPS] + [dict(ops=o) for o in (("add", "excl"), ("excllist", "add"), ("addmap", "excltuple"), ("create", "addmap"))] + [dict(ops=("addmap",), table="Mine")],
         thorough=[dict(ops=(a, b)) for a in OPS for b in OPS] + [dict(ops=("add", "excllist", "addmap"))],
         bounds="one or two (thorough three) changes with free abbreviations and names to a table with or without entries, kept with the others or under another name")
def edits(c, ops, table=None):
    """Changes by hand are kept in a table of their own, which takes precedence where both have an abbreviation."""
    wos = {"JX": "Journal of X|X Journal", "NATURE": "Nature"}
    with world(c, None, {"j9Abbreviations": dict(wos)}) as w:
        state = []
        for i, op in enumerate(ops):
            edit(c, w, op, "o%d" % i, state, table)
        kw = {} if table is None else {"manualDB": table}
        c.check(w.tables["j9Abbreviations"] == wos, "the downloaded table is as it was")
        man = w.m.getj9dict(returnDict="manual", **kw)
        same_table(c, man, [(k, v) for k, v in state], "manual table")
        c.check(w.m.getj9dict(returnDict="WOS", **kw) == {k: v.split("|") for k, v in wos.items()}, "downloaded table")
        both = [(k, v) for k, v in state]
        for k, v in wos.items():
            if not c.truth(c.any_([c.eq(k, x) for x, _ in state])):
                both.append((k, v.split("|")))
        same_table(c, w.m.getj9dict(**kw), both, "both tables")
        c.check(not w.asked, "nothing is downloaded")


@harness("C43", quick=[dict()], bounds="a missing manual table, a change that is neither text nor a mapping or list")
def edits_refused(c):
    """Asking for the manual table alone when there is none, or changing it by something else, is an error and changes nothing."""
    wos = {"JX": c.s("o", [NAMES, 2])}
    with world(c, None, {"j9Abbreviations": dict(wos)}) as w:
        d = w.m.getj9dict()
        same_table(c, d, [("JX", [wos["JX"]])], "without a manual table")
        try:
            w.m.getj9dict(returnDict="manual")
            c.check(False, "there is no manual table")
        except w.m.JournalDataBaseError as e:
            c.check("addToDB" in str(e), "the message says how to make one", str(e))
        for f, v in ((w.m.addToDB, 3), (w.m.addToDB, ["a"]), (w.m.excludeFromDB, 3), (w.m.excludeFromDB, {"a": "b"}), (w.m.addToDB, {"a": 1})):
            try:
                f(v)
                c.check(False, "refused", v)
            except TypeError:
                pass
        c.check(not w.tables.get("manualj9Abbreviations"), "nothing is added", w.tables)
        c.check(not w.asked, "nothing is downloaded")


@harness("C43", quick=[dict()], bounds="the addresses of the pages, as a list and by name")
def addresses(c):
    """There is a page for digits and one for each letter."""
    import sys
    m = sys.modules["metaknowledge.journalAbbreviations.backend"]
    c.check(sorted(m.j9urlGenerator()) == sorted(BASE + k + "_abrvjt.html" for k in OTHERS), "list")
    d = m.j9urlGenerator(nameDict=True)
    c.check(d == {k: BASE + k + "_abrvjt.html" for k in OTHERS}, "by name", d)
