"""Single records: access, normalisation, identity, citations of themselves."""
import copy
import pickle
from vf.ctx import harness
from harness.lib import wos, rc, ASCII, DIGITS, LETTERS, but

# the documented meaning of each Web of Science field
JOIN = "TI title|SE seriesTitle|BS seriesSubtitle|CT confTitle|CL confLocation|HO confHost|FX fundingText|PA publisherAddress|SU supplement"
JOINUP = "SO journal|PI publisherCity|JI isoAbbreviation|PU publisher"
FIRST = ("PT pubType|GP group|DT docType|CY confDate|J9 j9|SN ISSN|AR articleNumber|IS issue|EI eISSN|DI DOI|UT wosString|"
         "MA meetingAbstract|D2 bookDOI|RP reprintAddress|PN partNumber|SI specialIssue|PM pubMedID|GA documentDeliveryNumber|CA groupName")
LINES = "AF authorsFull|AU authorsShort|BE editedBy|BA bookAuthor|BF bookAuthorFull|ED editors"
SEMI = "FU funding|SC subjectCategory|EM email|OI orcID|BN ISBN|RI ResearcherIDnumber|WC subjects"
INT = "TC wosTimesCited|PG pageCount|NR citedRefsCount|Z9 totalTimesCited"
STRIP = "VL volume|BP beginningPage|EP endingPage"


def names(s):
    return [tuple(x.split(" ")) for x in s.split("|")]


KINDS = {}
for kind, s in (("join", JOIN), ("joinup", JOINUP), ("first", FIRST), ("lines", LINES), ("semi", SEMI), ("int", INT), ("strip", STRIP)):
    for tag, name in names(s):
        KINDS[tag] = (name, kind)
KINDS.update({"LA": ("language", "comma"), "SP": ("confSponsors", "commasplit"), "AB": ("abstract", "nl"), "DE": ("authKeywords", "semilow"),
              "ID": ("keywords", "semiup"), "PD": ("month", "month"), "PY": ("year", "year"), "CR": ("citations", "cites"), "C1": ("authAddress", "addr")})
TAGS = sorted(KINDS)
MONTHS = dict(JAN=1, FEB=2, MAR=3, APR=4, MAY=5, JUN=6, JUL=7, AUG=8, SEP=9, OCT=10, NOV=11, DEC=12, SPR=3, SUM=6, FAL=9, WIN=12)


def rawlines(c, kind, p=""):
    """raw lines for a field of this kind, and what it stands for"""
    if kind == "int":
        d = c.s(p + "n", [DIGITS, 3])
        return [d], int(d)
    if kind == "year":
        d = c.s(p + "y", [DIGITS, 4])
        return [d], int(d)
    if kind == "month":
        m = c.pick(p + "m", sorted(MONTHS))
        rest = c.pick(p + "rest", ["", " 12", "-DEC", " 12 2001"])
        low = c.pick(p + "low", [0, 1])
        return [(m.title() if low else m) + rest], MONTHS[m]
    if kind == "strip":
        a = c.s(p + "v", [ASCII, 3])
        return [a], a.strip()
    if kind == "cites":
        ls = [c.s(p + "a", [ASCII, 2]), c.s(p + "b", [ASCII, 2])]
        return ls, ls
    l1 = c.s(p + "a", [ASCII, 4])
    l2 = c.s(p + "b", [but("[") if kind == "addr" else ASCII], [ASCII, 2])
    ls = [l1, l2]
    if kind == "join":
        return ls, l1 + " " + l2
    if kind == "joinup":
        return ls, (l1 + " " + l2).upper()
    if kind == "first":
        return [l1], l1
    if kind == "lines":
        return ls, ls
    if kind == "semi":
        return ls, (l1 + " " + l2).split("; ")
    if kind == "semilow":
        return ls, (l1 + " " + l2).lower().split("; ")
    if kind == "semiup":
        return ls, (l1 + " " + l2).upper().split("; ")
    if kind == "comma":
        return ls, l1 + ", " + l2
    if kind == "commasplit":
        return ls, (l1 + ", " + l2).split(", ")
    if kind == "nl":
        return ls, l1 + "\n" + l2
    if kind == "addr":
        who = c.s(p + "who", [but("]"), 3])
        return ["[" + who + "] " + l1, l2], [l1, l2]
    raise AssertionError(kind)


def meaning(c, kind, got, want, what):
    if kind == "cites":
        c.equal([str(x) for x in got], want, what)
        c.check(all(isinstance(x, c.mk.Citation) for x in got), what + " are citations")
    else:
        c.equal(got, want, what)


# ------------------------------------------------------------------ C37 normalisation
@harness("C04", quick=[dict(tag=t) for t in TAGS], bounds="every Web of Science field; lines of up to 4 printable characters, numbers of up to 4 digits, every month and season name")
@harness("C37", quick=[dict(tag=t) for t in TAGS], bounds="every field; lines of up to 4 printable characters, numbers of up to 4 digits, every month and season name")
def field_value(c, tag):
    """Each field, whatever its content, becomes the documented kind of value."""
    name, kind = KINDS[tag]
    raw, want = rawlines(c, kind)
    d = {"PT": ["J"], "UT": ["WOS:1"]}
    d[tag] = list(raw)
    R = c.mk.WOSRecord(d)
    meaning(c, kind, R[tag], want, tag)
    meaning(c, kind, R[name], want, name)
    c.equal(R.get(name, raw=True), raw, "raw " + tag)


@harness("C37", quick=[dict(which=w) for w in ("tag", "name", "text")], bounds="every field and name in each mix of case of its first two letters; any two-letter text")
def tag_names(c, which):
    """Tags and names convert into each other whatever their case, and nothing else is accepted."""
    from metaknowledge.WOS.tagProcessing.funcDicts import normalizeToTag, normalizeToName, isTagOrName, tagToFull
    if which == "text":
        t = c.s("t", ["ACKatz1"], ["FUTabu "])
        known = c.truth(c.member(t, TAGS))
        c.equal(isTagOrName(t), known, "known as a tag")
        e = c.raises(normalizeToTag, t)
        c.equal(e is None, c.truth(c.member(t.upper(), TAGS)), "accepted as a tag")
        c.check(e is None or isinstance(e, KeyError), "KeyError otherwise")
        e = c.raises(normalizeToName, t)
        c.equal(e is None, known, "accepted as a name")
        e = c.raises(tagToFull, t)
        c.equal(e is None, known, "has a full name")
        c.check(e is None or isinstance(e, KeyError), "KeyError otherwise")
        return
    tag = c.pick("tag", TAGS)
    name = KINDS[tag][0]
    w = tag if which == "tag" else name
    c.check(isTagOrName(w), "known")
    c.equal(normalizeToName(w), name, "name of " + w)
    c.equal(tagToFull(tag), name, "full name")
    up = "".join(ch.upper() if c.b("up%d" % i) else ch.lower() for i, ch in enumerate(w[:2])) + w[2:]
    c.equal(normalizeToTag(up), tag, "tag of " + w)
    R = c.mk.WOSRecord({"UT": ["WOS:1"]})
    c.equal(R.getAltName(tag), name, "alternative name")
    c.equal(R.getAltName(name), tag, "and back")
    W = c.mk.WOS
    c.check(W.tagToFullDict[tag] == name and W.fullToTagDict[name] == tag, "public tables", tag)
    c.check(W.tagNameConverterDict[tag] == name and W.tagNameConverterDict[name] == tag, "public table both ways", tag)
    c.check(tag in W.tagsAndNameSet and name in W.tagsAndNameSet and tag in W.knownTagsList, "listed", tag)
    n = len(TAGS)
    c.check(len(W.tagToFullDict) == n and len(W.fullToTagDict) == n and len(W.tagNameConverterDict) == 2 * n, "and nothing else")


# ------------------------------------------------------------------ C04 mapping
def ops(c, R, n, present, absent, value):
    """n accesses in any order; each tells the same story."""
    for k in range(n):
        op = c.pick("op%d" % k, ["get", "item", "in", "raw", "miss"])
        q = c.pick("q%d" % k, [0, 1])
        if op == "miss":
            x = absent
            c.check(x not in R, "absent field not in record")
            c.check(isinstance(c.raises(lambda: R[x]), KeyError), "absent field raises KeyError")
            c.check(R.get(x) is None and R.get(x, 3) == 3 and R.get(x, 4, raw=True) == 4, "absent field gives the default")
            continue
        x = present[q][0]
        if op == "in":
            c.check(x in R, "field in record")
        elif op == "raw":
            c.equal(R.get(x, raw=True), present[q][1], "raw value")
        elif op == "get":
            c.equal(R.get(x, "dflt"), value, "value")
        else:
            c.equal(R[x], value, "value")


@harness("C04", quick=[dict(tag=t, n=2) for t in ("AU", "TI", "VL", "PY")], thorough=[dict(tag=t, n=3) for t in ("AU", "TI", "ID", "PY", "SO", "VL", "C1", "AB")],
         bounds="2 (thorough 3) accesses in any order, by tag or name, to one field with free content")
def wos_access(c, tag, n):
    name, kind = KINDS[tag]
    raw, want = rawlines(c, kind)
    d = {"PT": ["J"], "UT": ["WOS:1"], tag: list(raw)}
    R = c.mk.WOSRecord(d)
    ops(c, R, n, [(tag, raw), (name, raw)], "DT", want)
    c.equal(list(R), ["PT", "UT", tag] if list(d)[-1] == tag else list(d), "tags in order")
    c.equal(list(R.keys()), list(d), "keys")
    c.equal(len(R), len(d), "number of tags")
    c.equal(list(R.items(raw=True)), list(d.items()), "raw items")
    c.equal(list(R.values(raw=True)), list(d.values()), "raw values")
    vals = dict(R.items())
    c.equal(vals[tag], want, "item")
    c.equal(list(R.values()), [vals[k] for k in d], "values")
    sub = R.subDict([tag, name, "DT"])
    c.same_map(sub.items(), [(tag, want), (name, want), ("DT", None)], "subDict")
    sub = R.subDict([name, "DT"], raw=True)
    c.same_map(sub.items(), [(name, raw), ("DT", None)], "raw subDict")
    c.check(isinstance(c.raises(lambda: R[1]), TypeError), "keys are strings")


@harness("C04", quick=[dict(what=w) for w in ("title", "authors", "unknown", "special")], bounds="presence of title and of both author fields free, text of 2 characters")
def wos_views(c, what):
    t = c.s("t", ["Ab"], ["a ,"])
    if what == "title":
        R = wos(c, "WOS:1", TI=t) if c.b("has") else wos(c, "WOS:1")
        has = "TI" in list(R)
        c.equal(R.title, t if has else "Untitled record", "title")
        c.equal(str(R), "WOSRecord(" + (t if has else "WOS:1") + ")", "as text")
        c.equal(repr(R), "<metaknowledge.WOSRecord object WOS:1>", "repr")
    elif what == "authors":
        af, au = c.b("af"), c.b("au")
        f = {}
        if af:
            f["AF"] = [t, "X"]
        if au:
            f["AU"] = ["Y", t]
        R = wos(c, "WOS:1", **f)
        c.equal(R.authors, [t, "X"] if af else (["Y", t] if au else None), "authors")
    elif what == "unknown":
        tag = c.s("tag", ["XQ"], ["19"])
        R = wos(c, "WOS:1", **{"XX": "v"})
        d = {"UT": ["WOS:1"]}
        d[tag] = [t, "z"]
        R = c.mk.WOSRecord(d)
        c.equal(R[tag], [t, "z"], "fields that are not known keep their lines")
        c.check(tag in R, "and are there")
    else:
        R = wos(c, "WOS:" + t, TI="T", AU="Q, R", PY="2001", J9="J")
        c.equal(R["id"], "WOS:" + t, "id")
        c.equal(R["grants"], [], "grants")
        c.check("grants" in R and "id" in R and "selfCitation" in R, "special fields are there")
        c.equal(str(R["selfCitation"]), "Q R, 2001, J", "citation of itself")
        c.check("selfCitation" not in list(R), "but are not listed")


@harness("C04", quick=[dict(fam=f, tag=t) for f, ts in (("medline", ("TI", "AU", "AD", "OT", "XX")), ("scopus", ("Authors", "Title", "Funding Text", "Index Keywords", "Year", "New")),
                                                        ("proquest", ("Title", "Author", "Degree date", "Subject", "Identifier / keyword", "Classification", "New"))) for t in ts],
         bounds="one field with free content of up to 4 characters")
def other_access(c, fam, tag):
    """Every listed field of a record can be read, and means what it should."""
    a, b = c.s("a", [ASCII, 4]), c.s("b", [ASCII, 3])
    if fam == "medline":
        raw = [a, b] if tag != "AD" else ["Q : " + a, "R : " + b]
        d = {"PMID": ["12"], "AU": ["Q", "R"]}
        d[tag] = raw
        R = c.mk.MedlineRecord(d)
        alt = {"TI": "Title", "AU": "Author", "OT": "OtherTerm"}.get(tag)
        if tag == "TI":
            want = a
        elif tag == "AD":
            want = {"Q": [x for x in a.split(";") if x != ""], "R": [x for x in b.split(";") if x != ""]}
        else:
            want = raw
        c.equal(R.id, "PMID:12", "id")
        c.equal(R["PMID"], "PMID:12", "PMID")
        if alt:
            c.equal(R[alt], want, alt)
        special = {"TI": "title", "AU": "authorsShort", "OT": "keywords"}.get(tag)
    elif fam == "scopus":
        raw = "20" + c.s("y", ["0123456789", 2]) if tag == "Year" else a + b
        d = {"EID": "2-s", tag: raw}
        R = c.mk.ScopusRecord(d)
        want = {"Authors": lambda: raw.split(", "), "Index Keywords": lambda: raw.split("; "), "Year": lambda: int(raw)}.get(tag, lambda: raw)()
        c.equal(R.id, "EID:2-s", "id")
        special = {"Authors": "authorsFull", "Title": "title", "Index Keywords": "keywords", "Year": "year"}.get(tag)
    else:
        raw = [a, b]
        if tag == "Degree date":
            raw = ["20" + c.s("y", ["0123456789", 2])]
            a = raw[0]
        d = {"ProQuest document ID": ["9"], tag: raw}
        R = c.mk.ProQuestRecord(d)
        want = {"Subject": lambda: a.split("; "), "Identifier / keyword": lambda: a.split(", "), "New": lambda: raw,
                "Classification": lambda: [tuple(x.split(": ")) for x in a.split("; ")]}.get(tag, lambda: a)()
        c.equal(R.id, "PROQUEST:9", "id")
        special = {"Title": "title", "Identifier / keyword": "keywords"}.get(tag)
        if tag == "Degree date":
            c.equal(R["year"], int(a), "year")
        if tag == "Author":
            c.equal(R["authorsFull"], [a], "authorsFull")
            c.equal(R.authors, [a], "authors")
    c.check(tag in R, "listed field is in the record")
    c.equal(R[tag], want, tag)
    c.equal(R.get(tag), want, "get " + tag)
    if special:
        c.check(special in R, "special field is there")
        c.equal(R[special], want, special)
    c.equal(R.get(tag, raw=True), raw, "raw")
    c.equal(sorted(dict(R.items())), sorted(d), "every listed field can be read")
    c.check(R.get("nothing") is None and "nothing" not in R, "absent field")


# ------------------------------------------------------------------ C05 identity
MED_ONE = "PG VI PMID DP TI OTO AB TA JT".split()
MED_NAMES = dict(AB="Abstract", CI="CopyrightInformation", AD="Affiliation", IRAD="InvestigatorAffiliation", AID="ArticleIdentifier", AU="Author", AUID="AuthorIdentifier", FAU="FullAuthor",
                 BTI="BookTitle", CTI="CollectionTitle", CN="CorporateAuthor", CRDT="CreateDate", DCOM="DateCompleted", DA="DateCreated", LR="DateLastRevised", DEP="DateElectronicPublication",
                 DP="DatePublication", EN="Edition", EDAT="EntrezDate", GS="GeneSymbol", GN="GeneralNote", GR="GrantNumber", IR="Investigator", FIR="InvestigatorFull", ISBN="ISBN", IS="ISSN",
                 IP="Issue", TA="JournalTitleAbbreviation", JT="JournalTitle", LA="Language", LID="LocationIdentifier", MID="ManuscriptIdentifier", MHDA="MeSHDate", MH="MeSHTerms", JID="NLMID",
                 RF="NumberReferences", OCI="OtherCopyright", OID="OtherID", OT="OtherTerm", OTO="OtherTermOwner", OWN="Owner", PG="Pagination", PS="PersonalNameSubject", FPS="FullPersonalNameSubject",
                 PL="PlacePublication", PHST="PublicationHistoryStatus", PST="PublicationStatus", PT="PublicationType", PUBM="PublishingModel", PMC="PubMedCentralIdentifier", PMCR="PubMedCentralRelease",
                 PMID="PubMedUniqueIdentifier", RN="RegistryNumber", NM="SubstanceName", SI="SecondarySourceID", SO="Source", SFM="SpaceFlightMission", STAT="Status", SB="Subset", TI="Title",
                 TT="TransliteratedTitle", VI="Volume", VTI="VolumeTitle", CIN="CommentIn", EIN="ErratumIn", EFR="ErratumFor", CRI="CorrectedRepublishedIn", CRF="CorrectedRepublishedFrom",
                 DDIN="DatasetIn", DRIN="DatasetUseReportedIn", PRIN="PartialRetractionIn", PROF="PartialRetractionOf", RPI="RepublishedIn", RPF="RepublishedFrom", RIN="RetractionIn", ROF="RetractionOf",
                 UIN="UpdateIn", UOF="UpdateOf", SPIN="SummaryForPatients", ORI="OriginalReportIn")


@harness("C04", quick=[dict(part=i) for i in range(4)], bounds="every Medline field but grants, two values of 2 printable characters, by tag and by name")
def medline_field(c, part):
    """Each Medline field is its values, or its only value where there is one."""
    tags = [t for t in sorted(MED_NAMES) if t not in ("GR", "PMID")]
    tag = c.pick("tag", tags[part::4])
    a, b = c.s("a", [ASCII, 2]), c.s("b", [ASCII, 2])
    raw = [a, b]
    want = a if tag in MED_ONE else raw
    if tag in ("AD", "AUID"):
        raw = ["Q R : " + a + ";x y", "S T : " + b + " : z"]
        want = {"Q R": a + ";x y", "S T": b + " : z"}
        if tag == "AD":
            want = {k: [x for x in v.split(";") if x != ""] for k, v in want.items()}
    R = c.mk.MedlineRecord({"PMID": ["1"], tag: list(raw)})
    for name in (tag, MED_NAMES[tag], tag):
        c.check(name in R, "there")
        c.equal(R[name], want, name)
        c.equal(R.get(name, raw=True), raw, "raw " + name)
    c.equal(R.getAltName(tag), MED_NAMES[tag], "name")
    c.equal(R.getAltName(MED_NAMES[tag]), tag, "tag")


@harness("C04", quick=[dict(what=w) for w in ("date", "page", "volume", "doi", "address")], bounds="free years, volumes, pages, ids and addresses of up to 4 characters, in each documented way of writing them")
def medline_special(c, what):
    """What is computed from Medline fields: year and month, first page, volume, DOI and address."""
    rec = lambda **f: c.mk.MedlineRecord(dict({"PMID": ["1"]}, **{k: v if isinstance(v, list) else [v] for k, v in f.items()}))
    if what == "date":
        y = "1" + c.s("y", [DIGITS, 3])
        rest, m = c.pick("rest", [("", None), (" Jan", 1), (" Feb 3", 2), (" Mar-Apr", 3), ("-2002 Dec", 12), (" Jun 12-15", 6)])
        R = rec(DP=y + rest)
        c.equal(R["year"], int(y), "year")
        if m is None:
            c.check("month" not in R and R.get("month") is None, "no month")
        else:
            c.equal(R["month"], m, "month")
        c.check("year" not in rec(TI="x") and "month" not in rec(TI="x"), "no date")
    elif what == "page":
        a = c.s("p", [but(" -;"), 3])
        text = c.pick("before", ["", "suppl "]) + a + c.pick("after", ["", "-9", "-99; discussion 100", "; author reply 3", " e1"])
        c.equal(rec(PG=text)["beginningPage"], a, "first page")
        c.check("beginningPage" not in rec(TI="x"), "no page")
    elif what == "volume":
        v = c.s("v", [but(" "), 3])
        c.equal(rec(VI=v + c.pick("rest", ["", " Pt 2", " Suppl"]))["volume"], v, "volume")
        c.check("volume" not in rec(TI="x"), "no volume")
    elif what == "doi":
        d, e = c.s("d", [but(" "), 4]), c.s("e", [but(" "), 2])
        n = c.pick("n", [0, 1, 2, 3, 4])
        ids = [[e + " [pii]", d + " [doi]"], [d + " [doi]", e + " [doi]"], [e + " [pii]"], ["1 [pii]", "2 [bookaccession]", "3 [sici]", e + " [pii]", d + " [doi]"], [e + "[doi]", "[doi] " + e, d + " [doi]", "4 [pii]"]][n]
        R = rec(AID=ids)
        if n != 2:
            c.equal(R["DOI"], d, "DOI")
        else:
            c.check("DOI" not in R and R.get("DOI", "none") == "none", "no DOI")
        c.check("DOI" not in rec(TI="x"), "no ids")
    else:
        a = c.s("a", [but(";"), 3])
        R = rec(AU=["Q R", "S T"], AD=["S T : elsewhere", "Q R : " + a + c.pick("rest", ["", ";more"])])
        c.equal(R["address"], a, "address of the first author")


SCO = {t: "text" for t in ("Title|Source title|Volume|Issue|Art. No.|Page start|Page end|DOI|Link|Affiliations|Abstract|Molecular Sequence Numbers|Chemicals/CAS|Editors|Publisher|Conference name|"
                           "Conference date|Conference location|ISSN|CODEN|PubMed ID|Abbreviated Source Title|Document Type|Source|EID").split("|")}
SCO.update({t: "number" for t in "Year|Page count|Cited by|Conference code".split("|")})
SCO.update({t: "; " for t in "Authors with affiliations|Author Keywords|Index Keywords|Tradenames|Manufacturers|Correspondence Address|ISBN|Language of Original Document".split("|")})
SCO.update({"Authors": ", ", "Sponsors": ";"})
SCO_SPECIAL = {"year": "Year", "volume": "Volume", "beginningPage": "Page start", "j9": "Abbreviated Source Title", "authorsShort": "Authors", "authorsFull": "Authors", "title": "Title",
               "journal": "Source title", "keywords": "Index Keywords", "abstract": "Abstract"}


@harness("C04", quick=[dict(part=i) for i in range(4)], bounds="every Scopus field but grants and references, text of 5 printable characters or a number of 3 digits, by tag and by common name")
def scopus_field(c, part):
    """Each Scopus field is its text, its number, or its parts."""
    tag = c.pick("tag", sorted(SCO)[part::4])
    kind = SCO[tag]
    raw = c.s("n", [DIGITS, 3]) if kind == "number" else c.s("t", [ASCII, 5])
    want = int(raw) if kind == "number" else raw if kind == "text" else raw.split(kind)
    R = c.mk.ScopusRecord({"EID": "1", tag: raw})
    for name in [tag] + [k for k, v in SCO_SPECIAL.items() if v == tag] + [tag]:
        c.check(name in R, "there")
        c.equal(R[name], want, name)
    c.equal(R.get(tag, raw=True), raw, "raw")
    for k, v in SCO_SPECIAL.items():
        if v != tag:
            c.check(k not in R and R.get(k) is None, "absent " + k)


PQ_ONE = ("Author|Title|Advisor|Name|Committee member|Copyright|Country of publication|Database|Degree|Degree date|Department|Dissertation/thesis number|Document type|Language|Number of pages|"
          "Place of publication|ProQuest document ID|Publication year|School code|Source|Source type|University location|University/institution|ISBN|Publication subject").split("|")


@harness("C04", quick=[dict(part=0), dict(part=1)], bounds="every known ProQuest field and an unknown one, one or two lines of 3 printable characters")
def proquest_field(c, part):
    """Each ProQuest field is its line, its parts, or its lines."""
    tag = c.pick("tag", (PQ_ONE + ["Abstract", "Links", "Indexing (details)"])[part::2])
    raw = [c.s("a", [ASCII, 3])] + ([c.s("b", [ASCII, 3])] if c.b("two") else [])
    want = raw[0] if tag in PQ_ONE else raw
    R = c.mk.ProQuestRecord(dict({"ProQuest document ID": ["1"]}, **{tag: list(raw)}))
    c.equal(R[tag], want, tag)
    c.equal(R.get(tag, raw=True), raw, "raw")
    if tag in ("Title", "Abstract"):
        c.equal(R[tag.lower()], want, tag.lower())
    if tag == "Author":
        c.equal(R["authorsShort"], [raw[0]], "authorsShort")


NEAR = [("Xy", "XY"), ("XY", "XYZ"), ("XY", "YX"), ("X Y", "XY"), ("XY", "X-Y")]


@harness("C04", quick=[dict(kind=k, n=3) for k in ("wos", "medline", "scopus", "proquest", "nsf", "nserc")], thorough=[dict(kind=k, n=4) for k in ("wos", "medline", "scopus", "proquest", "nsf", "nserc")],
         bounds="records of every kind with two unknown fields whose names are much alike, read 3 (4) times in any order, values of a free character")
def fields_apart(c, kind, n):
    """Fields with similar names are different fields."""
    names = c.pick("names", NEAR)
    vals = [c.s("a", [ASCII]), c.s("b", [ASCII])]
    c.assume(c.not_(c.eq(vals[0], vals[1])))
    line = (lambda v: v) if kind in ("scopus", "nsf", "nserc") else (lambda v: [v])
    ident, cls = {"wos": ("UT", "WOSRecord"), "medline": ("PMID", "MedlineRecord"), "scopus": ("EID", "ScopusRecord"), "proquest": ("ProQuest document ID", "ProQuestRecord"),
                  "nsf": ("AwardID", "NSFGrant"), "nserc": ("Cle", "NSERCGrant")}[kind]
    d = {ident: line("WOS:1")}
    for x, v in zip(names, vals):
        d[x] = line(v)
    if kind == "nsf":
        R = c.mk.NSFGrant(d, "x")
    elif kind == "nserc":
        R = c.mk.NSERCGrant("x", d, "", 0)
    else:
        R = getattr(c.mk, cls)(d)
    third = names[1].lower() + "x"
    for i in range(n):
        j = c.pick("read%d" % i, [0, 1, 2])
        if j == 2:
            c.check(third not in R and R.get(third) is None, "no such field")
        else:
            c.equal(R[names[j]], line(vals[j]), "value")
            c.check(names[j] in R, "there")


FAM = ["wos", "medline", "scopus", "proquest", "nsf", "nserc"]


def fam(c, f, ident, extra, more=0, where=("", 0)):
    """A record of kind f; more adds further fields of every sort."""
    sf, sl = where
    if f == "wos":
        d = {"PT": ["J"], "UT": [ident], "TI": [extra]}
        if more:
            d.update({"AU": ["Doe, J", "Roe, R"][:more], "PY": ["200%d" % more], "CR": ["Doe J, 1990, SCIENCE"] * more})
        return c.mk.WOSRecord(d, sFile=sf, sLine=sl)
    if f == "medline":
        d = {"PMID": [ident], "TI": [extra]}
        if more:
            d.update({"AU": ["Doe J", "Roe R"][:more], "DP": ["200%d" % more], "OWN": ["NLM"] * more})
        return c.mk.MedlineRecord(d, sFile=sf, sLine=sl)
    if f == "scopus":
        d = {"EID": ident, "Title": extra}
        if more:
            d.update({"Authors": ", ".join(["Doe J.", "Roe R."][:more]), "Year": "200%d" % more})
        return c.mk.ScopusRecord(d, sFile=sf, sLine=sl)
    if f == "proquest":
        d = {"ProQuest document ID": [ident], "Title": [extra]}
        if more:
            d.update({"Author": ["Doe, J", "Roe, R"][:more], "Publication year": ["200%d" % more]})
        return c.mk.ProQuestRecord(d, sFile=sf, sLine=sl)
    d = {"AwardID" if f == "nsf" else "Cle": ident, "Title": extra}
    if more:
        d.update({"Institution": "U" * more, "Name-Nom": "Doe"})
    if f == "nsf":
        return c.mk.grants.NSFGrant(d, sf)
    return c.mk.grants.NSERCGrant(sf + str(sl), d, sf, sl)


@harness("C05", quick=[dict(f=f) for f in FAM], bounds="three records of one kind, ids of two printable characters, contents, number of further fields, place in a file and whether a field was read before free")
def identity(c, f):
    """Records are the same exactly if their ids are, whatever else they contain; sets and collections keep one of each."""
    ids = [c.s("id%d" % i, [ASCII, 2]) for i in range(3)]
    more = [0, c.i("more1", 0, 2), 1]
    where = [("", 0), ("a.txt", 3), ("b.txt", 3)]
    recs = [fam(c, f, ids[i], c.s("t%d" % i, ["xy"]), int(more[i]), where[i]) for i in range(3)]
    if c.b("read"):
        dict(recs[1].items())
        recs[1].get("title")
    for i in range(3):
        for j in range(3):
            same = c.eq(ids[i], ids[j])
            c.equal(recs[i] == recs[j], c.truth(same), "equal iff same id")
            c.equal(recs[i] != recs[j], not c.truth(same), "unequal iff different id")
            if c.truth(same):
                c.check(hash(recs[i]) == hash(recs[j]), "equal records hash alike")
    n = len(c.distinct(ids))
    c.equal(len(set(recs)), n, "set size")
    if f in ("nsf", "nserc"):
        R = c.mk.GrantCollection()
        for r in recs:
            R.add(r)
    else:
        R = rc(c, recs)
    c.equal(len(R), n, "collection size")
    for r in recs:
        c.check(r in R, "member")
        c.check(R.containsID(r.id), "id known")


@harness("C05", quick=[dict(a=a, b=b) for a in range(6) for b in range(6) if a < b], bounds="records of two kinds with free ids")
def kinds_differ(c, a, b):
    x, y = fam(c, FAM[a], c.s("i", ["12"]), "t"), fam(c, FAM[b], c.s("j", ["12"]), "t")
    c.check(not (x == y), "different kinds are not equal")
    c.check(x != y, "different kinds are different")
    c.check(not (x == "x") and x != None, "nor equal to other things")  # noqa: E711


@harness("C05", quick=[dict(f=f, how=h) for f in FAM[:4] for h in ("copy", "copy.copy", "pickle")] , bounds="one record with a free id and title; one field changed in the copy; copied before or after access")
def copies(c, f, how):
    """A copy is equal, reads the same, and does not share its contents."""
    i, t = c.s("id", ["1a"], ["0 "]), c.s("t", ["xy"], [" ;"], ["z"])
    R = fam(c, f, i, t, 2)
    before = c.b("before")
    key = {"wos": "TI", "medline": "TI"}.get(f, "Title")
    if before:
        c.equal(R[key], t, "value")
    C = R.copy() if how == "copy" else (copy.copy(R) if how == "copy.copy" else pickle.loads(pickle.dumps(R)))
    c.check(C == R and C is not R, "equal copy")
    c.equal(C.id, R.id, "id")
    c.check(type(C) is type(R) and C.bad is False and C.error is None, "kind and state")
    c.equal(C[key], t, "value in the copy")
    c.equal(list(C.keys()), list(R.keys()), "fields of the copy")
    c.equal(list(C.items(raw=True)), list(R.items(raw=True)), "raw contents of the copy")
    if how == "copy":
        v = C.get(key, raw=True)
        if isinstance(v, list):
            v.append("more")
            c.equal(R.get(key, raw=True), [t], "changing the copy leaves the original alone")
    C._fieldDict["ZZ"] = ["q"]
    c.check("ZZ" not in R, "adding to the copy leaves the original alone")
    c.check("ZZ" in C, "and shows in the copy")


@harness("C05", quick=[dict(f=f) for f in FAM[:4]], bounds="a record without its id field, title free")
def bad_records(c, f):
    """A record without an id is bad, says why, and is not the same as any other record."""
    t = c.s("t", ["xy"], ["z "])
    R = {"wos": lambda: c.mk.WOSRecord({"TI": [t]}), "medline": lambda: c.mk.MedlineRecord({"TI": [t]}), "scopus": lambda: c.mk.ScopusRecord({"Title": t}),
         "proquest": lambda: c.mk.ProQuestRecord({"Title": [t]})}[f]()
    c.check(R.bad is True, "bad")
    c.check(isinstance(R.error, Exception), "error explains", R.error)
    c.check("BAD" in repr(R), "repr shows it")
    good = fam(c, f, "1", t)
    c.check(not (R == good), "not equal to a good record")
    c.check(good.bad is False and good.error is None, "a good record is good")
    e = c.raises(lambda: bytes(R))
    c.check(isinstance(e, Exception), "cannot be written")
    c.equal(R[{"wos": "TI", "medline": "TI"}.get(f, "Title")], t, "what it has can still be read")


@harness("C05", quick=[dict(f=f) for f in FAM[:4]], bounds="two records without their id field, titles free, one with a further field or none")
def bad_records_differ(c, f):
    """Records without ids are different records if their contents are, in sets and in collections."""
    key = {"wos": "TI", "medline": "TI"}.get(f, "Title")
    kind = {"wos": "WOSRecord", "medline": "MedlineRecord", "scopus": "ScopusRecord", "proquest": "ProQuestRecord"}[f]
    ts = [c.s("t%d" % i, [" ;xy", 2]) for i in range(2)]
    more = c.b("more")
    rs = []
    for i, t in enumerate(ts):
        d = {key: t if f == "scopus" else [t]}
        if i and more:
            d["ZZ"] = "1" if f == "scopus" else ["1"]
        rs.append(getattr(c.mk, kind)(d))
    c.check(rs[0].bad and rs[1].bad and str(rs[0].error) == str(rs[1].error), "bad for the same reason")
    if more or not c.truth(c.eq(ts[0], ts[1])):
        c.check(rs[0] != rs[1] and not rs[0] == rs[1], "different")
        c.equal(len(set(rs)), 2, "in a set")
        R = rc(c, rs)
        c.equal(len(R), 2, "in a collection")
        R.dropBadEntries()
        c.equal(len(R), 0, "dropped")


# ------------------------------------------------------------------ C06 self citation
@harness("C06", quick=[dict(mask=m, nauth=n) for m in range(64) for n in ((0, 2)[m % 2],)] + [dict(mask=63, nauth=1), dict(mask=0, nauth=2), dict(mask=31, nauth=3)],
         thorough=[dict(mask=m, nauth=n) for m in range(64) for n in (0, 1, 2, 3)],
         bounds="each of year, J9, title, volume, page, DOI there or not; up to 3 authors of 4 characters, letters, commas and blanks, other contents of 2 printable characters")
def self_citation(c, mask, nauth):
    """A record's citation of itself lists first author, year, source, volume, page and DOI in that order, for each author when asked."""
    f, parts = {}, []
    auths = [c.s("a%d" % i, [LETTERS], [", -b"], [", J"], [LETTERS]) for i in range(nauth)]
    if nauth:
        f["AU"] = auths
    if mask & 1:
        y = c.s("y", [DIGITS[1:]], [DIGITS, 3])
        f["PY"] = y
        parts.append(y)
    if mask & 2:
        j = c.s("j", [but(","), 2])
        f["J9"] = j
        parts.append(j)
    if mask & 4:
        t = c.s("t", [but(","), 2])
        f["TI"] = t
        if not mask & 2:
            parts.append(t)
    if mask & 8:
        v = c.s("v", [DIGITS + LETTERS], [DIGITS + LETTERS + " -("], [DIGITS + LETTERS])
        f["VL"] = v
        parts.append("V" + v)
    if mask & 16:
        b = c.s("b", [DIGITS + LETTERS], [DIGITS + LETTERS + " -+"], [DIGITS + LETTERS])
        f["BP"] = b
        parts.append("P" + b)
    if mask & 32:
        d = "10." + c.s("d", [ASCII, 2])
        f["DI"] = d
        parts.append("DOI " + d)
    R = wos(c, "WOS:1", **f)
    clean = [a.replace(",", "") for a in auths]
    one = R.createCitation()
    c.check(isinstance(one, c.mk.Citation), "is a citation")
    c.equal(str(one), ", ".join(clean[:1] + parts), "citation text")
    c.equal(str(R["selfCitation"]), ", ".join(clean[:1] + parts), "selfCitation")
    many = R.createCitation(multiCite=True)
    c.check(isinstance(many, tuple), "several citations come as a tuple")
    c.equal([str(x) for x in many], [", ".join([a] + parts) for a in clean] if nauth else [", ".join(parts)], "one per author")
    if nauth and mask & 3 == 3:
        c.check(one == many[0], "the first is the citation itself")
        c.check(one == c.mk.Citation(", ".join(clean[:1] + parts)), "equal to the citation others would make")


@harness("C06", quick=[dict(vol=v, nauth=n) for v in (0, 1, 2, 3) for n in (1, 2)], bounds="Scopus record with up to 2 authors, title, journal, volume or page or both of up to 3 free characters, hyphens included")
def scopus_self_citation(c, vol, nauth):
    """As for Web of Science records: author, year and journal of the citation are those of the record."""
    auths = [c.s("a%d" % i, [LETTERS, 2], " ", [LETTERS], ".") for i in range(nauth)]
    y = c.s("y", [DIGITS[1:]], [DIGITS, 3])
    t = c.s("t", [but(" ,.()")], [but(",.()"), 2])
    j = c.s("j", [but(", ")], [but(",")], [but(", ")])
    d = {"EID": "1", "Authors": ", ".join(auths), "Year": y, "Title": t, "Source title": j}
    if vol & 1:
        d["Volume"] = c.s("v", [DIGITS + LETTERS], [DIGITS + LETTERS + "-"], [DIGITS + LETTERS])
    if vol & 2:
        d["Page start"] = c.s("p", [DIGITS + LETTERS], [DIGITS + LETTERS + "-"], [DIGITS + LETTERS])
    R = c.mk.ScopusRecord(d)
    one, many = R.createCitation(), R.createCitation(multiCite=True)
    c.equal(len(many), nauth, "one per author")
    for x, a in [(one, auths[0])] + list(zip(many, auths)):
        c.equal(x.author, a.upper(), "author")
        c.equal(x.year, int(y), "year")
        c.equal(x.journal, j.upper(), "journal")
        c.equal(x.V or "", d.get("Volume", "").upper(), "volume")
        c.equal(x.P or "", d.get("Page start", "").upper(), "page")
        c.equal(x.name.strip(), t.upper().strip(), "title")
    c.equal(str(many[0]), str(one), "the first is the citation itself")
    c.equal(str(R["selfCitation"]), str(one), "selfCitation")


@harness("C06", quick=[dict(nauth=n) for n in (0, 1, 2)], bounds="Scopus record with or without authors (with a comma or not), title, year and journal, free texts of up to 2 characters")
def scopus_incomplete(c, nauth):
    """What a record does not have is not made up, and what it has is not lost."""
    auths = []
    for i in range(nauth):
        a, b = c.s("a%d" % i, [LETTERS, 2]), c.s("b%d" % i, [LETTERS])
        auths.append(a + c.pick("sep%d" % i, [" ", ","]) + b + ".")
    have = [c.truth(c.b(k)) for k in ("title", "year", "journal")]
    t, y, j = c.s("t", [LETTERS, 2]), "20" + c.s("y", [DIGITS, 2]), c.s("j", [LETTERS, 2])
    d = {"EID": "1"}
    if nauth:
        d["Authors"] = ", ".join(auths)
    for k, v, h in zip(("Title", "Year", "Source title"), (t, y, j), have):
        if h:
            d[k] = v
    R = c.mk.ScopusRecord(d)
    text = "".join(x for x, h in ((t + " ", have[0]), ("(" + y + ") ", have[1]), (j + ", ", have[2])) if h)
    clean = [a.replace(",", "") for a in auths]
    one, many = R.createCitation(), R.createCitation(multiCite=True)
    c.equal(str(one), (clean[0] + ", " if nauth else "") + text, "citation text")
    c.equal([str(x) for x in many], [a + ", " + text for a in clean] if nauth else [text], "one per author")
    for x in (one,) + tuple(many):
        c.equal(x.year, int(y) if have[1] else 0, "year")
        c.equal(x.journal, j.upper() if have[2] else "", "journal")
        c.equal((x.name or "").strip(), t.upper() if have[0] else "", "title")


@harness("C06", quick=[dict(f=f) for f in ("medline", "proquest")], bounds="record with two authors (ProQuest: one), year, title, free contents of up to 3 characters")
def other_self_citation(c, f):
    a = c.s("a", [LETTERS, 2], " ", [LETTERS])
    y = c.s("y", [DIGITS[1:]], [DIGITS, 3])
    t = c.s("t", [but(","), 3])
    if f == "medline":
        j = c.s("j", [but(","), 3])
        R = c.mk.MedlineRecord({"PMID": ["1"], "AU": [a, "Other O"], "DP": [y + " Jan"], "TI": [t], "TA": [j], "VI": ["7"], "PG": ["12-9"]})
        want = [a, y, j, "V7", "P12"]
    else:
        R = c.mk.ProQuestRecord({"ProQuest document ID": ["1"], "Author": [a], "Degree date": [y], "Title": [t]})
        want = [a, y, t]
    c.equal(str(R.createCitation()), ", ".join(want), "citation text")
    many = R.createCitation(multiCite=True)
    c.equal(str(many[0]), ", ".join(want), "the first is the citation itself")
    c.equal(len(many), 2 if f == "medline" else 1, "one per author")
