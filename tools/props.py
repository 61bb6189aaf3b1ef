"""Writes properties.jsonl and MANIFEST.json. Run: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MK = "metaknowledge/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, level_note=None, state=None):
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[MK + f for f in files], mechanism=[dict(name=n, where=MK + w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=MK + w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append((d, level_note))


IN = ["inputs"]
NOTE = ("Bounded: holds for every value of the symbolic inputs within the shapes in the evidence file (field contents up to a few "
        "characters, collections up to a few records); trusts the engine's models of str, re, csv, files and networkx, which every "
        "run cross-checks by replaying sampled paths on the real interpreter.")
CI, RE, CO, RC, GR, GH, DI = "citation.py", "mkRecord.py", "mkCollection.py", "recordCollection.py", "grantCollection.py", "graphHelpers.py", "diffusion.py"

prop("C01", "Citation parsing is total and faithful",
     "Every string can be made into a citation without an exception. A well-formed citation yields exactly the author, year, journal, volume, page and DOI written in it, in the documented form, and a string without the needed parts is marked as incomplete rather than given invented parts.",
     IN, "every citation string of the Web of Science and Scopus forms, and every string at all for totality",
     "the tests parse a handful of citations; commas, missing parts, odd years and DOIs in any position are not sampled",
     [CI], [("Citation.__init__", CI), ("parts of a citation", CI)])
prop("C02", "Citation equality is an equivalence that agrees with hashing",
     "Citations are equal exactly when the author, year and journal read from them are equal, whatever their volume, page, DOI, letter case or full stops in the author's name. Equality is reflexive, symmetric and transitive, != is its negation, and equal citations hash alike and are one key in dictionaries and sets. Nothing that is not a citation equals one.",
     IN, "every pair and triple of citations over the parts that decide equality",
     "pairs and triples of parsed citations are far more than the few comparisons tested",
     [CI], [("__eq__, __hash__, ID", CI)])
prop("C03", "Journal tests follow the journal table",
     "A citation is a journal exactly when its journal abbreviation is in the table or was added by the user and not excluded; full names are those of the table. Adding or excluding a journal is seen by every citation of it at once and after reloading, and by no other; filtering keeps exactly the citations that qualify, in order.",
     ["inputs", "histories"], "any table, citation and sequence of manual additions and exclusions",
     "the tests ask about three journals of the shipped table",
     [CI, "journalAbbreviations/backend.py"], [("isJournal, FullJournalName, addToDB", CI), ("abbreviation data base", "journalAbbreviations/backend.py")])
prop("C04", "Fields of a record mean what their raw text says",
     "Reading a field of a record by its tag or by its full name gives the same value, computed from the raw lines as documented for that field, for all kinds of records. Membership, get, items and the raw view agree with each other, and reading any field present never raises.",
     IN, "every content of every known field of all four record kinds",
     "tests read the fields of a few real records, not every content a field can have",
     [RE, "WOS/tagProcessing/tagFunctions.py", "medline/tagProcessing/specialFunctions.py", "scopus/tagProcessing/tagFunctions.py", "proquest/tagProcessing/tagFunctions.py"],
     [("ExtendedRecord access and caching", RE), ("tag functions", "WOS/tagProcessing/tagFunctions.py")])
prop("C05", "A record's identity is its id",
     "Records of one kind are equal exactly when their ids are equal, whatever their other contents, hash alike when equal, and records of different kinds differ. A copy is equal and independent of the original, pickling preserves all fields, and a record without an id is marked bad with its reason.",
     IN, "every pair of records with arbitrary ids and contents",
     "equality over all id and field values is not sampled by the tests", [RE], [("__eq__, __hash__, copy, pickling", RE)])
prop("C06", "A record's citation of itself matches the record",
     "The citation made from a record has its first author, year, source, volume, page and DOI, in that order and leaving out what is missing. Asking for all authors gives one such citation per author.",
     IN, "every combination of present and missing fields", "only a few real records are turned into citations by the tests",
     [RE, "scopus/recordScopus.py"], [("createCitation", RE), ("createCitation", "scopus/recordScopus.py")])
prop("C07", "Web of Science files round-trip",
     "Reading a well-formed Web of Science file gives one good record per id with every line of every field in order, and reports nothing. Writing a collection, however it was made, and reading the file again gives an equal collection with the same fields, and each record is written with the same text it was read from.",
     IN, "every set of records, fields and lines within the format", "the tests write and re-read one sample file",
     ["WOS/wosHandlers.py", "WOS/recordWOS.py", RC], [("wosParser", "WOS/wosHandlers.py"), ("recordParser, writeRecord", "WOS/recordWOS.py"), ("writeFile", RC)])
prop("C08", "Medline files round-trip",
     "Reading a well-formed Medline file gives every value of every field in order, with continued lines joined and affiliations and identifiers attached to the author they follow. Writing the records and reading them again gives the same fields.",
     IN, "every sequence of tagged and continued lines", "one sample file",
     ["medline/medlineHandlers.py", "medline/recordMedline.py"], [("medlineParser", "medline/medlineHandlers.py"), ("medlineRecordParser, writeRecord", "medline/recordMedline.py")])
prop("C09", "Scopus files round-trip",
     "Every row of a Scopus file becomes a record whose fields are the cells of the row under the file's own header, whatever quoting, commas or quotation marks the cells contain. Writing the records and reading them again gives the same fields.",
     IN, "every cell content and column order", "cells of the sample file do not exercise quoting systematically",
     ["scopus/scopusHandlers.py", "scopus/recordScopus.py"], [("scopusParser", "scopus/scopusHandlers.py"), ("scopusRecordParser, writeRecord", "scopus/recordScopus.py")])
prop("C10", "ProQuest files are read completely",
     "Every document of a ProQuest report becomes one good record with all its fields, multi-line fields keeping all their lines. Authors, year and title follow from those fields.",
     IN, "every field content within the format", "one sample file",
     ["proquest/proQuestHandlers.py", "proquest/recordProQuest.py"], [("proQuestParser", "proquest/proQuestHandlers.py"), ("proQuestRecordParser", "proquest/recordProQuest.py")])
prop("C11", "Damage in a file is contained and reported",
     "A file that is cut short or has a stray or misshapen line is still read without an exception, and the records the damage does not touch come out as if it were not there. Damage that makes a record unreadable is reported on the collection or leaves a record marked bad; a Web of Science record with a misshapen tag is left out whole, and files of no known format are refused.",
     ["inputs", "fault_sequences"], "a cut at any character; a stray line of any text at any place; any missing or extra column",
     "the tests have three damaged sample files", ["WOS/wosHandlers.py", "medline/medlineHandlers.py", "scopus/scopusHandlers.py", "proquest/proQuestHandlers.py", RC],
     [("error handling of the parsers", "WOS/wosHandlers.py"), ("errors and bad of collections", RC)])
prop("C22", "Co-occurrence networks have exact nodes, edges and weights",
     "A co-occurrence network of one or two tags has as nodes exactly the values of those tags, counted once per occurrence, and as edges exactly the pairs of values found in one record, weighted by how often. Options to leave out counts, weights, self-loops or to keep edge attributes change nothing else.",
     IN, "every collection of records with arbitrary shared values", "sample networks are compared by summary numbers only",
     [RC], [("networkOneMode, networkTwoMode, networkMultiLevel", RC)])
prop("C23", "Multi-mode networks have exact nodes, edges and weights",
     "A network of several tags has one node per value with the tags it occurs in, counted as often as it occurs, and edges join exactly the values of different tags of one record, weighted by how often. Directed networks point from the first tag to the second.",
     IN, "every collection of records with arbitrary shared values", "sample networks are compared by summary numbers only",
     [RC], [("networkTwoMode, networkMultiMode", RC)])
prop("C24", "Co-author networks have exact nodes, edges and weights",
     "The nodes are exactly the authors of the records, counted by records written, and the edges join exactly the pairs who wrote a record together, weighted by how often. Attached details come from a record of that author.",
     IN, "every collection with arbitrary shared authors", "sample networks are compared by summary numbers only",
     [RC], [("networkCoAuthor", RC)])
prop("C25", "Co-citation networks have exact nodes, edges and weights",
     "The nodes are exactly the works cited (or their authors, years or journals) that pass the chosen filters, counted as often as they are cited, and the edges join exactly those cited by one record, weighted by how many records do. Core options mark, expand or keep exactly the works that are records of the collection.",
     IN, "every collection with arbitrary citations, every option", "options and shared citations are sampled in few combinations",
     [RC], [("networkCoCitation", RC), ("_edgeNodeMaker", RC)])
prop("C26", "Citation networks have exact nodes, edges and weights",
     "There is an edge from every citing record to every work it cites that passes the chosen filters, and no other; weights and counts are numbers of citations. The result does not depend on the order of the records.",
     IN, "every collection with arbitrary citations, every option", "as for co-citation",
     [RC], [("networkCitation", RC)])
prop("C27", "Bibliographic coupling counts shared references",
     "Two records are joined exactly when they cite a common work, and the weight is the number of works they share. Every record with citations is a node.",
     IN, "every collection with arbitrary citations", "one sample network", [RC], [("networkBibCoupling", RC)])
prop("C37", "Tag names convert back and forth",
     "Every tag converts to its full name and every full name to its tag, whatever the case, and one undoes the other. Anything else is refused with a KeyError, and the value of each field is of the documented kind.",
     IN, "every string as a tag, every field content", "a few tags are tried",
     ["WOS/tagProcessing/helpFuncs.py", "WOS/tagProcessing/funcDicts.py"], [("tagToFull, normalizeToTag, normalizeToName, isTagOrName", "WOS/tagProcessing/funcDicts.py")])
prop("C12", "Collections behave as sets of records",
     "Every operator and method that combines, compares or changes collections gives the set that the operator says, one record per id, from records of its operands. Error reports of the operands are kept and joined, operands that are not changed in place stay as they were, and equal collections hash alike.",
     ["inputs", "histories"], "every pair of collections and every sequence of changes, with arbitrary ids and error states",
     "set laws quantify over all memberships and histories; tests combine one collection with a chunk of itself",
     [CO], [("Collection operators", CO), ("add, discard, remove, pop, clear", CO)])
prop("C13", "Lookup by id, bad entries and tags reflect the records",
     "Looking up an id finds the record that has it, if there is one. The bad entries are exactly the bad records, dropping them leaves exactly the good ones and a clean report, and the tags of a collection are exactly those of its records.",
     IN, "every collection with arbitrary ids, good and bad records and fields", "a few ids of one sample file are looked up",
     [CO], [("containsID, discardID, removeID, getID", CO), ("badEntries, dropBadEntries, tags", CO)])
prop("C14", "Copies and chunks keep every record and are independent",
     "A copy of a collection equals it, and changing either, in any way, leaves the other as it was. Chunks and splits are as large as asked for except the last, share no record, and together hold exactly the records of the collection; splitting empties the original.",
     ["inputs", "histories"], "every collection size, chunk size and later change", "one chunk size and no later changes are tested",
     [CO], [("copy", CO), ("chunk, split", CO)])
prop("C15", "Reading through a cache gives what reading the files gives",
     "A directory read with caching gives the records its files give now, whatever was cached before: files added, removed, exchanged or changed since, other names or extensions, or a cache cut short or foreign. Only files with the asked for extension are read, and errors are reported for the file they are in.",
     ["histories", "crash_points"], "every change of the directory between two reads; a cache file ending at any place",
     "the tests read one unchanging directory", [RC, CO], [("reading a directory", RC), ("_loadFromCache, _createCache", CO)],
     state=[("cache file", "pickled collection with the state of the files it came from", CO)])
prop("C16", "Filters keep exactly the records that qualify",
     "Splitting by year, keeping journals, filtering by citation and finding local citers keep exactly the records that meet the condition, inverting keeps exactly the others, and the filtered collection is otherwise unchanged. Records without the field in question never match.",
     IN, "every collection with arbitrary years, types and citations, and every key", "each filter is tried with one or two values",
     [RC], [("yearSplit, dropNonJournals, citeFilter, localCitesOf", RC)])
prop("C17", "Counts and series of values and citations are exact",
     "Ranked series, time series, co-occurrence counts, citation tables and local citation counts list every distinct value exactly once with exactly the number of its occurrences, in the order asked for, with ranks and fractions that follow from those numbers. All output forms of one call, written files included, agree, and limits leave the rest unchanged.",
     IN, "every collection with arbitrary repeated values, years and citations, and every option",
     "the tests check a few totals of one sample collection", [CO, RC, RE],
     [("rankedSeries, timeSeries, cooccurrenceCounts", CO), ("getCitations, localCiteStats", RC), ("getCitations, _pandasPrep", RE)])
prop("C18", "Cited-year spectra are exact",
     "The spectrum has exactly the years from the lowest to the highest asked for or cited, without dropped ones, in order. Each has the number of times it was cited, its deviation from the median of the five years around it, dropped and outside years included, and a rank that follows the deviations; years never cited rank 0 unless asked for.",
     IN, "every multiset of cited years, every bound and dropped year", "one spectrum is checked by one number in it",
     [RC], [("rpys", RC)])
prop("C19", "Tables and csv files give every record's values",
     "The table of a collection has one row per record with exactly the values of the chosen tags, and its number of authors and genders. Reading the csv file gives those values back whatever characters they contain; split by a tag there is one file per value, with exactly its records. Arguments given are never changed.",
     IN, "every record content with delimiters and quotes, every option", "the tests compare the size of one file",
     [RC], [("makeDict, writeCSV", RC)])
prop("C20", "Text preparation cleans as documented and loses no text",
     "Prepared texts and words of a record are its field with exactly the asked for clean up: dropped words gone wherever they stand between spaces, case, digits, other characters and spaces treated as chosen, each word stemmed. Copyright notices are split off without losing any text, and every row keeps its record's id or year.",
     IN, "every text over letters, digits, punctuation and space; every option", "the tests compare the size of files for one collection",
     [RC], [("forNLP, forBurst, findProbableCopyright", RC)])
prop("C21", "BibTeX entries give every field back",
     "The BibTeX entry of a good record has its authors and each of its fields, written so that a reader gets the value back; long values are cut into strings no longer than allowed that together are the value, less quotation marks. A file has one entry per good record and none for bad ones.",
     IN, "every field content and length limit", "the tests compare the size of one file",
     [RE, RC], [("bibString, _bibFormatter", RE), ("writeBib", RC)])
prop("C28", "Dropping edges and nodes keeps exactly those within bounds",
     "After dropping edges by weight, or nodes by degree or count, exactly the edges or nodes within the bounds are left, bounds included, parallel edges and loops judged one by one. What stays keeps all its attributes, edges stay exactly when both ends do, and what has no weight or count is kept or refused as asked.",
     IN, "every graph of any kind with arbitrary weights or counts, some missing, and every bound", "the tests compare sizes of one network",
     [GH], [("dropEdges, dropNodesByDegree, dropNodesByCount", GH)])
prop("C29", "Merging graphs adds counts and loses nothing",
     "After merging, the first graph has exactly the nodes and edges of both. Counts and weights of those in both are added up (edges of multigraphs are the same when their ends and keys are), everything else keeps its attributes, and the added graph stays as it was and shares no attributes with the other.",
     IN, "every two graphs with arbitrary common nodes and edges, and counts and weights or none", "one merge is tested by its size",
     [GH], [("mergeGraphs", GH)])
prop("C30", "Written graphs read back the same",
     "Writing a graph and reading the files gives the same nodes, edges and attributes, as text, whatever characters they contain, and blank where there was none. Files are named as documented, have a row per node and edge, and existing ones are kept unless overwriting is allowed; the graph is left as it was.",
     IN, "every graph with arbitrary names and attributes; every option; every file already there", "one sample network of plain names is written",
     [GH], [("writeGraph, writeEdgeList, writeNodeAttributeFile, readGraph", GH)])
prop("C31", "Degrees, statistics and tnet files describe the graph",
     "Degrees are the numbers or summed weights of the edges at each node in the direction asked for, and the distribution counts them. Statistics equal their definitions, in every form. A tnet file has a line per edge from one mode to the other with the ids given to the nodes, and networks that are not of two modes are refused.",
     IN, "every graph with arbitrary weights and modes, every option", "the tests compare two summary strings",
     [GH], [("getNodeDegrees, getDegreeDistribution, graphStats, writeTnetFile", GH)])
prop("C32", "Diffusion graphs have exactly the citations between the collections",
     "The diffusion graph has a node for every value of the chosen tags of the records in source and target, marked with the side or sides it is of, and an edge from a source value to a target value exactly when a target record with it cites a source record with the other, weighted by how often, or one per label. Unknown tags are refused.",
     IN, "every two collections with arbitrary citations and values, every choice of node, label and weight", "the tests compare the size of one graph of a collection with itself",
     [DI], [("diffusionGraph, makeNodeID", DI)])
prop("C33", "Diffusion counts are exact in every form",
     "Every record or value of the source has exactly the number of citations by the target of records with it, by any of their authors or only the first as asked for, in total and for each extra value. Compared counts, tables and counts added to graphs give the same numbers, and given counts and graphs are otherwise left as they were.",
     IN, "every two collections with arbitrary citations and values, every option", "the tests check bounds of one count",
     [DI], [("diffusionCount, diffusionAddCountsFromSource", DI)])
prop("C34", "Grants are read completely and joined by key",
     "Every row or award of a grant file becomes a grant with exactly its columns, bad without its key field, and well-formed files report no error. Rows of one NSERC key are one grant with the values of all, over all files of a directory; other files are refused, or skipped in directories. Reading through the cache gives the same, and grant strings are split into their documented parts.",
     ["inputs", "histories"], "every content of rows, keys and blanks, every change of a directory between readings",
     "the tests count the grants of fixed files", [GR, "grants/nsercGrant.py", "grants/cihrGrant.py", "grants/nsfGrant.py", "grants/baseGrant.py", "grants/medlineGrant.py", "grants/scopusGrant.py"],
     [("GrantCollection", GR), ("parserNSERCfile, NSERCGrant.update", "grants/nsercGrant.py"), ("parserFallbackGrantFile, csvAndLinesReader", "grants/baseGrant.py"), ("parserNSFfile", "grants/nsfGrant.py"), ("MedlineGrant", "grants/medlineGrant.py")])
prop("C35", "Investigators and their networks are exactly those of the grants",
     "The investigators or institutions of a grant are exactly the names in the fields asked for and known for its kind, each once per occurrence and trimmed. In the network every name is counted as often as grants list it, and joined to another as often as they are listed together. Given tags are never changed.",
     IN, "every collection of grants of any kind with arbitrary common names", "one network is compared by its size",
     [GR, "grants/baseGrant.py", "grants/nsercGrant.py", "grants/nsfGrant.py"], [("networkCoInvestigator", GR), ("getInvestigators, getInstitutions", "grants/baseGrant.py")])
prop("C36", "Genders are those of the first names",
     "The gender of an author is that stored for the first name after the comma, whatever its case, and unknown for all other names; the table of names is fetched once, when it is missing, and kept as it is. Each author of a record is counted once, and the counts and fractions of a record and of a collection agree and add up, with no authors at all too.",
     IN, "every name and author list", "the names table is not available to the tests",
     ["genders/nameGender.py", RE, RC], [("nameStringGender, getMapping", "genders/nameGender.py"), ("authGenders", RE), ("genderStats", RC)])
prop("C38", "A glimpse lists the most frequent values",
     "A glimpse gives the kind, size and name of the collection and, for each field asked for or else the three usual ones, its most frequent values in order of rank, each with its rank, as many as fit the terminal. Every line of a compact glimpse is exactly as wide as the terminal, its columns are equally wide, and values that do not fit are cut.",
     IN, "every collection, choice of fields and size of the terminal", "the tests look for two titles in one glimpse",
     ["RCglimpse.py", CO], [("makeHeader, makeTable, prepEntry", "RCglimpse.py"), ("glimpse", CO)])
prop("C39", "The command line does what its menus say",
     "Each choice on a menu of the command line interface does what it says: it reads exactly the files given, makes the network named, drops exactly the edges or nodes named, writes the file named under the name given, and never overwrites a file without being told to. Answers that make no sense are asked for again and change nothing.",
     ["inputs", "histories"], "every sequence of answers, collection and graph", "the tests run one sequence of answers and compare sizes",
     ["bin/metaknowledgeCLI.py"], [("getThresholds, getNetwork, getWhatToDo, outputNetwork, getFiles", "bin/metaknowledgeCLI.py")])
prop("C40", "The progress display never changes a result",
     "With the progress display on, every operation that has one returns the same result and writes the same files as with it off, in any terminal or none and however its drawing interleaves with the work. When the operation is over, normally or with an error, its display has been told to end and nothing goes on drawing. No line it draws is wider than the terminal.",
     ["inputs", "schedules"], "every collection or graph, width of the terminal, speed, and point at which the display is drawn", "the tests run without a terminal and with the display off",
     ["progressBar.py", CO, RC, "graphHelpers.py", "diffusion.py", "grantCollection.py"],
     [("_ProgressBar, threadedUpdate", "progressBar.py"), ("VERBOSE_MODE", CO)])
prop("C41", "Records and grants know the file and line they were read from",
     "Every record and grant read from a file names that file and the line of it that the record starts on, however long the records before it are, whether it was read alone, from a folder or from the cache, in copies and in unions; a malformed record does too, and the error of using it says where it is.",
     ["inputs"], "every file of each format", "the tests read fixed files and look at the number of records",
     [RE, "WOS/wosHandlers.py", "medline/medlineHandlers.py", "scopus/scopusHandlers.py", "proquest/proQuestHandlers.py", "grants/nsercGrant.py", "grants/cihrGrant.py", "grants/nsfGrant.py", "grants/baseGrant.py"],
     [("ExtendedRecord.__init__, sourceFile, sourceLine", RE), ("isiParser, recordParser", "WOS/wosHandlers.py")])
prop("C42", "Markdown documents become notebooks with every line in order",
     "Converting a Markdown document writes a valid notebook beside it, of the document's name, whose cells hold the document's lines in order: lines marked [n] as code, those of one number together in one cell without their mark, all others as Markdown. No line or character is lost or changed (blank lines at the ends of cells excepted), whatever characters they have, and every document given is converted and itself left as it was.",
     ["inputs"], "every document", "no test converts a document",
     ["bin/metaknowledgeMdToNb.py"], [("convert, convertString, stringPreprossesing, mkMdToNb", "bin/metaknowledgeMdToNb.py")])
prop("C43", "The journal table holds what its pages and manual edits say",
     "Updating the table asks every listing page once and stores, for each abbreviation, every distinct name the pages give it, in order; updating again adds what is new and loses nothing. Names added by hand are found, names excluded are not, later edits win over earlier ones, and both survive being read again. A page that cannot be fetched or read is reported, not skipped.",
     ["inputs", "fault_sequences"], "every set of pages, sequence of edits, and failing page", "the tables come from the network, which the tests do not have",
     ["journalAbbreviations/backend.py", "journalAbbreviations/__init__.py"],
     [("updatej9DB, _getDict, _getCurrentj9Dict", "journalAbbreviations/backend.py"), ("getj9dict, addToDB, excludeFromDB", "journalAbbreviations/backend.py")])
prop("C44", "Pictures show the whole graph, by type or by density",
     "A picture of a graph draws every node and edge once, edges and labels where their nodes are. Nodes of one type have one colour and those of different types different ones (up to eight); a graph with only some of its nodes typed is refused, one with none is drawn in one colour. A density plot counts every node in the cell of the grid it lies in, over the whole square the layout may fill, blurs those counts as asked for and draws that surface, with the graph at the same places when asked for. The graph and the layout given are left as they were.",
     IN, "every small graph, set of types, layout within its square, grid and option", "the tests never import the drawing module",
     ["contour/plotting.py"], [("quickVisual", "contour/plotting.py"), ("graphDensityContourPlot", "contour/plotting.py")],
     level_note="Bounded: graphs of a few nodes, grids of a few cells, positions from a few per axis. The layout, the blur and the drawing itself (networkx, scipy, matplotlib) are stood in for: what is decided is what they are given.")
#MORE

NA = [
    dict(id="N01", title="Layouts, blurs and images are right",
         statement="The layout computed for a graph, the Gaussian blur of its density and the image on the screen are those of the shapes asked for.",
         why="done by networkx's numeric layouts, scipy and matplotlib, floating-point and compiled code (matplotlib is not even installed for the solver's interpreter) that cannot be encoded; what they are given is C44"),
]

if __name__ == "__main__":
    import sys
    mods = json.load(open(os.path.join(HERE, "vf", "modules.json")))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _ in sorted(P, key=lambda x: x[0]["id"]):
            f.write(json.dumps(d) + "\n")
        for n in NA:
            f.write(json.dumps(dict(id=n["id"], title=n["title"], statement=n["statement"],
                                    quantifier=dict(over=["inputs"], text="every input"), why_tests_cant="not tested at all",
                                    anchors=dict(files=[MK + {"N01": "contour/plotting.py"}[n["id"]]], mechanism=[]))) + "\n")
    checks = []
    for d, note in sorted(P, key=lambda x: x[0]["id"]):
        pid = d["id"]
        if pid not in mods:
            sys.exit("no module for " + pid)
        checks.append(dict(property=pid, quick_cmd="python3-vt -m vf.run %s quick" % pid, thorough_cmd="python3-vt -m vf.run %s thorough" % pid,
                           technique="symbolic execution of the Python source with z3, counterexamples replayed on the real code",
                           level="model_checking", level_note=note or NOTE))
    man = dict(version=1, setup_cmd="python3-vt -m vf.selftest", checks=checks,
               not_applicable=[dict(property=n["id"], reason=n["why"]) for n in NA],
               notes="Every check re-reads /repo's working tree, instruments it in memory and explores it; nothing is built beforehand. "
                     "No hooks in /repo. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    import subprocess
    code = ("import json,jsonschema;s=json.load(open('/root/.vp/PROPERTIES.schema.json'));"
            "[jsonschema.validate(json.loads(l),s) for l in open('%s/properties.jsonl')];"
            "jsonschema.validate(json.load(open('%s/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')));print('valid')" % (HERE, HERE))
    subprocess.call(["python3-vt", "-c", code])
