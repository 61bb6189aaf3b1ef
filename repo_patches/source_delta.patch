From 47d02e8a5d6c75f087a3fb6d27ceaf35ab04617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:25 +0000
Subject: [PATCH 001/109] fix: journals added or excluded through a citation
 are cached the way they are loaded

addToDB stored the bare name in the in-memory dictionary, whose values are
lists of names, so the full name came back as its first letter and isJournal
raised IndexError for an excluded journal; it also failed when the database
had not been read yet.
---
 metaknowledge/citation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 13557e8..d314f42 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -359,7 +359,8 @@ class Citation(collections.abc.Hashable):
         except KeyError:
             raise KeyError("This citation does not have a journal field.")
         else:
-            abbrevDict.update(d)
+            if abbrevDict is not None:
+                abbrevDict.update({k : v.split('|') for k, v in d.items()})
 
 def filterNonJournals(citesLst, invert = False):
     """Removes the `Citations` from _citesLst_ that are not journals
-- 
2.43.0


From 8fe9d33fdc1960caa9ba128d38c9c11b7bda4879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:34 +0000
Subject: [PATCH 002/109] fix: Scopus citations without a volume keep their
 pages

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index d314f42..51c24bf 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -60,7 +60,7 @@ class Citation(collections.abc.Hashable):
     """
     wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?))")
 
-    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
+    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, (?!P?P\. )([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
 
     #(.*?, )?[^,(]*\((\d{2,5}\))[^,]*(, [^,(]*( \(\d+\))?)?(, (p?p\. .*))?")
-- 
2.43.0


From 1defa027a44af7d18981ad4e058dc31759931031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:03 +0000
Subject: [PATCH 003/109] fix: node and edge access works with networkx 2 and
 later

---
 metaknowledge/diffusion.py       | 18 +++++-----
 metaknowledge/grantCollection.py |  6 ++--
 metaknowledge/graphHelpers.py    |  6 ++--
 metaknowledge/mkCollection.py    | 58 ++++++++++++++++----------------
 4 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 92f9bb4..5230830 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -105,7 +105,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                     if val not in workingGraph:
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
-                        workingGraph.node[val]["target"] = True
+                        workingGraph.nodes[val]["target"] = True
                     targetCites = Rt.get('CR')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
@@ -120,7 +120,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                                                         break
                                             else:
                                                 attrDict = {'key' : edgeVal, 'weight' : 1}
-                                                workingGraph.add_edge(sVal, val, attr_dict = attrDict)
+                                                workingGraph.add_edge(sVal, val, **attrDict)
                                         else:
                                             if not workingGraph.has_edge(sVal, val, key = edgeVal):
                                                 workingGraph.add_edge(sVal, val, key = edgeVal)
@@ -419,24 +419,24 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         except StopIteration:
             pass
         count = 0
-        for n in grph.nodes_iter():
+        for n in grph.nodes():
             PBar.updateVal(.5 + .5 * (count / len(grph)), "Adding count for '{}'".format(n))
             if extraType is not None:
                 if extraKeys:
                     for key in extraKeys:
-                        grph.node[n][key] = 0
-                grph.node[n][diffusionLabel] = 0
+                        grph.nodes[n][key] = 0
+                grph.nodes[n][diffusionLabel] = 0
                 try:
                     for k, v in countsDict[n].items():
                         if k == 'TargetCount':
-                            grph.node[n][diffusionLabel] = v
+                            grph.nodes[n][diffusionLabel] = v
                         else:
                             if k:
-                                grph.node[n][k] = v
+                                grph.nodes[n][k] = v
                 except KeyError:
-                    grph.node[n][diffusionLabel] = 0
+                    grph.nodes[n][diffusionLabel] = 0
             else:
-                grph.node[n][diffusionLabel] = countsDict.get(n, 0)
+                grph.nodes[n][diffusionLabel] = countsDict.get(n, 0)
             count += 1
         PBar.finish("Done adding diffusion counts to a graph")
     return countsDict
diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 54fc347..8428c87 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -198,7 +198,7 @@ class GrantCollection(CollectionWithIDs):
                             else:
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
-                            grph.node[invest1[0]]['count'] += 1
+                            grph.nodes[invest1[0]]['count'] += 1
                         for invest2 in investList[i + 1:]:
                             if invest2[0] not in grph:
                                 if count:
@@ -206,7 +206,7 @@ class GrantCollection(CollectionWithIDs):
                                 else:
                                     grph.add_node(invest2[0], field = invest2[1])
                             elif count:
-                                grph.node[invest2[0]]['count'] += 1
+                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
@@ -221,7 +221,7 @@ class GrantCollection(CollectionWithIDs):
                         else:
                             grph.add_node(invest1[0], field = invest1[1])
                     elif count:
-                        grph.node[invest1[0]]['count'] += 1
+                        grph.nodes[invest1[0]]['count'] += 1
             if _institutionLevel:
                 PBar.finish("Done making a co-institution network from {}".format(self))
             else:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3eb5389..9db19bb 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -439,9 +439,9 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                 else:
                     eTimeString = ''
                 if weighted:
-                    f.write("{}{} {} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString], eDict[weightString]))
+                    f.write("{}{} {} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString], eDict[weightString]))
                 else:
-                    f.write("{}{} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString]))
+                    f.write("{}{} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString]))
         PBar.finish("Done writing tnet file '{}'".format(name))
 
 def getWeight(grph, nd1, nd2, weightString = "weight", returnType = int):
@@ -715,7 +715,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     for addedNode, attribs in addedGraph.nodes(data = True):
         if incrementedNodeVal:
             try:
-                targetGraph.node[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
+                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
                 targetGraph.add_node(addedNode, **attribs)
         else:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index a9afbbe..3c80257 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -907,21 +907,21 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                                 if nodeCount:
                                     try:
-                                        grph.node[node1]['count'] += 1
+                                        grph.nodes[node1]['count'] += 1
                                     except KeyError:
-                                        grph.node[node1]['count'] = 1
+                                        grph.nodes[node1]['count'] = 1
                                 if nodeAttribute:
                                     try:
-                                        currentAttrib = grph.node[node1][nodeAttribute]
+                                        currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.node[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = nodeVals
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                            grph.node[node1][nodeAttribute].append(nodeValue)
+                                            grph.nodes[node1][nodeAttribute].append(nodeValue)
                         elif len(tmplst) == 1:
                             if nodeCount:
                                 try:
-                                    grph.node[tmplst[0]]['count'] += 1
+                                    grph.nodes[tmplst[0]]['count'] += 1
                                 except KeyError:
                                     grph.add_node(tmplst[0], count = 1)
                             else:
@@ -929,12 +929,12 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(tmplst[0])
                             if nodeAttribute:
                                 try:
-                                    currentAttrib = grph.node[tmplst[0]][nodeAttribute]
+                                    currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.node[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                        grph.node[tmplst[0]][nodeAttribute].append(nodeValue)
+                                        grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
                         else:
                             pass
                     else:
@@ -944,7 +944,7 @@ class CollectionWithIDs(Collection):
                             nodeVal = str(contents)
                         if nodeCount:
                             try:
-                                grph.node[nodeVal]['count'] += 1
+                                grph.nodes[nodeVal]['count'] += 1
                             except KeyError:
                                 grph.add_node(nodeVal, count = 1)
                         else:
@@ -952,12 +952,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_node(nodeVal)
                         if nodeAttribute:
                             try:
-                                currentAttrib = grph.node[nodeVal][nodeAttribute]
+                                currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.node[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                    grph.node[nodeVal][nodeAttribute].append(nodeValue)
+                                    grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
             if PBar:
                 PBar.finish("Done making a {} from {}".format(_networkTypeString, modes))
         return grph
@@ -1127,12 +1127,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_edge(node1, node2)
                     if nodeCount:
                         try:
-                            grph.node[node1]['count'] += 1
+                            grph.nodes[node1]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node1]['count'] = 1
+                                grph.nodes[node1]['count'] = 1
                                 if recordType:
-                                    grph.node[node1]['type'] = tag1
+                                    grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
                                     grph.add_node(node1, type = tag1)
@@ -1145,22 +1145,22 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node1)
                         elif recordType:
-                            if 'type' not in grph.node[node1]:
-                                grph.node[node1]['type'] = tag1
+                            if 'type' not in grph.nodes[node1]:
+                                grph.nodes[node1]['type'] = tag1
 
                 for node2 in contents2:
                     if nodeCount:
                         try:
-                            grph.node[node2]['count'] += 1
+                            grph.nodes[node2]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node2]['count'] = 1
+                                grph.nodes[node2]['count'] = 1
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                             except KeyError:
                                 grph.add_node(node2, count = 1)
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                     else:
                         if not grph.has_node(node2):
                             if recordType:
@@ -1168,8 +1168,8 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node2)
                         elif recordType:
-                            if 'type' not in grph.node[node2]:
-                                grph.node[node2]['type'] = tag2
+                            if 'type' not in grph.nodes[node2]:
+                                grph.nodes[node2]['type'] = tag2
             if PBar:
                 PBar.finish("Done making a two mode network of " + tag1 + " and " + tag2)
         return grph
@@ -1281,12 +1281,12 @@ class CollectionWithIDs(Collection):
                                         grph.add_edge(node1, node2)
                         if nodeCount:
                             try:
-                                grph.node[node1]['count'] += 1
+                                grph.nodes[node1]['count'] += 1
                             except KeyError:
                                 try:
-                                    grph.node[node1]['count'] = 1
+                                    grph.nodes[node1]['count'] = 1
                                     if recordType:
-                                        grph.node[node1]['type'] = vlst1[0]
+                                        grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
                                         grph.add_node(node1, type = vlst1[0])
@@ -1300,9 +1300,9 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                             elif recordType:
                                 try:
-                                    grph.node[node1]['type'] += vlst1[0]
+                                    grph.nodes[node1]['type'] += vlst1[0]
                                 except KeyError:
-                                    grph.node[node1]['type'] = vlst1[0]
+                                    grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
         return grph
-- 
2.43.0


From e2e535d5be8dc5392ce97b58670f476e93c992f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:24 +0000
Subject: [PATCH 004/109] fix: co-author and co-investigator networks count
 each occurrence of a name once

---
 metaknowledge/grantCollection.py  |  8 +-------
 metaknowledge/recordCollection.py | 11 +----------
 2 files changed, 2 insertions(+), 17 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 8428c87..9c86ac9 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -199,14 +199,8 @@ class GrantCollection(CollectionWithIDs):
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
                             grph.nodes[invest1[0]]['count'] += 1
+                    for i, invest1 in enumerate(investList):
                         for invest2 in investList[i + 1:]:
-                            if invest2[0] not in grph:
-                                if count:
-                                    grph.add_node(invest2[0], count = 1, field = invest2[1])
-                                else:
-                                    grph.add_node(invest2[0], field = invest2[1])
-                            elif count:
-                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index af0e417..7398a73 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1037,17 +1037,8 @@ class RecordCollection(CollectionWithIDs):
                                     grph.nodes[auth1]['citeProfile'][c] += 1
                                 except KeyError:
                                     grph.nodes[auth1]['citeProfile'][c] = 1
+                    for i, auth1 in enumerate(authsList):
                         for auth2 in authsList[i + 1:]:
-                            if auth2 not in grph:
-                                grph.add_node(auth2, **detailedInfo.copy())
-                            elif count:
-                                grph.nodes[auth2]['count'] += 1
-                            if citeProfile:
-                                for c in citesLst:
-                                    try:
-                                        grph.nodes[auth2]['citeProfile'][c] += 1
-                                    except KeyError:
-                                        grph.nodes[auth2]['citeProfile'][c] = 1
                             if grph.has_edge(auth1, auth2) and weighted:
                                 grph.edges[auth1, auth2]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From 8c19387a6a7d61cfa994d795894dfdd186d4d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:24 +0000
Subject: [PATCH 005/109] fix: co-authors no longer share one citation profile

---
 metaknowledge/recordCollection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 7398a73..2d9250f 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1023,12 +1023,11 @@ class RecordCollection(CollectionWithIDs):
                     authsList = R.get('authorsFull', [])
                 if authsList:
                     authsList = list(authsList)
-                    detailedInfo = attributeMaker(R)
                     if citeProfile:
                         citesLst = R.get('citations', [])
                     for i, auth1 in enumerate(authsList):
                         if auth1 not in grph:
-                            grph.add_node(auth1, **detailedInfo.copy())
+                            grph.add_node(auth1, **attributeMaker(R))
                         elif count:
                             grph.nodes[auth1]['count'] += 1
                         if citeProfile:
-- 
2.43.0


From 8eea9ba9de3b5c2a27a862d4501ead9e193872c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:24 +0000
Subject: [PATCH 006/109] fix: localCitesOf accepts a Record

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 2d9250f..dee9dca 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1464,7 +1464,7 @@ class RecordCollection(CollectionWithIDs):
         localCites = []
         if isinstance(rec, Record):
             recCite = rec.createCitation()
-        if isinstance(rec, str):
+        elif isinstance(rec, str):
             try:
                 recCite = self.getID(rec)
             except ValueError:
-- 
2.43.0


From a9ad281d9fba5c3ed9b25d006d61403bf5d54504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:48 +0000
Subject: [PATCH 007/109] fix: localCitesOf accepts a citation string

---
 metaknowledge/recordCollection.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index dee9dca..b01337c 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1465,18 +1465,11 @@ class RecordCollection(CollectionWithIDs):
         if isinstance(rec, Record):
             recCite = rec.createCitation()
         elif isinstance(rec, str):
-            try:
-                recCite = self.getID(rec)
-            except ValueError:
-                try:
-                    recCite = Citation(rec)
-                except AttributeError:
-                    raise ValueError("{} is not a valid WOS string or a valid citation string".format(recCite))
+            citedRec = self.getID(rec)
+            if citedRec is None:
+                recCite = Citation(rec)
             else:
-                if recCite is None:
-                    return RecordCollection(inCollection = localCites, name = "Records_citing_{}".format(rec), quietStart = True)
-                else:
-                    recCite = recCite.createCitation()
+                recCite = citedRec.createCitation()
         elif isinstance(rec, Citation):
             recCite = rec
         else:
-- 
2.43.0


From e4c95c7fb628893e33172457475d84d20d739ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:31 +0000
Subject: [PATCH 008/109] fix: unweighted and author, journal or year citation
 networks have their edges in the requested direction

---
 metaknowledge/recordCollection.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index b01337c..ab8e330 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1652,8 +1652,10 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                             grph.add_edge(hID, nID, weight=1, yearDiff=yearDiff)
                         else:
                             grph.add_edge(nID, hID, weight=1, yearDiff=yearDiff)
-                elif nID not in grph[hID]:
+                elif recordToCite:
                     addedEdges.append((hID, nID))
+                else:
+                    addedEdges.append((nID, hID))
 
             elif weighted:
                 try:
@@ -1665,9 +1667,11 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                     if recordToCite:
                         grph.add_edge(hID, nID, weight=1)
                     else:
-                        grph.add_edge(hID, nID, weight=1)
-            elif nID not in grph[hID]:
-                addedEdges.append((hID, nID, {yearDiff: yearDiff}))
+                        grph.add_edge(nID, hID, weight=1)
+            elif recordToCite:
+                addedEdges.append((hID, nID))
+            else:
+                addedEdges.append((nID, hID))
     elif len(idList) > 1:
         for i, outerID in enumerate(idList):
             for innerID in idList[i + 1:]:
-- 
2.43.0


From af08baa0bfac7d9a8c222ca30003d725802a3a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:31 +0000
Subject: [PATCH 009/109] fix: edge attributes of one mode, n-level and n-mode
 networks

---
 metaknowledge/mkCollection.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 3c80257..aa8dd64 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -862,9 +862,15 @@ class CollectionWithIDs(Collection):
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
                 if edgeAttribute:
-                    edgeVals = [str(v) for v in R.get(edgeAttribute, [])]
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
+                    edgeVals = [str(v) for v in edgeVals]
                 if nodeAttribute:
-                    nodeVals = [str(v) for v in R.get(nodeAttribute, [])]
+                    nodeVals = R.get(nodeAttribute, [])
+                    if not isinstance(nodeVals, list):
+                        nodeVals = [nodeVals]
+                    nodeVals = [str(v) for v in nodeVals]
                 contents = []
                 for attr in modes:
                     tmpContents = R.get(attr, [])
@@ -885,10 +891,7 @@ class CollectionWithIDs(Collection):
                                         for edgeVal in edgeVals:
                                             if grph.has_edge(node1, node2, key = edgeVal):
                                                 if edgeWeight:
-                                                    for i, a in grph.edges[node1, node2].items():
-                                                        if a['key'] == edgeVal:
-                                                            grph[node1][node2][i]['weight'] += 1
-                                                            break
+                                                    grph[node1][node2][edgeVal]['weight'] += 1
                                             else:
                                                 if edgeWeight:
                                                     attrDict = {'key' : edgeVal, 'weight' : 1}
@@ -1238,6 +1241,11 @@ class CollectionWithIDs(Collection):
                 if PBar:
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
+                if edgeAttribute is not None:
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
+                    edgeVals = [str(v) for v in edgeVals]
                 contents = []
                 for t in tags:
                     tmpVal = R.get(t)
@@ -1261,10 +1269,7 @@ class CollectionWithIDs(Collection):
                                     for edgeVal in edgeVals:
                                         if grph.has_edge(node1, node2, key = edgeVal):
                                             if edgeWeight:
-                                                for i, a in grph.edges[node1, node2].items():
-                                                    if a['key'] == edgeVal:
-                                                        grph[node1][node2][i]['weight'] += 1
-                                                        break
+                                                grph[node1][node2][edgeVal]['weight'] += 1
                                         else:
                                             if edgeWeight:
                                                 attrDict = {'key' : edgeVal, 'weight' : 1}
-- 
2.43.0


From dd0662e97fdadfee7fc547cf8998df149a877a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:31 +0000
Subject: [PATCH 010/109] fix: nodes of one record no longer share one
 attribute list

---
 metaknowledge/mkCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index aa8dd64..ef298f2 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -917,7 +917,7 @@ class CollectionWithIDs(Collection):
                                     try:
                                         currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.nodes[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = list(nodeVals)
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                             grph.nodes[node1][nodeAttribute].append(nodeValue)
@@ -934,7 +934,7 @@ class CollectionWithIDs(Collection):
                                 try:
                                     currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = list(nodeVals)
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                         grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
@@ -957,7 +957,7 @@ class CollectionWithIDs(Collection):
                             try:
                                 currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = list(nodeVals)
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                     grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
-- 
2.43.0


From cc4b75b478b554699ac8ef30e663bfee584c6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:31 +0000
Subject: [PATCH 011/109] fix: nodes without neighbours are counted in two mode
 and n-mode networks

---
 metaknowledge/mkCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index ef298f2..9ea0e90 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1138,9 +1138,9 @@ class CollectionWithIDs(Collection):
                                     grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
-                                    grph.add_node(node1, type = tag1)
+                                    grph.add_node(node1, type = tag1, count = 1)
                                 else:
-                                    grph.add_node(node1)
+                                    grph.add_node(node1, count = 1)
                     else:
                         if not grph.has_node(node1):
                             if recordType:
@@ -1294,9 +1294,9 @@ class CollectionWithIDs(Collection):
                                         grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
-                                        grph.add_node(node1, type = vlst1[0])
+                                        grph.add_node(node1, type = vlst1[0], count = 1)
                                     else:
-                                        grph.add_node(node1)
+                                        grph.add_node(node1, count = 1)
                         else:
                             if not grph.has_node(node1):
                                 if recordType:
-- 
2.43.0


From 6f7f6b12c78276285c3a94389fcb66a404695b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:46 +0000
Subject: [PATCH 012/109] fix: n-mode networks give each type of a node once

---
 metaknowledge/mkCollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 9ea0e90..5da300c 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1305,7 +1305,8 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                             elif recordType:
                                 try:
-                                    grph.nodes[node1]['type'] += vlst1[0]
+                                    if vlst1[0] not in grph.nodes[node1]['type']:
+                                        grph.nodes[node1]['type'] += vlst1[0]
                                 except KeyError:
                                     grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
-- 
2.43.0


From 8d337e39842b5085408cd0cbde3b9a388a4e1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 013/109] fix: mergeGraphs keeps the target's attributes and
 merges without counts or weights

---
 metaknowledge/graphHelpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 9db19bb..b36b099 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -717,6 +717,8 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             try:
                 targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
+                if targetGraph.has_node(addedNode):
+                    attribs = dict(attribs, **targetGraph.nodes[addedNode])
                 targetGraph.add_node(addedNode, **attribs)
         else:
             if not targetGraph.has_node(addedNode):
@@ -726,9 +728,11 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             try:
                 targetGraph.edges[edgeNode1, edgeNode2][incrementedEdgeVal] += attribs[incrementedEdgeVal]
             except KeyError:
+                if targetGraph.has_edge(edgeNode1, edgeNode2):
+                    attribs = dict(attribs, **targetGraph.edges[edgeNode1, edgeNode2])
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
         else:
-            if not targetGraph.Graph.has_edge(edgeNode1, edgeNode2):
+            if not targetGraph.has_edge(edgeNode1, edgeNode2):
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
-- 
2.43.0


From 6f4fc692f07d683089fd97b37b5d2d7fa7042277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 014/109] fix: edge lists can be written without the edges'
 attributes

---
 metaknowledge/graphHelpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index b36b099..120d688 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -253,8 +253,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 count += 1
                 if count % 1000 == 0:
                     PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
-                eDict['Source'] = e[0]
-                eDict['Target'] = e[1]
+                eDict = {'Source' : e[0], 'Target' : e[1]}
                 try:
                     outFile.writerow(eDict)
                 except UnicodeEncodeError:
-- 
2.43.0


From 8a15f099a17c28c788b3e4158dc0a526ec687500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 015/109] fix: allSameAttribute works and reports missing
 attributes

---
 metaknowledge/graphHelpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 120d688..f61b589 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -213,7 +213,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
         if extraInfo:
             csvHeader = []
             if allSameAttribute:
-                csvHeader = ['Source'] +  ['Target'] + list(grph.edges(data = True).__next__()[2].keys())
+                csvHeader = ['Source'] +  ['Target'] + list(next(iter(grph.edges(data = True)))[2].keys())
             else:
                 extraAttribs = set()
                 for eTuple in grph.edges(data = True):
@@ -240,6 +240,8 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 eDict = e[2].copy()
                 eDict['Source'] = e[0]
                 eDict['Target'] = e[1]
+                if allSameAttribute and len(eDict) < len(csvHeader):
+                    raise ValueError("Some edges in The graph do not have the same attributes")
                 try:
                     outFile.writerow(eDict)
                 except UnicodeEncodeError:
@@ -304,7 +306,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     else:
         csvHeader = []
         if allSameAttribute:
-            csvHeader = ['ID'] + list(grph.nodes(data = True).__next__()[1].keys())
+            csvHeader = ['ID'] + list(next(iter(grph.nodes(data = True)))[1].keys())
         else:
             extraAttribs = set()
             for n, attribs in grph.nodes(data = True):
@@ -327,6 +329,8 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
                 PBar.updateVal(count / nMax * .90 + .10, "Writing node: '{}'".format(n[0]))
             nDict = n[1].copy()
             nDict['ID'] = n[0]
+            if allSameAttribute and len(nDict) < len(csvHeader):
+                raise ValueError("Some nodes in the graph do not have the same attributes")
             try:
                 outFile.writerow(nDict)
             except UnicodeEncodeError:
-- 
2.43.0


From 7b3800c28bf2c79680a8d1fb1e05a435ff11871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 016/109] fix: Citation.Extra works for Scopus citations

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 51c24bf..adfcf19 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -253,7 +253,7 @@ class Citation(collections.abc.Hashable):
         extraTags = ['V', 'P', 'DOI', 'misc']
         retVal = ""
         for tag in extraTags:
-            if getattr(self, tag):
+            if getattr(self, tag, None):
                 retVal += getattr(self, tag) + ', '
         if len(retVal) > 2:
             return retVal[:-2]
-- 
2.43.0


From ce426e491c744624af486241c6924e018056508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 017/109] fix: citations that could not be parsed no longer
 break counts and networks of authors, journals or years

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ab8e330..317f34e 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1427,7 +1427,7 @@ class RecordCollection(CollectionWithIDs):
                         if keyType == keyTypesLst[0]:
                             cVal = c
                         else:
-                            cVal = getattr(c, keyType)
+                            cVal = getattr(c, keyType, None)
                             if cVal is None:
                                 continue
                         if cVal in citesDict:
@@ -1750,7 +1750,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
 def filterCites(cites, nodeType, dropAnon, dropNonJournals, keyWords, coreCites):
     filteredCites = []
     for c in cites:
-        if nodeType != "full" and hasattr(c, nodeType) and not getattr(c, nodeType):
+        if nodeType != "full" and not getattr(c, nodeType, None):
             pass
         elif dropNonJournals and not c.isJournal():
             pass
-- 
2.43.0


From 50826ee978bc492203b259ebf9499624fa82e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 018/109] fix: the counts of a citation network do not depend
 on the order of the records

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 317f34e..bc4499b 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1610,6 +1610,8 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         if hID not in grph:
             nodeName, nodeDat = makeNodeTuple(headNd, hID, nodeInfo, fullInfo, nodeType, count, coreCitesDict, coreValues, detailedValues, addCR)
             grph.add_node(nodeName, **nodeDat)
+        elif count:
+            grph.nodes[hID]['count'] += 1
     else:
         hID = None
     idList = []
-- 
2.43.0


From aadd8fbe44e73cc6de9b71390c8c117de54a9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:35 +0000
Subject: [PATCH 019/109] fix: fields without a processing rule of Medline and
 Scopus records can be read

---
 metaknowledge/medline/recordMedline.py | 2 +-
 metaknowledge/scopus/recordScopus.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index ca077af..1213177 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -56,7 +56,7 @@ class MedlineRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return medlineTagToFunc[tag]
+        return medlineTagToFunc.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         #This will usually raise a key error that needs to be caught higher up
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index a349075..11d3656 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -93,7 +93,7 @@ class ScopusRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return scopusTagToFunction[tag]
+        return scopusTagToFunction.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         return scopusSpecialTagToFunc[key](self)
-- 
2.43.0


From 64a3fea0d9ba71ee9e4f9e0c1112136a56836b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:35 +0000
Subject: [PATCH 020/109] fix: ProQuest records give their author as a list of
 names

---
 metaknowledge/proquest/tagProcessing/specialFunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index b694d22..84f90b9 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -1,6 +1,6 @@
 proQuestSpecialTagToFunc = {
     #'DOI' : lambda R : None,
-    'authorsShort' : lambda R : R['Author'],
+    'authorsShort' : lambda R : [R['Author']],
     #'grants' : lambda R : [],
     #'address' : '',
     'selfCitation' : lambda R: R.createCitation(),
@@ -8,7 +8,7 @@ proQuestSpecialTagToFunc = {
     'keywords' : lambda R : R['Identifier / keyword'],
     'abstract' : lambda R : R['Abstract'],
     #'citations' : '',
-    'authorsFull' : lambda R : 'Author',
+    'authorsFull' : lambda R : [R['Author']],
     #'volume' : '',
     'year' : lambda R : R['Degree date'],
     #'j9' : '',
-- 
2.43.0


From 0c5ed4f2be1389bafe623de422775e8386db7a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:35 +0000
Subject: [PATCH 021/109] fix: tagToFull raises a KeyError for unknown tags

---
 metaknowledge/WOS/tagProcessing/funcDicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/tagProcessing/funcDicts.py b/metaknowledge/WOS/tagProcessing/funcDicts.py
index 740dbf7..af7f4ef 100644
--- a/metaknowledge/WOS/tagProcessing/funcDicts.py
+++ b/metaknowledge/WOS/tagProcessing/funcDicts.py
@@ -35,7 +35,7 @@ def tagToFull(tag):
     try:
         return tagToFullDict[tag]
     except KeyError:
-        raise("Tag not in list of known tags")
+        raise KeyError("Tag not in list of known tags")
 
 
 def normalizeToTag(val):
-- 
2.43.0


From 55a0c77cf9244b9c126622b7b176df20e18a3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:35 +0000
Subject: [PATCH 022/109] fix: copies of records do not share their raw values

---
 metaknowledge/mkRecord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 5a2b314..345880c 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -209,7 +209,7 @@ class Record(collections.abc.Mapping, collections.abc.Hashable):
         > A completely decoupled copy of the original
         """
         c = copy.copy(self)
-        c._fieldDict = c._fieldDict.copy()
+        c._fieldDict = copy.deepcopy(c._fieldDict)
         return c
 
     #Making these immutable
-- 
2.43.0


From 8ea08f4f1628e7d023987a0dc9264f10757526e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:37 +0000
Subject: [PATCH 023/109] fix: citations of each author of a Scopus record
 separate author and title

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 11d3656..5ce4855 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -142,7 +142,7 @@ class ScopusRecord(ExtendedRecord):
         if self.get("beginningPage", False):
             valsStr += 'PP. ' + str(self.get('beginningPage'))
         if multiCite and len(auths) > 0:
-            ret = (tuple((Citation(a + valsStr, scopusMode = True) for a in auths)))
+            ret = (tuple((Citation(a + ', ' + valsStr, scopusMode = True) for a in auths)))
         elif multiCite:
             ret = Citation(valsStr, scopusMode = True),
         else:
-- 
2.43.0


From f191ab621de5ecfcd33f6419c735e481f8170f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:19 +0000
Subject: [PATCH 024/109] fix: the year of ProQuest records is a number like
 that of other records

---
 metaknowledge/proquest/tagProcessing/specialFunctions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index 84f90b9..52a49ec 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -1,3 +1,10 @@
+def year(R):
+    """Returns the year of the degree as an `int`, like the other types of Record do"""
+    try:
+        return int(R['Degree date'])
+    except ValueError:
+        raise KeyError("Unable to extract a year")
+
 proQuestSpecialTagToFunc = {
     #'DOI' : lambda R : None,
     'authorsShort' : lambda R : [R['Author']],
@@ -10,7 +17,7 @@ proQuestSpecialTagToFunc = {
     #'citations' : '',
     'authorsFull' : lambda R : [R['Author']],
     #'volume' : '',
-    'year' : lambda R : R['Degree date'],
+    'year' : year,
     #'j9' : '',
     #'journal' : '',
     'title' : lambda R : R['Title'],
-- 
2.43.0


From 04b02e1a32a71f14ece89bd0d30aec74a7290b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:56 +0000
Subject: [PATCH 025/109] fix: writeFile writes the header the records in the
 collection need

---
 metaknowledge/recordCollection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index bc4499b..7ce640b 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -222,7 +222,8 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `None`, if given the output file will written to _fanme_, if `None` the `RecordCollection`'s name's first 200 characters are used with the suffix .isi
         """
-        if len(self._collectedTypes) < 2:
+        collectedTypes = {type(R).__name__ for R in self._collection}
+        if len(collectedTypes) == 1:
             recEncoding = self.peek().encoding()
         else:
             recEncoding = 'utf-8'
@@ -230,17 +231,17 @@ class RecordCollection(CollectionWithIDs):
             f = open(fname, mode = 'w', encoding = recEncoding)
         else:
             f = open(self.name[:200] + '.txt', mode = 'w', encoding = recEncoding)
-        if self._collectedTypes == {'WOSRecord'}:
+        if collectedTypes == {'WOSRecord'}:
             f.write("\ufeffFN Thomson Reuters Web of Science\u2122\n")
             f.write("VR 1.0\n")
-        elif self._collectedTypes == {'MedlineRecord'}:
+        elif collectedTypes == {'MedlineRecord'}:
             f.write('\n')
-        elif self._collectedTypes == {'ScopusRecord'}:
+        elif collectedTypes == {'ScopusRecord'}:
             f.write("\ufeff{}\n".format(','.join(scopusHeader)))
         for R in self._collection:
             R.writeRecord(f)
             f.write('\n')
-        if self._collectedTypes == {'WOSRecord'}:
+        if collectedTypes == {'WOSRecord'}:
             f.write('EF')
         f.close()
 
-- 
2.43.0


From be841e0c9b2e2e41b5600d44a32aca6a918f43f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:10 +0000
Subject: [PATCH 026/109] fix: collections made from an iterator keep its
 entries

---
 metaknowledge/grantCollection.py  | 1 +
 metaknowledge/recordCollection.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 9c86ac9..f8b1cc7 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -123,6 +123,7 @@ class GrantCollection(CollectionWithIDs):
                 PBar.updateVal(.5, "GrantCollection started from {}".format(type(inGrants).__name__))
                 if not name:
                     name = "Grants-from-a-{}".format(type(inGrants).__name__)
+                inGrants = list(inGrants)
                 for G in inGrants:
                     if not isinstance(G, Grant):
                         raise GrantCollectionException("A GrantCollection cannot be created from a Iterable containing {}".format(G))
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 7ce640b..10a897b 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -151,6 +151,7 @@ class RecordCollection(CollectionWithIDs):
                     raise RCTypeError("'{}' is not a path to a directory or file. Strings cannot be used to initialize RecordCollections".format(inCollection))
             elif isinstance(inCollection, collections.abc.Iterable):
                 PBar.updateVal(.5, "RecordCollection from an iterable started")
+                inCollection = list(inCollection)
                 for R in inCollection:
                     if not isinstance(R, Record):
                         raise RCTypeError("RecordCollections can only contain Records, '{}' is not a valid part of an input iterable.".format(R))
-- 
2.43.0


From 23181c4aa96d4d5ba4208e751eb50672a967908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:10 +0000
Subject: [PATCH 027/109] fix: Scopus fields that begin with a comma, a dollar
 sign or a vertical bar are read correctly

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 5ce4855..05cc6d0 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -164,7 +164,7 @@ class ScopusRecord(ExtendedRecord):
             return ret
 
 firstQuotingRegex = re.compile(r'("")*"([^"]|"$)')
-innerQuotingRegex = re.compile(r'("")*"([^"|$])')
+innerQuotingRegex = re.compile(r'("")*"([^"]|$)')
 
 def scopusRecordParser(record, header = None):
     """The parser [ScopusRecords](../classes/ScopusRecord.html#metaknowledge.scopus.ScopusRecord) use. This takes a line from [scopusParser()](#metaknowledge.scopus.scopusHandlers.scopusParser) and parses it as a part of the creation of a `ScopusRecord`.
-- 
2.43.0


From 4f867448fa57b52e211b0661727d979f441081c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:47 +0000
Subject: [PATCH 028/109] fix: the last row of a Scopus file does not need a
 newline to be read completely

---
 metaknowledge/scopus/recordScopus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 05cc6d0..fe23815 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -185,7 +185,9 @@ def scopusRecordParser(record, header = None):
     """
     if header is None:
         header = scopusHeader
-    splitRecord = record[:-1].split(',')
+    if record.endswith('\n'):
+        record = record[:-1]
+    splitRecord = record.split(',')
     tagDict = {}
     quoted = False
     for key in reversed(header):
-- 
2.43.0


From 4e9cb9a1cd823ed02dedbc455194866c87c1d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:47 +0000
Subject: [PATCH 029/109] fix: Scopus files with their columns in another order
 are read by their header

---
 metaknowledge/scopus/scopusHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/scopusHandlers.py b/metaknowledge/scopus/scopusHandlers.py
index 6cc1077..d778c7b 100644
--- a/metaknowledge/scopus/scopusHandlers.py
+++ b/metaknowledge/scopus/scopusHandlers.py
@@ -69,7 +69,7 @@ def scopusParser(scopusFile):
             #Get rid of the BOM
             openfile.read(1)
             header = openfile.readline()[:-1].split(',')
-            if len(set(header) ^ set(scopusHeader)) == 0:
+            if header == scopusHeader:
                 header = None
             lineNum = 0
             try:
-- 
2.43.0


From 45524968fe385eab2c99e18474457a5e573de626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:47 +0000
Subject: [PATCH 030/109] fix: affiliations given before the first author are
 written to Medline files

---
 metaknowledge/medline/recordMedline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 1213177..b08b322 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -79,7 +79,11 @@ class MedlineRecord(ExtendedRecord):
                         authTags[split[0]] = ["{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)),' : '.join(split[1:]).replace('\n', '\n      '))]
             for tag, value in self._fieldDict.items():
                 if tag in authorBasedTags:
-                    continue
+                    #Values from before the first author are not written with an author
+                    for v in value:
+                        split = v.split(' : ')
+                        if split[0] not in self._fieldDict.get('AU', []):
+                            f.write("{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)), ' : '.join(split[1:]).replace('\n', '\n      ')))
                 else:
                     for v in value:
                         f.write("{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)), v.replace('\n', '\n      ')))
-- 
2.43.0


From 98e8592846c406fa2bcb7b52aebd31ed2dfdfd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:26 +0000
Subject: [PATCH 031/109] fix: bad records keep the error that made them bad

---
 metaknowledge/WOS/recordWOS.py           | 7 ++++---
 metaknowledge/medline/recordMedline.py   | 7 ++++---
 metaknowledge/proquest/recordProQuest.py | 7 ++++---
 metaknowledge/scopus/recordScopus.py     | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index a26acf3..0697285 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -78,8 +78,8 @@ class WOSRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', WOSRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadWOSRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'UT' in fieldDict:
@@ -87,7 +87,8 @@ class WOSRecord(ExtendedRecord):
             else:
                 self._wosNum = 'WOS:Missing'
                 bad = True
-                error = BadWOSRecord("Missing WOS number")
+                if error is None:
+                    error = BadWOSRecord("Missing WOS number")
         ExtendedRecord.__init__(self, fieldDict, self._wosNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index b08b322..6240adc 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -35,8 +35,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', PubmedRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadPubmedRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'PMID' in fieldDict:
@@ -44,7 +44,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 self._pubNum = None
                 bad = True
-                error = BadPubmedRecord("Missing PMID")
+                if error is None:
+                    error = BadPubmedRecord("Missing PMID")
         ExtendedRecord.__init__(self, fieldDict, self._pubNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index e983fe3..adf31d0 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -36,15 +36,16 @@ class ProQuestRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', ProQuestRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadProQuestRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         try:
             self._proID = "PROQUEST:{}".format(fieldDict["ProQuest document ID"][0])
         except KeyError:
             self._proID = "PROQUEST:MISSING"
             bad = True
-            error = BadProQuestRecord("Missing ProQuest document ID")
+            if error is None:
+                error = BadProQuestRecord("Missing ProQuest document ID")
         ExtendedRecord.__init__(self, fieldDict, self._proID, bad, error, sFile =sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index fe23815..0627ef7 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -72,8 +72,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', ScopusRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except (BadScopusRecord, IndexError) as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'EID' in fieldDict:
@@ -81,7 +81,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 self._scopusNum = None
                 bad = True
-                error = BadScopusRecord("Missing EID")
+                if error is None:
+                    error = BadScopusRecord("Missing EID")
         ExtendedRecord.__init__(self, fieldDict, self._scopusNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
-- 
2.43.0


From 2712ac11591608f7983e9d81c922831cc96a172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:26 +0000
Subject: [PATCH 032/109] fix: a WOS record that starts with a continuation
 line does not hide the rest of its file

---
 metaknowledge/WOS/recordWOS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index 0697285..55d1f26 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -184,6 +184,8 @@ def recordParser(paper):
             raise BadWOSFile("Field tag not formed correctly on line " + str(l[0]) + " : " + l[1])
         elif '   ' in l[1][:3]: #the string is three spaces in row
             #No new tag append line to current tag (last tag in tagList)
+            if len(tagList) == 0:
+                raise BadWOSRecord("Record does not start with a field tag on line {} : {}".format(l[0], l[1]))
             tagList[-1][1].append(l[1][3:-1])
         else:
             #New tag create new entry at the end of tagList
-- 
2.43.0


From 13606b611d60f001119f802b686b9722e5de6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:26 +0000
Subject: [PATCH 033/109] fix: records of a WOS file that cannot be parsed are
 reported

---
 metaknowledge/WOS/wosHandlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 69c7da5..1452d75 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -73,6 +73,7 @@ def wosParser(isifile):
                     try:
                         plst.add(WOSRecord(itertools.chain([line], f), sFile = isifile, sLine = line[0]))
                     except BadWOSFile as e:
+                        error = e
                         try:
                             s = f.__next__()[1]
                             while s[:2] != 'ER':
-- 
2.43.0


From a4465192276a2b69bd06f017e30e30a3eeb9a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:26 +0000
Subject: [PATCH 034/109] fix: short lines in Medline files make their record
 bad, instead of raising an IndexError

---
 metaknowledge/medline/recordMedline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 6240adc..db16674 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -113,7 +113,7 @@ def medlineRecordParser(record):
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
         contents = line[6:-1]
-        if tmptag.isalpha() and line[4] == '-':
+        if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
                 mostRecentAuthor = contents
-- 
2.43.0


From 69fbee6871926d66449ec7724caa74862bb6b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:26 +0000
Subject: [PATCH 035/109] fix: malformed ProQuest files are reported, instead
 of raising a KeyError

---
 metaknowledge/proquest/proQuestHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index b32a70c..e9ac73f 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -94,7 +94,7 @@ def proQuestParser(proFile):
                     #Parsing failed
                     error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}. It is likely that the seperators between the records are incorrect".format(proFile, lineNum))
                     raise StopIteration
-    except (UnicodeDecodeError, StopIteration, ValueError) as e:
+    except (UnicodeDecodeError, StopIteration, ValueError, LookupError) as e:
         if error is None:
             error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}.\nThe error was: '{}'".format(proFile, lineNum, e))
     return recSet, error
-- 
2.43.0


From f0e9fa446ae87ce8f7ea90d01a95276fc8f49c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:26 +0000
Subject: [PATCH 036/109] fix: blank lines in the addresses of WOS records

---
 metaknowledge/WOS/tagProcessing/tagFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/tagProcessing/tagFunctions.py b/metaknowledge/WOS/tagProcessing/tagFunctions.py
index 672acc2..8e76bb2 100644
--- a/metaknowledge/WOS/tagProcessing/tagFunctions.py
+++ b/metaknowledge/WOS/tagProcessing/tagFunctions.py
@@ -412,7 +412,7 @@ def authAddress(val):
     """
     ret = []
     for a in val:
-        if a[0] == '[':
+        if a.startswith('['):
             ret.append('] '.join(a.split('] ')[1:]))
         else:
             ret.append(a)
-- 
2.43.0


From 5290da5f1b53aab6f3856154373fa80ed8e6e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:26 +0000
Subject: [PATCH 037/109] fix: Scopus rows with too many values are bad,
 instead of being read shifted

---
 metaknowledge/scopus/recordScopus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 0627ef7..277c8e2 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -221,4 +221,6 @@ def scopusRecordParser(record, header = None):
             tagDict[key] = valString
         else:
             tagDict[key] = currentVal
+    if len(splitRecord) > 0:
+        raise BadScopusRecord("There are more values than columns in: {}".format(record))
     return tagDict
-- 
2.43.0


From d9fe02b4a6e8d484c3749071d232e00c2e950bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 038/109] fix: combining collections keeps the errors of both

---
 metaknowledge/mkCollection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 5da300c..4c871c6 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -237,6 +237,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection | other._collection, name = '{} | {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -247,6 +248,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection & other._collection, name = '{} & {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -257,6 +259,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection - other._collection, name = '{} - {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -267,6 +270,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection ^ other._collection, name = '{} ^ {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
-- 
2.43.0


From 5389f7d409d27c2df85f439b21df1250270a64fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 039/109] fix: adding collections keeps the errors of both

---
 metaknowledge/recordCollection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 10a897b..7c870b1 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -188,6 +188,11 @@ class RecordCollection(CollectionWithIDs):
         for rec in other:
             new_col.add(rec)
 
+        for col in (self, other):
+            if getattr(col, 'bad', False):
+                new_col.bad = True
+                new_col.errors.update(col.errors)
+
         return new_col
 
     def dropNonJournals(self, ptVal = 'J', dropBad = True, invert = False):
-- 
2.43.0


From 9ac4ccb80b7b9478cb38fe9f646745ad8d27eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 040/109] fix: copies of collections have their own types

---
 metaknowledge/mkCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 4c871c6..05eb34a 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -291,8 +291,8 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
         """
         collectedCopy = copy.copy(self)
         collectedCopy._collection = copy.copy(collectedCopy._collection)
-        self._collectedTypes = copy.copy(self._collectedTypes)
-        self._allowedTypes = copy.copy(self._allowedTypes)
+        collectedCopy._collectedTypes = copy.copy(collectedCopy._collectedTypes)
+        collectedCopy._allowedTypes = copy.copy(collectedCopy._allowedTypes)
         collectedCopy.errors = copy.copy(collectedCopy.errors)
         return collectedCopy
 
-- 
2.43.0


From 3c5941678a14e6f5cfc44db890ff21c9f29b1ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 041/109] fix: incomplete cache files are replaced, instead of
 raising an EOFError

---
 metaknowledge/mkCollection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 05eb34a..d235749 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -372,7 +372,8 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             with open(cacheFile, 'rb') as f:
                 try:
                     dat, RC = pickle.load(f)
-                except pickle.PickleError as e:
+                except Exception as e:
+                    #An incomplete or damaged file can raise almost anything
                     raise cacheError("pickle Error: {}".format(e))
             if dat["metaknowledge Version"] != __version__:
                 raise cacheError("mk version mismatch")
@@ -392,7 +393,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
         if os.path.isfile(cacheName):
             try:
                 self.__dict__ = loadCache(cacheName, flist, name, extension)
-            except (cacheError, KeyError, FileNotFoundError):
+            except (cacheError, KeyError, FileNotFoundError, TypeError, AttributeError):
                 os.remove(cacheName)
                 return False
             else:
-- 
2.43.0


From eaacf7391757d8b1a271a123e34b7dfc619f6fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 042/109] fix: dropNonJournals accepts records without a
 publication type

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 7c870b1..b5fea42 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -215,9 +215,9 @@ class RecordCollection(CollectionWithIDs):
         if dropBad:
             self.dropBadEntries()
         if invert:
-            self._collection = {r for r in self._collection if r['pubType'] != ptVal.upper()}
+            self._collection = {r for r in self._collection if r.get('pubType') != ptVal.upper()}
         else:
-            self._collection = {r for r in self._collection if r['pubType'] == ptVal.upper()}
+            self._collection = {r for r in self._collection if r.get('pubType') == ptVal.upper()}
 
     def writeFile(self, fname = None):
         """Writes the `RecordCollection` to a file, the written file's format is identical to those download from WOS. The order of `Records` written is random.
-- 
2.43.0


From a5a6228234190fa6c4aebd0cda6ff05adb7bc733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 043/109] fix: citeFilter by year with a blank string finds all
 citations with a year

---
 metaknowledge/recordCollection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index b5fea42..01bb473 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1554,7 +1554,11 @@ class RecordCollection(CollectionWithIDs):
                 elif field == 'year':
                     for cite in R.get('citations'):
                         try:
-                            if int(keyString) == cite.year:
+                            if keyString == '':
+                                found = cite.year is not None
+                            else:
+                                found = int(keyString) == cite.year
+                            if found:
                                 retRecs.append(R)
                                 break
                         except AttributeError:
-- 
2.43.0


From 769b28dd0a5fd2ccb70ac81d6dc6e27f7d91f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:18 +0000
Subject: [PATCH 044/109] fix: rankedSeries in pandas mode puts the lowest
 ranked first when asked to

---
 metaknowledge/mkCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index d235749..785bc61 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -660,6 +660,8 @@ class CollectionWithIDs(Collection):
                         retList.append((valString, currentRank))
             if not greatestFirst:
                 retList.reverse()
+                for column in panDict.values():
+                    column.reverse()
             if pandasMode:
                 return panDict
             else:
-- 
2.43.0


From 19c1393df4e19533f382db3142b741343bf2ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:18 +0000
Subject: [PATCH 045/109] fix: cooccurrenceCounts without tags to count raises
 its TagError

---
 metaknowledge/mkCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 785bc61..f9f85d5 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -775,7 +775,7 @@ class CollectionWithIDs(Collection):
         if not isinstance(keyTag, str):
             raise TagError("'{}' is not a string it cannot be used as a tag.".format(keyTag))
         if len(countedTags) < 1:
-            TagError("You need to provide atleast one tag")
+            raise TagError("You need to provide atleast one tag")
         for tag in countedTags:
             if not isinstance(tag, str):
                 raise TagError("'{}' is not a string it cannot be used as a tag.".format(tag))
-- 
2.43.0


From 6d18217220ba1898413f4bc9688bd65cd5ba5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:18 +0000
Subject: [PATCH 046/109] fix: rpys works without citations and with years
 outside of its default bounds

---
 metaknowledge/recordCollection.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 01bb473..f279494 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -836,14 +836,13 @@ class RecordCollection(CollectionWithIDs):
                 else:
                     yearCounts[cYear] = 1
 
+        if not yearCounts and (minYear is None or maxYear is None):
+            #No citations so no years to find the bounds in
+            return retDict
         if minYear is None:
-            smallest = min(yearCounts.keys())
-            if smallest > 1000:
-                minYear = smallest
+            minYear = max(min(yearCounts.keys()), 1000)
         if maxYear is None:
-            biggest = max(yearCounts.keys())
-            if biggest < 2100:
-                maxYear = biggest
+            maxYear = min(max(yearCounts.keys()), 2100)
 
         targetYears = set(( i for i in range(minYear, maxYear + 1) if i not in dropYears))
 
-- 
2.43.0


From 1f03c339a97bcd3aa990e6b65d21ff861a91c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:18 +0000
Subject: [PATCH 047/109] fix: the years given by rpys are always in order

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index f279494..8b5fa00 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -844,7 +844,7 @@ class RecordCollection(CollectionWithIDs):
         if maxYear is None:
             maxYear = min(max(yearCounts.keys()), 2100)
 
-        targetYears = set(( i for i in range(minYear, maxYear + 1) if i not in dropYears))
+        targetYears = [i for i in range(minYear, maxYear + 1) if i not in dropYears]
 
         ranks = {}
         yearDeviances = {}
-- 
2.43.0


From dded394ac2d3ac868dd278ddf88458447fd3579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:18 +0000
Subject: [PATCH 048/109] fix: rpys accepts a single year to drop, as
 documented

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8b5fa00..4e334ca 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -809,6 +809,8 @@ class RecordCollection(CollectionWithIDs):
 
         if dropYears is None:
             dropYears = set()
+        elif isinstance(dropYears, int):
+            dropYears = [dropYears]
         yearCounts = {}
         retDict = {'year' : [], 'count' : [], 'abs-deviation' : [], 'rank' : []}
 
-- 
2.43.0


From 148faf59af13b851598064317114b261cbaed482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:17 +0000
Subject: [PATCH 049/109] fix: writeCSV and makeDict accept any iterable of
 tags and leave it as it was

---
 metaknowledge/recordCollection.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 4e334ca..fe8eef3 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -300,13 +300,9 @@ class RecordCollection(CollectionWithIDs):
         """
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
-        for i in range(len(firstTags)):
-            if firstTags[i] in fullToTagDict:
-                firstTags[i] = fullToTagDict[firstTags[i]]
+        firstTags = [fullToTagDict.get(t, t) for t in firstTags]
         if onlyTheseTags:
-            for i in range(len(onlyTheseTags)):
-                if onlyTheseTags[i] in fullToTagDict:
-                    onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
+            onlyTheseTags = [fullToTagDict.get(t, t) for t in onlyTheseTags]
             retrievedFields = [t for t in firstTags if t in onlyTheseTags] + [t for t in onlyTheseTags if t not in firstTags]
         else:
             retrievedFields = firstTags
@@ -728,9 +724,7 @@ class RecordCollection(CollectionWithIDs):
         > Default `True`, if `True` adds the number of authors as the column `'numAuthors'`.
         """
         if onlyTheseTags:
-            for i in range(len(onlyTheseTags)):
-                if onlyTheseTags[i] in fullToTagDict:
-                    onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
+            onlyTheseTags = [fullToTagDict.get(t, t) for t in onlyTheseTags]
             retrievedFields = onlyTheseTags
         else:
             retrievedFields = []
-- 
2.43.0


From 256ff305be96891e32c37d7a072f5ff904ef631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:17 +0000
Subject: [PATCH 050/109] fix: writeCSV with long names keeps the id column,
 instead of raising a KeyError

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index fe8eef3..f3f33f6 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -311,7 +311,7 @@ class RecordCollection(CollectionWithIDs):
                 retrievedFields += tagsLst
         if longNames:
             try:
-                retrievedFields = [tagToFullDict[t] for t in retrievedFields]
+                retrievedFields = [t if t == 'id' else tagToFullDict[t] for t in retrievedFields]
             except KeyError:
                 raise KeyError("One of the tags could not be converted to a long name.")
         if fname:
-- 
2.43.0


From 311b9020a00a1186bc72b837c40f476082675783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:17 +0000
Subject: [PATCH 051/109] fix: writeCSV splits by tags of any type and into
 files beside the one named

---
 metaknowledge/recordCollection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index f3f33f6..a043d2a 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -338,7 +338,8 @@ class RecordCollection(CollectionWithIDs):
                     continue
                 else:
                     if not isinstance(splitVal, list):
-                        splitVal = [str(splitVal)]
+                        splitVal = [splitVal]
+                    splitVal = [str(s) for s in splitVal]
             recDict = {}
             for t in retrievedFields:
                 value = R.get(t)
@@ -359,7 +360,7 @@ class RecordCollection(CollectionWithIDs):
                     if sTag in filesDict:
                         filesDict[sTag][1].writerow(recDict)
                     else:
-                        fname = "{}-{}".format(sTag[:200], baseFileName)
+                        fname = os.path.join(os.path.dirname(baseFileName), "{}-{}".format(sTag[:200], os.path.basename(baseFileName)))
                         f = open(fname, mode = 'w', encoding = 'utf-8', newline = '')
                         csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
                         csvWriter.writeheader()
-- 
2.43.0


From aa58bca4fdd10dce8ff33db60f46bb99dd7f0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:17 +0000
Subject: [PATCH 052/109] fix: forNLP leaves the given list of extra columns as
 it was

---
 metaknowledge/recordCollection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index a043d2a..fbe8f92 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -657,9 +657,7 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
-            for builtinColumn in ['id', 'year', 'title', 'keywords', 'abstract']:
-                if builtinColumn in extraColumns:
-                    extraColumns.remove(builtinColumn)
+            extraColumns = [column for column in extraColumns if column not in ['id', 'year', 'title', 'keywords', 'abstract']]
         for column in extraColumns:
             retDict[column] = []
         with _ProgressBar(*progArgs, **progKwargs) as PBar:
-- 
2.43.0


From 77c1a3bc8b3c1131c9ebe8ce9417f48ed408bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:17 +0000
Subject: [PATCH 053/109] fix: genderStats of a collection without names gives
 fractions of 0, instead of raising

---
 metaknowledge/recordCollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index fbe8f92..046bcf3 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -894,7 +894,8 @@ class RecordCollection(CollectionWithIDs):
             femaleCount += f
             unknownCount += u
         if asFractions:
-            tot = maleCount + femaleCount + unknownCount
+            #Without names all the fractions are 0
+            tot = max(maleCount + femaleCount + unknownCount, 1)
             return {'Male' : maleCount / tot, 'Female' : femaleCount / tot, 'Unknown' : unknownCount / tot}
         return {'Male' : maleCount, 'Female' : femaleCount, 'Unknown' : unknownCount}
 
-- 
2.43.0


From 49db7e0d5bac604da82dec9f065df1bd58e22564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:58 +0000
Subject: [PATCH 054/109] fix: authGenders as fractions of a record without
 authors gives 0s, instead of raising

---
 metaknowledge/mkRecord.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 345880c..454e916 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -684,7 +684,8 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             for k in ('Male','Female','Unknown'):
                 countsList.append(rawList.count(k))
             if fractionsMode:
-                tot = sum(countsList)
+                #Without authors all the fractions are 0
+                tot = max(sum(countsList), 1)
                 for i in range(3):
                     countsList.append(countsList.pop(0) / tot)
             if _countsTuple:
-- 
2.43.0


From 427fff6060833efb0fe5206d4b774ba9039dfe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:58 +0000
Subject: [PATCH 055/109] fix: nameStringGender raises its GenderException
 instead of returning it

---
 metaknowledge/genders/nameGender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index 2bc9dac..db0fdf7 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -60,7 +60,7 @@ def nameStringGender(s, noExcept = False):
         if noExcept:
             return 'Unknown'
         else:
-            return GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
+            raise GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
     if mappingDict is None:
         mappingDict = getMapping()
     return mappingDict.get(first, 'Unknown')
-- 
2.43.0


From 9de532bfd133a8ec7a3a63e7ff99440ce158fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:13 +0000
Subject: [PATCH 056/109] fix: forNLP and forBurst drop repeats of a dropped
 word that follow each other

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 046bcf3..e7684f5 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -498,7 +498,7 @@ class RecordCollection(CollectionWithIDs):
             if dropList is not None:
                 inString = " {} ".format(inString)
                 for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in inString:
+                    while dropS in inString:
                         inString = inString.replace(dropS, ' ')
                 inString = inString[1:-1]
             if removeWhitespace:
@@ -621,7 +621,7 @@ class RecordCollection(CollectionWithIDs):
                 #incase a drop string is on the edge
                 abst = " {} ".format(abst.replace('\n', ' '))
                 for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in abst:
+                    while dropS in abst:
                         abst = abst.replace(dropS, ' ')
                 abst = abst[1:-1]
             if removeWhitespace:
-- 
2.43.0


From 88b62088d3e1ad73253b526570578099e7c67422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:48 +0000
Subject: [PATCH 057/109] fix: writeBib leaves out bad records, instead of
 raising on them

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index e7684f5..a9e429d 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -415,7 +415,7 @@ class RecordCollection(CollectionWithIDs):
             try:
                 f.write('\n\n')
                 f.write(R.bibString(maxLength =  maxStringLength, WOSMode = wosMode, restrictedOutput = reducedOutput, niceID = niceIDs))
-            except BadWOSRecord:
+            except BadRecord:
                 pass
             except AttributeError:
                 raise RecordsNotCompatible("The Record '{}', with ID '{}' does not support writing to bibtext files.".format(R, R.id))
-- 
2.43.0


From 3228df32e4bc84ca6eef4ab182969b4cc661b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:18 +0000
Subject: [PATCH 058/109] fix: dropEdges drops the right ones of parallel edges

---
 metaknowledge/graphHelpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index f61b589..43b2029 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -545,9 +545,11 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                 grph.remove_edge(e[0], e[1])
         edgesToDrop = []
         if minWeight != - float('inf') or maxWeight != float('inf'):
-            for e in grph.edges(data = True):
+            #The keys are needed to drop the right one of parallel edges
+            edgesCaller = {'keys' : True} if grph.is_multigraph() else {}
+            for *e, eDict in grph.edges(data = True, **edgesCaller):
                 try:
-                    val = e[2][parameterName]
+                    val = eDict[parameterName]
                 except KeyError:
                     if not ignoreUnweighted:
                         raise KeyError("One or more Edges do not have weight or " + str(parameterName), " is not the name of the weight")
@@ -559,7 +561,7 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                     if count % 100000 == 0:
                         PBar.updateVal(count/ total, str(count) + " edges analysed and " + str(total -len(grph.edges())) + " edges dropped")
                     if val > maxWeight or  val < minWeight:
-                        edgesToDrop.append((e[0], e[1]))
+                        edgesToDrop.append(tuple(e))
         grph.remove_edges_from(edgesToDrop)
         PBar.finish(str(total - len(grph.edges())) + " edges out of " + str(total) + " dropped, " + str(len(grph.edges())) + " returned")
 
-- 
2.43.0


From 89a6ed6d726a7ba7fd2b95867c8619938340d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:18 +0000
Subject: [PATCH 059/109] fix: getDegreeDistribution works on empty graphs

---
 metaknowledge/graphHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 43b2029..aeaaf64 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -492,7 +492,7 @@ def getDegreeDistribution(grph, weightParameter = "weight", strictWeightNames =
     if weightType != int:
         raise ValueError("Unsupported type for weights, only ints are supported")
     ndsDict = getNodeDegrees(grph, weightString = weightParameter, strictMode = strictWeightNames, returnType = weightType, edgeType = directionalType)
-    distVec = [0] * (max(ndsDict.values()) + 1)
+    distVec = [0] * (max(ndsDict.values(), default = 0) + 1)
     for v in ndsDict.values():
         distVec[v] += 1
     return distVec
-- 
2.43.0


From a490561db2d1bcd4bf6e0fe2f6838d50c92c8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:18 +0000
Subject: [PATCH 060/109] fix: dropNodesByDegree counts all the edges touching
 a node of a directed graph

---
 metaknowledge/graphHelpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index aeaaf64..62ae04b 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -613,8 +613,11 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                 if count % 10000 == 0:
                     PBar.updateVal(count/ total, str(count) + " nodes analysed and " + str(len(badNodes)) + " nodes dropped")
             val = 0
+            touchingEdges = list(grph.edges(n, data = True))
+            if grph.is_directed():
+                touchingEdges += [e for e in grph.in_edges(n, data = True) if e[0] != n]
             if useWeight:
-                for e in grph.edges(n, data = True):
+                for e in touchingEdges:
                     try:
                         val += e[2][parameterName]
                     except KeyError:
@@ -623,7 +626,7 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                         else:
                             val += 1
             else:
-                val = len(grph.edges(n))
+                val = len(touchingEdges)
             if val < minDegree or val > maxDegree:
                 badNodes.append(n)
         if PBar:
-- 
2.43.0


From c0670a67f0b90f8755183c014dc3b78e5d5210c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:18 +0000
Subject: [PATCH 061/109] fix: writeTnetFile writes the times given by an
 attribute of the edges, as documented

---
 metaknowledge/graphHelpers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 62ae04b..0deb29d 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -420,13 +420,16 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
             raise RCValueError("Too few modes of '{}' found in the network. There must be exactly 2 modes.".format(modeNameString))
         with open(name, 'w', encoding = 'utf-8') as f:
             edgesCaller = {'data' : True}
-            if timeString is not None:
+            if grph.is_multigraph():
                 edgesCaller['keys'] = True
             for *nodes, eDict in grph.edges(**edgesCaller):
+                n1, n2 = nodes[:2]
                 if timeString is not None:
-                    n1, n2, keyVal = nodes
-                else:
-                    n1, n2 = nodes
+                    #metaknowledge's edge attributes are the keys of the edges
+                    if timeString not in eDict and len(nodes) > 2:
+                        keyVal = nodes[2]
+                    else:
+                        keyVal = eDict[timeString]
                 count += 1
                 if count % 1000 == 1:
                     PBar.updateVal(count/ eMax * .9 + .1, "writing edge: '{}'-'{}'".format(n1, n2))
-- 
2.43.0


From ef2bde65c20f6fb9506969ae3633c2baf89bb1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:18 +0000
Subject: [PATCH 062/109] fix: diffusionGraph with labels counts repeated
 edges, instead of raising a KeyError

---
 metaknowledge/diffusion.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 5230830..798a47a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -114,10 +114,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                                     for edgeVal in (str(ev) for ev in edgeVals):
                                         if weighted:
                                             if workingGraph.has_edge(sVal, val, key = edgeVal):
-                                                for i, a in workingGraph[sVal][val].items():
-                                                    if a['key'] == edgeVal:
-                                                        workingGraph[sVal][val][i]['weight'] += 1
-                                                        break
+                                                workingGraph[sVal][val][edgeVal]['weight'] += 1
                                             else:
                                                 attrDict = {'key' : edgeVal, 'weight' : 1}
                                                 workingGraph.add_edge(sVal, val, **attrDict)
-- 
2.43.0


From 5cd40938a5ec76882b4cc46b9101631956fbb43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:18 +0000
Subject: [PATCH 063/109] fix: diffusionCount compares counts made with the
 same options

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 798a47a..45427f5 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -267,7 +267,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     sourceCounts[RsourceVals] += 1
     if compareCounts:
-        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, _ProgBar = PBar)
+        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
     if PBar and not _ProgBar:
         PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
-- 
2.43.0


From 56a924dd55f0cbef77462adc974b956bb42c6349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:18 +0000
Subject: [PATCH 064/109] fix: diffusionCount compares the counts of extra
 values, not always 0

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 45427f5..e20c0f9 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -324,7 +324,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                         extraValueLst.append(extraVal)
                         if compareCounts:
                             try:
-                                locLst.append(localCounts[R][extraValue])
+                                locLst.append(localCounts[R][extraVal])
                             except KeyError:
                                 locLst.append(0)
                 else:
-- 
2.43.0


From 511bec7d4b85015a5e08bea02cd733eeffcec7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:18 +0000
Subject: [PATCH 065/109] fix: diffusionCount as a table works with records
 without authors

---
 metaknowledge/diffusion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index e20c0f9..c90fdac 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -292,7 +292,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     for extraVal, occCount in occ.items():
                         retDict[extraValue].append(extraVal)
                         if numAuthors:
-                            retDict["numAuthors"].append(len(R.get('authorsShort')))
+                            retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                         for tag in retrievedFields:
                             retDict[tag].append(Rvals[tag])
                         retDict[targetCountString].append(occCount)
@@ -304,7 +304,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     Rvals = R.subDict(retrievedFields)
                     if numAuthors:
-                        retDict["numAuthors"].append(len(R.get('authorsShort')))
+                        retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                     for tag in retrievedFields:
                         retDict[tag].append(Rvals[tag])
                     retDict[targetCountString].append(occ)
-- 
2.43.0


From 3d6db90df0091535b8916aede97ba7ea808fbe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:18 +0000
Subject: [PATCH 066/109] fix: diffusionAddCountsFromSource leaves the given
 counts as they were

---
 metaknowledge/diffusion.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index c90fdac..f7d4273 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -405,14 +405,7 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         try:
             if not isinstance(countsDict.keys().__iter__().__next__(), str):
                 PBar.updateVal(.5, "Prepping the counts")
-                newCountsDict = {}
-                while True:
-                    try:
-                        k, v = countsDict.popitem()
-                    except KeyError:
-                        break
-                    newCountsDict[str(k)] = v
-                countsDict = newCountsDict
+                countsDict = {str(k) : v for k, v in countsDict.items()}
         except StopIteration:
             pass
         count = 0
-- 
2.43.0


From a263e0d2633e222551cf0fec0c74ebebbeb8615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:56 +0000
Subject: [PATCH 067/109] fix: diffusionCount as a table has columns of one
 length when the extra value is a tag of the records

---
 metaknowledge/diffusion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index f7d4273..76eea05 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -282,7 +282,8 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
             retrievedFields = []
             targetCount = []
             for R in sourceCounts.keys():
-                tagsLst = [t for t in R.keys() if t not in retrievedFields]
+                #the column of extra values takes the place of a tag with the same name
+                tagsLst = [t for t in R.keys() if t not in retrievedFields and t != extraValue]
                 retrievedFields += tagsLst
             for tag in retrievedFields:
                 retDict[tag] = []
-- 
2.43.0


From e5e8faf3c4963f9ae16ee80541c043caf42555bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:03 +0000
Subject: [PATCH 068/109] fix: readGraph gives line ends within values as they
 were written

---
 metaknowledge/graphHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 0deb29d..5d740a2 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,7 +65,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)))
+            f = open(os.path.expanduser(os.path.abspath(nodeList)), newline = '')
             nFile = csv.DictReader(f)
             for line in nFile:
                 vals = line
@@ -77,7 +77,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
                     grph.add_node(ndID)
             f.close()
         PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)))
+        f = open(os.path.expanduser(os.path.abspath(edgeList)), newline = '')
         eFile = csv.DictReader(f)
         for line in eFile:
             vals = line
-- 
2.43.0


From 585568e1760c6579ac682217160809ab0c705ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:19 +0000
Subject: [PATCH 069/109] fix: the end of a csv file of grants is not reported
 as an error

---
 metaknowledge/grants/baseGrant.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c0c443d..c2e8470 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -119,13 +119,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     'currentLineString' : '',
     }
     def readerWithSideEffects(target, datDict):
-        while True:
-            datDict['currentLineNum'], datDict['currentLineString'] = next(target)
+        for datDict['currentLineNum'], datDict['currentLineString'] in target:
             yield datDict['currentLineString']
     reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
-    readerIter = reader.__iter__()
-    while True:
-        row = next(readerIter)
+    for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
 class FallbackGrant(Grant):
-- 
2.43.0


From f66ff1ae9de0bddc96e72edec3d7b0d9657e0bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:19 +0000
Subject: [PATCH 070/109] fix: directories of grants can be read again through
 their cache

---
 metaknowledge/grantCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index f8b1cc7..535d44f 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -67,7 +67,7 @@ class GrantCollection(CollectionWithIDs):
                     flist = []
                     for f in os.listdir(inGrants):
                         fullF = os.path.join(os.path.abspath(inGrants), f)
-                        if fullF.endswith(extension) and os.path.isfile(fullF):
+                        if fullF.endswith(extension) and not fullF.endswith('mkGrantDirCache') and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
                         cacheName = os.path.join(inGrants, '{}.[{}].mkGrantDirCache'.format(os.path.basename(os.path.abspath(inGrants)), extension))
-- 
2.43.0


From 41d8ae2128042e3e9d8227c7cc5c5fa43514de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:19 +0000
Subject: [PATCH 071/109] fix: asking for a cache only has an effect on
 directories of grants, as for records

---
 metaknowledge/grantCollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 535d44f..23071f8 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -31,6 +31,7 @@ class GrantCollection(CollectionWithIDs):
             errors = {}
             name = name
             grantTypes = set()
+            cacheName = None
 
             if inGrants is None:
                 PBar.updateVal(.5, "Empty GrantCollection created")
@@ -131,7 +132,7 @@ class GrantCollection(CollectionWithIDs):
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
-            if cached:
+            if cached and cacheName is not None:
                 PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
                 self._createCache(cacheName, flist, name, extension)
             try:
-- 
2.43.0


From f7a31073bf7ed9eac9f00479336c8220e1095eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:32 +0000
Subject: [PATCH 072/109] fix: looking for investigators or institutions leaves
 the given tags as they were and counts none twice

---
 metaknowledge/grants/nsercGrant.py | 4 ++++
 metaknowledge/grants/nsfGrant.py   | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 75ff383..849f34a 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -38,6 +38,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'name-' in k.lower() and k not in tags:
                 tags.append(k)
@@ -56,6 +58,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'institution' in k.lower() and k not in tags:
                 tags.append(k)
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 0a4953e..e880205 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -28,12 +28,12 @@ class NSFGrant(Grant):
 
         > A list of all the found investigator's names
         """
-        if tags is None:
+        if tags is None or tags == 'Investigator':
             tags = ['Investigator']
         elif isinstance(tags, str):
             tags = ['Investigator', tags]
         else:
-            tags.append('Investigator')
+            tags = [t for t in tags if t != 'Investigator'] + ['Investigator']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
     def getInstitutions(self, tags = None, seperator = ";", _getTag = False):
@@ -45,12 +45,12 @@ class NSFGrant(Grant):
 
         > A list with 1 entry the name of the institution
         """
-        if tags is None:
+        if tags is None or tags == 'Institution':
             tags = ['Institution']
         elif isinstance(tags, str):
             tags = ['Institution', tags]
         else:
-            tags.append('Institution')
+            tags = [t for t in tags if t != 'Institution'] + ['Institution']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
 def isNSFfile(fileName, useFileName = True):
-- 
2.43.0


From 14ef88204d54736d9c5d2497410c5395b3080b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:32 +0000
Subject: [PATCH 073/109] fix: getInvestigators accepts empty fields, instead
 of raising a TypeError

---
 metaknowledge/grants/baseGrant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c2e8470..79e996b 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -66,7 +66,7 @@ class Grant(Record, collections.abc.MutableMapping):
                 except KeyError:
                     pass
                 except AttributeError:
-                    tval = [auth.split(seperator)[0] for auth in self[tag]]
+                    tval = [auth.split(seperator)[0] for auth in (self[tag] or [])]
                     if _getTag:
                         investVal += [(t.strip(), tag) for t in tval]
                     else:
-- 
2.43.0


From ae6c9d9067d7f86624416b68739ac3bb410b61cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:32 +0000
Subject: [PATCH 074/109] fix: rows of NSERC and CIHR files that end early are
 read, bad without their key, and do not stop the reading

---
 metaknowledge/grants/cihrGrant.py  | 2 +-
 metaknowledge/grants/nsercGrant.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 7ff9f09..73b17da 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -8,7 +8,7 @@ class CIHRGrant(Grant):
     def __init__(self, original, grantdDict, sFile, sLine):
         bad = False
         error = None
-        if grantdDict.get('PI Names', '') == '':
+        if not grantdDict.get('PI Names'):
             bad = True
             error = BadGrant("Missing 'PI Names'")
 
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 849f34a..3379452 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -8,7 +8,7 @@ class NSERCGrant(Grant):
     def __init__(self, original, grantdDict, sFile, sLine):
         bad = False
         error = None
-        if grantdDict.get('Cle', '') == '':
+        if not grantdDict.get('Cle'):
             bad = True
             error = BadGrant("Missing 'CLE'")
             idValue = "NSERC:{}".format(hash(original))
@@ -18,9 +18,9 @@ class NSERCGrant(Grant):
 
     def update(self, other):
         for field, value in other._fieldDict.items():
-            if value == '':
+            if not value:
                 continue
-            elif self._fieldDict.get(field, '') == '':
+            elif not self._fieldDict.get(field):
                 self._fieldDict[field] = value
             else:
                 self._fieldDict[field] += "; {}".format(value)
-- 
2.43.0


From 61e24aac5c4ba80b45c4ad6a567131861337e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:32 +0000
Subject: [PATCH 075/109] fix: NSF grants with an empty AwardID are bad,
 instead of sharing the id of None

---
 metaknowledge/grants/nsfGrant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index e880205..de966a5 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -11,7 +11,7 @@ class NSFGrant(Grant):
         bad = False
         error = None
         originalName = os.path.basename(sFile)
-        if grantdDict.get('AwardID', '') == '':
+        if not grantdDict.get('AwardID'):
             bad = True
             error = BadGrant("Missing 'AwardID'")
             idValue = "NSF:{}".format(originalName)
-- 
2.43.0


From 5cb698acea51f1593c9e6962ce366cdee8631820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:12 +0000
Subject: [PATCH 076/109] fix: Medline grants without a number or code have no
 blank number and differ when their agencies do

---
 metaknowledge/grants/medlineGrant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/grants/medlineGrant.py b/metaknowledge/grants/medlineGrant.py
index 98f4ade..08c12e8 100644
--- a/metaknowledge/grants/medlineGrant.py
+++ b/metaknowledge/grants/medlineGrant.py
@@ -33,7 +33,7 @@ class MedlineGrant(Grant):
                     grantDict['number'] = split.pop()
                 else:
                     grantDict['number'] = "{}/{}".format(split.pop(), code)
-            else:
+            elif len(split) > 0:
                 grantDict['number'] = '/'.join(split)
         if 'number' in  grantDict:
             idValue = "{}/{}-{}".format(grantDict.get('number', ''), grantDict.get('code', ''), grantDict.get('country', ''))
-- 
2.43.0


From 84798fefcc91618e899a33b4356a8532914734d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 077/109] fix: nodes of two mode and n-mode networks have the
 types of all the tags they occur in

---
 metaknowledge/mkCollection.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index f9f85d5..9dfdcbb 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1138,6 +1138,8 @@ class CollectionWithIDs(Collection):
                     if nodeCount:
                         try:
                             grph.nodes[node1]['count'] += 1
+                            if recordType and tag1 not in grph.nodes[node1]['type']:
+                                grph.nodes[node1]['type'] += tag1
                         except KeyError:
                             try:
                                 grph.nodes[node1]['count'] = 1
@@ -1157,11 +1159,15 @@ class CollectionWithIDs(Collection):
                         elif recordType:
                             if 'type' not in grph.nodes[node1]:
                                 grph.nodes[node1]['type'] = tag1
+                            elif tag1 not in grph.nodes[node1]['type']:
+                                grph.nodes[node1]['type'] += tag1
 
                 for node2 in contents2:
                     if nodeCount:
                         try:
                             grph.nodes[node2]['count'] += 1
+                            if recordType and tag2 not in grph.nodes[node2]['type']:
+                                grph.nodes[node2]['type'] += tag2
                         except KeyError:
                             try:
                                 grph.nodes[node2]['count'] = 1
@@ -1180,6 +1186,8 @@ class CollectionWithIDs(Collection):
                         elif recordType:
                             if 'type' not in grph.nodes[node2]:
                                 grph.nodes[node2]['type'] = tag2
+                            elif tag2 not in grph.nodes[node2]['type']:
+                                grph.nodes[node2]['type'] += tag2
             if PBar:
                 PBar.finish("Done making a two mode network of " + tag1 + " and " + tag2)
         return grph
@@ -1294,6 +1302,8 @@ class CollectionWithIDs(Collection):
                         if nodeCount:
                             try:
                                 grph.nodes[node1]['count'] += 1
+                                if recordType and vlst1[0] not in grph.nodes[node1]['type']:
+                                    grph.nodes[node1]['type'] += vlst1[0]
                             except KeyError:
                                 try:
                                     grph.nodes[node1]['count'] = 1
-- 
2.43.0


From a79bb9fbe8da2b86d1a91d521a81bf99df809d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 078/109] fix: citations among the details of the core do not
 raise

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index a9e429d..00c3788 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1717,7 +1717,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                             if isinstance(tagVal, str):
                                 infoVals.append(tagVal.replace(',',''))
                             elif isinstance(tagVal, list):
-                                infoVals.append(tagVal[0].replace(',',''))
+                                infoVals.append(str(tagVal[0]).replace(',',''))
                             else:
                                 pass
                         d['info'] = ', '.join(infoVals)
@@ -1725,7 +1725,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                         for tag in coreValues:
                             v = R.get(tag, None)
                             if isinstance(v, list):
-                                d[tag] = '|'.join(sorted(v))
+                                d[tag] = '|'.join(sorted(str(val) for val in v))
                             else:
                                 d[tag] = v
                     d['inCore'] = True
-- 
2.43.0


From 16d81d6a81df6d2683377fde2d3ecbe0044638a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:03 +0000
Subject: [PATCH 079/109] fix: the parts of a citation that fit nowhere are all
 in misc, and a DOI after them is found

---
 metaknowledge/citation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index adfcf19..dda0514 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -58,7 +58,7 @@ class Citation(collections.abc.Hashable):
 
     > A str containing a WOS style citation.
     """
-    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?))")
+    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((?:, )?([\s\S]+?)(, DOI (.+))?$))")
 
     scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, (?!P?P\. )([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
@@ -119,7 +119,7 @@ class Citation(collections.abc.Hashable):
             self.P = regex.group(9)
             self.DOI = regex.group(11)
             if regex.group(12) is not None:
-                self.misc = regex.group(12)
+                self.misc = regex.group(13)
                 self.DOI = regex.group(15)
                 self.bad = True
                 self.error = BadCitation("The citation did not fully match the expected pattern")
-- 
2.43.0


From c498f896781154c710a11b2c7d1f7b7e16da6cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 080/109] fix: splitting a CSV by a tag writes a file per value
 whatever characters the values have and however long they are

---
 metaknowledge/recordCollection.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 00c3788..443d389 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -330,6 +330,7 @@ class RecordCollection(CollectionWithIDs):
             csvWriter.writeheader()
         else:
             filesDict = {}
+            usedNames = set()
         for R in self:
             if splitByTag:
                 try:
@@ -360,7 +361,14 @@ class RecordCollection(CollectionWithIDs):
                     if sTag in filesDict:
                         filesDict[sTag][1].writerow(recDict)
                     else:
-                        fname = os.path.join(os.path.dirname(baseFileName), "{}-{}".format(sTag[:200], os.path.basename(baseFileName)))
+                        #The values can have path separators in them and long values may have the same first 200 characters
+                        fileTag = sTag[:200].replace('/', '_').replace(os.sep, '_')
+                        outName = "{}-{}".format(fileTag, os.path.basename(baseFileName))
+                        while outName in usedNames:
+                            outName = "{}-{}-{}".format(fileTag, len(usedNames), os.path.basename(baseFileName))
+                            fileTag += '_'
+                        usedNames.add(outName)
+                        fname = os.path.join(os.path.dirname(baseFileName), outName)
                         f = open(fname, mode = 'w', encoding = 'utf-8', newline = '')
                         csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
                         csvWriter.writeheader()
-- 
2.43.0


From 611f1253feea7778c814fba69b094e592ea1f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 081/109] fix: the CLI does not ask about citations without a
 journal and skips journals in the database given

---
 metaknowledge/bin/metaknowledgeCLI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b0eaa29..2e4d4ce 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -188,7 +188,7 @@ def getWhatToDo(clargs, inRC):
         try:
             for R in inRC:
                 for c in R.get('citations', []):
-                    if not hasattr(c, 'journal'):
+                    if getattr(c, 'journal', None) is None:
                         print("{} does not have a journal field".format(c))
                     elif c.isJournal(manualDB= dbName, returnDict ='both'):
                         print("the journal field of {} is in the database".format(c.journal))
@@ -200,7 +200,7 @@ def getWhatToDo(clargs, inRC):
                             c.addToDB(manualDB= dbName)
                             print("{} added as a journal abbrviation.".format(c.journal))
                         else:
-                            c.addToDB(invert = True)
+                            c.addToDB(manualDB = dbName, invert = True)
                             print("{} will now be skipped".format(c.journal))
         except KeyboardInterrupt:
             print('\nExiting manual citation clasification', end = '')
-- 
2.43.0


From 7262acdc7b54797659bc5ce10e5ec60c0d9a1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 082/109] fix: the progress bar of an edge list or node list
 stops when there is nothing to write or an error occurs

---
 metaknowledge/graphHelpers.py | 36 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 5d740a2..12558e4 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -194,16 +194,16 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
 
     > Default `False`, if `True` all the edges must have the same attributes or an exception will be raised. If `False` the missing attributes will be left blank.
     """
+    if not isinstance(_progBar, _ProgressBar):
+        #The with makes sure the progress bar stops, whatever happens
+        with _ProgressBar(0, "Writing edge list {}".format(name), dummy = not metaknowledge.VERBOSE_MODE) as PBar:
+            writeEdgeList(grph, name, extraInfo = extraInfo, allSameAttribute = allSameAttribute, _progBar = PBar)
+            PBar.finish("Done edge list {}, {} edges written.".format(name, len(grph.edges())))
+        return
     count = 0
     eMax = len(grph.edges())
-    if metaknowledge.VERBOSE_MODE or isinstance(_progBar, _ProgressBar):
-        if isinstance(_progBar, _ProgressBar):
-            PBar = _progBar
-            PBar.updateVal(0, "Writing edge list {}".format(name))
-        else:
-            PBar = _ProgressBar(0, "Writing edge list {}".format(name))
-    else:
-        PBar = _ProgressBar(0, "Writing edge list {}".format(name), dummy = True)
+    PBar = _progBar
+    PBar.updateVal(0, "Writing edge list {}".format(name))
     if len(grph.edges(data = True)) < 1:
         outFile = open(os.path.expanduser(os.path.abspath(name)), 'w')
         outFile.write('"Source","Target"\n')
@@ -264,8 +264,6 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                     outFile.writerow(newDict)
         PBar.updateVal(1, "Closing {}".format(name))
         f.close()
-        if not isinstance(_progBar, _ProgressBar):
-            PBar.finish("Done edge list {}, {} edges written.".format(name, count))
 
 def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None):
     """Writes a node attribute list of _grph_ to the file given by the path _name_.
@@ -288,16 +286,16 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
 
     > Default `False`, if `True` all the nodes must have the same attributes or an exception will be raised. If `False` the missing attributes will be left blank.
     """
+    if not isinstance(_progBar, _ProgressBar):
+        #The with makes sure the progress bar stops, whatever happens
+        with _ProgressBar(0, "Writing node list {}".format(name), dummy = not metaknowledge.VERBOSE_MODE) as PBar:
+            writeNodeAttributeFile(grph, name, allSameAttribute = allSameAttribute, _progBar = PBar)
+            PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, len(grph.nodes())))
+        return
     count = 0
     nMax = len(grph.nodes())
-    if metaknowledge.VERBOSE_MODE or isinstance(_progBar, _ProgressBar):
-        if isinstance(_progBar, _ProgressBar):
-            PBar = _progBar
-            PBar.updateVal(0, "Writing node list {}".format(name))
-        else:
-            PBar = _ProgressBar(0, "Writing node list {}".format(name))
-    else:
-        PBar = _ProgressBar(0, "Writing node list {}".format(name), dummy = True)
+    PBar = _progBar
+    PBar.updateVal(0, "Writing node list {}".format(name))
     if len(grph.nodes(data = True)) < 1:
         outFile = open(os.path.expanduser(os.path.abspath(name)), 'w')
         outFile.write('ID\n')
@@ -341,8 +339,6 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
                 raise ValueError("Some nodes in the graph do not have the same attributes")
         PBar.updateVal(1, "Closing {}".format(name))
         f.close()
-        if not isinstance(_progBar, _ProgressBar):
-            PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, count))
 
 def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = None, timeString = None, nodeIndexString = 'tnet-ID', weightString = 'weight'):
     """Writes an edge list designed for reading by the _R_ package [tnet](https://toreopsahl.com/tnet/).
-- 
2.43.0


From 3eebbae903069840b41b857bad9c69dc8fb636b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 083/109] fix: the progress bar of diffusionCount stops when an
 error occurs

---
 metaknowledge/diffusion.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 76eea05..98090cb 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -188,16 +188,14 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
         raise RuntimeError("{} is not a valid extraValue, only tags are allowed".format(extraValue))
     if extraMapping is None:
         extraMapping = lambda x : x
-    if metaknowledge.VERBOSE_MODE or _ProgBar:
-        if _ProgBar:
-            PBar = _ProgBar
-            PBar.updateVal(0, "Starting to analyse a diffusion network")
-        else:
-            PBar = _ProgressBar(0, "Starting to analyse a diffusion network")
-        count = 0
-        maxCount = len(source)
-    else:
-        PBar = _ProgressBar("Starting to analyse a diffusion network", dummy = True)
+    if _ProgBar is None:
+        #The with makes sure the progress bar stops, whatever happens
+        with _ProgressBar(0, "Starting to analyse a diffusion network", dummy = not metaknowledge.VERBOSE_MODE) as PBar:
+            ret = diffusionCount(source, target, sourceType = sourceType, extraValue = extraValue, pandasFriendly = pandasFriendly, compareCounts = compareCounts, numAuthors = numAuthors, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
+            PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
+        return ret
+    PBar = _ProgBar
+    PBar.updateVal(0, "Starting to analyse a diffusion network")
     count = 0
     maxCount = len(source)
     sourceDict = {}
@@ -268,8 +266,6 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     sourceCounts[RsourceVals] += 1
     if compareCounts:
         localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
-    if PBar and not _ProgBar:
-        PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
         retDict = {targetCountString : []}
         if numAuthors:
-- 
2.43.0


From 65c4246d31b539a91656a38748ba9b3921c73732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:40 +0000
Subject: [PATCH 084/109] fix: lines of Web of Science files are counted from
 1, as those of the other files are

---
 metaknowledge/WOS/recordWOS.py   | 2 +-
 metaknowledge/WOS/wosHandlers.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index 55d1f26..66a30e9 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -68,7 +68,7 @@ class WOSRecord(ExtendedRecord):
             elif isinstance(inRecord, itertools.chain):
                 fieldDict = recordParser(inRecord)
             elif isinstance(inRecord, io.IOBase):
-                fieldDict = recordParser(enumerate(inRecord))
+                fieldDict = recordParser(enumerate(inRecord, start = 1))
             elif isinstance(inRecord, str):
                 def addChartoEnd(lst):
                     for s in lst:
diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 1452d75..a77a7cb 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -56,14 +56,14 @@ def wosParser(isifile):
     error = None
     try:
         with open(isifile, 'r', encoding='utf-8-sig') as openfile:
-            f = enumerate(openfile, start = 0)
+            f = enumerate(openfile, start = 1)
             while "VR 1.0" not in f.__next__()[1]:
                 pass
             notEnd = True
             while notEnd:
                 line = f.__next__()
                 if line[1] == '':
-                    error =  BadWOSFile("'{}' does not have an 'EF', lines 1 to {} were checked".format(isifile, line[0] + 1))
+                    error =  BadWOSFile("'{}' does not have an 'EF', lines 1 to {} were checked".format(isifile, line[0]))
                 elif line[1].isspace():
                     continue
                 elif 'EF' in line[1][:2]:
-- 
2.43.0


From 45dfed8df6d366137593e159a24e86af8c62c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 085/109] fix: markdown of any characters is converted to a
 valid notebook and none of it is lost

---
 metaknowledge/bin/metaknowledgeMdToNb.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeMdToNb.py b/metaknowledge/bin/metaknowledgeMdToNb.py
index 7f5616b..ecc72f1 100644
--- a/metaknowledge/bin/metaknowledgeMdToNb.py
+++ b/metaknowledge/bin/metaknowledgeMdToNb.py
@@ -1,5 +1,6 @@
 #Written by Reid McIlroy-Young for Dr. John McLevey, University of Waterloo 2015
 import argparse
+import json
 import re
 import os.path
 import subprocess
@@ -103,9 +104,10 @@ def convert(file):
 
 def stringPreprossesing(s):
     s = s.lstrip('\n')
-    s = s.replace(r'"', r'\"')
-    s = s.replace('\n', '\\n",\n     "')[:-11]
-    return s
+    if s.endswith('\n'):
+        s = s[:-1]
+    #json.dumps() escapes everything that cannot be in a JSON string as it is
+    return '\\n",\n     "'.join(json.dumps(line, ensure_ascii = False)[1:-1] for line in s.split('\n'))
 
 
 def writeMDcell(s):
-- 
2.43.0


From a9bef8e810ff8769061bb64fd49b86b0531dc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:27 +0000
Subject: [PATCH 086/109] fix: local citation counts are made for records of
 any kind when progress is shown

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 443d389..8edcbab 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1431,7 +1431,7 @@ class RecordCollection(CollectionWithIDs):
                 rCites = R.get('citations')
                 if PBar:
                     count += 1
-                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.UT))
+                    PBar.updateVal(count / recCount, "Analysing: {}".format(R))
                 if rCites:
                     for c in rCites:
                         if keyType == keyTypesLst[0]:
-- 
2.43.0


From 1d8bea05280bbf432e5a4c8a98c597e4f3ddee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:27 +0000
Subject: [PATCH 087/109] fix: the abstracts of Scopus and ProQuest records are
 given for language processing and searched for copyrights

---
 metaknowledge/recordCollection.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8edcbab..4dae5db 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -440,7 +440,7 @@ class RecordCollection(CollectionWithIDs):
         """
         retCopyrights = set()
         for R in self:
-            begin, abS = findCopyright(R.get('abstract', ''))
+            begin, abS = findCopyright(abstractOf(R))
             if abS != '':
                 retCopyrights.add(abS)
         return list(retCopyrights)
@@ -672,7 +672,7 @@ class RecordCollection(CollectionWithIDs):
             for R in self:
                 pcount += 1
                 PBar.updateVal(pcount/ pmax, "Analyzing: {}".format(R))
-                abstract, copyrightString = abPrep(R.get('AB', ''))
+                abstract, copyrightString = abPrep(abstractOf(R))
 
                 retDict['id'].append(R.id)
                 retDict['year'].append(R.get('year', ''))
@@ -1815,6 +1815,14 @@ def expandRecs(G, RecCollect, nodeType, weighted):
                             G.add_edge(citeID2, e2, **data)
 
 
+def abstractOf(R):
+    """The abstract of _R_ as one string, `''` if it has none"""
+    abst = R.get('abstract', '')
+    if isinstance(abst, list):
+        #ProQuest abstracts are lists of lines
+        return '\n'.join(abst)
+    return abst
+
 def findCopyright(inS):
     possibleHits = ['. &COPY; ', '. Crown Copyright',' Elsevier Ltd. ', '. Copyright', '. Published by Els', '. (c) ', '. (C) ']
     splitString = False
-- 
2.43.0


From 653b712dc10aa961cef463670d3163e52ee95bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:38 +0000
Subject: [PATCH 088/109] fix: fields asked for by name are found in records of
 every kind

---
 metaknowledge/diffusion.py        |  4 ++--
 metaknowledge/recordCollection.py | 25 +++++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 98090cb..669170b 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -4,7 +4,7 @@ import networkx as nx
 
 from .WOS.tagProcessing.funcDicts import tagsAndNameSet, normalizeToTag
 from .progressBar import _ProgressBar
-from .recordCollection import RecordCollection
+from .recordCollection import RecordCollection, namedValue
 
 import metaknowledge
 
@@ -92,7 +92,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
         for Rt in target:
             RtVal, RtExtras = makeNodeID(Rt, targetType)
             if labelEdgesBy is not None:
-                edgeVals = Rt.get(labelEdgesBy)
+                edgeVals = namedValue(Rt, labelEdgesBy)
                 if edgeVals is None:
                     continue
                 if not isinstance(edgeVals, list):
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 4dae5db..8915e71 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -301,7 +301,10 @@ class RecordCollection(CollectionWithIDs):
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
         firstTags = [fullToTagDict.get(t, t) for t in firstTags]
+        givenNames = {}
         if onlyTheseTags:
+            #The names work for all types of Record, the tags only for one
+            givenNames = {fullToTagDict[t] : t for t in onlyTheseTags if t in fullToTagDict}
             onlyTheseTags = [fullToTagDict.get(t, t) for t in onlyTheseTags]
             retrievedFields = [t for t in firstTags if t in onlyTheseTags] + [t for t in onlyTheseTags if t not in firstTags]
         else:
@@ -343,7 +346,7 @@ class RecordCollection(CollectionWithIDs):
                     splitVal = [str(s) for s in splitVal]
             recDict = {}
             for t in retrievedFields:
-                value = R.get(t)
+                value = R.get(givenNames.get(t, t))
                 if isinstance(value, str):
                     recDict[t] = value
                 elif hasattr(value, '__iter__'):
@@ -730,7 +733,10 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `True`, if `True` adds the number of authors as the column `'numAuthors'`.
         """
+        givenNames = {}
         if onlyTheseTags:
+            #The names work for all types of Record, the tags only for one
+            givenNames = {fullToTagDict[t] : t for t in onlyTheseTags if t in fullToTagDict}
             onlyTheseTags = [fullToTagDict.get(t, t) for t in onlyTheseTags]
             retrievedFields = onlyTheseTags
         else:
@@ -756,8 +762,8 @@ class RecordCollection(CollectionWithIDs):
                 retDict['num-Male'].append(m)
                 retDict['num-Female'].append(f)
                 retDict['num-Unknown'].append(u)
-            for k, v in R.subDict(retrievedFields, raw = raw).items():
-                retDict[k].append(v)
+            for k in set(retrievedFields):
+                retDict[k].append(R.get(givenNames.get(k, k), raw = raw))
         return retDict
 
     def rpys(self, minYear = None, maxYear = None, dropYears = None, rankEmptyYears = False):
@@ -999,7 +1005,7 @@ class RecordCollection(CollectionWithIDs):
             def attributeMaker(Rec):
                 attribsDict = {}
                 for val in infoVals:
-                    recVal = Rec.get(val)
+                    recVal = namedValue(Rec, val)
                     if isinstance(recVal, list):
                         attribsDict[val] = ', '.join((str(v).replace(',', '') for v in recVal))
                     else:
@@ -1721,7 +1727,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                     if not detailedValues:
                         infoVals = []
                         for tag in coreValues:
-                            tagVal = R.get(tag)
+                            tagVal = namedValue(R, tag)
                             if isinstance(tagVal, str):
                                 infoVals.append(tagVal.replace(',',''))
                             elif isinstance(tagVal, list):
@@ -1731,7 +1737,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                         d['info'] = ', '.join(infoVals)
                     else:
                         for tag in coreValues:
-                            v = R.get(tag, None)
+                            v = namedValue(R, tag)
                             if isinstance(v, list):
                                 d[tag] = '|'.join(sorted(str(val) for val in v))
                             else:
@@ -1815,6 +1821,13 @@ def expandRecs(G, RecCollect, nodeType, weighted):
                             G.add_edge(citeID2, e2, **data)
 
 
+def namedValue(R, tag):
+    """The value of the WOS tag or name _tag_, looked up by its name as that is the same for all types of Record"""
+    value = R.get(tagToFullDict.get(tag, tag))
+    if value is None:
+        value = R.get(tag)
+    return value
+
 def abstractOf(R):
     """The abstract of _R_ as one string, `''` if it has none"""
     abst = R.get('abstract', '')
-- 
2.43.0


From 1ca83b934fe19fd3b634d73ff1ddf28b6715e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 089/109] fix: diffusion graphs have the citations of Scopus
 records

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 669170b..c2ae0bd 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -106,7 +106,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
                         workingGraph.nodes[val]["target"] = True
-                    targetCites = Rt.get('CR')
+                    targetCites = Rt.get('citations')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
                             for sVal in Rs:
-- 
2.43.0


From 81b095f17b04571ef63d2c351a5c30288b2c838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:28 +0000
Subject: [PATCH 090/109] fix: saving the pages of the journal abbreviations
 does not change the working directory

---
 metaknowledge/journalAbbreviations/backend.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index fb94759..6e00565 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -45,13 +45,10 @@ def _j9SaveCurrent(sDir = '.'):
     dname = os.path.normpath(sDir + '/' +  datetime.datetime.now().strftime("%Y-%m-%d_J9_AbbreviationDocs"))
     if not os.path.isdir(dname):
         os.mkdir(dname)
-        os.chdir(dname)
-    else:
-        os.chdir(dname)
     for urlID, urlString in j9urlGenerator(nameDict = True).items():
         fname = "{}_abrvjt.html".format(urlID)
-        f = open(fname, 'wb')
-        f.write(urllib.request.urlopen(urlString).read())
+        with open(os.path.join(dname, fname), 'wb') as f:
+            f.write(urllib.request.urlopen(urlString).read())
 
 def _getDict(j9Page):
     """Parses a Journal Title Abbreviations page
-- 
2.43.0


From 48a03bc5a3ab594f2f930fb25d851acc972ca737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:28 +0000
Subject: [PATCH 091/109] fix: journal names are kept when several pages list
 their abbreviation

---
 metaknowledge/journalAbbreviations/backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 6e00565..659ce36 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -86,7 +86,9 @@ def _getCurrentj9Dict():
         d = _getDict(urllib.request.urlopen(url))
         if len(d) == 0:
             raise RuntimeError("Parsing failed, this is could require an update of the parser.")
-        j9Dict.update(d)
+        for abbr, names in d.items():
+            currentNames = j9Dict.setdefault(abbr, [])
+            currentNames += [name for name in names if name not in currentNames]
     return j9Dict
 
 def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
-- 
2.43.0


From 603942414138bca44d19e7fb283d0c494367d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:14 +0000
Subject: [PATCH 092/109] fix: a failed download of the journal abbreviations
 is not reported as a damaged database

---
 metaknowledge/journalAbbreviations/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 659ce36..e2729bb 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -115,7 +115,7 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
             try:
                 j9Dict = _getCurrentj9Dict()
             except urllib.error.URLError:
-                raise urllib.error.URLError("Unable to access server, check your connection")
+                raise JournalDataBaseError("Unable to access server, check your connection")
             for k, v in j9Dict.items():
                 if k in db:
                     for jName in v:
-- 
2.43.0


From b23dbf1deadf790fac8a7d1d77eeee1e2e044959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:14 +0000
Subject: [PATCH 093/109] fix: updating the journal abbreviations adds the new
 names of those already known

---
 metaknowledge/journalAbbreviations/backend.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index e2729bb..e3c4871 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -118,9 +118,8 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
                 raise JournalDataBaseError("Unable to access server, check your connection")
             for k, v in j9Dict.items():
                 if k in db:
-                    for jName in v:
-                        if jName not in j9Dict[k]:
-                            j9Dict[k] += '|' + jName
+                    currentNames = db[k].decode('utf-8').split('|')
+                    db[k] = '|'.join(currentNames + [jName for jName in v if jName not in currentNames])
                 else:
                     db[k] = '|'.join(v)
     except dbm.dumb.error as e:
-- 
2.43.0


From 97907271e422663d89ab840f306df1b264e937cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:14 +0000
Subject: [PATCH 094/109] fix: an empty database of another name is the one
 updated when it is read

---
 metaknowledge/journalAbbreviations/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index e3c4871..c5893a1 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -153,7 +153,7 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
                 for k, v in db.items():
                     retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
     except JournalDataBaseError:
-        updatej9DB()
+        updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
     try:
         if returnDict == 'both' or returnDict == 'manual':
-- 
2.43.0


From 895acf72ea76ec50bb502baf781c2ae0c0329180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:14 +0000
Subject: [PATCH 095/109] fix: a missing manual database is reported instead of
 filled from the web

---
 metaknowledge/journalAbbreviations/backend.py | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index c5893a1..d5f27cf 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -155,18 +155,14 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
     except JournalDataBaseError:
         updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
-    try:
-        if returnDict == 'both' or returnDict == 'manual':
-            if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
-                with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
-                    for k, v in db.items():
-                        retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
-            else:
-                if returnDict == 'manual':
-                    raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = {0})".format(manualDB))
-    except JournalDataBaseError:
-        updatej9DB(dbname = manualDB)
-        return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
+    if returnDict == 'both' or returnDict == 'manual':
+        if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
+            with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
+                for k, v in db.items():
+                    retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
+        else:
+            if returnDict == 'manual':
+                raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = {0})".format(manualDB))
     return retDict
 
 def addToDB(abbr = None, dbname = manualDBname):
-- 
2.43.0


From f598500637861ad17b13074f922e46af07be2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:16 +0000
Subject: [PATCH 096/109] fix: a menu asks again after the python console
 instead of failing

---
 metaknowledge/bin/metaknowledgeCLI.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index 2e4d4ce..4fd3350 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -62,9 +62,10 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
             else:
                 bannerMsg += '.'
         code.interact(local = globals(), banner = bannerMsg)
+        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg, extraOptions = extraOptions)
     else:
         print('\033[93m\a' + errorMsg + '\033[0m') #Not windows compatible
-        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
+        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg, extraOptions = extraOptions)
 
 def getOutputName(clargs, suffix, prompt = "What do you wish to call the output file? ", errorMsg = 'That is not a valid file name.', checking = True):
     if clargs.name:
-- 
2.43.0


From 67a8afb24b6be85d8afc22cffcf52b3fd49e9676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:50 +0000
Subject: [PATCH 097/109] fix: citeFilter looks at the citations after one
 without the part

---
 metaknowledge/recordCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8915e71..aa3e9f2 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1558,7 +1558,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.journal:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'year':
                     for cite in R.get('citations'):
@@ -1578,7 +1578,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.V:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'P':
                     for cite in R.get('citations'):
@@ -1586,7 +1586,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.P:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'misc':
                     for cite in R.get('citations'):
@@ -1594,7 +1594,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.misc:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'anonymous':
                     for cite in R.get('citations'):
-- 
2.43.0


From 03bf290c3d9be359a8f9a9ba4f3d1e665732fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 098/109] fix: getCitations drops the citations missing the
 named field

---
 metaknowledge/mkRecord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 454e916..47671db 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -578,7 +578,7 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             for cite in self.get('citations', []):
                 try:
                     targetVal = getattr(cite, field)
-                    if values is None or targetVal in values:
+                    if targetVal is not None and (values is None or targetVal in values):
                         retCites.append(cite)
                 except AttributeError:
                     pass
-- 
2.43.0


From 939c8133975f27fc4337d590f7b422160eca2e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:06 +0000
Subject: [PATCH 099/109] fix: isJournal answers from the data bases it is
 asked about

---
 metaknowledge/citation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index dda0514..8ffcacd 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -14,6 +14,7 @@ import metaknowledge
 
 #For journalAbbreviations, to reduce the number of times we read the dict
 abbrevDict = None
+abbrevDictSource = None #The arguments abbrevDict was read with
 
 class Citation(collections.abc.Hashable):
     """A class to hold citation strings and allow for comparison between them.
@@ -287,9 +288,10 @@ class Citation(collections.abc.Hashable):
 
         > `True` if the `Citation` is for a journal
         """
-        global abbrevDict
-        if abbrevDict is None:
+        global abbrevDict, abbrevDictSource
+        if abbrevDict is None or abbrevDictSource != (dbname, manualDB, returnDict):
             abbrevDict = getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
+            abbrevDictSource = (dbname, manualDB, returnDict)
         if not hasattr(self, 'journal'):
             return False
         elif checkIfExcluded and self.journal:
@@ -321,9 +323,6 @@ class Citation(collections.abc.Hashable):
 
         > The first full name given for the journal of the Citation (or the first name in the WOS list if multiple names exist), if there is not one then `None` is returned
         """
-        global abbrevDict
-        if abbrevDict is None:
-            abbrevDict = getj9dict()
         if self.isJournal():
             return abbrevDict[self.journal][0]
         else:
@@ -359,7 +358,7 @@ class Citation(collections.abc.Hashable):
         except KeyError:
             raise KeyError("This citation does not have a journal field.")
         else:
-            if abbrevDict is not None:
+            if abbrevDict is not None and abbrevDictSource[1] == manualDB and abbrevDictSource[2] != 'WOS':
                 abbrevDict.update({k : v.split('|') for k, v in d.items()})
 
 def filterNonJournals(citesLst, invert = False):
-- 
2.43.0


From 0809f8451f9ba8e1535e9eb27c9155925ca567ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:44 +0000
Subject: [PATCH 100/109] fix: readable BibTeX keys have no characters that end
 a key

---
 metaknowledge/mkRecord.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 47671db..9999c2c 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -12,6 +12,7 @@
 """
 
 import abc
+import re
 try:
     import collections.abc
 except ImportError:
@@ -745,6 +746,7 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
                     bibID += '-' + tiSorted.pop().title() #Title Case
             if len(bibID) < 30:
                 bibID += str(self.id)
+            bibID = re.sub(r'[\s"#%\'(),={}]', '-', bibID) #None of these can be in a key
         elif WOSMode:
             bibID = 'ISI:{}'.format(self.id[4:])
         else:
-- 
2.43.0


From a4623ed4c69e825b29b8db7c10d74be1a4a0d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:21 +0000
Subject: [PATCH 101/109] fix: grants of more than one line have the number of
 the first and all of the text

---
 metaknowledge/grants/baseGrant.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index 79e996b..08818c4 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -114,16 +114,21 @@ class Grant(Record, collections.abc.MutableMapping):
             self._fieldDict.update(other._fieldDict)
 
 def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
-    currentData = {
-    'currentLineNum' : -1,
-    'currentLineString' : '',
-    }
-    def readerWithSideEffects(target, datDict):
-        for datDict['currentLineNum'], datDict['currentLineString'] in target:
-            yield datDict['currentLineString']
-    reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
+    #A row can be more than one line, so all those read since the last row are kept
+    currentLines = []
+    def readerWithSideEffects(target):
+        for lineNum, lineString in target:
+            #The csv reader skips the empty lines between rows
+            if currentLines or lineString.strip('\r\n'):
+                currentLines.append((lineNum, lineString))
+            yield lineString
+    reader = csv.DictReader(readerWithSideEffects(enumeratedFile), *csvArgs, **csvKwargs)
+    if reader.fieldnames is not None:
+        #The lines of the header
+        currentLines.clear()
     for row in reader:
-        yield currentData['currentLineNum'], currentData['currentLineString'], row
+        yield currentLines[0][0], ''.join(s for n, s in currentLines), row
+        currentLines.clear()
 
 class FallbackGrant(Grant):
     """A subclass of [Grant](./grants.html#metaknowledge.grants.Grant), it has the same attributes and is returned from the fall back constructor for grants.
-- 
2.43.0


From 0cfceee30a97af2b323402da4429bd965141c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:46 +0000
Subject: [PATCH 102/109] fix: NSF elements given more than once are all kept

---
 metaknowledge/grants/nsfGrant.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index de966a5..b30c761 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -115,11 +115,16 @@ def parserNSFfile(fileName):
         for xmlElement in top:
             if xmlElement.tag == 'Organization' or xmlElement.tag == 'Investigator':
                 continue
-            elif len(xmlElement) < 1:
+            elif len(xmlElement) < 1 and len(top.findall(xmlElement.tag)) == 1:
                 grantDict[xmlElement.tag] = xmlElement.text
             else:
                 if xmlElement.tag not in grantDict:
                     grantDict[xmlElement.tag] = []
+                if len(xmlElement) < 1:
+                    #One of many with the same tag
+                    if xmlElement.text is not None:
+                        grantDict[xmlElement.tag].append(xmlElement.text)
+                    continue
                 elmComps = []
                 for subElement in xmlElement:
                     if subElement.text is not None:
-- 
2.43.0


From 557403e7dd7a913c1c28a7d53ab6714e63a43f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:00 +0000
Subject: [PATCH 103/109] fix: density plots are made with any version of
 matplotlib

---
 metaknowledge/contour/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index 8576ff4..d28fdfb 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -110,7 +110,7 @@ def graphDensityContourPlot(G, iters = 50, layout = None, layoutScaleFactor = 1,
         raise TypeError("{} is not a valid input.".format(type(layout)))
     fig = plt.figure()
     #axis = fig.add_subplot(111)
-    axis = fig.gca(projection='3d')
+    axis = fig.add_subplot(projection='3d')
     if overlay:
         nx.draw_networkx(G, pos = layout, ax = axis, node_size = nodeSize, with_labels = False, edgelist = [])
     grid = ndi.gaussian_filter(grid, (blurringFactor * axisSamples, blurringFactor * axisSamples))
-- 
2.43.0


From 7d84ca8688d8d6bd0076c4d5bf846f690a0c0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:00 +0000
Subject: [PATCH 104/109] fix: density plots have nodes left of and below the
 origin in their own cells

---
 metaknowledge/contour/plotting.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index d28fdfb..1b9d378 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -92,22 +92,20 @@ def graphDensityContourPlot(G, iters = 50, layout = None, layoutScaleFactor = 1,
     if not isinstance(G, nx.classes.digraph.DiGraph) and not isinstance(G, nx.classes.graph.Graph):
         raise TypeError("{} is not a valid input.".format(type(G)))
     if layout is None:
-        layout = nx.spring_layout(G, scale = axisSamples - 1, iterations = iters)
-        grid = np.zeros( [axisSamples, axisSamples],dtype=np.float32)
-        for v in layout.values():
-            x, y = tuple(int(x) for x in v.round(0))
-            grid[y][x] += 1
+        layout = nx.spring_layout(G, iterations = iters)
+        layoutScaleFactor = 1
     elif isinstance(layout, dict):
         layout = layout.copy()
-        grid = np.zeros([axisSamples, axisSamples],dtype=np.float32)
-        multFactor = (axisSamples - 1) / layoutScaleFactor
-        for k in layout.keys():
-            tmpPos = layout[k] * multFactor
-            layout[k] = tmpPos
-            x, y = tuple(int(x) for x in tmpPos.round(0))
-            grid[y][x] += 1
     else:
         raise TypeError("{} is not a valid input.".format(type(layout)))
+    grid = np.zeros([axisSamples, axisSamples],dtype=np.float32)
+    #The layout is centered at the origin, but the first cell of the grid is at its corner
+    multFactor = (axisSamples - 1) / (2 * layoutScaleFactor)
+    for k in layout.keys():
+        tmpPos = (np.array(layout[k]) + layoutScaleFactor) * multFactor
+        layout[k] = tmpPos
+        x, y = tuple(int(x) for x in tmpPos.round(0))
+        grid[y][x] += 1
     fig = plt.figure()
     #axis = fig.add_subplot(111)
     axis = fig.add_subplot(projection='3d')
-- 
2.43.0


From 68b982ea21bc2fc5be64443fc161a55c79037bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:00 +0000
Subject: [PATCH 105/109] fix: quickVisual draws graphs without nodes and
 always refuses those with only some of their types

---
 metaknowledge/contour/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index 1b9d378..0e9af74 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -19,14 +19,14 @@ def quickVisual(G, showLabel = False):
     ax = f.add_subplot(1,1,1)
     ndTypes = []
     ndColours = []
-    layout = nx.spring_layout(G, k = 4 / math.sqrt(len(G.nodes())))
+    layout = nx.spring_layout(G, k = 4 / math.sqrt(max(len(G.nodes()), 1)))
     for nd in G.nodes(data = True):
         if 'type' in nd[1]:
             if nd[1]['type'] not in ndTypes:
                 ndTypes.append(nd[1]['type'])
             ndColours.append(colours[ndTypes.index(nd[1]['type']) % len(colours)])
-        elif len(ndColours) > 1:
-            raise RuntimeError("Some nodes do not have a type")
+    if 0 < len(ndColours) < len(G.nodes()):
+        raise RuntimeError("Some nodes do not have a type")
     if len(ndColours) < 1:
         nx.draw_networkx_nodes(G, pos = layout, node_color = colours[0], node_shape = '8', node_size = 100, ax = ax)
     else:
-- 
2.43.0


From 6dc823ac98c33c75ea1a9447c33383b26fc71b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:50 +0000
Subject: [PATCH 106/109] fix: merge the edges of multigraphs by their keys

---
 metaknowledge/graphHelpers.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 12558e4..cf8fe37 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -730,17 +730,22 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
         else:
             if not targetGraph.has_node(addedNode):
                 targetGraph.add_node(addedNode, **attribs)
-    for edgeNode1, edgeNode2, attribs in addedGraph.edges(data = True):
+    if targetGraph.is_multigraph() and addedGraph.is_multigraph():
+        #The edges of multigraphs are identified by their nodes and key
+        addedEdges = addedGraph.edges(keys = True, data = True)
+    else:
+        addedEdges = addedGraph.edges(data = True)
+    for *edge, attribs in addedEdges:
         if incrementedEdgeVal:
             try:
-                targetGraph.edges[edgeNode1, edgeNode2][incrementedEdgeVal] += attribs[incrementedEdgeVal]
+                targetGraph.edges[tuple(edge)][incrementedEdgeVal] += attribs[incrementedEdgeVal]
             except KeyError:
-                if targetGraph.has_edge(edgeNode1, edgeNode2):
-                    attribs = dict(attribs, **targetGraph.edges[edgeNode1, edgeNode2])
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+                if targetGraph.has_edge(*edge):
+                    attribs = dict(attribs, **targetGraph.edges[tuple(edge)])
+                targetGraph.add_edge(*edge, **attribs)
         else:
-            if not targetGraph.has_edge(edgeNode1, edgeNode2):
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+            if not targetGraph.has_edge(*edge):
+                targetGraph.add_edge(*edge, **attribs)
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
     """Returns a string or list containing statistics about the graph _G_.
-- 
2.43.0


From 309914a51e893fe67403d7577c08f720bb83b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:42 +0000
Subject: [PATCH 107/109] fix: write collections under names with slashes

---
 metaknowledge/recordCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index aa3e9f2..e9527c3 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -236,7 +236,7 @@ class RecordCollection(CollectionWithIDs):
         if fname:
             f = open(fname, mode = 'w', encoding = recEncoding)
         else:
-            f = open(self.name[:200] + '.txt', mode = 'w', encoding = recEncoding)
+            f = open(self.name[:200].replace('/', '_').replace(os.sep, '_') + '.txt', mode = 'w', encoding = recEncoding)
         if collectedTypes == {'WOSRecord'}:
             f.write("\ufeffFN Thomson Reuters Web of Science\u2122\n")
             f.write("VR 1.0\n")
@@ -320,7 +320,7 @@ class RecordCollection(CollectionWithIDs):
         if fname:
             baseFileName = fname
         else:
-            baseFileName = "{}.csv".format(self.name[:200])
+            baseFileName = "{}.csv".format(self.name[:200].replace('/', '_').replace(os.sep, '_'))
         if numAuthors:
             csvWriterFields = retrievedFields + ["num-Authors"]
         else:
@@ -419,7 +419,7 @@ class RecordCollection(CollectionWithIDs):
         if fname:
             f = open(fname, mode = 'w', encoding = 'utf-8')
         else:
-            f = open(self.name[:200] + '.bib', mode = 'w', encoding = 'utf-8')
+            f = open(self.name[:200].replace('/', '_').replace(os.sep, '_') + '.bib', mode = 'w', encoding = 'utf-8')
         f.write("%This file was generated by the metaknowledge Python package.\n%The contents have been automatically generated and are likely to not work with\n%LaTeX without some human intervention. This file is meant for other automatic\n%systems and not to be used directly for making citations\n")
         #I figure this is worth mentioning, as someone will get annoyed at none of the special characters being escaped and how terrible some of the fields look to humans
         for R in self:
-- 
2.43.0


From 449880fa16aba12286975343f39073050448bb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 108/109] fix: give records as bytes in their own format

---
 metaknowledge/mkRecord.py         | 14 ++++----------
 metaknowledge/recordCollection.py |  2 ++
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 9999c2c..f546916 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -12,6 +12,7 @@
 """
 
 import abc
+import io
 import re
 try:
     import collections.abc
@@ -179,16 +180,9 @@ class Record(collections.abc.Mapping, collections.abc.Hashable):
         if self.bad:
             raise BadRecord("This record cannot be converted to binary as the input was malformed.\nThe original line number (if any) is: {} and the original file is: '{}'".format(self._sourceLine, self._sourceFile))
         else:
-            strLst = []
-            for tag in self._fieldDict.keys():
-                for i, value in enumerate(self._fieldDict[tag]):
-                    if i == 0:
-                        strLst.append(tag + ' ')
-                    else:
-                        strLst.append('   ')
-                    strLst.append(value + '\n')
-            strLst.append("ER\n")
-            return bytes(''.join(strLst), self.encoding())
+            f = io.StringIO()
+            self.writeRecord(f)
+            return bytes(f.getvalue(), self.encoding())
 
     def __getstate__(self):
         #Makes a slightly smaller object than __dict__
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index e9527c3..eef449e 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -171,6 +171,8 @@ class RecordCollection(CollectionWithIDs):
                 PBar.finish("Done making a RecordCollection. Warning an error occured.")
 
     def __bytes__(self):
+        if len(self) == 0:
+            return b''
         encoding = self.peek().encoding()
         try:
             return bytes('\n', encoding = encoding).join((bytes(R) for R in self))
-- 
2.43.0


From 69d2df3778adf4ae23db03c3b5ad2926728c59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:10 +0000
Subject: [PATCH 109/109] fix: keep the last character of Medline files without
 a final newline

---
 metaknowledge/medline/recordMedline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index db16674..3b15942 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -112,7 +112,7 @@ def medlineRecordParser(record):
     mostRecentAuthor = None
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
-        contents = line[6:-1]
+        contents = line[6:].rstrip('\n')
         if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
@@ -124,7 +124,7 @@ def medlineRecordParser(record):
             except KeyError:
                 tagDict[tag] = [contents]
         elif line[:6] == '      ':
-            tagDict[tag][-1] += '\n' + line[6:-1]
+            tagDict[tag][-1] += '\n' + line[6:].rstrip('\n')
         elif line == '\n':
             break
         else:
-- 
2.43.0

