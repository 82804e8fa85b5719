From f6da7078e2719ac4a897174c5cfbb72a252b7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 01/40] fix: PatriciaTrie reports a subscription that is the
 common prefix of all

---
 filtering/patricia_trie.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 85dfca7..a6e3a00 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -438,6 +438,10 @@ func NewPatriciaTrie(sub Subscriptions) Engine {
 	}
 	pt.root = &PatriciaTrieNode{}
 	pt.root.filterObject = NewFilter(p1, 0)
+	// the common prefix itself may be a subscription
+	if psub, ok := bsub[p1]; ok {
+		pt.root.reportURI = psub.ReportURI
+	}
 	pt.root.build(p1, bsub)
 
 	// initialize the tdt.Core
-- 
2.43.0


From 71e38150fbf8739e25d220d66aaa845d43469d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 02/40] fix: PatriciaTrie loses a lone zero branch when
 restored from its binary form

---
 filtering/patricia_trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index a6e3a00..b61156a 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -171,7 +171,7 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 	if err = dec.Decode(&hasZero); err != nil {
 		return
 	}
-	if hasOne {
+	if hasZero {
 		err = dec.Decode(&ptn.zero)
 	} else {
 		ptn.zero = nil
-- 
2.43.0


From 29272dc4dc657f565b9fcfe1d309a616d94ef40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 03/40] fix: PatriciaTrie drops filters when a broader one is
 added later

---
 filtering/patricia_trie.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index b61156a..cf48ac8 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -205,7 +205,16 @@ func (ptn *PatriciaTrieNode) add(fs string, reportURI string) {
 		currentOffset := ptn.filterObject.Offset
 		ptn.filterObject = NewFilter(newCommonPrefix, currentOffset)
 		if ncpLength >= len(fs) {
-			return
+			// fs is the common prefix itself, keep the old node below it
+			ptn.reportURI = reportURI
+			ptn.one, ptn.zero = nil, nil
+			switch newNode.filterObject.String[0] {
+			case '1':
+				ptn.one = newNode
+			case '0':
+				ptn.zero = newNode
+			}
+			return //end
 		}
 		switch fs[ncpLength] {
 		case '1':
-- 
2.43.0


From a5e24f3593f5d722f71ab6eb2450a96987be7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 04/40] fix: PatriciaTrie keeps its last subscription after it
 is deleted

---
 filtering/patricia_trie.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index cf48ac8..d821918 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -337,6 +337,8 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 			ptn.reportURI = ptn.zero.reportURI
 			ptn.one = ptn.zero.one
 			ptn.zero = ptn.zero.zero
+		} else { // has no child
+			ptn.reportURI = ""
 		}
 		return //end
 	}
-- 
2.43.0


From 868c4b649959c1f268ccffdf47431736cb2097fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 05/40] fix: PatriciaTrie deletes a filter that belongs to
 another reportURI

---
 filtering/patricia_trie.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index d821918..23e65ce 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -323,6 +323,10 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 
 	// This is the filter to delete
 	if fs == ptn.filterObject.String {
+		// the filter belongs to another subscription
+		if ptn.reportURI != reportURI {
+			return
+		}
 		if ptn.one != nil && ptn.zero != nil { // node in the middle
 			ptn.reportURI = ""
 		} else if ptn.one != nil { // has only one node
@@ -349,7 +353,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '1':
 			if ptn.one != nil {
 				if fs[ptn.filterObject.Size:] == ptn.one.filterObject.String &&
-					ptn.one.one == nil && ptn.one.zero == nil {
+					ptn.one.one == nil && ptn.one.zero == nil && ptn.one.reportURI == reportURI {
 					ptn.one = nil
 				} else {
 					ptn.one.delete(fs[ptn.filterObject.Size:], reportURI)
@@ -358,7 +362,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '0':
 			if ptn.zero != nil {
 				if fs[ptn.filterObject.Size:] == ptn.zero.filterObject.String &&
-					ptn.zero.one == nil && ptn.zero.zero == nil {
+					ptn.zero.one == nil && ptn.zero.zero == nil && ptn.zero.reportURI == reportURI {
 					ptn.zero = nil
 				} else {
 					ptn.zero.delete(fs[ptn.filterObject.Size:], reportURI)
-- 
2.43.0


From 5634f2417ff6f71e5d83a0b5959ec0f2b7e050bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 06/40] fix: a filter panics on an identifier shorter than
 itself

---
 filtering/filter_object.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filtering/filter_object.go b/filtering/filter_object.go
index f047b0e..93f0192 100644
--- a/filtering/filter_object.go
+++ b/filtering/filter_object.go
@@ -57,6 +57,13 @@ func (f *FilterObject) HasByteAt(bo int) bool {
 // Match returns true if the id is captured by this filter
 func (f *FilterObject) Match(id []byte) bool {
 	for i := 0; i < f.ByteSize; i++ {
+		if f.ByteOffset+i >= len(id) {
+			// the id is too short for this filter, unless the rest is wildcard
+			if f.ByteMask[i] != 255 {
+				return false
+			}
+			continue
+		}
 		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
 			return false
 		}
-- 
2.43.0


From c114d759bb1ef97e7f99039c4f772cc4d0856500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 07/40] fix: SplayTree moves nested filters to the root of the
 tree on search

---
 filtering/splay_tree.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 6e9b33a..3b0787a 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -76,7 +76,7 @@ func (st *SplayTree) Name() string {
 
 // Search returns a pureIdentity of the llrp.ReadEvent if found any subscription without err
 func (st *SplayTree) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs []string, err error) {
-	reportURIs = st.root.splaySearch(st, nil, re.ID)
+	reportURIs = st.root.splaySearch(&st.root, nil, re.ID)
 	if len(reportURIs) == 0 {
 		return pureIdentity, reportURIs, fmt.Errorf("no match found for %v", re.ID)
 	}
@@ -316,27 +316,28 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 	}
 }
 
-func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id []byte) []string {
+// splaySearch searches the mismatchNext chain starting at head and moves the match to its front
+func (stn *SplayTreeNode) splaySearch(head **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
 		matches = append(matches, stn.reportURI)
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
-			matches = append(matches, stn.matchNext.splaySearch(st, nil, id)...)
+			matches = append(matches, stn.matchNext.splaySearch(&stn.matchNext, nil, id)...)
 		}
 		// Do Splay
 		// 0. Check if this is the root node, do nothing if so
 		if parent != nil {
 			// 1. Remove this node by connecting parent to the next mismatchNext node
 			parent.mismatchNext = stn.mismatchNext
-			// 2. Insert self to root
-			stn.mismatchNext = st.root
-			st.root = stn
+			// 2. Insert self to the head of the chain
+			stn.mismatchNext = *head
+			*head = stn
 		}
 		return matches
 	}
 	if stn.mismatchNext != nil {
-		return stn.mismatchNext.splaySearch(st, stn, id)
+		return stn.mismatchNext.splaySearch(head, stn, id)
 	}
 	return matches
 }
-- 
2.43.0


From 0023aed7f49ec04d2e685f7ffc83992566b4d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 08/40] fix: SplayTree reports an empty reportURI for an
 aggregation node

---
 filtering/splay_tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 3b0787a..68ef3cf 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -320,7 +320,9 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 func (stn *SplayTreeNode) splaySearch(head **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
-		matches = append(matches, stn.reportURI)
+		if len(stn.reportURI) != 0 { // not an aggregation node
+			matches = append(matches, stn.reportURI)
+		}
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
 			matches = append(matches, stn.matchNext.splaySearch(&stn.matchNext, nil, id)...)
-- 
2.43.0


From eb8c37cfa9405149ada39d7be92e39dfb0f43bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 09/40] fix: SplayTree without subscriptions panics

---
 filtering/splay_tree.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 68ef3cf..26a1ef9 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -182,6 +182,11 @@ func (stn *SplayTreeNode) UnmarshalBinary(data []byte) (err error) {
 
 // add a set of subscriptions if not exists yet
 func (stn *SplayTreeNode) add(fs string, reportURI string) {
+	if stn.filterObject == nil { // the tree is empty
+		stn.filterObject = NewFilter(fs, 0)
+		stn.reportURI = reportURI
+		return
+	}
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // the identical filter
 			// if the reportURI is different, update it
@@ -234,6 +239,9 @@ func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 
 // delete a set of subscriptions if not exists yet
 func (stn *SplayTreeNode) delete(fs string, reportURI string) {
+	if stn.filterObject == nil { // the tree is empty
+		return
+	}
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // this node is to delete
 			if stn.matchNext == nil && stn.mismatchNext == nil { // something wrong
@@ -301,6 +309,9 @@ func (stn *SplayTreeNode) equal(want *SplayTreeNode) (ok bool, got *SplayTreeNod
 }
 
 func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
+	if stn.filterObject == nil { // the tree is empty
+		return
+	}
 	var n string
 	if len(stn.reportURI) != 0 {
 		n = "-> " + stn.reportURI
@@ -319,6 +330,9 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 // splaySearch searches the mismatchNext chain starting at head and moves the match to its front
 func (stn *SplayTreeNode) splaySearch(head **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
+	if stn.filterObject == nil { // the tree is empty
+		return matches
+	}
 	if stn.filterObject.Match(id) {
 		if len(stn.reportURI) != 0 { // not an aggregation node
 			matches = append(matches, stn.reportURI)
-- 
2.43.0


From 2205bc75c09c22b30cc7cc7160b90997e8891eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 10/40] fix: SplayTree keeps its last subscription after it is
 deleted

---
 filtering/splay_tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 26a1ef9..2fa08f0 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -244,7 +244,9 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	}
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // this node is to delete
-			if stn.matchNext == nil && stn.mismatchNext == nil { // something wrong
+			if stn.matchNext == nil && stn.mismatchNext == nil { // the last node of the tree
+				stn.filterObject = nil
+				stn.reportURI = ""
 			} else if stn.matchNext != nil { // if there is subset, keep the node as an aggregation node
 				if stn.matchNext.mismatchNext != nil {
 					stn.reportURI = ""
-- 
2.43.0


From 92a61d865d7a78ac938c89e59d47535c3a45e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 11/40] fix: SplayTree deletes a filter that belongs to another
 reportURI

---
 filtering/splay_tree.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 2fa08f0..fb5f005 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -244,6 +244,10 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	}
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // this node is to delete
+			// the filter belongs to another subscription
+			if stn.reportURI != reportURI {
+				return
+			}
 			if stn.matchNext == nil && stn.mismatchNext == nil { // the last node of the tree
 				stn.filterObject = nil
 				stn.reportURI = ""
@@ -264,7 +268,8 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 		} else { // it's a subset (matching branch) of the current node, and there's no matchNext node
 			if stn.matchNext != nil { // if there's a matchNext node
 				if fs[stn.filterObject.Size:] == stn.matchNext.filterObject.String &&
-					stn.matchNext.matchNext == nil && stn.matchNext.mismatchNext == nil { // the matchNext is to delete
+					stn.matchNext.matchNext == nil && stn.matchNext.mismatchNext == nil &&
+					stn.matchNext.reportURI == reportURI { // the matchNext is to delete
 					stn.matchNext = nil
 				} else {
 					stn.matchNext.delete(fs[stn.filterObject.Size:], reportURI)
@@ -274,7 +279,8 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext != nil { // there's a mismatchNext node
 			if fs == stn.mismatchNext.filterObject.String &&
-				stn.mismatchNext.matchNext == nil && stn.mismatchNext.mismatchNext == nil {
+				stn.mismatchNext.matchNext == nil && stn.mismatchNext.mismatchNext == nil &&
+				stn.mismatchNext.reportURI == reportURI {
 				stn.mismatchNext = nil
 			} else {
 				stn.mismatchNext.delete(fs, reportURI)
-- 
2.43.0


From 28d7bdd301dc18584ae16b24761eb5bad6b65e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 12/40] fix: SplayTree misses filters when a broader one is
 added later

---
 filtering/splay_tree.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index fb5f005..806ddc5 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -202,6 +202,32 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 				stn.matchNext.add(fs[stn.filterObject.Size:], reportURI)
 			}
 		}
+	} else if strings.HasPrefix(stn.filterObject.String, fs) { // the current node is a subset of fs
+		// move this node and the other subsets of fs in the chain under the new node
+		rebase := func(f *FilterObject) *FilterObject {
+			return NewFilter(f.String[len(fs):], f.Offset+len(fs))
+		}
+		subset := &SplayTreeNode{
+			reportURI:    stn.reportURI,
+			filterObject: rebase(stn.filterObject),
+			matchNext:    stn.matchNext,
+		}
+		tail := subset
+		for prev := stn; prev.mismatchNext != nil; {
+			next := prev.mismatchNext
+			if !strings.HasPrefix(next.filterObject.String, fs) {
+				prev = next
+				continue
+			}
+			prev.mismatchNext = next.mismatchNext
+			next.filterObject = rebase(next.filterObject)
+			next.mismatchNext = nil
+			tail.mismatchNext = next
+			tail = next
+		}
+		stn.filterObject = NewFilter(fs, stn.filterObject.Offset)
+		stn.reportURI = reportURI
+		stn.matchNext = subset
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext == nil { // there's no mismatchNext node
 			stn.mismatchNext = &SplayTreeNode{}
-- 
2.43.0


From 1139559bf195055ac1b2b8c6a2660e6a22c97582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 13/40] fix: ISO 17363 filters carry a wrong check digit

---
 tdt/iso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdt/iso.go b/tdt/iso.go
index 496bb84..8fdd5bb 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -79,7 +79,7 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 	} else if 6 < len(csn) {
 		return "", fmt.Errorf("Invalid csn: %v", csn)
 	}
-	cd, err := getISO6346CD(fields[0] + fields[1] + csn)
+	cd, err := getISO6346CD(fields[1] + fields[2] + csn)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From b8c9e35401e6c3f8037ad28ad4b8d2d83e3a882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 14/40] fix: LegacyEngine deletes the wrong patterns when
 several go at once

---
 filtering/legacy_engine.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 9b65599..4f3657d 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -34,12 +34,12 @@ func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 // DeleteSubscription deletes a set of subscriptions if already exist
 func (le *LegacyEngine) DeleteSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
+		if _, ok := le.filters[f]; !ok {
 			continue
 		} else {
 			for _, dest := range sub[f] {
-				if i := stringIndexInSlice(dest, reportURIs); i > -1 {
-					le.filters[f] = append(reportURIs[:i], reportURIs[i+1:]...)
+				for i := stringIndexInSlice(dest, le.filters[f]); i > -1; i = stringIndexInSlice(dest, le.filters[f]) {
+					le.filters[f] = append(le.filters[f][:i], le.filters[f][i+1:]...)
 				}
 			}
 			if len(le.filters[f]) == 0 {
-- 
2.43.0


From cce0488ca13b03bbf886f2ec4ecb984c7d3dccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 15/40] fix: LegacyEngine shares its patterns with the caller
 of AddSubscription

---
 filtering/legacy_engine.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 4f3657d..db6e648 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -19,11 +19,12 @@ type LegacyEngine struct {
 // AddSubscription adds a set of subscriptions if not exists yet
 func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
-			le.filters[f] = sub[f]
+		if _, ok := le.filters[f]; !ok {
+			// do not share the slice with the caller
+			le.filters[f] = append([]string{}, sub[f]...)
 		} else {
 			for _, dest := range sub[f] {
-				if stringIndexInSlice(dest, reportURIs) < 0 {
+				if stringIndexInSlice(dest, le.filters[f]) < 0 {
 					le.filters[f] = append(le.filters[f], dest)
 				}
 			}
-- 
2.43.0


From f701d93027c77d5ee5e423607d7ad4703031688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 16/40] fix: LegacyEngine cannot be restored from its binary
 form

---
 filtering/legacy_engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index db6e648..2334048 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -153,6 +153,7 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	le.filters = Subscriptions{}
 	for i := 0; i < legacyEngineSize; i++ {
 		var f string
 		// filter
@@ -164,12 +165,15 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		var reportURIs []string
-		for j := 0; j < legacyEngineSize; j++ {
+		for j := 0; j < reportURIsSize; j++ {
 			// reportURI
 			var dest string
-			err = dec.Decode(&dest)
+			if err = dec.Decode(&dest); err != nil {
+				return
+			}
 			reportURIs = append(reportURIs, dest)
 		}
+		le.filters[f] = reportURIs
 	}
 
 	// tdt.Core
-- 
2.43.0


From 00f54633b4709b9139430bb23bd1d22dcd652864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 17/40] fix: LegacyEngine matches EPC patterns on part of a
 field

---
 filtering/legacy_engine.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 2334048..a4615dd 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -126,9 +126,16 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 			case "iso17365":
 				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
 			}
-			if strings.HasPrefix(strings.TrimPrefix(pureIdentity, "urn:epc:id:"), pattern) {
-				reportURIs = append(reportURIs, reportURI)
+			identity := strings.TrimPrefix(pureIdentity, "urn:epc:id:")
+			if !strings.HasPrefix(identity, pattern) {
+				continue
+			}
+			// the fields of an EPC have to match in whole
+			if strings.HasSuffix(patternType, "-96") && !strings.HasSuffix(pattern, ":") &&
+				len(identity) > len(pattern) && identity[len(pattern)] != '.' {
+				continue
 			}
+			reportURIs = append(reportURIs, reportURI)
 		}
 	}
 	if len(reportURIs) == 0 {
-- 
2.43.0


From 447c8e3ecaab13cb55d15aa03e3d1cdeb4ef2031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 18/40] fix: LegacyEngine matches patterns of an unknown type

---
 filtering/legacy_engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index a4615dd..412c461 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -125,6 +125,8 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
 			case "iso17365":
 				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
+			default: // unknown patternType
+				continue
 			}
 			identity := strings.TrimPrefix(pureIdentity, "urn:epc:id:")
 			if !strings.HasPrefix(identity, pattern) {
-- 
2.43.0


From b3190f7a3f8eda6db3579c644d6a9ef897e68fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 19/40] fix: a malformed pattern subscribes to every tag

---
 filtering/subscriptions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index ddbdfa4..28281fc 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -129,6 +129,7 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 			pfs, err := tdt.MakePrefixFilterString(tf[0], fields)
 			if err != nil {
 				log.Print(err)
+				continue
 			}
 			bsub[pfs] = &PartialSubscription{
 				Offset:    0,
-- 
2.43.0


From e34b4164e5cc6528309937a02f86613a4981821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 20/40] fix: restoring into an engine in use keeps its old
 subscriptions

---
 filtering/list.go          | 1 +
 filtering/patricia_trie.go | 1 +
 filtering/splay_tree.go    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/filtering/list.go b/filtering/list.go
index 1a9a8e1..c70d0d0 100644
--- a/filtering/list.go
+++ b/filtering/list.go
@@ -135,6 +135,7 @@ func (list *List) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	list.filters = nil
 	for i := 0; i < listSize; i++ {
 		em := ExactMatch{}
 		// Notify
diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 23e65ce..eb693a3 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -95,6 +95,7 @@ func (pt *PatriciaTrie) UnmarshalBinary(data []byte) (err error) {
 	}
 
 	// Decode PatriciaTrieNode
+	pt.root = nil
 	err = dec.Decode(&pt.root)
 
 	// tdt.Core
diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 806ddc5..d725658 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -95,6 +95,7 @@ func (st *SplayTree) UnmarshalBinary(data []byte) (err error) {
 	}
 
 	// Decode SplayTreeNode
+	st.root = nil
 	err = dec.Decode(&st.root)
 
 	// tdt.Core
-- 
2.43.0


From 33f39ea5aecafa591b0bbefeae2f2bc3983e1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 21/40] fix: translating a malformed EPC panics or returns a
 broken identity

---
 tdt/core.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/tdt/core.go b/tdt/core.go
index f4e3877..abae2f2 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -81,8 +81,53 @@ func (c *Core) Translate(pc []byte, id []byte) (string, error) {
 	return c.buildProprietary(id)
 }
 
+// checkEPC96 returns an error if the id is not a valid EPC in 96 bits, i.e. the
+// partition value is reserved or a field doesn't fit in its number of digits
+func checkEPC96(id []byte) error {
+	if len(id) != 12 {
+		return errors.New("Invalid ID")
+	}
+	var pt PartitionTable
+	var refBits, refDigits PartitionTableKey
+	switch id[0] {
+	case 48:
+		pt, refBits, refDigits = SGTIN96PartitionTable, IRBits, IRDigits
+	case 49:
+		pt, refBits, refDigits = SSCC96PartitionTable, EBits, EDigits
+	case 51:
+		pt, refBits, refDigits = GRAI96PartitionTable, ATBits, ATDigits
+	case 52:
+		pt, refBits, refDigits = GIAI96PartitionTable, IARBits, IARDigits
+	default:
+		return errors.New("unknown EPC header")
+	}
+	for cpLength, pr := range pt {
+		if pr[PValue] != int((id[1]&28)>>2) { // 28: 00011100
+			continue
+		}
+		// the fields come after the header, the filter and the partition (14 bits)
+		z := new(big.Int).SetBytes(id)
+		field := func(offset int, bits int) *big.Int {
+			v := new(big.Int).Rsh(z, uint(96-offset-bits))
+			return v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
+		}
+		if len(field(14, pr[CPBits]).String()) > cpLength {
+			return errors.New("companyPrefix out of range")
+		}
+		// no digit for the reference means that it's not in use
+		if pr[refDigits] != 0 && len(field(14+pr[CPBits], pr[refBits]).String()) > pr[refDigits] {
+			return errors.New("reference out of range")
+		}
+		return nil
+	}
+	return errors.New("invalid partition value")
+}
+
 func (c *Core) buildEPC(id []byte) (string, error) {
 	urn := ""
+	if err := checkEPC96(id); err != nil {
+		return "", err
+	}
 
 	// EPC Header
 	switch id[0] {
-- 
2.43.0


From 5333220536f26d2799143cc9ef807fdd2df74cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 22/40] fix: malformed EPC patterns turn into random or
 misaligned filters

---
 tdt/epc.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/tdt/epc.go b/tdt/epc.go
index 7bc64d3..24f1222 100644
--- a/tdt/epc.go
+++ b/tdt/epc.go
@@ -9,7 +9,9 @@ package tdt
 import (
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
+	"strings"
 
 	"github.com/iomz/go-llrp/binutil"
 )
@@ -172,6 +174,38 @@ func getSerial(s string, serialLength int) (serial []rune) {
 	return serial
 }
 
+// checkFields returns an error if the fields can't be encoded in an EPC
+// the values in fields are filter, companyPrefix, reference, and serial
+func checkFields(fields []string, pt PartitionTable, refBits PartitionTableKey, refDigits PartitionTableKey, serialLength int) error {
+	for i, field := range fields {
+		if field == "" || strings.Trim(field, "0123456789") != "" {
+			return fmt.Errorf("not a number in fields: %q", fields)
+		}
+		value, _ := new(big.Int).SetString(field, 10)
+		switch i {
+		case 0: // filter
+			if value.BitLen() > 3 {
+				return fmt.Errorf("filter out of range: %q", fields)
+			}
+		case 1: // companyPrefix
+			if _, ok := pt[len(field)]; !ok {
+				return fmt.Errorf("wrong length of companyPrefix: %q", fields)
+			}
+		case 2: // reference
+			pr := pt[len(fields[1])]
+			if refBits != IARBits && (value.BitLen() > pr[refBits] ||
+				value.Sign() != 0 && len(value.String()) > pr[refDigits]) {
+				return fmt.Errorf("reference out of range: %q", fields)
+			}
+		case 3: // serial
+			if value.BitLen() > serialLength {
+				return fmt.Errorf("serial out of range: %q", fields)
+			}
+		}
+	}
+	return nil
+}
+
 // NewPrefixFilterGIAI96 takes field values in a slice and return a prefix filter string
 func NewPrefixFilterGIAI96(fields []string) (string, error) {
 	nFields := len(fields) // filter, companyPrefix, indivisualAssetReference
@@ -179,6 +213,10 @@ func NewPrefixFilterGIAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, GIAI96PartitionTable, IARBits, IARDigits, 0); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -208,6 +246,10 @@ func NewPrefixFilterGRAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, GRAI96PartitionTable, ATBits, ATDigits, 38); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -243,6 +285,10 @@ func NewPrefixFilterSGTIN96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, SGTIN96PartitionTable, IRBits, IRDigits, 38); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -278,6 +324,10 @@ func NewPrefixFilterSSCC96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, SSCC96PartitionTable, EBits, EDigits, 0); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
-- 
2.43.0


From ab246a0dda0bc84ddd20007cab427a883a025b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 23/40] fix: malformed ISO patterns turn into misaligned
 filters

---
 tdt/iso.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/tdt/iso.go b/tdt/iso.go
index 8fdd5bb..29a0454 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -21,12 +21,31 @@ func getISO6346CD(cn string) (int, error) {
 	n := 0.0
 	d := 0.5
 	for i := 0; i < 10; i++ {
+		if !strings.Contains("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", string(cn[i])) {
+			return 0, fmt.Errorf("Invalid ISO6346 code provided: %v", cn)
+		}
 		d *= 2
 		n += d * float64(strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i])))
 	}
 	return (int(n) - int(n/11)*11) % 10, nil
 }
 
+// check6BitFields returns an error if a field is blank or has a character
+// which is not in the 6-bit encoding table
+func check6BitFields(fields []string) error {
+	for _, field := range fields {
+		if field == "" {
+			return fmt.Errorf("blank field in fields: %q", fields)
+		}
+		for _, r := range field {
+			if r < ' ' || r > '_' {
+				return fmt.Errorf("not encodable in 6 bits: %q", fields)
+			}
+		}
+	}
+	return nil
+}
+
 // pad6BitEncodingRuneSlice returns a new length
 // and 16-bit (word-length) padded binary string in rune slice
 // @ISO15962
@@ -52,6 +71,9 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := check6BitFields(fields); err != nil {
+		return "", err
+	}
 
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
@@ -73,6 +95,9 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 
 	// containerSerialNumber
 	csn := fields[3]
+	if strings.Trim(csn, "0123456789") != "" {
+		return "", fmt.Errorf("Invalid csn: %v", csn)
+	}
 	if 6 > len(csn) {
 		leftPadding := binutil.GenerateNLengthZeroPaddingRuneSlice(6 - len(csn))
 		csn = string(leftPadding) + csn
@@ -98,6 +123,9 @@ func NewPrefixFilterISO17365(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := check6BitFields(fields); err != nil {
+		return "", err
+	}
 
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
-- 
2.43.0


From d28d4df9281157a43776b074b8019219ee77ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 24/40] fix: tag encoders accept values that do not fit in
 their fields

---
 scheme/epc.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index ec0b336..b4f072e 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -5,7 +5,9 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
+	"strings"
 
 	"github.com/iomz/go-llrp/binutil"
 )
@@ -169,8 +171,41 @@ func GetSerial(s string, serialLength int) (serial []rune) {
 	return serial
 }
 
+// checkFields returns an error if a field which is not blank can't be encoded in an EPC
+func checkFields(pt PartitionTable, fv string, cp string, ref string, refBits PartitionTableKey, refDigits PartitionTableKey, ser string) error {
+	for _, field := range []string{fv, cp, ref, ser} {
+		if strings.Trim(field, "0123456789") != "" {
+			return fmt.Errorf("not a number: %v", field)
+		}
+	}
+	bitLen := func(field string) int {
+		value, _ := new(big.Int).SetString("0"+field, 10)
+		return value.BitLen()
+	}
+	if bitLen(fv) > 3 {
+		return fmt.Errorf("filter out of range: %v", fv)
+	}
+	if cp == "" {
+		return nil
+	}
+	pr, ok := pt[len(cp)]
+	if !ok {
+		return fmt.Errorf("wrong length of companyPrefix: %v", cp)
+	}
+	if bitLen(ref) > pr[refBits] || len(strings.TrimLeft(ref, "0")) > pr[refDigits] {
+		return fmt.Errorf("reference out of range: %v", ref)
+	}
+	if bitLen(ser) > 38 {
+		return fmt.Errorf("serial out of range: %v", ser)
+	}
+	return nil
+}
+
 // MakeGIAI96 generates GIAI-96
 func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, string, error) {
+	if err := checkFields(GIAI96PartitionTable, fv, cp, iar, IARBits, IARDigits, ""); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	if fv == "" {
 		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
@@ -232,6 +267,9 @@ func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, stri
 
 // MakeGRAI96 generates GRAI-96
 func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, string, string, error) {
+	if err := checkFields(GRAI96PartitionTable, fv, cp, at, ATBits, ATDigits, ser); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 
 	//CP
@@ -299,6 +337,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 
 // MakeSGTIN96 generates SGTIN-96
 func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte, string, string, error) {
+	if err := checkFields(SGTIN96PartitionTable, fv, cp, ir, IRBits, IRDigits, ser); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	// CP
 	if cp == "" {
@@ -365,6 +406,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 
 // MakeSSCC96 generates SSCC-96
 func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, string, error) {
+	if err := checkFields(SSCC96PartitionTable, fv, cp, ext, EBits, EDigits, ""); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	// CP
 	if cp == "" {
-- 
2.43.0


From ce1c09712f8ea98bbbc2341bbad0446c1b690717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 25/40] fix: a random reference of an EPC may exceed its number
 of digits

---
 scheme/epc.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scheme/epc.go b/scheme/epc.go
index b4f072e..0b66791 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -76,6 +76,15 @@ var SSCC96PartitionTable = PartitionTable{
 	6:  {PValue: 6, CPBits: 20, EBits: 38, EDigits: 11},
 }
 
+// generateRandomDigits returns a random number of at most nDigits digits in nBits bits
+func generateRandomDigits(nBits int, nDigits int) []rune {
+	if nDigits == 0 {
+		return binutil.GenerateNLengthZeroPaddingRuneSlice(nBits)
+	}
+	random, _ := binutil.GenerateNLengthRandomBinRuneSlice(nBits, uint(math.Pow(float64(10), float64(nDigits)))-1)
+	return random
+}
+
 // GetAssetType returns Asset Type as rune slice
 func GetAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 	if at != "" {
@@ -85,7 +94,7 @@ func GetAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 			assetType = append(leftPadding, assetType...)
 		}
 	} else {
-		assetType, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[ATBits], uint(math.Pow(float64(10), float64(pr[ATDigits]))))
+		assetType = generateRandomDigits(pr[ATBits], pr[ATDigits])
 	}
 	return
 }
@@ -111,7 +120,7 @@ func GetExtension(e string, pr map[PartitionTableKey]int) (extension []rune) {
 			extension = append(leftPadding, extension...)
 		}
 	} else {
-		extension, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[EBits], uint(math.Pow(float64(10), float64(pr[EDigits]))))
+		extension = generateRandomDigits(pr[EBits], pr[EDigits])
 	}
 	return
 }
@@ -137,7 +146,7 @@ func GetIndivisualAssetReference(iar string, pr map[PartitionTableKey]int) (indi
 			indivisualAssetReference = append(leftPadding, indivisualAssetReference...)
 		}
 	} else {
-		indivisualAssetReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IARBits], uint(math.Pow(float64(10), float64(pr[IARDigits]))))
+		indivisualAssetReference = generateRandomDigits(pr[IARBits], pr[IARDigits])
 	}
 	return
 }
@@ -152,7 +161,7 @@ func GetItemReference(ir string, pr map[PartitionTableKey]int) (itemReference []
 			itemReference = append(leftPadding, itemReference...)
 		}
 	} else {
-		itemReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IRBits], uint(math.Pow(float64(10), float64(pr[IRDigits]))))
+		itemReference = generateRandomDigits(pr[IRBits], pr[IRDigits])
 	}
 	return
 }
-- 
2.43.0


From e95f3485e1995db2a709e5ce6f379d344f37b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 26/40] fix: the pattern of a random filter value lacks the
 value

---
 scheme/epc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index 0b66791..140d841 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -280,6 +280,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 		return []byte{}, "", "", err
 	}
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 
 	//CP
 	if cp == "" {
@@ -350,6 +353,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 		return []byte{}, "", "", err
 	}
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 	// CP
 	if cp == "" {
 		if pf {
@@ -419,6 +425,9 @@ func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, stri
 		return []byte{}, "", "", err
 	}
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 	// CP
 	if cp == "" {
 		if pf {
-- 
2.43.0


From 1d8164158d8dcc7dd0538e9dd1f91bf4682b2eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 27/40] fix: ISO encoders accept characters that cannot be
 encoded in 6 bits

---
 scheme/iso.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/scheme/iso.go b/scheme/iso.go
index edfb2f1..71e9c0c 100644
--- a/scheme/iso.go
+++ b/scheme/iso.go
@@ -18,14 +18,36 @@ func GetISO6346CD(cn string) (int, error) {
 	n := 0.0
 	d := 0.5
 	for i := 0; i < 10; i++ {
+		if !strings.Contains("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", string(cn[i])) {
+			return 0, errors.New("Invalid ISO6346 code provided")
+		}
 		d *= 2
 		n += d * float64(strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i])))
 	}
 	return (int(n) - int(n/11)*11) % 10, nil
 }
 
+// check6BitFields returns an error if a field has a character
+// which is not in the 6-bit encoding table
+func check6BitFields(fields ...string) error {
+	for _, field := range fields {
+		for _, r := range field {
+			if r < ' ' || r > '_' {
+				return fmt.Errorf("not encodable in 6 bits: %q", field)
+			}
+		}
+	}
+	return nil
+}
+
 // MakeISO17363 generates a random 17363 code
 func MakeISO17363(pf bool, oc string, ei string, csn string) ([]byte, int, string, string, error) {
+	if err := check6BitFields(oc, ei); err != nil {
+		return []byte{}, 0, "", "", err
+	}
+	if strings.Trim(csn, "0123456789") != "" {
+		return []byte{}, 0, "", "", errors.New("Invalid csn: " + csn)
+	}
 	di := "7B"
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(di))
 
@@ -89,6 +111,9 @@ func MakeISO17363(pf bool, oc string, ei string, csn string) ([]byte, int, strin
 
 // MakeISO17365 generates a random 17367 code
 func MakeISO17365(pf bool, di string, iac string, cin string, sn string) ([]byte, int, string, string, error) {
+	if err := check6BitFields(di, iac, cin, sn); err != nil {
+		return []byte{}, 0, "", "", err
+	}
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(di))
 
 	// IAC
-- 
2.43.0


From 4b12ca8722a6002d56f3cc16bda23c540992ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 28/40] fix: StatManager writes every earlier point again with
 each message

---
 monitoring/stat_manager.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index acfbe27..77e5334 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -31,15 +31,6 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 	}
 	defer c.Close()
 
-	// create a new point batch
-	bp, err := client.NewBatchPoints(client.BatchPointsConfig{
-		Database:  db,
-		Precision: "ns",
-	})
-	if err != nil {
-		log.Fatal(err)
-	}
-
 	// make the stat message channel
 	smc := make(chan StatMessage)
 
@@ -95,6 +86,15 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			if err != nil {
 				log.Fatal(err)
 			}
+
+			// create a new point batch, the points written earlier must not go again
+			bp, err := client.NewBatchPoints(client.BatchPointsConfig{
+				Database:  db,
+				Precision: "ns",
+			})
+			if err != nil {
+				log.Fatal(err)
+			}
 			bp.AddPoint(pt)
 
 			// write the batch
-- 
2.43.0


From 0a667393b648d0c311b442b8de8df88b986f870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 29/40] fix: matches found while a traffic status is sent are
 not counted

---
 filtering/engine_generator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index 77f0d4b..f73fa10 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"log"
 	"math"
+	"sync/atomic"
 	"time"
 
 	//"reflect"
@@ -79,11 +80,13 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 				eg.EventCount++
 			case <-intervalTicker.C:
 				//log.Printf("%v, %v, %v", eg.Name, eg.EventCount, eg.MatchedCount)
+				// matches found while the message is being sent belong to the next one
+				matchedCount := atomic.SwapInt64(&eg.MatchedCount, 0)
 				eg.managementChannel <- ManagementMessage{
 					Type:         TrafficStatus,
 					EngineName:   eg.Name,
 					EventCount:   eg.EventCount,
-					MatchedCount: eg.MatchedCount,
+					MatchedCount: matchedCount,
 				}
 				throughput := float64(eg.EventCount) / float64(eg.totalTime)
 				if throughput != 0 && !math.IsNaN(throughput) {
@@ -95,7 +98,6 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					}
 				}
 				eg.EventCount = 0
-				eg.MatchedCount = 0
 				eg.totalTime = 0
 			}
 		}
@@ -109,7 +111,7 @@ func (eg *EngineGenerator) Search(re llrp.ReadEvent) (string, []string, error) {
 	defer timeTrack(time.Now(), eg.timePerEventChannel)
 	pureIdentity, reportURIs, err := eg.Engine.Search(re)
 	if len(reportURIs) != 0 {
-		eg.MatchedCount++
+		atomic.AddInt64(&eg.MatchedCount, 1)
 	}
 	return pureIdentity, reportURIs, err
 }
-- 
2.43.0


From 10bd4479211fab1180c7e84f60e5ec8b379a6bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 30/40] fix: an engine that takes less than a microsecond
 reports infinite throughput

---
 filtering/engine_generator.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index f73fa10..861be82 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -76,7 +76,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					log.Fatalf("throughput monitor in EngingGenerator[%s] died", eg.Name)
 				}
 				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.Nanoseconds())
-				eg.totalTime += t.Nanoseconds() / 1000 // microseconds
+				eg.totalTime += t.Nanoseconds()
 				eg.EventCount++
 			case <-intervalTicker.C:
 				//log.Printf("%v, %v, %v", eg.Name, eg.EventCount, eg.MatchedCount)
@@ -88,8 +88,9 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					EventCount:   eg.EventCount,
 					MatchedCount: matchedCount,
 				}
-				throughput := float64(eg.EventCount) / float64(eg.totalTime)
-				if throughput != 0 && !math.IsNaN(throughput) {
+				// events per microsecond
+				throughput := float64(eg.EventCount) / (float64(eg.totalTime) / 1000)
+				if throughput != 0 && !math.IsNaN(throughput) && !math.IsInf(throughput, 0) {
 					eg.CurrentThroughput = throughput
 					eg.managementChannel <- ManagementMessage{
 						Type:              EngineStatus,
-- 
2.43.0


From 3a9835abad6e186171f632cad3a917db96f053b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 31/40] fix: the name of the current engine is read while it is
 replaced

---
 filtering/engine_factory.go | 47 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 0bf2319..88868c3 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -25,25 +25,36 @@ type EngineFactory struct {
 	deploymentPriority   map[string]uint8
 	enginePerformance    sync.Map
 	currentEngineName    string
+	currentEngineLock    sync.RWMutex // guards currentEngineName
 	statInterval         int
 }
 
 // IsActive returns false if no engine is available
 func (ef *EngineFactory) IsActive() bool {
-	if len(ef.currentEngineName) == 0 {
-		return false
-	}
-	return true
+	return len(ef.getCurrentEngineName()) != 0
+}
+
+func (ef *EngineFactory) getCurrentEngineName() string {
+	ef.currentEngineLock.RLock()
+	defer ef.currentEngineLock.RUnlock()
+	return ef.currentEngineName
+}
+
+func (ef *EngineFactory) setCurrentEngineName(name string) {
+	ef.currentEngineLock.Lock()
+	defer ef.currentEngineLock.Unlock()
+	ef.currentEngineName = name
 }
 
 // Search is a wrapper for Search() with the current EngineGenerator
 func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
+	currentEngineName := ef.getCurrentEngineName()
 	for name, eg := range ef.productionSystem {
-		if name != ef.currentEngineName && eg.FSM.Is("ready") {
+		if name != currentEngineName && eg.FSM.Is("ready") {
 			_, _, _ = eg.Search(re)
 		}
 	}
-	return ef.productionSystem[ef.currentEngineName].Search(re)
+	return ef.productionSystem[currentEngineName].Search(re)
 }
 
 // NewEngineFactory returns the pointer to a new EngineFactory instance
@@ -104,13 +115,13 @@ func (ef *EngineFactory) Run() {
 					}
 					return true
 				})
-				if ef.currentEngineName != ename && len(ename) != 0 {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngineName)
-					ef.currentEngineName = ename
+				if ef.getCurrentEngineName() != ename && len(ename) != 0 {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.getCurrentEngineName())
+					ef.setCurrentEngineName(ename)
 				}
 				ef.mainChannel <- ManagementMessage{
 					Type:       SelectedEngine,
-					EngineName: ef.currentEngineName,
+					EngineName: ef.getCurrentEngineName(),
 				}
 			}
 		}
@@ -165,25 +176,25 @@ func (ef *EngineFactory) Run() {
 				*/
 			case OnEngineGenerated:
 				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
-				if len(ef.currentEngineName) == 0 {
+				if len(ef.getCurrentEngineName()) == 0 {
 					log.Printf("[EngineFactory] set %s as an initial engine", msg.EngineGeneratorInstance.Name)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+					ef.setCurrentEngineName(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+						EngineName: ef.getCurrentEngineName(),
 					}
 					continue
 				}
-				if ef.deploymentPriority[ef.currentEngineName] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+				if ef.deploymentPriority[ef.getCurrentEngineName()] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.getCurrentEngineName())
+					ef.setCurrentEngineName(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+						EngineName: ef.getCurrentEngineName(),
 					}
 					continue
 				}
-				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
+				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.getCurrentEngineName())
 			case TrafficStatus:
 				ef.mainChannel <- msg // bypass the status message from generators to main
 			case EngineStatus:
-- 
2.43.0


From ae99e0d324bc4e467eed92fd2a54d92f43259782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 32/40] fix: gosstrak-fc ignores the initial messageID flag

---
 cmd/gosstrak-fc/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index ff9734e..9cf7280 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -102,8 +102,8 @@ var (
 	// start command
 	cmdStart = app.Command("start", "Start the gosstrak-fc.")
 
-	// Current messageID
-	currentMessageID = uint32(*llrpInitialMessageID)
+	// Current messageID, set when the flags are parsed
+	currentMessageID uint32
 )
 
 func getPackagePath() string {
@@ -117,6 +117,7 @@ func getPackagePath() string {
 
 func run() {
 	log.Println("initializing gosstrak-fc for master mode...")
+	currentMessageID = uint32(*llrpInitialMessageID)
 
 	// setup StatManager
 	var sm *monitoring.StatManager
-- 
2.43.0


From 2a2718ed0603dd56ce106d4f5da8b6727547b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 33/40] fix: sixenc2bin panics without an argument

---
 scheme/sixenc2bin/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/sixenc2bin/main.go b/scheme/sixenc2bin/main.go
index 09368b8..085641f 100644
--- a/scheme/sixenc2bin/main.go
+++ b/scheme/sixenc2bin/main.go
@@ -17,8 +17,9 @@ func sixenc2bin(sixenc []rune) []rune {
 }
 
 func main() {
-	if len(os.Args) < 1 {
+	if len(os.Args) < 2 {
 		fmt.Println("Must pass a string input")
+		os.Exit(1)
 	}
 	fmt.Printf(string(sixenc2bin([]rune(os.Args[1]))))
 }
-- 
2.43.0


From 34778b32e1e4ac589726739b1313bef03fba482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 34/40] fix: LegacyEngine matches tags with malformed patterns

---
 filtering/legacy_engine.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 412c461..ab6afd5 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -18,6 +18,7 @@ type LegacyEngine struct {
 
 // AddSubscription adds a set of subscriptions if not exists yet
 func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
+	sub = withoutMalformed(sub)
 	for _, f := range sub.Keys() {
 		if _, ok := le.filters[f]; !ok {
 			// do not share the slice with the caller
@@ -197,7 +198,7 @@ func NewLegacyEngine(sub Subscriptions) Engine {
 	le := &LegacyEngine{}
 
 	// load up the subscriptions
-	le.filters = sub.Clone()
+	le.filters = withoutMalformed(sub)
 
 	// initialize tdt.Core
 	le.tdtCore = tdt.NewCore()
@@ -207,6 +208,20 @@ func NewLegacyEngine(sub Subscriptions) Engine {
 
 // Internal helper methods -----------------------------------------------------
 
+// withoutMalformed returns a copy of sub without the patterns which can't be
+// made into a prefix filter, as they are not in ByteSubscriptions either
+func withoutMalformed(sub Subscriptions) Subscriptions {
+	wellFormed := Subscriptions{}
+	for reportURI, patterns := range sub {
+		for _, pattern := range patterns {
+			if len((Subscriptions{reportURI: {pattern}}).ToByteSubscriptions()) != 0 {
+				wellFormed[reportURI] = append(wellFormed[reportURI], pattern)
+			}
+		}
+	}
+	return wellFormed
+}
+
 // check if string is in a slice
 func stringIndexInSlice(a string, list []string) int {
 	for i, b := range list {
-- 
2.43.0


From 830fce2784b5aed39258e1ea16d8a0c7859bac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 35/40] fix: ISO 17365 UII of more than 31 words panics

---
 scheme/iso.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/iso.go b/scheme/iso.go
index 71e9c0c..365142d 100644
--- a/scheme/iso.go
+++ b/scheme/iso.go
@@ -154,6 +154,9 @@ func MakeISO17365(pf bool, di string, iac string, cin string, sn string) ([]byte
 
 	var length int
 	bs, length = Pad6BitEncodingRuneSlice(bs)
+	if length/16 > 31 { // the length in the PC bits has 5 bits
+		return []byte{}, 0, "", "", fmt.Errorf("too long for the PC bits: %v words", length/16)
+	}
 
 	p, err := binutil.ParseBinRuneSliceToUint8Slice(bs)
 	if err != nil {
-- 
2.43.0


From 38638718754eb0263e66100db42faab030e648c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 36/40] fix: patterns in upper or lower case are accepted but
 never match

---
 filtering/legacy_engine.go | 4 ++--
 filtering/subscriptions.go | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index ab6afd5..2b2819e 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -102,8 +102,8 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 			if len(seq) != 5 {
 				continue
 			}
-			patternType := seq[3]
-			pattern := seq[4]
+			patternType := strings.ToLower(seq[3])
+			pattern := strings.ToUpper(seq[4])
 
 			switch patternType {
 			case "giai-96":
diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 28281fc..d018ba3 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -121,12 +121,15 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 	bsub := ByteSubscriptions{}
 	for reportURI, patterns := range sub {
 		for _, pat := range patterns {
-			tf := strings.Split(strings.TrimPrefix(pat, "urn:epc:pat:"), ":")
+			if prefix := "urn:epc:pat:"; len(pat) >= len(prefix) && strings.EqualFold(pat[:len(prefix)], prefix) {
+				pat = pat[len(prefix):]
+			}
+			tf := strings.Split(pat, ":")
 			if len(tf) != 2 { // should only containts a type and fields
 				continue
 			}
 			fields := strings.Split(strings.ToUpper(tf[1]), ".")
-			pfs, err := tdt.MakePrefixFilterString(tf[0], fields)
+			pfs, err := tdt.MakePrefixFilterString(strings.ToLower(tf[0]), fields)
 			if err != nil {
 				log.Print(err)
 				continue
-- 
2.43.0


From 53078600bf3638769530ebc00f349247e36c0e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 37/40] fix: the engine factory swallows its own messages on
 the main channel

The listener selected on the main channel as well, from which it received
what it had just sent there: announcements of the selected engine were lost
and reports went around and came out of order.
---
 filtering/engine_factory.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 88868c3..b57de54 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -95,9 +95,10 @@ func NewEngineFactory(sub Subscriptions, statInterval int, mc chan ManagementMes
 // Run starts the engine factory to react with the ManagementChannel
 func (ef *EngineFactory) Run() {
 	log.Println("[EngineFactory] start running")
-	// set channels from EngineGenerators + main
-	cases := make([]reflect.SelectCase, len(ef.generatorChannels)+1)
-	for i, ch := range append(ef.generatorChannels, ef.mainChannel) {
+	// set channels from EngineGenerators, but not main, as the factory would
+	// take back the messages it has put there for the receiver of main
+	cases := make([]reflect.SelectCase, len(ef.generatorChannels))
+	for i, ch := range ef.generatorChannels {
 		cases[i] = reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}
 	}
 	go func() {
-- 
2.43.0


From 8585cdefa497a2117b384cf67ca6ebbf3f7859ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:59 +0000
Subject: [PATCH 38/40] fix: keep accepting connections when there were too
 many open files

The event capture tool and the whole middleware ended when a connection could
not be accepted for the moment.
---
 cmd/ale-ec/main.go      | 10 ++++++++++
 cmd/gosstrak-fc/main.go |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/cmd/ale-ec/main.go b/cmd/ale-ec/main.go
index 4a2c505..5d81e0f 100644
--- a/cmd/ale-ec/main.go
+++ b/cmd/ale-ec/main.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"time"
 
 	"github.com/alecthomas/kingpin/v2"
 	"github.com/moby/spdystream"
@@ -19,6 +20,9 @@ type Notification struct {
 	ID []byte
 }
 
+// acceptRetryInterval is the time to wait when no connection can be accepted
+const acceptRetryInterval = 100 * time.Millisecond
+
 var (
 	// kingpin app
 	app  = kingpin.New("noticap", "Capture notification from F&C.")
@@ -39,6 +43,12 @@ func main() {
 
 	for {
 		c, err := listener.Accept()
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			// e.g. too many open files, wait until others are closed
+			log.Print(err)
+			time.Sleep(acceptRetryInterval)
+			continue
+		}
 		if err != nil {
 			log.Print(err)
 			break
diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index 9cf7280..890f8b2 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -32,6 +32,8 @@ const (
 	// BufferSize is a general size for a buffer
 	BufferSize = 64 * 1024 // 64 KiB
 	QueueSize  = 128
+	// AcceptRetryInterval is the time to wait when no connection can be accepted
+	AcceptRetryInterval = 100 * time.Millisecond
 )
 
 // Environmental variables
@@ -186,6 +188,12 @@ func run() {
 		}
 		for {
 			c, err := managementListener.Accept()
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				// e.g. too many open files, wait until others are closed
+				log.Print(err)
+				time.Sleep(AcceptRetryInterval)
+				continue
+			}
 			if err != nil {
 				log.Fatal(err)
 				break
-- 
2.43.0


From b7631d7ce8e162da6897fab0df26ed77b138cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:00 +0000
Subject: [PATCH 39/40] fix: close mirrored connections when the other side has
 gone

spdystream's Serve does not close the connection, so its descriptor was kept
until the garbage collector found it, and connections were refused meanwhile.
---
 cmd/ale-ec/main.go      | 39 ++++++++++++++++++++++++++++++++++++++-
 cmd/gosstrak-fc/main.go | 38 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 75 insertions(+), 2 deletions(-)

diff --git a/cmd/ale-ec/main.go b/cmd/ale-ec/main.go
index 5d81e0f..fa2ff4c 100644
--- a/cmd/ale-ec/main.go
+++ b/cmd/ale-ec/main.go
@@ -6,9 +6,12 @@
 package main
 
 import (
+	"io"
 	"log"
 	"net"
+	"net/http"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/alecthomas/kingpin/v2"
@@ -29,6 +32,39 @@ var (
 	port = app.Flag("port", "Listening port.").Short('p').Default("9323").String()
 )
 
+// mirror sends back what comes on each stream until the other side has gone,
+// then it closes the connection, as Serve does not
+func mirror(c net.Conn, spdyConn *spdystream.Connection) {
+	var streams sync.WaitGroup
+	spdyConn.Serve(func(stream *spdystream.Stream) {
+		if err := stream.SendReply(http.Header{}, false); err != nil {
+			return
+		}
+		streams.Add(1)
+		go func() {
+			defer streams.Done()
+			if _, err := io.Copy(stream, stream); err != nil {
+				stream.Reset() // nobody reads it any longer
+				return
+			}
+			stream.Close()
+		}()
+		go func() {
+			for {
+				header, err := stream.ReceiveHeader()
+				if err != nil {
+					return
+				}
+				if err := stream.SendHeader(header, false); err != nil {
+					return
+				}
+			}
+		}()
+	})
+	streams.Wait()
+	c.Close()
+}
+
 func main() {
 	kingpin.MustParse(app.Parse(os.Args[1:]))
 
@@ -57,9 +93,10 @@ func main() {
 		spdyConn, err := spdystream.NewConnection(c, true)
 		if err != nil {
 			log.Print(err)
+			c.Close()
 			continue
 		}
-		go spdyConn.Serve(spdystream.MirrorStreamHandler)
+		go mirror(c, spdyConn)
 
 		// go func() {
 		// 	for {
diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index 890f8b2..ead9941 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -10,9 +10,11 @@ import (
 	"io"
 	"log"
 	"net"
+	"net/http"
 	"os"
 	"path"
 	"runtime"
+	"sync"
 	"time"
 
 	"github.com/alecthomas/kingpin/v2"
@@ -117,6 +119,39 @@ func getPackagePath() string {
 	return path.Dir(filename)
 }
 
+// mirror sends back what comes on each stream until the other side has gone,
+// then it closes the connection, as Serve does not
+func mirror(c net.Conn, spdyConn *spdystream.Connection) {
+	var streams sync.WaitGroup
+	spdyConn.Serve(func(stream *spdystream.Stream) {
+		if err := stream.SendReply(http.Header{}, false); err != nil {
+			return
+		}
+		streams.Add(1)
+		go func() {
+			defer streams.Done()
+			if _, err := io.Copy(stream, stream); err != nil {
+				stream.Reset() // nobody reads it any longer
+				return
+			}
+			stream.Close()
+		}()
+		go func() {
+			for {
+				header, err := stream.ReceiveHeader()
+				if err != nil {
+					return
+				}
+				if err := stream.SendHeader(header, false); err != nil {
+					return
+				}
+			}
+		}()
+	})
+	streams.Wait()
+	c.Close()
+}
+
 func run() {
 	log.Println("initializing gosstrak-fc for master mode...")
 	currentMessageID = uint32(*llrpInitialMessageID)
@@ -201,9 +236,10 @@ func run() {
 			spdyConn, err := spdystream.NewConnection(c, true)
 			if err != nil {
 				log.Print(err)
+				c.Close()
 				continue
 			}
-			go spdyConn.Serve(spdystream.MirrorStreamHandler)
+			go mirror(c, spdyConn)
 
 			// receiver, err := t.WaitReceiveChannel()
 			// if err != nil {
-- 
2.43.0


From 4c89fe53a829129cbd5b47f1a220fd29eb4b1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:57 +0000
Subject: [PATCH 40/40] fix: report when the tag file cannot be written

---
 cmd/gobtags/main.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cmd/gobtags/main.go b/cmd/gobtags/main.go
index 1fb7478..2974e48 100644
--- a/cmd/gobtags/main.go
+++ b/cmd/gobtags/main.go
@@ -6,6 +6,7 @@
 package main
 
 import (
+	"encoding/gob"
 	"log"
 	"os"
 	"strconv"
@@ -38,10 +39,25 @@ func makeUint16PC(s string) (uint16, error) {
 	return uint16(pc64), err
 }
 
+// save writes the tags in a gob file, binutil.Save doesn't tell if that fails
+func save(path string, tags llrp.Tags) error {
+	file, err := os.Create(path)
+	if err != nil {
+		return err
+	}
+	if err := gob.NewEncoder(file).Encode(&tags); err != nil {
+		file.Close()
+		return err
+	}
+	return file.Close()
+}
+
 func main() {
 	kingpin.MustParse(app.Parse(os.Args[1:]))
 	tags := llrp.LoadTagsFromCSV(*inFile)
-	binutil.Save(*outFile, &tags)
+	if err := save(*outFile, tags); err != nil {
+		log.Fatal(err)
+	}
 	/*
 		var tagBuf bytes.Buffer
 		enc := gob.NewEncoder(&tagBuf)
-- 
2.43.0

