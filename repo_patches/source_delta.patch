From 51d9f891c471aee846ee61bb721d42a1abf17dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 01/31] fix: charset inclusion and equality ignore the empty
 pages left by DelChar

---
 fontconfig/charset.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/fontconfig/charset.go b/fontconfig/charset.go
index 70c5c1e..91ce86f 100644
--- a/fontconfig/charset.go
+++ b/fontconfig/charset.go
@@ -160,18 +160,7 @@ func charsetSubtractCount(a, b Charset) uint32 {
 
 // Returns whether `a` and `b` contain the same set of Unicode chars.
 func charsetEqual(a, b Charset) bool {
-	ai, bi := newCharsetIter(a), newCharsetIter(b)
-	for ai.leaf != nil && bi.leaf != nil {
-		if ai.page() != bi.page() {
-			return false
-		}
-		if *ai.leaf != *bi.leaf {
-			return false
-		}
-		ai.next()
-		bi.next()
-	}
-	return ai.leaf == bi.leaf
+	return a.isSubset(b) && b.isSubset(a)
 }
 
 // return true iff a is a subset of b
@@ -195,8 +184,12 @@ func (a Charset) isSubset(b Charset) bool {
 			}
 			ai++
 			bi++
-		} else if an < bn { // Does a have any pages not in b?
-			return false
+		} else if an < bn { // Does a have any chars in a page not in b?
+			// (DelChar may leave empty pages)
+			if a.pages[ai] != (charPage{}) {
+				return false
+			}
+			ai++
 		} else {
 			bi = b.findLeafForward(bi+1, an)
 			if bi < 0 {
@@ -205,7 +198,12 @@ func (a Charset) isSubset(b Charset) bool {
 		}
 	}
 	//  did we look at every page?
-	return ai >= len(a.pageNumbers)
+	for ; ai < len(a.pageNumbers); ai++ {
+		if a.pages[ai] != (charPage{}) {
+			return false
+		}
+	}
+	return true
 }
 
 // Locate the leaf containing the specified char, creating it if desired
-- 
2.43.0


From aed735f61ae8d5401abdf6943140bd955195e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 02/31] fix: RemoveBidiMarks maps only the kept characters in
 positionsToThis

---
 fribidi/fridibi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/fridibi.go b/fribidi/fridibi.go
index 7090d51..301ab85 100644
--- a/fribidi/fridibi.go
+++ b/fribidi/fridibi.go
@@ -511,7 +511,7 @@ func RemoveBidiMarks(str []rune, positionsToThis, positionFromThis []int, embedd
 		for i := range positionsToThis {
 			positionsToThis[i] = -1
 		}
-		for i, from := range positionFromThis {
+		for i, from := range positionFromThis[:j] {
 			positionsToThis[from] = i
 		}
 	}
-- 
2.43.0


From 976698a0e636b1d9f50215076103152f96251217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 03/31] fix: keep the edit position of a rule on the matched
 value

After a delete, or an assignment of nothing, the position of the matched
value was kept: a following edit of the same rule panicked or edited
another value. After a prepend, the position was not shifted, and the
following edits of the same rule applied to the wrong value.
---
 fontconfig/substitutions.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index b44b32d..6f5f9da 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -116,7 +116,7 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 			thisValue := valuePos[object]
 
 			// Append the newList list of values after the current value
-			targetList.insert(thisValue, true, l, object, table)
+			inserted := targetList.insert(thisValue, true, l, object, table)
 
 			//  Delete the marked value
 			if thisValue != -1 {
@@ -124,6 +124,9 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 			}
 
 			// Adjust a pointer into the value list to ensure future edits occur at the same place
+			if !inserted || len(l) == 0 { // nothing takes the place of the matched value
+				valuePos[object] = -1
+			}
 			break
 		}
 		fallthrough
@@ -135,12 +138,18 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 		valuePos[object] = -1
 	case opPrepend:
 		if valuePos[object] != -1 {
-			targetList.insert(valuePos[object], false, l, object, table)
+			if targetList.insert(valuePos[object], false, l, object, table) {
+				valuePos[object] += len(l) // follow the matched value
+			}
 			break
 		}
 		fallthrough
 	case opPrependFirst:
+		before := len(p.getVals(object))
 		p.addWithTable(object, l, false, table)
+		if valuePos[object] != -1 { // follow the matched value
+			valuePos[object] += len(p.getVals(object)) - before
+		}
 	case opAppend:
 		if valuePos[object] != -1 {
 			targetList.insert(valuePos[object], true, l, object, table)
@@ -152,11 +161,13 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 	case opDelete:
 		if valuePos[object] != -1 {
 			targetList.del(valuePos[object], object, table)
+			valuePos[object] = -1
 			break
 		}
 		fallthrough
 	case opDeleteAll:
 		p.delWithTable(object, table)
+		valuePos[object] = -1
 	}
 	// Now go through the pattern and eliminate any properties without data
 	p.canon(object)
-- 
2.43.0


From 47fb6929b3c0e4d94a92b52d807c75c2fec0bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 04/31] fix: update the family table for the edits that follow
 a test on the query

The table of family names was not updated by the edits following a test of
the query pattern, so later family tests used stale counts.
---
 fontconfig/substitutions.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 6f5f9da..826f5b3 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -464,7 +464,6 @@ func (config *Config) Substitute(p, testPattern Pattern, kind matchKind) {
 	}
 
 	data := newFamilyTable(p)
-	table := &data
 	for _, rs := range config.subst {
 		rulesList := rs.subst[kind]
 
@@ -483,8 +482,7 @@ func (config *Config) Substitute(p, testPattern Pattern, kind matchKind) {
 				if debugMode {
 					fmt.Println("\t\ttest for substitute", test)
 				}
-				var keep bool
-				table, keep = test.match(kind, p, testPattern, data, valuePos, targets, tst)
+				_, keep := test.match(kind, p, testPattern, data, valuePos, targets, tst)
 				if !keep {
 					if debugMode {
 						fmt.Println("\t\t-> dont pass")
@@ -496,7 +494,7 @@ func (config *Config) Substitute(p, testPattern Pattern, kind matchKind) {
 				if debugMode {
 					fmt.Println("\t\tsubstitute edit", edit)
 				}
-				edit.edit(kind, p, testPattern, table, valuePos, targets, tst)
+				edit.edit(kind, p, testPattern, &data, valuePos, targets, tst)
 
 				if debugMode {
 					fmt.Println("\t\tafter edit", p.String())
-- 
2.43.0


From aa355e0d661ab68f0a5783ea5710b59c18d669a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 05/31] fix: compare empty family and PostScript names without
 panic nor NaN

---
 fontconfig/match.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 9ed2872..50b0852 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -91,7 +91,7 @@ func compareFamily(v1, v2 Value) (Value, float32) {
 	bestValue := v2
 
 	if toLower(v1String) != toLower(v2String) &&
-		v1String[0] != ' ' && v2String[0] != ' ' {
+		toLower(v1String) != ' ' && toLower(v2String) != ' ' {
 		return bestValue, 1.0
 	}
 
@@ -126,12 +126,18 @@ func comparePostScript(v1, v2 Value) (Value, float32) {
 	bestValue := v2
 
 	if toLower(v1_string) != toLower(v2_string) &&
-		v1_string[0] != ' ' && v2_string[0] != ' ' {
+		toLower(v1_string) != ' ' && toLower(v2_string) != ' ' {
 		return bestValue, 1.0
 	}
 
 	n := matchIgnoreCaseAndDelims(v1_string, v2_string)
 	length := len(v1_string)
+	if length == 0 { // avoid 0 / 0
+		if v2_string == "" {
+			return bestValue, 0.0
+		}
+		return bestValue, 1.0
+	}
 
 	return bestValue, float32(length-n) / float32(length)
 }
-- 
2.43.0


From 8ebb5a67b8bb3f3e02e6e404bab6e6ecce9aa4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 06/31] fix: match file name globs against the rest of the
 pattern

A star was matched with the whole pattern again (endless recursion), the
shortcut for a single star was inverted, and a pattern longer than the
string panicked.
---
 fontconfig/match.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 50b0852..9f25f1a 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -322,18 +322,19 @@ func strGlobMatch(glob, st string) bool {
 			if i == len(glob)-1 {
 				return true
 			}
-			// short circuit another common case
-			if i < len(glob)-1 && glob[i+1] == '*' {
+			rest := glob[i+1:]
+			// short circuit another common case: no other star
+			if strings.IndexByte(rest, '*') == -1 {
 
 				l1 := len(st) - str
-				l2 := len(glob)
+				l2 := len(rest)
 				if l1 < l2 {
 					return false
 				}
 				str += (l1 - l2)
 			}
-			for str < len(st) {
-				if strGlobMatch(glob, st[str:]) {
+			for str <= len(st) {
+				if strGlobMatch(rest, st[str:]) {
 					return true
 				}
 				str++
@@ -345,7 +346,7 @@ func strGlobMatch(glob, st string) bool {
 			}
 			str++
 		default:
-			if st[str] != c {
+			if str == len(st) || st[str] != c {
 				return false
 			}
 			str++
-- 
2.43.0


From f94a86718f0c8219217320a94eb53c707d3f2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 07/31] fix: Sort returns the union of the coverage without
 trim too

---
 fontconfig/match.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 9f25f1a..144ee66 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -958,13 +958,11 @@ func sortWalk(n []*sortNode, trim bool) (Fontset, Charset) {
 	for i, node := range n {
 		addsChars := false
 
-		// Only fetch node charset if we'd need it
-		if trim {
-			ncs, ok := node.pattern.GetCharset(CHARSET)
-			if !ok {
-				continue
-			}
+		ncs, ok := node.pattern.GetCharset(CHARSET)
+		if ok {
 			addsChars = csp.merge(ncs)
+		} else if trim {
+			continue
 		}
 
 		// If this font isn't a subset of the previous fonts, add it to the list
-- 
2.43.0


From 18729b43170c07a74a1e49ff18c44e2d4591c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 08/31] fix: Change replaces every overlapping attribute of the
 same kind

---
 pango/attributes.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index 3ea81b2..7876e53 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -818,11 +818,13 @@ func (list *AttrList) Change(attr *Attribute) {
 				end_attr := tmp_attr.copy()
 				end_attr.StartIndex = endIndex
 				list.Insert(end_attr)
+				p++
 			}
 
 			if tmp_attr.StartIndex == startIndex {
 				list.remove(i)
-				break
+				i--
+				p--
 			} else {
 				tmp_attr.EndIndex = startIndex
 			}
@@ -856,6 +858,15 @@ func (list *AttrList) Change(attr *Attribute) {
 			p--
 			continue
 		}
+
+		if tmp_attr.StartIndex < attr.EndIndex {
+			// Trim the start of this attribute so that it begins at the end
+			// of the new attribute, and move it to keep the list sorted.
+			list.remove(i)
+			tmp_attr.StartIndex = attr.EndIndex
+			list.Insert(tmp_attr)
+			i--
+		}
 	}
 }
 
-- 
2.43.0


From 46f70493814cf2629a59962024a4206772d5dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 09/31] fix: TabArray.Copy returns a copy instead of its
 receiver

---
 pango/tabs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/tabs.go b/pango/tabs.go
index ff14e27..a70b55f 100644
--- a/pango/tabs.go
+++ b/pango/tabs.go
@@ -40,10 +40,10 @@ func (tabs *TabArray) Copy() *TabArray {
 	if tabs == nil {
 		return nil
 	}
-	copy := tabs
+	copy := *tabs
 	copy.Tabs = append([]Tab(nil), tabs.Tabs...)
 
-	return copy
+	return &copy
 }
 
 // sort ensure that the tab stops are in increasing order.
-- 
2.43.0


From c52eabacf63f6cec74f6363dd324c59512c90a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 10/31] fix: count the characters of a cluster once in IndexToX

---
 pango/glyphs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 56b9f1f..d556998 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -486,8 +486,8 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Calculate offset of character within cluster.
 	// To come up with accurate answers here, we need to know grapheme
 	// boundaries.
-	clusterChars := endIndex - startIndex
-	clusterOffset := index - startIndex
+	clusterChars := 0
+	clusterOffset := 0
 
 	for i := startIndex; i < endIndex; i++ {
 		if logAttrs != nil && !logAttrs[i].IsCursorPosition() {
-- 
2.43.0


From 48c76e08ab44d1a68fbf7eb50f7fc291b454e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 11/31] fix: look at the word start of the next character when
 splitting by case

---
 pango/item.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index db963aa..2a0c6c4 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -508,7 +508,7 @@ func splitItemForVariant(text []rune, logAttrs []CharAttr, variant Variant, list
 						(itemTransform == TEXT_TRANSFORM_CAPITALIZE && isWordStart)))) {
 				break
 			}
-			isWordStart = logAttrs != nil && logAttrs[p].IsWordStart()
+			isWordStart = logAttrs != nil && logAttrs[p+1].IsWordStart()
 		}
 
 		if p0 < p {
@@ -546,7 +546,7 @@ func splitItemForVariant(text []rune, logAttrs []CharAttr, variant Variant, list
 				(itemTransform == TEXT_TRANSFORM_CAPITALIZE && isWordStart)) {
 				break
 			}
-			isWordStart = logAttrs != nil && logAttrs[p].IsWordStart()
+			isWordStart = logAttrs != nil && logAttrs[p+1].IsWordStart()
 		}
 
 		if p0 < p {
-- 
2.43.0


From ce56fe85c5a062e9e48504e8a121807fd5d16141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 12/31] fix: stop the search for the direction of an FSI at its
 own PDI

---
 fribidi/bidi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index a0f605f..89d11f8 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -359,7 +359,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				for fsiPp := pp.next; fsiPp.type_ != maskSentinel; fsiPp = fsiPp.next {
 					if fsiPp.type_ == PDI {
 						isolateCount--
-						if validIsolateCount < 0 {
+						if isolateCount < 0 {
 							break
 						}
 					} else if fsiPp.type_.IsIsolate() {
-- 
2.43.0


From 3abfc57b70f39981a3aa3c17ac571b52d60930bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 13/31] fix: do not join brackets with the runs next to a
 non-spacing mark

---
 fribidi/bidi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 89d11f8..9eb366a 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -519,7 +519,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				pp.type_ = prevType
 			}
 
-			if prevType == nextType && pp.level == pp.next.level {
+			if prevType == nextType && pp.level == pp.next.level &&
+				pp.bracketType == NoBracket && pp.next.bracketType == NoBracket /* Don't join brackets! */ {
 				if pppNext == pp.next {
 					pp = pp.next.mergeWithPrev()
 				}
-- 
2.43.0


From fd94dfc00b4a043b1d0eef19468732248c9cdf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 14/31] fix: use the start of the sequence as context of a
 bracket pair without strong character before it

---
 fribidi/bidi.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 9eb366a..d4a32df 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -742,11 +742,15 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		/* Search for any strong type preceding and within the bracket pair */
 		if !found {
 			/* Search for a preceding strong */
-			precStrongLevel := embeddingLevel /* TBDov! Extract from Isolate level in effect */
+			precStrongLevel := embeddingLevel
 			isoLevel := ppairs.open.isolateLevel
-			for ppn = ppairs.open.prev; ppn.type_ != maskSentinel; ppn = ppn.prev {
+			for ppn = ppairs.open.getAdjacentRun(false, false); ; ppn = ppn.getAdjacentRun(false, false) {
+				if ppn.level != embeddingLevel { /* start of the sequence: sos */
+					precStrongLevel = maxL(ppn.level, embeddingLevel)
+					break
+				}
 				thisType := ppn.typeAnEnAsRTL()
-				if thisType.IsStrong() && ppn.isolateLevel == isoLevel {
+				if thisType.IsStrong() {
 					precStrongLevel = ppn.level + (ppn.level.isRtl() ^ dirToLevel(thisType))
 					break
 				}
-- 
2.43.0


From 9d7b639a8ff452025a1b739d41cd73420016277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 15/31] fix: forget the open brackets of an isolate when it
 ends

---
 fribidi/bidi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index d4a32df..49e22a0 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -675,6 +675,10 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		if level != lastLevel && lastIsoLevel == isoLevel {
 			bracketStackSize[lastIsoLevel] = 0
 		}
+		/* Leaving isolates, forget their open brackets */
+		for ; lastIsoLevel > isoLevel; lastIsoLevel-- {
+			bracketStackSize[lastIsoLevel] = 0
+		}
 
 		if brackProp != NoBracket && pp.type_ == ON {
 			if brackProp.isOpen() {
-- 
2.43.0


From 3b2a5a55c0db1f688101f450d29c886db3ccbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 16/31] fix: apply the directional override to unmatched PDIs

---
 fribidi/bidi.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 49e22a0..04f2245 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -336,8 +336,9 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 					pp.level = level
 					pp.isolateLevel = isolateLevel
 				} else {
-					/* Ignore isolated PDI's by turning them into ON's */
-					pp.type_ = ON
+					/* Ignore isolated PDI's by turning them into ON's,
+					   or into the directional override, if any */
+					pp.type_ = override
 					pp.level = level
 				}
 			}
-- 
2.43.0


From 4a34cbadef3e758ffcf2ee6860830abb238908c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 17/31] fix: count the isolates and embeddings past the deepest
 level as overflowing

---
 fribidi/bidi.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 04f2245..caa8c81 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -303,7 +303,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				/*   X7. With each PDF, determine the matching embedding or
 				     override code. */
 				for i := pp.len; i != 0; i-- {
-					if stackSize != 0 && statusStack[stackSize-1].isolate != 0 {
+					if isolateOverflow != 0 || (overPushed == 0 && stackSize != 0 && statusStack[stackSize-1].isolate != 0) {
 						break
 					}
 					statusStack.popStatus(vars, &isolate, &isolateLevel)
@@ -320,7 +320,9 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			/* X6a. pop the direction of the stack */
 			for i := pp.len; i != 0; i-- {
 				if isolateOverflow > 0 {
+					/* No isolating run sequence ends here */
 					isolateOverflow--
+					pp.type_ = override
 					pp.level = level
 				} else if validIsolateCount > 0 {
 					/* Pop away all LRE,RLE,LRO, RLO levels
@@ -381,16 +383,14 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 
 			pp.level = level
 			pp.isolateLevel = isolateLevel
-			if isolateLevel < maxExplicitLevel-1 {
-				isolateLevel++
-			}
 
 			if !override.isNeutral() {
 				pp.type_ = override
 			}
 
-			if newLevel <= maxExplicitLevel {
+			if newLevel <= maxExplicitLevel && overPushed == 0 && isolateOverflow == 0 {
 				validIsolateCount++
+				isolateLevel++
 				statusStack.pushStatus(isolateOverflow, isolate, isolateLevel, newLevel, newOverride, vars)
 				level = newLevel
 			} else {
@@ -647,8 +647,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		numIsoLevels      = int(maxIsoLevel + 1)
 		pairingNodes      *pairingNode
 		localBracketStack [localBracketSize][maxNestedBracketPairs]*oneRun
-		bracketStack      [maxExplicitLevel][]*oneRun
-		bracketStackSize  [maxExplicitLevel]int
+		bracketStack      [bidiMaxResolvedLevels][]*oneRun
+		bracketStackSize  [bidiMaxResolvedLevels]int
 		lastLevel         = mainRunList.level
 		lastIsoLevel      Level
 	)
-- 
2.43.0


From 99383ebd49edad99edf5f000abdd2d56c1c50813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 18/31] fix: a language set contains a language only if one of
 its extra languages does

---
 fontconfig/lang.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index a2adc44..ced8982 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -372,13 +372,12 @@ func (ls Langset) containsLang(lang string) bool {
 		}
 	}
 
-	var extra string
-	for extra = range ls.extra {
+	for extra := range ls.extra {
 		if langContains(extra, lang) {
-			break
+			return true
 		}
 	}
-	return extra != ""
+	return false
 }
 
 // return true if lsa contains every language in lsb
-- 
2.43.0


From 8ae86fea3758b2838283f00ad88a8e7dcf13498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 19/31] fix: report the extra languages missing from a language
 set

---
 fontconfig/lang.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index ced8982..15f825e 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -399,18 +399,14 @@ func (lsa Langset) includes(lsb Langset) bool {
 			}
 		}
 	}
-	var extra string
 	for extra := range lsb.extra {
 		if !lsa.containsLang(extra) {
 			if debugMode {
 				fmt.Printf("\tMissing string %s\n", extra)
 			}
-			break
+			return false
 		}
 	}
-	if extra != "" {
-		return false
-	}
 	return true
 }
 
-- 
2.43.0


From 680e7ea16ccecc319dcc5e33f4cda1d46a0c77b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 20/31] fix: normalize C.UTF-8 and C.utf8 as English

---
 fontconfig/lang.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 15f825e..d29d688 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -83,7 +83,7 @@ func normalizeLang(lang string) string {
 
 	lang = strings.ToLower(lang)
 	switch lang {
-	case "c", "c.utf-8, c.utf8", "posix":
+	case "c", "c.utf-8", "c.utf8", "posix":
 		return "en"
 	}
 
-- 
2.43.0


From 8885ea70c93f37e8c634bcbb63bc226076e6bf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 21/31] fix: look up language and territory with the separator
 of the language table

---
 fontconfig/lang.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index d29d688..8689b97 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -144,9 +144,9 @@ func normalizeLang(lang string) string {
 		tm += "@" + modifier
 	}
 	if territory != "" {
-		if findLangIndex(lang+"_"+tm) < 0 {
+		if findLangIndex(lang+"-"+tm) < 0 {
 		} else {
-			return lang + "_" + tm
+			return lang + "-" + tm
 		}
 	}
 	if modifier != "" {
-- 
2.43.0


From 57baeaff9543ad60a4403ef2beb36bef90be1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 22/31] fix: the default languages come from FC_LANG, then
 LC_ALL, before LANG

---
 fontconfig/fontconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/fontconfig.go b/fontconfig/fontconfig.go
index 41a1ad0..6278008 100644
--- a/fontconfig/fontconfig.go
+++ b/fontconfig/fontconfig.go
@@ -270,7 +270,7 @@ func getDefaultLangs() strSet {
 
 	defaultLangs = make(strSet)
 
-	langs := os.Getenv("LANG")
+	langs := os.Getenv("FC_LANG")
 	if langs == "" {
 		langs = os.Getenv("LC_ALL")
 	}
-- 
2.43.0


From 67fa09209a3e06caa3b56781df7464efa4188781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 23/31] fix: the empty string is the empty language set

---
 fontconfig/lang.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 8689b97..bace3be 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -416,6 +416,9 @@ func (lsa Langset) includes(lsb Langset) bool {
 func NewLangset(str string) Langset {
 	var ls Langset
 	for _, lang := range strings.Split(str, "|") {
+		if lang == "" { // ignore an empty item
+			continue
+		}
 		ls.add(lang)
 	}
 	return ls
-- 
2.43.0


From 2654bede48de4de2980fd54bdfe596ca6b337f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 24/31] fix: brackets pair with their canonical equivalents
 only

---
 fribidi/brackets_table.go | 40 +++++++++++++++++++--------------------
 fribidi/unidata/gen.go    |  6 ++++--
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/fribidi/brackets_table.go b/fribidi/brackets_table.go
index f9d66d8..c76e841 100644
--- a/fribidi/brackets_table.go
+++ b/fribidi/brackets_table.go
@@ -17,10 +17,10 @@ var bracketsTable = map[rune]rune{
 	0x169c: 5787,
 	0x2045: 8261,
 	0x2046: 8261,
-	0x207d: 40,
-	0x207e: 40,
-	0x208d: 40,
-	0x208e: 40,
+	0x207d: 8317,
+	0x207e: 8317,
+	0x208d: 8333,
+	0x208e: 8333,
 	0x2308: 8968,
 	0x2309: 8968,
 	0x230a: 8970,
@@ -107,20 +107,20 @@ var bracketsTable = map[rune]rune{
 	0x3019: 12312,
 	0x301a: 12314,
 	0x301b: 12314,
-	0xfe59: 40,
-	0xfe5a: 40,
-	0xfe5b: 123,
-	0xfe5c: 123,
-	0xfe5d: 12308,
-	0xfe5e: 12308,
-	0xff08: 40,
-	0xff09: 40,
-	0xff3b: 91,
-	0xff3d: 91,
-	0xff5b: 123,
-	0xff5d: 123,
-	0xff5f: 10629,
-	0xff60: 10629,
-	0xff62: 12300,
-	0xff63: 12300,
+	0xfe59: 65113,
+	0xfe5a: 65113,
+	0xfe5b: 65115,
+	0xfe5c: 65115,
+	0xfe5d: 65117,
+	0xfe5e: 65117,
+	0xff08: 65288,
+	0xff09: 65288,
+	0xff3b: 65339,
+	0xff3d: 65339,
+	0xff5b: 65371,
+	0xff5d: 65371,
+	0xff5f: 65375,
+	0xff60: 65375,
+	0xff62: 65378,
+	0xff63: 65378,
 }
diff --git a/fribidi/unidata/gen.go b/fribidi/unidata/gen.go
index 17d7ac7..51ab9aa 100644
--- a/fribidi/unidata/gen.go
+++ b/fribidi/unidata/gen.go
@@ -91,8 +91,10 @@ func parseUnicodeData() error {
 			}
 		}
 
-		// equiv table
-		equivTable[c] = unshaped
+		// equiv table: only canonical equivalents are considered
+		if tag == "" {
+			equivTable[c] = unshaped
+		}
 	}
 	shapingTable.min, shapingTable.max = min, max
 
-- 
2.43.0


From 51415abe60b04d5003487061501bfa54c6764700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 25/31] fix: isUpright searched one entry past its table (index
 out of range for the last characters)

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 05a1feb..59232bf 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -427,7 +427,7 @@ func isUpright(ch rune) bool {
 
 	const max = len(upright)
 	st := 0
-	ed := max
+	ed := max - 1
 
 	for st <= ed {
 		mid := (st + ed) / 2
-- 
2.43.0


From e688ab63dc702c0e8ec7966018490a7079af083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 26/31] fix: itemization ignored the base direction it is given
 and used the one of the context

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 59232bf..b7fccdb 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -979,7 +979,7 @@ func (context *Context) itemizeWithFont(text []rune, startIndex int, desc *FontD
 		return nil
 	}
 
-	state := context.newItemizeState(text, context.baseDir, startIndex, attrs, cachedIter, desc)
+	state := context.newItemizeState(text, baseDir, startIndex, attrs, cachedIter, desc)
 
 	for do := true; do; do = state.next() {
 		state.processRun()
-- 
2.43.0


From 15fcff3b8d45ab9804c72c8091f1509cc86031a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 27/31] fix: spaces after a fallback font never moved to the
 better font that follows

---
 pango/context.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index b7fccdb..da1e6be 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -866,6 +866,7 @@ func (state *itemizeState) fillFont(font Font) {
 
 // pos is the index into text
 func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak bool, pos int, isSpace bool) {
+	firstSpace := state.firstSpace // before this character
 	if isSpace {
 		if state.firstSpace == -1 {
 			state.firstSpace = pos
@@ -895,10 +896,10 @@ func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak
 		// the font is less "fallback".
 		//
 		// See https://gitlab.gnome.org/GNOME/pango/-/issues/249
-		if item.Offset < state.firstSpace && fontPosition < state.fontPosition {
-			nSpaces = pos - state.firstSpace
+		if item.Offset < firstSpace && fontPosition < state.fontPosition {
+			nSpaces = pos - firstSpace
 			item.Length -= nSpaces
-			pos = state.firstSpace
+			pos = firstSpace
 		}
 
 		item.Length = pos - item.Offset
-- 
2.43.0


From 6d6ed08668507190c6c12576455adbff3a8111a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 28/31] fix: the pattern selectors were ignored when scanning a
 single font file

---
 fontconfig/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 2b36b1a..772fe6f 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -193,7 +193,7 @@ func (config *Config) ScanFontRessource(content fonts.Resource, contentID string
 			out = append(out, f)
 		}
 	}
-	return fonts, nil
+	return out, nil
 }
 
 // Recursively scan a directory and build the font patterns,
-- 
2.43.0


From d50c3b1db7cbdec4f23890931c915b49955887f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 29/31] fix: different lists of values could have the same hash

---
 fontconfig/lang.go   | 2 +-
 fontconfig/values.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index bace3be..4cb573a 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -50,7 +50,7 @@ func (l Langset) hash() []byte {
 	}
 	sort.Strings(extra)
 	for _, s := range extra {
-		out = append(out, s...)
+		out = append(append(out, s...), 0)
 	}
 	return out
 }
diff --git a/fontconfig/values.go b/fontconfig/values.go
index fe957ab..7d81b43 100644
--- a/fontconfig/values.go
+++ b/fontconfig/values.go
@@ -1,6 +1,7 @@
 package fontconfig
 
 import (
+	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -315,7 +316,11 @@ type valueList []valueElt
 func (vs valueList) Hash() []byte {
 	var hash []byte
 	for _, v := range vs {
-		hash = append(hash, v.hash()...)
+		// to make the hash unique, we add the length of each value
+		tmp := v.hash()
+		var buf [4]byte
+		binary.BigEndian.PutUint32(buf[:], uint32(len(tmp)))
+		hash = append(append(hash, buf[:]...), tmp...)
 	}
 	return hash
 }
-- 
2.43.0


From 9d0a0c418d6b9c6a8fe6254fe5b659a8e7622370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 30/31] fix: a cache with a value of unknown type was loaded
 with a nil value

---
 fontconfig/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 8294d47..accca29 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -301,6 +301,8 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		var out Range
 		valueSize, err = out.deserializeBin(data[2:])
 		v.Value = out
+	default:
+		err = fmt.Errorf("unknown value type: %d", type_)
 	}
 
 	return 2 + valueSize, err
-- 
2.43.0


From 638e5e93fbe2f66b6ba135f7f113326146a6f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 31/31] fix: attributes customizing breaks cover the end of the
 text or another paragraph

An allow-breaks or word attribute reaching the end of the text, a word or
sentence attribute of another paragraph, and a sentence attribute followed
by no boundary made the layout panic. The paragraph alone is now given to
the customization, as in upstream.
---
 pango/break.go  | 13 +++++++++++--
 pango/layout.go |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 2e6b18a..03a6467 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -451,7 +451,10 @@ func removeBreaksFromRange(text []rune, logAttrs []CharAttr, startPos, endPos in
 			logAttrs[pos].setLineBreak(false)
 		}
 
-		ch := text[pos]
+		var ch rune // the end of the text has no character
+		if pos < len(text) {
+			ch = text[pos]
+		}
 		bt := unicodedata.LookupLineBreakClass(ch)
 
 		/* Hyphens and visible word dividers */
@@ -525,6 +528,9 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
+		if end < offset || start > offset+len(text) { // outside of the text
+			continue
+		}
 		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
 
 		for pos := startPos + 1; pos < endPos; pos++ {
@@ -598,6 +604,9 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
+		if end < offset || start > offset+len(text) { // outside of the text
+			continue
+		}
 		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
 
 		for pos := startPos + 1; pos < endPos; pos++ {
@@ -625,7 +634,7 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		}
 		if end < offset+len(text) {
 			inSentence := false
-			for pos := endPos + 1; endPos < len(logAttrs); pos++ {
+			for pos := endPos + 1; pos < len(logAttrs); pos++ {
 				if logAttrs[pos].IsSentenceStart() {
 					break
 				}
diff --git a/pango/layout.go b/pango/layout.go
index a1bdae2..96db9f0 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1835,7 +1835,7 @@ func getItemsLogAttrs(text []rune, start, length int, items *ItemList, logAttrs
 	}
 
 	if items != nil {
-		pango_attr_break(text[start:], attrs, items.Data.Offset, logAttrs)
+		pango_attr_break(text[start:start+length], attrs, items.Data.Offset, logAttrs[:length+1])
 	}
 }
 
-- 
2.43.0

