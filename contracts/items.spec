package github.com/benoitkugler/textprocessing/pango

# ---------------------------------------------------------------- items, runs and clusters

spec func dataSet(l AttrList) bool = forall k int :: {l[k]} 0 <= k && k < len(l) ==> l[k] != nil && l[k].Data != nil

func TabArray.Copy
  ensures tabs == nil ==> result == nil
  ensures [copy] tabs != nil ==> result != nil && fresh(result) && result.PositionsInPixels == tabs.PositionsInPixels && len(result.Tabs) == len(tabs.Tabs) && (fresh(result.Tabs) || len(result.Tabs) == 0)
  ensures [tabs] tabs != nil ==> forall k int :: {result.Tabs[k]} 0 <= k && k < len(tabs.Tabs) ==> result.Tabs[k] == old(tabs.Tabs[k])
  ensures [kept] tabs != nil ==> sameslice(tabs.Tabs, old(tabs.Tabs))

# r has the text range [offset, offset+length), the analysis of item, and its own attributes
spec func copiedItem(r *Item, item *Item, offset int, length int) bool = r != nil && r.Offset == offset && r.Length == length && r.Analysis.Font == item.Analysis.Font && r.Analysis.Language == item.Analysis.Language && r.Analysis.Script == item.Analysis.Script && r.Analysis.Level == item.Analysis.Level && r.Analysis.Gravity == item.Analysis.Gravity && r.Analysis.Flags == item.Analysis.Flags
spec func copiedAttrs(r AttrList, list AttrList) bool = len(r) == len(list) && (forall k int :: {r[k]} 0 <= k && k < len(r) ==> r[k] != nil && r[k].Kind == list[k].Kind && r[k].StartIndex == list[k].StartIndex && r[k].EndIndex == list[k].EndIndex && dataCopy(list[k].Data, r[k].Data))
spec func freshAttrs(r AttrList) bool = fresh(r) && forall k int :: {r[k]} 0 <= k && k < len(r) ==> fresh(r[k])

func Item.copy
  requires item != nil ==> dataSet(item.Analysis.ExtraAttrs)
  ensures item == nil ==> result == nil
  ensures [copy] item != nil ==> fresh(result) && copiedItem(result, item, item.Offset, item.Length)
  ensures [attrs] item != nil ==> copiedAttrs(result.Analysis.ExtraAttrs, item.Analysis.ExtraAttrs)
  ensures [own] item != nil ==> freshAttrs(result.Analysis.ExtraAttrs)

func Item.split
  requires orig != nil && dataSet(orig.Analysis.ExtraAttrs)
  modifies *orig
  ensures [refused] result == nil <==> splitIndex <= 0 || splitIndex >= old(orig.Length)
  ensures [nochange] result == nil ==> *orig == old(*orig)
  ensures [before] result != nil ==> fresh(result) && copiedItem(result, orig, old(orig.Offset), splitIndex)
  ensures [after] result != nil ==> copiedItem(orig, old(orig), old(orig.Offset) + splitIndex, old(orig.Length) - splitIndex)
  ensures [attrs] result != nil ==> copiedAttrs(result.Analysis.ExtraAttrs, orig.Analysis.ExtraAttrs)
  ensures [own] result != nil ==> freshAttrs(result.Analysis.ExtraAttrs)
  ensures [kept] sameslice(orig.Analysis.ExtraAttrs, old(orig.Analysis.ExtraAttrs))

func Item.unSplit
  requires orig != nil
  modifies *orig
  ensures [undo] orig.Offset == old(orig.Offset) - splitIndex && orig.Length == old(orig.Length) + splitIndex && orig.Offset + orig.Length == old(orig.Offset + orig.Length)
  ensures [kept] copiedItem(orig, old(orig), orig.Offset, orig.Length) && sameslice(orig.Analysis.ExtraAttrs, old(orig.Analysis.ExtraAttrs))

func GlyphString.setSize
  requires str != nil && 0 <= newLen && (newLen <= cap(str.Glyphs) ==> newLen <= cap(str.LogClusters))
  modifies *str
  ensures [len] len(str.Glyphs) == newLen && len(str.LogClusters) == newLen
  ensures [reuse] newLen <= old(cap(str.Glyphs)) ==> obj(str.Glyphs) == old(obj(str.Glyphs)) && off(str.Glyphs) == old(off(str.Glyphs)) && obj(str.LogClusters) == old(obj(str.LogClusters)) && off(str.LogClusters) == old(off(str.LogClusters)) && cap(str.Glyphs) == old(cap(str.Glyphs)) && cap(str.LogClusters) == old(cap(str.LogClusters))
  ensures [new] newLen > old(cap(str.Glyphs)) ==> fresh(str.Glyphs) && fresh(str.LogClusters)

func GlyphString.reverse
  requires glyphs != nil && len(glyphs.Glyphs) == len(glyphs.LogClusters)
  modifies glyphs.Glyphs[:], glyphs.LogClusters[:]
  ensures [glyphs] forall k int :: {glyphs.Glyphs[k]} 0 <= k && k < len(glyphs.Glyphs) ==> glyphs.Glyphs[k] == old(glyphs.Glyphs[len(glyphs.Glyphs)-1-k])
  ensures [clusters] forall k int :: {glyphs.LogClusters[k]} 0 <= k && k < len(glyphs.LogClusters) ==> glyphs.LogClusters[k] == old(glyphs.LogClusters[len(glyphs.LogClusters)-1-k])
  loop 0:
    invariant i < 0 || i < len(gs) - 1 - i
    invariant [glyphs] forall k int :: {gs[k]} 0 <= k && k < len(gs) ==> gs[k] == (i < k && k < len(gs) - 1 - i ? old(glyphs.Glyphs[len(glyphs.Glyphs)-1-k]) : old(glyphs.Glyphs[k]))
    invariant [clusters] forall k int :: {lc[k]} 0 <= k && k < len(lc) ==> lc[k] == (i < k && k < len(lc) - 1 - i ? old(glyphs.LogClusters[len(glyphs.LogClusters)-1-k]) : old(glyphs.LogClusters[k]))

# a run: one cluster index per glyph, in the order of the text
spec func isLTR(g *GlyphItem) bool = g.Item.Analysis.Level % 2 == 0
spec func runOK(g *GlyphItem) bool = g != nil && g.Item != nil && g.Glyphs != nil && 0 <= g.Item.Offset && 0 <= g.Item.Length && len(g.Glyphs.Glyphs) == len(g.Glyphs.LogClusters) && clustersIn(g.Glyphs.LogClusters, g.Item.Length) && (g.Item.Analysis.Level % 2 == 0 ? ascending(g.Glyphs.LogClusters) : descending(g.Glyphs.LogClusters))
spec func clustersIn(lc []int, length int) bool = forall k int :: {lc[k]} 0 <= k && k < len(lc) ==> 0 <= lc[k] && lc[k] < length
spec func ascending(lc []int) bool = (len(lc) > 0 ==> lc[0] == 0) && (forall j, k int :: {lc[j], lc[k]} 0 <= j && j < k && k < len(lc) ==> lc[j] <= lc[k])
spec func descending(lc []int) bool = (len(lc) > 0 ==> lc[len(lc)-1] == 0) && (forall j, k int :: {lc[j], lc[k]} 0 <= j && j < k && k < len(lc) ==> lc[j] >= lc[k])

func GlyphItem.LTR
  requires g.Item != nil
  ensures result <==> g.Item.Analysis.Level % 2 == 0

func GlyphItem.split
  requires runOK(orig) && dataSet(orig.Item.Analysis.ExtraAttrs)
  requires cap(orig.Glyphs.LogClusters) >= len(orig.Glyphs.Glyphs)
  modifies *orig.Item, *orig.Glyphs, orig.Glyphs.Glyphs[:], orig.Glyphs.LogClusters[:]
  ensures [refused] result == nil ==> splitIndex <= 0 || splitIndex >= old(orig.Item.Length) || (forall k int :: {orig.Glyphs.LogClusters[k]} 0 <= k && k < len(orig.Glyphs.LogClusters) ==> orig.Glyphs.LogClusters[k] < splitIndex)
  ensures [nochange] result == nil ==> *orig.Item == old(*orig.Item) && *orig.Glyphs == old(*orig.Glyphs) && (forall k int :: {orig.Glyphs.Glyphs[k]} 0 <= k && k < len(orig.Glyphs.Glyphs) ==> orig.Glyphs.Glyphs[k] == old(orig.Glyphs.Glyphs[k])) && (forall k int :: {orig.Glyphs.LogClusters[k]} 0 <= k && k < len(orig.Glyphs.LogClusters) ==> orig.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters[k]))
  ensures [new] result != nil ==> fresh(result) && fresh(result.Item) && fresh(result.Glyphs) && fresh(result.Glyphs.Glyphs) && fresh(result.Glyphs.LogClusters)
  ensures [text] result != nil ==> splitIndex <= result.Item.Length && result.Item.Length < old(orig.Item.Length) && copiedItem(result.Item, orig.Item, old(orig.Item.Offset), result.Item.Length) && copiedItem(orig.Item, old(orig.Item), old(orig.Item.Offset) + result.Item.Length, old(orig.Item.Length) - result.Item.Length)
  ensures [attrs] result != nil ==> copiedAttrs(result.Item.Analysis.ExtraAttrs, orig.Item.Analysis.ExtraAttrs) && sameslice(orig.Item.Analysis.ExtraAttrs, old(orig.Item.Analysis.ExtraAttrs))
  # at the first cluster boundary from splitIndex on
  ensures [boundary] result != nil ==> forall k int :: {old(orig.Glyphs.LogClusters[k])} 0 <= k && k < old(len(orig.Glyphs.LogClusters)) ==> old(orig.Glyphs.LogClusters[k]) < splitIndex || old(orig.Glyphs.LogClusters[k]) >= result.Item.Length
  ensures [count] result != nil ==> len(result.Glyphs.Glyphs) + len(orig.Glyphs.Glyphs) == old(len(orig.Glyphs.Glyphs)) && len(result.Glyphs.Glyphs) > 0 && len(orig.Glyphs.Glyphs) > 0
  ensures [beforeLTR] result != nil && isLTR(orig) ==> forall k int :: {result.Glyphs.Glyphs[k]} {result.Glyphs.LogClusters[k]} 0 <= k && k < len(result.Glyphs.Glyphs) ==> result.Glyphs.Glyphs[k] == old(orig.Glyphs.Glyphs[k]) && result.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters[k])
  ensures [afterLTR] result != nil && isLTR(orig) ==> forall k int :: {orig.Glyphs.Glyphs[k]} {orig.Glyphs.LogClusters[k]} 0 <= k && k < len(orig.Glyphs.Glyphs) ==> orig.Glyphs.Glyphs[k] == old(orig.Glyphs.Glyphs)[k + len(result.Glyphs.Glyphs)] && orig.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters)[k + len(result.Glyphs.Glyphs)] - result.Item.Length
  ensures [beforeRTL] result != nil && !isLTR(orig) ==> forall k int :: {result.Glyphs.Glyphs[k]} {result.Glyphs.LogClusters[k]} 0 <= k && k < len(result.Glyphs.Glyphs) ==> result.Glyphs.Glyphs[k] == old(orig.Glyphs.Glyphs)[k + len(orig.Glyphs.Glyphs)] && result.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters)[k + len(orig.Glyphs.Glyphs)]
  ensures [afterRTL] result != nil && !isLTR(orig) ==> forall k int :: {orig.Glyphs.Glyphs[k]} {orig.Glyphs.LogClusters[k]} 0 <= k && k < len(orig.Glyphs.Glyphs) ==> orig.Glyphs.Glyphs[k] == old(orig.Glyphs.Glyphs[k]) && orig.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters[k]) - result.Item.Length
  ensures [offset] result != nil ==> result.yOffset == orig.yOffset && result.startXOffset == orig.startXOffset
  ensures [runs] result != nil ==> runOK(result)
  ensures [run] runOK(orig)
  loop 0:
    invariant 0 <= i && i <= len(orig.Glyphs.LogClusters)
    invariant forall k int :: {orig.Glyphs.LogClusters[k]} 0 <= k && k < i ==> orig.Glyphs.LogClusters[k] < splitIndex
  loop 1:
    invariant -1 <= i && i < len(orig.Glyphs.LogClusters)
    invariant forall k int :: {orig.Glyphs.LogClusters[k]} i < k && k < len(orig.Glyphs.LogClusters) ==> orig.Glyphs.LogClusters[k] < splitIndex
  loop 2:
    invariant numGlyphs <= i && i <= len(orig.Glyphs.LogClusters)
    invariant forall k int :: {new.Glyphs.LogClusters[k]} 0 <= k && k < numGlyphs ==> new.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters[k])
    invariant forall k int :: {orig.Glyphs.LogClusters[k]} 0 <= k && k < i - numGlyphs ==> orig.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters)[k + numGlyphs] - splitIndex
    invariant forall k int :: {orig.Glyphs.LogClusters[k]} i - numGlyphs <= k && k < len(orig.Glyphs.LogClusters) ==> orig.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters[k])
  loop 3:
    invariant forall k int :: {new.Glyphs.LogClusters[k]} 0 <= k && k < numGlyphs ==> new.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters)[k + numRemaining]
    invariant forall k int :: {orig.Glyphs.LogClusters[k]} 0 <= k && k < rangeidx ==> orig.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters[k]) - splitIndex
    invariant forall k int :: {orig.Glyphs.LogClusters[k]} rangeidx <= k && k < len(orig.Glyphs.LogClusters) ==> orig.Glyphs.LogClusters[k] == old(orig.Glyphs.LogClusters[k])

# ---------------------------------------------------------------- clusters

# the character at which the glyph position g starts; the positions go from 0 to
# len (left to right) or from len-1 to -1
spec func charAt(g *GlyphItem, p int) int = isLTR(g) ? (p >= len(g.Glyphs.Glyphs) ? g.Item.Length : g.Glyphs.LogClusters[p]) : (p < 0 ? g.Item.Length : g.Glyphs.LogClusters[p])
spec func boundary(g *GlyphItem, p int) bool = isLTR(g) ? 0 <= p && p <= len(g.Glyphs.Glyphs) && (0 < p && p < len(g.Glyphs.Glyphs) ==> g.Glyphs.LogClusters[p-1] < g.Glyphs.LogClusters[p]) : -1 <= p && p < len(g.Glyphs.Glyphs) && (0 <= p && p < len(g.Glyphs.Glyphs) - 1 ==> g.Glyphs.LogClusters[p+1] < g.Glyphs.LogClusters[p])
spec func firstPos(g *GlyphItem) int = isLTR(g) ? 0 : len(g.Glyphs.Glyphs) - 1
spec func lastPos(g *GlyphItem) int = isLTR(g) ? len(g.Glyphs.Glyphs) : -1
spec func atEnd(it GlyphItemIter) bool = boundary(it.glyphItem, it.endGlyph) && it.EndIndex == it.glyphItem.Item.Offset + it.EndChar && (len(it.glyphItem.Glyphs.Glyphs) > 0 ==> it.EndChar == charAt(it.glyphItem, it.endGlyph))
spec func atStart(it GlyphItemIter) bool = boundary(it.glyphItem, it.startGlyph) && it.StartIndex == it.glyphItem.Item.Offset + it.StartChar && (len(it.glyphItem.Glyphs.Glyphs) > 0 ==> it.StartChar == charAt(it.glyphItem, it.startGlyph))
# the iterator is on one cluster: not empty, all its glyphs have its first character as cluster
spec func onCluster(it GlyphItemIter) bool = 0 <= it.StartChar && it.StartChar < it.EndChar && it.EndChar <= it.glyphItem.Item.Length && (isLTR(it.glyphItem) ? it.startGlyph < it.endGlyph : it.endGlyph < it.startGlyph) && (forall k int :: {it.glyphItem.Glyphs.LogClusters[k]} (isLTR(it.glyphItem) ? it.startGlyph <= k && k < it.endGlyph : it.endGlyph < k && k <= it.startGlyph) ==> it.glyphItem.Glyphs.LogClusters[k] == it.StartChar)

func GlyphItemIter.NextCluster
  requires iter != nil && runOK(iter.glyphItem) && atEnd(*iter)
  modifies *iter
  ensures [end] !result <==> old(iter.endGlyph) == lastPos(iter.glyphItem)
  ensures [stay] !result ==> *iter == old(*iter)
  ensures [same] iter.glyphItem == old(iter.glyphItem)
  ensures [contiguous] result ==> iter.startGlyph == old(iter.endGlyph) && iter.StartChar == old(iter.EndChar) && iter.StartIndex == old(iter.EndIndex)
  ensures [on] result ==> onCluster(*iter)
  ensures [bounds] result ==> atStart(*iter) && atEnd(*iter)
  loop 0:
    invariant iter.startGlyph <= glyphIndex && glyphIndex < len(glyphs.Glyphs)
    invariant iter.glyphItem == old(iter.glyphItem) && iter.startGlyph == old(iter.endGlyph) && iter.StartIndex == old(iter.EndIndex) && iter.StartChar == old(iter.EndChar) && iter.EndChar == old(iter.EndChar) && iter.EndIndex == old(iter.EndIndex)
    invariant forall k int :: {glyphs.LogClusters[k]} iter.startGlyph <= k && k <= glyphIndex ==> glyphs.LogClusters[k] == cluster
  loop 1:
    invariant 0 <= glyphIndex && glyphIndex <= iter.startGlyph
    invariant iter.glyphItem == old(iter.glyphItem) && iter.startGlyph == old(iter.endGlyph) && iter.StartIndex == old(iter.EndIndex) && iter.StartChar == old(iter.EndChar) && iter.EndChar == old(iter.EndChar) && iter.EndIndex == old(iter.EndIndex)
    invariant forall k int :: {glyphs.LogClusters[k]} glyphIndex <= k && k <= iter.startGlyph ==> glyphs.LogClusters[k] == cluster

func GlyphItemIter.PrevCluster
  requires iter != nil && runOK(iter.glyphItem) && atStart(*iter)
  modifies *iter
  ensures [end] !result <==> old(iter.startGlyph) == firstPos(iter.glyphItem)
  ensures [stay] !result ==> *iter == old(*iter)
  ensures [same] iter.glyphItem == old(iter.glyphItem)
  ensures [contiguous] result ==> iter.endGlyph == old(iter.startGlyph) && iter.EndChar == old(iter.StartChar) && iter.EndIndex == old(iter.StartIndex)
  ensures [on] result ==> onCluster(*iter)
  ensures [bounds] result ==> atStart(*iter) && atEnd(*iter)
  loop 0:
    invariant 0 <= glyphIndex && glyphIndex <= iter.endGlyph
    invariant iter.glyphItem == old(iter.glyphItem) && iter.endGlyph == old(iter.startGlyph) && iter.EndIndex == old(iter.StartIndex) && iter.StartChar == old(iter.StartChar) && iter.EndChar == old(iter.StartChar) && iter.StartIndex == old(iter.StartIndex)
    invariant forall k int :: {glyphs.LogClusters[k]} glyphIndex <= k && k < iter.endGlyph ==> glyphs.LogClusters[k] == cluster
  loop 1:
    invariant iter.endGlyph <= glyphIndex && glyphIndex <= len(glyphs.Glyphs) - 1
    invariant iter.glyphItem == old(iter.glyphItem) && iter.endGlyph == old(iter.startGlyph) && iter.EndIndex == old(iter.StartIndex) && iter.StartChar == old(iter.StartChar) && iter.EndChar == old(iter.StartChar) && iter.StartIndex == old(iter.StartIndex)
    invariant forall k int :: {glyphs.LogClusters[k]} iter.endGlyph < k && k <= glyphIndex ==> glyphs.LogClusters[k] == cluster

func GlyphItemIter.InitStart
  requires iter != nil && runOK(glyphItem)
  modifies *iter
  ensures [empty] !result <==> len(glyphItem.Glyphs.Glyphs) == 0
  ensures [same] iter.glyphItem == glyphItem
  ensures [first] result ==> iter.startGlyph == firstPos(glyphItem) && iter.StartChar == 0 && iter.StartIndex == glyphItem.Item.Offset
  ensures [on] result ==> onCluster(*iter)
  ensures [bounds] result ==> atStart(*iter) && atEnd(*iter)

func GlyphItemIter.InitEnd
  requires iter != nil && runOK(glyphItem)
  modifies *iter
  ensures [empty] !result <==> len(glyphItem.Glyphs.Glyphs) == 0
  ensures [same] iter.glyphItem == glyphItem
  ensures [last] result ==> iter.endGlyph == lastPos(glyphItem) && iter.EndChar == glyphItem.Item.Length && iter.EndIndex == glyphItem.Item.Offset + glyphItem.Item.Length
  ensures [on] result ==> onCluster(*iter)
  ensures [bounds] result ==> atStart(*iter) && atEnd(*iter)

# ---------------------------------------------------------------- widths

# sum of the widths of the n first glyphs (mathematical)
spec rec widthTo(g []GlyphInfo, n int) int = n <= 0 ? 0 : widthTo(g, n-1) + g[n-1].Geometry.Width

func GlyphString.getWidth
  requires glyphs != nil
  ensures [sum] result == Unit(widthTo(glyphs.Glyphs, len(glyphs.Glyphs)))
  loop 0:
    invariant width == Unit(widthTo(glyphs.Glyphs, rangeidx))

# width of the glyphs from position p to q (q excluded)
spec func widthOf(g *GlyphItem, p int, q int) Unit = isLTR(g) ? Unit(widthTo(g.Glyphs.Glyphs, q) - widthTo(g.Glyphs.Glyphs, p)) : Unit(widthTo(g.Glyphs.Glyphs, p+1) - widthTo(g.Glyphs.Glyphs, q+1))
# the glyphs from p to q (excluded) are one cluster
spec opaque isCluster(g *GlyphItem, p int, q int) bool = boundary(g, p) && boundary(g, q) && (isLTR(g) ? p < q : q < p) && (forall k int :: {g.Glyphs.LogClusters[k]} (isLTR(g) ? p <= k && k < q : q < k && k <= p) ==> g.Glyphs.LogClusters[k] == g.Glyphs.LogClusters[p])
# its width is divided equally between its characters, the first one has the rest
spec func shared(lw []Unit, g *GlyphItem, p int, q int) bool = forall c int :: {lw[c]} charAt(g, p) <= c && c < charAt(g, q) ==> lw[c] == (c == charAt(g, p) ? Unit(share(g, p, q) + rest(g, p, q)) : share(g, p, q))
spec opaque share(g *GlyphItem, p int, q int) Unit = Unit(quo(widthOf(g, p, q), Unit(charAt(g, q) - charAt(g, p))))
spec opaque rest(g *GlyphItem, p int, q int) Unit = Unit(widthOf(g, p, q) - Unit(share(g, p, q) * Unit(charAt(g, q) - charAt(g, p))))

func GlyphItem.getLogicalWidths
  option abstractmul
  requires runOK(glyphItem) && len(logicalWidths) == glyphItem.Item.Length && glyphItem.Item.Length <= 2147483647
  modifies logicalWidths[:]
  ensures [shared] forall p, q int :: {isCluster(glyphItem, p, q)} isCluster(glyphItem, p, q) ==> shared(logicalWidths, glyphItem, p, q)
  loop 0:
    invariant iter.glyphItem == glyphItem
    invariant hasCluster ==> onCluster(iter) && atStart(iter) && atEnd(iter)
    invariant !hasCluster ==> len(glyphItem.Glyphs.Glyphs) == 0 || iter.endGlyph == lastPos(glyphItem)
    invariant [doneLTR] hasCluster && isLTR(glyphItem) ==> forall p, q int :: {isCluster(glyphItem, p, q)} isCluster(glyphItem, p, q) && q <= iter.startGlyph ==> shared(logicalWidths, glyphItem, p, q)
    invariant [doneRTL] hasCluster && !isLTR(glyphItem) ==> forall p, q int :: {isCluster(glyphItem, p, q)} isCluster(glyphItem, p, q) && iter.startGlyph <= q ==> shared(logicalWidths, glyphItem, p, q)
    invariant [allLTR] !hasCluster && isLTR(glyphItem) ==> forall p, q int :: {isCluster(glyphItem, p, q)} isCluster(glyphItem, p, q) ==> shared(logicalWidths, glyphItem, p, q)
    invariant [allRTL] !hasCluster && !isLTR(glyphItem) ==> forall p, q int :: {isCluster(glyphItem, p, q)} isCluster(glyphItem, p, q) ==> shared(logicalWidths, glyphItem, p, q)
    at begin:
      assert isCluster(glyphItem, iter.startGlyph, iter.endGlyph)
  loop 1:
    invariant isLTR(glyphItem) ? iter.startGlyph <= glyphIndex && glyphIndex <= iter.endGlyph : iter.endGlyph <= glyphIndex && glyphIndex <= iter.startGlyph
    invariant clusterWidth == widthOf(glyphItem, iter.startGlyph, glyphIndex)
  loop 2:
    invariant iter.StartChar <= charIndex && charIndex <= iter.EndChar
    invariant forall c int :: {logicalWidths[c]} 0 <= c && c < len(logicalWidths) ==> logicalWidths[c] == (iter.StartChar <= c && c < charIndex ? charWidth : entry(logicalWidths[c]))

func GlyphItem.GetLogicalWidths
  requires runOK(glyphItem) && glyphItem.Item.Length <= 2147483647
  ensures [len] len(result) == glyphItem.Item.Length
  at return:
    assert allShared(result, glyphItem)
    use 0 < len(glyphItem.Glyphs.Glyphs) && isLTR(glyphItem) ==> totalLTR(result, glyphItem, lastPos(glyphItem))
    use 0 < len(glyphItem.Glyphs.Glyphs) && !isLTR(glyphItem) ==> totalRTL(result, glyphItem, lastPos(glyphItem))
  ensures [total] 0 < len(glyphItem.Glyphs.Glyphs) ==> Unit(unitsTo(result, len(result))) == Unit(widthTo(glyphItem.Glyphs.Glyphs, len(glyphItem.Glyphs.Glyphs)))
  ensures [shared] forall p, q int :: {isCluster(glyphItem, p, q)} isCluster(glyphItem, p, q) ==> shared(result, glyphItem, p, q)

# the logical widths of a run sum to its width
spec rec unitsTo(lw []Unit, n int) int = n <= 0 ? 0 : unitsTo(lw, n-1) + lw[n-1]
spec rec times(n int, q int) int = n <= 0 ? 0 : times(n-1, q) + q
lemma timesMul(n int, q int)
  requires 0 <= n
  ensures times(n, q) == n * q
  decreases n
  ih 0 < n ==> timesMul(n-1, q)
lemma unitsOfCluster(lw []Unit, a int, b int, q Unit, r Unit)
  requires 0 <= a && a < b && lw[a] == Unit(q + r)
  requires forall c int :: {lw[c]} a < c && c < b ==> lw[c] == q
  ensures Unit(unitsTo(lw, b)) == Unit(unitsTo(lw, a) + times(b - a, q) + r)
  decreases b
  ih a < b-1 ==> unitsOfCluster(lw, a, b-1, q, r)
spec rec startOf(g *GlyphItem, p int) int = isLTR(g) ? (p <= 1 ? 0 : g.Glyphs.LogClusters[p-2] < g.Glyphs.LogClusters[p-1] ? p-1 : startOf(g, p-1)) : (p+1 >= len(g.Glyphs.Glyphs) - 1 ? len(g.Glyphs.Glyphs) - 1 : g.Glyphs.LogClusters[p+2] < g.Glyphs.LogClusters[p+1] ? p+1 : startOf(g, p+1))
lemma startOfLTR(g *GlyphItem, p int)
  requires runOK(g) && isLTR(g) && 0 < p && p <= len(g.Glyphs.Glyphs)
  ensures 0 <= startOf(g, p) && startOf(g, p) < p && boundary(g, startOf(g, p)) && (forall k int :: {g.Glyphs.LogClusters[k]} startOf(g, p) <= k && k < p ==> g.Glyphs.LogClusters[k] == g.Glyphs.LogClusters[p-1])
  decreases p
  ih 1 < p && !(g.Glyphs.LogClusters[p-2] < g.Glyphs.LogClusters[p-1]) ==> startOfLTR(g, p-1)
lemma startOfRTL(g *GlyphItem, p int)
  requires runOK(g) && !isLTR(g) && -1 <= p && p < len(g.Glyphs.Glyphs) - 1
  ensures p < startOf(g, p) && startOf(g, p) < len(g.Glyphs.Glyphs) && boundary(g, startOf(g, p)) && (forall k int :: {g.Glyphs.LogClusters[k]} p < k && k <= startOf(g, p) ==> g.Glyphs.LogClusters[k] == g.Glyphs.LogClusters[p+1])
  decreases len(g.Glyphs.Glyphs) - p
  ih p+1 < len(g.Glyphs.Glyphs) - 1 && !(g.Glyphs.LogClusters[p+2] < g.Glyphs.LogClusters[p+1]) ==> startOfRTL(g, p+1)
spec opaque allShared(lw []Unit, g *GlyphItem) bool = forall p, q int :: {isCluster(g, p, q)} isCluster(g, p, q) ==> shared(lw, g, p, q)
lemma wrapSum(a int, b int, c Unit)
  ensures Unit(a + b + Unit(c - Unit(b))) == Unit(a + c)
# one cluster
lemma clusterTotal(lw []Unit, g *GlyphItem, p int, q int)
  option sameheap
  option abstractmul
  requires runOK(g) && len(lw) == g.Item.Length && g.Item.Length <= 2147483647 && isCluster(g, p, q) && shared(lw, g, p, q)
  ensures Unit(unitsTo(lw, charAt(g, q))) == Unit(unitsTo(lw, charAt(g, p)) + widthOf(g, p, q))
  assert 0 <= charAt(g, p) && charAt(g, p) < charAt(g, q) && charAt(g, q) <= len(lw)
  use unitsOfCluster(lw, charAt(g, p), charAt(g, q), share(g, p, q), rest(g, p, q))
  use timesMul(charAt(g, q) - charAt(g, p), share(g, p, q))
  assert Unit(charAt(g, q) - charAt(g, p)) == charAt(g, q) - charAt(g, p)
  assert rest(g, p, q) == Unit(widthOf(g, p, q) - Unit(share(g, p, q) * (charAt(g, q) - charAt(g, p))))
  use wrapSum(unitsTo(lw, charAt(g, p)), (charAt(g, q) - charAt(g, p)) * share(g, p, q), widthOf(g, p, q))
lemma totalLTR(lw []Unit, g *GlyphItem, p int)
  option sameheap
  requires runOK(g) && isLTR(g) && len(lw) == g.Item.Length && g.Item.Length <= 2147483647 && allShared(lw, g) && boundary(g, p) && 0 < len(g.Glyphs.Glyphs)
  ensures Unit(unitsTo(lw, charAt(g, p))) == Unit(widthTo(g.Glyphs.Glyphs, p))
  decreases p
  use 0 < p ==> startOfLTR(g, p)
  assert 0 < p ==> isCluster(g, startOf(g, p), p)
  use 0 < p ==> clusterTotal(lw, g, startOf(g, p), p)
  induct 0 < p ==> totalLTR(lw, g, startOf(g, p))
lemma totalRTL(lw []Unit, g *GlyphItem, p int)
  option sameheap
  requires runOK(g) && !isLTR(g) && len(lw) == g.Item.Length && g.Item.Length <= 2147483647 && allShared(lw, g) && boundary(g, p) && 0 < len(g.Glyphs.Glyphs)
  ensures Unit(unitsTo(lw, charAt(g, p))) == Unit(widthTo(g.Glyphs.Glyphs, len(g.Glyphs.Glyphs)) - widthTo(g.Glyphs.Glyphs, p+1))
  decreases len(g.Glyphs.Glyphs) - p
  use p < len(g.Glyphs.Glyphs) - 1 ==> startOfRTL(g, p)
  assert p < len(g.Glyphs.Glyphs) - 1 ==> isCluster(g, startOf(g, p), p)
  use p < len(g.Glyphs.Glyphs) - 1 ==> clusterTotal(lw, g, startOf(g, p), p)
  induct p < len(g.Glyphs.Glyphs) - 1 ==> totalRTL(lw, g, startOf(g, p))

# ---------------------------------------------------------------- positions

# rounding to device units
func Unit.Pixels
  ensures [nearest] -2147483648 <= g && g <= 2147483135 ==> 1024 * result - 512 <= g && g < 1024 * result + 512
func Unit.PixelsFloor
  ensures [floor] 1024 * result <= g && g < 1024 * (result + 1)
func Unit.PixelsCeil
  ensures [ceil] g <= 2147482624 ==> 1024 * (result - 1) < g && g <= 1024 * result
func Unit.Round
  ensures [multiple] result % 1024 == 0
  ensures [nearest] d <= 2147483135 ==> result - 512 <= d && d < result + 512

extern github.com/benoitkugler/textprocessing/pango.Font.GlyphExtents
  requires recv != nil
  modifies *inkRect, *logicalRect

func GlyphString.extentsRange
  requires glyphs != nil && 0 <= start && end <= len(glyphs.Glyphs) && font != nil && (inkRect != nil ==> inkRect != logicalRect)
  modifies *inkRect, *logicalRect
  ensures [nothing] start > end ==> (inkRect != nil ==> *inkRect == old(*inkRect)) && (logicalRect != nil ==> *logicalRect == old(*logicalRect))
  ensures [width] logicalRect != nil && start <= end ==> logicalRect.X == 0 && logicalRect.Width == Unit(widthTo(glyphs.Glyphs, end) - widthTo(glyphs.Glyphs, start))
  ensures [empty] start == end ==> (inkRect != nil ==> inkRect.Width == 0 && inkRect.Height == 0 && inkRect.X == 0 && inkRect.Y == 0) && (logicalRect != nil ==> logicalRect.Height == 0 && logicalRect.Y == 0)
  loop 0:
    invariant start <= i && i <= end
    invariant xPos == Unit(widthTo(glyphs.Glyphs, i) - widthTo(glyphs.Glyphs, start))
    invariant logicalRect != nil ==> logicalRect.X == 0 && logicalRect.Width == Unit(widthTo(glyphs.Glyphs, i) - widthTo(glyphs.Glyphs, start))
    invariant i == start ==> (inkRect != nil ==> inkRect.Width == 0 && inkRect.Height == 0 && inkRect.X == 0 && inkRect.Y == 0) && (logicalRect != nil ==> logicalRect.Height == 0 && logicalRect.Y == 0)

func GlyphString.Extents
  requires glyphs != nil && font != nil && (inkRect != nil ==> inkRect != logicalRect)
  modifies *inkRect, *logicalRect
  ensures [width] logicalRect != nil ==> logicalRect.X == 0 && logicalRect.Width == Unit(widthTo(glyphs.Glyphs, len(glyphs.Glyphs)))

# padding moves width between the line and one glyph
func GlyphString.pad_glyphstring_right
  requires glyphs != nil && state != nil
  modifies glyphs.Glyphs[:], state.remainingWidth
  ensures [one] forall j, k int :: {glyphs.Glyphs[j], glyphs.Glyphs[k]} 0 <= j && j < k && k < len(glyphs.Glyphs) ==> glyphs.Glyphs[j] == old(glyphs.Glyphs[j]) || glyphs.Glyphs[k] == old(glyphs.Glyphs[k])
  ensures [which] forall k int :: {glyphs.Glyphs[k]} 0 <= k && k < len(glyphs.Glyphs) ==> glyphs.Glyphs[k] == old(glyphs.Glyphs[k]) || (old(glyphs.Glyphs[k].Geometry.Width) != 0 && (forall j int :: {old(glyphs.Glyphs[j])} k < j && j < len(glyphs.Glyphs) ==> old(glyphs.Glyphs[j].Geometry.Width) == 0))
  ensures [conserved] forall k int :: {glyphs.Glyphs[k]} 0 <= k && k < len(glyphs.Glyphs) && old(glyphs.Glyphs[k].Geometry.Width) != 0 && (forall j int :: {old(glyphs.Glyphs[j])} k < j && j < len(glyphs.Glyphs) ==> old(glyphs.Glyphs[j].Geometry.Width) == 0) ==> Unit(state.remainingWidth + glyphs.Glyphs[k].Geometry.Width) == Unit(old(state.remainingWidth) + old(glyphs.Glyphs[k].Geometry.Width)) && glyphs.Glyphs[k].Geometry.Width == max(0, Unit(old(glyphs.Glyphs[k].Geometry.Width) + adjustment))
  ensures [none] (forall k int :: {old(glyphs.Glyphs[k])} 0 <= k && k < len(glyphs.Glyphs) ==> old(glyphs.Glyphs[k].Geometry.Width) == 0) ==> state.remainingWidth == old(state.remainingWidth)
  loop 0:
    invariant -1 <= glyph && glyph < len(glyphs.Glyphs)
    invariant forall j int :: {glyphs.Glyphs[j]} glyph < j && j < len(glyphs.Glyphs) ==> glyphs.Glyphs[j].Geometry.Width == 0

func GlyphString.pad_glyphstring_left
  requires glyphs != nil && state != nil
  modifies glyphs.Glyphs[:], state.remainingWidth
  ensures [one] forall j, k int :: {glyphs.Glyphs[j], glyphs.Glyphs[k]} 0 <= j && j < k && k < len(glyphs.Glyphs) ==> glyphs.Glyphs[j] == old(glyphs.Glyphs[j]) || glyphs.Glyphs[k] == old(glyphs.Glyphs[k])
  ensures [conserved] forall k int :: {glyphs.Glyphs[k]} 0 <= k && k < len(glyphs.Glyphs) && old(glyphs.Glyphs[k].Geometry.Width) != 0 && (forall j int :: {old(glyphs.Glyphs[j])} 0 <= j && j < k ==> old(glyphs.Glyphs[j].Geometry.Width) == 0) ==> state.remainingWidth == Unit(old(state.remainingWidth) - adjustment) && glyphs.Glyphs[k].Geometry.Width == Unit(old(glyphs.Glyphs[k].Geometry.Width) + adjustment) && glyphs.Glyphs[k].Geometry.XOffset == Unit(old(glyphs.Glyphs[k].Geometry.XOffset) + adjustment)
  ensures [which] forall k int :: {glyphs.Glyphs[k]} 0 <= k && k < len(glyphs.Glyphs) && old(glyphs.Glyphs[k].Geometry.Width) == 0 ==> glyphs.Glyphs[k] == old(glyphs.Glyphs[k])
  ensures [none] (forall k int :: {old(glyphs.Glyphs[k])} 0 <= k && k < len(glyphs.Glyphs) ==> old(glyphs.Glyphs[k].Geometry.Width) == 0) ==> state.remainingWidth == old(state.remainingWidth)
  loop 0:
    invariant 0 <= glyph && glyph <= len(glyphs.Glyphs)
    invariant forall j int :: {glyphs.Glyphs[j]} 0 <= j && j < glyph ==> glyphs.Glyphs[j].Geometry.Width == 0

# one glyph per character, one cluster per glyph
func GlyphString._pango_shape_shape
  requires glyphs != nil && (len(text) <= cap(glyphs.Glyphs) ==> len(text) <= cap(glyphs.LogClusters))
  modifies *glyphs, glyphs.Glyphs[:], glyphs.LogClusters[:]
  ensures [len] len(glyphs.Glyphs) == len(text) && len(glyphs.LogClusters) == len(text)
  ensures [glyphs] forall k int :: {glyphs.Glyphs[k]} {glyphs.LogClusters[k]} 0 <= k && k < len(text) ==> glyphs.Glyphs[k].Glyph == GLYPH_EMPTY && glyphs.Glyphs[k].Geometry.Width == shapeLogical.Width && glyphs.Glyphs[k].Geometry.XOffset == 0 && glyphs.Glyphs[k].Geometry.YOffset == 0 && glyphs.Glyphs[k].attr.isClusterStart && glyphs.LogClusters[k] == k
  loop 0:
    invariant len(glyphs.Glyphs) == len(text) && len(glyphs.LogClusters) == len(text)
    invariant forall k int :: {glyphs.Glyphs[k]} {glyphs.LogClusters[k]} 0 <= k && k < rangeidx ==> glyphs.Glyphs[k].Glyph == GLYPH_EMPTY && glyphs.Glyphs[k].Geometry.Width == shapeLogical.Width && glyphs.Glyphs[k].Geometry.XOffset == 0 && glyphs.Glyphs[k].Geometry.YOffset == 0 && glyphs.Glyphs[k].attr.isClusterStart && glyphs.LogClusters[k] == k

property P02: TabArray.Copy, Item.copy, Item.split, Item.unSplit, GlyphString.setSize, GlyphItem.LTR, GlyphItem.split
property P03: GlyphString.getWidth, GlyphItem.getLogicalWidths, GlyphItem.GetLogicalWidths, GlyphItemIter.NextCluster, GlyphItemIter.PrevCluster, GlyphItemIter.InitStart, GlyphItemIter.InitEnd
  lemmas wrapSum, timesMul, unitsOfCluster, startOfLTR, startOfRTL, clusterTotal, totalLTR, totalRTL
property P04: Unit.Pixels, Unit.PixelsFloor, Unit.PixelsCeil, Unit.Round, GlyphString.getWidth, GlyphString.reverse, GlyphString.extentsRange, GlyphString.Extents, GlyphString.pad_glyphstring_right, GlyphString.pad_glyphstring_left, GlyphString._pango_shape_shape
