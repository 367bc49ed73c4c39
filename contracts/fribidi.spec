package github.com/benoitkugler/textprocessing/fribidi

func stringReverse
  modifies str[0:len(str)]
  ensures [rev] forall k int :: 0 <= k && k < len(str) ==> str[k] == old(str[len(str)-1-k])
  loop 0:
    invariant 0 - 1 <= i && i <= len(str)/2 - 1
    invariant forall k int :: i < k && k < len(str) - 1 - i ==> str[k] == old(str[len(str)-1-k])
    invariant forall k int :: 0 <= k && k <= i ==> str[k] == old(str[k])
    invariant forall k int :: len(str) - 1 - i <= k && k < len(str) ==> str[k] == old(str[k])

func indexesReverse
  modifies arr[0:len(arr)]
  ensures [rev] forall k int :: 0 <= k && k < len(arr) ==> arr[k] == old(arr[len(arr)-1-k])
  loop 0:
    invariant 0 - 1 <= i && i <= len(arr)/2 - 1
    invariant forall k int :: i < k && k < len(arr) - 1 - i ==> arr[k] == old(arr[len(arr)-1-k])
    invariant forall k int :: 0 <= k && k <= i ==> arr[k] == old(arr[k])
    invariant forall k int :: len(arr) - 1 - i <= k && k < len(arr) ==> arr[k] == old(arr[k])

# an arbitrary text and an arbitrary set of indices: the clauses hold for all of them
spec func anyText(i int) int
spec func anyIndex(i int) bool

spec func endsLine(ty []CharType, k, end int) bool = forall j int :: k <= j && j < end ==> ty[j].isExplicitOrBnOrWs()

# the text seen through the map is the logical text
spec func consistent(v []rune, m []int, off, end int) bool = forall k int :: off <= k && k < end ==> v[k] == anyText(m[k])
spec func within(m []int, off, end int) bool = forall k int :: off <= k && k < end ==> anyIndex(m[k])
spec func ranged(m []int, off, end int) bool = forall k int :: {m[k]} off <= k && k < end ==> off <= m[k] && m[k] < end
spec func injective(m []int, off, end int) bool = forall j, k int :: off <= j && j < k && k < end ==> m[j] != m[k]

spec func mapsKept(v0 bool, w0 bool, i0 bool, v []rune, m []int, off, end int) bool = (len(v) != 0 && len(m) != 0 && v0 ==> consistent(v, m, off, end)) && (len(m) != 0 && w0 ==> within(m, off, end)) && (len(m) != 0 && i0 ==> injective(m, off, end))

func ReorderLine
  requires 0 <= off && 0 <= length && off + length <= len(bidiTypes) && off + length <= len(embeddingLevels)
  requires len(visualStr) == 0 || off + length <= len(visualStr)
  requires len(map_) == 0 || off + length <= len(map_)
  requires forall k int :: off <= k && k < off + length ==> 0 <= embeddingLevels[k] && embeddingLevels[k] <= 126
  modifies embeddingLevels[off:off+length], visualStr[off:off+length], map_[off:off+length]
  ensures [levels] forall k int :: off <= k && k < off + length ==> embeddingLevels[k] == (endsLine(bidiTypes, k, off + length) ? dirToLevel(baseDir) : old(embeddingLevels[k]))
  ensures [max] result >= 1 && (forall k int :: off <= k && k < off + length ==> embeddingLevels[k] < result) && (result == 1 || (exists k int :: off <= k && k < off + length && embeddingLevels[k] == result - 1))
  ensures [consistent] len(visualStr) != 0 && len(map_) != 0 && old(consistent(visualStr, map_, off, off + length)) ==> consistent(visualStr, map_, off, off + length)
  ensures [values] len(map_) != 0 && old(within(map_, off, off + length)) ==> within(map_, off, off + length)
  ensures [range] len(map_) != 0 && old(ranged(map_, off, off + length)) ==> ranged(map_, off, off + length)
  ensures [injective] len(map_) != 0 && old(injective(map_, off, off + length)) ==> injective(map_, off, off + length)
  loop 0:
    invariant off - 1 <= i && i <= off + length - 1
    invariant endsLine(bidiTypes, i + 1, off + length)
    invariant forall k int :: i < k && k < off + length ==> embeddingLevels[k] == dirToLevel(baseDir)
    invariant forall k int :: off <= k && k <= i ==> embeddingLevels[k] == old(embeddingLevels[k])
  loop 1:
    invariant off - 2 <= i && i <= off + length - 1
    invariant len(visualStr) != 0 && len(map_) != 0 && old(consistent(visualStr, map_, off, off + length)) ==> consistent(visualStr, map_, off, off + length)
    invariant len(map_) != 0 && old(within(map_, off, off + length)) ==> within(map_, off, off + length)
    invariant len(map_) != 0 && old(ranged(map_, off, off + length)) ==> ranged(map_, off, off + length)
    invariant len(map_) != 0 && old(injective(map_, off, off + length)) ==> injective(map_, off, off + length)
  loop 2:
    invariant off - 1 <= i && i < seqEnd
  loop 3:
    invariant off - 1 <= i && i <= off + length - 1
    invariant 0 <= maxLevel && maxLevel <= 126
    invariant forall k int :: i < k && k < off + length ==> embeddingLevels[k] <= maxLevel
    invariant maxLevel == 0 || (exists k int :: i < k && k < off + length && embeddingLevels[k] == maxLevel)
  loop 4:
    invariant 0 <= level && level <= maxLevel
    invariant len(visualStr) != 0 && len(map_) != 0 && old(consistent(visualStr, map_, off, off + length)) ==> consistent(visualStr, map_, off, off + length)
    invariant len(map_) != 0 && old(within(map_, off, off + length)) ==> within(map_, off, off + length)
    invariant len(map_) != 0 && old(ranged(map_, off, off + length)) ==> ranged(map_, off, off + length)
    invariant len(map_) != 0 && old(injective(map_, off, off + length)) ==> injective(map_, off, off + length)
  loop 5:
    invariant off - 2 <= i && i <= off + length - 1
    invariant len(visualStr) != 0 && len(map_) != 0 && old(consistent(visualStr, map_, off, off + length)) ==> consistent(visualStr, map_, off, off + length)
    invariant len(map_) != 0 && old(within(map_, off, off + length)) ==> within(map_, off, off + length)
    invariant len(map_) != 0 && old(ranged(map_, off, off + length)) ==> ranged(map_, off, off + length)
    invariant len(map_) != 0 && old(injective(map_, off, off + length)) ==> injective(map_, off, off + length)
  loop 6:
    invariant off - 1 <= i && i < seqEnd

func Visual.LogicalToVisual
  requires forall k int :: 0 <= k && k < len(v.VisualToLogical) ==> 0 <= v.VisualToLogical[k] && v.VisualToLogical[k] < len(v.VisualToLogical)
  requires injective(v.VisualToLogical, 0, len(v.VisualToLogical))
  ensures [len] len(result) == len(v.VisualToLogical)
  ensures [inverse] forall k int :: 0 <= k && k < len(v.VisualToLogical) ==> result[v.VisualToLogical[k]] == k
  loop 0:
    invariant forall k int :: 0 <= k && k < i ==> out[v.VisualToLogical[k]] == k

spec hidden bidiTypeOf(ch rune) CharType = GetBidiType(ch)

func GetBidiType
  option reveal = bidiTypeOf
  ensures [fun] result == bidiTypeOf(ch)

# the characters removed by rule X9, and the two implicit directional marks
spec opaque keptMark(r rune) bool = !bidiTypeOf(r).isExplicitOrBn() && !bidiTypeOf(r).IsIsolate() && r != charLRM && r != charRLM

# number of kept characters before k in the text s
spec rec keptBefore(s []rune, k int) int = k <= 0 ? 0 : keptBefore(s, k-1) + (keptMark(s[k-1]) ? 1 : 0)

# the inverse of the position map of the caller
spec func theInverse(p int) int

spec func inverseMap(m []int, n int) bool = (forall p int :: {theInverse(p)} 0 <= p && p < n ==> 0 <= theInverse(p) && theInverse(p) < n && m[theInverse(p)] == p) && (forall q int :: {m[q]} 0 <= q && q < n ==> theInverse(m[q]) == q)

func RemoveBidiMarks
  requires len(positionsToThis) == 0 || len(positionsToThis) == len(str)
  requires len(positionFromThis) == 0 || len(positionFromThis) == len(str)
  requires len(embeddingLevels) == 0 || len(embeddingLevels) == len(str)
  requires obj(positionsToThis) != obj(positionFromThis) || len(positionsToThis) == 0 || len(positionFromThis) == 0
  requires forall k int :: 0 <= k && k < len(positionsToThis) ==> 0 <= positionsToThis[k] && positionsToThis[k] < len(str)
  requires forall k int :: 0 <= k && k < len(positionFromThis) ==> 0 <= positionFromThis[k] && positionFromThis[k] < len(str)
  requires len(positionsToThis) != 0 ==> inverseMap(positionsToThis, len(str))
  requires len(positionsToThis) != 0 && len(positionFromThis) != 0 ==> (forall k int :: {positionFromThis[k]} 0 <= k && k < len(str) ==> positionFromThis[k] == theInverse(k))
  modifies str[0:len(str)], positionsToThis[0:len(positionsToThis)], positionFromThis[0:len(positionFromThis)], embeddingLevels[0:len(embeddingLevels)]
  ensures [len] len(result) == old(keptBefore(str, len(str))) && obj(result) == obj(str) && off(result) == off(str)
  ensures [text] forall k int :: 0 <= k && k < len(str) && old(keptMark(str[k])) ==> str[old(keptBefore(str, k))] == old(str[k])
  ensures [levels] len(embeddingLevels) != 0 ==> (forall k int :: 0 <= k && k < len(str) && old(keptMark(str[k])) ==> embeddingLevels[old(keptBefore(str, k))] == old(embeddingLevels[k]))
  ensures [from] len(positionFromThis) != 0 ==> (forall k int :: 0 <= k && k < len(str) && old(keptMark(str[k])) ==> positionFromThis[old(keptBefore(str, k))] == old(positionFromThis[k]))
  ensures [to] len(positionsToThis) != 0 ==> (forall p int :: 0 <= p && p < len(str) ==> positionsToThis[theInverse(p)] == (old(keptMark(str[p])) ? old(keptBefore(str, p)) : -1))
  loop 0:
    invariant forall k int :: {positionsToThis[k]} 0 <= k && k < i ==> positionFromThis[positionsToThis[k]] == k
    invariant forall k int :: 0 <= k && k < len(str) ==> 0 <= positionFromThis[k] && positionFromThis[k] < len(str)
  loop 1:
    at before:
      assert len(positionFromThis) != 0 && len(positionsToThis) != 0 ==> (forall p int :: {theInverse(p)} {positionFromThis[p]} 0 <= p && p < len(str) ==> positionFromThis[p] == theInverse(p))
    at begin:
      assert old(keptBefore(str, i+1)) == old(keptBefore(str, i)) + (old(keptMark(str[i])) ? 1 : 0)
    at end:
      assert old(keptMark(str[i-1])) <==> keptMark(r)
      assert j == old(keptBefore(str, i))
    invariant 0 <= j && j <= i
    invariant j == old(keptBefore(str, i))
    invariant forall k int :: i <= k && k < len(str) ==> str[k] == old(str[k])
    invariant hasLevels ==> (forall k int :: i <= k && k < len(str) ==> embeddingLevels[k] == old(embeddingLevels[k]))
    invariant forall k int :: 0 <= k && k < i ==> 0 <= old(keptBefore(str, k)) && old(keptBefore(str, k)) <= j && (old(keptMark(str[k])) ==> old(keptBefore(str, k)) < j)
    invariant forall k int :: 0 <= k && k < i && old(keptMark(str[k])) ==> str[old(keptBefore(str, k))] == old(str[k])
    invariant hasLevels ==> (forall k int :: 0 <= k && k < i && old(keptMark(str[k])) ==> embeddingLevels[old(keptBefore(str, k))] == old(embeddingLevels[k]))
    invariant hasFrom ==> (forall k int :: 0 <= k && k < len(str) ==> 0 <= positionFromThis[k] && positionFromThis[k] < len(str))
    invariant hasFrom ==> (forall k int :: i <= k && k < len(str) ==> positionFromThis[k] == entry(positionFromThis[k]))
    invariant hasTo ==> (forall k int :: {entry(positionFromThis[k])} 0 <= k && k < len(str) ==> entry(positionFromThis[k]) == theInverse(k))
    invariant hasFrom ==> (forall k int :: 0 <= k && k < i && old(keptMark(str[k])) ==> positionFromThis[old(keptBefore(str, k))] == entry(positionFromThis[k]))
    invariant hasTo ==> (forall m int :: {positionFromThis[m]} 0 <= m && m < j ==> keptMark(old(str)[old(positionsToThis)[positionFromThis[m]]]) && keptBefore(old(str), old(positionsToThis)[positionFromThis[m]]) == m)
    invariant hasTo ==> (forall k int :: 0 <= k && k < len(str) ==> positionsToThis[k] == old(positionsToThis[k]))
  loop 2:
    invariant forall k int :: 0 <= k && k < i ==> positionsToThis[k] == -1
  loop 3:
    invariant forall m int :: {positionFromThis[m]} 0 <= m && m < i ==> positionsToThis[positionFromThis[m]] == m
    invariant forall q int :: {positionsToThis[q]} 0 <= q && q < len(str) ==> positionsToThis[q] == -1 || (0 <= positionsToThis[q] && positionsToThis[q] < i && positionFromThis[positionsToThis[q]] == q)

property B01: ReorderLine, Visual.LogicalToVisual
property B02: RemoveBidiMarks

# ---- B04: the building blocks of the levels

# the bidi classes
spec func isClass(p CharType) bool = isStrongLetter(p) || isEmbed(p) || isIsolateMark(p) || p == PDF || p == EN || p == AN || p == ES || p == ET || p == CS || p == NSM || p == BN || p == BS || p == SS || p == WS || p == ON
spec func isStrongLetter(p CharType) bool = p == LTR || p == RTL || p == AL
spec func isEmbed(p CharType) bool = p == LRE || p == RLE || p == LRO || p == RLO
spec func isIsolateMark(p CharType) bool = p == LRI || p == RLI || p == FSI || p == PDI
spec func isRightToLeft(p CharType) bool = p == RTL || p == AL || p == RLE || p == RLO || p == RLI || p == WRTL

func CharType.IsStrong
  inline
  ensures [class] isClass(p) ==> (result <==> isStrongLetter(p) || isEmbed(p))

func CharType.IsRtl
  inline
  ensures [class] isClass(p) ==> (result <==> isRightToLeft(p))

func CharType.isNeutral
  inline
  ensures [class] isClass(p) ==> (result <==> p == ON || p == BS || p == SS || p == WS || isIsolateMark(p))

func CharType.IsLetter
  inline
  ensures [class] isClass(p) ==> (result <==> isStrongLetter(p))

func CharType.IsNumber
  inline
  ensures [class] isClass(p) ==> (result <==> p == EN || p == AN)

func CharType.isNumberSeparatorOrTerminator
  inline
  ensures [class] isClass(p) ==> (result <==> p == ES || p == ET || p == CS)

func CharType.IsIsolate
  inline
  ensures [class] isClass(p) ==> (result <==> isIsolateMark(p))

func CharType.isSeparator
  inline
  ensures [class] isClass(p) ==> (result <==> p == BS || p == SS)

func CharType.isOverride
  inline
  ensures [class] isClass(p) ==> (result <==> p == LRO || p == RLO)

func CharType.isEsOrCs
  inline
  ensures [class] isClass(p) ==> (result <==> p == ES || p == CS)

func CharType.isExplicitOrBn
  inline
  ensures [class] isClass(p) ==> (result <==> isEmbed(p) || p == PDF || p == BN)

func CharType.isExplicitOrSeparatorOrBnOrWs
  inline
  ensures [class] isClass(p) ==> (result <==> isEmbed(p) || p == PDF || p == BN || p == BS || p == SS || p == WS)

func CharType.changeNumberToRTL
  inline
  ensures [class] isClass(p) ==> result == (p == EN || p == AN ? RTL : p)

func dirToLevel
  inline
  ensures [level] isClass(dir) || dir == WLTR || dir == WRTL ==> result == (isRightToLeft(dir) ? 1 : 0)

func levelToDir
  inline
  ensures [parity] 0 <= lev ==> result == (lev % 2 == 1 ? RTL : LTR)

func explicitToOverrideDir
  inline
  ensures [override] isEmbed(p) ==> result == (p == LRO ? LTR : (p == RLO ? RTL : ON))

func maxL
  inline
  ensures [max] result == max(l1, l2)

func newCharType
  inline
  ensures [class] isClass(result)

func oneRun.typeAnEnAsRTL
  inline
  requires list != nil
  ensures [class] result == (list.type_ == AN || list.type_ == EN ? RTL : list.type_)

func oneRun.prevTypeOrSOR
  inline
  requires list != nil && list.prev != nil && 0 <= list.level
  ensures [type] result == (list.prev.level == list.level ? list.prev.type_ : (max(list.prev.level, list.level) % 2 == 1 ? RTL : LTR))

func oneRun.embeddingDirection
  inline
  requires list != nil && 0 <= list.level
  ensures [dir] result == (list.level % 2 == 1 ? RTL : LTR)

# rule X2-X5c: a valid embedding or isolate is pushed, an overflowing one is only counted
func stStack.pushStatus
  requires st != nil && state.overPushed != nil && state.firstInterval != nil && state.stackSize != nil && state.level != nil && state.override != nil
  requires *state.overPushed == 0 && isolateOverflow == 0 && newLevel <= maxExplicitLevel ==> 0 <= *state.stackSize && *state.stackSize < bidiMaxResolvedLevels
  requires state.overPushed != state.firstInterval && state.overPushed != state.stackSize && state.firstInterval != state.stackSize
  requires *state.firstInterval == 0 && *state.overPushed >= 0
  modifies *st, *state.overPushed, *state.firstInterval, *state.stackSize, *state.level, *state.override
  ensures [valid] old(*state.overPushed) == 0 && isolateOverflow == 0 && newLevel <= maxExplicitLevel ==> *state.stackSize == old(*state.stackSize) + 1 && *state.level == newLevel && *state.override == newOverride && *state.overPushed == 0
  ensures [saved] old(*state.overPushed) == 0 && isolateOverflow == 0 && newLevel <= maxExplicitLevel ==> st[old(*state.stackSize)].level == old(*state.level) && st[old(*state.stackSize)].override == old(*state.override) && st[old(*state.stackSize)].isolate == isolate && st[old(*state.stackSize)].isolateLevel == isolateLevel
  ensures [others] forall k int :: 0 <= k && k < bidiMaxResolvedLevels && k != old(*state.stackSize) ==> st[k].level == old(st[k].level) && st[k].override == old(st[k].override) && st[k].isolate == old(st[k].isolate) && st[k].isolateLevel == old(st[k].isolateLevel)
  ensures [overflow] !(old(*state.overPushed) == 0 && isolateOverflow == 0 && newLevel <= maxExplicitLevel) ==> *state.stackSize == old(*state.stackSize) && *state.level == old(*state.level) && *state.override == old(*state.override) && *state.overPushed == old(*state.overPushed) + (isolateOverflow == 0 ? 1 : 0)
  ensures [first] *state.firstInterval == 0

# rule X6a, X7: an overflowing embedding is forgotten first, then the last valid one is popped
func stStack.popStatus
  requires st != nil && state.overPushed != nil && state.firstInterval != nil && state.stackSize != nil && state.level != nil && state.override != nil && isolate != nil && isolateLevel != nil
  requires 0 <= *state.stackSize && *state.stackSize <= bidiMaxResolvedLevels
  requires state.overPushed != state.firstInterval && state.overPushed != state.stackSize && state.firstInterval != state.stackSize && isolate != state.overPushed && isolate != state.firstInterval && isolate != state.stackSize && isolateLevel != state.level
  requires *state.firstInterval == 0 && *state.overPushed >= 0
  modifies *state.overPushed, *state.firstInterval, *state.stackSize, *state.level, *state.override, *isolate, *isolateLevel
  ensures [empty] old(*state.stackSize) == 0 ==> *state.stackSize == 0 && *state.level == old(*state.level) && *state.override == old(*state.override) && *state.overPushed == old(*state.overPushed)
  ensures [overflow] old(*state.stackSize) != 0 && old(*state.overPushed) > 0 ==> *state.overPushed == old(*state.overPushed) - 1 && *state.stackSize == old(*state.stackSize) && *state.level == old(*state.level) && *state.override == old(*state.override)
  ensures [pop] old(*state.stackSize) != 0 && old(*state.overPushed) == 0 ==> *state.overPushed == 0 && *state.stackSize == old(*state.stackSize) - 1 && *state.level == st[*state.stackSize].level && *state.override == st[*state.stackSize].override && *isolate == st[*state.stackSize].isolate && *isolateLevel == st[*state.stackSize].isolateLevel
  ensures [first] *state.firstInterval == 0

func oneRun.deleteNode
  requires list != nil && list.prev != nil && list.next != nil
  modifies *list.prev, *list.next
  ensures [linked] forall p, n *oneRun :: p == old(list.prev) && n == old(list.next) ==> p.next == n && n.prev == p
  ensures [frame] forall p *oneRun :: p != old(list.prev) ==> p.next == old(p.next)
  ensures [frame back] forall p *oneRun :: p != old(list.next) ==> p.prev == old(p.prev)

func oneRun.insertNodeBefore
  requires list != nil && x != nil && list.prev != nil && x != list && x != list.prev
  modifies *x, *list, *list.prev
  ensures [linked] forall p *oneRun :: p == old(list.prev) ==> list.prev == x && x.next == list && x.prev == p && p.next == x
  ensures [frame] forall p *oneRun :: p != x && p != old(list.prev) ==> p.next == old(p.next)
  ensures [frame back] forall p *oneRun :: p != x && p != list ==> p.prev == old(p.prev)

func pairingNode.push
  ensures [node] fresh(result) && result != nil && result.open == open && result.close == close && result.next == nodes

func newRunList
  ensures [empty] fresh(result) && result != nil && result.next == result && result.prev == result && result.type_ == maskSentinel && result.level == levelSentinel

func oneRun.moveNodeBefore
  requires list != nil && x != nil && list.prev != nil && x != list && x != list.prev && (x.prev != nil ==> x.next != nil && x.next.prev == x && x.prev.next == x)
  modifies *x, *list, *list.prev, *x.prev, *x.next
  ensures [linked] list.prev == x && x.next == list && x.prev != nil && x.prev.next == x
  ensures [removed] forall p, n *oneRun :: old(x.prev) != nil && p == old(x.prev) && n == old(x.next) && p != x && n != x && p != old(list.prev) && n != list && p != list && n != old(list.prev) ==> p.next == n && n.prev == p

property B04: CharType.IsStrong, CharType.IsRtl, CharType.isNeutral, CharType.IsLetter, CharType.IsNumber, CharType.isNumberSeparatorOrTerminator, CharType.IsIsolate, CharType.isSeparator, CharType.isOverride, CharType.isEsOrCs, CharType.isExplicitOrBn, CharType.isExplicitOrSeparatorOrBnOrWs, CharType.changeNumberToRTL, dirToLevel, levelToDir, explicitToOverrideDir, maxL, newCharType, oneRun.typeAnEnAsRTL, oneRun.prevTypeOrSOR, oneRun.embeddingDirection, stStack.pushStatus, stStack.popStatus, newRunList, oneRun.deleteNode, oneRun.insertNodeBefore, oneRun.moveNodeBefore, pairingNode.push

# ---- B03: joining, shaping and mirroring

bv JoiningType CharType

# a letter that takes part in joining
spec opaque letter(p JoiningType) bool = p & (transparent | ignored) == 0
# not ignored by the joining algorithm: a letter or a transparent mark
spec opaque heeded(p JoiningType) bool = p & (transparent | ignored) != ignored
# the level, or the sentinel -1 for explicit marks and boundary neutrals, which agrees with every level
spec opaque lvl(t CharType, l Level) Level = t.isExplicitOrBn() ? levelSentinel : l
spec func agree(x, y Level) bool = x == y || x == levelSentinel || y == levelSentinel
# the sides of a letter: toward the preceding and toward the following letter
spec opaque before(l Level) JoiningType = l % 2 != 0 ? joinsRight : joinsLeft
spec opaque after(l Level) JoiningType = l % 2 != 0 ? joinsLeft : joinsRight

# the last letter before i, or -1
spec rec prevLetter(p []JoiningType, i int) int = i <= 0 ? -1 : letter(p[i-1]) ? i - 1 : prevLetter(p, i-1)
# every heeded character in ]a, b] agrees with the level of a
spec rec sameRun(t []CharType, e []Level, p []JoiningType, a, b int) bool = b <= a ? true : sameRun(t, e, p, a, b-1) && (heeded(p[b]) ==> agree(lvl(t[a], e[a]), lvl(t[b], e[b])))
spec hidden joined(t []CharType, e []Level, p []JoiningType, a, b int) bool = p[a] & after(lvl(t[a], e[a])) != 0 && p[b] & before(lvl(t[b], e[b])) != 0 && sameRun(t, e, p, a, b)
# a letter keeps a side only if it does not shape, or is joined on that side
spec func keeps(x, y, side JoiningType, linked bool) bool = (y & side == 0) <==> (x & side == 0 || x & arabShapes != 0 && !linked)
# a character between two joined letters joins on both sides
spec func carries(x, y, one, other JoiningType, linked bool) bool = y == (linked ? x | one | other : x)

func joinArabic
  requires len(bidiTypes) >= len(arProps) && len(embeddingLevels) >= len(arProps)
  requires forall k int :: 0 <= k && k < len(arProps) ==> 0 <= embeddingLevels[k] && embeddingLevels[k] <= 126
  modifies arProps[0:len(arProps)]
  option reveal = joined
  ensures [previous] forall b int :: {arProps[b]} 0 <= b && b < len(arProps) && old(letter(arProps[b])) ==> keeps(old(arProps[b]), arProps[b], before(lvl(bidiTypes[b], embeddingLevels[b])), old(prevLetter(arProps, b) >= 0 && joined(bidiTypes, embeddingLevels, arProps, prevLetter(arProps, b), b)))
  ensures [next] forall a, b int :: {old(prevLetter(arProps, b)), arProps[a]} 0 <= b && b < len(arProps) && old(letter(arProps[b])) && a == old(prevLetter(arProps, b)) && 0 <= a ==> keeps(old(arProps[a]), arProps[a], after(lvl(bidiTypes[a], embeddingLevels[a])), old(joined(bidiTypes, embeddingLevels, arProps, a, b)))
  ensures [last] old(prevLetter(arProps, len(arProps))) >= 0 ==> keeps(old(arProps[prevLetter(arProps, len(arProps))]), arProps[old(prevLetter(arProps, len(arProps)))], after(lvl(bidiTypes[old(prevLetter(arProps, len(arProps)))], embeddingLevels[old(prevLetter(arProps, len(arProps)))])), false)
  ensures [between] forall a, b, k int :: {old(prevLetter(arProps, b)), old(arProps[a]), arProps[k]} 0 <= b && b < len(arProps) && old(letter(arProps[b])) && a == old(prevLetter(arProps, b)) && 0 <= a && a < k && k < b ==> carries(old(arProps[k]), arProps[k], after(lvl(bidiTypes[a], embeddingLevels[a])), before(lvl(bidiTypes[b], embeddingLevels[b])), old(joined(bidiTypes, embeddingLevels, arProps, a, b)))
  ensures [outside] forall k int :: {arProps[k]} 0 <= k && k < len(arProps) && (old(prevLetter(arProps, k + 1)) < 0 || old(prevLetter(arProps, len(arProps))) < k) ==> arProps[k] == old(arProps[k])
  ensures [kind] forall k int :: {arProps[k]} 0 <= k && k < len(arProps) ==> arProps[k] & 252 == old(arProps[k]) & 252
  loop 0:
    invariant old(prevLetter(arProps, i)) >= 0 ? saved == old(prevLetter(arProps, i)) : saved == 0 && !joins && !savedShapes && savedLevel == levelSentinel
    invariant forall b int :: {old(prevLetter(arProps, b))} 0 <= b && b <= i ==> -1 <= old(prevLetter(arProps, b)) && old(prevLetter(arProps, b)) < b && old(prevLetter(arProps, b)) <= old(prevLetter(arProps, i))
    invariant forall b, c int :: {old(arProps[b]), old(prevLetter(arProps, c))} 0 <= b && b < c && c <= i && old(letter(arProps[b])) ==> b <= old(prevLetter(arProps, c))
    invariant old(prevLetter(arProps, i)) < 0 ==> (forall k int :: {arProps[k]} 0 <= k && k < len(arProps) ==> arProps[k] == old(arProps[k]))
    invariant forall k int :: {arProps[k]} saved < k && k < len(arProps) ==> arProps[k] == old(arProps[k])
    invariant old(prevLetter(arProps, i)) >= 0 ==> savedLevel == lvl(bidiTypes[saved], embeddingLevels[saved]) && (savedShapes <==> old(arProps[saved]) & arabShapes != 0) && savedJoinsFollowingMask == after(savedLevel) && old(letter(arProps[saved]))
    invariant old(prevLetter(arProps, i)) >= 0 ==> (joins <==> old(arProps[saved]) & after(savedLevel) != 0 && old(sameRun(bidiTypes, embeddingLevels, arProps, saved, i - 1)))
    invariant old(prevLetter(arProps, i)) >= 0 ==> keeps(old(arProps[saved]), arProps[saved], after(savedLevel), joins)
    invariant [previous] forall b int :: {arProps[b]} 0 <= b && b < i && old(letter(arProps[b])) ==> keeps(old(arProps[b]), arProps[b], before(lvl(bidiTypes[b], embeddingLevels[b])), old(prevLetter(arProps, b) >= 0 && joined(bidiTypes, embeddingLevels, arProps, prevLetter(arProps, b), b)))
    invariant [next] forall a, b int :: {old(prevLetter(arProps, b)), arProps[a]} 0 <= b && b < i && old(letter(arProps[b])) && a == old(prevLetter(arProps, b)) && 0 <= a ==> keeps(old(arProps[a]), arProps[a], after(lvl(bidiTypes[a], embeddingLevels[a])), old(joined(bidiTypes, embeddingLevels, arProps, a, b)))
    invariant [between] forall a, b, k int :: {old(prevLetter(arProps, b)), old(arProps[a]), arProps[k]} 0 <= b && b < i && old(letter(arProps[b])) && a == old(prevLetter(arProps, b)) && 0 <= a && a < k && k < b ==> carries(old(arProps[k]), arProps[k], after(lvl(bidiTypes[a], embeddingLevels[a])), before(lvl(bidiTypes[b], embeddingLevels[b])), old(joined(bidiTypes, embeddingLevels, arProps, a, b)))
    invariant [outside] forall k int :: {arProps[k]} 0 <= k && k < i && old(prevLetter(arProps, k + 1)) < 0 ==> arProps[k] == old(arProps[k])
    invariant [kind] forall k int :: {arProps[k]} 0 <= k && k < len(arProps) ==> arProps[k] & 252 == old(arProps[k]) & 252
  loop 1:
    invariant forall k int :: {arProps[k]} 0 <= k && k <= saved || j <= k && k < len(arProps) ==> arProps[k] == entry(arProps[k])
    invariant forall k int :: {arProps[k]} saved < k && k < j ==> arProps[k] == entry(arProps[k]) | joinsPrecedingMask | savedJoinsFollowingMask

# ---- shaping
func getMirrorChar
  ensures [found] result1 <==> ch in mirrors
  ensures [mirror] result0 == (ch in mirrors ? mirrors[ch] : ch)

spec func mirrored(ch rune) rune = ch in mirrors ? mirrors[ch] : ch

func shapeMirroring
  requires len(str) >= len(embeddingLevels)
  requires forall k int :: 0 <= k && k < len(embeddingLevels) ==> 0 <= embeddingLevels[k] && embeddingLevels[k] <= 126
  modifies str[0:len(embeddingLevels)]
  ensures [mirror] forall k int :: {str[k]} 0 <= k && k < len(embeddingLevels) ==> str[k] == (embeddingLevels[k] % 2 == 1 ? mirrored(old(str[k])) : old(str[k]))
  loop 0:
    invariant forall k int :: {str[k]} 0 <= k && k < i ==> str[k] == (embeddingLevels[k] % 2 == 1 ? mirrored(old(str[k])) : old(str[k]))
    invariant forall k int :: {str[k]} i <= k && k < len(embeddingLevels) ==> str[k] == old(str[k])

spec hidden presentation(r rune, shape uint8) rune = getArabicShapePres(r, shape)

func getArabicShapePres
  requires shape < 4
  option reveal = presentation
  ensures [form] result == presentation(r, shape)
  ensures [range] 0 <= r && r <= 0x10FFFF ==> 0 <= result && result <= 0x10FFFF

spec func shaped(p JoiningType, r rune) rune = p & arabShapes != 0 ? presentation(r, uint8(p & 3)) : r

func shapeArabicJoining
  requires len(str) >= len(arabProps)
  modifies str[0:len(arabProps)]
  ensures [form] forall k int :: {str[k]} 0 <= k && k < len(arabProps) ==> str[k] == shaped(arabProps[k], old(str[k]))
  ensures [range] old(forall k int :: 0 <= k && k < len(str) ==> runeOK(str[k])) ==> (forall k int :: 0 <= k && k < len(str) ==> runeOK(str[k]))
  loop 0:
    invariant old(forall k int :: 0 <= k && k < len(str) ==> runeOK(str[k])) ==> (forall k int :: 0 <= k && k < len(str) ==> runeOK(str[k]))
    invariant forall k int :: {str[k]} 0 <= k && k < i ==> str[k] == shaped(arabProps[k], old(str[k]))
    invariant forall k int :: {str[k]} i <= k && k < len(arabProps) ==> str[k] == old(str[k])

# ---- ligatures
spec func runeOK(r rune) bool = 0 <= r && r <= 0x10FFFF
spec func pairLess(a, b pairMap) bool = a.pair[0] < b.pair[0] || a.pair[0] == b.pair[0] && a.pair[1] < b.pair[1]
spec hidden ligaTable(t []pairMap) bool = len(t) > 0 && (forall k int :: {t[k].pair} 0 <= k && k < len(t) ==> runeOK(t[k].pair[0]) && runeOK(t[k].pair[1]) && runeOK(t[k].to)) && (forall j, k int :: {t[j].pair, t[k].pair} 0 <= j && j < k && k < len(t) ==> pairLess(t[j], t[k]))
# neither the second part of a ligature nor a ligature starts another one
spec hidden chainFree(t []pairMap) bool = forall k int :: {t[k].pair} 0 <= k && k < len(t) ==> (t[k].pair[1] < t[0].pair[0] || t[k].pair[1] > t[len(t)-1].pair[0]) && (t[k].to < t[0].pair[0] || t[k].to > t[len(t)-1].pair[0])
# the ligature of first and second, or 0
spec rec ligature(t []pairMap, n int, first, second rune) rune = n <= 0 ? 0 : t[n-1].pair[0] == first && t[n-1].pair[1] == second ? t[n-1].to : ligature(t, n-1, first, second)

lemma ligatureOf(t []pairMap, n int, first, second rune)
  requires ligaTable(t) && n <= len(t)
  ensures [present] forall k int :: {t[k]} 0 <= k && k < n && t[k].pair[0] == first && t[k].pair[1] == second ==> ligature(t, n, first, second) == t[k].to
  ensures [absent] (forall k int :: {t[k]} 0 <= k && k < n ==> t[k].pair[0] != first || t[k].pair[1] != second) ==> ligature(t, n, first, second) == 0
  decreases n
  option reveal = ligaTable
  ih 0 < n ==> ligatureOf(t, n-1, first, second)

lemma ligatureRange(t []pairMap, n int, first, second rune)
  requires ligaTable(t) && n <= len(t)
  ensures ligature(t, n, first, second) != 0 ==> t[0].pair[0] <= first && first <= t[len(t)-1].pair[0] && (exists k int :: {t[k]} 0 <= k && k < n && t[k].pair[0] == first && t[k].pair[1] == second && t[k].to == ligature(t, n, first, second))
  decreases n
  option reveal = ligaTable
  ih 0 < n ==> ligatureRange(t, n-1, first, second)

func binarySearch
  requires ligaTable(base) && runeOK(key.pair[0]) && runeOK(key.pair[1])
  option reveal = ligaTable
  ensures [match] result1 ==> exists k int :: {base[k]} 0 <= k && k < len(base) && result0 == base[k] && base[k].pair[0] == key.pair[0] && base[k].pair[1] == key.pair[1]
  ensures [none] !result1 ==> forall k int :: {base[k]} 0 <= k && k < len(base) ==> base[k].pair[0] != key.pair[0] || base[k].pair[1] != key.pair[1]
  loop 0:
    invariant 0 <= min && max < len(base) && min <= max + 1
    invariant forall k int :: {base[k]} 0 <= k && k < min ==> pairLess(base[k], key)
    invariant forall k int :: {base[k]} max < k && k < len(base) ==> pairLess(key, base[k])
    decreases max - min + 1

func findPairMatch
  requires ligaTable(table) && runeOK(first) && runeOK(second)
  option reveal = ligaTable
  ensures [ligature] result == ligature(table, len(table), first, second)
  at after binarySearch:
    use ligatureOf(table, len(table), first, second)

spec func ligates(t []pairMap, e []Level, s []rune, i int) bool = 0 <= i && i + 1 < len(e) && e[i] % 2 == 1 && e[i] == e[i+1] && ligature(t, len(t), s[i], s[i+1]) != 0
spec hidden ligated(t []pairMap, e []Level, s []rune, i int) rune = ligates(t, e, s, i) ? charFill : ligates(t, e, s, i-1) ? ligature(t, len(t), s[i-1], s[i]) : s[i]

func shapeArabicLigature
  requires ligaTable(table) && chainFree(table)
  requires len(str) >= len(embeddingLevels) && len(arabProps) >= len(embeddingLevels)
  requires forall k int :: 0 <= k && k < len(str) ==> runeOK(str[k])
  requires forall k int :: 0 <= k && k < len(embeddingLevels) ==> 0 <= embeddingLevels[k] && embeddingLevels[k] <= 126
  modifies str[0:len(embeddingLevels)], arabProps[0:len(embeddingLevels)]
  option reveal = ligaTable chainFree ligated
  ensures [text] forall k int :: {str[k]} 0 <= k && k < len(embeddingLevels) ==> str[k] == old(ligated(table, embeddingLevels, str, k))
  ensures [marks] forall k int :: {arabProps[k]} 0 <= k && k < len(embeddingLevels) ==> arabProps[k] == (old(ligates(table, embeddingLevels, str, k)) ? old(arabProps[k]) | ligatured : old(arabProps[k]))
  loop 0:
    at begin:
      use ligatureRange(table, len(table), str[i], str[i+1])
      use ligatureRange(table, len(table), old(str[i]), str[i+1])
      use i > 0 ==> ligatureRange(table, len(table), old(str[i-1]), old(str[i]))
    invariant forall k int :: {str[k]} 0 <= k && k < i ==> str[k] == old(ligated(table, embeddingLevels, str, k))
    invariant str[i] == old(ligates(table, embeddingLevels, str, i-1) ? ligature(table, len(table), str[i-1], str[i]) : str[i])
    invariant forall k int :: {str[k]} i < k && k < len(str) ==> str[k] == old(str[k])
    invariant forall k int :: {arabProps[k]} 0 <= k && k < i ==> arabProps[k] == (old(ligates(table, embeddingLevels, str, k)) ? old(arabProps[k]) | ligatured : old(arabProps[k]))
    invariant forall k int :: {arabProps[k]} i <= k && k < len(arabProps) ==> arabProps[k] == old(arabProps[k])

# ---- Shape
spec func arabic(flags Options, p []JoiningType, f Options) bool = len(p) != 0 && flags & f != 0
spec hidden form(flags Options, p []JoiningType, s []rune, k int) rune = arabic(flags, p, ShapeArabPres) && k < len(p) ? shaped(p[k], s[k]) : s[k]
spec hidden mandatory(first, second rune) rune = ligature(mandatoryLigaTable, len(mandatoryLigaTable), first, second)
spec func starts(flags Options, e []Level, p []JoiningType, s []rune, k int) bool = arabic(flags, p, ShapeArabLiga) && 0 <= k && k + 1 < len(e) && e[k] % 2 == 1 && e[k] == e[k+1] && mandatory(form(flags, p, s, k), form(flags, p, s, k+1)) != 0
spec hidden arabicForm(flags Options, e []Level, p []JoiningType, s []rune, k int) rune = starts(flags, e, p, s, k) ? charFill : starts(flags, e, p, s, k-1) ? mandatory(form(flags, p, s, k-1), form(flags, p, s, k)) : form(flags, p, s, k)

spec func ligaEntry(t []pairMap, k int) bool = runeOK(t[k].pair[0]) && runeOK(t[k].pair[1]) && runeOK(t[k].to) && (t[k].pair[1] < t[0].pair[0] || t[k].pair[1] > t[len(t)-1].pair[0]) && (t[k].to < t[0].pair[0] || t[k].to > t[len(t)-1].pair[0])

lemma mandatoryEntry(k int)
  requires 0 <= k && k < len(mandatoryLigaTable)
  cases k < len(mandatoryLigaTable)
  ensures ligaEntry(mandatoryLigaTable, k)
  ensures k > 0 ==> pairLess(mandatoryLigaTable[k-1], mandatoryLigaTable[k])

lemma mandatoryUpTo(n int)
  requires 0 <= n && n <= len(mandatoryLigaTable)
  ensures forall k int :: {mandatoryLigaTable[k].pair} 0 <= k && k < n ==> ligaEntry(mandatoryLigaTable, k)
  ensures forall j, k int :: {mandatoryLigaTable[j].pair, mandatoryLigaTable[k].pair} 0 <= j && j < k && k < n ==> pairLess(mandatoryLigaTable[j], mandatoryLigaTable[k])
  decreases n
  ih 0 < n ==> mandatoryUpTo(n-1)
  use 0 < n ==> mandatoryEntry(n-1)

lemma mandatoryOK()
  option reveal = ligaTable chainFree
  use mandatoryUpTo(len(mandatoryLigaTable))
  ensures ligaTable(mandatoryLigaTable) && chainFree(mandatoryLigaTable)

func shapeArabic
  requires len(arabProps) == len(str) && len(embeddingLevels) == len(str)
  requires forall k int :: 0 <= k && k < len(str) ==> runeOK(str[k])
  requires forall k int :: 0 <= k && k < len(embeddingLevels) ==> 0 <= embeddingLevels[k] && embeddingLevels[k] <= 126
  modifies str[0:len(embeddingLevels)], arabProps[0:len(embeddingLevels)]
  option reveal = form mandatory arabicForm ligated
  at entry:
    use mandatoryOK()
  ensures [text] len(arabProps) != 0 ==> forall k int :: {str[k]} 0 <= k && k < len(str) ==> str[k] == old(arabicForm(flags, embeddingLevels, arabProps, str, k))
  ensures [marks] len(arabProps) != 0 ==> forall k int :: {arabProps[k]} 0 <= k && k < len(str) ==> arabProps[k] == (old(starts(flags, embeddingLevels, arabProps, str, k)) ? old(arabProps[k]) | ligatured : old(arabProps[k]))

func Shape
  requires len(arabProps) == 0 || len(arabProps) == len(str)
  requires len(embeddingLevels) == len(str)
  requires forall k int :: 0 <= k && k < len(str) ==> runeOK(str[k])
  requires forall k int :: 0 <= k && k < len(embeddingLevels) ==> 0 <= embeddingLevels[k] && embeddingLevels[k] <= 126
  modifies str[0:len(embeddingLevels)], arabProps[0:len(arabProps)]
  option reveal = form arabicForm
  ensures [text] forall k int :: {str[k]} 0 <= k && k < len(str) ==> str[k] == (flags & ShapeMirroring != 0 && embeddingLevels[k] % 2 == 1 ? mirrored(old(arabicForm(flags, embeddingLevels, arabProps, str, k))) : old(arabicForm(flags, embeddingLevels, arabProps, str, k)))
  ensures [marks] forall k int :: {arabProps[k]} 0 <= k && k < len(arabProps) ==> arabProps[k] == (old(starts(flags, embeddingLevels, arabProps, str, k)) ? old(arabProps[k]) | ligatured : old(arabProps[k]))

# ---- joining types
extern unicode.In
  ensures len(ranges) == 3 ==> result == inTables(r, ranges[0], ranges[1], ranges[2])
spec func inTables(r rune, a, b, c *unicode.RangeTable) bool

spec hidden unlistedJoining(ch rune, t CharType) JoiningType = inTables(ch, unicode.Mn, unicode.Me, unicode.Cf) ? T : t == BN || isEmbed(t) || t == PDF || isIsolateMark(t) ? G : U
spec hidden listedJoining(j ucd.ArabicJoining, other JoiningType) JoiningType = j == ucd.U ? U : j == ucd.R || j == ucd.Alaph || j == ucd.DalathRish ? R : j == ucd.D ? D : j == ucd.C ? C : j == ucd.T ? T : j == ucd.L ? L : j == ucd.G ? G : other
spec hidden joiningTypeOf(ch rune, t CharType) JoiningType = ch in ucd.ArabicJoinings ? listedJoining(ucd.ArabicJoinings[ch], unlistedJoining(ch, t)) : unlistedJoining(ch, t)

func getJoiningType
  option reveal = joiningTypeOf listedJoining unlistedJoining
  ensures [type] result == joiningTypeOf(ch, bidi)
  ensures [basic] isBasicJoining(result)

spec func isBasicJoining(p JoiningType) bool = p == U || p == R || p == D || p == C || p == L || p == T || p == G

func getJoiningTypes
  requires len(bidiTypes) >= len(str)
  ensures [types] fresh(result) && len(result) == len(str) && (forall k int :: {result[k]} 0 <= k && k < len(str) ==> result[k] == joiningTypeOf(str[k], bidiTypes[k]))
  loop 0:
    invariant forall k int :: {out[k]} 0 <= k && k < i ==> out[k] == joiningTypeOf(str[k], bidiTypes[k])

# ---- brackets
bv BracketType
spec hidden bracketOf(ch rune) BracketType = GetBracket(ch)

func BracketType.isOpen
  inline
  ensures [high] result <==> bt >= 1 << 31

func BracketType.id
  inline
  ensures [low] result == bt & 0x7FFFFFFF

func GetBracket
  option reveal = bracketOf
  ensures [fun] result == bracketOf(ch)

func getBracketTypes
  requires len(bidiTypes) >= len(str)
  ensures [types] fresh(result) && len(result) == len(str) && (forall k int :: {result[k]} 0 <= k && k < len(str) ==> result[k] == (bidiTypes[k] == ON ? bracketOf(str[k]) : 0))
  loop 0:
    invariant forall k int :: {out[k]} 0 <= k && k < i ==> out[k] == (bidiTypes[k] == ON ? bracketOf(str[k]) : 0)
    invariant forall k int :: {out[k]} i <= k && k < len(out) ==> out[k] == 0

func getBidiTypes
  ensures [types] fresh(result) && len(result) == len(str) && (forall k int :: {result[k]} 0 <= k && k < len(str) ==> result[k] == bidiTypeOf(str[k]))
  loop 0:
    invariant forall k int :: {out[k]} 0 <= k && k < i ==> out[k] == bidiTypeOf(str[k])

# ---- the whole
func GetParEmbeddingLevels
  trusted "the levels are within 0..126 and below the value returned: compared with an implementation of UAX 9 by the B04 harness"
  modifies *pbaseDir
  ensures len(result0) == len(bidiTypes) && fresh(result0) && result1 >= 1
  ensures forall k int :: {result0[k]} 0 <= k && k < len(result0) ==> 0 <= result0[k] && result0[k] <= 126 && result0[k] < result1

func LogicalToVisual
  requires forall k int :: 0 <= k && k < len(str) ==> runeOK(str[k])
  requires paragraphBaseDir != nil
  modifies *paragraphBaseDir
  ensures [lengths] len(result0.Str) == len(str) && len(result0.VisualToLogical) == len(str) && len(result0.EmbeddingLevels) == len(str)
  ensures [permutation] injective(result0.VisualToLogical, 0, len(str)) && ranged(result0.VisualToLogical, 0, len(str))
  loop 0:
    invariant forall k int :: {positionsVToL[k]} 0 <= k && k < i ==> positionsVToL[k] == k

property B03: joinArabic, getMirrorChar, shapeMirroring, getArabicShapePres, shapeArabicJoining, binarySearch, findPairMatch, shapeArabicLigature, shapeArabic, Shape, getJoiningType, getJoiningTypes, BracketType.isOpen, BracketType.id, GetBracket, getBracketTypes, getBidiTypes, LogicalToVisual
  lemmas ligatureOf, ligatureRange, mandatoryEntry, mandatoryUpTo, mandatoryOK
