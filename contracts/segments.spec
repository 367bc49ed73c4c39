package github.com/benoitkugler/textprocessing/pango

# ---------------------------------------------------------------- segmentation: scripts, widths, emojis, items

spec func isReal(s Script) bool = s != 0 && s != language.Unknown && s != language.Common && s != language.Inherited
spec func sameScript(s, u Script) bool = s == u || !isReal(s) || !isReal(u)

extern github.com/benoitkugler/textlayout/language.Script.IsRealScript
  ensures result == isReal(s)

extern github.com/benoitkugler/textlayout/language.Script.IsSameScript
  ensures result == sameScript(s1, s2)

spec rec pairAt(n int, ch rune) int = n <= 0 ? -1 : paired_chars[n-1] == ch ? n - 1 : pairAt(n-1, ch)
spec hidden pairIndex(ch rune) int = pairAt(len(paired_chars), ch)

lemma pairedEntry(k int)
  requires 0 < k && k < len(paired_chars)
  cases k < len(paired_chars)
  ensures paired_chars[k-1] < paired_chars[k]

lemma pairedSorted(n int)
  requires 0 <= n && n <= len(paired_chars)
  ensures forall j, k int :: {paired_chars[j], paired_chars[k]} 0 <= j && j < k && k < n ==> paired_chars[j] < paired_chars[k]
  decreases n
  ih 0 < n ==> pairedSorted(n-1)
  use 1 < n ==> pairedEntry(n-1)

lemma pairAtOf(n int, ch rune)
  requires 0 <= n && n <= len(paired_chars)
  ensures -1 <= pairAt(n, ch) && pairAt(n, ch) < n
  ensures [present] forall k int :: {paired_chars[k]} 0 <= k && k < n && paired_chars[k] == ch ==> pairAt(n, ch) == k
  ensures [absent] (forall k int :: {paired_chars[k]} 0 <= k && k < n ==> paired_chars[k] != ch) ==> pairAt(n, ch) == -1
  decreases n
  use pairedSorted(n)
  ih 0 < n ==> pairAtOf(n-1, ch)

func get_pair_index
  option reveal = pairIndex
  ensures [index] result == pairIndex(ch)
  at entry:
    use pairedSorted(len(paired_chars))
    use pairAtOf(len(paired_chars), ch)
  loop 0:
    invariant 0 <= lower && upper < len(paired_chars) && lower <= upper + 1
    invariant forall k int :: {paired_chars[k]} 0 <= k && k < lower ==> paired_chars[k] < ch
    invariant forall k int :: {paired_chars[k]} upper < k && k < len(paired_chars) ==> ch < paired_chars[k]
    decreases upper - lower + 1

# ---- scripts: paired characters
spec func pairOf(ch rune) int = language.LookupScript(ch) == language.Common ? pairIndex(ch) : -1
spec hidden opens(ch rune) bool = pairOf(ch) >= 0 && pairOf(ch) % 2 == 0
spec hidden closes(ch rune) bool = pairOf(ch) >= 0 && pairOf(ch) % 2 != 0
spec hidden pairWith(ch rune) int = pairOf(ch) - pairOf(ch) % 2

# the stack of the open characters of t[b:k]: its top, the position of each of
# its characters, and the last one (at or below s) of a pair
spec rec openTop(t []rune, b, k int) int = k <= b ? -1 : opens(t[k-1]) ? (openTop(t, b, k-1) + 1 >= parenStackDepth ? 0 : openTop(t, b, k-1) + 1) : closes(t[k-1]) ? max(openFor(t, b, k-1, openTop(t, b, k-1), pairWith(t[k-1])) - 1, -1) : openTop(t, b, k-1)
spec rec openPos(t []rune, b, k, j int) int = k <= b ? -1 : opens(t[k-1]) && openTop(t, b, k) == j ? k - 1 : openPos(t, b, k-1, j)
spec rec openFor(t []rune, b, k, j, pair int) int = j < 0 ? -1 : pairWith(t[openPos(t, b, k, j)]) == pair ? j : openFor(t, b, k, j-1, pair)

# the script of the character at k: the one of its open character if it closes a pair
spec func closed(t []rune, b, k int) int = openFor(t, b, k, openTop(t, b, k), pairWith(t[k]))
spec rec scriptOf(t []rune, b, k int) Script = closes(t[k]) && closed(t, b, k) >= 0 ? openScript(t, b, openPos(t, b, k, closed(t, b, k)), k) : language.LookupScript(t[k])
# the last real script before k
spec rec lastScript(t []rune, b, k int) Script = k <= b ? language.Common : isReal(scriptOf(t, b, k-1)) ? scriptOf(t, b, k-1) : lastScript(t, b, k-1)
# the first real script known after the open character at p, up to k
spec rec openScript(t []rune, b, p, k int) Script = k <= p + 1 ? lastScript(t, b, k) : isReal(openScript(t, b, p, k-1)) ? openScript(t, b, p, k-1) : lastScript(t, b, k)

spec func changesAt(t []rune, b, k int) bool = !sameScript(lastScript(t, b, k), scriptOf(t, b, k))

spec func stackPos(iter scriptIter, b, k int) bool = forall j int :: {openPos(iter.text, b, k, j)} 0 <= j && j <= iter.parenSp ==> b <= openPos(iter.text, b, k, j) && openPos(iter.text, b, k, j) < k
spec func stackCodes(iter scriptIter, b, k int) bool = forall j int :: {iter.parenStack[j]} 0 <= j && j <= iter.parenSp ==> iter.parenStack[j].pairIndex == pairWith(iter.text[openPos(iter.text, b, k, j)]) && iter.parenStack[j].scriptCode == openScript(iter.text, b, openPos(iter.text, b, k, j), k)
spec func stackOK(iter scriptIter, b, k int) bool = stackPos(iter, b, k) && stackCodes(iter, b, k)
spec hidden synced(iter scriptIter, b int) bool = b <= iter.scriptEnd && (iter.parenSp == openTop(iter.text, b, iter.scriptEnd) || iter.scriptEnd < iter.textEnd && closes(iter.text[iter.scriptEnd]) && iter.parenSp == closed(iter.text, b, iter.scriptEnd) && (iter.parenSp >= 0 ==> pairWith(iter.text[openPos(iter.text, b, iter.scriptEnd, iter.parenSp)]) == pairWith(iter.text[iter.scriptEnd]))) && stackOK(iter, b, iter.scriptEnd) && (b < iter.scriptEnd && iter.scriptEnd < iter.textEnd ==> changesAt(iter.text, b, iter.scriptEnd) && (forall j int :: {iter.parenStack[j]} 0 <= j && j <= iter.parenSp ==> isReal(iter.parenStack[j].scriptCode)))
spec func scriptIterOK(iter scriptIter) bool = 0 <= iter.scriptEnd && iter.scriptEnd <= iter.textEnd && iter.textEnd <= len(iter.text) && -1 <= iter.parenSp && iter.parenSp < parenStackDepth

func scriptIter.next
  ghost base int
  requires iter != nil && scriptIterOK(*iter) && synced(*iter, base)
  modifies *iter
  option reveal = synced opens closes pairWith
  ensures [end] result <==> old(iter.scriptEnd < iter.textEnd)
  ensures [same] !result ==> *iter == old(*iter)
  ensures [ok] scriptIterOK(*iter) && sameslice(iter.text, old(iter.text)) && iter.textEnd == old(iter.textEnd) && synced(*iter, base)
  ensures [contiguous] result ==> iter.scriptStart == old(iter.scriptEnd) && iter.scriptStart < iter.scriptEnd
  ensures [script] result ==> iter.scriptCode == lastScript(iter.text, base, iter.scriptEnd)
  ensures [uniform] result ==> forall k int :: {scriptOf(iter.text, base, k)} iter.scriptStart <= k && k < iter.scriptEnd ==> sameScript(scriptOf(iter.text, base, k), iter.scriptCode)
  ensures [maximal] result && iter.scriptEnd < iter.textEnd ==> !sameScript(iter.scriptCode, scriptOf(iter.text, base, iter.scriptEnd))
  loop 0:
    invariant scriptIterOK(*iter) && sameslice(iter.text, old(iter.text)) && iter.textEnd == old(iter.textEnd) && iter.scriptStart == old(iter.scriptEnd) && iter.scriptStart <= iter.scriptEnd && -1 <= start_sp
    invariant iter.scriptEnd == iter.scriptStart ==> iter.scriptCode == language.Common && start_sp == iter.parenSp && synced(*iter, base)
    invariant iter.scriptEnd > iter.scriptStart ==> iter.scriptCode == lastScript(iter.text, base, iter.scriptEnd) && iter.parenSp == openTop(iter.text, base, iter.scriptEnd)
    invariant stackPos(*iter, base, iter.scriptEnd)
    invariant stackCodes(*iter, base, iter.scriptEnd)
    invariant base < iter.scriptStart ==> (forall j int :: {iter.parenStack[j]} 0 <= j && j <= iter.parenSp ==> isReal(iter.parenStack[j].scriptCode)) && (iter.scriptEnd > iter.scriptStart ==> isReal(iter.scriptCode))
    invariant base == iter.scriptStart ==> (isReal(iter.scriptCode) || start_sp == -1) && (forall j int :: {iter.parenStack[j]} 0 <= j && j <= iter.parenSp ==> iter.parenStack[j].scriptCode == iter.scriptCode)
    invariant isReal(iter.scriptCode) || iter.scriptCode == language.Common
    invariant forall k int :: {scriptOf(iter.text, base, k)} iter.scriptStart <= k && k < iter.scriptEnd ==> !isReal(scriptOf(iter.text, base, k)) || scriptOf(iter.text, base, k) == iter.scriptCode
    at end:
      assert closes(iter.text[iter.scriptEnd - 1]) <==> pair_index >= 0 && pair_index % 2 != 0
      assert opens(iter.text[iter.scriptEnd - 1]) <==> pair_index >= 0 && pair_index % 2 == 0
      assert pair_index >= 0 && pair_index % 2 != 0 ==> iter.parenSp == max(closed(iter.text, base, iter.scriptEnd - 1) - 1, -1)
      assert sc == scriptOf(iter.text, base, iter.scriptEnd - 1)
      assert iter.scriptCode == lastScript(iter.text, base, iter.scriptEnd)
      assert iter.parenSp == openTop(iter.text, base, iter.scriptEnd)
      assert forall j int :: {openPos(iter.text, base, iter.scriptEnd, j)} 0 <= j && j <= iter.parenSp ==> openPos(iter.text, base, iter.scriptEnd, j) == (opens(iter.text[iter.scriptEnd - 1]) && j == iter.parenSp ? iter.scriptEnd - 1 : openPos(iter.text, base, iter.scriptEnd - 1, j))
      assert opens(iter.text[iter.scriptEnd - 1]) ==> iter.parenStack[iter.parenSp].pairIndex == pairWith(iter.text[iter.scriptEnd - 1])
      assert forall j int :: {iter.parenStack[j]} 0 <= j && j <= iter.parenSp && !(opens(iter.text[iter.scriptEnd - 1]) && j == iter.parenSp) ==> iter.parenStack[j].pairIndex == pairWith(iter.text[openPos(iter.text, base, iter.scriptEnd - 1, j)])
      assert forall j int :: {openPos(iter.text, base, iter.scriptEnd, j)} 0 <= j && j <= iter.parenSp ==> iter.parenStack[j].pairIndex == pairWith(iter.text[openPos(iter.text, base, iter.scriptEnd, j)])
      assert forall j int :: {iter.parenStack[j]} 0 <= j && j <= iter.parenSp && !(opens(iter.text[iter.scriptEnd - 1]) && j == iter.parenSp) ==> openPos(iter.text, base, iter.scriptEnd - 1, j) < iter.scriptEnd - 1
      assert opens(iter.text[iter.scriptEnd - 1]) ==> iter.parenStack[iter.parenSp].scriptCode == lastScript(iter.text, base, iter.scriptEnd)
      assert base < iter.scriptStart ==> forall j int :: {iter.parenStack[j]} 0 <= j && j <= iter.parenSp && !(opens(iter.text[iter.scriptEnd - 1]) && j == iter.parenSp) ==> iter.parenStack[j].scriptCode == openScript(iter.text, base, openPos(iter.text, base, iter.scriptEnd - 1, j), iter.scriptEnd)
      assert base == iter.scriptStart ==> forall j int :: {iter.parenStack[j]} 0 <= j && j <= iter.parenSp && !(opens(iter.text[iter.scriptEnd - 1]) && j == iter.parenSp) ==> iter.parenStack[j].scriptCode == openScript(iter.text, base, openPos(iter.text, base, iter.scriptEnd - 1, j), iter.scriptEnd)
      assert forall j int :: {openPos(iter.text, base, iter.scriptEnd, j)} 0 <= j && j <= iter.parenSp ==> iter.parenStack[j].scriptCode == openScript(iter.text, base, openPos(iter.text, base, iter.scriptEnd, j), iter.scriptEnd)
  loop 1:
    invariant pi == pairWith(iter.text[iter.scriptEnd]) && closes(iter.text[iter.scriptEnd])
    invariant -1 <= iter.parenSp && iter.parenSp <= entry(iter.parenSp)
    invariant openFor(iter.text, base, iter.scriptEnd, iter.parenSp, pi) == openFor(iter.text, base, iter.scriptEnd, entry(iter.parenSp), pi)
    decreases iter.parenSp + 1
  loop 2:
    invariant entry(start_sp) <= start_sp && start_sp <= max(iter.parenSp, entry(start_sp))
    invariant forall j int :: {iter.parenStack[j]} 0 <= j && j <= iter.parenSp ==> iter.parenStack[j].pairIndex == entry(iter.parenStack[j].pairIndex) && iter.parenStack[j].scriptCode == (entry(start_sp) < j && j <= start_sp ? iter.scriptCode : entry(iter.parenStack[j].scriptCode))
    decreases iter.parenSp - start_sp

func scriptIter.reset
  requires iter != nil && 0 <= textStart && 0 <= length && textStart + length <= len(text)
  modifies *iter
  ensures [ok] scriptIterOK(*iter) && sameslice(iter.text, text) && iter.textEnd == textStart + length && synced(*iter, textStart)
  ensures [start] iter.scriptStart == textStart && (length > 0 ==> iter.scriptStart < iter.scriptEnd) && (length == 0 ==> iter.scriptEnd == textStart && iter.scriptCode == language.Common)
  ensures [script] length > 0 ==> iter.scriptCode == lastScript(iter.text, textStart, iter.scriptEnd)
  ensures [uniform] length > 0 ==> forall k int :: {scriptOf(iter.text, textStart, k)} iter.scriptStart <= k && k < iter.scriptEnd ==> sameScript(scriptOf(iter.text, textStart, k), iter.scriptCode)
  ensures [maximal] length > 0 && iter.scriptEnd < iter.textEnd ==> !sameScript(iter.scriptCode, scriptOf(iter.text, textStart, iter.scriptEnd))
  option reveal = synced
  give base = textStart

func newScriptIter
  ensures [ok] result != nil && fresh(result) && scriptIterOK(*result) && sameslice(result.text, text) && result.textEnd == len(text) && synced(*result, 0)
  ensures [start] result.scriptStart == 0 && (len(text) > 0 ==> result.scriptStart < result.scriptEnd) && (len(text) == 0 ==> result.scriptEnd == 0 && result.scriptCode == language.Common)
  ensures [script] len(text) > 0 ==> result.scriptCode == lastScript(text, 0, result.scriptEnd)
  ensures [uniform] forall k int :: {scriptOf(text, 0, k)} 0 <= k && k < result.scriptEnd ==> sameScript(scriptOf(text, 0, k), result.scriptCode)
  ensures [maximal] 0 < result.scriptEnd && result.scriptEnd < result.textEnd ==> !sameScript(result.scriptCode, scriptOf(text, 0, result.scriptEnd))

# ---- widths
spec func inRange(r [2]rune, ch rune) bool = r[0] <= ch && ch <= r[1]
spec rec uprightAt(n int, ch rune) bool = 0 < n && (inRange(upright[n-1], ch) || uprightAt(n-1, ch))
spec hidden isUprightRune(ch rune) bool = uprightAt(len(upright), ch)

lemma uprightEntry(k int)
  requires 0 <= k && k < len(upright)
  cases k < len(upright)
  ensures upright[k][0] <= upright[k][1] && (0 < k ==> upright[k-1][1] < upright[k][0])

lemma uprightSorted(n int)
  requires 0 <= n && n <= len(upright)
  ensures forall j, k int :: {upright[j], upright[k]} 0 <= j && j < k && k < n ==> upright[j][1] < upright[k][0]
  ensures forall k int :: {upright[k]} 0 <= k && k < n ==> upright[k][0] <= upright[k][1]
  decreases n
  ih 0 < n ==> uprightSorted(n-1)
  use 0 < n ==> uprightEntry(n-1)

lemma uprightAtOf(n int, ch rune)
  requires 0 <= n && n <= len(upright)
  ensures [present] forall k int :: {upright[k]} 0 <= k && k < n && inRange(upright[k], ch) ==> uprightAt(n, ch)
  ensures [absent] (forall k int :: {upright[k]} 0 <= k && k < n ==> !inRange(upright[k], ch)) ==> !uprightAt(n, ch)
  decreases n
  ih 0 < n ==> uprightAtOf(n-1, ch)

func isUpright
  option reveal = isUprightRune
  ensures [table] result == isUprightRune(ch)
  at entry:
    use uprightSorted(len(upright))
    use uprightAtOf(len(upright), ch)
  loop 0:
    invariant 0 <= st && ed < len(upright) && st <= ed + 1
    invariant forall k int :: {upright[k]} 0 <= k && k < st ==> upright[k][1] < ch
    invariant forall k int :: {upright[k]} ed < k && k < len(upright) ==> ch < upright[k][0]
    decreases ed - st + 1

# the characters which do not change the orientation: joiners, the character
# following one, variation selectors, tags and modifiers
spec func widthNeutral(ch rune) bool = ch == 0xFE0E || ch == 0xFE0F || (ch >= 0xE0020 && ch <= 0xE007F) || (ch >= 0x1F3FB && ch <= 0x1F3FF)
spec func widthExempt(t []rune, start, k int) bool = t[k] == 0x200D || start < k && t[k-1] == 0x200D || widthNeutral(t[k])
spec func widthIterOK(iter widthIter) bool = 0 <= iter.end && iter.end <= iter.textEnd && iter.textEnd <= len(iter.text)

func widthIter.next
  requires iter != nil && widthIterOK(*iter)
  modifies *iter
  ensures [ok] widthIterOK(*iter) && sameslice(iter.text, old(iter.text)) && iter.textEnd == old(iter.textEnd)
  ensures [contiguous] iter.start == old(iter.end) && (iter.start < iter.textEnd ==> iter.start < iter.end)
  ensures [uniform] iter.start < iter.textEnd ==> iter.upright == isUprightRune(iter.text[iter.start])
  ensures [uniform] forall k int :: {iter.text[k]} iter.start <= k && k < iter.end ==> widthExempt(iter.text, iter.start, k) || isUprightRune(iter.text[k]) == iter.upright
  ensures [maximal] iter.end < iter.textEnd ==> !widthExempt(iter.text, iter.start, iter.end) && isUprightRune(iter.text[iter.end]) != iter.upright
  loop 0:
    invariant widthIterOK(*iter) && sameslice(iter.text, old(iter.text)) && iter.textEnd == old(iter.textEnd) && iter.start == old(iter.end) && iter.start <= iter.end
    invariant iter.start < iter.textEnd ==> iter.upright == isUprightRune(iter.text[iter.start])
    invariant metJoiner <==> iter.start < iter.end && iter.text[iter.end-1] == 0x200D
    invariant forall k int :: {iter.text[k]} iter.start <= k && k < iter.end ==> widthExempt(iter.text, iter.start, k) || isUprightRune(iter.text[k]) == iter.upright
    decreases iter.textEnd - iter.end

func widthIter.reset
  requires iter != nil && 0 <= textStart && 0 <= length && textStart + length <= len(text)
  modifies *iter
  ensures [ok] widthIterOK(*iter) && sameslice(iter.text, text) && iter.textEnd == textStart + length
  ensures [start] iter.start == textStart && (length > 0 ==> iter.start < iter.end)
  ensures [uniform] length > 0 ==> iter.upright == isUprightRune(text[textStart])
  ensures [uniform] forall k int :: {text[k]} iter.start <= k && k < iter.end ==> widthExempt(text, iter.start, k) || isUprightRune(text[k]) == iter.upright
  ensures [maximal] iter.end < iter.textEnd ==> !widthExempt(text, iter.start, iter.end) && isUprightRune(text[iter.end]) != iter.upright

# ---- emojis
spec func emojiCategory(r rune) emojiScannerCategory = ('a' <= r && r <= 'z') || ('A' <= r && r <= 'Z') || r == ' ' ? kMaxEmojiScannerCategory : '0' <= r && r <= '9' ? keycapBase : r == kCombiningEnclosingKeycapCharacter ? combiningEnclosingKeycap : r == kCombiningEnclosingCircleBackslashCharacter ? combiningEnclosingCircleBackslash : r == kZeroWidthJoinerCharacter ? zwj : r == kVariationSelector15Character ? vs15 : r == kVariationSelector16Character ? vs16 : r == 0x1F3F4 ? tagBase : r == 0xE007F ? tagTerm : (r >= 0xE0030 && r <= 0xE0039) || (r >= 0xE0061 && r <= 0xE007A) ? tagSequence : inTable(ucd.Emoji_Modifier_Base, r) ? emojiModifierBase : inTable(ucd.Emoji_Modifier, r) ? emojiModifier : r >= 0x1F1E6 && r <= 0x1F1FF ? regionalIndicator : r == '#' || r == '*' ? keycapBase : inTable(ucd.Emoji_Presentation, r) ? emojiEmojiPresentation : inTable(ucd.Emoji, r) ? emojiTextPresentation : kMaxEmojiScannerCategory

extern unicode.Is
  ensures result == inTable(rangeTab, r)
spec func inTable(t *unicode.RangeTable, r rune) bool

func emojiSegmentationCategory
  ensures [category] result == emojiCategory(r)

func scanEmojiPresentation
  trusted "generated by ragel (jumps between blocks); its contract and its tokens are checked bounded against a regular expression by the P06 harness"
  requires isEmoji != nil
  modifies *isEmoji
  ensures 0 <= result && result <= len(data) && (len(data) > 0 ==> result > 0)

spec func emojiIterOK(iter emojiIter) bool = 0 <= iter.end && iter.end <= iter.textEnd && iter.textEnd <= len(iter.text) && 0 <= iter.cursor && iter.cursor <= len(iter.types) && iter.textEnd - iter.end == len(iter.types) - iter.cursor

func emojiIter.next
  requires iter != nil && emojiIterOK(*iter)
  modifies *iter
  ensures [ok] result && emojiIterOK(*iter) && sameslice(iter.text, old(iter.text)) && sameslice(iter.types, old(iter.types)) && iter.textEnd == old(iter.textEnd)
  ensures [contiguous] iter.start == old(iter.end) && (iter.start < iter.textEnd ==> iter.start < iter.end)
  loop 0:
    invariant 0 <= cursor && cursor <= len(iter.types) && (len(iter.types) > oldCursor ==> cursor > oldCursor)
    invariant oldCursor <= cursor && (!do ==> oldCursor <= iter.cursor && iter.cursor <= cursor && (len(iter.types) > oldCursor ==> iter.cursor > oldCursor))
    invariant sameslice(iter.text, old(iter.text)) && sameslice(iter.types, old(iter.types)) && iter.textEnd == old(iter.textEnd) && iter.start == old(iter.end) && iter.end == old(iter.end)
    decreases len(iter.types) - cursor, do ? 1 : 0

func emojiIter.reset
  requires iter != nil && 0 <= textStart && 0 <= length && textStart + length <= len(text)
  modifies *iter
  ensures [ok] emojiIterOK(*iter) && sameslice(iter.text, text) && len(iter.types) == length && fresh(iter.types) && iter.textEnd == textStart + length
  ensures [start] iter.start == textStart && (length > 0 ==> iter.start < iter.end)
  ensures [categories] forall k int :: {iter.types[k]} 0 <= k && k < length ==> iter.types[k] == emojiCategory(text[textStart + k])
  loop 0:
    invariant fresh(iter.types) && len(iter.types) == length
    invariant forall k int :: {iter.types[k]} 0 <= k && k < rangeidx ==> iter.types[k] == emojiCategory(text[textStart + k])

# ---- items
# the level of the items set in the gravity g
spec func itemLevel(level fribidi.Level, g Gravity) fribidi.Level = g == GRAVITY_NORTH ? fribidi.Level(level + 1) : g == GRAVITY_EAST ? fribidi.Level((level + 1) - (level + 1) % 2) : g == GRAVITY_WEST ? fribidi.Level(level % 2 == 0 ? level + 1 : level) : level

# the item is a part of one run: the level and the script of its characters are its own
spec hidden itemFits(it *Item, text []rune, levels []fribidi.Level, first int) bool = forall k int :: {levels[k - first]} {scriptOf(text, first, k)} it.Offset <= k && k < it.Offset + it.Length ==> it.Analysis.Level == itemLevel(levels[k - first], it.Analysis.Gravity) && sameScript(scriptOf(text, first, k), it.Analysis.Script)

# r cuts text[a:b] from its end
spec func tiles(r []*Item, a, b int) bool = (len(r) == 0 ? a == b : r[len(r)-1].Offset == a && r[0].Offset + r[0].Length == b) && (forall j int :: {r[j]} 0 <= j && j < len(r) ==> r[j] != nil && r[j].Length > 0 && r[j].Offset >= a && r[j].Offset + r[j].Length <= b) && (forall i, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> r[i] != r[j]) && (forall j int :: {r[j]} 0 < j && j < len(r) ==> r[j].Offset + r[j].Length == r[j-1].Offset)
spec func allFit(r []*Item, text []rune, levels []fribidi.Level, first int) bool = forall j int :: {r[j]} 0 <= j && j < len(r) ==> itemFits(r[j], text, levels, first)

# the current run has one level and one script
spec func runFits(s *itemizeState, first int) bool = forall k int :: {s.embeddingLevels[k - first]} {scriptOf(s.text, first, k)} s.runStart <= k && k < s.runEnd ==> s.embeddingLevels[k - first] == s.embedding && sameScript(scriptOf(s.text, first, k), s.script)

spec func levelsOK(s *itemizeState, first int) bool = 0 <= first && s.end == len(s.text) && len(s.embeddingLevels) == s.end - first && s.embeddingEnd - s.embeddingEndOffset == first && 0 <= s.embeddingEndOffset && s.embeddingEnd <= s.end && (forall k int :: {s.embeddingLevels[k]} 0 <= k && k < len(s.embeddingLevels) ==> 0 <= s.embeddingLevels[k] && s.embeddingLevels[k] <= 126)

func itemizeState.updateEmbeddingEnd
  ghost first int
  requires state != nil && levelsOK(state, first) && state.embeddingEnd < state.end
  modifies state.embedding, state.embeddingEnd, state.embeddingEndOffset, state.changed
  ensures [ok] levelsOK(state, first) && old(state.embeddingEnd) < state.embeddingEnd
  ensures [level] forall k int :: {state.embeddingLevels[k - first]} old(state.embeddingEnd) <= k && k < state.embeddingEnd ==> state.embeddingLevels[k - first] == state.embedding
  ensures [maximal] state.embeddingEnd < state.end ==> state.embeddingLevels[state.embeddingEnd - first] != state.embedding
  loop 0:
    invariant levelsOK(state, first) && old(state.embeddingEnd) <= state.embeddingEnd
    invariant state.embedding == state.embeddingLevels[old(state.embeddingEndOffset)]
    invariant forall k int :: {state.embeddingLevels[k - first]} old(state.embeddingEnd) <= k && k < state.embeddingEnd ==> state.embeddingLevels[k - first] == state.embedding
    decreases state.end - state.embeddingEnd

func itemizeState.updateEnd
  requires state != nil
  modifies state.runEnd
  ensures [min] state.runEnd == min(min(state.embeddingEnd, state.attrEnd), min(state.scriptEnd, min(state.widthIter.end, state.emojiIter.end)))

# the item being built is the last one, in the current run
spec func buildingOK(s *itemizeState) bool = s.item != nil ==> 0 < len(s.result) && s.item == s.result[0] && s.runStart <= s.item.Offset && s.item.Analysis.Script == s.script && s.item.Analysis.Gravity == s.resolvedGravity && s.item.Analysis.Level == itemLevel(s.embedding, s.resolvedGravity) && s.item.Analysis.Language == s.derivedLang

func itemizeState.fillFont
  requires state != nil && (forall j int :: {state.result[j]} 0 <= j && j < len(state.result) ==> state.result[j] != nil)
  modifies allof(Item).Analysis
  ensures [others] forall j int :: {state.result[j]} 0 <= j && j < len(state.result) ==> state.result[j].Analysis.Level == old(state.result[j].Analysis.Level) && state.result[j].Analysis.Gravity == old(state.result[j].Analysis.Gravity) && state.result[j].Analysis.Script == old(state.result[j].Analysis.Script) && state.result[j].Analysis.Language == old(state.result[j].Analysis.Language)
  ensures [kept] forall j int :: {state.result[j]} 0 <= j && j < len(state.result) ==> state.result[j].Analysis.Font == old(state.result[j].Analysis.Font) || state.result[j].Analysis.Font == font && old(state.result[j].Analysis.Font) == nil
  loop 0:
    invariant forall j int :: {state.result[j]} 0 <= j && j < len(state.result) ==> state.result[j].Analysis.Level == old(state.result[j].Analysis.Level) && state.result[j].Analysis.Gravity == old(state.result[j].Analysis.Gravity) && state.result[j].Analysis.Script == old(state.result[j].Analysis.Script) && state.result[j].Analysis.Language == old(state.result[j].Analysis.Language)
    invariant forall j int :: {state.result[j]} 0 <= j && j < len(state.result) ==> state.result[j].Analysis.Font == old(state.result[j].Analysis.Font) || state.result[j].Analysis.Font == font && old(state.result[j].Analysis.Font) == nil

func itemizeState.addCharacter
  ghost first int
  option reveal = itemFits
  requires state != nil && levelsOK(state, first) && runFits(state, first) && first <= state.runStart && state.runStart <= pos && pos < state.runEnd && state.runEnd <= state.end
  requires tiles(state.result, first, pos) && allFit(state.result, state.text, state.embeddingLevels, first) && buildingOK(state)
  requires -1 <= state.firstSpace && state.firstSpace <= pos && dataSet(state.extraAttrs)
  modifies state.firstSpace, state.item, state.fontPosition, state.result, state.copyExtraAttrs, state.result[:], allof(Item).Analysis, state.item.Length
  ensures [building] state.item != nil && buildingOK(state)
  ensures [tiles] tiles(state.result, first, old(pos) + 1)
  ensures [fit] allFit(state.result, state.text, state.embeddingLevels, first)
  ensures [space] -1 <= state.firstSpace && state.firstSpace <= old(pos)
  ensures [own] obj(state.result) == old(obj(state.result)) || fresh(state.result)

func itemizeState.getFont
  trusted "font lookup and its cache (closures, maps): assumed to change no text, level, script or item"
  modifies state.baseFont, allof(fontCache)
func shouldWarn
  trusted "cache of the warnings (package variable, lock)"
func getFontCache
  trusted "cache of the font sets (package variable, lock)"
  ensures result != nil
func compute_derived_language
  trusted "language tables: assumed to change no text, level, script or item"

func itemizeState.updateForNewRun
  requires state != nil && state.context != nil && state.context.fontMap != nil && state.fontDesc != nil
  modifies state.resolvedGravity, allof(FontDescription), state.changed, state.derivedLang, state.currentFonts, state.cache, state.emojiFontDesc, state.baseFont
  ensures [gravity] state.fontDesc == old(state.fontDesc)

func itemizeState.processRun
  ghost first int
  option reveal = itemFits
  requires state != nil && state.context != nil && state.context.fontMap != nil && state.fontDesc != nil && dataSet(state.extraAttrs)
  requires levelsOK(state, first) && runFits(state, first) && first <= state.runStart && state.runStart < state.runEnd && state.runEnd <= state.end
  requires tiles(state.result, first, state.runStart) && allFit(state.result, state.text, state.embeddingLevels, first) && state.item == nil
  requires -1 <= state.firstSpace && state.firstSpace <= state.runStart && (state.attrIter != nil ==> attrIterOK(state.attrIter))
  modifies state.resolvedGravity, allof(FontDescription), state.changed, state.derivedLang, state.currentFonts, state.cache, state.emojiFontDesc, state.baseFont, state.firstSpace, state.item, state.fontPosition, state.result, state.copyExtraAttrs, state.result[:], allof(Item), allof(fontCache)
  ensures [tiles] tiles(state.result, first, state.runEnd) && state.item == nil
  ensures [fit] allFit(state.result, state.text, state.embeddingLevels, first)
  ensures [space] -1 <= state.firstSpace && state.firstSpace <= state.runEnd
  ensures [own] obj(state.result) == old(obj(state.result)) || fresh(state.result)
  ensures [attrs] state.attrIter != nil ==> attrIterOK(state.attrIter)
  at entry:
    use state.attrIter != nil ==> attrIterOpen(state.attrIter)
  at return:
    use state.attrIter != nil ==> attrIterSame(old(state.attrIter), state.attrIter)
  loop 0:
    invariant state.fontDesc != nil && state.context == old(state.context) && dataSet(state.extraAttrs)
    invariant obj(state.result) == old(obj(state.result)) || fresh(state.result)
    invariant tiles(state.result, first, state.runStart + rangeidx) && allFit(state.result, state.text, state.embeddingLevels, first) && buildingOK(state) && (state.item != nil <==> rangeidx > 0)
    invariant -1 <= state.firstSpace && state.firstSpace <= state.runStart + rangeidx

spec func typedAttrs(l AttrList) bool = dataSet(l) && forall k int :: {l[k]} 0 <= k && k < len(l) ==> (l[k].Kind == ATTR_FALLBACK || l[k].Kind == ATTR_GRAVITY || l[k].Kind == ATTR_GRAVITY_HINT ==> typeis(l[k].Data, AttrInt))
spec hidden attrIterOK(it *attrIterator) bool = itOK(it) && itNext(it) && itPast(it) && itStack(it) && itLast(it)

lemma attrIterOpen(it *attrIterator)
  option reveal = attrIterOK
  option sameheap
  requires it != nil && attrIterOK(it)
  ensures itOK(it) && itNext(it) && itPast(it) && itStack(it) && itLast(it)
lemma attrIterClose(it *attrIterator)
  option reveal = attrIterOK
  option sameheap
  requires it != nil && itOK(it) && itNext(it) && itPast(it) && itStack(it) && itLast(it)
  ensures attrIterOK(it)

func attrIterator.getFont
  trusted "merges the attributes in a font description; requires attributes whose data has the type of their kind"
  modifies *desc, *lang, *extraAttrs
  ensures extraAttrs != nil ==> typedAttrs(*extraAttrs)

func AttrList.find_attribute
  requires forall k int :: {attr_list[k]} 0 <= k && k < len(attr_list) ==> attr_list[k] != nil
  ensures result != nil ==> exists k int :: {attr_list[k]} 0 <= k && k < len(attr_list) && attr_list[k] == result && attr_list[k].Kind == type_
  ensures result == nil ==> forall k int :: {attr_list[k]} 0 <= k && k < len(attr_list) ==> attr_list[k].Kind != type_
  loop 0:
    invariant forall k int :: {attr_list[k]} 0 <= k && k < rangeidx ==> attr_list[k].Kind != type_

func itemizeState.update_attr_iterator
  requires state != nil && state.context != nil && state.attrIter != nil
  modifies state.attrEnd, state.emojiFontDesc, state.fontDesc, state.fontDescGravity, state.lang, state.extraAttrs, state.copyExtraAttrs, state.enableFallback, state.gravity, state.gravityHint, state.changed
  ensures [end] state.attrEnd == min(state.attrIter.EndIndex, state.end)
  ensures [font] state.fontDesc != nil && fresh(state.fontDesc) && dataSet(state.extraAttrs)

# the iterators of the state are at or after the end of the run, in the same text
spec func subIters(s *itemizeState, first int) bool = scriptIterOK(s.scriptIter) && sameslice(s.scriptIter.text, s.text) && s.scriptIter.textEnd == s.end && synced(s.scriptIter, first) && s.scriptEnd == s.scriptIter.scriptEnd && s.script == s.scriptIter.scriptCode && widthIterOK(s.widthIter) && sameslice(s.widthIter.text, s.text) && s.widthIter.textEnd == s.end && emojiIterOK(s.emojiIter) && sameslice(s.emojiIter.text, s.text) && s.emojiIter.textEnd == s.end
spec func attrsInSync(s *itemizeState) bool = (s.attrIter == nil ==> s.attrEnd == s.end) && (s.attrIter != nil ==> attrIterOK(s.attrIter) && s.attrEnd == min(s.attrIter.EndIndex, s.end))
spec func endsOK(s *itemizeState) bool = s.end <= MaxInt && s.runStart < s.runEnd && s.runEnd == min(min(s.embeddingEnd, s.attrEnd), min(s.scriptEnd, min(s.widthIter.end, s.emojiIter.end))) && s.embeddingEnd <= s.end && s.attrEnd <= s.end
# level and script of the characters up to the next change
spec func spansFit(s *itemizeState, first int) bool = (forall k int :: {s.embeddingLevels[k - first]} s.runStart <= k && k < s.embeddingEnd ==> s.embeddingLevels[k - first] == s.embedding) && (forall k int :: {scriptOf(s.text, first, k)} s.runStart <= k && k < s.scriptEnd ==> sameScript(scriptOf(s.text, first, k), s.script))
spec func stateOK(s *itemizeState, first int) bool = s.context != nil && s.context.fontMap != nil && s.fontDesc != nil && dataSet(s.extraAttrs) && levelsOK(s, first) && first <= s.runStart && subIters(s, first) && attrsInSync(s) && endsOK(s) && spansFit(s, first)

func itemizeState.next
  ghost first int
  give base = first
  requires state != nil && stateOK(state, first)
  modifies *state, allof(attrIterator), state.attrIter.attribute_stack[:]
  ensures [end] result <==> old(state.runEnd < state.end)
  ensures [same] !result ==> *state == old(*state)
  ensures [contiguous] result ==> state.runStart == old(state.runEnd)
  ensures [ok1] state.context != nil && state.context.fontMap != nil && state.fontDesc != nil && dataSet(state.extraAttrs) && levelsOK(state, first) && first <= state.runStart
  ensures [ok2] subIters(state, first)
  ensures [ok3a] (state.attrIter == nil ==> state.attrEnd == state.end) && (state.attrIter != nil ==> state.attrEnd == min(state.attrIter.EndIndex, state.end))
  ensures [ok3] attrsInSync(state)
  ensures [ok4] endsOK(state)
  ensures [ok5] spansFit(state, first)
  ensures [run] runFits(state, first)
  ensures [kept] sameslice(state.text, old(state.text)) && sameslice(state.embeddingLevels, old(state.embeddingLevels)) && state.end == old(state.end) && sameslice(state.result, old(state.result)) && state.item == old(state.item) && state.firstSpace == old(state.firstSpace)
  at entry:
    use state.attrIter != nil ==> attrIterOpen(state.attrIter)
  at after itemizeState.update_attr_iterator:
    assert [a1] itOK(state.attrIter)
    assert [a2] itNext(state.attrIter) && itPast(state.attrIter)
    assert [a3] itStack(state.attrIter) && itLast(state.attrIter)
    use attrIterClose(state.attrIter)
    assert [closed] attrIterOK(state.attrIter)
  at before itemizeState.updateEnd:
    assert [kept] state.attrIter != nil ==> attrIterOK(state.attrIter)

# the attributes seen by an iterator, in another state of the memory
lemma rankSame(l1 AttrList, l2 AttrList, n int, pos int)
  requires 0 <= n && (forall j int :: {l2[j]} 0 <= j && j < n ==> l1[j].EndIndex == l2[j].EndIndex)
  ensures rank(l1, n, pos) == rank(l2, n, pos)
  decreases n
  ih 0 < n ==> rankSame(l1, l2, n-1, pos)
lemma rankSameAll(l1 AttrList, l2 AttrList, n int, pos int)
  requires 0 <= n && (forall j int :: {l2[j]} 0 <= j && j < n ==> l1[j].EndIndex == l2[j].EndIndex)
  ensures forall m int :: {rank(l2, m, pos)} 0 <= m && m <= n ==> rank(l1, m, pos) == rank(l2, m, pos)
  decreases n
  ih 0 < n ==> rankSameAll(l1, l2, n-1, pos)
  use rankSame(l1, l2, n, pos)
lemma attrIterSame(i1 *attrIterator, i2 *attrIterator)
  option reveal = attrIterOK
  requires i1 != nil && i2 != nil && attrIterOK(i1)
  requires i1.attrs == i2.attrs && i1.attrIndex == i2.attrIndex && i1.StartIndex == i2.StartIndex && i1.EndIndex == i2.EndIndex && sameslice(i1.attribute_stack, i2.attribute_stack) && sameslice(*i1.attrs, *i2.attrs)
  requires forall j int :: {(*i2.attrs)[j]} 0 <= j && j < len(*i2.attrs) ==> (*i1.attrs)[j] == (*i2.attrs)[j] && (*i1.attrs)[j].StartIndex == (*i2.attrs)[j].StartIndex && (*i1.attrs)[j].EndIndex == (*i2.attrs)[j].EndIndex && (*i1.attrs)[j].Data == (*i2.attrs)[j].Data
  requires forall j int :: {i2.attribute_stack[j]} 0 <= j && j < len(i2.attribute_stack) ==> i1.attribute_stack[j] == i2.attribute_stack[j] && i1.attribute_stack[j].EndIndex == i2.attribute_stack[j].EndIndex
  use rankSameAll(*i1.attrs, *i2.attrs, i1.attrIndex, i1.StartIndex)
  use rankMonoAll(*i2.attrs, i2.attrIndex, i2.StartIndex)
  assert [ok] itOK(i2)
  assert [next] itNext(i2)
  assert [past] itPast(i2)
  assert [stack] forall k int :: {i2.attribute_stack[k]} 0 <= k && k < len(i2.attribute_stack) ==> i2.attribute_stack[k] != nil && i2.attribute_stack[k].EndIndex > i2.StartIndex && i2.attribute_stack[k].EndIndex >= i2.EndIndex
  assert [len] len(i2.attribute_stack) == rank(*i2.attrs, i2.attrIndex, i2.StartIndex)
  assert [active] activeAt(i2.attribute_stack, *i2.attrs, i2.attrIndex, i2.StartIndex)
  ensures attrIterOK(i2)

func attrIterator.advance_attr_iterator_to
  requires iterator != nil && attrIterOK(iterator) && 0 <= start_index && start_index < MaxInt
  modifies *iterator, iterator.attribute_stack[:]
  ensures [ok] attrIterOK(iterator) && iterator.attrs == old(iterator.attrs) && start_index < iterator.EndIndex && result
  ensures [own] fresh(iterator.attribute_stack) || obj(iterator.attribute_stack) == old(obj(iterator.attribute_stack))
  option reveal = attrIterOK
  loop 0:
    invariant attrIterOK(iterator) && iterator.attrs == old(iterator.attrs) && end_range == iterator.EndIndex
    invariant fresh(iterator.attribute_stack) || obj(iterator.attribute_stack) == old(obj(iterator.attribute_stack))
    decreases MaxInt - end_range

func bidiEmbeddingLevels
  ensures [levels] len(result1) == len(text) && fresh(result1) && (forall k int :: {result1[k]} 0 <= k && k < len(result1) ==> 0 <= result1[k] && result1[k] <= 126)
  loop 0:
    invariant len(bidiTypes) == nChars && len(bracketTypes) == nChars && fresh(bidiTypes) && fresh(bracketTypes)
  loop 1:
    invariant len(embeddingLevelsList) == nChars && fresh(embeddingLevelsList)
    invariant forall k int :: {embeddingLevelsList[k]} 0 <= k && k < nChars ==> embeddingLevelsList[k] == (k < rangeidx ? 1 : 0)

func Context.newItemizeState
  give first = startIndex
  requires context != nil && context.fontMap != nil && 0 <= startIndex && startIndex < len(text) && len(text) <= MaxInt
  requires cachedIter != nil ==> attrIterOK(cachedIter)
  requires attrsOK(attrs) && sortedAttrs(attrs)
  modifies *cachedIter, cachedIter.attribute_stack[:]
  ensures [state] result != nil && fresh(result) && result.runStart == startIndex && sameslice(result.text, text) && len(result.result) == 0 && obj(result.result) == 0 && result.item == nil && result.firstSpace == -1
  ensures [ok1] result.context == context && result.fontDesc != nil && dataSet(result.extraAttrs) && levelsOK(result, startIndex)
  ensures [ok2] subIters(result, startIndex)
  ensures [ok3] attrsInSync(result)
  ensures [ok4] endsOK(result)
  ensures [ok5] spansFit(result, startIndex)
  ensures [run] runFits(result, startIndex)
  at entry:
    use cachedIter != nil ==> attrIterOpen(cachedIter)
  at before attrIterator.advance_attr_iterator_to:
    assert [s0] cachedIter == nil ==> itOK(state.attrIter) && itNext(state.attrIter) && itPast(state.attrIter)
    assert [s1] cachedIter == nil ==> itStack(state.attrIter) && itLast(state.attrIter)
    use cachedIter == nil ==> attrIterClose(state.attrIter)
    use cachedIter != nil ==> attrIterSame(old(cachedIter), state.attrIter)
    assert [given] attrIterOK(state.attrIter)
  at before itemizeState.update_attr_iterator:
    use attrIterOpen(state.attrIter)
  at after itemizeState.update_attr_iterator:
    assert [a1] itOK(state.attrIter)
    assert [a2] itNext(state.attrIter) && itPast(state.attrIter)
    assert [a3] itStack(state.attrIter) && itLast(state.attrIter)
    use attrIterClose(state.attrIter)
    assert [kept] attrIterOK(state.attrIter)
  at before scriptIter.reset:
    assert [k2] state.attrIter != nil ==> attrIterOK(state.attrIter)

func reverseItemsToList
  trusted "linked list: the items in the reverse order; checked bounded by the P06 harness"
func Context.itemizeWithFont
  give first = startIndex
  requires context != nil && context.fontMap != nil && 0 <= startIndex && len(text) <= MaxInt
  requires cachedIter != nil ==> attrIterOK(cachedIter)
  requires attrsOK(attrs) && sortedAttrs(attrs)
  modifies allof(*Attribute), allof(Item), allof(fontCache), allof(FontDescription), allof(attrIterator)
  ensures [empty] startIndex >= len(text) ==> result == nil
  at before reverseItemsToList:
    assert [partition] tiles(state.result, startIndex, len(text))
    assert [fit] allFit(state.result, text, state.embeddingLevels, startIndex)
  loop 0:
    invariant state != nil && sameslice(state.text, text) && -1 <= state.firstSpace && state.firstSpace <= state.runEnd && state.item == nil && fresh(state)
    invariant obj(state.result) == 0 || fresh(state.result)
    invariant state.context != nil && state.context.fontMap != nil && state.fontDesc != nil && dataSet(state.extraAttrs) && levelsOK(state, startIndex) && startIndex <= state.runStart
    invariant subIters(state, startIndex)
    invariant attrsInSync(state)
    invariant endsOK(state)
    invariant spansFit(state, startIndex)
    invariant runFits(state, startIndex)
    invariant do ==> tiles(state.result, startIndex, state.runStart) && state.firstSpace <= state.runStart
    invariant !do ==> tiles(state.result, startIndex, state.runEnd) && state.runEnd == state.end
    invariant allFit(state.result, state.text, state.embeddingLevels, startIndex)
    decreases state.end - state.runEnd, do ? 1 : 0

property P06: get_pair_index, scriptIter.next, scriptIter.reset, newScriptIter, isUpright, widthIter.next, widthIter.reset, emojiSegmentationCategory, emojiIter.next, emojiIter.reset, itemizeState.updateEmbeddingEnd, itemizeState.updateEnd, itemizeState.fillFont, itemizeState.addCharacter, itemizeState.updateForNewRun, itemizeState.processRun, AttrList.find_attribute, itemizeState.update_attr_iterator, itemizeState.next, attrIterator.advance_attr_iterator_to, bidiEmbeddingLevels, Context.newItemizeState, Context.itemizeWithFont
  lemmas pairedEntry, pairedSorted, pairAtOf, uprightEntry, uprightSorted, uprightAtOf, rankSame, rankSameAll, attrIterOpen, attrIterClose, attrIterSame
