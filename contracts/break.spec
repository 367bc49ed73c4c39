package github.com/benoitkugler/textprocessing/pango

# ---------------------------------------------------------------- breaks and their customization

bv CharAttr

spec func setTo(c, flag CharAttr, is bool) CharAttr = is ? c | flag : c &^ flag

func CharAttr.IsLineBreak
  ensures [flag] result <==> c & LineBreak != 0

func CharAttr.setLineBreak
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), LineBreak, is)

func CharAttr.IsMandatoryBreak
  ensures [flag] result <==> c & MandatoryBreak != 0

func CharAttr.setMandatoryBreak
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), MandatoryBreak, is)

func CharAttr.IsCharBreak
  ensures [flag] result <==> c & CharBreak != 0

func CharAttr.setCharBreak
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), CharBreak, is)

func CharAttr.IsWhite
  ensures [flag] result <==> c & White != 0

func CharAttr.setWhite
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), White, is)

func CharAttr.IsCursorPosition
  ensures [flag] result <==> c & CursorPosition != 0

func CharAttr.setCursorPosition
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), CursorPosition, is)

func CharAttr.IsWordStart
  ensures [flag] result <==> c & WordStart != 0

func CharAttr.setWordStart
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), WordStart, is)

func CharAttr.IsWordEnd
  ensures [flag] result <==> c & WordEnd != 0

func CharAttr.setWordEnd
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), WordEnd, is)

func CharAttr.IsSentenceBoundary
  ensures [flag] result <==> c & SentenceBoundary != 0

func CharAttr.setSentenceBoundary
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), SentenceBoundary, is)

func CharAttr.IsSentenceStart
  ensures [flag] result <==> c & SentenceStart != 0

func CharAttr.setSentenceStart
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), SentenceStart, is)

func CharAttr.IsSentenceEnd
  ensures [flag] result <==> c & SentenceEnd != 0

func CharAttr.setSentenceEnd
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), SentenceEnd, is)

func CharAttr.IsBackspaceDeletesCharacter
  ensures [flag] result <==> c & BackspaceDeletesCharacter != 0

func CharAttr.setBackspaceDeletesCharacter
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), BackspaceDeletesCharacter, is)

func CharAttr.IsExpandableSpace
  ensures [flag] result <==> c & ExpandableSpace != 0

func CharAttr.setExpandableSpace
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), ExpandableSpace, is)

func CharAttr.IsWordBoundary
  ensures [flag] result <==> c & WordBoundary != 0

func CharAttr.setWordBoundary
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), WordBoundary, is)

func CharAttr.IsBreakInsertsHyphen
  ensures [flag] result <==> c & BreakInsertsHyphen != 0

func CharAttr.setBreakInsertsHyphen
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), BreakInsertsHyphen, is)

func CharAttr.IsBreakRemovesPreceding
  ensures [flag] result <==> c & BreakRemovesPreceding != 0

func CharAttr.setBreakRemovesPreceding
  requires c != nil
  modifies *c
  ensures [only] *c == setTo(old(*c), BreakRemovesPreceding, is)

# the flags are fifteen different bits
lemma flagsDistinct(c CharAttr)
  ensures LineBreak == 1
  ensures MandatoryBreak == 2
  ensures CharBreak == 4
  ensures White == 8
  ensures CursorPosition == 16
  ensures WordStart == 32
  ensures WordEnd == 64
  ensures SentenceBoundary == 128
  ensures SentenceStart == 256
  ensures SentenceEnd == 512
  ensures BackspaceDeletesCharacter == 1024
  ensures ExpandableSpace == 2048
  ensures WordBoundary == 4096
  ensures BreakInsertsHyphen == 8192
  ensures BreakRemovesPreceding == 16384

extern github.com/benoitkugler/textlayout/unicodedata.LookupLineBreakClass
  ensures result == lineClass(ch)
spec func lineClass(ch rune) *unicode.RangeTable

func posFromOffset
  ensures [start] result0 == (start >= offset ? start - offset : 0)
  ensures [end] result1 == (end >= offset + len(text) ? len(logAttrs) : end - offset)

# the character at a position, zero at the end
spec func chAt(t []rune, k int) rune = 0 <= k && k < len(t) ? t[k] : 0
spec func isHyphen(ch rune) bool = ch == 0x00ad || ch == 0x05A0 || ch == 0x2010 || ch == 0x2012 || ch == 0x2013 || ch == 0x05BE || ch == 0x0F0B || ch == 0x1361 || ch == 0x17D8 || ch == 0x17DA || ch == 0x2027 || ch == 0x007C
spec func classAt(t []rune, k int) *unicode.RangeTable = lineClass(chAt(t, k))
# a zero width space of ]s, k], followed by spaces only
spec rec zwsUpto(t []rune, s, k int) bool = k <= s ? false : classAt(t, k) == unicodedata.BreakZW || (classAt(t, k) == unicodedata.BreakSP && zwsUpto(t, s, k-1))
spec opaque keepsBreak(t []rune, s, k int, c CharAttr) bool = c & MandatoryBreak != 0 && c & LineBreak != 0 || k - 1 > s && isHyphen(chAt(t, k - 1)) || zwsUpto(t, s, k - 1) && classAt(t, k) != unicodedata.BreakSP

func removeBreaksFromRange
  requires len(logAttrs) == len(text) + 1 && 0 <= startPos && endPos <= len(logAttrs)
  modifies logAttrs[:]
  ensures [inside] forall k int :: {logAttrs[k]} startPos < k && k < endPos ==> logAttrs[k] == setTo(old(logAttrs[k]), LineBreak, keepsBreak(text, startPos, k, old(logAttrs[k])))
  ensures [outside] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !(startPos < k && k < endPos) ==> logAttrs[k] == old(logAttrs[k])
  option reveal = keepsBreak
  loop 0:
    invariant startPos < pos
    invariant afterHyphen <==> pos - 1 > startPos && isHyphen(chAt(text, pos - 1))
    invariant afterZws <==> zwsUpto(text, startPos, pos - 1)
    invariant forall k int :: {logAttrs[k]} startPos < k && k < pos && k < endPos ==> logAttrs[k] == setTo(old(logAttrs[k]), LineBreak, keepsBreak(text, startPos, k, old(logAttrs[k])))
    invariant forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !(startPos < k && k < pos && k < endPos) ==> logAttrs[k] == old(logAttrs[k])

# every attribute of the stack of an iterator is one of the list
lemma stackFrom(stack AttrList, all AttrList, n int, m int, pos int)
  option sameheap
  requires 0 <= m && m <= n && activeAt(stack, all, n, pos)
  ensures forall k int :: {stack[k]} 0 <= k && k < rank(all, m, pos) ==> exists j int :: {all[j]} 0 <= j && j < m && all[j] == stack[k] && all[j].EndIndex > pos
  decreases m
  use rankMono(all, m, n, pos)
  use 0 < m ==> rankMono(all, m-1, n, pos)
  use rankMono(all, 0, m, pos)
  ih 0 < m ==> stackFrom(stack, all, n, m-1, pos)

# a position covered by an attribute, or strictly inside of it
spec opaque covered(l AttrList, p int) bool = exists j int :: {l[j]} 0 <= j && j < len(l) && l[j].StartIndex <= p && p <= l[j].EndIndex
spec opaque inside(l AttrList, p int) bool = exists j int :: {l[j]} 0 <= j && j < len(l) && l[j].StartIndex < p && p <= l[j].EndIndex
spec func breakList(l AttrList) bool = attrsOK(l) && sortedAttrs(l) && (forall k int :: {l[k]} 0 <= k && k < len(l) ==> typeis(l[k].Data, AttrInt) && l[k].EndIndex < MaxInt)
spec func iterOf(it *attrIterator) bool = it != nil && itOK(it) && itNext(it) && itPast(it) && itStack(it) && (fresh(it.attribute_stack) || obj(it.attribute_stack) == 0) && fresh(it)
spec func otherFlags(mask CharAttr, now, then CharAttr) bool = now &^ mask == then &^ mask
# a mandatory break stays a break
spec func keepsMandatory(now, then CharAttr) bool = then & MandatoryBreak != 0 && then & LineBreak != 0 ==> now & LineBreak != 0

func handleAllowBreaks
  requires len(logAttrs) == len(text) + 1 && 0 <= offset && offset + len(text) < MaxInt && breakList(list)
  modifies logAttrs[:]
  ensures [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | CharBreak), logAttrs[k], old(logAttrs[k]))
  ensures [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
  ensures [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !inside(list, offset + k) ==> logAttrs[k] == old(logAttrs[k])
  option reveal = inside
  loop 0:
    invariant iterOf(iter) && *iter.attrs == list
    invariant [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | CharBreak), logAttrs[k], old(logAttrs[k]))
    invariant [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
    invariant [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !inside(list, offset + k) ==> logAttrs[k] == old(logAttrs[k])
    at begin:
      use stackFrom(iter.attribute_stack, *iter.attrs, iter.attrIndex, iter.attrIndex, iter.StartIndex)
  loop 1:
    invariant startPos < pos
    invariant [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | CharBreak), logAttrs[k], old(logAttrs[k]))
    invariant [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
    invariant [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !inside(list, offset + k) ==> logAttrs[k] == old(logAttrs[k])

func handleWords
  requires len(logAttrs) == len(text) + 1 && 0 <= offset && offset + len(text) < MaxInt && breakList(attrs)
  modifies logAttrs[:]
  ensures [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | WordStart | WordEnd | WordBoundary), logAttrs[k], old(logAttrs[k]))
  ensures [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
  ensures [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !covered(attrs, offset + k) ==> logAttrs[k] == old(logAttrs[k])
  option reveal = covered
  at after CharAttr.setWordStart:
    assert [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | WordStart | WordEnd | WordBoundary), logAttrs[k], old(logAttrs[k]))
    assert [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
  at after CharAttr.setWordEnd:
    assert [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | WordStart | WordEnd | WordBoundary), logAttrs[k], old(logAttrs[k]))
    assert [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
  at after CharAttr.setWordBoundary:
    assert [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | WordStart | WordEnd | WordBoundary), logAttrs[k], old(logAttrs[k]))
    assert [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
  at after CharAttr.setLineBreak:
    assert [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | WordStart | WordEnd | WordBoundary), logAttrs[k], old(logAttrs[k]))
    assert [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
  at after removeBreaksFromRange:
    assert [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | WordStart | WordEnd | WordBoundary), logAttrs[k], old(logAttrs[k]))
    assert [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
  loop 0:
    invariant iterOf(iter) && *iter.attrs == attrs
    invariant [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | WordStart | WordEnd | WordBoundary), logAttrs[k], old(logAttrs[k]))
    invariant [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
    invariant [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !covered(attrs, offset + k) ==> logAttrs[k] == old(logAttrs[k])
    at begin:
      use stackFrom(iter.attribute_stack, *iter.attrs, iter.attrIndex, iter.attrIndex, iter.StartIndex)
  loop 1:
    invariant startPos < pos
    invariant [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags((LineBreak | WordStart | WordEnd | WordBoundary), logAttrs[k], old(logAttrs[k]))
    invariant [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
    invariant [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !covered(attrs, offset + k) ==> logAttrs[k] == old(logAttrs[k])
  loop 2:
    invariant pos <= startPos
  loop 3:
    invariant endPos <= pos

func handleSentences
  requires len(logAttrs) == len(text) + 1 && 0 <= offset && offset + len(text) < MaxInt && breakList(attrs)
  modifies logAttrs[:]
  ensures [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !covered(attrs, offset + k) ==> logAttrs[k] == old(logAttrs[k])
  option reveal = covered
  loop 0:
    invariant iterOf(iter) && *iter.attrs == attrs
    invariant [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !covered(attrs, offset + k) ==> logAttrs[k] == old(logAttrs[k])
    at begin:
      use stackFrom(iter.attribute_stack, *iter.attrs, iter.attrIndex, iter.attrIndex, iter.StartIndex)
  loop 1:
    invariant startPos < pos
    invariant [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !covered(attrs, offset + k) ==> logAttrs[k] == old(logAttrs[k])
  loop 2:
    invariant pos < startPos
  loop 3:
    invariant endPos < pos

func handleHyphens
  requires len(logAttrs) == len(text) + 1 && 0 <= offset && offset + len(text) < MaxInt && breakList(attrs)
  modifies logAttrs[:]
  ensures [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags(BreakInsertsHyphen, logAttrs[k], old(logAttrs[k]))
  ensures [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
  ensures [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !inside(attrs, offset + k) ==> logAttrs[k] == old(logAttrs[k])
  option reveal = inside
  ensures [kept] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && old(logAttrs[k]) & BreakRemovesPreceding != 0 ==> logAttrs[k] == old(logAttrs[k])
  loop 0:
    invariant forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && old(logAttrs[k]) & BreakRemovesPreceding != 0 ==> logAttrs[k] == old(logAttrs[k])
    invariant iterOf(iter) && *iter.attrs == attrs
    invariant [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags(BreakInsertsHyphen, logAttrs[k], old(logAttrs[k]))
    invariant [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
    invariant [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !inside(attrs, offset + k) ==> logAttrs[k] == old(logAttrs[k])
    at begin:
      use stackFrom(iter.attribute_stack, *iter.attrs, iter.attrIndex, iter.attrIndex, iter.StartIndex)
  loop 1:
    invariant startPos < pos
    invariant [flags] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> otherFlags(BreakInsertsHyphen, logAttrs[k], old(logAttrs[k]))
    invariant [mandatory] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) ==> keepsMandatory(logAttrs[k], old(logAttrs[k]))
    invariant [where] forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && !inside(attrs, offset + k) ==> logAttrs[k] == old(logAttrs[k])
    invariant forall k int :: {logAttrs[k]} 0 <= k && k < len(logAttrs) && old(logAttrs[k]) & BreakRemovesPreceding != 0 ==> logAttrs[k] == old(logAttrs[k])

# a character that ends a paragraph
spec func isSep(ch rune) bool = ch == 10 || ch == 13 || ch == paragraphSeparator
# the paragraph ends before k: after a separator, but not between \r and \n
spec func paraEnd(t []rune, k int) bool = 0 < k && k < len(t) && isSep(t[k-1]) && !(t[k-1] == 13 && t[k] == 10)

func findParagraphBoundary
  ensures [range] 0 <= delimiter && delimiter <= start && start <= len(text)
  ensures [none] forall k int :: {text[k]} 0 <= k && k < delimiter ==> !isSep(text[k])
  ensures [separator] delimiter < len(text) ==> isSep(text[delimiter]) && delimiter < start && (start == delimiter + 1 || start == delimiter + 2 && text[delimiter] == 13 && text[delimiter+1] == 10)
  ensures [first] delimiter < len(text) && start == delimiter + 1 && start < len(text) ==> !(text[delimiter] == 13 && text[start] == 10)
  loop 0:
    invariant start == -1 && -1 <= delimiter && delimiter < rangeidx
    invariant delimiter == -1 ? (forall k int :: {text[k]} 0 <= k && k < rangeidx ==> !isSep(text[k])) : isSep(text[delimiter]) && (forall k int :: {text[k]} 0 <= k && k < delimiter ==> !isSep(text[k])) && (rangeidx == delimiter + 1 || rangeidx == delimiter + 2 && text[delimiter] == 13 && text[delimiter+1] == 10)
    invariant prevSep == (rangeidx > 0 && isSep(text[rangeidx-1]) ? text[rangeidx-1] : 0)

property P07: CharAttr.IsLineBreak, CharAttr.setLineBreak, CharAttr.IsMandatoryBreak, CharAttr.setMandatoryBreak, CharAttr.IsCharBreak, CharAttr.setCharBreak, CharAttr.IsWhite, CharAttr.setWhite, CharAttr.IsCursorPosition, CharAttr.setCursorPosition, CharAttr.IsWordStart, CharAttr.setWordStart, CharAttr.IsWordEnd, CharAttr.setWordEnd, CharAttr.IsSentenceBoundary, CharAttr.setSentenceBoundary, CharAttr.IsSentenceStart, CharAttr.setSentenceStart, CharAttr.IsSentenceEnd, CharAttr.setSentenceEnd, CharAttr.IsBackspaceDeletesCharacter, CharAttr.setBackspaceDeletesCharacter, CharAttr.IsExpandableSpace, CharAttr.setExpandableSpace, CharAttr.IsWordBoundary, CharAttr.setWordBoundary, CharAttr.IsBreakInsertsHyphen, CharAttr.setBreakInsertsHyphen, CharAttr.IsBreakRemovesPreceding, CharAttr.setBreakRemovesPreceding, posFromOffset, removeBreaksFromRange, handleAllowBreaks, handleWords, handleSentences, handleHyphens, findParagraphBoundary
  lemmas flagsDistinct, stackFrom
