package pango

import (
	"testing"

	ucd "github.com/benoitkugler/textlayout/unicodedata"
)

func v7attrs(k *vcase, span int) AttrList {
	var out AttrList
	for i := k.Intn(4); i > 0; i-- {
		var a *Attribute
		switch k.Intn(5) {
		case 0, 1:
			a = NewAttrWord()
		case 2:
			a = NewAttrSentence()
		case 3:
			a = NewAttrAllowBreaks(k.Intn(4) == 0)
		default:
			a = NewAttrInsertHyphens(k.Intn(4) == 0)
		}
		a.StartIndex = k.Intn(span + 2)
		a.EndIndex = a.StartIndex + k.Intn(span+2)
		k.in("attribute %s [%d, %d)", a.Kind, a.StartIndex, a.EndIndex)
		out.Insert(a)
	}
	return out
}

func v7hyphen(r rune) bool {
	switch r {
	case 0xad, 0x5A0, 0x2010, 0x2012, 0x2013, 0x5BE, 0xF0B, 0x1361, 0x17D8, 0x17DA, 0x2027, '|':
		return true
	}
	return false
}

// the line breaks strictly inside of [s, e)
func v7remove(text []rune, attrs []CharAttr, s, e int) {
	for p := s + 1; p < e; p++ {
		is := attrs[p]&MandatoryBreak != 0 && attrs[p]&LineBreak != 0
		if p-1 > s && v7hyphen(text[p-1]) {
			is = true
		}
		q := p - 1
		for q > s && ucd.LookupLineBreakClass(text[q]) == ucd.BreakSP {
			q--
		}
		if q > s && ucd.LookupLineBreakClass(text[q]) == ucd.BreakZW && (p == len(text) || ucd.LookupLineBreakClass(text[p]) != ucd.BreakSP) {
			is = true
		}
		attrs[p] &^= LineBreak
		if is {
			attrs[p] |= LineBreak
		}
	}
}

func TestVerifP07_flags(t *testing.T) {
	verifRun(t, "P07 flags", 2000, func(k *vcase) {
		get := []func(CharAttr) bool{CharAttr.IsLineBreak, CharAttr.IsMandatoryBreak, CharAttr.IsCharBreak, CharAttr.IsWhite, CharAttr.IsCursorPosition, CharAttr.IsWordStart, CharAttr.IsWordEnd, CharAttr.IsSentenceBoundary, CharAttr.IsSentenceStart, CharAttr.IsSentenceEnd, CharAttr.IsBackspaceDeletesCharacter, CharAttr.IsExpandableSpace, CharAttr.IsWordBoundary, CharAttr.IsBreakInsertsHyphen, CharAttr.IsBreakRemovesPreceding}
		set := []func(*CharAttr, bool){(*CharAttr).setLineBreak, (*CharAttr).setMandatoryBreak, (*CharAttr).setCharBreak, (*CharAttr).setWhite, (*CharAttr).setCursorPosition, (*CharAttr).setWordStart, (*CharAttr).setWordEnd, (*CharAttr).setSentenceBoundary, (*CharAttr).setSentenceStart, (*CharAttr).setSentenceEnd, (*CharAttr).setBackspaceDeletesCharacter, (*CharAttr).setExpandableSpace, (*CharAttr).setWordBoundary, (*CharAttr).setBreakInsertsHyphen, (*CharAttr).setBreakRemovesPreceding}
		c := CharAttr(k.Intn(1 << 15))
		for i := range set {
			for _, is := range []bool{true, false} {
				d := c
				set[i](&d, is)
				k.in("flag %d set to %v in %b: %b", i, is, c, d)
				for j := range get {
					want := get[j](c)
					if i == j {
						want = is
					}
					k.check(get[j](d) == want, "flag %d is %v", j, !want)
				}
			}
		}
	})
}

func TestVerifP07_ranges(t *testing.T) {
	pool := []rune("ab  \u200b\u200b-\u2010\u00ad|\u2027漢\n.")
	verifRun(t, "P07 customized breaks", 30000, func(k *vcase) {
		text := make([]rune, k.Intn(9))
		for i := range text {
			text[i] = pool[k.Intn(len(pool))]
		}
		offset := []int{0, 0, 1, 3, 7}[k.Intn(5)]
		k.in("text %q at %d", string(text), offset)
		attrs := v7attrs(k, offset+len(text))
		before := make([]CharAttr, len(text)+1)
		for i := range before {
			before[i] = CharAttr(k.Intn(1<<15) & k.Intn(1<<15))
			if before[i]&MandatoryBreak != 0 {
				before[i] |= LineBreak
			}
		}
		k.in("before: %b", before)
		got := append([]CharAttr(nil), before...)
		breakAttrs(text, attrs, offset, got)
		k.in("after: %b", got)
		masks := map[AttrKind]CharAttr{ATTR_WORD: WordStart | WordEnd | WordBoundary | LineBreak, ATTR_SENTENCE: SentenceStart | SentenceEnd | SentenceBoundary, ATTR_ALLOW_BREAKS: LineBreak | CharBreak, ATTR_INSERT_HYPHENS: BreakInsertsHyphen}
		for p := range before {
			var mask CharAttr
			for _, a := range attrs {
				if a.StartIndex <= offset+p && offset+p <= a.EndIndex && (a.Kind == ATTR_WORD || a.Kind == ATTR_SENTENCE || a.StartIndex < offset+p && a.Data.(AttrInt) == 0) {
					mask |= masks[a.Kind]
				}
			}
			k.check(got[p]&^mask == before[p]&^mask, "flags of the position %d changed by no attribute", p)
			k.check(got[p]&MandatoryBreak == 0 || got[p]&LineBreak != 0, "the position %d has a mandatory break and no break", p)
		}
		if len(attrs) != 1 {
			return
		}
		// one attribute: the exact effect
		a := attrs[0]
		want := append([]CharAttr(nil), before...)
		s, e := a.StartIndex-offset, a.EndIndex-offset
		first, last := s >= 0, e < len(text)
		if s < 0 {
			s = 0
		}
		if e >= len(text) {
			e = len(want)
		}
		if e < 0 || s > len(text) || a.StartIndex == a.EndIndex {
			if a.StartIndex != a.EndIndex {
				for p := range want {
					k.check(got[p] == want[p], "position %d changed by an attribute of another text", p)
				}
			}
			return
		}
		switch a.Kind {
		case ATTR_ALLOW_BREAKS:
			if a.Data.(AttrInt) == 0 {
				for p := s + 1; p < e; p++ {
					want[p] &^= CharBreak
				}
				v7remove(text, want, s, e)
			}
		case ATTR_INSERT_HYPHENS:
			if a.Data.(AttrInt) == 0 {
				for p := s + 1; p < e; p++ {
					if want[p]&BreakRemovesPreceding == 0 {
						want[p] &^= BreakInsertsHyphen
					}
				}
			}
		case ATTR_WORD, ATTR_SENTENCE:
			word := a.Kind == ATTR_WORD
			begin, end, bound := SentenceStart, SentenceEnd, SentenceBoundary
			if word {
				begin, end, bound = WordStart, WordEnd, WordBoundary
			}
			for p := s + 1; p < e; p++ {
				want[p] &^= begin | end | bound
			}
			if word {
				v7remove(text, want, s, e)
			}
			if first {
				// inside of a word which starts before
				in := word && want[s]&end != 0
				for p := s - 1; p >= 0 && !(word && want[s]&end != 0); p-- {
					if want[p]&end != 0 {
						break
					}
					if want[p]&begin != 0 {
						in = true
						break
					}
				}
				want[s] = want[s]&^end | begin | bound
				if in {
					want[s] |= end
				}
				if word && s > 0 {
					want[s] |= LineBreak
				}
			}
			if last {
				in := word && want[e]&begin != 0
				for p := e + 1; p < len(want) && !(word && want[e]&begin != 0); p++ {
					if want[p]&begin != 0 {
						break
					}
					if want[p]&end != 0 {
						in = true
						break
					}
				}
				want[e] = want[e]&^begin | end | bound
				if in {
					want[e] |= begin
					if word {
						want[e] |= LineBreak
					}
				}
			}
		}
		for p := range want {
			k.check(got[p] == want[p], "position %d: %b, expected %b", p, got[p], want[p])
		}
	})
}

func TestVerifP07_paragraphs(t *testing.T) {
	pool := []rune("ab\r\n\u2029\u2028")
	verifRun(t, "P07 paragraphs", 20000, func(k *vcase) {
		text := make([]rune, k.Intn(8))
		for i := range text {
			text[i] = pool[k.Intn(len(pool))]
		}
		k.in("text %q", string(text))
		end, next := findParagraphBoundary(text)
		want := 0
		for want < len(text) && text[want] != '\n' && text[want] != '\r' && text[want] != 0x2029 {
			want++
		}
		after := want
		if want < len(text) {
			after++
			if text[want] == '\r' && after < len(text) && text[after] == '\n' {
				after++
			}
		}
		k.check(end == want && next == after, "paragraph ends at %d, next at %d; expected %d, %d", end, next, want, after)
	})

	pools := []rune("ab c. D漢\u200b\u2010\u00ad\n\r\u2029e\u0301กअا")
	verifRun(t, "P07 breaks of a layout", 4000, func(k *vcase) {
		text := make([]rune, 1+k.Intn(12))
		for i := range text {
			text[i] = pools[k.Intn(len(pools))]
		}
		k.in("text %q", string(text))
		attrs := v7attrs(k, len(text))
		logAttrs := make([]CharAttr, len(text)+1)
		for start := 0; start < len(text); {
			_, n := findParagraphBoundary(text[start:])
			cut := 1 + k.Intn(n)
			items := &ItemList{Data: &Item{Offset: start, Length: cut}}
			if cut < n {
				items.Next = &ItemList{Data: &Item{Offset: start + cut, Length: n - cut}}
			}
			after := append([]CharAttr(nil), logAttrs[start+n+0:]...)
			first := logAttrs[start]
			getItemsLogAttrs(text, start, n, items, logAttrs[start:], attrs)
			for i := 1; i < len(after); i++ {
				k.check(logAttrs[start+n+i] == after[i], "flags of the next paragraph at %d", start+n+i)
			}
			k.check(first&LineBreak == 0 || logAttrs[start]&LineBreak != 0, "the break before the paragraph at %d is lost", start)
			k.check(logAttrs[start+n].IsLineBreak() && logAttrs[start+n].IsMandatoryBreak(), "no break at the end of the paragraph, at %d", start+n)
			start += n
		}
		for p, c := range logAttrs {
			k.check(!c.IsMandatoryBreak() || c.IsLineBreak(), "mandatory break at %d, but no break", p)
		}
	})
}
