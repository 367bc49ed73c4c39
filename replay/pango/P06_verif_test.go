package pango

import (
	"regexp"
	"sort"
	"strings"
	"testing"
	"unicode"

	"github.com/benoitkugler/textlayout/fonts"
	"github.com/benoitkugler/textlayout/harfbuzz"
	"github.com/benoitkugler/textlayout/language"
	ucd "github.com/benoitkugler/textlayout/unicodedata"
	"github.com/benoitkugler/textprocessing/fribidi"
)

var v6pools = [][]rune{
	[]rune("abcXYZ"), []rune("αβγδ"), []rune("абвг"), []rune("אבגד"), []rune("ابتث"), []rune("漢字語"), []rune("かなカナ"), []rune("한글말"),
	[]rune("0123 .,;:!?-+"), []rune("()[]{}<>«»‘’“”"), []rune("「」『』【】（）［］｛｝"), []rune("⟨⟩⟪⟫‹›⁅⁆"),
	[]rune("\u0301\u0308\u064b\u200c\u200d\ufe0e\ufe0f"), []rune("\t\n\r\u2028\u2029\u00a0\u3000\u1680\u00ad"),
	[]rune("\u202a\u202b\u202c\u202d\u202e\u2066\u2067\u2068\u2069\u200e\u200f\u061c"),
	[]rune("😀❤☺👍👩👧👦💻🏽🏿🇫🇷🇺🏴\u20e0\u20e3#*1©®™"), []rune("\U000e0062\U000e0065\U000e006e\U000e0067\U000e007f\U000e0031"),
	[]rune("٠١٢"), []rune("กขค"), []rune("ᠠᠡᠢ"), []rune("हिन्दी"), []rune("§±¼×÷ˬᐁ†‰℀∞①■⺀ㇰ꥟가＀￡\ufffd\U0001f100\U0002000a\U0003fffd\U000e0fff\U0010ffff"),
}

// a text made of short runs of a few of the pools
func (k *vcase) v6text(max int) []rune {
	pools := [][]rune{}
	for i := 1 + k.Intn(4); i > 0; i-- {
		pools = append(pools, v6pools[k.Intn(len(v6pools))])
	}
	var out []rune
	for n := k.Intn(max + 1); len(out) < n; {
		p := pools[k.Intn(len(pools))]
		for i := 1 + k.Intn(3); i > 0; i-- {
			out = append(out, p[k.Intn(len(p))])
		}
	}
	if len(out) > max {
		out = out[:max]
	}
	return out
}

func v6real(s Script) bool {
	return s != 0 && s != language.Unknown && s != language.Common && s != language.Inherited
}
func v6same(a, b Script) bool { return a == b || !v6real(a) || !v6real(b) }

// the script of each character: that of the opening character for the closing ones
type v6open struct {
	pair  int
	after int // its position
}

func v6scripts(text []rune) (out []Script, last []Script) {
	var stack []v6open
	lastAt := make([]Script, len(text)+1) // last real script before i
	lastAt[0] = language.Common
	for i, r := range text {
		sc := language.LookupScript(r)
		pair := -1
		if sc == language.Common {
			for j, p := range paired_chars {
				if p == r {
					pair = j
				}
			}
		}
		if pair >= 0 && pair%2 == 0 {
			stack = append(stack, v6open{pair, i})
			if len(stack) > parenStackDepth {
				stack = stack[len(stack)-1:]
			}
		} else if pair >= 0 {
			for len(stack) > 0 && stack[len(stack)-1].pair != pair-1 {
				stack = stack[:len(stack)-1]
			}
			if len(stack) > 0 {
				// the first real script known after the open character
				p := stack[len(stack)-1].after
				sc = lastAt[p+1]
				for m := p + 1; !v6real(sc) && m <= i; m++ {
					sc = lastAt[m]
				}
			}
		}
		// the closing character is popped when it is consumed
		if pair >= 0 && pair%2 == 1 && len(stack) > 0 {
			stack = stack[:len(stack)-1]
		}
		out = append(out, sc)
		lastAt[i+1] = lastAt[i]
		if v6real(sc) {
			lastAt[i+1] = sc
		}
	}
	return out, lastAt
}

func TestVerifP06_scripts(t *testing.T) {
	verifRun(t, "P06 script runs", 6000, func(k *vcase) {
		text := k.v6text(60)
		if k.Intn(25) == 0 { // deep nesting
			for i := 0; i < 140; i++ {
				text = append(text, v6pools[9+k.Intn(3)][2*k.Intn(3)])
				if k.Intn(9) == 0 {
					text = append(text, v6pools[k.Intn(8)][0])
				}
			}
			for i := 0; i < 140; i++ {
				text = append(text, v6pools[9+k.Intn(3)][2*k.Intn(3)+1])
			}
		}
		k.in("text: %q", string(text))
		scripts, last := v6scripts(text)
		it := newScriptIter(text)
		pos := 0
		for more := len(text) > 0; more; {
			k.check(it.scriptStart == pos && it.scriptEnd > pos && it.scriptEnd <= len(text), "script run [%d, %d) after position %d", it.scriptStart, it.scriptEnd, pos)
			for i := pos; i < it.scriptEnd; i++ {
				k.check(v6same(scripts[i], it.scriptCode), "run [%d, %d) of script %s: character %d has the script %s", pos, it.scriptEnd, it.scriptCode, i, scripts[i])
			}
			k.check(it.scriptCode == last[it.scriptEnd], "run [%d, %d) has the script %s instead of %s", pos, it.scriptEnd, it.scriptCode, last[it.scriptEnd])
			if it.scriptEnd < len(text) {
				k.check(!v6same(scripts[it.scriptEnd], it.scriptCode), "run [%d, %d) of script %s stops before a character of script %s", pos, it.scriptEnd, it.scriptCode, scripts[it.scriptEnd])
			}
			pos = it.scriptEnd
			before := *it
			more = it.next()
			if !more {
				k.check(it.scriptEnd == before.scriptEnd && it.scriptCode == before.scriptCode, "the iterator at the end has moved")
			}
		}
		k.check(pos == len(text), "the script runs stop at %d of %d", pos, len(text))
	})
}

func v6upright(r rune) bool {
	for _, e := range upright {
		if e[0] <= r && r <= e[1] {
			return true
		}
	}
	return false
}

func TestVerifP06_widths(t *testing.T) {
	verifRun(t, "P06 upright characters", 1, func(k *vcase) {
		for _, e := range upright {
			for r := e[0] - 1; r <= e[1]+1; r++ {
				if (r-e[0])*(r-e[1]) > 9 && r%1021 != 0 {
					continue
				}
				k.check(isUpright(r) == v6upright(r), "isUpright(U+%04X) = %v", r, isUpright(r))
			}
		}
		for r := rune(0); r <= unicode.MaxRune; r += rune(1 + k.Intn(40)) {
			k.check(isUpright(r) == v6upright(r), "isUpright(U+%04X) = %v", r, isUpright(r))
		}
		k.check(!isUpright(unicode.MaxRune), "isUpright(U+10FFFF)")
	})
	verifRun(t, "P06 width runs", 5000, func(k *vcase) {
		text := k.v6text(50)
		k.in("text: %q", string(text))
		start := k.Intn(len(text) + 1)
		length := k.Intn(len(text) + 1 - start)
		k.in("range: [%d, %d)", start, start+length)
		var it widthIter
		it.reset(text, start, length)
		for pos := start; pos < start+length; {
			k.check(it.start == pos && it.end > pos && it.end <= start+length, "width run [%d, %d) after position %d", it.start, it.end, pos)
			k.check(it.upright == v6upright(text[pos]), "width run at %d: upright %v", pos, it.upright)
			joined := false // the previous character is a joiner
			for i := pos; ; i++ {
				if i == start+length {
					k.check(it.end == i, "width run [%d, %d) does not reach the end %d", pos, it.end, i)
					break
				}
				r := text[i]
				j := joined
				joined = r == 0x200d
				free := joined || j || r == 0xfe0e || r == 0xfe0f || 0xe0020 <= r && r <= 0xe007f || 0x1f3fb <= r && r <= 0x1f3ff
				if !free && v6upright(r) != it.upright {
					k.check(it.end == i, "width run [%d, %d): expected end %d", pos, it.end, i)
					break
				}
			}
			pos = it.end
			it.next()
		}
	})
}

const v6any = "(?:b|c|h|d|n|a)"
const v6elt = "(?:" + v6any + "m|de|" + v6any + ")"

// the grammar of emoji_presentation_scanner.rl, over a letter by category
var v6emoji = func() *regexp.Regexp {
	r := regexp.MustCompile("^(?:c|n|d|" + v6any + "m|de|gg|no+p|hmi|" + v6elt + "(?:k" + v6elt + ")+|" + v6any + "j)")
	r.Longest()
	return r
}()
var v6texts = regexp.MustCompile("^" + v6any + "l")

func v6token(letters string) (int, bool) {
	n, emoji := 1, false
	if v6texts.MatchString(letters) {
		n = 2
	}
	if m := v6emoji.FindString(letters); len(m) > n || len(m) == n && n == 1 {
		n, emoji = len(m), true
	}
	return n, emoji
}

func v6category(r rune) emojiScannerCategory {
	switch {
	case r == ' ' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z':
		return kMaxEmojiScannerCategory
	case '0' <= r && r <= '9' || r == '#' || r == '*':
		if unicode.Is(ucd.Emoji_Modifier_Base, r) || unicode.Is(ucd.Emoji_Modifier, r) {
			panic("keycap base in the tables of modifiers")
		}
		return keycapBase
	case r == 0x20e3:
		return combiningEnclosingKeycap
	case r == 0x20e0:
		return combiningEnclosingCircleBackslash
	case r == 0x200d:
		return zwj
	case r == 0xfe0e:
		return vs15
	case r == 0xfe0f:
		return vs16
	case r == 0x1f3f4:
		return tagBase
	case r == 0xe007f:
		return tagTerm
	case 0xe0030 <= r && r <= 0xe0039 || 0xe0061 <= r && r <= 0xe007a:
		return tagSequence
	case unicode.Is(ucd.Emoji_Modifier_Base, r):
		return emojiModifierBase
	case unicode.Is(ucd.Emoji_Modifier, r):
		return emojiModifier
	case 0x1f1e6 <= r && r <= 0x1f1ff:
		return regionalIndicator
	case unicode.Is(ucd.Emoji_Presentation, r):
		return emojiEmojiPresentation
	case unicode.Is(ucd.Emoji, r):
		return emojiTextPresentation
	}
	return kMaxEmojiScannerCategory
}

// the ends of the runs of the text, and whether they are emojis
func v6emojis(text []rune) (ends []int, emojis []bool) {
	letters := make([]byte, len(text))
	for i, r := range text {
		letters[i] = 'a' + byte(v6category(r))
	}
	for i := 0; i < len(text); {
		n, e := v6token(string(letters[i:]))
		i += n
		if l := len(ends); l > 0 && emojis[l-1] == e {
			ends[l-1] = i
		} else {
			ends, emojis = append(ends, i), append(emojis, e)
		}
	}
	return ends, emojis
}

func TestVerifP06_emojis(t *testing.T) {
	verifRun(t, "P06 emoji categories", 1, func(k *vcase) {
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if got := emojiSegmentationCategory(r); got != v6category(r) {
				k.check(false, "category of U+%04X: %d, expected %d", r, got, v6category(r))
			}
		}
	})
	verifRun(t, "P06 emoji scanner", 30000, func(k *vcase) {
		n := 1 + k.Intn(12)
		data := make([]emojiScannerCategory, n)
		letters := make([]byte, n)
		sub := []emojiScannerCategory{}
		for i := 2 + k.Intn(5); i > 0; i-- {
			sub = append(sub, emojiScannerCategory(k.Intn(17)))
		}
		for i := range data {
			data[i] = sub[k.Intn(len(sub))]
			letters[i] = 'a' + byte(data[i])
		}
		k.in("categories: %v", data)
		var got bool
		l := scanEmojiPresentation(data, &got)
		wl, want := v6token(string(letters))
		k.check(l == wl && got == want, "token of length %d, emoji %v; expected %d, %v", l, got, wl, want)
	})
	verifRun(t, "P06 emoji runs", 6000, func(k *vcase) {
		text := k.v6text(40)
		k.in("text: %q", string(text))
		start := k.Intn(len(text) + 1)
		length := k.Intn(len(text) + 1 - start)
		k.in("range: [%d, %d)", start, start+length)
		ends, emojis := v6emojis(text[start : start+length])
		var it emojiIter
		it.reset(text, start, length)
		pos := start
		for i, e := range ends {
			k.check(it.start == pos && it.end == start+e && it.isEmoji == emojis[i], "emoji run [%d, %d) emoji %v, expected [%d, %d) %v", it.start, it.end, it.isEmoji, pos, start+e, emojis[i])
			pos = it.end
			if i+1 < len(ends) {
				k.check(it.next(), "no next run")
			}
		}
	})
}

func TestVerifP06_levels(t *testing.T) {
	verifRun(t, "P06 bidirectional levels", 5000, func(k *vcase) {
		text := k.v6text(30)
		for i, r := range text { // one paragraph
			if fribidi.GetBidiType(r) == fribidi.BS {
				text = text[:i+1]
				break
			}
		}
		if len(text) == 0 {
			return
		}
		dir := []Direction{DIRECTION_LTR, DIRECTION_RTL, DIRECTION_WEAK_LTR, DIRECTION_WEAK_RTL}[k.Intn(4)]
		k.in("text: %q, base direction %s", string(text), dir)
		_, levels := bidiEmbeddingLevels(text, dir)
		types := make([]fribidi.CharType, len(text))
		brackets := make([]fribidi.BracketType, len(text))
		for i, r := range text {
			types[i] = fribidi.GetBidiType(r)
			brackets[i] = fribidi.NoBracket
			if types[i] == fribidi.ON {
				brackets[i] = fribidi.GetBracket(r)
			}
		}
		base := map[Direction]fribidi.ParType{DIRECTION_LTR: fribidi.LTR, DIRECTION_RTL: fribidi.RTL, DIRECTION_WEAK_LTR: fribidi.WLTR, DIRECTION_WEAK_RTL: fribidi.WRTL}[dir]
		want, _ := fribidi.GetParEmbeddingLevels(types, brackets, &base)
		k.check(len(levels) == len(text), "%d levels for %d characters", len(levels), len(text))
		for i := range levels {
			k.check(levels[i]%2 == want[i]%2, "level %d of the character %d, %d by the full algorithm", levels[i], i, want[i])
		}
	})
}

type v6coverage struct{ f *v6font }

func (c v6coverage) Get(r rune) bool {
	return c.f.all || c.f.scripts[language.LookupScript(r)] || strings.ContainsRune(c.f.chars, r)
}
func (c v6coverage) Set(rune, bool) {}

type v6font struct {
	name    string
	all     bool
	chars   string
	scripts map[Script]bool
}

func (f *v6font) FaceID() fonts.FaceID                       { return fonts.FaceID{File: f.name} }
func (f *v6font) Describe(bool) FontDescription              { return NewFontDescription() }
func (f *v6font) GetCoverage(Language) Coverage              { return v6coverage{f} }
func (f *v6font) GlyphExtents(Glyph, *Rectangle, *Rectangle) {}
func (f *v6font) GetMetrics(Language) FontMetrics            { return FontMetrics{} }
func (f *v6font) GetFontMap() FontMap                        { return nil }
func (f *v6font) GetFeatures() []harfbuzz.Feature            { return nil }
func (f *v6font) GetHarfbuzzFont() *harfbuzz.Font            { return nil }

type v6fontset struct{ fonts []*v6font }

func (s *v6fontset) GetLanguage() Language { return "en" }
func (s *v6fontset) Foreach(fn FontsetForeachFunc) {
	for _, f := range s.fonts {
		if fn(f) {
			return
		}
	}
}

type v6map struct {
	sets []*v6fontset
	n    int
}

func (m *v6map) LoadFontset(*Context, *FontDescription, Language) Fontset {
	m.n++
	return m.sets[m.n%len(m.sets)]
}
func (m *v6map) GetSerial() uint { return 1 }

func (k *vcase) v6fonts() *v6map {
	m := &v6map{}
	for i := 1 + k.Intn(2); i > 0; i-- {
		s := &v6fontset{}
		for j := k.Intn(4); j > 0; j-- {
			f := &v6font{name: string(rune('A' + j)), scripts: map[Script]bool{}}
			for n := k.Intn(4); n > 0; n-- {
				p := v6pools[k.Intn(len(v6pools))]
				f.scripts[language.LookupScript(p[k.Intn(len(p))])] = true
			}
			s.fonts = append(s.fonts, f)
		}
		// a font for the spaces, at least
		s.fonts = append(s.fonts, &v6font{name: "last", all: k.Intn(3) != 0, scripts: map[Script]bool{language.Common: true}})
		m.sets = append(m.sets, s)
	}
	return m
}

func v6level(l fribidi.Level, g Gravity) fribidi.Level {
	switch g {
	case GRAVITY_NORTH:
		return l + 1
	case GRAVITY_EAST:
		return (l + 1) / 2 * 2
	case GRAVITY_WEST:
		return l/2*2 + 1
	}
	return l
}

func TestVerifP06_items(t *testing.T) {
	verifRun(t, "P06 itemization", 8000, func(k *vcase) {
		text := k.v6text(40)
		if len(text) == 0 {
			return
		}
		start := 0
		if k.Intn(2) == 0 {
			start = k.Intn(len(text))
		}
		length := len(text) - start
		if k.Intn(3) == 0 {
			length = k.Intn(length + 1)
		}
		dir := []Direction{DIRECTION_LTR, DIRECTION_RTL, DIRECTION_WEAK_LTR, DIRECTION_WEAK_RTL}[k.Intn(4)]
		m := k.v6fonts()
		context := NewContext(m)
		context.baseDir = []Direction{DIRECTION_LTR, DIRECTION_RTL, DIRECTION_WEAK_LTR, DIRECTION_WEAK_RTL}[k.Intn(4)]
		context.SetBaseGravity([]Gravity{GRAVITY_SOUTH, GRAVITY_SOUTH, GRAVITY_EAST, GRAVITY_NORTH, GRAVITY_WEST}[k.Intn(5)])
		context.gravityHint = []GravityHint{GRAVITY_HINT_NATURAL, GRAVITY_HINT_STRONG, GRAVITY_HINT_LINE}[k.Intn(3)]
		public := k.Intn(3) == 0
		if public {
			dir = context.baseDir
		}
		k.in("text: %q [%d, %d), base direction %s, of the context %s, gravity %s, hint %d", string(text), start, start+length, dir, context.baseDir, context.resolvedGravity, context.gravityHint)
		var attrs AttrList
		for i := k.Intn(4); i > 0; i-- {
			var a *Attribute
			switch k.Intn(6) {
			case 0:
				a = NewAttrGravity(Gravity(k.Intn(4)))
			case 1:
				a = NewAttrGravityHint(GravityHint(k.Intn(3)))
			case 2:
				a = NewAttrFallback(k.Intn(2) == 0)
			case 3:
				a = NewAttrLanguage("fr")
			case 4:
				a = NewAttrUnderline(Underline(k.Intn(3)))
			default:
				a = NewAttrSize(1000 * k.Intn(20))
			}
			a.StartIndex = k.Intn(len(text) + 1)
			a.EndIndex = a.StartIndex + 1 + k.Intn(len(text)+1-a.StartIndex)
			if k.Intn(6) == 0 {
				a.EndIndex = MaxInt
			}
			k.in("attribute [%d, %d) kind %d", a.StartIndex, a.EndIndex, a.Kind)
			attrs.Insert(a)
		}
		orig := append([]rune{}, text...)
		var cached *attrIterator
		if len(attrs) != 0 && !public && k.Intn(2) == 0 {
			cached = attrs.getIterator()
			for i := k.Intn(3); i > 0; i-- {
				cp := cached.copy()
				if !cp.next() || cp.StartIndex > start {
					break
				}
				cached = cp
			}
		}
		var list *ItemList
		if public {
			list = context.Itemize(text, start, length, attrs)
		} else {
			list = context.itemizeWithBaseDir(dir, text, start, length, attrs, cached)
		}
		k.check(string(orig) == string(text), "the text has changed")
		if length == 0 {
			k.check(list == nil, "items in an empty text")
			return
		}
		part := text[start : start+length]
		_, levels := bidiEmbeddingLevels(part, dir)
		scripts, last := v6scripts(part)
		eends, _ := v6emojis(part)
		cuts := []int{}
		for _, a := range attrs {
			cuts = append(cuts, a.StartIndex, a.EndIndex)
		}
		for _, e := range eends {
			cuts = append(cuts, start+e)
		}
		sort.Ints(cuts)
		pos := start
		for l := list; l != nil; l = l.Next {
			it := l.Data
			k.check(it.Offset == pos, "item [%d, %d) after position %d", it.Offset, it.Offset+it.Length, pos)
			k.check(it.Length > 0 && it.Offset+it.Length <= start+length, "item [%d, %d) of the text [%d, %d)", it.Offset, it.Offset+it.Length, start, start+length)
			for i := pos - start; i < pos-start+it.Length; i++ {
				k.check(it.Analysis.Level == v6level(levels[i], it.Analysis.Gravity), "item [%d, %d), gravity %s: level %d, character %d has the level %d", it.Offset, it.Offset+it.Length, it.Analysis.Gravity, it.Analysis.Level, start+i, levels[i])
				k.check(v6same(scripts[i], it.Analysis.Script), "item [%d, %d): script %s, character %d has the script %s", it.Offset, it.Offset+it.Length, it.Analysis.Script, start+i, scripts[i])
			}
			// the script of the run of characters of one script
			run := pos - start
			for run < length && v6same(scripts[run], it.Analysis.Script) && (v6real(it.Analysis.Script) || !v6real(scripts[run])) {
				run++
			}
			k.check(run >= pos-start+it.Length && (v6real(it.Analysis.Script) || !v6real(last[run]) && it.Analysis.Script == language.Common), "item [%d, %d): script %s", it.Offset, it.Offset+it.Length, it.Analysis.Script)
			for _, c := range cuts {
				k.check(!(it.Offset < c && c < it.Offset+it.Length), "item [%d, %d) across the limit %d of an attribute or of a run of emojis", it.Offset, it.Offset+it.Length, c)
			}
			pos += it.Length
		}
		k.check(pos == start+length, "the items stop at %d of %d", pos, start+length)
	})
	verifRun(t, "P06 last segment of attributes", 4000, func(k *vcase) {
		var attrs AttrList
		for i := k.Intn(5); i > 0; i-- {
			a := NewAttrUnderline(Underline(k.Intn(3)))
			a.StartIndex = k.Intn(10)
			a.EndIndex = a.StartIndex + k.Intn(10)
			if k.Intn(5) == 0 {
				a.EndIndex = MaxInt
			}
			k.in("attribute [%d, %d)", a.StartIndex, a.EndIndex)
			attrs.Insert(a)
		}
		it := attrs.getIterator()
		for more := true; more; more = it.next() {
			if it.attrIndex == len(attrs) && len(it.attribute_stack) == 0 {
				k.check(it.EndIndex == MaxInt, "last segment [%d, %d)", it.StartIndex, it.EndIndex)
			}
		}
		k.check(it.EndIndex == MaxInt, "the iterator stops at %d", it.EndIndex)
	})
	verifRun(t, "P06 fonts of the spaces", 3000, func(k *vcase) {
		fonts := []*v6font{{name: "0", chars: "abc "}, {name: "1", chars: "\u00e9\u00e8"}, {name: "2", chars: "\u00fc"}}
		context := NewContext(&v6map{sets: []*v6fontset{{fonts}}})
		var text []rune
		for n := 1 + k.Intn(20); len(text) < n; {
			text = append(text, []rune("aab\u00e9\u00e8\u00fc    \u00a0\u200b")[k.Intn(12)])
		}
		k.in("text: %q", string(text))
		// the place of the font of each character
		want := make([]int, len(text))
		for i, r := range text {
			want[i] = -1
			for j, f := range fonts {
				if !considerAsSpace(r) && strings.ContainsRune(f.chars, r) {
					want[i] = j
				}
			}
		}
		for i := 0; i < len(text); i++ {
			e := i
			for e < len(text) && want[e] == -1 {
				e++
			}
			if e > i { // spaces
				f := -1
				if i > 0 {
					f = want[i-1]
				}
				if e < len(text) && (f == -1 || want[e] < f) {
					f = want[e]
				}
				if f == -1 {
					f = 0
				}
				for ; i < e; i++ {
					want[i] = f
				}
				i--
			}
		}
		pos := 0
		for l := context.Itemize(text, 0, len(text), nil); l != nil; l = l.Next {
			for ; pos < l.Data.Offset+l.Data.Length; pos++ {
				k.check(l.Data.Analysis.Font == Font(fonts[want[pos]]), "font of the character %d: %s instead of %d", pos, l.Data.Analysis.Font.(*v6font).name, want[pos])
			}
		}
		k.check(pos == len(text), "the items stop at %d of %d", pos, len(text))
	})
}
