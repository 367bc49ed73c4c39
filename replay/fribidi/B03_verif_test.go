package fribidi

import (
	"testing"
	"unicode"

	"github.com/benoitkugler/textlayout/unicodedata"
	"golang.org/x/text/unicode/bidi"
)

// the first parts, second parts and results of the mandatory ligatures
// (lam followed by a variant of alef, in final or isolated form)
var b03Liga = map[[2]rune]rune{
	{0xFEDF, 0xFE82}: 0xFEF5, {0xFEDF, 0xFE84}: 0xFEF7, {0xFEDF, 0xFE88}: 0xFEF9, {0xFEDF, 0xFE8E}: 0xFEFB,
	{0xFEE0, 0xFE82}: 0xFEF6, {0xFEE0, 0xFE84}: 0xFEF8, {0xFEE0, 0xFE88}: 0xFEFA, {0xFEE0, 0xFE8E}: 0xFEFC,
}

func b03JoiningType(ch rune, ty CharType) JoiningType {
	if j, ok := unicodedata.ArabicJoinings[ch]; ok {
		switch j {
		case unicodedata.R, unicodedata.Alaph, unicodedata.DalathRish:
			return R
		case unicodedata.D:
			return D
		case unicodedata.C:
			return C
		case unicodedata.T:
			return T
		case unicodedata.L:
			return L
		case unicodedata.G:
			return G
		}
		return U
	}
	if unicode.Is(unicode.Mn, ch) || unicode.Is(unicode.Me, ch) || unicode.Is(unicode.Cf, ch) {
		return T
	}
	switch ty {
	case BN, LRE, RLE, LRO, RLO, PDF, LRI, RLI, FSI, PDI:
		return G
	}
	return U
}

func b03Skipped(p JoiningType) bool { return p&(8|16) != 0 }

// the joining algorithm, letter by letter
func b03Join(ty []CharType, lv []Level, in []JoiningType) []JoiningType {
	out := append([]JoiningType{}, in...)
	level := func(i int) Level {
		switch ty[i] {
		case BN, LRE, RLE, LRO, RLO, PDF:
			return -1
		}
		return lv[i]
	}
	// the side toward the previous and the next letter
	sides := func(i int) (JoiningType, JoiningType) {
		if level(i)%2 != 0 {
			return 1, 2
		}
		return 2, 1
	}
	var letters []int
	for i := range in {
		if !b03Skipped(in[i]) {
			letters = append(letters, i)
		}
	}
	joins := func(a, b int) bool {
		_, next := sides(a)
		prev, _ := sides(b)
		if in[a]&next == 0 || in[b]&prev == 0 {
			return false
		}
		for k := a + 1; k <= b; k++ {
			if in[k]&(8|16) == 16 {
				continue
			}
			if level(k) != -1 && level(a) != -1 && level(k) != level(a) {
				return false
			}
		}
		return true
	}
	for n, i := range letters {
		prev, next := sides(i)
		withPrev := n > 0 && joins(letters[n-1], i)
		withNext := n+1 < len(letters) && joins(i, letters[n+1])
		if in[i]&4 != 0 && !withPrev {
			out[i] &^= prev
		}
		if in[i]&4 != 0 && !withNext {
			out[i] &^= next
		}
		if withNext {
			other, _ := sides(letters[n+1])
			for k := i + 1; k < letters[n+1]; k++ {
				out[k] |= next | other
			}
		}
	}
	return out
}

func b03Shape(flags Options, lv []Level, ar []JoiningType, str []rune) ([]JoiningType, []rune) {
	ar, str = append([]JoiningType{}, ar...), append([]rune{}, str...)
	if len(ar) != 0 && flags&ShapeArabPres != 0 {
		for i, p := range ar {
			if p&4 != 0 && str[i] >= 0x621 && str[i] <= 0x6D3 {
				str[i] = rune(unicodedata.ArabicShaping[str[i]-0x621][p&3])
			}
		}
	}
	if len(ar) != 0 && flags&ShapeArabLiga != 0 {
		for i := 0; i+1 < len(lv); i++ {
			if c := b03Liga[[2]rune{str[i], str[i+1]}]; c != 0 && lv[i]%2 == 1 && lv[i] == lv[i+1] {
				str[i], str[i+1] = 0xFEFF, c
				ar[i] |= ligatured
			}
		}
	}
	if flags&ShapeMirroring != 0 {
		for i, l := range lv {
			if m, ok := mirrors[str[i]]; ok && l%2 == 1 {
				str[i] = m
			}
		}
	}
	return ar, str
}

var b03Runes = []rune{0x644, 0x644, 0x627, 0x622, 0x623, 0x625, 0x628, 0x62F, 0x640, 0x64B, 0x651, 0x621, 0x6D5, 0x6CC, 0x200D, 0x200C, 0x200E, 0x202A, 0x202B, 0x202C, 0x2066, 0x2069, 0xFEFF, 0xAD, 'a', ' ', '(', ')', '[', '<', 0xAB, 0x2208, 0xA872, 0x10AC7, 0x1E944, 0x710, 0x715, 0xFEDF, 0xFEE0, 0xFE82, 0xFE84, 0xFE88, 0xFE8E, 0xFEF5, 0xFEFC, 0xFE8F, 0x5D0, '1', 0x661}

func b03Tables(k *vcase) {
	n := 0
	for c, m := range mirrors {
		k.in("mirror of %U: %U", c, m)
		back, ok := mirrors[m]
		k.check(ok && back == c && m != c, "the mirror of %U is %U, whose mirror is %U (%v)", c, m, back, ok)
		r, ok := getMirrorChar(c)
		k.check(ok && r == m, "getMirrorChar(%U) = %U, %v", c, r, ok)
		k.check(unicode.Is(unicode.Ps, c) == unicode.Is(unicode.Pe, m) && unicode.Is(unicode.Pi, c) == unicode.Is(unicode.Pf, m), "the mirror of %U is %U, of another category", c, m)
		n++
	}
	for _, p := range []string{"()", "[]", "{}", "<>", "«»", "‹›", "⟨⟩", "《》", "「」", "≤≥", "∈∋", "⊂⊃"} {
		r := []rune(p)
		m, _ := getMirrorChar(r[0])
		k.check(m == r[1], "mirror of %c is %c", r[0], m)
	}
	k.check(n >= 300, "%d mirrors", n)
	for first := rune(0xFED0); first < 0xFF00; first++ {
		for second := rune(0xFE70); second < 0xFF00; second++ {
			got := findPairMatch(mandatoryLigaTable, first, second)
			k.check(got == b03Liga[[2]rune{first, second}], "ligature of %U and %U: %U", first, second, got)
		}
	}
	// brackets: opening and closing characters of one pair share their identity,
	// and so do the two pairs of angle brackets that are canonically equivalent
	ids := map[BracketType]rune{}
	brackets := 0
	for c := rune(0); c < 0x11000; c++ {
		b := GetBracket(c)
		p, _ := bidi.LookupRune(c)
		k.in("bracket %U: %x", c, b)
		k.check((b != NoBracket) == p.IsBracket(), "GetBracket(%U) = %x", c, b)
		if b == NoBracket {
			continue
		}
		brackets++
		k.check(b.isOpen() == p.IsOpeningBracket(), "GetBracket(%U) = %x: opening", c, b)
		m, ok := getMirrorChar(c)
		k.check(ok && GetBracket(m).id() == b.id() && GetBracket(m).isOpen() != b.isOpen(), "brackets %U and %U: %x and %x", c, m, b, GetBracket(m))
		if b.isOpen() {
			o, ok := ids[b.id()]
			k.check(!ok || o == 0x2329 && c == 0x3008, "brackets %U and %U are the same", o, c)
			ids[b.id()] = c
		}
	}
	k.check(brackets == len(bracketsTable) && GetBracket(0x2329) == GetBracket(0x3008) && GetBracket(0x232A) == GetBracket(0x3009), "%d brackets", brackets)
	// the four forms of beh, and the two of dal
	for s, want := range map[string][]rune{
		"\u0628":             {0xFE8F},
		"\u0628\u0628":       {0xFE91, 0xFE90},
		"\u0628\u0628\u0628": {0xFE91, 0xFE92, 0xFE90},
		"\u062F\u0628":       {0xFEA9, 0xFE8F},
		"\u0628\u062F":       {0xFE91, 0xFEAA},
		"\u0628\u200C\u0628": {0xFE8F, 0x200C, 0xFE8F},
		"\u0628\u200D":       {0xFE91, 0x200D},
		"\u0644\u0627":       {0xFEFF, 0xFEFB},
		"\u0628\u0644\u0627": {0xFE91, 0xFEFF, 0xFEFC},
	} {
		str := []rune(s)
		types := getBidiTypes(str)
		levels := make([]Level, len(str))
		for i := range levels {
			levels[i] = 1
		}
		ar := getJoiningTypes(str, types)
		joinArabic(types, levels, ar)
		Shape(DefaultFlags, levels, ar, str)
		k.check(string(str) == string(want), "%+q is shaped as %U, expected %U", s, str, want)
	}
}

func TestVerifB03(t *testing.T) {
	verifRun(t, "B03 tables", 1, b03Tables)
	verifRun(t, "B03", 40000, func(k *vcase) {
		n := k.Intn(12)
		if k.Intn(50) == 0 {
			n = 60
		}
		pool := b03Runes
		if k.Intn(3) == 0 { // a small alphabet: long runs
			pool = nil
			for i := 0; i < 4; i++ {
				pool = append(pool, b03Runes[k.Intn(len(b03Runes))])
			}
		}
		str := make([]rune, n)
		types := make([]CharType, n)
		levels := make([]Level, n)
		level := Level(k.Intn(4))
		change := 2 + k.Intn(12)
		for i := range str {
			str[i] = pool[k.Intn(len(pool))]
			switch k.Intn(40) {
			case 0:
				str[i] = rune(0x600 + k.Intn(0x300))
			case 1:
				str[i] = rune(k.Intn(0x11000))
			case 2:
				str[i] = rune(k.Intn(0x110000))
			}
			types[i] = GetBidiType(str[i])
			if k.Intn(change) == 0 {
				level = Level(k.Intn(5))
			}
			levels[i] = level
			if k.Intn(200) == 0 {
				levels[i] = Level(k.Intn(127))
			}
		}
		k.in("str %U", str)
		k.in("levels %v", levels)
		// joining types
		ar := getJoiningTypes(str, types)
		for i := range str {
			k.check(ar[i] == b03JoiningType(str[i], types[i]), "joining type of %U (%x): %d", str[i], types[i], ar[i])
		}
		if k.Intn(4) == 0 { // any joining types and classes
			for i := range ar {
				ar[i] = []JoiningType{U, R, D, C, L, T, G}[k.Intn(7)]
				if k.Intn(4) == 0 {
					types[i] = []CharType{BN, LRE, RLE, PDF, LRI, PDI, NSM, AL, ON}[k.Intn(9)]
				}
			}
		}
		for i, b := range getBracketTypes(str, types) {
			want := NoBracket
			if types[i] == ON {
				want = GetBracket(str[i])
			}
			k.check(b == want, "bracket type of %U is %x, expected %x", str[i], b, want)
		}
		k.in("types %x", types)
		k.in("joining types %d", ar)
		types0, levels0 := append([]CharType{}, types...), append([]Level{}, levels...)
		want := b03Join(types, levels, ar)
		joinArabic(types, levels, ar)
		for i := range ar {
			k.check(ar[i] == want[i], "joining: properties of character %d are %d, expected %d", i, ar[i], want[i])
			k.check(types[i] == types0[i] && levels[i] == levels0[i], "joining changed the types or the levels at %d", i)
		}
		// shaping
		flags := []Options{DefaultFlags, arabic, ShapeArabPres, ShapeArabLiga, ShapeMirroring, 0, ShapeMirroring | ShapeArabLiga, ReorderNSM, ShapeMirroring | ShapeArabPres}[k.Intn(9)]
		props := ar
		if k.Intn(5) == 0 {
			props = nil
		}
		k.in("flags %x, properties %d", flags, props)
		wantAr, wantStr := b03Shape(flags, levels, props, str)
		in := append([]rune{}, str...)
		Shape(flags, levels, props, in)
		for i := range in {
			k.check(in[i] == wantStr[i], "character %d is shaped as %U, expected %U", i, in[i], wantStr[i])
			k.check(levels[i] == levels0[i], "shaping changed the level %d", i)
		}
		for i := range props {
			k.check(props[i] == wantAr[i], "shaping: properties of character %d are %d, expected %d", i, props[i], wantAr[i])
		}
		// the whole
		base := ParType([]ParType{LTR, RTL, ON, WLTR, WRTL}[k.Intn(5)])
		k.in("whole text, base direction %x", base)
		text := append([]rune{}, str...)
		vis, max := LogicalToVisual(flags, text, &base)
		k.check(string(text) == string(str) && len(vis.Str) == n && len(vis.VisualToLogical) == n && len(vis.EmbeddingLevels) == n, "LogicalToVisual: lengths, or the text has changed")
		ty := getBidiTypes(str)
		b2 := base
		lv, _ := GetParEmbeddingLevels(ty, getBracketTypes(str, ty), &b2)
		props = getJoiningTypes(str, ty)
		_, wantStr = b03Shape(flags, lv, b03Join(ty, lv, props), str)
		seen := make([]bool, n)
		for i, l := range vis.VisualToLogical {
			k.check(l >= 0 && l < n && !seen[l], "VisualToLogical is not a permutation: %v", vis.VisualToLogical)
			seen[l] = true
			k.check(vis.Str[i] == wantStr[l], "visual character %d is %U, expected %U (logical %d)", i, vis.Str[i], wantStr[l], l)
			k.check(vis.EmbeddingLevels[i] < max, "level %d", vis.EmbeddingLevels[i])
		}
	})
}
