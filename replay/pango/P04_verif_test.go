package pango

import (
	"testing"
	"unicode"

	"github.com/benoitkugler/textlayout/harfbuzz"
)

// a run over [offset,offset+length), its clusters cut at random
func (k *vcase) v4run(offset, length int, rtl bool) *GlyphItem {
	g := &GlyphItem{Item: &Item{Offset: offset, Length: length}, Glyphs: &GlyphString{}}
	g.Item.Analysis.Level = 0
	if k.Intn(2) == 0 {
		g.Item.Analysis.Level = 2
	}
	if rtl {
		g.Item.Analysis.Level++
	}
	g.Item.Analysis.Flags = 0
	g.Item.Analysis.Gravity = Gravity(k.Intn(4))
	g.Item.Analysis.Script = Script(k.Intn(5))
	g.yOffset, g.startXOffset, g.endXOffset = Unit(k.Intn(9)), Unit(k.Intn(9)), Unit(k.Intn(9))
	for c := 0; c < length; {
		e := c + 1
		for e < length && k.Intn(3) == 0 {
			e++
		}
		for n := 1 + k.Intn(5)/3; n > 0; n-- {
			gl := GlyphInfo{Glyph: Glyph(100*c + n)}
			gl.Geometry.Width = Unit(k.Intn(3) * k.Intn(3000))
			gl.Geometry.XOffset = Unit(k.Intn(40) - 20)
			gl.attr.isClusterStart = true
			g.Glyphs.Glyphs = append(g.Glyphs.Glyphs, gl)
			g.Glyphs.LogClusters = append(g.Glyphs.LogClusters, c)
		}
		c = e
	}
	n := len(g.Glyphs.Glyphs)
	if k.Intn(2) == 0 { // same capacity for both
		g.Glyphs.Glyphs = append(make([]GlyphInfo, 0, n+k.Intn(4)), g.Glyphs.Glyphs...)
		g.Glyphs.LogClusters = append(make([]int, 0, cap(g.Glyphs.Glyphs)), g.Glyphs.LogClusters...)
	} else {
		g.Glyphs.Glyphs = g.Glyphs.Glyphs[:n:n]
		g.Glyphs.LogClusters = g.Glyphs.LogClusters[:n:n]
	}
	if rtl {
		for i := 0; i < n/2; i++ {
			a, b := i, n-1-i
			g.Glyphs.Glyphs[a], g.Glyphs.Glyphs[b] = g.Glyphs.Glyphs[b], g.Glyphs.Glyphs[a]
			g.Glyphs.LogClusters[a], g.Glyphs.LogClusters[b] = g.Glyphs.LogClusters[b], g.Glyphs.LogClusters[a]
		}
	}
	return g
}

// a font with the given extents
type v4font struct {
	Font
	ink, logical map[Glyph]Rectangle
}

func (f *v4font) GlyphExtents(glyph Glyph, inkRect, logicalRect *Rectangle) {
	if inkRect != nil {
		*inkRect = f.ink[glyph]
	}
	if logicalRect != nil {
		*logicalRect = f.logical[glyph]
	}
}

func (f *v4font) GetHarfbuzzFont() *harfbuzz.Font { return &harfbuzz.Font{} }

func (k *vcase) v4font(glyphs []Glyph) *v4font {
	f := &v4font{ink: map[Glyph]Rectangle{}, logical: map[Glyph]Rectangle{}}
	rect := func() Rectangle {
		r := Rectangle{Unit(k.Intn(40) - 20), Unit(k.Intn(40) - 30), Unit(k.Intn(30)), Unit(k.Intn(30))}
		if k.Intn(3) == 0 {
			r.Width = 0
		}
		if k.Intn(5) == 0 {
			r.Height = 0
		}
		return r
	}
	for _, g := range glyphs {
		f.ink[g], f.logical[g] = rect(), rect()
	}
	return f
}

func TestVerifP04(t *testing.T) {
	verifRun(t, "rounding", 4000*3, func(k *vcase) {
		u := Unit(k.Intn(1<<k.Intn(30)+1) - 1<<k.Intn(12))
		if k.Intn(2) == 0 {
			u = Unit(k.Intn(9)-4)*512 + Unit(k.Intn(3)-1)
		}
		k.in("%d", u)
		x := int64(u)
		floor := func(a int64) int64 {
			q := a / 1024
			if a%1024 < 0 {
				q--
			}
			return q
		}
		k.check(int64(u.Pixels()) == floor(x+512), "Pixels = %d", u.Pixels())
		k.check(int64(u.PixelsFloor()) == floor(x), "PixelsFloor = %d", u.PixelsFloor())
		k.check(int64(u.PixelsCeil()) == floor(x+1023), "PixelsCeil = %d", u.PixelsCeil())
		k.check(int64(u.Round()) == 1024*floor(x+512), "Round = %d", u.Round())
	})

	verifRun(t, "extents", 6000*3, func(k *vcase) {
		run := k.v4run(0, k.Intn(7), k.Intn(2) == 0)
		var ids []Glyph
		for i := range run.Glyphs.Glyphs {
			g := &run.Glyphs.Glyphs[i]
			g.Glyph = Glyph(k.Intn(8))
			g.Geometry.Width = Unit(k.Intn(50) - 5)
			g.Geometry.YOffset = Unit(k.Intn(30) - 15)
			ids = append(ids, g.Glyph)
		}
		font := k.v4font(ids)
		n := len(run.Glyphs.Glyphs)
		s := k.Intn(n + 1)
		e := s + k.Intn(n+1-s)
		whole := k.Intn(2) == 0
		if whole {
			s, e = 0, n
		}
		k.in("glyphs %v range %d-%d ink %v logical %v", run.Glyphs.Glyphs, s, e, font.ink, font.logical)
		var ink, logical Rectangle
		var none, hasInk = true, false
		x := Unit(0)
		top, bottom := Unit(0), Unit(0)
		var l, r, it, ib Unit
		for _, g := range run.Glyphs.Glyphs[s:e] {
			lr, ir := font.logical[g.Glyph], font.ink[g.Glyph]
			if none || lr.Y < top {
				top = lr.Y
			}
			if none || lr.Y+lr.Height > bottom {
				bottom = lr.Y + lr.Height
			}
			none = false
			if ir.Width != 0 && ir.Height != 0 {
				a, b := x+g.Geometry.XOffset+ir.X, g.Geometry.YOffset+ir.Y
				if !hasInk || a < l {
					l = a
				}
				if !hasInk || b < it {
					it = b
				}
				if !hasInk || a+ir.Width > r {
					r = a + ir.Width
				}
				if !hasInk || b+ir.Height > ib {
					ib = b + ir.Height
				}
				hasInk = true
			}
			x += g.Geometry.Width
		}
		wantLogical := Rectangle{0, top, x, bottom - top}
		wantInk := Rectangle{l, it, r - l, ib - it}
		ink, logical = Rectangle{1, 2, 3, 4}, Rectangle{5, 6, 7, 8}
		inkP, logicalP := &ink, &logical
		switch k.Intn(5) {
		case 0:
			inkP = nil
		case 1:
			logicalP = nil
		}
		if whole {
			run.Glyphs.Extents(font, inkP, logicalP)
		} else {
			run.Glyphs.extentsRange(s, e, font, inkP, logicalP)
		}
		k.check(logicalP == nil || logical == wantLogical, "logical %v, want %v", logical, wantLogical)
		k.check(inkP == nil || ink == wantInk, "ink %v, want %v", ink, wantInk)
	})

	verifRun(t, "padding", 4000*3, func(k *vcase) {
		run := k.v4run(0, k.Intn(7), k.Intn(2) == 0)
		for i := range run.Glyphs.Glyphs {
			run.Glyphs.Glyphs[i].Geometry.Width = Unit(k.Intn(3) * k.Intn(50))
		}
		before := append([]GlyphInfo{}, run.Glyphs.Glyphs...)
		adj, left := Unit(k.Intn(80)-50), k.Intn(2) == 0
		var state paraBreakState
		rem := Unit(k.Intn(100))
		state.remainingWidth = rem
		k.in("glyphs %v adjustment %d left %v", before, adj, left)
		at := -1
		for i := range before {
			if before[i].Geometry.Width != 0 && (at < 0 || !left) {
				at = i
			}
		}
		width := run.Glyphs.getWidth()
		if left {
			run.Glyphs.pad_glyphstring_left(&state, adj)
		} else {
			run.Glyphs.pad_glyphstring_right(&state, adj)
		}
		for i, g := range run.Glyphs.Glyphs {
			if i == at {
				w := before[i].Geometry.Width + adj
				x := before[i].Geometry.XOffset
				if left {
					x += adj
				} else if w < 0 {
					w = 0
				}
				before[i].Geometry.Width, before[i].Geometry.XOffset = w, x
			}
			k.check(g == before[i], "glyph %d is %v, want %v", i, g, before[i])
		}
		k.check(run.Glyphs.getWidth()+state.remainingWidth == width+rem, "the width of the line changes by %d", run.Glyphs.getWidth()+state.remainingWidth-width-rem)
	})

	verifRun(t, "positions", 8000*3, func(k *vcase) {
		run := k.v4run(0, 1+k.Intn(8), k.Intn(2) == 0)
		n := run.Item.Length
		text := make([]rune, n)
		rtl := run.Item.Analysis.Level%2 != 0
		run.Item.Analysis.Font = k.v4font(nil)
		var attrs []CharAttr
		if k.Intn(2) == 0 {
			attrs = make([]CharAttr, n+1)
			for i := range attrs {
				if k.Intn(3) != 0 {
					attrs[i] = CursorPosition
				}
			}
			for _, c := range run.Glyphs.LogClusters {
				attrs[c] = CursorPosition
			}
			attrs[n] = CursorPosition
		}
		var widths []Unit
		total := Unit(0)
		for _, g := range run.Glyphs.Glyphs {
			widths = append(widths, g.Geometry.Width)
			total += g.Geometry.Width
		}
		k.in("clusters %v widths %v rtl %v attributes %v", run.Glyphs.LogClusters, widths, rtl, attrs)
		x := func(i int, trailing bool) Unit {
			if attrs == nil && k.Intn(2) == 0 {
				return run.Glyphs.IndexToX(text, &run.Item.Analysis, i, trailing)
			}
			return run.Glyphs.indexToXFull(text, &run.Item.Analysis, i, trailing, attrs)
		}
		last := n
		for i := n - 1; i >= 0; i-- {
			if attrs != nil && !attrs[i].IsCursorPosition() {
				continue
			}
			k.check(x(i, true) == x(last, false), "character %d ends at %d, the next one starts at %d", i, x(i, true), x(last, false))
			last = i
		}
		start, end := Unit(0), total
		if rtl {
			start, end = end, start
		}
		k.check(x(0, false) == start && x(n, false) == end, "from %d to %d, want %d to %d", x(0, false), x(n, false), start, end)
		// each cluster is divided equally
		for _, c := range run.Glyphs.LogClusters {
			e, before, width := n, Unit(0), Unit(0)
			for j, d := range run.Glyphs.LogClusters {
				if d > c {
					e = min(e, d)
				}
				if d < c {
					before += widths[j]
				}
				if d == c {
					width += widths[j]
				}
			}
			a, b := before, before+width
			if rtl {
				a, b = total-a, total-b
			}
			chars, at := 0, 0
			for i := c; i < e; i++ {
				if attrs == nil || attrs[i].IsCursorPosition() {
					chars++
				}
			}
			for i := c; i < e; i++ {
				want := (Unit(chars-at)*a + Unit(at)*b) / Unit(chars)
				if attrs == nil || attrs[i].IsCursorPosition() {
					k.check(x(i, false) == want, "character %d starts at %d, want %d", i, x(i, false), want)
					at++
					want = (Unit(chars-at)*a + Unit(at)*b) / Unit(chars)
					k.check(x(i, true) == want, "character %d ends at %d, want %d", i, x(i, true), want)
				}
			}
		}
		// reversing
		gl, lc := append([]GlyphInfo{}, run.Glyphs.Glyphs...), append([]int{}, run.Glyphs.LogClusters...)
		run.Glyphs.reverse()
		for i := range gl {
			j := len(gl) - 1 - i
			k.check(run.Glyphs.Glyphs[j] == gl[i] && run.Glyphs.LogClusters[j] == lc[i], "glyph %d is lost by reverse", i)
		}
	})

	verifRun(t, "basic-shaping", 4000*3, func(k *vcase) {
		text := make([]rune, k.Intn(7))
		var ids []Glyph
		for i := range text {
			text[i] = []rune("aב\u0301\u200b\u05b0z ")[k.Intn(7)]
			ids = append(ids, AsUnknownGlyph(text[i]))
		}
		font := k.v4font(append(ids, GLYPH_EMPTY))
		str := &GlyphString{}
		for i := k.Intn(3); i > 0; i-- { // reuse
			str.setSize(k.Intn(9))
			for j := range str.Glyphs {
				str.Glyphs[j].Geometry = GlyphGeometry{3, 4, 5}
				str.LogClusters[j] = 77
			}
		}
		level := k.Intn(3)
		an := Analysis{Font: font}
		for i := 0; i < level; i++ {
			an.Level++
		}
		k.in("text %q level %d", string(text), level)
		if k.Intn(2) == 0 {
			str._pango_shape_shape(text, Rectangle{1, 2, 3, 4})
			k.check(len(str.Glyphs) == len(text) && len(str.LogClusters) == len(text), "%d glyphs", len(str.Glyphs))
			for i, g := range str.Glyphs {
				k.check(g == GlyphInfo{GLYPH_EMPTY, GlyphGeometry{Width: 3}, glyphVisAttr{isClusterStart: true}} || g.attr.isColor, "glyph %d is %v", i, g)
				k.check(str.LogClusters[i] == i, "cluster %d of %d", str.LogClusters[i], i)
			}
			return
		}
		str.fallbackShape(text, &an)
		k.check(len(str.Glyphs) == len(text) && len(str.LogClusters) == len(text), "%d glyphs", len(str.Glyphs))
		base := 0
		for i, r := range text {
			if !unicode.Is(unicode.Mn, r) {
				base = i
			}
			j := i
			if level%2 != 0 {
				j = len(text) - 1 - i
			}
			want := AsUnknownGlyph(r)
			if r == 0x200b {
				want = GLYPH_EMPTY
			}
			g := str.Glyphs[j]
			k.check(g.Glyph == want && str.LogClusters[j] == base, "character %d has the glyph %x in the cluster %d, want %x %d", i, g.Glyph, str.LogClusters[j], want, base)
			k.check(g.Geometry == GlyphGeometry{Width: font.logical[want].Width}, "glyph %d has the geometry %v", j, g.Geometry)
		}
	})
}
