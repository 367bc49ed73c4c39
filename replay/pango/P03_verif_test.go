package pango

import "testing"

// a run over [offset,offset+length), its clusters cut at random
func (k *vcase) v3run(offset, length int, rtl bool) *GlyphItem {
	g := &GlyphItem{Item: &Item{Offset: offset, Length: length}, Glyphs: &GlyphString{}}
	g.Item.Analysis.Level = 0
	if k.Intn(2) == 0 {
		g.Item.Analysis.Level = 2
	}
	if rtl {
		g.Item.Analysis.Level++
	}
	g.Item.Analysis.Flags = 0
	g.Item.Analysis.Gravity = Gravity(k.Intn(4))
	g.Item.Analysis.Script = Script(k.Intn(5))
	g.yOffset, g.startXOffset, g.endXOffset = Unit(k.Intn(9)), Unit(k.Intn(9)), Unit(k.Intn(9))
	for c := 0; c < length; {
		e := c + 1
		for e < length && k.Intn(3) == 0 {
			e++
		}
		for n := 1 + k.Intn(5)/3; n > 0; n-- {
			gl := GlyphInfo{Glyph: Glyph(100*c + n)}
			gl.Geometry.Width = Unit(k.Intn(3) * k.Intn(3000))
			gl.Geometry.XOffset = Unit(k.Intn(40) - 20)
			gl.attr.isClusterStart = true
			g.Glyphs.Glyphs = append(g.Glyphs.Glyphs, gl)
			g.Glyphs.LogClusters = append(g.Glyphs.LogClusters, c)
		}
		c = e
	}
	n := len(g.Glyphs.Glyphs)
	if k.Intn(2) == 0 { // same capacity for both
		g.Glyphs.Glyphs = append(make([]GlyphInfo, 0, n+k.Intn(4)), g.Glyphs.Glyphs...)
		g.Glyphs.LogClusters = append(make([]int, 0, cap(g.Glyphs.Glyphs)), g.Glyphs.LogClusters...)
	} else {
		g.Glyphs.Glyphs = g.Glyphs.Glyphs[:n:n]
		g.Glyphs.LogClusters = g.Glyphs.LogClusters[:n:n]
	}
	if rtl {
		for i := 0; i < n/2; i++ {
			a, b := i, n-1-i
			g.Glyphs.Glyphs[a], g.Glyphs.Glyphs[b] = g.Glyphs.Glyphs[b], g.Glyphs.Glyphs[a]
			g.Glyphs.LogClusters[a], g.Glyphs.LogClusters[b] = g.Glyphs.LogClusters[b], g.Glyphs.LogClusters[a]
		}
	}
	return g
}

type v3cluster struct {
	chars  [2]int // relative to the item
	glyphs [2]int // in visual order
}

// in the order of the text
func v3clusters(g *GlyphItem) (out []v3cluster) {
	n := len(g.Glyphs.Glyphs)
	for i := 0; i < n; {
		j := i
		for j < n && g.Glyphs.LogClusters[j] == g.Glyphs.LogClusters[i] {
			j++
		}
		out = append(out, v3cluster{[2]int{g.Glyphs.LogClusters[i], 0}, [2]int{i, j}})
		i = j
	}
	if !g.LTR() {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	for i := range out {
		out[i].chars[1] = g.Item.Length
		if i+1 < len(out) {
			out[i].chars[1] = out[i+1].chars[0]
		}
	}
	return out
}

func (k *vcase) v3at(it *GlyphItemIter, g *GlyphItem, c v3cluster) {
	s, e := c.glyphs[0], c.glyphs[1]
	if !g.LTR() {
		s, e = e-1, s-1
	}
	k.check(it.startGlyph == s && it.endGlyph == e, "glyphs %d-%d, want %d-%d", it.startGlyph, it.endGlyph, s, e)
	k.check(it.StartChar == c.chars[0] && it.EndChar == c.chars[1], "characters %d-%d, want %v", it.StartChar, it.EndChar, c.chars)
	k.check(it.StartIndex == g.Item.Offset+c.chars[0] && it.EndIndex == g.Item.Offset+c.chars[1], "indexes %d-%d, want %v from %d", it.StartIndex, it.EndIndex, c.chars, g.Item.Offset)
}

func TestVerifP03(t *testing.T) {
	verifRun(t, "iterators", 6000*3, func(k *vcase) {
		g := k.v3run(k.Intn(6), k.Intn(10), k.Intn(2) == 0)
		clusters := v3clusters(g)
		text := make([]rune, 20)
		k.in("run [%d,+%d) rtl %v clusters %v", g.Item.Offset, g.Item.Length, !g.LTR(), g.Glyphs.LogClusters)
		var it GlyphItemIter
		n := 0
		for ok := it.InitStart(g, text); ok; ok = it.NextCluster() {
			k.check(n < len(clusters), "cluster after the last one")
			k.v3at(&it, g, clusters[n])
			n++
		}
		k.check(n == len(clusters), "%d clusters forward, want %v", n, clusters)
		for ok := it.InitEnd(g, text); ok; ok = it.PrevCluster() {
			n--
			k.check(n >= 0, "cluster before the first one")
			k.v3at(&it, g, clusters[n])
		}
		k.check(n == 0, "%d clusters missing backward, of %v", n, clusters)
		// any mixture
		at := 0
		ok := it.InitStart(g, text)
		if k.Intn(2) == 0 {
			ok, at = it.InitEnd(g, text), len(clusters)-1
		}
		for i := 0; i < 20 && len(clusters) > 0; i++ {
			k.check(ok, "no cluster %d of %v", at, clusters)
			k.v3at(&it, g, clusters[at])
			saved := it
			if k.Intn(2) == 0 {
				ok = it.NextCluster()
				at++
			} else {
				ok = it.PrevCluster()
				at--
			}
			if at < 0 || at == len(clusters) {
				k.check(!ok, "a cluster beyond the ends")
				k.check(it.StartChar == saved.StartChar && it.EndChar == saved.EndChar && it.startGlyph == saved.startGlyph && it.endGlyph == saved.endGlyph && it.StartIndex == saved.StartIndex && it.EndIndex == saved.EndIndex, "the iterator moved beyond the ends")
				ok = true
				at = max(0, min(at, len(clusters)-1))
			}
		}
	})

	verifRun(t, "widths", 6000*3, func(k *vcase) {
		g := k.v3run(k.Intn(6), k.Intn(10), k.Intn(2) == 0)
		for i := range g.Glyphs.Glyphs {
			if k.Intn(3) == 0 {
				g.Glyphs.Glyphs[i].Geometry.Width = Unit(k.Intn(6000) - 3000)
			}
		}
		clusters := v3clusters(g)
		text := make([]rune, 20)
		var widths []Unit
		total := Unit(0)
		for i := range g.Glyphs.Glyphs {
			widths = append(widths, g.Glyphs.Glyphs[i].Geometry.Width)
			total += widths[i]
		}
		k.in("run [%d,+%d) rtl %v clusters %v widths %v", g.Item.Offset, g.Item.Length, !g.LTR(), g.Glyphs.LogClusters, widths)
		k.check(g.Glyphs.getWidth() == total, "width %d, want %d", g.Glyphs.getWidth(), total)
		lw := g.GetLogicalWidths(text)
		given := make([]Unit, g.Item.Length)
		for i := range given {
			given[i] = Unit(k.Intn(50))
		}
		g.getLogicalWidths(text, given)
		k.check(len(lw) == g.Item.Length, "%d logical widths", len(lw))
		sum := Unit(0)
		for _, c := range clusters {
			var w Unit
			for _, x := range widths[c.glyphs[0]:c.glyphs[1]] {
				w += x
			}
			n := Unit(c.chars[1] - c.chars[0])
			for i := c.chars[0]; i < c.chars[1]; i++ {
				want := w / n
				if i == c.chars[0] {
					want += w % n
				}
				k.check(lw[i] == want && given[i] == want, "character %d is %d (%d) wide, want %d", i, lw[i], given[i], want)
				sum += lw[i]
			}
		}
		k.check(sum == total, "the logical widths sum to %d, the run is %d wide", sum, total)
		for i := range widths {
			k.check(g.Glyphs.Glyphs[i].Geometry.Width == widths[i], "glyph %d is changed", i)
		}
	})

	verifRun(t, "letter-spacing", 6000*3, func(k *vcase) {
		g := k.v3run(k.Intn(6), k.Intn(10), k.Intn(2) == 0)
		clusters := v3clusters(g)
		text := make([]rune, 20)
		attrs := make([]CharAttr, g.Item.Length+1)
		all := true
		for i := range attrs {
			if k.Intn(6) != 0 {
				attrs[i] = CursorPosition
			}
		}
		for _, c := range clusters {
			all = all && attrs[c.chars[0]].IsCursorPosition()
		}
		spacing := Unit(k.Intn(2000) - 400)
		if k.Intn(3) == 0 {
			spacing = Unit(k.Intn(5)) * Scale
		}
		before := append([]GlyphInfo{}, g.Glyphs.Glyphs...)
		lc := append([]int{}, g.Glyphs.LogClusters...)
		k.in("run [%d,+%d) rtl %v clusters %v attributes %v spacing %d", g.Item.Offset, g.Item.Length, !g.LTR(), lc, attrs, spacing)
		width := g.Glyphs.getWidth()
		g.letterSpace(text, attrs, spacing)
		left := spacing / 2
		if spacing%Scale == 0 {
			left = left.Round()
		}
		right := spacing - left
		for i, gl := range g.Glyphs.Glyphs {
			k.check(gl.Glyph == before[i].Glyph && gl.Geometry.YOffset == before[i].Geometry.YOffset && gl.attr == before[i].attr && g.Glyphs.LogClusters[i] == lc[i], "glyph %d is changed", i)
		}
		for _, c := range clusters {
			var padLeft, padRight Unit
			cursor := attrs[c.chars[0]].IsCursorPosition()
			if cursor {
				if g.LTR() && c.chars[0] > 0 || !g.LTR() && c.chars[1] < g.Item.Length {
					padLeft = left
				}
				if g.LTR() && c.chars[1] < g.Item.Length || !g.LTR() && c.chars[0] > 0 {
					padRight = right
				}
			}
			var x, x0 Unit
			for i := c.glyphs[0]; i < c.glyphs[1]; i++ {
				if cursor {
					k.check(x+g.Glyphs.Glyphs[i].Geometry.XOffset == x0+before[i].Geometry.XOffset+padLeft, "glyph %d is drawn at %d in its cluster, want %d+%d", i, x+g.Glyphs.Glyphs[i].Geometry.XOffset, x0+before[i].Geometry.XOffset, padLeft)
				}
				x += g.Glyphs.Glyphs[i].Geometry.Width
				x0 += before[i].Geometry.Width
			}
			k.check(x == x0+padLeft+padRight, "cluster %v is %d wide, want %d+%d+%d", c, x, x0, padLeft, padRight)
		}
		if all && len(clusters) > 0 {
			k.check(g.Glyphs.getWidth() == width+spacing*Unit(len(clusters)-1), "width %d for %d clusters, was %d", g.Glyphs.getWidth(), len(clusters), width)
		}
	})
}
