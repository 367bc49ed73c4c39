package pango

import (
	"testing"
	"unicode"
)

// a run over text[offset:offset+length], its clusters cut at random
func (k *vcase) v2run(text []rune, offset, length int, rtl bool) *GlyphItem {
	g := &GlyphItem{Item: &Item{Offset: offset, Length: length}, Glyphs: &GlyphString{}}
	g.Item.Analysis.Level = 0
	if k.Intn(2) == 0 {
		g.Item.Analysis.Level = 2
	}
	if rtl {
		g.Item.Analysis.Level++
	}
	g.Item.Analysis.Flags = 0
	g.Item.Analysis.Gravity = Gravity(k.Intn(4))
	g.Item.Analysis.Script = Script(k.Intn(5))
	g.yOffset, g.startXOffset, g.endXOffset = Unit(k.Intn(9)), Unit(k.Intn(9)), Unit(k.Intn(9))
	for c := 0; c < length; {
		e := c + 1
		for e < length && k.Intn(3) == 0 {
			e++
		}
		for n := 1 + k.Intn(5)/3; n > 0; n-- {
			gl := GlyphInfo{Glyph: Glyph(100*c + n)}
			gl.Geometry.Width = Unit(k.Intn(3) * k.Intn(3000))
			gl.Geometry.XOffset = Unit(k.Intn(40) - 20)
			gl.attr.isClusterStart = true
			g.Glyphs.Glyphs = append(g.Glyphs.Glyphs, gl)
			g.Glyphs.LogClusters = append(g.Glyphs.LogClusters, c)
		}
		c = e
	}
	n := len(g.Glyphs.Glyphs)
	if k.Intn(2) == 0 { // same capacity for both
		g.Glyphs.Glyphs = append(make([]GlyphInfo, 0, n+k.Intn(4)), g.Glyphs.Glyphs...)
		g.Glyphs.LogClusters = append(make([]int, 0, cap(g.Glyphs.Glyphs)), g.Glyphs.LogClusters...)
	} else {
		g.Glyphs.Glyphs = g.Glyphs.Glyphs[:n:n]
		g.Glyphs.LogClusters = g.Glyphs.LogClusters[:n:n]
	}
	if rtl {
		for i := 0; i < n/2; i++ {
			a, b := i, n-1-i
			g.Glyphs.Glyphs[a], g.Glyphs.Glyphs[b] = g.Glyphs.Glyphs[b], g.Glyphs.Glyphs[a]
			g.Glyphs.LogClusters[a], g.Glyphs.LogClusters[b] = g.Glyphs.LogClusters[b], g.Glyphs.LogClusters[a]
		}
	}
	for i := k.Intn(3); i > 0; i-- {
		g.Item.Analysis.ExtraAttrs = append(g.Item.Analysis.ExtraAttrs, k.v2attr(len(text)))
	}
	return g
}

func (k *vcase) v2attr(span int) *Attribute {
	a := &Attribute{Kind: []AttrKind{ATTR_UNDERLINE, ATTR_STRIKETHROUGH, ATTR_FOREGROUND_ALPHA, ATTR_OVERLINE}[k.Intn(4)], Data: AttrInt(k.Intn(5))}
	a.StartIndex = k.Intn(span + 1)
	a.EndIndex = a.StartIndex + 1 + k.Intn(span+1-a.StartIndex)
	if k.Intn(6) == 0 {
		a.EndIndex = MaxInt
	}
	return a
}

type v2glyph struct {
	GlyphInfo
	char int // absolute
}

func v2glyphs(g *GlyphItem) (out []v2glyph) {
	for i, gl := range g.Glyphs.Glyphs {
		out = append(out, v2glyph{gl, g.Glyphs.LogClusters[i] + g.Item.Offset})
	}
	return out
}

func v2sameGlyphs(a, b []v2glyph) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type v2attrs []Attribute

func v2list(l AttrList) (out v2attrs) {
	for _, a := range l {
		out = append(out, *a)
	}
	return out
}

func v2same(a, b v2attrs) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func v2analysis(a, b Analysis) bool {
	return a.Font == b.Font && a.Language == b.Language && a.Script == b.Script && a.Level == b.Level && a.Gravity == b.Gravity && a.Flags == b.Flags
}

// distinct attributes, and lists that do not overlap in memory
func (k *vcase) v2distinct(a, b AttrList) {
	for _, x := range a {
		for _, y := range b {
			k.check(x != y, "the pieces share an attribute")
		}
	}
	before := v2list(a)
	_ = append(b, &Attribute{})
	k.check(v2same(before, v2list(a)), "the pieces share their list")
	if len(b) > 0 {
		old := b[0]
		b[0] = &Attribute{}
		k.check(v2same(before, v2list(a)), "the pieces share their list")
		b[0] = old
	}
}

func TestVerifP02(t *testing.T) {
	verifRun(t, "copy-split-items", 3000*3, func(k *vcase) {
		text := make([]rune, 12)
		it := k.v2run(text, k.Intn(5), 1+k.Intn(8), k.Intn(2) == 0).Item
		ref, refAttrs := *it, v2list(it.Analysis.ExtraAttrs)
		cp := it.copy()
		k.check(cp != it && cp.Offset == it.Offset && cp.Length == it.Length && v2analysis(cp.Analysis, it.Analysis) && v2same(v2list(cp.Analysis.ExtraAttrs), refAttrs), "copy of %v is %v", *it, *cp)
		k.v2distinct(it.Analysis.ExtraAttrs, cp.Analysis.ExtraAttrs)
		at := k.Intn(it.Length+3) - 1
		k.in("item [%d,+%d) split at %d", it.Offset, it.Length, at)
		left := it.split(at)
		if at <= 0 || at >= ref.Length {
			k.check(left == nil && it.Offset == ref.Offset && it.Length == ref.Length, "the split is not refused")
		} else {
			k.check(left != nil && left.Offset == ref.Offset && left.Length == at && it.Offset == ref.Offset+at && it.Length == ref.Length-at, "pieces %v %v", left, it)
			k.check(v2analysis(left.Analysis, ref.Analysis) && v2analysis(it.Analysis, ref.Analysis), "the pieces lost their analysis")
			k.check(v2same(v2list(left.Analysis.ExtraAttrs), refAttrs) && v2same(v2list(it.Analysis.ExtraAttrs), refAttrs), "the pieces lost their attributes")
			k.v2distinct(it.Analysis.ExtraAttrs, left.Analysis.ExtraAttrs)
			it.unSplit(at)
			k.check(it.Offset == ref.Offset && it.Length == ref.Length, "unSplit gives [%d,+%d)", it.Offset, it.Length)
		}
		k.check((*Item)(nil).copy() == nil, "copy of nil")

		var tabs TabArray
		for i := k.Intn(4); i > 0; i-- {
			tabs.Tabs = append(tabs.Tabs, Tab{Unit(k.Intn(50)), TabAlign(k.Intn(4)), rune(k.Intn(60))})
		}
		tabs.PositionsInPixels = k.Intn(2) == 0
		tc := tabs.Copy()
		k.check(tc != &tabs && tc.PositionsInPixels == tabs.PositionsInPixels && len(tc.Tabs) == len(tabs.Tabs), "copy of the tabs")
		for i := range tc.Tabs {
			k.check(tc.Tabs[i] == tabs.Tabs[i], "tab %d changed by the copy", i)
			tc.Tabs[i].Location++
			k.check(tc.Tabs[i] != tabs.Tabs[i], "the copy shares its tabs")
		}
		tc.PositionsInPixels = !tc.PositionsInPixels
		k.check(tc.PositionsInPixels != tabs.PositionsInPixels, "the copy is the receiver")
		k.check((*TabArray)(nil).Copy() == nil, "copy of nil tabs")
	})

	verifRun(t, "split-runs", 6000*3, func(k *vcase) {
		text := make([]rune, 16)
		run := k.v2run(text, k.Intn(5), 1+k.Intn(10), k.Intn(2) == 0)
		rtl := run.Item.Analysis.Level%2 != 0
		ref, refAttrs, glyphs := *run.Item, v2list(run.Item.Analysis.ExtraAttrs), v2glyphs(run)
		yo, sx, ex := run.yOffset, run.startXOffset, run.endXOffset
		at := k.Intn(run.Item.Length+3) - 1
		k.in("run [%d,+%d) rtl %v clusters %v split at %d", ref.Offset, ref.Length, rtl, run.Glyphs.LogClusters, at)
		// the first boundary from the index on
		want := ref.Length
		for _, c := range run.Glyphs.LogClusters {
			if c >= at && c < want {
				want = c
			}
		}
		left := run.split(text, at)
		if at <= 0 || want >= ref.Length {
			k.check(left == nil, "the split is not refused")
			k.check(run.Item.Offset == ref.Offset && run.Item.Length == ref.Length && v2sameGlyphs(v2glyphs(run), glyphs), "a refused split changes the run")
			k.check(run.yOffset == yo && run.startXOffset == sx && run.endXOffset == ex, "a refused split moves the run")
			return
		}
		k.check(left != nil, "the split is refused")
		k.check(left.Item.Offset == ref.Offset && left.Item.Length == want && run.Item.Offset == ref.Offset+want && run.Item.Length == ref.Length-want, "pieces [%d,+%d) [%d,+%d), want a cut at %d", left.Item.Offset, left.Item.Length, run.Item.Offset, run.Item.Length, want)
		all := append(v2glyphs(left), v2glyphs(run)...)
		if rtl {
			all = append(v2glyphs(run), v2glyphs(left)...)
		}
		k.check(v2sameGlyphs(all, glyphs), "the pieces have the glyphs %v, the run had %v", all, glyphs)
		for _, c := range left.Glyphs.LogClusters {
			k.check(0 <= c && c < want, "cluster %d outside the first piece", c)
		}
		for _, c := range run.Glyphs.LogClusters {
			k.check(0 <= c && c < ref.Length-want, "cluster %d outside the second piece", c)
		}
		for _, p := range []*GlyphItem{left, run} {
			k.check(v2analysis(p.Item.Analysis, ref.Analysis) && v2same(v2list(p.Item.Analysis.ExtraAttrs), refAttrs), "a piece lost its analysis")
		}
		k.v2distinct(run.Item.Analysis.ExtraAttrs, left.Item.Analysis.ExtraAttrs)
		k.check(left.yOffset == yo && run.yOffset == yo && left.startXOffset == sx, "the pieces lost their offsets")
		second := v2glyphs(run)
		for i := range left.Glyphs.Glyphs {
			left.Glyphs.Glyphs[i].Geometry.Width++
			left.Glyphs.LogClusters[i] += 7
		}
		k.check(v2sameGlyphs(second, v2glyphs(run)), "the pieces share their glyphs")
	})

	verifRun(t, "apply-attributes", 6000*3, func(k *vcase) {
		text := make([]rune, 16)
		run := k.v2run(text, k.Intn(4), 1+k.Intn(10), k.Intn(2) == 0)
		rtl := run.Item.Analysis.Level%2 != 0
		if k.Intn(12) == 0 {
			run.Item.Analysis.Flags |= AFIsEllipsis
		}
		ellipsis := run.Item.Analysis.Flags&AFIsEllipsis != 0
		ref, refAttrs, glyphs := *run.Item, v2list(run.Item.Analysis.ExtraAttrs), v2glyphs(run)
		var list AttrList
		for i := k.Intn(5); i > 0; i-- {
			list.Insert(k.v2attr(15))
		}
		k.in("run [%d,+%d) rtl %v clusters %v attributes %v", ref.Offset, ref.Length, rtl, run.Glyphs.LogClusters, v2list(list))
		inList := v2list(list)
		// the ranges of the list, and what is in effect in each
		var cuts []int
		for c := 0; c <= 16; c++ {
			for _, a := range inList {
				if a.StartIndex < a.EndIndex && (a.StartIndex == c || a.EndIndex == c) {
					cuts = append(cuts, c)
					break
				}
			}
		}
		effect := func(at int) (out v2attrs) {
			for i, a := range inList {
				if a.StartIndex <= at && at < a.EndIndex {
					last := true
					for _, b := range inList[i+1:] {
						if b.Kind == a.Kind && b.StartIndex <= at && at < b.EndIndex {
							last = false
						}
					}
					if last {
						out = append(out, a)
					}
				}
			}
			return out
		}
		var clusters [][2]int
		for c := ref.Offset; c < ref.Offset+ref.Length; {
			e := ref.Offset + ref.Length
			for _, g := range glyphs {
				if g.char > c && g.char < e {
					e = g.char
				}
			}
			clusters = append(clusters, [2]int{c, e})
			c = e
		}
		inside := func(c [2]int) bool {
			for _, x := range cuts {
				if c[0] < x && x < c[1] {
					return true
				}
			}
			return false
		}
		// maximal sequences of clusters without a change, a cluster with a change alone
		type piece struct {
			s, e  int
			attrs v2attrs
		}
		var want []piece
		if ellipsis {
			want = []piece{{ref.Offset, ref.Offset + ref.Length, effect(ref.Offset)}}
		} else {
			for i, c := range clusters {
				cut := i == 0 || inside(c) || inside(clusters[i-1])
				for _, x := range cuts {
					cut = cut || x == c[0]
				}
				if cut {
					p := piece{c[0], c[1], effect(c[0])}
					for _, x := range cuts {
						if c[0] < x && x < c[1] {
							p.attrs = append(p.attrs, effect(x)...)
						}
					}
					want = append(want, p)
				} else {
					want[len(want)-1].e = c[1]
				}
			}
		}
		var runs []*GlyphItem
		var all []v2glyph
		for l := run.pango_glyph_item_apply_attrs(text, list); l != nil; l = l.Next {
			runs = append(runs, l.Data)
			all = append(all, v2glyphs(l.Data)...)
		}
		k.check(v2same(v2list(list), inList), "the list of attributes is changed")
		k.check(v2sameGlyphs(all, glyphs), "the runs have the glyphs %v, the run had %v", all, glyphs)
		k.check(len(runs) == len(want), "%d runs, want %v", len(runs), want)
		for i, r := range runs {
			w := want[i]
			if rtl {
				w = want[len(want)-1-i]
			}
			k.check(r.Item.Offset == w.s && r.Item.Offset+r.Item.Length == w.e, "run %d is [%d,+%d), want %v", i, r.Item.Offset, r.Item.Length, w)
			k.check(v2analysis(r.Item.Analysis, ref.Analysis), "run %d lost its analysis", i)
			got := v2list(r.Item.Analysis.ExtraAttrs)
			k.check(v2same(got, append(append(v2attrs{}, refAttrs...), w.attrs...)), "run %d has the attributes %v, want %v then %v", i, got, refAttrs, w.attrs)
		}
	})

	verifRun(t, "small-caps", 4000*3, func(k *vcase) {
		n := 1 + k.Intn(9)
		text := make([]rune, n+3)
		attrs := make([]CharAttr, len(text)+1)
		for i := range text {
			text[i] = []rune("abEF 1é")[k.Intn(7)]
			if i > 0 && unicode.IsLetter(text[i]) && !unicode.IsLetter(text[i-1]) || i == 0 && unicode.IsLetter(text[i]) {
				attrs[i] |= WordStart
			}
		}
		off := k.Intn(3)
		item := &Item{Offset: off, Length: n}
		transform := []TextTransform{TEXT_TRANSFORM_NONE, TEXT_TRANSFORM_LOWERCASE, TEXT_TRANSFORM_UPPERCASE, TEXT_TRANSFORM_CAPITALIZE}[k.Intn(4)]
		if transform != TEXT_TRANSFORM_NONE {
			item.Analysis.ExtraAttrs = AttrList{NewAttrTextTransform(transform)}
		}
		var before v2attrs
		before = v2list(item.Analysis.ExtraAttrs)
		variant := []Variant{VARIANT_SMALL_CAPS, VARIANT_ALL_SMALL_CAPS, VARIANT_PETITE_CAPS, VARIANT_ALL_PETITE_CAPS, VARIANT_UNICASE, VARIANT_TITLE_CAPS, VARIANT_NORMAL}[k.Intn(7)]
		tail := &Item{Offset: off + n, Length: 1}
		l := &ItemList{Data: item, Next: &ItemList{Data: tail}}
		k.in("text %q item [%d,+%d) variant %v transform %v", string(text), off, n, variant, transform)
		splitItemForVariant(text, attrs, variant, l)
		// shown in lower case
		lower := func(i int) bool {
			r := text[i]
			switch transform {
			case TEXT_TRANSFORM_LOWERCASE:
				return true
			case TEXT_TRANSFORM_UPPERCASE:
				return false
			case TEXT_TRANSFORM_CAPITALIZE:
				return unicode.IsLower(r) && attrs[i]&WordStart == 0
			}
			return unicode.IsLower(r)
		}
		at := off
		for ; l != nil && l.Data.Offset < off+n; l = l.Next {
			it := l.Data
			k.check(it.Offset == at && it.Length > 0, "item [%d,+%d) after %d", it.Offset, it.Length, at)
			at += it.Length
			var scale, upper bool
			got := v2list(it.Analysis.ExtraAttrs)
			k.check(len(got) >= len(before) && v2same(got[:len(before)], before), "item [%d,+%d) lost its attributes: %v", it.Offset, it.Length, got)
			for _, a := range got[len(before):] {
				k.check(a.StartIndex == it.Offset && a.EndIndex == it.Offset+it.Length, "attribute %v on the item [%d,+%d)", a, it.Offset, it.Length)
				scale = scale || a.Kind == ATTR_FONT_SCALE
				upper = upper || a.Kind == ATTR_TEXT_TRANSFORM
			}
			for i := it.Offset; i < it.Offset+it.Length; i++ {
				if considerAsSpace(text[i]) {
					continue
				}
				lo := lower(i)
				wantUpper := lo && variant != VARIANT_UNICASE && variant != VARIANT_TITLE_CAPS && variant != VARIANT_NORMAL
				wantScale := wantUpper || !lo && (variant == VARIANT_ALL_SMALL_CAPS || variant == VARIANT_ALL_PETITE_CAPS || variant == VARIANT_UNICASE)
				k.check(scale == wantScale && upper == wantUpper, "%q at %d: scaled %v, set in upper case %v; want %v, %v", text[i], i, scale, upper, wantScale, wantUpper)
			}
		}
		k.check(at == off+n, "the items stop at %d", at)
		k.check(l != nil && l.Data == tail && l.Next == nil, "the next item is lost")
	})
}
