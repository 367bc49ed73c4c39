package fontconfig

import (
	"math"
	"sort"
	"strings"
	"testing"
)

// an independent reading of the scoring rules, on integral distances

var v4langs = []string{"fr", "en", "de", "pt-br", "pt-pt", "zh-cn", "zh-tw", "ja"}

func v4fold(s String) string { return strings.ToLower(strings.Replace(string(s), " ", "", -1)) }

func v4set(cs Charset) map[rune]bool {
	out := map[rune]bool{}
	for r := rune(0); r < 1024; r++ {
		if cs.HasChar(r) {
			out[r] = true
		}
	}
	return out
}

func v4dist(o Object, a, b Value) (best Value, d float64) {
	switch o {
	case STYLE, FOUNDRY:
		if !strings.EqualFold(string(a.(String)), string(b.(String))) {
			d = 1
		}
		return b, d
	case FAMILY:
		if v4fold(a.(String)) != v4fold(b.(String)) {
			d = 1
		}
		return b, d
	case SLANT, SPACING, FONTVERSION:
		x, okx := a.(Int)
		y, oky := b.(Int)
		if !okx || !oky {
			return nil, -1
		}
		return b, math.Abs(float64(x) - float64(y))
	case SCALABLE, OUTLINE, COLOR, DECORATIVE:
		if a.(Bool) != b.(Bool) {
			d = 1
		}
		if b.(Bool) == DontCare {
			return a, d
		}
		return b, d
	case WEIGHT, WIDTH:
		b1, e1, _ := v4interval(a)
		b2, e2, _ := v4interval(b)
		switch {
		case e1 < b2:
			return Float(b2), float64(b2 - e1)
		case e2 < b1:
			return Float(e2), float64(b1 - e2)
		}
		lo, hi := math.Max(float64(b1), float64(b2)), math.Min(float64(e1), float64(e2))
		return Float((lo + hi) / 2), 0
	case CHARSET:
		have := v4set(b.(Charset))
		for r := range v4set(a.(Charset)) {
			if !have[r] {
				d++
			}
		}
		return b, d
	case LANG:
		_, f := compareLang(a, b) // decided by another property
		return b, float64(f)
	}
	panic("unexpected object")
}

func v4interval(v Value) (b, e float32, ok bool) {
	switch v := v.(type) {
	case Int:
		return float32(v), float32(v), true
	case Float:
		return float32(v), float32(v), true
	case Range:
		return v.Begin, v.End, true
	}
	return 0, 0, false
}

// the objects of the scores, the most significant first
var v4prio = []Object{SCALABLE, COLOR, FOUNDRY, CHARSET, FAMILY, LANG, invalid /* weak family */, SPACING, STYLE, SLANT, WEIGHT, WIDTH, DECORATIVE, OUTLINE, FONTVERSION}

const v4max = math.MaxFloat32

// nil if a comparison is impossible
func v4score(p, f Pattern) []float64 {
	out := make([]float64, len(v4prio))
	for i, o := range v4prio {
		pl, fl := p.getVals(o), f.getVals(o)
		if o == invalid || len(pl) == 0 || len(fl) == 0 {
			continue
		}
		if o == FAMILY {
			strong, weak := v4max, v4max
			for j, a := range pl {
				for _, b := range fl {
					if v4fold(a.Value.(String)) == v4fold(b.Value.(String)) {
						if a.Binding == vbWeak {
							weak = math.Min(weak, float64(j))
						} else {
							strong = math.Min(strong, float64(j))
						}
					}
				}
			}
			out[i], out[i+2] = strong, weak
			continue
		}
		best := v4max
		for j, a := range pl {
			for _, b := range fl {
				_, d := v4dist(o, a.Value, b.Value)
				if d < 0 {
					return nil
				}
				best = math.Min(best, d*1000+float64(j))
			}
		}
		out[i] = best
	}
	return out
}

func v4less(a, b []float64) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

var v4names = []String{"Arial", "arial", "DejaVu Sans", "dejavusans", "Times", "Noto Sans", "Noto", "", "Bold", "bold"}

func (k *vcase) v4value(o Object, font bool) Value {
	switch o {
	case FAMILY, STYLE, FOUNDRY:
		return v4names[k.Intn(len(v4names))]
	case SLANT, SPACING, FONTVERSION:
		return Int(k.Intn(5))
	case SCALABLE, OUTLINE, COLOR, DECORATIVE:
		return Bool(k.Intn(3))
	case WEIGHT, WIDTH:
		b := float32(k.Intn(6) * 10)
		switch k.Intn(4) {
		case 0:
			return Range{Begin: b, End: b + float32(k.Intn(3)*20)}
		case 1:
			return Int(b)
		}
		return Float(b)
	case CHARSET:
		var cs Charset
		for i := k.Intn(6); i > 0; i-- {
			cs.AddChar(rune(k.Intn(4)*200 + k.Intn(3)))
		}
		return cs
	case LANG:
		if font {
			l := []string{}
			for i := 1 + k.Intn(3); i > 0; i-- {
				l = append(l, v4langs[k.Intn(len(v4langs))])
			}
			return NewLangset(strings.Join(l, "|"))
		}
		return String(v4langs[k.Intn(len(v4langs))])
	}
	panic("unexpected object")
}

func (k *vcase) v4pattern(font bool) Pattern {
	p := NewPattern()
	for _, o := range v4prio {
		if o == invalid || o == FONTVERSION || k.Intn(3) == 0 {
			continue
		}
		n := 1
		if !font || o == FAMILY {
			n += k.Intn(3)
		}
		if o == CHARSET || (font && o == LANG) {
			n = 1
		}
		for ; n > 0; n-- {
			binding := vbStrong
			if k.Intn(3) == 0 {
				binding = vbWeak
			} else if k.Intn(5) == 0 {
				binding = vbSame
			}
			p.addWithBinding(o, k.v4value(o, font), binding, true)
		}
	}
	return p
}

func TestVerifF04(t *testing.T) {
	verifRun(t, "best match", 4000, func(k *vcase) {
		p := k.v4pattern(false)
		set := make(Fontset, k.Intn(7))
		for i := range set {
			if i > 0 && k.Intn(4) == 0 {
				set[i] = set[k.Intn(i)].Duplicate() // an equal score
				set[i].Del(INDEX)
			} else {
				set[i] = k.v4pattern(true)
			}
			set[i].AddInt(INDEX, int32(i))
			if p[SLANT] != nil && k.Intn(60) == 0 { // not comparable
				set[i][SLANT] = &valueList{{Value: String("x")}}
			}
		}
		k.in("pattern: %s", p)
		for i, f := range set {
			k.in("font %d: %s", i, f)
		}
		want, failed := -1, false
		var best []float64
		for i, f := range set {
			s := v4score(p, f)
			if s == nil {
				failed = true
				break
			}
			if want == -1 || v4less(s, best) {
				want, best = i, s
			}
		}
		before := p.Duplicate()
		got := set.matchInternal(p)
		same := len(p) == len(before)
		for o, l := range before {
			same = same && v4sameValues(*l, p.getVals(o))
		}
		k.check(same, "the pattern is changed to %s", p)
		if failed || want == -1 {
			k.check(got == nil, "match = %s without comparable font", got)
			k.check(set.Match(p, NewConfig()) == nil, "Match returns a pattern without comparable font")
			return
		}
		k.check(got != nil, "no match")
		k.check(got.GetIntAt(k, INDEX) == set[want].GetIntAt(k, INDEX), "match = %s, expected font %d", got, want)
		// the rendered pattern
		r := set.Match(p, NewConfig())
		font := set[want]
		for o := range font {
			if o == FAMILY && p[o] == nil || p[o] == nil {
				k.check(v4sameValues(r.getVals(o), font.getVals(o)), "object %s only in the font: %v", o, r.getVals(o))
				continue
			}
			bestV, bestD := Value(nil), math.Inf(1)
			for j, a := range p.getVals(o) {
				for _, b := range font.getVals(o) {
					v, d := v4dist(o, a.Value, b.Value)
					if d*1000+float64(j) < bestD {
						bestV, bestD = v, d*1000+float64(j)
					}
				}
			}
			k.check(v4sameValues(r.getVals(o), valueList{{Value: bestV}}), "object %s of both patterns: %v, expected %v", o, r.getVals(o), bestV)
		}
		for o := range p {
			if font[o] == nil {
				k.check(v4sameValues(r.getVals(o), p.getVals(o)), "object %s only in the request: %v", o, r.getVals(o))
			}
		}
		for o := range r {
			k.check(p[o] != nil || font[o] != nil, "unexpected object %s", o)
		}
	})
	verifRun(t, "sorted list", 4000, func(k *vcase) {
		p := k.v4pattern(false)
		p.AddInt(FONTVERSION, 0)
		n := k.Intn(8)
		set := make(Fontset, n)
		version := k.Perm(n)
		failed := false
		scores := map[int32][]float64{}
		for i := range set {
			set[i] = k.v4pattern(true)
			if i > 0 && k.Intn(3) == 0 {
				set[i] = set[k.Intn(i)].Duplicate()
				set[i].Del(FONTVERSION)
			}
			set[i].AddInt(FONTVERSION, int32(version[i])) // no equal scores
			if k.Intn(100) == 0 {
				set[i][SLANT] = &valueList{{Value: String("x")}}
			}
			scores[int32(version[i])] = v4score(p, set[i])
			failed = failed || scores[int32(version[i])] == nil
		}
		k.in("pattern: %s", p)
		for i, f := range set {
			k.in("font %d: %s", i, f)
		}
		trim := k.Intn(2) == 0
		k.in("trim %v", trim)
		got, cs := set.Sort(p, trim)
		if failed {
			k.check(got == nil, "sorted list with a font which is not comparable")
			return
		}
		order := make([]Pattern, n)
		copy(order, set)
		id := func(f Pattern) int32 { return f.GetIntAt(k, FONTVERSION) }
		byScore := func(i, j int) bool { return v4less(scores[id(order[i])], scores[id(order[j])]) }
		sort.SliceStable(order, byScore)
		// a font only keeps its language score if it is the first for a requested language
		const lang = 5
		satisfied := make([]bool, len(p.getVals(LANG)))
		for _, f := range order {
			s := scores[id(f)]
			ok := false
			if fl := f.getVals(LANG); s[lang] < 2000 && len(fl) > 0 {
				for i, l := range p.getVals(LANG) {
					if satisfied[i] {
						continue
					}
					if _, d := compareLang(l.Value, fl[0].Value); d >= 0 && d < 2 {
						satisfied[i], ok = true, true
						break
					}
				}
			}
			if !ok {
				s[lang] = 10000
			}
		}
		sort.SliceStable(order, byScore)
		union := map[rune]bool{}
		var want []Pattern
		for i, f := range order {
			l := f.getVals(CHARSET)
			adds := false
			if len(l) > 0 {
				for r := range v4set(l[0].Value.(Charset)) {
					if !union[r] {
						union[r], adds = true, true
					}
				}
			} else if trim {
				continue
			}
			if !trim || adds || i == 0 {
				want = append(want, f)
			}
		}
		var gotIDs, wantIDs []int32
		for _, f := range got {
			gotIDs = append(gotIDs, id(f))
		}
		for _, f := range want {
			wantIDs = append(wantIDs, id(f))
		}
		k.check(len(got) == len(want), "fonts %v, expected %v", gotIDs, wantIDs)
		for i := range got {
			k.check(gotIDs[i] == wantIDs[i], "fonts %v, expected %v", gotIDs, wantIDs)
		}
		for r := rune(0); r < 1024; r++ {
			k.check(cs.HasChar(r) == union[r], "coverage of %d: %v", r, cs.HasChar(r))
		}
	})
}

func (p Pattern) GetIntAt(k *vcase, o Object) int32 {
	v, ok := p.GetInt(o)
	k.check(ok, "object %s is missing", o)
	return v
}

func v4sameValues(a, b valueList) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !valueEqual(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}
