package fontconfig

import (
	"math"
	"strings"
	"testing"
)

func (k *vcase) v5string() String {
	l := []string{"", " ", "a", "A", " a", "Arial", "arial", "AR IAL", " arial", "Deja Vu", "DejaVu", "dejavu-sans", "DEJAVU SANS", "-x", "x", "Arial Black", "é", "É", "z z"}
	return String(l[k.Intn(len(l))])
}

func (k *vcase) v5num() float32 { return float32(k.Intn(41)-20) / 2 }

func (k *vcase) v5value() Value {
	switch k.Intn(9) {
	case 0:
		return nil
	case 1:
		return Int(k.Intn(21) - 10)
	case 2:
		return Float(k.v5num())
	case 3:
		return Bool(k.Intn(3))
	case 4:
		return k.v5range()
	case 5:
		m := Matrix{1, 0, 0, 1}
		if k.Intn(2) == 0 {
			m.Xy = k.v5num()
		}
		return m
	case 6:
		var cs Charset
		for i := k.Intn(4); i > 0; i-- {
			cs.AddChar(rune(k.Intn(3)*256 + k.Intn(2)))
		}
		return cs
	default:
		return k.v5string()
	}
}

func (k *vcase) v5range() Range {
	b := k.v5num()
	return Range{Begin: b, End: b + float32(k.Intn(8))/2}
}

func v5interval(v Value) (b, e float32, ok bool) {
	switch v := v.(type) {
	case Int:
		return float32(v), float32(v), true
	case Float:
		return float32(v), float32(v), true
	case Range:
		return v.Begin, v.End, true
	}
	return 0, 0, false
}

func v5abs(f float32) float32 { return float32(math.Abs(float64(f))) }

func v5key(s String) string { return strings.ToLower(strings.Replace(string(s), " ", "", -1)) }

func TestVerifF05(t *testing.T) {
	verifRun(t, "numbers and ranges", 20000, func(k *vcase) {
		a, b := k.v5value(), k.v5value()
		k.in("%T %v, %T %v", a, a, b, b)
		b1, e1, ok1 := v5interval(a)
		b2, e2, ok2 := v5interval(b)
		_, r1 := a.(Range)
		_, r2 := b.(Range)
		best, d := compareNumber(a, b)
		if ok1 && ok2 && !r1 && !r2 {
			k.check(best == b && d == v5abs(b2-b1), "compareNumber = %v, %v", best, d)
		} else {
			k.check(best == nil && d == -1, "compareNumber = %v, %v for non numbers", best, d)
		}
		best, d = compareRange(a, b)
		bestS, dS := compareSize(a, b)
		if ok1 && ok2 {
			overlap := b1 <= e2 && b2 <= e1
			gap := b2 - e1
			if b1 > e2 {
				gap = b1 - e2
			}
			f, isFloat := best.(Float)
			k.check(isFloat && float32(f) >= b2 && float32(f) <= e2, "compareRange: best value %v not in the second range", best)
			fs, isFloat := bestS.(Float)
			k.check(isFloat && float32(fs) >= b1 && float32(fs) <= e1, "compareSize: best value %v not in the first range", bestS)
			if overlap {
				k.check(d == 0 && dS >= 0 && dS <= 1e-15, "overlapping ranges at distance %v, %v", d, dS)
				k.check((dS != 0) == (b2 != e2 && b1 == e2), "compareSize = %v at the end of the second range", dS)
				k.check(float32(f) >= b1 && float32(f) <= e1, "compareRange: best value %v not in the common part", best)
			} else {
				k.check(d == gap && dS == gap && d > 0, "distance %v, %v instead of %v", d, dS, gap)
			}
		} else {
			k.check(best == nil && d == -1 && bestS == nil && dS == -1, "compareRange = %v, %v and compareSize = %v, %v for non ranges", best, d, bestS, dS)
		}
		best, d = compareBool(a, b)
		x, ok1 := a.(Bool)
		y, ok2 := b.(Bool)
		if ok1 && ok2 {
			want := y
			if y == DontCare {
				want = x
			}
			k.check(best == want && (d == 0 || d == 1) && (d == 0) == (x == y), "compareBool = %v, %v", best, d)
		} else {
			k.check(best == nil && d == -1, "compareBool = %v, %v for non booleans", best, d)
		}
	})
	verifRun(t, "strings", 20000, func(k *vcase) {
		a, b := k.v5string(), k.v5string()
		k.in("%q, %q", a, b)
		best, d := compareString(a, b)
		k.check(best == b && (d == 0 || d == 1) && (d == 0) == strings.EqualFold(string(a), string(b)), "compareString = %v, %v", best, d)
		best, d = compareFamily(a, b)
		k.check(best == b && (d == 0 || d == 1), "compareFamily = %v, %v", best, d)
		if a != "é" && a != "É" {
			k.check((d == 0) == (v5key(a) == v5key(b)), "compareFamily = %v", d)
		}
		best, d = comparePostScript(a, b)
		k.check(best == b && d >= 0 && d <= 1, "comparePostScript = %v, %v", best, d)
		if a == b && !strings.ContainsAny(string(a), " -") {
			k.check(d == 0, "comparePostScript = %v for equal names", d)
		}
		if a != "" && b != "" && a[0] != ' ' && b[0] != ' ' && strings.ToLower(string(a[:1])) != strings.ToLower(string(b[:1])) {
			k.check(d == 1, "comparePostScript = %v for names with other first letters", d)
		}
		if a == "dejavu-sans" && b == "dejavu-sans" {
			k.check(d*11 > 0.99 && d*11 < 1.01, "comparePostScript = %v", d)
		}
		if a == "Arial" && b == "Arial Black" {
			k.check(d == 0, "comparePostScript = %v", d)
		}
		if a == "Arial Black" && b == "Arial" {
			k.check(d*11 > 5.99 && d*11 < 6.01, "comparePostScript = %v", d)
		}
	})
	verifRun(t, "operators", 60000, func(k *vcase) {
		a, b := k.v5value(), k.v5value()
		if k.Intn(4) == 0 {
			b = a
		}
		ops := []opKind{opEqual, opNotEqual, opContains, opListing, opNotContains, opLess, opLessEqual, opMore, opMoreEqual}
		blanks := k.Intn(2) == 0
		k.in("%T %v, %T %v, ignore blanks %v", a, a, b, b, blanks)
		got := map[opKind]bool{}
		for _, op := range ops {
			x := op
			if blanks {
				x = opWithFlags(op, opFlagIgnoreBlanks)
			}
			got[op] = compareValue(a, x, b)
		}
		is := func(op opKind, want bool) {
			k.check(got[op] == want, "%s is %v", op, got[op])
		}
		none := func(l ...opKind) {
			for _, op := range l {
				is(op, false)
			}
		}
		_, m1 := a.(Matrix)
		_, m2 := b.(Matrix)
		_, c1 := a.(Charset)
		_, c2 := b.(Charset)
		if a == nil && m2 {
			a, m1 = Identity, true
		}
		if b == nil && m1 {
			b, m2 = Identity, true
		}
		if a == nil && c2 {
			a, c1 = Charset{}, true
		}
		if b == nil && c1 {
			b, c2 = Charset{}, true
		}
		b1, e1, n1 := v5interval(a)
		b2, e2, n2 := v5interval(b)
		_, r1 := a.(Range)
		_, r2 := b.(Range)
		s1, st1 := a.(String)
		s2, st2 := b.(String)
		x1, bo1 := a.(Bool)
		x2, bo2 := b.(Bool)
		switch {
		case n1 && n2 && (r1 || r2):
			in := b1 >= b2 && e1 <= e2
			is(opEqual, b1 == b2 && e1 == e2)
			is(opNotEqual, b1 != b2 || e1 != e2)
			is(opContains, in)
			is(opListing, in)
			is(opNotContains, !in)
			is(opLess, e1 < b2)
			is(opLessEqual, e1 <= b2)
			is(opMore, b1 > e2)
			is(opMoreEqual, b1 >= e2)
		case n1 && n2:
			is(opEqual, b1 == b2)
			is(opContains, b1 == b2)
			is(opListing, b1 == b2)
			is(opNotEqual, b1 != b2)
			is(opNotContains, b1 != b2)
			is(opLess, b1 < b2)
			is(opLessEqual, b1 <= b2)
			is(opMore, b1 > b2)
			is(opMoreEqual, b1 >= b2)
		case st1 && st2:
			l1, l2 := strings.ToLower(string(s1)), strings.ToLower(string(s2))
			eq := l1 == l2
			if blanks {
				eq = v5key(s1) == v5key(s2)
			}
			is(opEqual, eq)
			is(opListing, eq)
			is(opNotEqual, !eq)
			is(opContains, strings.Contains(l1, l2))
			is(opNotContains, !strings.Contains(l1, l2))
			none(opLess, opLessEqual, opMore, opMoreEqual)
		case bo1 && bo2:
			is(opEqual, x1 == x2)
			is(opNotEqual, x1 != x2)
			is(opContains, x1 == x2 || x1 == DontCare)
			is(opListing, x1 == x2 || x1 == DontCare)
			is(opNotContains, x1 != x2 && x1 != DontCare)
			is(opLess, x1 != x2 && x2 == DontCare)
			is(opLessEqual, x1 == x2 || x2 == DontCare)
			is(opMore, x1 != x2 && x1 == DontCare)
			is(opMoreEqual, x1 == x2 || x1 == DontCare)
		case m1 && m2:
			eq := a.(Matrix) == b.(Matrix)
			is(opEqual, eq)
			is(opContains, eq)
			is(opListing, eq)
			is(opNotEqual, !eq)
			is(opNotContains, !eq)
			none(opLess, opLessEqual, opMore, opMoreEqual)
		case c1 && c2:
			eq, sub := true, true // b included in a
			for r := rune(0); r < 0x300; r++ {
				i, j := a.(Charset), b.(Charset)
				eq = eq && i.HasChar(r) == j.HasChar(r)
				sub = sub && (i.HasChar(r) || !j.HasChar(r))
			}
			is(opEqual, eq)
			is(opNotEqual, !eq)
			is(opContains, sub)
			is(opListing, sub)
			is(opNotContains, !sub)
			none(opLess, opLessEqual, opMore, opMoreEqual)
		case a == nil && b == nil:
			is(opEqual, true)
			is(opContains, true)
			is(opListing, true)
			none(opNotEqual, opNotContains, opLess, opLessEqual, opMore, opMoreEqual)
		default: // values of different types
			is(opNotEqual, true)
			is(opNotContains, true)
			none(opEqual, opContains, opListing, opLess, opLessEqual, opMore, opMoreEqual)
		}
	})
}
