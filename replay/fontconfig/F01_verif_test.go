package fontconfig

import (
	"sort"
	"testing"
)

type vcs struct {
	cs    Charset
	model map[rune]bool
	empty map[uint16]bool
}

func (k *vcase) rune(pages []rune) rune {
	return pages[k.Intn(len(pages))]<<8 | rune(k.Intn(256))
}

func (k *vcase) charset(name string, pages []rune) vcs {
	out := vcs{model: map[rune]bool{}}
	n := k.Intn(40)
	for i := 0; i < n; i++ {
		r := k.rune(pages)
		switch k.Intn(6) {
		case 0: // a block
			for j := 0; j < 70 && r+rune(j) <= 0x10FFFF; j++ {
				out.cs.AddChar(r + rune(j))
				out.model[r+rune(j)] = true
			}
			k.in("%s: add %#x..%#x", name, r, r+69)
		case 1, 2:
			if k.Intn(2) == 0 { // prefer existing
				var ks []rune
				for e := range out.model {
					ks = append(ks, e)
				}
				sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
				if len(ks) != 0 {
					r = ks[k.Intn(len(ks))]
				}
			}
			out.cs.DelChar(r)
			delete(out.model, r)
			k.in("%s: del %#x", name, r)
		default:
			out.cs.AddChar(r)
			out.model[r] = true
			k.in("%s: add %#x", name, r)
		}
	}
	k.charsetIs(name, out.cs, out.model)
	return out
}

func (k *vcase) charsetIs(what string, cs Charset, model map[rune]bool) {
	k.check(len(cs.pages) == len(cs.pageNumbers), "%s: %d pages, %d numbers", what, len(cs.pages), len(cs.pageNumbers))
	n := 0
	for i, p := range cs.pageNumbers {
		k.check(i == 0 || cs.pageNumbers[i-1] < p, "%s: page numbers not increasing: %v", what, cs.pageNumbers)
		for j := 0; j < 256; j++ {
			r := rune(p)<<8 | rune(j)
			has := cs.pages[i][j/32]&(1<<uint(j%32)) != 0
			if has {
				n++
			}
			k.check(has == model[r], "%s: rune %#x: stored %v, expected %v", what, r, has, model[r])
			k.check(cs.HasChar(r) == model[r], "%s: HasChar(%#x) = %v", what, r, !model[r])
		}
	}
	for r := range model {
		k.check(cs.HasChar(r), "%s: HasChar(%#x) = false", what, r)
	}
	for i := 0; i < 20; i++ {
		r := rune(k.Intn(0x110000))
		k.check(cs.HasChar(r) == model[r], "%s: HasChar(%#x) = %v", what, r, !model[r])
	}
	k.check(n == len(model), "%s: %d runes stored, %d expected", what, n, len(model))
	k.check(cs.Len() == len(model), "%s: Len() = %d, %d expected", what, cs.Len(), len(model))
}

func TestVerifF01(t *testing.T) {
	verifRun(t, "F01 charset algebra", 1500, func(k *vcase) {
		var pages []rune
		for i := 0; i < 1+k.Intn(6); i++ {
			switch k.Intn(4) {
			case 0:
				pages = append(pages, rune(k.Intn(0x1100)))
			case 1:
				pages = append(pages, 0x10FF)
			default:
				pages = append(pages, rune(k.Intn(8)))
			}
		}
		a := k.charset("a", pages)
		if k.Intn(3) == 0 && len(pages) > 1 {
			pages = pages[:1+k.Intn(len(pages)-1)]
		}
		b := k.charset("b", pages)
		if k.Intn(4) == 0 { // b built from a
			b = vcs{a.cs.Copy(), map[rune]bool{}, nil}
			for r := range a.model {
				b.model[r] = true
			}
			k.in("b = copy of a")
			for i := 0; i < k.Intn(3); i++ {
				r := k.rune(pages)
				if k.Intn(2) == 0 {
					b.cs.AddChar(r)
					b.model[r] = true
					k.in("b: add %#x", r)
				} else {
					b.cs.DelChar(r)
					delete(b.model, r)
					k.in("b: del %#x", r)
				}
			}
			k.charsetIs("b", b.cs, b.model)
			k.charsetIs("a after changing its copy", a.cs, a.model)
		}
		union, subtract := map[rune]bool{}, map[rune]bool{}
		aInB, bInA := true, true
		for r := range a.model {
			union[r] = true
			if !b.model[r] {
				subtract[r] = true
				aInB = false
			}
		}
		for r := range b.model {
			union[r] = true
			if !a.model[r] {
				bInA = false
			}
		}
		k.charsetIs("union", charsetUnion(a.cs, b.cs), union)
		k.charsetIs("subtract", charsetSubtract(a.cs, b.cs), subtract)
		k.check(charsetSubtractCount(a.cs, b.cs) == uint32(len(subtract)), "subtractCount = %d, %d expected", charsetSubtractCount(a.cs, b.cs), len(subtract))
		k.check(a.cs.isSubset(b.cs) == aInB, "a.isSubset(b) = %v", !aInB)
		k.check(b.cs.isSubset(a.cs) == bInA, "b.isSubset(a) = %v", !bInA)
		k.check(charsetEqual(a.cs, b.cs) == (aInB && bInA), "charsetEqual = %v", !(aInB && bInA))
		k.charsetIs("a", a.cs, a.model)
		k.charsetIs("b", b.cs, b.model)
		c := a.cs.Copy()
		ch := c.merge(b.cs)
		k.check(ch == !bInA, "merge = %v", ch)
		k.charsetIs("merge", c, union)
		k.charsetIs("a after merge into a copy", a.cs, a.model)
		k.charsetIs("b after merge", b.cs, b.model)
	})
}
