package pango

import "testing"

type v1attr struct {
	kind       AttrKind
	start, end int
	val        int
}

func v1of(a *Attribute) v1attr {
	return v1attr{a.Kind, a.StartIndex, a.EndIndex, int(a.Data.(AttrInt))}
}

func v1list(l AttrList) (out []v1attr) {
	for _, a := range l {
		out = append(out, v1of(a))
	}
	return out
}

func v1same(a, b []v1attr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var v1kinds = []AttrKind{ATTR_WEIGHT, ATTR_RISE, ATTR_UNDERLINE, ATTR_FONT_SCALE, ATTR_BASELINE_SHIFT}

func (k *vcase) v1attr(span, kinds int) *Attribute {
	a := &Attribute{Kind: v1kinds[k.Intn(kinds)], Data: AttrInt(k.Intn(3))}
	a.StartIndex = k.Intn(span)
	a.EndIndex = a.StartIndex + k.Intn(span-a.StartIndex+1)
	switch k.Intn(8) {
	case 0:
		a.EndIndex = MaxInt
	case 1:
		a.StartIndex = 0
	}
	return a
}

// the list in the order of insertion
func v1insert(l []v1attr, a v1attr, before bool) []v1attr {
	p := 0
	for p < len(l) && (l[p].start < a.start || !before && l[p].start == a.start) {
		p++
	}
	out := append([]v1attr{}, l[:p]...)
	out = append(out, a)
	return append(out, l[p:]...)
}

func (k *vcase) v1iterate(list AttrList, span int) {
	model := v1list(list)
	it := list.getIterator()
	end := 0
	for n := 0; ; n++ {
		k.check(n < 4*len(model)+4, "the iterator does not stop")
		k.check(it.StartIndex == end, "segment %d starts at %d, the previous one ended at %d", n, it.StartIndex, end)
		k.check(it.EndIndex > it.StartIndex || it.StartIndex == MaxInt, "empty segment [%d,%d)", it.StartIndex, it.EndIndex)
		end = it.EndIndex
		// no style change inside the segment
		var active []v1attr
		for _, a := range model {
			k.check(!(it.StartIndex < a.start && a.start < it.EndIndex && a.start < a.end), "%v starts inside the segment [%d,%d)", a, it.StartIndex, it.EndIndex)
			if a.start < a.end {
				k.check(!(it.StartIndex < a.end && a.end < it.EndIndex), "%v ends inside the segment [%d,%d)", a, it.StartIndex, it.EndIndex)
			}
			if a.start <= it.StartIndex && it.StartIndex < a.end {
				active = append(active, a)
			}
		}
		k.check(v1same(v1list(it.attribute_stack), active), "segment [%d,%d): attributes %v, want %v", it.StartIndex, it.EndIndex, v1list(it.attribute_stack), active)
		var want []v1attr
		for i, a := range active {
			last := true
			for _, b := range active[i+1:] {
				last = last && a.kind != b.kind
			}
			if last || a.kind == ATTR_FONT_SCALE || a.kind == ATTR_BASELINE_SHIFT {
				want = append(want, a)
			}
		}
		k.check(v1same(v1list(it.getAttributes()), want), "getAttributes = %v, want %v", v1list(it.getAttributes()), want)
		for _, kind := range v1kinds {
			var best *v1attr
			for i := range active {
				if active[i].kind == kind {
					best = &active[i]
				}
			}
			got := it.getByKind(kind)
			k.check((got == nil) == (best == nil), "getByKind(%s) = %v, want %v", kind, got, best)
			k.check(got == nil || v1of(got) == *best, "getByKind(%s) = %v, want %v", kind, got, best)
		}
		cp := it.copy()
		if k.Intn(3) == 0 { // the copy is independent
			s, e, st := it.StartIndex, it.EndIndex, v1list(it.attribute_stack)
			cp.next()
			cp.next()
			k.check(it.StartIndex == s && it.EndIndex == e && v1same(v1list(it.attribute_stack), st), "advancing a copy changes the iterator")
			cp = it.copy()
		}
		if k.Intn(2) == 0 {
			it = cp
		}
		if !it.next() {
			break
		}
	}
	k.check(end == MaxInt, "the last segment ends at %d", end)
}

func TestVerifP01(t *testing.T) {
	verifRun(t, "insertion and iteration", 6000, func(k *vcase) {
		span := 2 + k.Intn(10)
		var list AttrList
		var model []v1attr
		for n := k.Intn(9); n > 0; n-- {
			a := k.v1attr(span, len(v1kinds))
			before := k.Intn(3) == 0
			k.in("insert %v (before %v)", v1of(a), before)
			if before {
				list.pango_attr_list_insert_before(a)
			} else {
				list.Insert(a)
			}
			model = v1insert(model, v1of(a), before)
			k.check(v1same(v1list(list), model), "list %v, want %v", v1list(list), model)
		}
		k.v1iterate(list, span)
		// copies
		cp := list.copy()
		k.check(v1same(v1list(cp), model), "copy %v, want %v", v1list(cp), model)
		k.check(list.pango_attr_list_equal(cp), "a list is not equal to its copy")
		for i := range cp {
			k.check(cp[i] != list[i], "the copy shares an attribute")
			cp[i].EndIndex++
		}
		k.check(v1same(v1list(list), model), "changing a copy changes the list")
		k.check(len(list) == 0 || !list.pango_attr_list_equal(cp), "lists with other ranges are equal")
		// filter
		kind, val := v1kinds[k.Intn(len(v1kinds))], k.Intn(3)
		k.in("filter %s or %d", kind, val)
		fn := func(a *Attribute) bool { return a.Kind == kind || a.Data == AttrInt(val) }
		out := list.Filter(fn)
		var in, rest []v1attr
		for _, a := range model {
			if a.kind == kind || a.val == val {
				in = append(in, a)
			} else {
				rest = append(rest, a)
			}
		}
		k.check(v1same(v1list(out), in), "filtered %v, want %v", v1list(out), in)
		k.check(v1same(v1list(list), rest), "remaining %v, want %v", v1list(list), rest)
	})
	verifRun(t, "changes", 20000, func(k *vcase) {
		span := 2 + k.Intn(12)
		nk := 1 + k.Intn(2)
		var list AttrList
		// value of each kind at each position; position span stands for the rest
		model := map[AttrKind][]int{}
		for _, kind := range v1kinds {
			m := make([]int, span+1)
			for i := range m {
				m[i] = -1
			}
			model[kind] = m
		}
		for n := 1 + k.Intn(7); n > 0; n-- {
			a := k.v1attr(span, nk)
			k.in("change %v", v1of(a))
			v := v1of(a)
			for i := range model[v.kind] {
				if v.start <= i && i < v.end {
					model[v.kind][i] = v.val
				}
			}
			list.Change(a)
			for i, b := range list {
				k.check(b.StartIndex < b.EndIndex, "empty attribute %v", v1of(b))
				k.check(i == 0 || list[i-1].StartIndex <= b.StartIndex, "list not sorted: %v", v1list(list))
				for _, c := range list[i+1:] {
					k.check(b.Kind != c.Kind || b.EndIndex <= c.StartIndex, "overlapping attributes: %v", v1list(list))
					k.check(b.Kind != c.Kind || b.EndIndex < c.StartIndex || b.Data != c.Data, "adjoining identical attributes: %v", v1list(list))
				}
			}
			it := list.getIterator()
			for i := 0; i <= span; i++ {
				for it.EndIndex <= i {
					k.check(it.next(), "iterator stops at %d", it.EndIndex)
				}
				for _, kind := range v1kinds {
					got := -1
					if b := it.getByKind(kind); b != nil {
						got = int(b.Data.(AttrInt))
					}
					k.check(got == model[kind][i], "%s at %d is %d, want %d: %v", kind, i, got, model[kind][i], v1list(list))
				}
			}
		}
	})
}
