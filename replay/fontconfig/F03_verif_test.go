package fontconfig

import (
	"fmt"
	"strings"
	"testing"
)

// values are compared by their printed form with the concrete type
func v3str(v Value) string {
	switch v := v.(type) {
	case Charset:
		var rs []string
		for r := rune(0); r < 0x400; r++ {
			if v.HasChar(r) {
				rs = append(rs, fmt.Sprintf("%x", r))
			}
		}
		return "Charset " + strings.Join(rs, ",")
	}
	return fmt.Sprintf("%T %v", v, v)
}

type v3elt struct {
	v string
	b valueBinding
}

func v3list(l valueList) []v3elt {
	out := []v3elt{}
	for _, e := range l {
		out = append(out, v3elt{v3str(e.Value), e.Binding})
	}
	return out
}

func v3eq(a, b []v3elt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type v3model map[Object][]v3elt

func (k *vcase) v3same(what string, p Pattern, m v3model) {
	for o, l := range m {
		k.check(v3eq(v3list(p.getVals(o)), l), "%s: object %s: got %v, want %v", what, o, v3list(p.getVals(o)), l)
		for i := range l {
			v, r := p.GetAt(o, i)
			k.check(r == ResultMatch && v3str(v) == l[i].v, "%s: GetAt(%s, %d) = %v, %v, want %v", what, o, i, v, r, l[i].v)
		}
		v, r := p.GetAt(o, len(l))
		k.check(v == nil && (r == ResultNoId || (len(l) == 0 && r == ResultNoMatch)), "%s: GetAt(%s, %d) = %v, %v beyond the end", what, o, len(l), v, r)
	}
	for o, l := range p {
		if l != nil && len(*l) != 0 {
			k.check(len(m[o]) == len(*l), "%s: unexpected values %v for %s", what, *l, o)
		}
	}
	for _, o := range []Object{FAMILY, STYLE, SIZE, CHARSET, WEIGHT, ANTIALIAS, FirstCustomObject} {
		if _, in := p[o]; !in {
			v, r := p.GetAt(o, 0)
			k.check(v == nil && r == ResultNoMatch, "%s: GetAt(%s, 0) = %v, %v without values", what, o, v, r)
		}
	}
}

func (k *vcase) v3family() String {
	return []String{"Arial", "arial", "AR IAL", "a rial", "DejaVu Sans", "dejavusans", "", "Times", " times "}[k.Intn(9)]
}

var v3objects = []Object{FAMILY, STYLE, SIZE, CHARSET, WEIGHT, ANTIALIAS, FirstCustomObject}

// a value and whether the object accepts it
func (k *vcase) v3value(o Object) (Value, bool) {
	var v Value
	switch k.Intn(6) {
	case 0:
		v = k.v3family()
	case 1:
		v = Int(k.Intn(300))
	case 2:
		v = Float(k.Intn(30)) / 4
	case 3:
		v = Bool(k.Intn(3))
	case 4:
		b := float32(k.Intn(20))
		v = Range{Begin: b, End: b + float32(k.Intn(20))}
	default:
		var cs Charset
		for i := k.Intn(5); i >= 0; i-- {
			cs.AddChar(rune(k.Intn(0x400)))
		}
		v = cs
	}
	ok := true
	switch o {
	case FAMILY, STYLE:
		_, ok = v.(String)
	case SIZE, WEIGHT:
		switch v.(type) {
		case Int, Float, Range:
		default:
			ok = false
		}
	case CHARSET:
		_, ok = v.(Charset)
	case ANTIALIAS:
		_, ok = v.(Bool)
	}
	if !ok && k.Intn(4) != 0 {
		return k.v3value(o)
	}
	return v, ok
}

func v3blank(s String) string {
	return strings.ToLower(strings.Replace(string(s), " ", "", -1))
}

// the table counts the names of the list
func (k *vcase) v3table(what string, t familyTable, l valueList) {
	c, b := map[string]int{}, map[string]int{}
	for _, e := range l {
		s := e.Value.(String)
		c[strings.ToLower(string(s))]++
		b[v3blank(s)]++
	}
	for _, x := range []struct {
		got  map[string]int
		want map[string]int
	}{{t.familyHash, c}, {t.familyBlankHash, b}} {
		k.check(len(x.got) == len(x.want), "%s: table %v, want %v", what, x.got, x.want)
		for s, n := range x.want {
			k.check(x.got[s] == n, "%s: table has %d times %q, want %d", what, x.got[s], s, n)
		}
	}
	for i := 0; i < 3; i++ {
		s := k.v3family()
		k.check(t.lookup(opEqual, s) == (c[strings.ToLower(string(s))] != 0), "%s: lookup(%q) wrong", what, s)
		k.check(t.lookup(opWithFlags(opEqual, opFlagIgnoreBlanks), s) == (b[v3blank(s)] != 0), "%s: lookup(%q), ignoring blanks, wrong", what, s)
	}
}

func TestVerifF03(t *testing.T) {
	verifRun(t, "pattern history", 3000, func(k *vcase) {
		p, m := NewPattern(), v3model{}
		type copied struct {
			p Pattern
			m v3model
		}
		var others []copied
		for i := 3 + k.Intn(12); i >= 0; i-- {
			o := v3objects[k.Intn(len(v3objects))]
			app := k.Intn(2) == 0
			switch k.Intn(8) {
			case 0:
				k.in("Del(%s)", o)
				p.Del(o)
				delete(m, o)
			case 1: // several values
				var l valueList
				all := true
				for j := k.Intn(4); j > 0; j-- {
					v, ok := k.v3value(o)
					all = all && ok
					l = append(l, valueElt{v, valueBinding(k.Intn(3))})
				}
				if k.Intn(2) == 0 {
					l = append(make(valueList, 0, len(l)+3), l...)
				}
				k.in("addList(%s, %v, %v)", o, l, app)
				want := v3list(l)
				p.addList(o, l, app)
				k.check(v3eq(v3list(l), want), "addList changed its argument")
				if all {
					if app {
						m[o] = append(append([]v3elt{}, m[o]...), want...)
					} else {
						m[o] = append(want, m[o]...)
					}
				}
				for j := range l { // no reference is kept
					if cs, ok := l[j].Value.(Charset); ok {
						cs.AddChar(0x3ff)
						cs.DelChar(rune(k.Intn(0x400)))
					}
					l[j] = valueElt{Int(12345), vbWeak}
				}
			case 2: // a copy, which lives its own life
				q := p.Duplicate()
				k.in("Duplicate")
				k.v3same("copy", q, m)
				mm := v3model{}
				for o, l := range m {
					mm[o] = append([]v3elt{}, l...)
				}
				others = append(others, copied{q, mm})
				if k.Intn(2) == 0 {
					p, others[len(others)-1].p = q, p
				}
			case 3: // a change in place of the first value
				if l := p.getVals(CHARSET); len(l) != 0 {
					cs := l[0].Value.(Charset)
					if len(cs.pages) != 0 {
						k.in("first charset changed in place")
						cs.pages[0][0] ^= 1 << uint(k.Intn(32))
						m[CHARSET][0].v = v3str(l[0].Value)
					}
				}
			default:
				v, ok := k.v3value(o)
				k.in("Add(%s, %v, %v)", o, v, app)
				e := v3elt{v3str(v), vbStrong}
				p.Add(o, v, app)
				if ok {
					if app {
						m[o] = append(append([]v3elt{}, m[o]...), e)
					} else {
						m[o] = append([]v3elt{e}, m[o]...)
					}
				}
				if cs, ok := v.(Charset); ok && len(cs.pages) != 0 {
					cs.pages[0][k.Intn(8)] ^= 7
				}
			}
			k.v3same("pattern", p, m)
			for _, c := range others {
				k.v3same("other copy", c.p, c.m)
			}
		}
	})
	verifRun(t, "value list edits", 3000, func(k *vcase) {
		o := v3objects[k.Intn(len(v3objects))]
		if k.Intn(2) == 0 {
			o = FAMILY
		}
		p := NewPattern()
		table := newFamilyTable(p)
		var model []v3elt
		for i := 3 + k.Intn(12); i >= 0; i-- {
			var l valueList
			all := true
			for j := k.Intn(4); j > 0; j-- {
				v, ok := k.v3value(o)
				all = all && ok
				l = append(l, valueElt{v, valueBinding(k.Intn(3))})
			}
			app := k.Intn(2) == 0
			want := v3list(l)
			tb := &table
			if o != FAMILY && k.Intn(2) == 0 {
				tb = nil
			}
			switch k.Intn(6) {
			case 0:
				k.in("delWithTable(%s)", o)
				p.delWithTable(o, tb)
				model = nil
			case 1:
				k.in("addWithTable(%s, %v, %v)", o, l, app)
				p.addWithTable(o, l, app, tb)
				for j := range want {
					if want[j].b == vbSame {
						want[j].b = vbWeak
					}
				}
				if all && app {
					model = append(append([]v3elt{}, model...), want...)
				} else if all {
					model = append(want, model...)
				}
			case 2:
				k.in("canon(%s)", o)
				p.canon(o)
				e, in := p[o]
				k.check(!in || (e != nil && len(*e) != 0), "canon keeps an empty list")
			case 3:
				if len(model) == 0 {
					continue
				}
				pos := k.Intn(len(model))
				k.in("del(%d)", pos)
				p[o].del(pos, o, tb)
				model = append(append([]v3elt{}, model[:pos]...), model[pos+1:]...)
			default:
				if len(model) == 0 {
					continue
				}
				pos := k.Intn(len(model))
				k.in("insert(%d, %v, %v)", pos, app, l)
				ok := p[o].insert(pos, app, l, o, tb)
				k.check(ok == all, "insert = %v for valid types: %v", ok, all)
				if all {
					for j := range want {
						if want[j].b == vbSame {
							want[j].b = model[pos].b
						}
					}
					at := pos
					if app {
						at++
					}
					model = append(append(append([]v3elt{}, model[:at]...), want...), model[at:]...)
				}
			}
			k.v3same("list", p, v3model{o: model})
			if o == FAMILY {
				k.v3table("after the edit", table, p.getVals(FAMILY))
				k.v3table("new", newFamilyTable(p), p.getVals(FAMILY))
			}
		}
	})
}
