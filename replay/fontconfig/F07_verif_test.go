package fontconfig

import (
	"fmt"
	"strings"
	"testing"
)

// the values of an object, as a linked list: the mark of a rule is a node, as in
// the documentation of the edit modes ("the matched value")
type v7node struct {
	v          Value
	b          valueBinding
	prev, next *v7node
}

type v7list struct{ first, last *v7node }

func (l *v7list) insertAfter(at *v7node, v Value, b valueBinding) *v7node {
	n := &v7node{v: v, b: b}
	if at == nil { // first
		n.next = l.first
		if l.first != nil {
			l.first.prev = n
		} else {
			l.last = n
		}
		l.first = n
		return n
	}
	n.prev, n.next = at, at.next
	if at.next != nil {
		at.next.prev = n
	} else {
		l.last = n
	}
	at.next = n
	return n
}

func (l *v7list) remove(n *v7node) {
	if n.prev != nil {
		n.prev.next = n.next
	} else {
		l.first = n.next
	}
	if n.next != nil {
		n.next.prev = n.prev
	} else {
		l.last = n.prev
	}
}

func (l *v7list) String() string {
	var out []string
	for n := l.first; n != nil; n = n.next {
		out = append(out, fmt.Sprintf("%T(%v)/%s", n.v, n.v, n.b))
	}
	return strings.Join(out, " ")
}

func v7real(l valueList) string {
	var out []string
	for _, n := range l {
		out = append(out, fmt.Sprintf("%T(%v)/%s", n.Value, n.Value, n.Binding))
	}
	return strings.Join(out, " ")
}

type v7model map[Object]*v7list

func (m v7model) at(o Object) *v7list {
	if m[o] == nil {
		m[o] = &v7list{}
	}
	return m[o]
}

var v7objects = []Object{FAMILY, ORDER, STYLE, FirstCustomObject}

func (k *vcase) v7value(o Object) Value {
	switch o {
	case FAMILY:
		return []String{"Arial", "arial", "AR IAL", "Times", "sans", "Sans", ""}[k.Intn(7)]
	case STYLE:
		return []String{"Bold", "bold", "Italic", "Book"}[k.Intn(4)]
	case ORDER:
		return Int(k.Intn(4))
	}
	if k.Intn(2) == 0 {
		return Int(k.Intn(3))
	}
	return []String{"x", "X", "y"}[k.Intn(3)]
}

func v7lit(v Value) *expression {
	switch v := v.(type) {
	case Int:
		return &expression{op: opInt, u: v}
	case String:
		return &expression{op: opString, u: v}
	}
	panic("literal")
}

// the documented comparison
func v7match(a Value, op opKind, b Value) bool {
	flags := op.getFlags()
	op = op.getOp()
	neg := op == opNotEqual || op == opNotContains
	switch a := a.(type) {
	case Int:
		b, ok := b.(Int)
		if !ok {
			return neg
		}
		switch op {
		case opEqual, opContains:
			return a == b
		case opNotEqual, opNotContains:
			return a != b
		case opLess:
			return a < b
		case opLessEqual:
			return a <= b
		case opMore:
			return a > b
		case opMoreEqual:
			return a >= b
		}
	case String:
		b, ok := b.(String)
		if !ok {
			return neg
		}
		x, y := strings.ToLower(string(a)), strings.ToLower(string(b))
		if flags&opFlagIgnoreBlanks != 0 && (op == opEqual || op == opNotEqual) {
			x, y = strings.Replace(x, " ", "", -1), strings.Replace(y, " ", "", -1)
		}
		switch op {
		case opEqual:
			return x == y
		case opNotEqual:
			return x != y
		case opContains:
			return strings.Contains(x, y)
		case opNotContains:
			return !strings.Contains(x, y)
		}
	}
	return false
}

func (k *vcase) v7rule(kind matchKind) directive {
	var d directive
	for i := k.Intn(3); i > 0; i-- {
		o := v7objects[k.Intn(len(v7objects))]
		ops := []opKind{opEqual, opNotEqual, opContains, opNotContains, opLess, opLessEqual, opMore, opMoreEqual}
		t := ruleTest{object: o, kind: kind, qual: uint8(k.Intn(4)), op: ops[k.Intn(len(ops))]}
		if k.Intn(2) == 0 {
			t.op, t.qual = opEqual, qualAny
		}
		if k.Intn(3) == 0 && (o == FAMILY || o == STYLE) {
			t.op = opWithFlags(opEqual, opFlagIgnoreBlanks)
		}
		if o == FAMILY && (t.op == opContains || t.op == opNotContains) {
			t.op = opEqual
		}
		if kind == MatchResult && k.Intn(4) == 0 {
			t.kind = MatchQuery
		}
		t.expr = v7lit(k.v7value(o))
		d.tests = append(d.tests, t)
	}
	for i := 1 + k.Intn(4); i > 0; i-- {
		o := v7objects[k.Intn(len(v7objects))]
		if len(d.tests) != 0 && k.Intn(3) != 0 {
			o = d.tests[k.Intn(len(d.tests))].object
		}
		ops := []opKind{opAssign, opAssignReplace, opPrepend, opPrependFirst, opAppend, opAppendLast, opDelete, opDeleteAll}
		e := ruleEdit{object: o, binding: valueBinding(k.Intn(3)), op: ops[k.Intn(len(ops))]}
		if e.op != opDelete && e.op != opDeleteAll {
			vo := o
			if k.Intn(6) == 0 && o != FAMILY { // maybe a wrong type
				vo = v7objects[k.Intn(len(v7objects))]
			}
			e.expr = v7lit(k.v7value(vo))
			for j := k.Intn(3); j > 0; j-- {
				e.expr = newExprOp(v7lit(k.v7value(vo)), e.expr, opComma)
			}
		}
		d.edits = append(d.edits, e)
	}
	return d
}

func v7valid(o Object, vs []Value) bool {
	for _, v := range vs {
		_, isInt := v.(Int)
		if o == ORDER && !isInt || (o == FAMILY || o == STYLE) && isInt {
			return false
		}
	}
	return true
}

// v7apply runs a rule on the model
func v7apply(d directive, kind matchKind, m, query v7model) {
	marks := map[Object]*v7node{}
	for _, t := range d.tests {
		var want Value
		want = t.expr.u.(Value)
		l := m.at(t.object)
		if kind == MatchResult && t.kind == MatchQuery {
			l = query.at(t.object)
		}
		if l.first == nil {
			if t.qual == qualAll {
				marks[t.object] = nil // a test without values matches none
				continue
			}
			return
		}
		var found *v7node
		all := true
		for n := l.first; n != nil; n = n.next {
			if v7match(n.v, t.op, want) {
				if found == nil {
					found = n
				}
			} else {
				all = false
			}
		}
		if t.qual == qualAll && !all {
			found = nil
		}
		if t.kind == kind && found != nil && marks[t.object] == nil {
			marks[t.object] = found
		}
		if found == nil || (t.qual == qualFirst && found != l.first) || (t.qual == qualNotFirst && found == l.first) {
			return
		}
	}
	for _, e := range d.edits {
		var vs []Value
		for x := e.expr; x != nil; {
			if x.op == opComma {
				tr := x.u.(exprTree)
				vs = append(vs, tr.left.u.(Value))
				x = tr.right
			} else {
				vs = append(vs, x.u.(Value))
				x = nil
			}
		}
		l := m.at(e.object)
		mark := marks[e.object]
		same := vbWeak
		if mark != nil {
			same = mark.b
		}
		if !v7valid(e.object, vs) {
			vs = nil
		}
		add := func(after *v7node, s valueBinding) (first *v7node) {
			for _, v := range vs {
				b := e.binding
				if b == vbSame {
					b = s
				}
				after = l.insertAfter(after, v, b)
				if first == nil {
					first = after
				}
			}
			return first
		}
		switch e.op {
		case opAssign:
			if mark != nil {
				marks[e.object] = add(mark, same)
				l.remove(mark)
				break
			}
			fallthrough
		case opAssignReplace:
			*l = v7list{}
			add(nil, vbWeak)
			marks[e.object] = nil
		case opPrepend:
			if mark != nil {
				add(mark.prev, same)
			} else {
				add(nil, vbWeak)
			}
		case opPrependFirst:
			add(nil, vbWeak)
		case opAppend:
			if mark != nil {
				add(mark, same)
			} else {
				add(l.last, vbWeak)
			}
		case opAppendLast:
			add(l.last, vbWeak)
		case opDelete:
			if mark != nil {
				l.remove(mark)
				marks[e.object] = nil
				break
			}
			fallthrough
		case opDeleteAll:
			*l = v7list{}
			marks[e.object] = nil
		}
	}
}

func (k *vcase) v7pattern(name string) (Pattern, v7model) {
	p, m := NewPattern(), v7model{}
	for _, o := range v7objects {
		for j := k.Intn(5); j > 0; j-- {
			v, b := k.v7value(o), valueBinding(k.Intn(2))
			p.addWithBinding(o, v, b, true)
			m.at(o).insertAfter(m.at(o).last, v, b)
		}
		k.in("%s %s: %s", name, o, m.at(o))
	}
	return p, m
}

func TestVerifF07(t *testing.T) {
	for _, kind := range []matchKind{MatchQuery, MatchResult, MatchScan} {
		kind := kind
		verifRun(t, fmt.Sprintf("rules %s", kind), 15000, func(k *vcase) {
			p, m := k.v7pattern("pattern")
			q, mq := k.v7pattern("query")
			c := NewConfig()
			c.maxObjects = 4
			var rules []directive
			for i := 1 + k.Intn(3); i > 0; i-- {
				d := k.v7rule(kind)
				k.in("rule %d: %s", len(rules), d)
				rules = append(rules, d)
				if len(c.subst) == 0 || k.Intn(2) == 0 {
					c.subst = append(c.subst, ruleSet{})
				}
				c.subst[len(c.subst)-1].subst[kind] = append(c.subst[len(c.subst)-1].subst[kind], d)
			}
			c.Substitute(p, q, kind)
			for _, d := range rules {
				v7apply(d, kind, m, mq)
			}
			for _, o := range v7objects {
				k.check(v7real(p.getVals(o)) == m.at(o).String(), "%s: got %s\nwant %s", o, v7real(p.getVals(o)), m.at(o))
				k.check(v7real(q.getVals(o)) == mq.at(o).String(), "the query pattern is changed")
				if l, in := p[o]; in {
					k.check(l != nil && len(*l) != 0, "empty list kept for %s", o)
				}
			}
		})
	}
}
