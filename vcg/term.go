package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is an SMT term. Leaves have no args.
type Term struct {
	op   string
	args []*Term
	sort string
	str  string
	n    int
	q    *qinfo
}

// qinfo describes a quantified formula
type qinfo struct {
	kind string
	vars []*Term
	body *Term
	pats [][]*Term
}

func mk(sort, op string, args ...*Term) *Term {
	t := &Term{op: op, args: args, sort: sort}
	t.n = 1
	for _, a := range args {
		t.n += a.n
	}
	if len(args) == 0 {
		t.str = op
	} else {
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(op)
		for _, a := range args {
			b.WriteByte(' ')
			b.WriteString(a.str)
		}
		b.WriteByte(')')
		t.str = b.String()
	}
	return t
}

func (t *Term) String() string { return t.str }

var (
	tTrue  = mk("Bool", "true")
	tFalse = mk("Bool", "false")
)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func intBig(b *big.Int) *Term {
	if b.Sign() < 0 {
		n := new(big.Int).Neg(b)
		t := mk("Int", "-", mk("Int", n.String()))
		return t
	}
	return mk("Int", b.String())
}

func intT(i int64) *Term { return intBig(big.NewInt(i)) }

// asInt returns the literal value of an integer term
func asInt(t *Term) (*big.Int, bool) {
	if t.sort != "Int" {
		return nil, false
	}
	if len(t.args) == 0 {
		if c := t.op[0]; c >= '0' && c <= '9' {
			b, ok := new(big.Int).SetString(t.op, 10)
			return b, ok
		}
		return nil, false
	}
	if t.op == "-" && len(t.args) == 1 {
		b, ok := asInt(t.args[0])
		if !ok {
			return nil, false
		}
		return new(big.Int).Neg(b), true
	}
	return nil, false
}

func not(a *Term) *Term {
	switch {
	case a == tTrue || a.str == "true":
		return tFalse
	case a.str == "false":
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("Bool", "not", a)
}

func and(as ...*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	for _, a := range as {
		if a.str == "true" || seen[a.str] {
			continue
		}
		if a.str == "false" {
			return tFalse
		}
		seen[a.str] = true
		if a.op == "and" {
			for _, b := range a.args {
				if !seen[b.str] || true {
					seen[b.str] = true
					out = append(out, b)
				}
			}
			continue
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("Bool", "and", out...)
}

func or(as ...*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	for _, a := range as {
		if a.str == "false" || seen[a.str] {
			continue
		}
		if a.str == "true" {
			return tTrue
		}
		seen[a.str] = true
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	// (or p (not p))
	for _, o := range out {
		if o.op == "not" && seen[o.args[0].str] {
			return tTrue
		}
	}
	// (or (and p c) (and p (not c)))
	if len(out) == 2 && out[0].op == "and" && out[1].op == "and" && len(out[0].args) == len(out[1].args) {
		a, b := out[0].args, out[1].args
		n := len(a) - 1
		same := true
		for i := 0; i < n; i++ {
			if a[i].str != b[i].str {
				same = false
			}
		}
		if same && not(a[n]).str == b[n].str {
			return and(a[:n]...)
		}
	}
	return mk("Bool", "or", out...)
}

func imp(a, b *Term) *Term {
	if a.str == "true" {
		return b
	}
	if a.str == "false" || b.str == "true" {
		return tTrue
	}
	if b.str == "false" {
		return not(a)
	}
	if b.op == "=>" {
		return mk("Bool", "=>", and(a, b.args[0]), b.args[1])
	}
	return mk("Bool", "=>", a, b)
}

func ite(c, a, b *Term) *Term {
	if c.str == "true" || a.str == b.str {
		return a
	}
	if c.str == "false" {
		return b
	}
	if a.sort == "Bool" {
		if a.str == "true" {
			return or(c, b)
		}
		if a.str == "false" {
			return and(not(c), b)
		}
		if b.str == "true" {
			return or(not(c), a)
		}
		if b.str == "false" {
			return and(c, a)
		}
	}
	return mk(a.sort, "ite", c, a, b)
}

func eq(a, b *Term) *Term {
	if a.str == b.str {
		return tTrue
	}
	if a.sort == "Int" {
		x, ok1 := asInt(a)
		y, ok2 := asInt(b)
		if ok1 && ok2 {
			return boolT(x.Cmp(y) == 0)
		}
	}
	if a.sort == "Bool" {
		if a.str == "true" {
			return b
		}
		if b.str == "true" {
			return a
		}
		if a.str == "false" {
			return not(b)
		}
		if b.str == "false" {
			return not(a)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq: sort mismatch %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	return mk("Bool", "=", a, b)
}

// linear arithmetic normalisation
type lin struct {
	c     *big.Int
	atoms map[string]*Term
	coef  map[string]*big.Int
}

func linearize(t *Term, k *big.Int, l *lin) {
	if v, ok := asInt(t); ok {
		l.c.Add(l.c, new(big.Int).Mul(k, v))
		return
	}
	switch t.op {
	case "+":
		for _, a := range t.args {
			linearize(a, k, l)
		}
		return
	case "-":
		if len(t.args) == 1 {
			linearize(t.args[0], new(big.Int).Neg(k), l)
			return
		}
		linearize(t.args[0], k, l)
		for _, a := range t.args[1:] {
			linearize(a, new(big.Int).Neg(k), l)
		}
		return
	case "*":
		if len(t.args) == 2 {
			if v, ok := asInt(t.args[0]); ok {
				linearize(t.args[1], new(big.Int).Mul(k, v), l)
				return
			}
			if v, ok := asInt(t.args[1]); ok {
				linearize(t.args[0], new(big.Int).Mul(k, v), l)
				return
			}
		}
	}
	if c, ok := l.coef[t.str]; ok {
		c.Add(c, k)
	} else {
		l.coef[t.str] = new(big.Int).Set(k)
		l.atoms[t.str] = t
	}
}

func newLin() *lin {
	return &lin{c: new(big.Int), atoms: map[string]*Term{}, coef: map[string]*big.Int{}}
}

func (l *lin) term() *Term {
	keys := make([]string, 0, len(l.coef))
	for k, c := range l.coef {
		if c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var parts []*Term
	one := big.NewInt(1)
	for _, k := range keys {
		c := l.coef[k]
		if c.Cmp(one) == 0 {
			parts = append(parts, l.atoms[k])
		} else {
			parts = append(parts, mk("Int", "*", intBig(c), l.atoms[k]))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, intBig(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("Int", "+", parts...)
}

func add(as ...*Term) *Term {
	if as[0].sort != "Int" {
		return mk(as[0].sort, "+", as...)
	}
	l := newLin()
	for _, a := range as {
		linearize(a, big.NewInt(1), l)
	}
	return l.term()
}

func sub(a, b *Term) *Term {
	if a.sort != "Int" {
		return mk(a.sort, "-", a, b)
	}
	l := newLin()
	linearize(a, big.NewInt(1), l)
	linearize(b, big.NewInt(-1), l)
	return l.term()
}

func mul(a, b *Term) *Term {
	if a.sort == "Int" {
		if _, ok := asInt(a); ok {
			l := newLin()
			linearize(mk("Int", "*", a, b), big.NewInt(1), l)
			return l.term()
		}
		if _, ok := asInt(b); ok {
			l := newLin()
			linearize(mk("Int", "*", a, b), big.NewInt(1), l)
			return l.term()
		}
	}
	return mk(a.sort, "*", a, b)
}

func cmp(op string, a, b *Term) *Term {
	if a.sort == "Int" {
		x, ok1 := asInt(a)
		y, ok2 := asInt(b)
		if ok1 && ok2 {
			c := x.Cmp(y)
			switch op {
			case "<":
				return boolT(c < 0)
			case "<=":
				return boolT(c <= 0)
			case ">":
				return boolT(c > 0)
			case ">=":
				return boolT(c >= 0)
			}
		}
		if a.str == b.str {
			return boolT(op == "<=" || op == ">=")
		}
	}
	return mk("Bool", op, a, b)
}
func lt(a, b *Term) *Term { return cmp("<", a, b) }
func le(a, b *Term) *Term { return cmp("<=", a, b) }

func arrSort(idx, el string) string { return "(Array " + idx + " " + el + ")" }

// elemSort returns the element sort of an array sort
func elemSort(s string) string {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort " + s)
	}
	rest := s[len("(Array ") : len(s)-1]
	// skip the index sort
	d := 0
	for i, c := range rest {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return rest[i+1:]
		}
	}
	panic("bad sort " + s)
}

func sel(a, i *Term) *Term {
	// select over store with syntactically equal / distinct literal index
	if a.op == "store" {
		if a.args[1].str == i.str {
			return a.args[2]
		}
		if x, ok := asInt(a.args[1]); ok {
			if y, ok := asInt(i); ok && x.Cmp(y) != 0 {
				return sel(a.args[0], i)
			}
		}
	}
	if strings.HasPrefix(a.op, "(as const ") {
		return a.args[0]
	}
	return mk(elemSort(a.sort), "select", a, i)
}

func store(a, i, v *Term) *Term {
	if elemSort(a.sort) != v.sort {
		panic(fmt.Sprintf("store: sort mismatch: %s into %s", v.sort, a.sort))
	}
	return mk(a.sort, "store", a, i, v)
}

func constArr(idx string, v *Term) *Term {
	s := arrSort(idx, v.sort)
	return mk(s, "(as const "+s+")", v)
}

// subst replaces leaf names by terms
func subst(t *Term, m map[string]*Term) *Term {
	if t.q != nil {
		b := subst(t.q.body, m)
		ch := b != t.q.body
		var ps [][]*Term
		for _, p := range t.q.pats {
			var np []*Term
			for _, x := range p {
				y := subst(x, m)
				if y != x {
					ch = true
				}
				np = append(np, y)
			}
			ps = append(ps, np)
		}
		if !ch {
			return t
		}
		return quant(t.q.kind, t.q.vars, b, ps)
	}
	if len(t.args) == 0 {
		if r, ok := m[t.op]; ok {
			return r
		}
		return t
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = subst(a, m)
		if na[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch t.op {
	case "+":
		if t.sort == "Int" {
			return add(na...)
		}
	case "-":
		if t.sort == "Int" && len(na) == 2 {
			return sub(na[0], na[1])
		}
	case "*":
		if t.sort == "Int" && len(na) == 2 {
			return mul(na[0], na[1])
		}
	}
	return mk(t.sort, t.op, na...)
}

// quant builds a quantified formula. vars: "(x Int)". pats is a list of
// multi-patterns.
func quant(kind string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body.str == "true" || body.str == "false" {
		return body
	}
	var vs []string
	for _, v := range vars {
		vs = append(vs, "("+v.op+" "+v.sort+")")
	}
	bs := body.str
	if len(pats) > 0 {
		var s strings.Builder
		s.WriteString("(! " + body.str)
		for _, p := range pats {
			s.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					s.WriteByte(' ')
				}
				s.WriteString(x.str)
			}
			s.WriteString(")")
		}
		s.WriteString(")")
		bs = s.String()
	}
	str := "(" + kind + " (" + strings.Join(vs, " ") + ") " + bs + ")"
	return &Term{op: str, sort: "Bool", str: str, n: body.n + 1, q: &qinfo{kind, vars, body, pats}}
}

func mentions(t *Term, name string) bool {
	if t.q != nil {
		return mentions(t.q.body, name)
	}
	if len(t.args) == 0 {
		return t.op == name
	}
	for _, a := range t.args {
		if mentions(a, name) {
			return true
		}
	}
	return false
}
