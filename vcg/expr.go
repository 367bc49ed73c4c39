package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

func (c *Ctx) info(fr *Frame) *types.Info { return fr.pkg.info }

func (c *Ctx) constTerm(v constant.Value, t types.Type) *Term {
	if w, ok := c.bvWidth(t); ok {
		b, _ := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		return bvLit(b, w)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		if _, isI := under(t).(*types.Interface); isI {
			// constant converted to an interface
			dt := types.Default(constType(v))
			return c.box(c.constTerm(v, dt), dt)
		}
		panic(unsupported("constant of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolT(constant.BoolVal(v))
	case b.Info()&types.IsInteger != 0:
		x, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		if !ok {
			panic(unsupported("integer constant " + v.String()))
		}
		return intBig(x)
	case b.Info()&types.IsFloat != 0:
		return realConst(v)
	case b.Info()&types.IsString != 0:
		return c.strLit(constant.StringVal(v))
	}
	panic(unsupported("constant of type " + t.String()))
}

func constType(v constant.Value) types.Type {
	switch v.Kind() {
	case constant.Bool:
		return types.Typ[types.Bool]
	case constant.String:
		return types.Typ[types.String]
	case constant.Int:
		return types.Typ[types.Int]
	}
	return types.Typ[types.Float64]
}

func realConst(v constant.Value) *Term {
	f := constant.ToFloat(v)
	n, d := constant.Num(f), constant.Denom(f)
	num, _ := new(big.Int).SetString(n.ExactString(), 10)
	den, _ := new(big.Int).SetString(d.ExactString(), 10)
	if num == nil || den == nil {
		r, _ := new(big.Rat).SetString(f.ExactString())
		if r == nil {
			panic(unsupported("float constant"))
		}
		num, den = r.Num(), r.Denom()
	}
	neg := num.Sign() < 0
	num = new(big.Int).Abs(num)
	s := num.String() + ".0"
	if den.Cmp(big.NewInt(1)) != 0 {
		s = "(/ " + s + " " + den.String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return mk("Real", s)
}

// expr evaluates an expression
func (c *Ctx) expr(st *State, fr *Frame, e ast.Expr) Val {
	tv, ok := c.info(fr).Types[e]
	if ok && tv.Value != nil {
		t := tv.Type
		return &TV{c.constTerm(tv.Value, t), t}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.expr(st, fr, e.X)
	case *ast.Ident:
		return c.ident(st, fr, e)
	case *ast.BasicLit:
		panic(unsupported("literal"))
	case *ast.FuncLit:
		return &FuncVal{lit: e, fr: fr}
	case *ast.CompositeLit:
		return &TV{c.composite(st, fr, e, tv.Type), tv.Type}
	case *ast.SelectorExpr:
		return c.selector(st, fr, e)
	case *ast.IndexExpr:
		return c.index(st, fr, e)
	case *ast.SliceExpr:
		return c.sliceExpr(st, fr, e)
	case *ast.StarExpr:
		return c.loadLoc(st, c.deref(st, c.expr(st, fr, e.X), e.Pos()))
	case *ast.UnaryExpr:
		return c.unary(st, fr, e)
	case *ast.BinaryExpr:
		return c.binaryExpr(st, fr, e)
	case *ast.CallExpr:
		vs := c.call(st, fr, e)
		if len(vs) == 1 {
			return vs[0]
		}
		return &Tuple{vs}
	case *ast.TypeAssertExpr:
		x := c.term(c.expr(st, fr, e.X))
		t := tv.Type
		if tup, ok := t.(*types.Tuple); ok {
			t = tup.At(0).Type()
			v, okT := c.typeAssert(x, t)
			return &Tuple{[]Val{&TV{ite(okT, v, c.zeroOrIface(t)), t}, &TV{okT, types.Typ[types.Bool]}}}
		}
		v, okT := c.typeAssert(x, t)
		c.check(st, "typeassert", okT, e.Pos())
		return &TV{v, t}
	}
	panic(unsupported(fmt.Sprintf("expression %T at %s", e, c.where(e.Pos()))))
}

func (c *Ctx) zeroOrIface(t types.Type) *Term { return c.zero(t) }

func (c *Ctx) typeAssert(x *Term, t types.Type) (*Term, *Term) {
	if _, ok := under(t).(*types.Interface); ok {
		nm := "implements_" + typeKey(t)
		c.decl(nm, fmt.Sprintf("(declare-fun %s (Int) Bool)\n(assert (not (%s 0)))", nm, nm))
		return x, mk("Bool", nm, itag(x))
	}
	id := c.ifaceID(t)
	return c.unbox(x, t), eq(itag(x), intT(int64(id)))
}

func (c *Ctx) ident(st *State, fr *Frame, e *ast.Ident) Val {
	obj := c.info(fr).Uses[e]
	if obj == nil {
		obj = c.info(fr).Defs[e]
	}
	switch o := obj.(type) {
	case *types.Var:
		if l := c.varLoc(st, fr, o); l.v == nil {
			return c.loadLoc(st, l)
		}
		return c.varVal(st, o)
	case *types.Nil:
		t := c.info(fr).Types[e].Type
		return &TV{c.zero(t), t}
	case *types.Func:
		return &FuncVal{fn: o}
	case *types.Const:
		return &TV{c.constTerm(o.Val(), o.Type()), o.Type()}
	}
	panic(unsupported("identifier " + e.Name))
}

// varLoc is the location of a variable: itself, or its heap cell
func (c *Ctx) varLoc(st *State, fr *Frame, v *types.Var) *Loc {
	if fr != nil && c.isHeapified(fr, v) {
		if p, ok := st.vars[v]; ok {
			t := p.(*TV).t
			if el := c.rows[v]; el != nil {
				return &Loc{obj: pobj(t), idx: intT(0), base: el, typ: v.Type(), row: true}
			}
			return &Loc{obj: pobj(t), idx: pidx(t), base: v.Type(), typ: v.Type()}
		}
	}
	return &Loc{v: v, typ: v.Type()}
}

func (c *Ctx) isHeapified(fr *Frame, v *types.Var) bool {
	for f := fr; f != nil; f = f.parent {
		if f.heapified[v] {
			return true
		}
	}
	return false
}

// deref: pointer value to location
func (c *Ctx) deref(st *State, p Val, pos token.Pos) *Loc {
	switch p := p.(type) {
	case *LocPtr:
		return p.loc
	case *TV:
		pt, ok := under(p.typ).(*types.Pointer)
		if !ok {
			panic(unsupported("dereference of " + p.typ.String()))
		}
		c.check(st, "nil", not(eq(pobj(p.t), intT(0))), pos)
		return &Loc{obj: pobj(p.t), idx: pidx(p.t), base: pt.Elem(), typ: pt.Elem()}
	}
	panic(unsupported("dereference"))
}

func extendField(l *Loc, t types.Type, i int) *Loc {
	n := *l
	n.path = append(append([]pathEl(nil), l.path...), pathEl{field: i, typ: t})
	n.typ = under(t).(*types.Struct).Field(i).Type()
	return &n
}

func extendIdx(l *Loc, t types.Type, idx *Term) *Loc {
	n := *l
	n.path = append(append([]pathEl(nil), l.path...), pathEl{field: -1, idx: idx, typ: t})
	n.typ = under(t).(*types.Array).Elem()
	return &n
}

// lvalue evaluates an addressable (or assignable) expression to a location
func (c *Ctx) lvalue(st *State, fr *Frame, e ast.Expr) *Loc {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.lvalue(st, fr, e.X)
	case *ast.Ident:
		if e.Name == "_" {
			return &Loc{discard: true}
		}
		obj := c.info(fr).Uses[e]
		if obj == nil {
			obj = c.info(fr).Defs[e]
		}
		v, ok := obj.(*types.Var)
		if !ok {
			panic(unsupported("lvalue " + e.Name))
		}
		return c.varLoc(st, fr, v)
	case *ast.StarExpr:
		return c.deref(st, c.expr(st, fr, e.X), e.Pos())
	case *ast.SelectorExpr:
		if s, ok := c.info(fr).Selections[e]; ok && s.Kind() == types.FieldVal {
			return c.fieldLoc(st, fr, e.X, s.Index(), e.Pos())
		}
		if v, ok := c.info(fr).Uses[e.Sel].(*types.Var); ok {
			return &Loc{v: v, typ: v.Type()}
		}
	case *ast.IndexExpr:
		xt := c.info(fr).Types[e.X].Type
		switch u := under(xt).(type) {
		case *types.Slice:
			s := c.term(c.expr(st, fr, e.X))
			i := c.intTerm(c.expr(st, fr, e.Index))
			c.check(st, "bounds", and(le(intT(0), i), lt(i, slen(s))), e.Pos())
			return &Loc{obj: sobj(s), idx: add(soff(s), i), base: u.Elem(), typ: u.Elem()}
		case *types.Array:
			l := c.lvalue(st, fr, e.X)
			i := c.intTerm(c.expr(st, fr, e.Index))
			c.check(st, "bounds", and(le(intT(0), i), lt(i, intT(u.Len()))), e.Pos())
			return extendIdx(l, xt, i)
		case *types.Pointer:
			at := u.Elem()
			l := c.deref(st, c.expr(st, fr, e.X), e.Pos())
			i := c.intTerm(c.expr(st, fr, e.Index))
			c.check(st, "bounds", and(le(intT(0), i), lt(i, intT(under(at).(*types.Array).Len()))), e.Pos())
			return extendIdx(l, at, i)
		case *types.Map:
			m := c.term(c.expr(st, fr, e.X))
			k := c.convTerm(st, c.expr(st, fr, e.Index), u.Key())
			c.check(st, "nilmap", not(eq(pobj(m), intT(0))), e.Pos())
			return &Loc{mref: pobj(m), mkey: k, mtyp: xt, typ: u.Elem()}
		}
	case *ast.CompositeLit:
		// addressable only through &T{}
	}
	panic(unsupported(fmt.Sprintf("lvalue %T at %s", e, c.where(e.Pos()))))
}

// fieldLoc walks a selection index path starting from expression x
func (c *Ctx) fieldLoc(st *State, fr *Frame, x ast.Expr, index []int, pos token.Pos) *Loc {
	xt := c.info(fr).Types[x].Type
	var l *Loc
	var cur types.Type
	if p, ok := under(xt).(*types.Pointer); ok {
		l = c.deref(st, c.expr(st, fr, x), pos)
		cur = p.Elem()
	} else {
		l = c.lvalue(st, fr, x)
		cur = xt
	}
	for _, i := range index {
		if p, ok := under(cur).(*types.Pointer); ok {
			l = c.deref(st, c.loadLoc(st, l), pos)
			cur = p.Elem()
		}
		l = extendField(l, cur, i)
		cur = l.typ
	}
	return l
}

func (c *Ctx) addressable(fr *Frame, e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.addressable(fr, e.X)
	case *ast.Ident:
		v, ok := c.info(fr).Uses[e].(*types.Var)
		_ = v
		return ok
	case *ast.SelectorExpr:
		s, ok := c.info(fr).Selections[e]
		if !ok {
			_, isVar := c.info(fr).Uses[e.Sel].(*types.Var)
			return isVar
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if _, ok := under(c.info(fr).Types[e.X].Type).(*types.Pointer); ok {
			return true
		}
		return c.addressable(fr, e.X)
	case *ast.IndexExpr:
		switch under(c.info(fr).Types[e.X].Type).(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return c.addressable(fr, e.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func (c *Ctx) selector(st *State, fr *Frame, e *ast.SelectorExpr) Val {
	s, ok := c.info(fr).Selections[e]
	if !ok {
		switch o := c.info(fr).Uses[e.Sel].(type) {
		case *types.Var:
			return c.varVal(st, o)
		case *types.Func:
			return &FuncVal{fn: o}
		}
		panic(unsupported("selector " + e.Sel.Name))
	}
	switch s.Kind() {
	case types.FieldVal:
		if c.addressable(fr, e) {
			return c.loadLoc(st, c.fieldLoc(st, fr, e.X, s.Index(), e.Pos()))
		}
		// field of an rvalue
		v := c.expr(st, fr, e.X)
		return c.fieldOfVal(st, v, s.Index(), e.Pos())
	case types.MethodVal:
		return &FuncVal{fn: s.Obj().(*types.Func), recv: c.recvFor(st, fr, e, s)}
	case types.MethodExpr:
		return &FuncVal{fn: s.Obj().(*types.Func), meth: true}
	}
	panic(unsupported("selection"))
}

func (c *Ctx) fieldOfVal(st *State, v Val, index []int, pos token.Pos) Val {
	for _, i := range index {
		var t types.Type
		switch x := v.(type) {
		case *TV:
			t = x.typ
		case *LocPtr:
			v = c.loadLoc(st, extendField(x.loc, x.loc.typ, i))
			continue
		default:
			panic(unsupported("field of value"))
		}
		if p, ok := under(t).(*types.Pointer); ok {
			l := c.deref(st, v, pos)
			v = c.loadLoc(st, extendField(l, p.Elem(), i))
			continue
		}
		si := c.structOf(t)
		v = &TV{si.get(v.(*TV).t, i), si.st.Field(i).Type()}
	}
	return v
}

// recvFor evaluates the receiver of a method selection, with the implicit
// address / dereference and embedded fields
func (c *Ctx) recvFor(st *State, fr *Frame, e *ast.SelectorExpr, s *types.Selection) Val {
	fn := s.Obj().(*types.Func)
	idx := s.Index()
	idx = idx[:len(idx)-1]
	recv := fn.Type().(*types.Signature).Recv()
	_, wantPtr := under(recv.Type()).(*types.Pointer)
	if types.IsInterface(recv.Type()) {
		v := c.expr(st, fr, e.X)
		if len(idx) > 0 {
			v = c.fieldOfVal(st, v, idx, e.Pos())
		}
		return v
	}
	xt := c.info(fr).Types[e.X].Type
	if c.addressable(fr, e.X) || isPtr(xt) {
		if len(idx) == 0 {
			if isPtr(xt) {
				p := c.expr(st, fr, e.X)
				if wantPtr {
					return p
				}
				return c.loadLoc(st, c.deref(st, p, e.Pos()))
			}
			if wantPtr {
				return c.addrOf(st, fr, c.lvalue(st, fr, e.X))
			}
			return c.expr(st, fr, e.X)
		}
		l := c.fieldLoc(st, fr, e.X, idx, e.Pos())
		if isPtr(l.typ) {
			p := c.loadLoc(st, l)
			if wantPtr {
				return p
			}
			return c.loadLoc(st, c.deref(st, p, e.Pos()))
		}
		if wantPtr {
			return c.addrOf(st, fr, l)
		}
		return c.loadLoc(st, l)
	}
	v := c.expr(st, fr, e.X)
	if len(idx) > 0 {
		v = c.fieldOfVal(st, v, idx, e.Pos())
	}
	return v
}

func isPtr(t types.Type) bool { _, ok := under(t).(*types.Pointer); return ok }

// addrOf returns a pointer to the location: a Ptr term when the location is a
// whole heap cell
func (c *Ctx) addrOf(st *State, fr *Frame, l *Loc) Val {
	if l.v == nil && l.mref == nil && len(l.path) == 0 {
		return &TV{mkPtr(l.obj, l.idx), types.NewPointer(l.typ)}
	}
	return &LocPtr{l}
}

func (c *Ctx) index(st *State, fr *Frame, e *ast.IndexExpr) Val {
	xt := c.info(fr).Types[e.X].Type
	switch u := under(xt).(type) {
	case *types.Map:
		m := c.term(c.expr(st, fr, e.X))
		k := c.convTerm(st, c.expr(st, fr, e.Index), u.Key())
		has, val, _ := c.mapKeys(xt)
		h := and(not(eq(pobj(m), intT(0))), sel(sel(c.heapGet(st, has), pobj(m)), k))
		v := sel(sel(c.heapGet(st, val), pobj(m)), k)
		rt := c.info(fr).Types[e].Type
		mv := c.name(ite(h, v, c.zero(u.Elem())), "mapv")
		c.assume(st, c.typeFact(mv, u.Elem(), st.alloc))
		if _, ok := rt.(*types.Tuple); ok {
			return &Tuple{[]Val{&TV{mv, u.Elem()}, &TV{h, types.Typ[types.Bool]}}}
		}
		return &TV{mv, u.Elem()}
	case *types.Basic: // string
		s := c.term(c.expr(st, fr, e.X))
		i := c.intTerm(c.expr(st, fr, e.Index))
		c.check(st, "bounds", and(le(intT(0), i), lt(i, strLen(s))), e.Pos())
		return &TV{strAt(s, i), types.Typ[types.Uint8]}
	case *types.Array:
		if !c.addressable(fr, e.X) {
			a := c.term(c.expr(st, fr, e.X))
			i := c.intTerm(c.expr(st, fr, e.Index))
			c.check(st, "bounds", and(le(intT(0), i), lt(i, intT(u.Len()))), e.Pos())
			return &TV{sel(a, i), u.Elem()}
		}
	}
	l := c.lvalue(st, fr, e)
	v := c.loadLoc(st, l)
	return v
}

func (c *Ctx) intTerm(v Val) *Term {
	t := c.term(v)
	if isBV(t.sort) {
		return mk("Int", "bv2nat", t)
	}
	return t
}

func (c *Ctx) sliceExpr(st *State, fr *Frame, e *ast.SliceExpr) Val {
	xt := c.info(fr).Types[e.X].Type
	get := func(x ast.Expr, def *Term) *Term {
		if x == nil {
			return def
		}
		return c.intTerm(c.expr(st, fr, x))
	}
	switch u := under(xt).(type) {
	case *types.Basic: // string
		s := c.term(c.expr(st, fr, e.X))
		lo := get(e.Low, intT(0))
		hi := get(e.High, strLen(s))
		c.check(st, "slicebounds", and(le(intT(0), lo), le(lo, hi), le(hi, strLen(s))), e.Pos())
		return &TV{mk("Str", "ssub", s, lo, hi), xt}
	case *types.Slice:
		s := c.term(c.expr(st, fr, e.X))
		lo := get(e.Low, intT(0))
		hi := get(e.High, slen(s))
		cp := scap(s)
		if e.Max != nil {
			cp = get(e.Max, cp)
		}
		c.check(st, "slicebounds", and(le(intT(0), lo), le(lo, hi), le(hi, cp), le(cp, scap(s))), e.Pos())
		return &TV{c.name(mkSlice(sobj(s), add(soff(s), lo), sub(hi, lo), sub(cp, lo)), "slice"), xt}
	case *types.Array:
		// slicing an array: only a read-only view of a global or heap cell is supported
		if id, ok := ast.Unparen(e.X).(*ast.Ident); ok && e.Max == nil {
			if v, ok := c.info(fr).Uses[id].(*types.Var); ok && c.rows[v] != nil {
				l := c.varLoc(st, fr, v)
				n := intT(u.Len())
				lo := get(e.Low, intT(0))
				hi := get(e.High, n)
				c.check(st, "slicebounds", and(le(intT(0), lo), le(lo, hi), le(hi, n)), e.Pos())
				return &TV{c.name(mkSlice(l.obj, lo, sub(hi, lo), sub(n, lo)), "slice"), types.NewSlice(u.Elem())}
			}
		}
		panic(unsupported("slicing an array"))
	}
	panic(unsupported("slice expression"))
}

func (c *Ctx) unary(st *State, fr *Frame, e *ast.UnaryExpr) Val {
	t := c.info(fr).Types[e].Type
	switch e.Op {
	case token.AND:
		x := e.X
		for {
			if p, ok := x.(*ast.ParenExpr); ok {
				x = p.X
				continue
			}
			break
		}
		if cl, ok := x.(*ast.CompositeLit); ok {
			et := c.info(fr).Types[cl].Type
			v := c.composite(st, fr, cl, et)
			o := c.newObj(st)
			c.storeCell(st, o, intT(0), et, v)
			return &TV{mkPtr(o, intT(0)), t}
		}
		return c.addrOf(st, fr, c.lvalue(st, fr, x))
	case token.NOT:
		return &TV{not(c.term(c.expr(st, fr, e.X))), t}
	case token.SUB:
		x := c.term(c.expr(st, fr, e.X))
		if isBV(x.sort) {
			return &TV{mk(x.sort, "bvneg", x), t}
		}
		if x.sort == "Real" {
			return &TV{mk("Real", "-", x), t}
		}
		return &TV{c.wrap(sub(intT(0), x), t), t}
	case token.ADD:
		return c.expr(st, fr, e.X)
	case token.XOR:
		x := c.term(c.expr(st, fr, e.X))
		if isBV(x.sort) {
			return &TV{mk(x.sort, "bvnot", x), t}
		}
		bits, signed, _ := intInfo(t)
		if signed {
			return &TV{sub(intT(-1), x), t}
		}
		_ = bits
		_, hi := intRange(bits, false)
		c.complementOf(x, bits)
		return &TV{sub(intBig(hi), x), t}
	}
	panic(unsupported("unary " + e.Op.String()))
}

// complementOf emits the bit facts of ^x for a word
func (c *Ctx) complementOf(x *Term, bits int) {}

func (c *Ctx) binaryExpr(st *State, fr *Frame, e *ast.BinaryExpr) Val {
	t := c.info(fr).Types[e].Type
	switch e.Op {
	case token.LAND, token.LOR:
		l := c.term(c.expr(st, fr, e.X))
		s2 := st.clone()
		var cond *Term
		if e.Op == token.LAND {
			cond = l
		} else {
			cond = not(l)
		}
		cond = c.name(cond, "c")
		s2.pc = and(st.pc, cond)
		if s2.pc.str == "false" {
			return &TV{boolT(e.Op == token.LOR), t}
		}
		r := c.term(c.expr(s2, fr, e.Y))
		// did the right operand change the state?
		if stateChanged(st, s2) {
			s1 := st.clone()
			s1.pc = and(st.pc, not(cond))
			m := c.merge([]*State{s2, s1})
			pc := st.pc
			*st = *m
			st.pc = pc
		}
		if e.Op == token.LAND {
			return &TV{and(l, r), t}
		}
		return &TV{or(l, r), t}
	}
	x := c.expr(st, fr, e.X)
	y := c.expr(st, fr, e.Y)
	xt, yt := c.info(fr).Types[e.X].Type, c.info(fr).Types[e.Y].Type
	return &TV{c.binop(st, e.Op, x, y, xt, yt, t, e.Pos()), t}
}

func stateChanged(a, b *State) bool {
	if a.alloc.str != b.alloc.str || len(a.heap) != len(b.heap) {
		return true
	}
	for k, v := range b.heap {
		if w, ok := a.heap[k]; !ok || w.str != v.str {
			return true
		}
	}
	for k, v := range a.vars {
		if w, ok := b.vars[k]; !ok || !sameVal(v, w) {
			return true
		}
	}
	return false
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (c *Ctx) binop(st *State, op token.Token, xv, yv Val, xt, yt, rt types.Type, pos token.Pos) *Term {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		// pointer comparisons with aliases
		if lp, ok := xv.(*LocPtr); ok {
			return c.ptrCmp(op, lp, yv)
		}
		if lp, ok := yv.(*LocPtr); ok {
			return c.ptrCmp(op, lp, xv)
		}
		if _, ok := xv.(*FuncVal); ok {
			return boolT(op == token.NEQ) // function compared with nil
		}
		// bring to a common type
		ct := xt
		if isUntyped(xt) || (types.IsInterface(yt) && !types.IsInterface(xt)) {
			ct = yt
		}
		x, y := c.convTerm(st, xv, ct), c.convTerm(st, yv, ct)
		switch op {
		case token.EQL:
			return c.equal(st, x, y, ct)
		case token.NEQ:
			return not(c.equal(st, x, y, ct))
		}
		if isBV(x.sort) {
			_, signed, _ := intInfo(ct)
			m := map[token.Token]string{token.LSS: "bvult", token.LEQ: "bvule", token.GTR: "bvugt", token.GEQ: "bvuge"}
			if signed {
				m = map[token.Token]string{token.LSS: "bvslt", token.LEQ: "bvsle", token.GTR: "bvsgt", token.GEQ: "bvsge"}
			}
			return mk("Bool", m[op], x, y)
		}
		if x.sort == "Str" {
			return c.strCmp(op, x, y)
		}
		switch op {
		case token.LSS:
			return lt(x, y)
		case token.LEQ:
			return le(x, y)
		case token.GTR:
			return lt(y, x)
		default:
			return le(y, x)
		}
	case token.SHL, token.SHR:
		x := c.convTerm(st, xv, rt)
		k := c.intTerm(yv)
		return c.shift(st, op, x, k, rt, pos)
	}
	x, y := c.convTerm(st, xv, rt), c.convTerm(st, yv, rt)
	return c.arith(st, op, x, y, rt, pos)
}

func (c *Ctx) strCmp(op token.Token, x, y *Term) *Term {
	l := mk("Bool", "slt", x, y)
	switch op {
	case token.LSS:
		return l
	case token.GEQ:
		return not(l)
	case token.GTR:
		return mk("Bool", "slt", y, x)
	default:
		return not(mk("Bool", "slt", y, x))
	}
}

func (c *Ctx) ptrCmp(op token.Token, lp *LocPtr, o Val) *Term {
	if tv, ok := o.(*TV); ok {
		if tv.t.str == nilPtr.str {
			return boolT(op == token.NEQ)
		}
	}
	if lq, ok := o.(*LocPtr); ok && lp.loc == lq.loc {
		return boolT(op == token.EQL)
	}
	panic(unsupported("comparison of interior pointers"))
}

// equal is the Go == on values of type t
func (c *Ctx) equal(st *State, x, y *Term, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Slice:
		// only comparison with nil
		if y.str == nilSlice.str {
			return eq(sobj(x), intT(0))
		}
		if x.str == nilSlice.str {
			return eq(sobj(y), intT(0))
		}
		return eq(x, y)
	case *types.Array:
		if u.Len() <= 16 {
			var cs []*Term
			for i := int64(0); i < u.Len(); i++ {
				cs = append(cs, c.equal(st, sel(x, intT(i)), sel(y, intT(i)), u.Elem()))
			}
			return and(cs...)
		}
		v := c.boundVar("q", "Int")
		return quant("forall", []*Term{v}, imp(and(le(intT(0), v), lt(v, intT(u.Len()))), eq(sel(x, v), sel(y, v))), nil)
	case *types.Struct:
		si := c.structOf(t)
		if !hasArr(t) && !hasStr(t) {
			return eq(x, y)
		}
		var cs []*Term
		for i := range si.fields {
			cs = append(cs, c.equal(st, si.get(x, i), si.get(y, i), si.st.Field(i).Type()))
		}
		return and(cs...)
	case *types.Basic:
		if x.sort == "Str" {
			c.strExt(x, y)
		}
	}
	return eq(x, y)
}

func hasStr(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasStr(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// strExt emits the ground extensionality fact for two strings
func (c *Ctx) strExt(x, y *Term) {
	if c.noName > 0 {
		return
	}
	d := mk("Int", "sdiff", x, y)
	c.assumeRaw(or(eq(x, y), not(eq(strLen(x), strLen(y))), and(le(intT(0), d), lt(d, strLen(x)), not(eq(strAt(x, d), strAt(y, d))))))
}

// abstractMul tells whether the products and quotients of two variables are
// uninterpreted in the function under verification (option abstractmul)
func (c *Ctx) abstractMul() bool {
	if c.fd == nil {
		return c.absMul
	}
	sp := c.w.specs.funcs[c.fd.pkg.path+"."+c.fd.name]
	return sp != nil && sp.opts["abstractmul"] != ""
}

func isInt(t *Term) bool {
	_, ok := asInt(t)
	return ok
}

// wrap brings a mathematical integer in the range of the type
func (c *Ctx) wrap(x *Term, t types.Type) *Term {
	bits, signed, ok := intInfo(t)
	if !ok || x.sort != "Int" {
		return x
	}
	if bits == 64 && signed || c.isMath(t) {
		return x
	}
	if v, ok := asInt(x); ok {
		m := new(big.Int).And(v, new(big.Int).Sub(pow2(bits), big.NewInt(1)))
		if signed && m.Cmp(pow2(bits-1)) >= 0 {
			m.Sub(m, pow2(bits))
		}
		return intBig(m)
	}
	nm := fmt.Sprintf("wrapU%d", bits)
	if signed {
		nm = fmt.Sprintf("wrapS%d", bits)
	}
	return mk("Int", nm, x)
}

func (c *Ctx) isMath(t types.Type) bool {
	if c.mathInt {
		return true
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return c.w.specs.mathT[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	}
	return false
}

// mask analysis
func lowMask(v *big.Int) (int, bool) {
	k := v.BitLen()
	if k > 0 && new(big.Int).Add(v, big.NewInt(1)).Cmp(pow2(k)) == 0 {
		return k, true
	}
	return 0, false
}

func modT(x *Term, m *big.Int) *Term {
	if v, ok := asInt(x); ok {
		return intBig(new(big.Int).Mod(v, m))
	}
	return mk("Int", "mod", x, intBig(m))
}

func divT(x *Term, m *big.Int) *Term {
	if v, ok := asInt(x); ok {
		q := new(big.Int)
		q.Div(v, m)
		return intBig(q)
	}
	return mk("Int", "div", x, intBig(m))
}

func (c *Ctx) bit(x *Term, k *Term) *Term { return mk("Bool", "bit", x, k) }

func (c *Ctx) bitArith(x *Term, k int) *Term {
	return eq(modT(divT(x, pow2(k)), big.NewInt(2)), intT(1))
}

func (c *Ctx) arith(st *State, op token.Token, x, y *Term, t types.Type, pos token.Pos) *Term {
	if isBV(x.sort) {
		m := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}
		if o, ok := m[op]; ok {
			return mk(x.sort, o, x, y)
		}
		if op == token.AND_NOT {
			return mk(x.sort, "bvand", x, mk(x.sort, "bvnot", y))
		}
		panic(unsupported("bit vector " + op.String()))
	}
	if x.sort == "Str" && op == token.ADD {
		return mk("Str", "scat", x, y)
	}
	if x.sort == "Real" {
		switch op {
		case token.ADD:
			return mk("Real", "+", x, y)
		case token.SUB:
			return mk("Real", "-", x, y)
		case token.MUL:
			return mk("Real", "*", x, y)
		case token.QUO:
			// floating division by zero does not panic: the quotient is
			// left unspecified by the solver
			return mk("Real", "/", x, y)
		}
		panic(unsupported("float " + op.String()))
	}
	bits, signed, ok := intInfo(t)
	if !ok {
		panic(unsupported("arithmetic on " + t.String()))
	}
	switch op {
	case token.ADD:
		return c.wrap(add(x, y), t)
	case token.SUB:
		return c.wrap(sub(x, y), t)
	case token.MUL:
		if c.abstractMul() && !isInt(x) && !isInt(y) {
			return c.wrap(mk("Int", "vmul", x, y), t)
		}
		return c.wrap(mul(x, y), t)
	case token.QUO, token.REM:
		if st != nil {
			c.check(st, "divzero", not(eq(y, intT(0))), pos)
		}
		xv, xl := asInt(x)
		yv, yl := asInt(y)
		if xl && yl && yv.Sign() != 0 {
			if op == token.QUO {
				return intBig(new(big.Int).Quo(xv, yv))
			}
			return intBig(new(big.Int).Rem(xv, yv))
		}
		if c.abstractMul() && !yl {
			if op == token.QUO {
				return c.wrap(mk("Int", "vdiv", x, y), t)
			}
			return mk("Int", "vmod", x, y)
		}
		if !signed {
			if op == token.QUO {
				return mk("Int", "div", x, y)
			}
			return mk("Int", "mod", x, y)
		}
		if op == token.QUO {
			if !yl {
				return c.wrap(mk("Int", "goDiv", x, y), t) // the smallest value divided by -1
			}
			return mk("Int", "goDiv", x, y)
		}
		return mk("Int", "goMod", x, y)
	case token.AND:
		if z := complOf(y, bits, signed); z != nil {
			return mk("Int", "bandn", x, z)
		}
		if z := complOf(x, bits, signed); z != nil {
			return mk("Int", "bandn", y, z)
		}
		if v, ok := asInt(x); ok {
			if _, ok := asInt(y); !ok {
				x, y = y, x
				_ = v
			}
		}
		if v, ok := asInt(y); ok {
			if xv, ok := asInt(x); ok {
				return intBig(new(big.Int).And(xv, v))
			}
			if v.Sign() == 0 {
				return intT(0)
			}
			if v.Sign() < 0 { // ^mask
				nv := new(big.Int).Not(v)
				if k, ok := lowMask(nv); ok {
					return sub(x, modT(x, pow2(k)))
				}
			}
			if k, ok := lowMask(v); ok {
				return modT(x, pow2(k))
			}
			if popcount(v) <= 8 && v.Sign() > 0 {
				var parts []*Term
				for i := 0; i < v.BitLen(); i++ {
					if v.Bit(i) == 1 {
						parts = append(parts, ite(c.bitArith(x, i), intBig(pow2(i)), intT(0)))
					}
				}
				return add(parts...)
			}
			// mask of the form 1..10..0
			if !signed {
				_, hi := intRange(bits, false)
				nv := new(big.Int).Sub(hi, v)
				if k, ok := lowMask(nv); ok {
					return sub(x, modT(x, pow2(k)))
				}
			}
		}
		return mk("Int", "band", x, y)
	case token.AND_NOT:
		if v, ok := asInt(y); ok {
			if xv, ok := asInt(x); ok {
				return intBig(new(big.Int).AndNot(xv, v))
			}
			if k, ok := lowMask(v); ok {
				return sub(x, modT(x, pow2(k)))
			}
		}
		return mk("Int", "bandn", x, y)
	case token.OR:
		if v, ok := asInt(x); ok {
			if yv, ok := asInt(y); ok {
				return intBig(new(big.Int).Or(v, yv))
			}
			x, y = y, x
		}
		if v, ok := asInt(y); ok {
			if v.Sign() == 0 {
				return x
			}
			if popcount(v) <= 2 && v.Sign() > 0 {
				r := x
				for i := 0; i < v.BitLen(); i++ {
					if v.Bit(i) == 1 {
						r = ite(c.bitArith(r, i), r, add(r, intBig(pow2(i))))
					}
				}
				return r
			}
		}
		return mk("Int", "bor", x, y)
	case token.XOR:
		if v, ok := asInt(y); ok {
			if xv, ok := asInt(x); ok {
				return intBig(new(big.Int).Xor(xv, v))
			}
			if v.Cmp(big.NewInt(1)) == 0 {
				return ite(c.bitArith(x, 0), sub(x, intT(1)), add(x, intT(1)))
			}
		}
		return mk("Int", "bxor", x, y)
	}
	panic(unsupported("operator " + op.String()))
}

func popcount(v *big.Int) int {
	n := 0
	for i := 0; i < v.BitLen(); i++ {
		if v.Bit(i) == 1 {
			n++
		}
	}
	return n
}

func (c *Ctx) shift(st *State, op token.Token, x, k *Term, t types.Type, pos token.Pos) *Term {
	if isBV(x.sort) {
		w := bvW(x.sort)
		var kk *Term
		if v, ok := asInt(k); ok {
			kk = bvLit(v, w)
		} else {
			kk = mk(x.sort, fmt.Sprintf("(_ int2bv %d)", w), k)
		}
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
			if _, signed, _ := intInfo(t); signed {
				o = "bvashr"
			}
		}
		return mk(x.sort, o, x, kk)
	}
	bits, signed, _ := intInfo(t)
	if v, ok := asInt(k); ok {
		if xv, ok := asInt(x); ok {
			if op == token.SHL {
				return c.wrap(intBig(new(big.Int).Lsh(xv, uint(v.Int64()))), t)
			}
			return intBig(new(big.Int).Rsh(xv, uint(v.Int64())))
		}
		n := int(v.Int64())
		if op == token.SHL {
			if n >= bits {
				return intT(0)
			}
			return c.wrap(mul(x, intBig(pow2(n))), t)
		}
		if n >= bits && !signed {
			return intT(0)
		}
		return divT(x, pow2(n))
	}
	if st != nil {
		c.check(st, "shift", le(intT(0), k), pos)
	}
	if op == token.SHL {
		if xv, ok := asInt(x); ok && xv.Cmp(big.NewInt(1)) == 0 {
			return mk("Int", fmt.Sprintf("shl1_%d", bits), k)
		}
		return mk("Int", fmt.Sprintf("shlv_%d", bits), x, k)
	}
	return mk("Int", "shrv", x, k)
}

// convTerm converts value v to type t (implicit or explicit conversion)
func (c *Ctx) convTerm(st *State, v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *FuncVal:
		if types.IsInterface(t) {
			panic(unsupported("function in interface"))
		}
		return c.funcConst(x)
	case *LocPtr:
		return c.term(v)
	case *TV:
		return c.convert(st, x.t, x.typ, t)
	}
	return c.term(v)
}

func (c *Ctx) convert(st *State, x *Term, from, to types.Type) *Term {
	if types.Identical(from, to) {
		return x
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return c.zero(to)
	}
	if types.IsInterface(to) {
		if types.IsInterface(from) {
			return x
		}
		return c.box(x, from)
	}
	if isUntyped(to) {
		return x
	}
	fw, fbv := c.bvWidth(from)
	tw, tbv := c.bvWidth(to)
	if fbv || isBV(x.sort) {
		if !fbv {
			fw = bvW(x.sort)
		}
		if tbv {
			_, fs, _ := intInfo(from)
			switch {
			case fw == tw:
				return x
			case fw > tw:
				return mk(fmt.Sprintf("(_ BitVec %d)", tw), fmt.Sprintf("(_ extract %d 0)", tw-1), x)
			case fs:
				return mk(fmt.Sprintf("(_ BitVec %d)", tw), fmt.Sprintf("(_ sign_extend %d)", tw-fw), x)
			default:
				return mk(fmt.Sprintf("(_ BitVec %d)", tw), fmt.Sprintf("(_ zero_extend %d)", tw-fw), x)
			}
		}
		_, fs, _ := intInfo(from)
		n := mk("Int", "bv2nat", x)
		if fs {
			n = ite(mk("Bool", "bvslt", x, bvLit(big.NewInt(0), fw)), sub(n, intBig(pow2(fw))), n)
		}
		return c.wrap(n, to)
	}
	_, fsig, fint := intInfo(from)
	_ = fsig
	_, _, tint := intInfo(to)
	switch {
	case fint && tint:
		if tbv {
			if v, ok := asInt(x); ok {
				return bvLit(v, tw)
			}
			return mk(fmt.Sprintf("(_ BitVec %d)", tw), fmt.Sprintf("(_ int2bv %d)", tw), x)
		}
		fb, fs, _ := intInfo(from)
		tb, ts, _ := intInfo(to)
		if (fs == ts && tb >= fb) || (!fs && ts && tb > fb) {
			return x
		}
		return c.wrap(x, to)
	case fint && isFloat(to):
		if v, ok := asInt(x); ok {
			if v.Sign() < 0 {
				return mk("Real", fmt.Sprintf("(- %s.0)", new(big.Int).Neg(v).String()))
			}
			return mk("Real", v.String()+".0")
		}
		return mk("Real", "to_real", x)
	case isFloat(from) && tint:
		// truncation toward zero
		f := ite(mk("Bool", "<=", mk("Real", "0.0"), x), mk("Int", "to_int", x), mk("Int", "-", mk("Int", "to_int", mk("Real", "-", x))))
		return c.wrap(f, to)
	case isFloat(from) && isFloat(to):
		return x
	}
	if c.sortOf(from) == c.sortOf(to) {
		if _, isS := under(from).(*types.Struct); isS && typeKey(from) != typeKey(to) {
			// same structure, different datatype: impossible here, sorts differ
		}
		return x
	}
	// conversions between named struct types
	if fs, ok := under(from).(*types.Struct); ok {
		if _, ok := under(to).(*types.Struct); ok {
			a, b := c.structOf(from), c.structOf(to)
			vs := make([]*Term, fs.NumFields())
			for i := range vs {
				vs[i] = a.get(x, i)
			}
			return b.make(vs)
		}
	}
	switch {
	case isString(from) && isByteSlice(to):
		return c.bytesOf(st, x, to)
	case isByteSlice(from) && isString(to):
		return c.stringOf(st, x)
	case isString(to) || isString(from):
		// other conversions ([]rune, rune): unspecified result
		if c.noName > 0 || st == nil {
			panic(unsupported("string conversion in a specification"))
		}
		r := c.fresh("conv", c.sortOf(to))
		c.assume(st, c.typeFact(r, to, st.alloc))
		if sl, ok := under(to).(*types.Slice); ok {
			o := c.newObj(st)
			c.assume(st, and(eq(sobj(r), o), eq(soff(r), intT(0))))
			for _, k := range c.heapKeys(sl.Elem()) {
				h := c.heapGet(st, k)
				c.heapSet(st, k, store(h, o, c.fresh("convdata", elemSort(h.sort))))
			}
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", from, to)))
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (c *Ctx) bytesOf(st *State, s *Term, to types.Type) *Term {
	if c.noName > 0 || st == nil {
		panic(unsupported("[]byte(string) in a specification"))
	}
	o := c.newObj(st)
	el := under(to).(*types.Slice).Elem()
	k := c.cellKey(el)
	h := c.heapGet(st, k)
	arr := c.fresh("bytes", elemSort(h.sort))
	x := c.boundVar("x", "Int")
	c.assumeRaw(quant("forall", []*Term{x}, imp(and(le(intT(0), x), lt(x, strLen(s))), eq(sel(arr, x), strAt(s, x))), [][]*Term{{sel(arr, x)}}))
	c.heapSet(st, k, store(h, o, arr))
	cp := c.fresh("cap", "Int")
	c.assume(st, le(strLen(s), cp))
	return mkSlice(o, intT(0), strLen(s), cp)
}

func (c *Ctx) stringOf(st *State, b *Term) *Term {
	if c.noName > 0 || st == nil {
		panic(unsupported("string([]byte) in a specification"))
	}
	s := c.fresh("str", "Str")
	k := c.cellKey(types.Typ[types.Uint8])
	arr := sel(c.heapGet(st, k), sobj(b))
	c.assume(st, eq(strLen(s), slen(b)))
	x := c.boundVar("x", "Int")
	c.assume(st, quant("forall", []*Term{x}, imp(and(le(intT(0), x), lt(x, slen(b))), eq(strAt(s, x), sel(arr, add(soff(b), x)))), [][]*Term{{strAt(s, x)}}))
	return s
}

// composite literals
func (c *Ctx) composite(st *State, fr *Frame, e *ast.CompositeLit, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Struct:
		si := c.structOf(t)
		vs := make([]*Term, u.NumFields())
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						vs[j] = c.convTerm(st, c.eltExpr(st, fr, kv.Value, u.Field(j).Type()), u.Field(j).Type())
					}
				}
			} else {
				vs[i] = c.convTerm(st, c.eltExpr(st, fr, el, u.Field(i).Type()), u.Field(i).Type())
			}
		}
		for j := range vs {
			if vs[j] == nil {
				vs[j] = c.zero(u.Field(j).Type())
			}
		}
		return si.make(vs)
	case *types.Array:
		a := c.zero(t)
		idx := int64(0)
		for _, el := range e.Elts {
			v := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k, _ := constant.Int64Val(constant.ToInt(c.info(fr).Types[kv.Key].Value))
				idx = k
				v = kv.Value
			}
			a = store(a, intT(idx), c.convTerm(st, c.eltExpr(st, fr, v, u.Elem()), u.Elem()))
			idx++
		}
		return a
	case *types.Slice:
		n := int64(0)
		idx := int64(0)
		o := c.newObj(st)
		keys := c.heapKeys(u.Elem())
		zero := c.zero(u.Elem())
		type iv struct {
			i int64
			v *Term
		}
		var vals []iv
		for _, el := range e.Elts {
			v := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k, _ := constant.Int64Val(constant.ToInt(c.info(fr).Types[kv.Key].Value))
				idx = k
				v = kv.Value
			}
			vals = append(vals, iv{idx, c.convTerm(st, c.eltExpr(st, fr, v, u.Elem()), u.Elem())})
			idx++
			if idx > n {
				n = idx
			}
		}
		si, isStruct := c.elemStruct(u.Elem())
		for ki, k := range keys {
			h := c.heapGet(st, k)
			proj := func(v *Term) *Term {
				if isStruct {
					return si.get(v, ki)
				}
				return v
			}
			a := constArr("Int", proj(zero))
			for _, x := range vals {
				a = store(a, intT(x.i), proj(x.v))
			}
			c.heapSet(st, k, store(h, o, a))
		}
		return mkSlice(o, intT(0), intT(n), intT(n))
	case *types.Map:
		m := c.makeMap(st, t)
		has, val, card := c.mapKeys(t)
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := c.convTerm(st, c.eltExpr(st, fr, kv.Key, u.Key()), u.Key())
			v := c.convTerm(st, c.eltExpr(st, fr, kv.Value, u.Elem()), u.Elem())
			_, _, _ = has, val, card
			c.storeMap(st, t, pobj(m), k, v)
		}
		return m
	}
	panic(unsupported("composite literal " + t.String()))
}

func (c *Ctx) storeMap(st *State, t types.Type, ref, k, v *Term) {
	has, val, card := c.mapKeys(t)
	hh, hv, hc := c.heapGet(st, has), c.heapGet(st, val), c.heapGet(st, card)
	was := sel(sel(hh, ref), k)
	c.heapSet(st, card, store(hc, ref, add(sel(hc, ref), ite(was, intT(0), intT(1)))))
	c.heapSet(st, has, store(hh, ref, store(sel(hh, ref), k, tTrue)))
	c.heapSet(st, val, store(hv, ref, store(sel(hv, ref), k, v)))
}

func (c *Ctx) makeMap(st *State, t types.Type) *Term {
	has, val, card := c.mapKeys(t)
	m := under(t).(*types.Map)
	o := c.newObj(st)
	ks := c.sortOf(m.Key())
	c.heapSet(st, has, store(c.heapGet(st, has), o, constArr(ks, tFalse)))
	_ = val
	c.heapSet(st, card, store(c.heapGet(st, card), o, intT(0)))
	return mkPtr(o, intT(0))
}

func (c *Ctx) elemStruct(t types.Type) (*structInfo, bool) {
	if _, ok := under(t).(*types.Struct); ok {
		return c.structOf(t), true
	}
	return nil, false
}

func (c *Ctx) eltExpr(st *State, fr *Frame, e ast.Expr, t types.Type) Val {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		// elided type: recorded by the type checker
		if p, ok := under(t).(*types.Pointer); ok {
			v := c.composite(st, fr, cl, p.Elem())
			o := c.newObj(st)
			c.storeCell(st, o, intT(0), p.Elem(), v)
			return &TV{mkPtr(o, intT(0)), t}
		}
		return &TV{c.composite(st, fr, cl, t), t}
	}
	return c.expr(st, fr, e)
}

// complOf recognises ^z
func complOf(t *Term, bits int, signed bool) *Term {
	if t.op != "+" {
		return nil
	}
	l := newLin()
	linearize(t, big.NewInt(1), l)
	want := big.NewInt(-1)
	if !signed {
		_, want = intRange(bits, false)
	}
	if l.c.Cmp(want) != 0 {
		return nil
	}
	var z *Term
	for k, cf := range l.coef {
		if cf.Sign() == 0 {
			continue
		}
		if z != nil || cf.Cmp(big.NewInt(-1)) != 0 {
			return nil
		}
		z = l.atoms[k]
	}
	return z
}
