package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// SVal is the value of a specification expression
type SVal struct {
	t    *Term
	typ  types.Type
	val  Val // function values and aliases
	lazy func(*State) *SVal
	hst  *State // heap in which references of this value are read (nil: current)
	tp   types.Type
	fn   *types.Func
	recv *SVal
}

// polarity of a boolean expression
const (
	polHyp  = 0 // the formula is assumed
	polGoal = 1 // the formula is proved
	polBoth = 2
)

// Env evaluates specification expressions
type Env struct {
	c         *Ctx
	names     map[string]*SVal
	st        *State
	old       *State
	oldNames  map[string]*SVal
	fr        *Frame
	scopeP    token.Pos
	pkg       *Pkg
	callee    bool
	atEntry   bool
	entryLoop *State
	cur       *State // the state outside old(…), for variables born since
	depth     int
	recOf     *SpecFunc // evaluating the body of a recursive function
}

func flip(p int) int {
	switch p {
	case polHyp:
		return polGoal
	case polGoal:
		return polHyp
	}
	return polBoth
}

func (env *Env) boolClause(cl *Clause, hyp bool) *Term {
	env.c.quiet++
	defer func() { env.c.quiet-- }()
	p := polGoal
	if hyp {
		p = polHyp
	}
	return env.b(cl.expr, p)
}

func (env *Env) intExpr(e ast.Expr) *Term {
	env.c.quiet++
	defer func() { env.c.quiet-- }()
	return env.c.svInt(env.eval(e))
}

func (c *Ctx) svInt(v *SVal) *Term {
	if isBV(v.t.sort) {
		return mk("Int", "bv2nat", v.t)
	}
	return v.t
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tUInt = types.Typ[types.UntypedInt]

func (env *Env) fail(e ast.Expr, msg string) {
	panic(unsupported("spec: " + msg + " in " + exprStr(e)))
}

func exprStr(e ast.Expr) string {
	if e == nil {
		return "?"
	}
	defer func() { recover() }()
	return types.ExprString(e)
}

// b evaluates a boolean expression with a polarity
func (env *Env) b(e ast.Expr, pol int) *Term {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return env.b(e.X, pol)
	case *ast.UnaryExpr:
		if e.Op == token.NOT {
			return not(env.b(e.X, flip(pol)))
		}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			return and(env.b(e.X, pol), env.b(e.Y, pol))
		case token.LOR:
			return or(env.b(e.X, pol), env.b(e.Y, pol))
		case token.EQL, token.NEQ:
			// boolean equality: both polarities
		}
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "imp'":
				return imp(env.b(e.Args[0], flip(pol)), env.b(e.Args[1], pol))
			case "iff'":
				if pol != polBoth && (env.hasQuant(e.Args[0], 0) || env.hasQuant(e.Args[1], 0)) {
					return and(imp(env.b(e.Args[0], flip(pol)), env.b(e.Args[1], pol)),
						imp(env.b(e.Args[1], flip(pol)), env.b(e.Args[0], pol)))
				}
				return eq(env.b(e.Args[0], polBoth), env.b(e.Args[1], polBoth))
			case "forall'", "exists'":
				return env.quantifier(strings.TrimSuffix(id.Name, "'"), e, pol)
			case "old":
				return env.atState(env.old, env.oldNames).b(e.Args[0], pol)
			case "entry":
				if env.entryLoop == nil {
					env.fail(e, "entry outside a loop")
				}
				return env.atState(env.entryLoop, nil).b(e.Args[0], pol)
			case "ite'":
				c := env.b(e.Args[0], polBoth)
				x := env.evalPol(e.Args[1], pol)
				y := env.evalPol(e.Args[2], pol)
				if x.t.sort == "Bool" {
					return ite(c, x.t, y.t)
				}
			}
			if sf := env.specFunc(id.Name); sf != nil && !sf.rec && sf.body != nil {
				if id, ok := sf.result.(*ast.Ident); ok && id.Name == "bool" {
					ne := env.macroEnv(sf, e.Args)
					return ne.b(sf.body, pol)
				}
			}
		}
	}
	v := env.evalPol(e, pol)
	if v.t == nil || v.t.sort != "Bool" {
		env.fail(e, "boolean expected")
	}
	return v.t
}

func (env *Env) atState(st *State, names map[string]*SVal) *Env {
	if st == nil {
		panic(unsupported("spec: no old state"))
	}
	n := *env
	if n.cur == nil {
		n.cur = n.st
	}
	n.st = st
	if names != nil {
		n.names = map[string]*SVal{}
		for k, v := range env.names {
			n.names[k] = v
		}
		for k, v := range names {
			n.names[k] = v
		}
	}
	return &n
}

func (env *Env) specFunc(name string) *SpecFunc {
	if _, ok := env.names[name]; ok {
		return nil
	}
	return env.c.w.specs.specs[name]
}

func (env *Env) macroEnv(sf *SpecFunc, args []ast.Expr) *Env {
	if len(args) != len(sf.params) {
		panic(unsupported("spec: wrong number of arguments for " + sf.name))
	}
	if env.depth > 60 {
		panic(unsupported("spec: macro depth: " + sf.name))
	}
	ne := &Env{c: env.c, names: map[string]*SVal{}, st: env.st, old: env.old, pkg: env.c.w.pkgs[sf.pkg], depth: env.depth + 1, recOf: env.recOf}
	if ne.pkg == nil {
		ne.pkg = env.pkg
	}
	for i, p := range sf.params {
		v := env.eval(args[i])
		ne.names[p.name] = env.coerceTo(v, ne.typ(p.typ))
	}
	return ne
}

// coerceTo adapts a value to a declared specification type
func (env *Env) coerceTo(v *SVal, t types.Type) *SVal {
	if v.t == nil {
		return v
	}
	n := *v
	want := env.c.sortOf(t)
	if v.t.sort == want {
		if v.typ == nil || isUntyped(v.typ) || types.IsInterface(t) {
			n.typ = t
		}
		// keep the more precise dynamic type otherwise
		if !sameShape(v.typ, t) {
			n.typ = t
		}
		return &n
	}
	if isNilVal(v) {
		n.t = env.c.zero(t)
		n.typ = t
		return &n
	}
	n.t = env.c.convert(nil, v.t, v.typ, t)
	n.typ = t
	if n.t.sort != want {
		panic(unsupported("spec: cannot use " + v.t.sort + " as " + want))
	}
	return &n
}

func sameShape(a, b types.Type) bool {
	if a == nil {
		return false
	}
	return types.Identical(under(a), under(b))
}

func isNilVal(v *SVal) bool {
	if v.typ == nil {
		return false
	}
	b, ok := v.typ.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (env *Env) evalPol(e ast.Expr, pol int) *SVal {
	// boolean connectives keep their polarity through b
	switch x := e.(type) {
	case *ast.ParenExpr:
		return env.evalPol(x.X, pol)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return &SVal{t: env.b(e, pol), typ: tBool}
		}
	case *ast.BinaryExpr:
		if x.Op == token.LAND || x.Op == token.LOR {
			return &SVal{t: env.b(e, pol), typ: tBool}
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "imp'", "iff'", "forall'", "exists'":
				return &SVal{t: env.b(e, pol), typ: tBool}
			}
		}
	}
	return env.eval(e)
}

func (env *Env) eval(e ast.Expr) *SVal {
	c := env.c
	switch e := e.(type) {
	case *ast.ParenExpr:
		return env.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(e.Value, 0)
			if !ok {
				env.fail(e, "bad integer")
			}
			return &SVal{t: intBig(b), typ: tUInt}
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(e.Value[1:len(e.Value)-1], '\'')
			if err != nil {
				env.fail(e, "bad char")
			}
			return &SVal{t: intT(int64(r)), typ: tUInt}
		case token.STRING:
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				env.fail(e, "bad string")
			}
			return &SVal{t: c.strLit(s), typ: types.Typ[types.String]}
		case token.FLOAT:
			return &SVal{t: realConst(constant.MakeFromLiteral(e.Value, token.FLOAT, 0)), typ: types.Typ[types.Float64]}
		}
	case *ast.Ident:
		return env.ident(e)
	case *ast.SelectorExpr:
		return env.selector(e)
	case *ast.IndexExpr:
		return env.index(e)
	case *ast.SliceExpr:
		x := env.eval(e.X)
		if x.t.sort == "Str" {
			lo, hi := intT(0), strLen(x.t)
			if e.Low != nil {
				lo = env.intExpr(e.Low)
			}
			if e.High != nil {
				hi = env.intExpr(e.High)
			}
			return &SVal{t: mk("Str", "ssub", x.t, lo, hi), typ: x.typ}
		}
		if x.t.sort != "Slice" {
			env.fail(e, "slice expected")
		}
		lo, hi := intT(0), slen(x.t)
		if e.Low != nil {
			lo = env.intExpr(e.Low)
		}
		if e.High != nil {
			hi = env.intExpr(e.High)
		}
		return &SVal{t: mkSlice(sobj(x.t), add(soff(x.t), lo), sub(hi, lo), sub(scap(x.t), lo)), typ: x.typ, hst: x.hst}
	case *ast.StarExpr:
		x := env.eval(e.X)
		if lp, ok := x.val.(*LocPtr); ok {
			v := c.loadLoc(env.heapOf(x), lp.loc)
			return &SVal{t: c.term(v), typ: lp.loc.typ, hst: x.hst}
		}
		p, ok := under(x.typ).(*types.Pointer)
		if !ok {
			env.fail(e, "pointer expected")
		}
		return &SVal{t: c.loadCell(env.heapOf(x), pobj(x.t), pidx(x.t), p.Elem()), typ: p.Elem(), hst: x.hst}
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return &SVal{t: env.b(e, polBoth), typ: tBool}
		case token.SUB:
			x := env.eval(e.X)
			if x.t.sort == "Real" {
				return &SVal{t: mk("Real", "-", x.t), typ: x.typ}
			}
			return &SVal{t: sub(intT(0), c.svInt(x)), typ: mathT(x.typ)}
		case token.ADD:
			return env.eval(e.X)
		case token.XOR:
			x := env.eval(e.X)
			if isBV(x.t.sort) {
				return &SVal{t: mk(x.t.sort, "bvnot", x.t), typ: x.typ}
			}
			bits, signed, ok := intInfo(x.typ)
			if ok && !signed {
				_, hi := intRange(bits, false)
				return &SVal{t: sub(intBig(hi), x.t), typ: x.typ}
			}
			return &SVal{t: sub(intT(-1), x.t), typ: x.typ}
		case token.AND:
			// &s[i], &p.f are not values; &x on element
			if ix, ok := e.X.(*ast.IndexExpr); ok {
				s := env.eval(ix.X)
				i := env.intExpr(ix.Index)
				if sl, ok := under(s.typ).(*types.Slice); ok {
					return &SVal{t: mkPtr(sobj(s.t), add(soff(s.t), i)), typ: types.NewPointer(sl.Elem()), hst: s.hst}
				}
			}
		}
	case *ast.BinaryExpr:
		return env.binary(e)
	case *ast.TypeAssertExpr:
		x := env.eval(e.X)
		t := env.typ(e.Type)
		return &SVal{t: c.unbox(x.t, t), typ: t, hst: x.hst}
	case *ast.CallExpr:
		return env.callExpr(e)
	case *ast.ArrayType, *ast.MapType:
		return &SVal{tp: env.typ(e)}
	}
	env.fail(e, fmt.Sprintf("unsupported %T", e))
	return nil
}

// mathT: arithmetic in specifications is mathematical
func mathT(t types.Type) types.Type {
	return tInt
}

func (env *Env) heapOf(v *SVal) *State {
	if v.hst != nil {
		return v.hst
	}
	return env.st
}

func (env *Env) wrapVal(v Val, t types.Type, hst *State) *SVal {
	switch x := v.(type) {
	case *TV:
		return &SVal{t: x.t, typ: x.typ, hst: hst}
	case *LocPtr:
		return &SVal{t: nil, typ: t, val: v, hst: hst}
	case *FuncVal:
		return &SVal{val: v, typ: t}
	}
	panic(unsupported("spec: value"))
}

func (env *Env) ident(e *ast.Ident) *SVal {
	c := env.c
	if v, ok := env.names[e.Name]; ok {
		if v.lazy != nil {
			if r := v.lazy(env.st); r != nil || env.cur == nil {
				return r
			}
			return v.lazy(env.cur)
		}
		return v
	}
	switch e.Name {
	case "true":
		return &SVal{t: tTrue, typ: tBool}
	case "false":
		return &SVal{t: tFalse, typ: tBool}
	case "nil":
		return &SVal{t: nilPtr, typ: types.Typ[types.UntypedNil]}
	}
	if env.fr != nil && env.pkg != nil {
		sc := env.pkg.types.Scope().Innermost(env.scopeP)
		if sc != nil {
			if _, obj := sc.LookupParent(e.Name, env.scopeP); obj != nil {
				if v := env.object(obj); v != nil {
					return v
				}
			}
		}
	}
	if env.pkg != nil {
		if obj := env.pkg.types.Scope().Lookup(e.Name); obj != nil {
			if v := env.object(obj); v != nil {
				return v
			}
		}
	}
	if obj := types.Universe.Lookup(e.Name); obj != nil {
		if v := env.object(obj); v != nil {
			return v
		}
	}
	if v := c.ghosts[e.Name]; v != nil && !env.callee {
		return v
	}
	panic(unsupported("spec: unknown name " + e.Name))
}

func (env *Env) object(obj types.Object) *SVal {
	c := env.c
	switch o := obj.(type) {
	case *types.Var:
		if o.IsField() {
			return nil
		}
		if c.w.globals[o] != nil || (o.Pkg() != nil && o.Parent() == o.Pkg().Scope()) {
			return env.wrapVal(c.varVal(env.st, o), o.Type(), nil)
		}
		if env.fr == nil {
			return nil
		}
		if _, ok := env.st.vars[o]; !ok && env.cur != nil && env.cur.vars[o] != nil {
			if l := c.varLoc(env.cur, env.fr, o); l.v == nil {
				return env.wrapVal(c.loadLoc(env.cur, l), o.Type(), nil)
			}
			return env.wrapVal(c.varVal(env.cur, o), o.Type(), nil)
		} else if !ok {
			panic(unsupported("spec: variable " + o.Name() + " has no value here"))
		}
		if l := c.varLoc(env.st, env.fr, o); l.v == nil {
			return env.wrapVal(c.loadLoc(env.st, l), o.Type(), nil)
		}
		return env.wrapVal(c.varVal(env.st, o), o.Type(), nil)
	case *types.Const:
		return &SVal{t: c.constTerm(o.Val(), o.Type()), typ: o.Type()}
	case *types.TypeName:
		return &SVal{tp: o.Type()}
	case *types.Func:
		return &SVal{fn: o, typ: o.Type()}
	}
	return nil
}

// typ resolves a type expression
func (env *Env) typ(e ast.Expr) types.Type {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return env.typ(e.X)
	case *ast.Ident:
		switch e.Name {
		case "real":
			return types.Typ[types.Float64]
		}
		if env.pkg != nil {
			if o, ok := env.pkg.types.Scope().Lookup(e.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
		if o, ok := types.Universe.Lookup(e.Name).(*types.TypeName); ok {
			return o.Type()
		}
	case *ast.StarExpr:
		return types.NewPointer(env.typ(e.X))
	case *ast.ArrayType:
		if e.Len == nil {
			return types.NewSlice(env.typ(e.Elt))
		}
		n, ok := asInt(env.intExpr(e.Len))
		if ok {
			return types.NewArray(env.typ(e.Elt), n.Int64())
		}
	case *ast.MapType:
		return types.NewMap(env.typ(e.Key), env.typ(e.Value))
	case *ast.FuncType:
		tup := func(l *ast.FieldList) *types.Tuple {
			var vs []*types.Var
			if l != nil {
				for _, f := range l.List {
					vs = append(vs, types.NewVar(token.NoPos, nil, "", env.typ(f.Type)))
				}
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(e.Params), tup(e.Results), false)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok && env.pkg != nil {
			if p := env.importOf(id.Name); p != nil {
				if o, ok := p.Scope().Lookup(e.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	}
	panic(unsupported("spec: unknown type " + exprStr(e)))
}

func (env *Env) importOf(name string) *types.Package {
	if env.pkg == nil {
		return nil
	}
	for _, p := range env.pkg.types.Imports() {
		if p.Name() == name {
			return p
		}
	}
	for _, f := range env.pkg.files {
		for _, im := range f.Imports {
			if im.Name != nil && im.Name.Name == name {
				path, _ := strconv.Unquote(im.Path.Value)
				for _, p := range env.pkg.types.Imports() {
					if p.Path() == path {
						return p
					}
				}
			}
		}
	}
	return nil
}

func (env *Env) selector(e *ast.SelectorExpr) *SVal {
	c := env.c
	if id, ok := e.X.(*ast.Ident); ok {
		if _, bound := env.names[id.Name]; !bound {
			if p := env.importOf(id.Name); p != nil && !env.hasVar(id.Name) {
				o := p.Scope().Lookup(e.Sel.Name)
				if o == nil {
					env.fail(e, "unknown name")
				}
				if v := env.object(o); v != nil {
					return v
				}
			}
		}
	}
	x := env.eval(e.X)
	if x.tp != nil {
		env.fail(e, "selector on a type")
	}
	t := x.typ
	var pk *types.Package
	if env.pkg != nil {
		pk = env.pkg.types
	}
	obj, index, _ := types.LookupFieldOrMethod(t, true, pk, e.Sel.Name)
	if obj == nil {
		if n := namedPkg(t); n != nil {
			obj, index, _ = types.LookupFieldOrMethod(t, true, n, e.Sel.Name)
		}
	}
	switch o := obj.(type) {
	case *types.Var:
		st := env.heapOf(x)
		var v Val = x.val
		if x.t != nil {
			v = &TV{x.t, x.typ}
		}
		return env.wrapVal(c.fieldOfVal(st, v, index, token.NoPos), o.Type(), x.hst)
	case *types.Func:
		return &SVal{fn: o, recv: x, typ: o.Type()}
	}
	env.fail(e, "unknown field "+e.Sel.Name)
	return nil
}

func namedPkg(t types.Type) *types.Package {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (env *Env) hasVar(name string) bool {
	if env.fr == nil || env.pkg == nil {
		return false
	}
	sc := env.pkg.types.Scope().Innermost(env.scopeP)
	if sc == nil {
		return false
	}
	_, obj := sc.LookupParent(name, env.scopeP)
	_, ok := obj.(*types.Var)
	return ok
}

func (env *Env) index(e *ast.IndexExpr) *SVal {
	c := env.c
	x := env.eval(e.X)
	if x.val != nil && x.t == nil {
		env.fail(e, "index of an alias")
	}
	if _, ok := x.typ.(*setType); ok {
		k := env.coerceTo(env.eval(e.Index), x.typ.(*setType).key)
		return &SVal{t: sel(x.t, k.t), typ: tBool}
	}
	st := env.heapOf(x)
	switch u := under(x.typ).(type) {
	case *types.Slice:
		i := env.intExpr(e.Index)
		return &SVal{t: c.loadCell(st, sobj(x.t), add(soff(x.t), i), u.Elem()), typ: u.Elem(), hst: x.hst}
	case *types.Array:
		return &SVal{t: sel(x.t, env.intExpr(e.Index)), typ: u.Elem(), hst: x.hst}
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			v := c.loadCell(st, pobj(x.t), pidx(x.t), u.Elem())
			return &SVal{t: sel(v, env.intExpr(e.Index)), typ: a.Elem(), hst: x.hst}
		}
	case *types.Map:
		k := env.coerceTo(env.eval(e.Index), u.Key())
		has, val, _ := c.mapKeys(x.typ)
		h := and(not(eq(pobj(x.t), intT(0))), sel(sel(c.heapGet(st, has), pobj(x.t)), k.t))
		v := sel(sel(c.heapGet(st, val), pobj(x.t)), k.t)
		return &SVal{t: ite(h, v, c.zero(u.Elem())), typ: u.Elem(), hst: x.hst}
	case *types.Basic:
		if x.t.sort == "Str" {
			return &SVal{t: strAt(x.t, env.intExpr(e.Index)), typ: types.Typ[types.Uint8]}
		}
	}
	env.fail(e, "index")
	return nil
}

func (env *Env) commonType(x, y *SVal) types.Type {
	if x.typ == nil || isUntyped(x.typ) {
		return y.typ
	}
	if y.typ != nil && types.IsInterface(y.typ) && !types.IsInterface(x.typ) {
		return y.typ
	}
	return x.typ
}

func (env *Env) binary(e *ast.BinaryExpr) *SVal {
	c := env.c
	switch e.Op {
	case token.LAND, token.LOR:
		return &SVal{t: env.b(e, polBoth), typ: tBool}
	}
	x, y := env.evalPol(e.X, polBoth), env.evalPol(e.Y, polBoth)
	switch e.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		var r *Term
		if (x.t == nil && x.val != nil && isNilVal(y)) || (y.t == nil && y.val != nil && isNilVal(x)) {
			return &SVal{t: boolT(e.Op == token.NEQ), typ: tBool}
		}
		if x.t == nil || y.t == nil {
			env.fail(e, "comparison of a non value")
		}
		ct := env.commonType(x, y)
		if isNilVal(x) || isNilVal(y) {
			other := x
			if isNilVal(x) {
				other = y
			}
			if isNilVal(other) {
				return &SVal{t: boolT(e.Op == token.EQL), typ: tBool}
			}
			switch other.t.sort {
			case "Slice":
				r = eq(sobj(other.t), intT(0))
			case "Ptr":
				r = eq(pobj(other.t), intT(0))
			case "Iface":
				r = eq(other.t, mk("Iface", "nilIface"))
			case "Func":
				r = eq(other.t, mk("Func", "nilFunc"))
			default:
				env.fail(e, "comparison with nil")
			}
			if e.Op == token.NEQ {
				r = not(r)
			}
			return &SVal{t: r, typ: tBool}
		}
		xt, yt := env.harmonize(x, y)
		switch e.Op {
		case token.EQL, token.NEQ:
			if ct != nil && (hasArrT(ct) || xt.sort == "Str") {
				r = c.equal(nil, xt, yt, ct)
			} else {
				r = eq(xt, yt)
			}
			if e.Op == token.NEQ {
				r = not(r)
			}
			return &SVal{t: r, typ: tBool}
		}
		r = c.binop(nil, e.Op, &TV{xt, ct}, &TV{yt, ct}, ct, ct, tBool, token.NoPos)
		return &SVal{t: r, typ: tBool}
	case token.SHL, token.SHR:
		if isBV(x.t.sort) {
			return &SVal{t: c.shift(nil, e.Op, x.t, c.svInt(y), x.typ, token.NoPos), typ: x.typ}
		}
		t := x.typ
		if isUntyped(t) {
			t = tInt
		}
		return &SVal{t: c.shift(nil, e.Op, x.t, c.svInt(y), t, token.NoPos), typ: t}
	}
	if x.t == nil || y.t == nil {
		env.fail(e, "arithmetic on a non value")
	}
	xt, yt := env.harmonize(x, y)
	ct := env.commonType(x, y)
	if xt.sort == "Int" {
		switch e.Op {
		case token.ADD:
			return &SVal{t: add(xt, yt), typ: mathT(ct)}
		case token.SUB:
			return &SVal{t: sub(xt, yt), typ: mathT(ct)}
		case token.MUL:
			if c.abstractMul() && !isInt(xt) && !isInt(yt) {
				return &SVal{t: mk("Int", "vmul", xt, yt), typ: mathT(ct)}
			}
			return &SVal{t: mul(xt, yt), typ: mathT(ct)}
		case token.QUO:
			return &SVal{t: mk("Int", "div", xt, yt), typ: mathT(ct)}
		case token.REM:
			return &SVal{t: mk("Int", "mod", xt, yt), typ: mathT(ct)}
		}
	}
	if isUntyped(ct) {
		ct = tInt
	}
	return &SVal{t: c.arith(nil, e.Op, xt, yt, ct, token.NoPos), typ: ct}
}

func hasArrT(t types.Type) bool {
	switch t.(type) {
	case *setType:
		return false
	}
	return hasArr(t)
}

// harmonize brings two operands to the same sort
func (env *Env) harmonize(x, y *SVal) (*Term, *Term) {
	a, b := x.t, y.t
	if a.sort == b.sort {
		return a, b
	}
	if isBV(a.sort) && b.sort == "Int" {
		if v, ok := asInt(b); ok {
			return a, bvLit(v, bvW(a.sort))
		}
		return mk("Int", "bv2nat", a), b
	}
	if isBV(b.sort) && a.sort == "Int" {
		if v, ok := asInt(a); ok {
			return bvLit(v, bvW(b.sort)), b
		}
		return a, mk("Int", "bv2nat", b)
	}
	if a.sort == "Real" && b.sort == "Int" {
		return a, env.c.convert(nil, b, tInt, types.Typ[types.Float64])
	}
	if b.sort == "Real" && a.sort == "Int" {
		return env.c.convert(nil, a, tInt, types.Typ[types.Float64]), b
	}
	if a.sort == "Iface" && y.typ != nil {
		return a, env.c.box(b, y.typ)
	}
	if b.sort == "Iface" && x.typ != nil {
		return env.c.box(a, x.typ), b
	}
	panic(unsupported("spec: sorts " + a.sort + " and " + b.sort))
}

func (env *Env) callExpr(e *ast.CallExpr) *SVal {
	c := env.c
	if id, ok := e.Fun.(*ast.Ident); ok {
		if _, bound := env.names[id.Name]; !bound {
			if v := env.builtin(id.Name, e); v != nil {
				return v
			}
			if sf := env.specFunc(id.Name); sf != nil {
				return env.applySpec(sf, e.Args)
			}
		}
	}
	f := env.eval(e.Fun)
	if f.tp != nil {
		x := env.eval(e.Args[0])
		if x.t == nil {
			env.fail(e, "conversion")
		}
		if isNilVal(x) {
			return &SVal{t: c.zero(f.tp), typ: f.tp}
		}
		from := x.typ
		t := c.convert(nil, x.t, from, f.tp)
		if isUntyped(from) {
			if w, ok := c.bvWidth(f.tp); ok {
				v, _ := asInt(x.t)
				t = bvLit(v, w)
			} else if isFloat(f.tp) {
				t = c.convert(nil, x.t, tInt, f.tp)
			} else {
				t = c.wrap(x.t, f.tp)
			}
		}
		return &SVal{t: t, typ: f.tp, hst: x.hst}
	}
	if f.val != nil || f.fn == nil {
		if f.t != nil && f.t.sort == "Func" {
			sig, ok := under(f.typ).(*types.Signature)
			if !ok {
				env.fail(e, "call")
			}
			var args []Val
			args = append(args, &TV{f.t, f.typ})
			for i, a := range e.Args {
				v := env.coerceTo(env.eval(a), sig.Params().At(i).Type())
				args = append(args, &TV{v.t, v.typ})
			}
			st := env.st.clone()
			c.noName++
			r := c.uninterp("apply_"+typeKey(sig), args, sig.Results(), st)
			c.noName--
			tv := r[0].(*TV)
			return &SVal{t: tv.t, typ: tv.typ}
		}
		if f.val != nil {
			// known function
			if fv, ok := f.val.(*FuncVal); ok {
				var args []Val
				var sig *types.Signature
				if fv.fn != nil {
					sig = fv.fn.Type().(*types.Signature)
				} else {
					sig = under(fv.fr.pkg.info.Types[fv.lit].Type).(*types.Signature)
				}
				for i, a := range e.Args {
					v := env.coerceTo(env.eval(a), sig.Params().At(i).Type())
					args = append(args, &TV{v.t, v.typ})
				}
				c.noName++
				defer func() { c.noName-- }()
				r := c.apply(env.st.clone(), env.fr, fv, sig, args, token.NoPos)
				return env.wrapVal(r[0], sig.Results().At(0).Type(), nil)
			}
		}
		env.fail(e, "call of a value")
	}
	// Go function: inlined
	sig := f.fn.Type().(*types.Signature)
	var args []Val
	var hst, used *State
	one := func(v *SVal) {
		if v.typ != nil && isUntyped(v.typ) || v.typ == nil || !hasRef(v.typ, 0) {
			return
		}
		if st := env.heapOf(v); used == nil {
			used = st
		} else if used != st {
			env.fail(e, "arguments of different states")
		}
	}
	for i, a := range e.Args {
		v := env.eval(a)
		if v.hst != nil {
			hst = v.hst
		}
		one(v)
		if v.val != nil {
			args = append(args, v.val)
			continue
		}
		v = env.coerceTo(v, sig.Params().At(i).Type())
		args = append(args, &TV{v.t, sig.Params().At(i).Type()})
	}
	var recv Val
	if f.recv != nil {
		if f.recv.hst != nil {
			hst = f.recv.hst
		}
		one(f.recv)
		recv = f.recv.val
		if recv == nil {
			recv = &TV{f.recv.t, f.recv.typ}
			rt := sig.Recv().Type()
			if isPtr(f.recv.typ) && !isPtr(rt) {
				p := under(f.recv.typ).(*types.Pointer)
				recv = &TV{c.loadCell(env.heapOf(f.recv), pobj(f.recv.t), pidx(f.recv.t), p.Elem()), p.Elem()}
			} else if !isPtr(f.recv.typ) && isPtr(rt) {
				env.fail(e, "method with a pointer receiver on a value")
			}
		}
	}
	st := env.st
	if hst != nil {
		st = hst
	}
	c.noName++
	defer func() { c.noName-- }()
	r := c.applyFunc(st.clone(), nil, f.fn, recv, args, token.NoPos)
	if len(r) == 0 {
		env.fail(e, "call without result")
	}
	return env.wrapVal(r[0], sig.Results().At(0).Type(), hst)
}

func (env *Env) builtin(name string, e *ast.CallExpr) *SVal {
	c := env.c
	arg := func(i int) *SVal {
		if i >= len(e.Args) {
			env.fail(e, "missing argument")
		}
		return env.eval(e.Args[i])
	}
	switch name {
	case "imp'", "iff'", "forall'", "exists'":
		return &SVal{t: env.b(e, polBoth), typ: tBool}
	case "ite'":
		cd := env.b(e.Args[0], polBoth)
		x, y := env.evalPol(e.Args[1], polBoth), env.evalPol(e.Args[2], polBoth)
		ct := env.commonType(x, y)
		if isNilVal(x) && !isNilVal(y) {
			x = env.coerceTo(x, y.typ)
		}
		if isNilVal(y) && !isNilVal(x) {
			y = env.coerceTo(y, x.typ)
		}
		a, b := env.harmonize(x, y)
		return &SVal{t: ite(cd, a, b), typ: ct}
	case "in'":
		k := arg(0)
		m := arg(1)
		if s, ok := m.typ.(*setType); ok {
			k = env.coerceTo(k, s.key)
			return &SVal{t: sel(m.t, k.t), typ: tBool}
		}
		mt, ok := under(m.typ).(*types.Map)
		if !ok {
			env.fail(e, "in: map expected")
		}
		k = env.coerceTo(k, mt.Key())
		has, _, _ := c.mapKeys(m.typ)
		return &SVal{t: and(not(eq(pobj(m.t), intT(0))), sel(sel(c.heapGet(env.heapOf(m), has), pobj(m.t)), k.t)), typ: tBool}
	case "old":
		n := env.atState(env.old, env.oldNames)
		v := *n.eval(e.Args[0])
		if v.t != nil && v.hst == nil {
			v.hst = env.old
		}
		return &v
	case "entry":
		if env.entryLoop == nil {
			env.fail(e, "entry outside a loop")
		}
		n := env.atState(env.entryLoop, nil)
		v := *n.eval(e.Args[0])
		if v.t != nil && v.hst == nil {
			v.hst = env.entryLoop
		}
		return &v
	case "len", "cap":
		x := arg(0)
		if x.t == nil {
			env.fail(e, "len")
		}
		switch u := under(x.typ).(type) {
		case *types.Slice:
			if name == "cap" {
				return &SVal{t: scap(x.t), typ: tInt}
			}
			return &SVal{t: slen(x.t), typ: tInt}
		case *types.Basic:
			return &SVal{t: strLen(x.t), typ: tInt}
		case *types.Array:
			return &SVal{t: intT(u.Len()), typ: tInt}
		case *types.Pointer:
			if a, ok := under(u.Elem()).(*types.Array); ok {
				return &SVal{t: intT(a.Len()), typ: tInt}
			}
		case *types.Map:
			_, _, card := c.mapKeys(x.typ)
			return &SVal{t: ite(eq(pobj(x.t), intT(0)), intT(0), sel(c.heapGet(env.heapOf(x), card), pobj(x.t))), typ: tInt}
		}
		env.fail(e, "len")
	case "obj":
		x := arg(0)
		switch x.t.sort {
		case "Slice":
			return &SVal{t: sobj(x.t), typ: tInt}
		case "Ptr":
			return &SVal{t: pobj(x.t), typ: tInt}
		}
		env.fail(e, "obj")
	case "off":
		x := arg(0)
		switch x.t.sort {
		case "Slice":
			return &SVal{t: soff(x.t), typ: tInt}
		case "Ptr":
			return &SVal{t: pidx(x.t), typ: tInt}
		}
		env.fail(e, "off")
	case "fresh":
		// allocated since the old state
		x := arg(0)
		al := c.alloc0
		if env.old != nil {
			al = env.old.alloc
		}
		o := pobj(x.t)
		if x.t.sort == "Slice" {
			o = sobj(x.t)
		}
		return &SVal{t: le(al, o), typ: tBool}
	case "sameslice":
		x, y := arg(0), arg(1)
		return &SVal{t: and(eq(sobj(x.t), sobj(y.t)), eq(soff(x.t), soff(y.t)), eq(slen(x.t), slen(y.t))), typ: tBool}
	case "bit":
		x, k := arg(0), arg(1)
		return &SVal{t: mk("Bool", "bit", c.svInt(x), c.svInt(k)), typ: tBool}
	case "bwit": // some bit set in a positive integer
		return &SVal{t: mk("Int", "bwit", c.svInt(arg(0))), typ: tInt}
	case "min", "max":
		x, y := env.harmonize(arg(0), arg(1))
		if name == "min" {
			return &SVal{t: ite(le(x, y), x, y), typ: tInt}
		}
		return &SVal{t: ite(le(x, y), y, x), typ: tInt}
	case "abs":
		x := c.svInt(arg(0))
		return &SVal{t: ite(le(intT(0), x), x, sub(intT(0), x)), typ: tInt}
	case "quo", "rem": // division of Go (/ and % are the floor in specifications)
		op := token.QUO
		if name == "rem" {
			op = token.REM
		}
		return &SVal{t: c.arith(nil, op, c.svInt(arg(0)), c.svInt(arg(1)), tInt, token.NoPos), typ: tInt}
	case "real":
		x := arg(0)
		if x.t.sort == "Real" {
			return x
		}
		return &SVal{t: c.convert(nil, x.t, tInt, types.Typ[types.Float64]), typ: types.Typ[types.Float64]}
	case "typeis":
		x := arg(0)
		t := env.typ(e.Args[1])
		return &SVal{t: eq(itag(x.t), intT(int64(c.ifaceID(t)))), typ: tBool}
	case "allocated":
		x := arg(0)
		o := x.t
		switch x.t.sort {
		case "Slice":
			o = sobj(x.t)
		case "Ptr":
			o = pobj(x.t)
		}
		return &SVal{t: lt(o, env.st.alloc), typ: tBool}
	case "wf":
		// well-formed value of its type in this state (range of the integers,
		// allocated references): true of every value stored in memory
		x := arg(0)
		return &SVal{t: c.typeFact(x.t, x.typ, env.st.alloc), typ: tBool}
	case "strcat":
		return &SVal{t: mk("Str", "scat", arg(0).t, arg(1).t), typ: types.Typ[types.String]}
	}
	return nil
}

// ---------------------------------------------------------------- spec functions

func (env *Env) applySpec(sf *SpecFunc, args []ast.Expr) *SVal {
	c := env.c
	if !sf.rec && sf.body != nil {
		ne := env.macroEnv(sf, args)
		if id, ok := sf.result.(*ast.Ident); ok && id.Name == "bool" {
			return &SVal{t: ne.b(sf.body, polBoth), typ: tBool}
		}
		return ne.coerceTo(ne.eval(sf.body), ne.typ(sf.result))
	}
	// recursive or uninterpreted function
	if len(args) != len(sf.params) {
		panic(unsupported("spec: wrong number of arguments for " + sf.name))
	}
	pe := &Env{c: c, names: map[string]*SVal{}, st: env.st, old: env.old, pkg: c.w.pkgs[sf.pkg], depth: env.depth + 1}
	var flat []*Term
	var vals []*SVal
	for i, p := range sf.params {
		v := env.coerceTo(env.eval(args[i]), pe.typ(p.typ))
		vals = append(vals, v)
		flat = append(flat, c.flatten(env.heapOf(v), v)...)
	}
	rt := pe.typ(sf.result)
	c.declareRec(sf, pe)
	for _, x := range c.recExtras[sf.name] {
		st := env.st
		if x.param >= 0 {
			st = env.heapOf(vals[x.param])
		}
		flat = append(flat, c.heapGet(st, x.key))
	}
	nm := "rec_" + sf.name
	if env.recOf != nil && c.sameGroup(env.recOf, sf) {
		nm = "rec0_" + sf.name
	}
	if len(flat) == 0 {
		return &SVal{t: mk(c.sortOf(rt), nm), typ: rt}
	}
	return &SVal{t: mk(c.sortOf(rt), nm, flat...), typ: rt}
}

// flatten turns a value into scalar arguments: a slice becomes its contents,
// offset and length
func (c *Ctx) flatten(st *State, v *SVal) []*Term {
	if v.t.sort == "Slice" {
		var out []*Term
		el := under(v.typ).(*types.Slice).Elem()
		for _, k := range c.heapKeys(el) {
			out = append(out, c.objArr(st, k, sobj(v.t)))
		}
		return append(out, soff(v.t), slen(v.t))
	}
	return []*Term{v.t}
}

// reveals tells whether the function under verification sees the definition of
// a hidden specification function
func (c *Ctx) reveals(name string) bool {
	for _, n := range c.reveal {
		if n == name {
			return true
		}
	}
	if c.fd == nil {
		return false
	}
	sp := c.w.specs.funcs[c.fd.pkg.path+"."+c.fd.name]
	if sp == nil {
		return false
	}
	for _, n := range strings.Fields(sp.opts["reveal"]) {
		if n == name {
			return true
		}
	}
	return false
}

type recExtra struct {
	param int
	key   string
	leaf  *Term
}

// mentionsSym tells whether a symbol occurs in a printed term
func mentionsSym(s, sym string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], sym)
		if j < 0 {
			return false
		}
		e := i + j + len(sym)
		if e == len(s) || s[e] == ' ' || s[e] == ')' {
			return true
		}
		i = e
	}
}

// hasRef reports that a value of the type gives access to memory
func hasRef(t types.Type, depth int) bool {
	if depth > 5 {
		return true
	}
	switch u := under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Array:
		return hasRef(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRef(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// specCalls lists the specification functions mentioned by the body of another
func (c *Ctx) specCalls(sf *SpecFunc) []*SpecFunc {
	var out []*SpecFunc
	if sf.body == nil {
		return nil
	}
	ast.Inspect(sf.body, func(n ast.Node) bool {
		if ce, ok := n.(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok {
				if g := c.w.specs.specs[id.Name]; g != nil {
					out = append(out, g)
				}
			}
		}
		return true
	})
	return out
}

func (c *Ctx) specReaches(from, to *SpecFunc) bool {
	seen := map[*SpecFunc]bool{}
	var dfs func(f *SpecFunc) bool
	dfs = func(f *SpecFunc) bool {
		for _, g := range c.specCalls(f) {
			if g == to {
				return true
			}
			if !seen[g] {
				seen[g] = true
				if dfs(g) {
					return true
				}
			}
		}
		return false
	}
	return dfs(from)
}

// sameGroup tells whether two recursive functions are defined by a mutual recursion
func (c *Ctx) sameGroup(f, g *SpecFunc) bool {
	return f == g || c.specReaches(f, g) && c.specReaches(g, f)
}

// inGroup tells whether the function is recursive through another recursive function
func (c *Ctx) inGroup(sf *SpecFunc) bool {
	for _, g := range c.w.specs.specs {
		if g != sf && g.rec && g.body != nil && c.sameGroup(sf, g) {
			return true
		}
	}
	return false
}

func (c *Ctx) declareRec(sf *SpecFunc, pe *Env) {
	nm := "rec_" + sf.name
	if c.recFns[nm] {
		return
	}
	c.recFns[nm] = true
	rt := pe.typ(sf.result)
	rs := c.sortOf(rt)
	c.quiet++
	c.noName++
	defer func() { c.quiet--; c.noName-- }()
	var flat []*Term
	var body *Term
	at, grouped := 0, sf.body != nil && c.inGroup(sf)
	for round := 0; ; round++ {
		flat = nil
		n := 0
		leaf := func(sort string) *Term {
			n++
			t := mk(sort, fmt.Sprintf("a%d!%s", n, sf.name))
			flat = append(flat, t)
			return t
		}
		names := map[string]*SVal{}
		var heaps []*recHeap
		newHeap := func(i int) *State {
			r := &recHeap{prefix: fmt.Sprintf("h%d!%s!", i, sf.name), param: i, leaf: map[string]*Term{}}
			heaps = append(heaps, r)
			return &State{pc: tTrue, vars: map[*types.Var]Val{}, heap: map[string]*Term{}, alloc: c.alloc0, rec: r}
		}
		for i, p := range sf.params {
			t := pe.typ(p.typ)
			if sl, ok := under(t).(*types.Slice); ok {
				h := newHeap(i)
				o := intT(-7) // the object of the argument
				for _, k := range c.heapKeys(sl.Elem()) {
					inner := leaf(elemSort(c.heapT[k].sort))
					h.heap[k] = store(c.heapGet(h, k), o, inner)
				}
				off, ln := leaf("Int"), leaf("Int")
				names[p.name] = &SVal{t: mkSlice(o, off, ln, ln), typ: t, hst: h}
				continue
			}
			sv := &SVal{t: leaf(c.sortOf(t)), typ: t}
			if hasRef(t, 0) {
				sv.hst = newHeap(i)
			}
			names[p.name] = sv
		}
		if sf.body == nil {
			break
		}
		if round == 0 {
			at = len(c.decls)
		}
		be := &Env{c: c, names: names, st: newHeap(-1), pkg: pe.pkg, recOf: sf, depth: pe.depth}
		if rs == "Bool" {
			body = be.b(sf.body, polBoth)
		} else {
			v := be.coerceTo(be.eval(sf.body), rt)
			body = v.t
		}
		var extras []recExtra
		for _, h := range heaps {
			var ks []string
			for k := range h.leaf {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if mentionsSym(body.str, h.leaf[k].str) {
					extras = append(extras, recExtra{h.param, k, h.leaf[k]})
				}
			}
		}
		same := len(extras) == len(c.recExtras[sf.name])
		for i := 0; same && i < len(extras); i++ {
			o := c.recExtras[sf.name][i]
			same = o.param == extras[i].param && o.key == extras[i].key
		}
		c.recExtras[sf.name] = extras
		if same {
			for _, x := range extras {
				flat = append(flat, x.leaf)
			}
			break
		}
		if round > 8 {
			panic(unsupported("spec: heaps of " + sf.name))
		}
	}
	var ps []string
	for _, f := range flat {
		ps = append(ps, f.sort)
	}
	decl := fmt.Sprintf("(declare-fun %s (%s) %s)", nm, strings.Join(ps, " "), rs)
	if sf.body == nil || sf.hidden && !c.reveals(sf.name) {
		c.decls = append(c.decls, decl)
		return
	}
	decl += fmt.Sprintf("\n(declare-fun rec0_%s (%s) %s)", sf.name, strings.Join(ps, " "), rs)
	c.decls = append(c.decls, decl)
	app := mk(rs, nm, flat...)
	app0 := mk(rs, "rec0_"+sf.name, flat...)
	if grouped {
		// the other functions of the group refer to this one
		c.decls = c.decls[:len(c.decls)-1]
		c.decls = append(c.decls[:at:at], append([]string{decl}, c.decls[at:]...)...)
	}
	if sf.opaque {
		c.decls = append(c.decls, "(assert "+quant("forall", flat, eq(app, body), [][]*Term{{app}}).str+")")
		return
	}
	c.decls = append(c.decls,
		"(assert "+quant("forall", flat, eq(app, body), [][]*Term{{app}}).str+")",
		"(assert "+quant("forall", flat, eq(app, app0), [][]*Term{{app}}).str+")")
}

// ---------------------------------------------------------------- quantifiers

func (env *Env) quantifier(kind string, e *ast.CallExpr, pol int) *Term {
	c := env.c
	ft := e.Args[0].(*ast.FuncType)
	ne := *env
	ne.names = map[string]*SVal{}
	for k, v := range env.names {
		ne.names[k] = v
	}
	var vars []*Term
	var facts []*Term
	for _, f := range ft.Params.List {
		t := env.typ(f.Type)
		for _, n := range f.Names {
			v := c.boundVar(n.Name, c.sortOf(t))
			vars = append(vars, v)
			ne.names[n.Name] = &SVal{t: v, typ: t}
			if f := c.typeFact(v, t, nil); f.str != "true" {
				facts = append(facts, f)
			}
		}
	}
	c.noName++
	defer func() { c.noName-- }()
	body := ne.b(e.Args[1], pol)
	var user []*Term
	for _, p := range e.Args[2:] {
		for _, x := range p.(*ast.CompositeLit).Elts {
			v := ne.eval(x)
			if v.t == nil {
				continue
			}
			user = append(user, patternParts(noITE(v.t))...)
		}
	}
	guard := and(facts...)
	if kind == "forall" {
		body = imp(guard, body)
	} else {
		body = and(guard, body)
	}
	need := (kind == "forall" && pol != polGoal) || (kind == "exists" && pol != polHyp)
	if !need {
		return quant(kind, vars, body, nil)
	}
	if kind == "forall" {
		var vs []*Term
		if len(user) == 0 {
			for _, h := range normForall(vars, body) {
				vs = append(vs, makeQuant(kind, h.vars, h.body, nil)...)
			}
		} else {
			vs = makeQuant(kind, vars, body, user)
		}
		return and(vs...)
	}
	vs := makeQuant(kind, vars, body, user)
	return or(vs...)
}

// noITE keeps the first branch of the conditionals of a pattern (the value of
// a map at a key that is present): the solver matches modulo the equality.
func noITE(t *Term) *Term {
	if t.op == "ite" {
		return noITE(t.args[1])
	}
	if t.q != nil || !strings.Contains(t.str, "(ite ") {
		return t
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = noITE(a)
	}
	return mk(t.sort, t.op, args...)
}

// patternParts: a struct value stands for its fields
func patternParts(t *Term) []*Term {
	if strings.HasPrefix(t.op, "mk-") {
		var out []*Term
		for _, a := range t.args {
			out = append(out, patternParts(a)...)
		}
		return out
	}
	return []*Term{t}
}

var interpOps = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "<": true, "<=": true, ">": true, ">=": true, "+": true, "-": true, "*": true, "/": true, "div": true, "mod": true, "ite": true, "store": true, "to_real": true, "to_int": true, "true": true, "false": true,
	"wrapU8": true, "wrapU16": true, "wrapU32": true, "wrapU64": true, "wrapS8": true, "wrapS16": true, "wrapS32": true, "goDiv": true, "goMod": true, "bv2nat": true, "bvand": true, "bvor": true, "bvnot": true, "bvult": true, "bvule": true, "pobj": false}

// hasQuant tells whether the expression unfolds to a quantified formula
func (env *Env) hasQuant(e ast.Expr, depth int) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if ce, ok := n.(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok {
				if id.Name == "forall'" || id.Name == "exists'" {
					found = true
				}
				if sf := env.c.w.specs.specs[id.Name]; sf != nil && !sf.rec && sf.body != nil && depth < 8 {
					if env.hasQuant(sf.body, depth+1) {
						found = true
					}
				}
			}
		}
		return !found
	})
	return found
}

type hypF struct {
	vars []*Term
	body *Term
}

func isQuant(t *Term, kind string) bool { return t.q != nil && t.q.kind == kind }

// normForall splits an assumed universal formula: conjunctive conclusions,
// disjunctive and existential premises, equalities defining a bound variable.
func normForall(vars []*Term, body *Term) []hypF {
	var out []hypF
	var rec func(vars, todo, ants []*Term, cons *Term)
	rec = func(vars, todo, ants []*Term, cons *Term) {
		for len(todo) > 0 {
			a := todo[0]
			todo = todo[1:]
			switch {
			case a.op == "and":
				todo = append(append([]*Term{}, a.args...), todo...)
			case isQuant(a, "exists"):
				vars = append(append([]*Term{}, vars...), a.q.vars...)
				todo = append([]*Term{a.q.body}, todo...)
			case a.op == "or":
				nq := 0
				for _, x := range a.args {
					if isQuant(x, "exists") {
						nq++
					}
				}
				if nq == len(a.args) && sameVars(a.args) {
					// versions of the same formula
					todo = append([]*Term{a.args[0]}, todo...)
				} else if nq > 0 && len(out) < 8 {
					for _, x := range a.args {
						rec(vars, append([]*Term{x}, todo...), ants, cons)
					}
					return
				} else {
					ants = append(append([]*Term{}, ants...), a)
				}
			default:
				ants = append(append([]*Term{}, ants...), a)
			}
		}
		switch {
		case cons.op == "=>":
			rec(vars, []*Term{cons.args[0]}, ants, cons.args[1])
			return
		case cons.op == "and" && hasNested(cons) && len(out) < 12:
			var plain []*Term
			for _, x := range cons.args {
				if hasNested(x) {
					rec(vars, nil, ants, x)
				} else {
					plain = append(plain, x)
				}
			}
			if len(plain) > 0 {
				rec(vars, nil, ants, and(plain...))
			}
			return
		case isQuant(cons, "forall"):
			rec(append(append([]*Term{}, vars...), cons.q.vars...), nil, ants, cons.q.body)
			return
		}
		// equalities defining a variable
		for again := true; again; {
			again = false
			for i, a := range ants {
				if a.op != "=" || len(a.args) != 2 || a.args[0].sort == "Bool" {
					continue
				}
				for k := 0; k < 2; k++ {
					x, t := a.args[k], a.args[1-k]
					vi := -1
					for j, v := range vars {
						if len(x.args) == 0 && x.q == nil && x.op == v.op {
							vi = j
						}
					}
					if vi < 0 || mentions(t, x.op) {
						continue
					}
					m := map[string]*Term{x.op: t}
					var na []*Term
					for j, b := range ants {
						if j != i {
							na = append(na, subst(b, m))
						}
					}
					ants = na
					cons = subst(cons, m)
					vars = append(append([]*Term{}, vars[:vi]...), vars[vi+1:]...)
					again = true
					break
				}
				if again {
					break
				}
			}
		}
		b := imp(and(ants...), cons)
		var vs []*Term
		for _, v := range vars {
			if mentions(b, v.op) {
				vs = append(vs, v)
			}
		}
		out = append(out, hypF{vs, b})
	}
	rec(vars, nil, nil, body)
	return out
}

// hasNested tells whether a quantifier or an implication occurs
func hasNested(t *Term) bool {
	if t.q != nil || t.op == "=>" {
		return true
	}
	if t.sort != "Bool" || (t.op != "and" && t.op != "or") {
		return false
	}
	for _, a := range t.args {
		if hasNested(a) {
			return true
		}
	}
	return false
}

func sameVars(ts []*Term) bool {
	for _, t := range ts[1:] {
		if len(t.q.vars) != len(ts[0].q.vars) {
			return false
		}
		for i, v := range t.q.vars {
			if v.op != ts[0].q.vars[i].op {
				return false
			}
		}
	}
	return true
}

type cand struct {
	t    *Term
	offs map[string]*Term // per bound variable
}

func makeQuant(kind string, vars []*Term, body *Term, user []*Term) []*Term {
	if len(vars) == 0 {
		return []*Term{body}
	}
	isVar := map[string]bool{}
	for _, v := range vars {
		isVar[v.op] = true
	}
	has := func(t *Term) bool {
		for v := range isVar {
			if mentions(t, v) {
				return true
			}
		}
		return false
	}
	var cands []cand
	seen := map[string]bool{}
	// offsets needed to make the term a valid pattern
	var need func(t *Term, offs map[string]*Term, inner map[string]bool) bool
	need = func(t *Term, offs map[string]*Term, inner map[string]bool) bool {
		if t.q != nil {
			return false
		}
		if len(t.args) == 0 {
			if inner[t.op] {
				return false
			}
			if isVar[t.op] {
				if o, ok := offs[t.op]; ok && o.str != "0" {
					return false
				}
				offs[t.op] = intT(0)
			}
			return true
		}
		if !has(t) {
			for v := range inner {
				if mentions(t, v) {
					return false
				}
			}
			return true
		}
		if t.op == "+" || (t.op == "-") {
			l := newLin()
			linearize(t, big.NewInt(1), l)
			var bv string
			n := 0
			for k, a := range l.atoms {
				if l.coef[k].Sign() == 0 {
					continue
				}
				if has(a) {
					n++
					bv = k
				}
			}
			if n != 1 || !isVar[bv] || l.coef[bv].Cmp(big.NewInt(1)) != 0 {
				return false
			}
			delete(l.coef, bv)
			o := l.term()
			for v := range inner {
				if mentions(o, v) {
					return false
				}
			}
			if p, ok := offs[bv]; ok && p.str != o.str {
				return false
			}
			offs[bv] = o
			return true
		}
		if interpOps[t.op] || strings.HasPrefix(t.op, "(_ ") {
			return false
		}
		for _, a := range t.args {
			if !need(a, offs, inner) {
				return false
			}
		}
		return true
	}
	var walk func(t *Term, inner map[string]bool)
	walk = func(t *Term, inner map[string]bool) {
		if t.q != nil {
			in2 := map[string]bool{}
			for k := range inner {
				in2[k] = true
			}
			for _, v := range t.q.vars {
				in2[v.op] = true
			}
			walk(t.q.body, in2)
			return
		}
		if len(t.args) == 0 || !has(t) {
			return
		}
		for _, a := range t.args {
			walk(a, inner)
		}
		if interpOps[t.op] || seen[t.str] {
			return
		}
		// datatype constructors and selectors of constructors are poor patterns
		if strings.HasPrefix(t.op, "mk-") || t.op == "mkPtr" || t.op == "mkSlice" || strings.HasPrefix(t.op, "(") {
			return
		}
		offs := map[string]*Term{}
		if need(t, offs, inner) && len(offs) > 0 {
			seen[t.str] = true
			cands = append(cands, cand{t, offs})
		}
	}
	if len(user) > 0 {
		for _, u := range user {
			walk(u, nil)
			// keep only the largest term: the pattern itself
			var keep []cand
			for _, cd := range cands {
				ok := false
				for _, w := range user {
					if cd.t.str == w.str {
						ok = true
					}
				}
				if ok {
					keep = append(keep, cd)
				}
			}
			cands = keep
		}
	} else {
		walk(body, nil)
	}
	if len(cands) == 0 {
		return []*Term{quant(kind, vars, body, nil)}
	}
	// drop candidates which contain another candidate with the same variables
	var filtered []cand
	for _, a := range cands {
		drop := false
		for _, b := range cands {
			if a.t != b.t && len(a.offs) == len(b.offs) && strings.Contains(a.t.str, b.t.str) && sameOffs(a, b) {
				drop = true
				break
			}
		}
		if !drop {
			filtered = append(filtered, a)
		}
	}
	cands = filtered
	// offset assignments
	perVar := map[string][]*Term{}
	for _, v := range vars {
		s := map[string]bool{}
		for _, cd := range cands {
			if o, ok := cd.offs[v.op]; ok && !s[o.str] {
				s[o.str] = true
				perVar[v.op] = append(perVar[v.op], o)
			}
		}
		if len(perVar[v.op]) == 0 {
			// a variable without trigger
			return []*Term{quant(kind, vars, body, nil)}
		}
		if len(perVar[v.op]) > 4 {
			perVar[v.op] = perVar[v.op][:4]
		}
	}
	assigns := []map[string]*Term{{}}
	for _, v := range vars {
		var nx []map[string]*Term
		for _, a := range assigns {
			for _, o := range perVar[v.op] {
				m := map[string]*Term{}
				for k, x := range a {
					m[k] = x
				}
				m[v.op] = o
				nx = append(nx, m)
			}
		}
		assigns = nx
		if len(assigns) > 8 {
			assigns = assigns[:8]
		}
	}
	var out []*Term
	done := map[string]bool{}
	for _, a := range assigns {
		var ok []cand
		for _, cd := range cands {
			good := true
			for v, o := range cd.offs {
				if a[v].str != o.str {
					good = false
				}
			}
			if good {
				ok = append(ok, cd)
			}
		}
		sort.SliceStable(ok, func(i, j int) bool {
			if len(ok[i].offs) != len(ok[j].offs) {
				return len(ok[i].offs) > len(ok[j].offs)
			}
			return ok[i].t.n < ok[j].t.n
		})
		m := map[string]*Term{}
		for v, o := range a {
			m[v] = sub(mk("Int", v), o)
			if o.str == "0" {
				delete(m, v)
			}
		}
		sb := func(t *Term) *Term {
			if len(m) == 0 {
				return t
			}
			return subst(t, m)
		}
		var pats [][]*Term
		// full covers as alternatives
		for _, cd := range ok {
			if len(cd.offs) == len(vars) && len(pats) < 4 {
				pats = append(pats, []*Term{sb(cd.t)})
			}
		}
		if len(pats) == 0 {
			covered := map[string]bool{}
			var mp []*Term
			for _, cd := range ok {
				nw := false
				for v := range cd.offs {
					if !covered[v] {
						nw = true
					}
				}
				if nw {
					for v := range cd.offs {
						covered[v] = true
					}
					mp = append(mp, sb(cd.t))
				}
			}
			if len(covered) != len(vars) {
				continue
			}
			pats = append(pats, mp)
		}
		f := quant(kind, vars, sb(body), pats)
		if !done[f.str] {
			done[f.str] = true
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		return []*Term{quant(kind, vars, body, nil)}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

func sameOffs(a, b cand) bool {
	for v, o := range a.offs {
		if p, ok := b.offs[v]; !ok || p.str != o.str {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- modifies

func (env *Env) modEntries(e ast.Expr) []modEntry {
	c := env.c
	c.quiet++
	defer func() { c.quiet-- }()
	switch x := e.(type) {
	case *ast.ParenExpr:
		return env.modEntries(x.X)
	case *ast.StarExpr:
		v := env.eval(x.X)
		p, ok := under(v.typ).(*types.Pointer)
		if !ok || v.t == nil {
			env.fail(e, "modifies")
		}
		return []modEntry{{typ: p.Elem(), field: -1, obj: pobj(v.t), idx: pidx(v.t), cond: tTrue}}
	case *ast.SliceExpr:
		v := env.eval(x.X)
		sl, ok := under(v.typ).(*types.Slice)
		if !ok {
			env.fail(e, "modifies")
		}
		if x.Low != nil || x.High != nil {
			lo, hi := intT(0), slen(v.t)
			if x.Low != nil {
				lo = env.intExpr(x.Low)
			}
			if x.High != nil {
				hi = env.intExpr(x.High)
			}
			return []modEntry{{typ: sl.Elem(), field: -1, obj: sobj(v.t), idx: add(soff(v.t), lo), hi: add(soff(v.t), hi), cond: env.derefOK(x.X)}}
		}
		return []modEntry{{typ: sl.Elem(), field: -1, obj: sobj(v.t), cond: env.derefOK(x.X)}}
	case *ast.IndexExpr:
		v := env.eval(x.X)
		sl, ok := under(v.typ).(*types.Slice)
		if !ok {
			env.fail(e, "modifies")
		}
		return []modEntry{{typ: sl.Elem(), field: -1, obj: sobj(v.t), idx: add(soff(v.t), env.intExpr(x.Index)), cond: env.derefOK(x.X)}}
	case *ast.SelectorExpr:
		if sx, ok := x.X.(*ast.SliceExpr); ok {
			ms := env.modEntries(sx)
			return fieldOfEntries(ms, x.Sel.Name)
		}
		if ix, ok := x.X.(*ast.IndexExpr); ok {
			ms := env.modEntries(ix)
			return fieldOfEntries(ms, x.Sel.Name)
		}
		if cx, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := cx.Fun.(*ast.Ident); ok && id.Name == "allof" {
				return fieldOfEntries(env.modEntries(cx), x.Sel.Name)
			}
		}
		v := env.eval(x.X)
		t := v.typ
		if isPtr(t) && v.t != nil {
			el := under(t).(*types.Pointer).Elem()
			// map valued field listed through its name: the field itself
			return fieldOfEntries([]modEntry{{typ: el, field: -1, obj: pobj(v.t), idx: pidx(v.t), cond: tTrue}}, x.Sel.Name)
		}
		// p.f.g with f a struct value: the whole field f
		if _, ok := x.X.(*ast.SelectorExpr); ok {
			return env.modEntries(x.X)
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "mapof" {
			v := env.eval(x.Args[0])
			return []modEntry{{typ: v.typ, field: -1, obj: pobj(v.t), cond: tTrue, isMap: true}}
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "allof" {
			// every object of a type
			return []modEntry{{typ: env.typ(x.Args[0]), field: -1, cond: tTrue, any: true}}
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "ite'" {
			cd := env.b(x.Args[0], polBoth)
			var out []modEntry
			for _, m := range env.modEntries(x.Args[1]) {
				m.cond = and(cd, m.cond)
				out = append(out, m)
			}
			return out
		}
	}
	v := env.eval(e)
	if v.t != nil {
		if _, ok := under(v.typ).(*types.Map); ok {
			return []modEntry{{typ: v.typ, field: -1, obj: pobj(v.t), cond: tTrue, isMap: true}}
		}
	}
	env.fail(e, "modifies clause")
	return nil
}

// derefOK: the pointer dereferenced by a slice expression is not nil (the
// clause denotes no location otherwise)
func (env *Env) derefOK(e ast.Expr) *Term {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return env.derefOK(x.X)
	case *ast.StarExpr:
		if v := env.eval(x.X); v.t != nil && v.t.sort == "Ptr" {
			return not(eq(pobj(v.t), intT(0)))
		}
	}
	return tTrue
}

func fieldOfEntries(ms []modEntry, name string) []modEntry {
	var out []modEntry
	for _, m := range ms {
		st, ok := under(m.typ).(*types.Struct)
		if !ok {
			panic(unsupported("spec: modifies field of a non struct"))
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				n := m
				n.field = i
				out = append(out, n)
				found = true
			}
		}
		if !found {
			panic(unsupported("spec: modifies: no field " + name))
		}
	}
	return out
}

// ---------------------------------------------------------------- lemmas

func (c *Ctx) useLemma(st *State, env *Env, e ast.Expr) {
	ce, ok := e.(*ast.CallExpr)
	if !ok {
		panic(unsupported("use: call expected"))
	}
	// cond ==> lemma(args)
	if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "imp'" {
		c.quiet++
		cd := env.b(ce.Args[0], polBoth)
		c.quiet--
		s2 := st.clone()
		s2.pc = and(st.pc, cd)
		c.useLemma(s2, env, ce.Args[1])
		return
	}
	id, ok := ce.Fun.(*ast.Ident)
	if !ok {
		panic(unsupported("use: lemma name expected"))
	}
	l := c.w.specs.lemmas[id.Name]
	if l == nil {
		panic(unsupported("use: unknown lemma " + id.Name))
	}
	c.applyLemma(st, env, l, ce.Args, "use:"+exprStr(e), true)
	if c.dry == 0 {
		c.usedContracts["lemma "+l.name] = true
	}
}

func (c *Ctx) applyLemma(st *State, env *Env, l *Lemma, args []ast.Expr, id string, soft bool) {
	if len(args) != len(l.params) {
		panic(unsupported("use: arguments of " + l.name))
	}
	if soft && c.disabled[id] {
		return
	}
	c.quiet++
	ne := &Env{c: c, names: map[string]*SVal{}, st: st, old: env.old, pkg: c.w.pkgs[l.pkg]}
	var shared *State
	for i, p := range l.params {
		v := env.coerceTo(env.eval(args[i]), ne.typ(p.typ))
		ne.names[p.name] = v
		if t := ne.typ(p.typ); l.sameHeap && hasRef(t, 0) {
			h := env.heapOf(v)
			if shared != nil && shared != h {
				panic(unsupported("use of lemma " + l.name + ": arguments of different states"))
			}
			shared = h
		}
	}
	c.quiet--
	if c.noName > 0 {
		return
	}
	for _, r := range l.requires {
		g := ne.boolClause(r, false)
		if o := c.oblige(st, "lemma-pre", l.name, g, token.NoPos, r.text); o != nil && soft {
			o.soft = id
		}
		c.assume(st, ne.boolClause(r, true))
	}
	for _, en := range l.ensures {
		c.assume(st, ne.boolClause(en, true))
	}
}

// verifyLemma generates the obligations of a lemma
func (c *Ctx) verifyLemma(l *Lemma) {
	c.alloc0 = mk("Int", "alloc0")
	c.modAll = true
	c.absMul = l.absMul
	c.tables = l.tables
	c.reveal = l.reveal
	st := &State{pc: tTrue, vars: map[*types.Var]Val{}, heap: map[string]*Term{}, alloc: c.alloc0}
	c.entry = st.clone()
	env := &Env{c: c, names: map[string]*SVal{}, st: st, old: st, pkg: c.w.pkgs[l.pkg]}
	for _, p := range l.params {
		t := env.typ(p.typ)
		v := mk(c.sortOf(t), "p_"+p.name)
		c.decls = append(c.decls, fmt.Sprintf("(declare-const %s %s)", v.op, v.sort))
		c.assumeRaw(c.typeFact(v, t, nil))
		sv := &SVal{t: v, typ: t}
		if hasRef(t, 0) && !l.sameHeap {
			sv.hst = c.lemmaHeap(p.name)
		}
		env.names[p.name] = sv
	}
	for _, r := range l.requires {
		c.assume(st, env.boolClause(r, true))
	}
	c.cover = append(c.cover, coverPt{"lemma " + l.name, len(c.log), tTrue})
	var m0 []*Term
	for _, d := range l.decr {
		m0 = append(m0, env.intExpr(d))
	}
	doIH := func(e ast.Expr, text string) {
		s2 := st
		if ce, ok := e.(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "imp'" {
				c.quiet++
				cd := env.b(ce.Args[0], polBoth)
				c.quiet--
				s2 = st.clone()
				s2.pc = cd
				e = ce.Args[1]
			}
		}
		ce, ok := e.(*ast.CallExpr)
		if !ok {
			panic(unsupported("ih: call expected"))
		}
		ne := &Env{c: c, names: map[string]*SVal{}, st: s2, pkg: c.w.pkgs[l.pkg]}
		c.quiet++
		for i, p := range l.params {
			ne.names[p.name] = env.coerceTo(env.eval(ce.Args[i]), ne.typ(p.typ))
		}
		c.quiet--
		if len(l.decr) == 0 {
			panic(unsupported("lemma with ih needs decreases: " + l.name))
		}
		var alts, eqs []*Term
		for i, d := range l.decr {
			n := ne.intExpr(d)
			alts = append(alts, and(append(append([]*Term{}, eqs...), lt(n, m0[i]), le(intT(0), m0[i]))...))
			eqs = append(eqs, eq(n, m0[i]))
		}
		c.oblige(s2, "decreases", "ih", or(alts...), token.NoPos, text)
		for _, r := range l.requires {
			c.oblige(s2, "lemma-pre", "ih", ne.boolClause(r, false), token.NoPos, r.text)
		}
		for _, en := range l.ensures {
			c.assume(s2, ne.boolClause(en, true))
		}
	}
	for _, ih := range l.ih {
		doIH(ih.expr, ih.text)
	}
	for _, g := range l.ghost {
		switch g.kind {
		case "cases": // i < n: a case distinction over 0..n-1
			c.caseSplit(st, env, g.expr)
		case "induct": // like ih, but in the order of the text
			doIH(g.expr, g.text)
		case "assert":
			cl := &Clause{label: g.name, expr: g.expr, text: g.text}
			c.oblige(st, "assert", g.name, env.boolClause(cl, false), token.NoPos, g.text)
			c.assume(st, env.boolClause(cl, true))
		case "use":
			ce := g.expr.(*ast.CallExpr)
			s2 := st
			if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "imp'" {
				c.quiet++
				cd := env.b(ce.Args[0], polBoth)
				c.quiet--
				s2 = st.clone()
				s2.pc = cd
				ce = ce.Args[1].(*ast.CallExpr)
			}
			o := c.w.specs.lemmas[ce.Fun.(*ast.Ident).Name]
			if o == nil {
				panic(unsupported("use: unknown lemma"))
			}
			if o.order >= l.order {
				panic(unsupported("lemma " + l.name + " uses the later lemma " + o.name))
			}
			c.applyLemma(s2, env, o, ce.Args, "", false)
			c.usedContracts["lemma "+o.name] = true
		}
	}
	for _, en := range l.ensures {
		c.oblige(st, "ensures", clauseName(en), env.boolClause(en, false), token.NoPos, en.text)
	}
}

// caseSplit states the tautology 0 <= i < n ==> i = 0 or ... or i = n-1, for
// the facts about tables that hold entry by entry.
func (c *Ctx) caseSplit(st *State, env *Env, e ast.Expr) {
	b, ok := e.(*ast.BinaryExpr)
	if !ok || b.Op != token.LSS {
		panic(unsupported("cases: i < n expected"))
	}
	i := env.intExpr(b.X)
	var n int64
	if _, err := fmt.Sscanf(env.intExpr(b.Y).str, "%d", &n); err != nil || n > 4096 {
		panic(unsupported("cases: constant bound expected"))
	}
	var or_ []*Term
	for k := int64(0); k < n; k++ {
		or_ = append(or_, eq(i, intT(k)))
	}
	c.assume(st, imp(and(le(intT(0), i), lt(i, intT(n))), or(or_...)))
}

// lemmaHeap is an arbitrary heap
func (c *Ctx) lemmaHeap(nm string) *State {
	return &State{pc: tTrue, vars: map[*types.Var]Val{}, heap: map[string]*Term{}, alloc: c.alloc0, hname: nm}
}

// ---------------------------------------------------------------- globals

// globalVal is the value of a package variable. Variables which are never
// written nor have their address taken keep the value of their initializer.
func (c *Ctx) globalVal(v *types.Var, gi *globalInfo) Val {
	if x, ok := c.globalsDone[v]; ok {
		return x
	}
	nm := "glob_" + sanitize(v.Pkg().Name()+"."+v.Name())
	x := c.globalVal0(v, gi, nm)
	c.globalsDone[v] = x
	return x
}

func (c *Ctx) globalVal0(v *types.Var, gi *globalInfo, nm string) Val {
	arbitrary := func() Val {
		s := c.sortOf(v.Type())
		c.decl(nm, fmt.Sprintf("(declare-const %s %s)", nm, s))
		t := mk(s, nm)
		if f := c.typeFact(t, v.Type(), mk("Int", "alloc0")); f.str != "true" {
			c.decls = append(c.decls, "(assert "+f.str+")")
		}
		if c.tables && c.constFields(t, v, gi) {
			return &TV{t, v.Type()}
		}
		c.note("package variable " + v.Pkg().Name() + "." + v.Name() + " is read as an arbitrary value, constant during a call")
		return &TV{t, v.Type()}
	}
	if gi.mutable || gi.init == nil {
		if !gi.mutable && gi.init == nil {
			if _, ok := under(v.Type()).(*types.Basic); ok {
				return &TV{c.zero(v.Type()), v.Type()}
			}
		}
		return arbitrary()
	}
	if tv, ok := gi.pkg.info.Types[gi.init]; ok && tv.Value != nil {
		return &TV{c.constTerm(tv.Value, v.Type()), v.Type()}
	}
	cl, ok := gi.init.(*ast.CompositeLit)
	if !ok {
		return arbitrary()
	}
	switch u := under(v.Type()).(type) {
	case *types.Array, *types.Struct:
		if nElts(cl) > 3000 {
			return arbitrary()
		}
		r := c.globalLit(gi, cl, v.Type())
		if r == nil {
			return arbitrary()
		}
		if _, isArr := u.(*types.Array); isArr {
			// ground facts instead of a deep store term
			s := c.sortOf(v.Type())
			c.decl(nm, fmt.Sprintf("(declare-const %s %s)", nm, s))
			t := mk(s, nm)
			c.tableFacts(t, r, u.(*types.Array).Elem(), u.(*types.Array).Len())
			c.note("package table " + v.Pkg().Name() + "." + v.Name() + " keeps its initial contents (no write in the package)")
			return &TV{t, v.Type()}
		}
		return &TV{r, v.Type()}
	case *types.Slice:
		if nElts(cl) > 3000 {
			return arbitrary()
		}
		n := int64(0)
		idx := int64(0)
		si, isS := c.elemStruct(u.Elem())
		var vals []*Term
		for _, el := range cl.Elts {
			x := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k, ok := constant.Int64Val(constant.ToInt(gi.pkg.info.Types[kv.Key].Value))
				if !ok {
					return arbitrary()
				}
				idx = k
				x = kv.Value
			}
			t := c.globalLit(gi, x, u.Elem())
			if t == nil {
				return arbitrary()
			}
			for int64(len(vals)) <= idx {
				vals = append(vals, c.zero(u.Elem()))
			}
			vals[idx] = t
			idx++
			if idx > n {
				n = idx
			}
		}
		on := "globobj_" + sanitize(v.Pkg().Name()+"."+v.Name())
		c.decl(on, fmt.Sprintf("(declare-const %s Int)\n(assert (and (< 0 %s) (< %s alloc0)))", on, on, on))
		for ki, k := range c.heapKeys(u.Elem()) {
			an := nm + "." + sanitize(k)
			s := elemSort(c.heapT[k].sort)
			c.decl(an, fmt.Sprintf("(declare-const %s %s)", an, s))
			arr := mk(s, an)
			var b strings.Builder
			for i, x := range vals {
				if isS {
					x = si.get(x, ki)
				}
				fmt.Fprintf(&b, "(assert (= (select %s %d) %s))\n", an, i, x.str)
			}
			c.decls = append(c.decls, b.String())
			c.globArr[on+"|"+k] = arr
		}
		c.note("package table " + v.Pkg().Name() + "." + v.Name() + " keeps its initial contents (no write in the package)")
		return &TV{mkSlice(mk("Int", on), intT(0), intT(n), intT(n)), v.Type()}
	}
	return arbitrary()
}

// constFields states the string fields of the entries of a table
func (c *Ctx) constFields(t *Term, v *types.Var, gi *globalInfo) bool {
	at, ok := under(v.Type()).(*types.Array)
	cl, ok2 := gi.init.(*ast.CompositeLit)
	if !ok || !ok2 {
		return false
	}
	st, ok := under(at.Elem()).(*types.Struct)
	if !ok {
		return false
	}
	si := c.structOf(at.Elem())
	var b strings.Builder
	for i, x := range cl.Elts {
		el, ok := x.(*ast.CompositeLit)
		if !ok {
			return false
		}
		for f, x := range el.Elts {
			if _, ok := x.(*ast.KeyValueExpr); ok {
				return false
			}
			bt, ok := under(st.Field(f).Type()).(*types.Basic)
			cv := gi.pkg.info.Types[x].Value
			if !ok || cv == nil || bt.Info()&types.IsString == 0 {
				continue
			}
			fld := si.get(mk(si.sort, "select", t, intT(int64(i))), f)
			str := constant.StringVal(cv)
			fmt.Fprintf(&b, "(assert (= %s %d))\n", strLen(fld).str, len(str))
			for j := 0; j < len(str); j++ {
				fmt.Fprintf(&b, "(assert (= %s %d))\n", strAt(fld, intT(int64(j))).str, str[j])
			}
		}
	}
	c.decls = append(c.decls, b.String())
	c.note("the strings of the package table " + v.Pkg().Name() + "." + v.Name() + " keep their initial contents (the address taken in the package is the one of another field)")
	return true
}

func nElts(cl *ast.CompositeLit) int {
	n := 0
	ast.Inspect(cl, func(x ast.Node) bool {
		if c, ok := x.(*ast.CompositeLit); ok {
			n += len(c.Elts)
		}
		return true
	})
	return n
}

func (c *Ctx) tableFacts(t, v *Term, el types.Type, n int64) {
	var b strings.Builder
	set := map[string]bool{}
	x := v
	for x.op == "store" {
		if !set[x.args[1].str] {
			set[x.args[1].str] = true
			fmt.Fprintf(&b, "(assert (= (select %s %s) %s))\n", t.str, x.args[1].str, x.args[2].str)
		}
		x = x.args[0]
	}
	if int64(len(set)) < n {
		z := c.zero(el)
		if n <= 4096 {
			for i := int64(0); i < n; i++ {
				if !set[fmt.Sprint(i)] {
					fmt.Fprintf(&b, "(assert (= (select %s %d) %s))\n", t.str, i, z.str)
				}
			}
		}
	}
	c.decls = append(c.decls, b.String())
}

// globalLit evaluates a constant literal (nil when it is not one)
func (c *Ctx) globalLit(gi *globalInfo, e ast.Expr, t types.Type) *Term {
	info := gi.pkg.info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return c.constTerm(tv.Value, t)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.globalLit(gi, x.X, t)
	case *ast.CompositeLit:
		switch u := under(t).(type) {
		case *types.Struct:
			si := c.structOf(t)
			vs := make([]*Term, u.NumFields())
			for i, el := range x.Elts {
				j := i
				v := el
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					j = -1
					for k := 0; k < u.NumFields(); k++ {
						if u.Field(k).Name() == kv.Key.(*ast.Ident).Name {
							j = k
						}
					}
					v = kv.Value
				}
				vs[j] = c.globalLit(gi, v, u.Field(j).Type())
				if vs[j] == nil {
					return nil
				}
			}
			for i := range vs {
				if vs[i] == nil {
					vs[i] = c.zero(u.Field(i).Type())
				}
			}
			return si.make(vs)
		case *types.Array:
			a := c.zero(t)
			idx := int64(0)
			for _, el := range x.Elts {
				v := el
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					k, ok := constant.Int64Val(constant.ToInt(info.Types[kv.Key].Value))
					if !ok {
						return nil
					}
					idx = k
					v = kv.Value
				}
				ev := c.globalLit(gi, v, u.Elem())
				if ev == nil {
					return nil
				}
				a = store(a, intT(idx), ev)
				idx++
			}
			return a
		}
	case *ast.Ident:
		if x.Name == "nil" {
			return c.zero(t)
		}
	}
	return nil
}
