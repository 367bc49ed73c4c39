package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func (c *Ctx) call(st *State, fr *Frame, e *ast.CallExpr) []Val {
	info := c.info(fr)
	ft := info.Types[e.Fun]
	if ft.IsType() {
		v := c.expr(st, fr, e.Args[0])
		to := info.Types[e].Type
		if fv, ok := v.(*FuncVal); ok {
			return []Val{fv}
		}
		if lp, ok := v.(*LocPtr); ok {
			return []Val{lp}
		}
		return []Val{&TV{c.name(c.convTerm(st, v, to), "conv"), to}}
	}
	if ft.IsBuiltin() {
		return c.builtin(st, fr, e)
	}
	fun := c.expr(st, fr, e.Fun)
	sig := under(ft.Type).(*types.Signature)
	args := c.callArgs(st, fr, e, sig)
	return c.apply(st, fr, fun, sig, args, e.Pos())
}

func (c *Ctx) callArgs(st *State, fr *Frame, e *ast.CallExpr, sig *types.Signature) []Val {
	var raw []Val
	if len(e.Args) == 1 && sig.Params().Len() > 1 {
		if tup, ok := c.expr(st, fr, e.Args[0]).(*Tuple); ok {
			raw = tup.vs
		} else {
			raw = []Val{c.expr(st, fr, e.Args[0])}
		}
	} else {
		for _, a := range e.Args {
			v := c.expr(st, fr, a)
			raw = append(raw, v)
		}
	}
	n := sig.Params().Len()
	var args []Val
	if sig.Variadic() && !e.Ellipsis.IsValid() {
		for i := 0; i < n-1; i++ {
			args = append(args, c.coerce(st, raw[i], sig.Params().At(i).Type()))
		}
		vt := sig.Params().At(n - 1).Type()
		el := under(vt).(*types.Slice).Elem()
		rest := raw[n-1:]
		if len(rest) == 0 {
			return append(args, &TV{nilSlice, vt})
		}
		o := c.newObj(st)
		si, isS := c.elemStruct(el)
		var ts []*Term
		for _, r := range rest {
			ts = append(ts, c.convTerm(st, r, el))
		}
		for ki, k := range c.heapKeys(el) {
			h := c.heapGet(st, k)
			proj := func(v *Term) *Term {
				if isS {
					return si.get(v, ki)
				}
				return v
			}
			a := constArr("Int", proj(c.zero(el)))
			for i, t := range ts {
				a = store(a, intT(int64(i)), proj(t))
			}
			c.heapSet(st, k, store(h, o, a))
		}
		return append(args, &TV{mkSlice(o, intT(0), intT(int64(len(rest))), intT(int64(len(rest)))), vt})
	}
	for i := 0; i < n; i++ {
		args = append(args, c.coerce(st, raw[i], sig.Params().At(i).Type()))
	}
	return args
}

// coerce converts a value to a parameter / variable type, keeping aliases and
// functions
func (c *Ctx) coerce(st *State, v Val, t types.Type) Val {
	switch x := v.(type) {
	case *TV:
		return &TV{c.convert(st, x.t, x.typ, t), t}
	case *FuncVal, *LocPtr:
		return v
	}
	return v
}

func (c *Ctx) apply(st *State, fr *Frame, fun Val, sig *types.Signature, args []Val, pos token.Pos) []Val {
	switch f := fun.(type) {
	case *FuncVal:
		if f.lit != nil {
			return c.inlineLit(st, fr, f, args, pos)
		}
		recv := f.recv
		if f.meth {
			recv = args[0]
			args = args[1:]
			rt := f.fn.Type().(*types.Signature).Recv().Type()
			if isPtr(rt) {
				if tv, ok := recv.(*TV); ok && !isPtr(tv.typ) {
					panic(unsupported("method expression receiver"))
				}
			}
		}
		return c.applyFunc(st, fr, f.fn, recv, args, pos)
	case *TV:
		// unknown function value: a pure uninterpreted function
		c.check(st, "nilfunc", not(eq(f.t, mk("Func", "nilFunc"))), pos)
		c.note("function values passed as parameters are assumed to be pure (deterministic, no side effect, no panic)")
		return c.uninterp("apply_"+typeKey(sig), append([]Val{f}, args...), sig.Results(), st)
	}
	panic(unsupported("call of value"))
}

// uninterp applies an uninterpreted function to the arguments
func (c *Ctx) uninterp(name string, args []Val, res *types.Tuple, st *State) []Val {
	var out []Val
	name = sanitize(name)
	var ts []*Term
	for _, a := range args {
		if a == nil {
			continue
		}
		if lp, ok := a.(*LocPtr); ok {
			v := c.loadLoc(st, lp.loc)
			ts = append(ts, c.term(v))
			continue
		}
		ts = append(ts, c.term(a))
	}
	for i := 0; i < res.Len(); i++ {
		rt := res.At(i).Type()
		nm := name
		if res.Len() > 1 {
			nm = fmt.Sprintf("%s_%d", name, i)
		}
		s := c.sortOf(rt)
		var ps []string
		for _, t := range ts {
			ps = append(ps, t.sort)
		}
		c.decl("uf "+nm, fmt.Sprintf("(declare-fun %s (%s) %s)", nm, strings.Join(ps, " "), s))
		var t *Term
		if len(ts) == 0 {
			t = mk(s, nm)
		} else {
			t = mk(s, nm, ts...)
		}
		c.assume(st, c.typeFact(t, rt, st.alloc))
		out = append(out, &TV{t, rt})
	}
	return out
}

func (c *Ctx) specOf(fn *types.Func) *FuncSpec {
	if fd := c.w.funcs[fn]; fd != nil {
		return c.w.specs.funcs[fd.pkg.path+"."+fd.name]
	}
	return c.w.specs.funcs[externName(fn)]
}

func externName(fn *types.Func) string {
	p := ""
	if fn.Pkg() != nil {
		p = fn.Pkg().Path() + "."
	}
	return p + funcShortName(fn)
}

func (c *Ctx) applyFunc(st *State, fr *Frame, fn *types.Func, recv Val, args []Val, pos token.Pos) []Val {
	fd := c.w.funcs[fn]
	sig := fn.Type().(*types.Signature)
	spec := c.specOf(fn)
	if fd != nil && fd.decl.Body != nil {
		rec := c.onStack(fr, fd)
		if spec != nil && !spec.inline && (c.quiet == 0 || rec) && !c.effectsOnlyFor(fd) {
			return c.contractCall(st, fr, fn, fd, spec, recv, args, pos)
		}
		if rec {
			if c.effectsOnly {
				return c.freshResults(st, sig)
			}
			panic(unsupported("recursive call of " + fd.name + " without contract"))
		}
		if spec != nil && spec.trusted != "" && c.quiet == 0 {
			return c.contractCall(st, fr, fn, fd, spec, recv, args, pos)
		}
		return c.inlineCall(st, fr, fd, recv, args, pos)
	}
	if spec != nil {
		return c.contractCall(st, fr, fn, nil, spec, recv, args, pos)
	}
	// external function or interface method without contract
	if r := sig.Recv(); r != nil && recv != nil {
		if _, isI := under(r.Type()).(*types.Interface); isI {
			if rv, ok := recv.(*TV); ok {
				c.check(st, "nil", not(eq(rv.t, mk("Iface", "nilIface"))), pos)
			}
		}
	}
	c.note("call of " + externName(fn) + " (no contract): assumed to terminate, not to panic, not to write memory of the verified code")
	all := append([]Val{}, args...)
	if recv != nil {
		all = append([]Val{recv}, args...)
	}
	scalar := true
	for _, a := range all {
		tv, ok := a.(*TV)
		if !ok || !scalarSort(tv.t.sort) && !valueType(tv.typ, 0) {
			scalar = false
		}
	}
	if scalar && sig.Results().Len() > 0 {
		ok := true
		for i := 0; i < sig.Results().Len(); i++ {
			if t := sig.Results().At(i).Type(); !scalarSort(c.sortOf(t)) && !valueType(t, 0) {
				ok = false
			}
		}
		if ok {
			return c.uninterp("ext_"+externName(fn), all, sig.Results(), st)
		}
	}
	return c.freshResults(st, sig)
}

// valueType reports that the type holds no reference
func valueType(t types.Type, depth int) bool {
	if t == nil || depth > 5 {
		return false
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return true
	case *types.Array:
		return valueType(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !valueType(u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func scalarSort(s string) bool {
	return s == "Int" || s == "Bool" || s == "Str" || s == "Real" || s == "Iface" || s == "Func" || isBV(s)
}

func (c *Ctx) freshResults(st *State, sig *types.Signature) []Val {
	var out []Val
	if c.noName == 0 {
		na := c.fresh("alloc", "Int")
		c.assumeRaw(le(st.alloc, na))
		c.setAlloc(st, na)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		t := c.fresh("ext", c.sortOf(rt))
		c.assume(st, c.typeFact(t, rt, st.alloc))
		out = append(out, &TV{t, rt})
	}
	return out
}

func (c *Ctx) onStack(fr *Frame, fd *FuncDecl) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fd == fd {
			return true
		}
	}
	return c.fd == fd && (fr != nil || c.quiet == 0)
}

func (c *Ctx) effectsOnlyFor(fd *FuncDecl) bool { return false }

// newFrame prepares the frame of a function body
func (c *Ctx) newFrame(parent *Frame, fd *FuncDecl, pkg *Pkg, sig *types.Signature, body *ast.BlockStmt) *Frame {
	fr := &Frame{fd: fd, pkg: pkg, sig: sig, parent: parent, body: body}
	fr.heapified = c.escaping(pkg, body)
	n := 0
	fr.loopN = &n
	return fr
}

// escaping returns the local variables whose address is taken and kept
func (c *Ctx) escaping(pkg *Pkg, body *ast.BlockStmt) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	var baseVar func(e ast.Expr) *types.Var
	baseVar = func(e ast.Expr) *types.Var {
		switch x := e.(type) {
		case *ast.ParenExpr:
			return baseVar(x.X)
		case *ast.Ident:
			v, _ := pkg.info.Uses[x].(*types.Var)
			if v != nil && c.w.globals[v] == nil {
				return v
			}
		}
		return nil
	}
	// addresses directly used as call arguments do not escape
	direct := map[ast.Expr]bool{}
	arrAddr := map[*types.Var]bool{}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			for _, a := range n.Args {
				if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND {
					direct[u] = true
				}
			}
		case *ast.SliceExpr:
			// a sliced array variable lives in the heap as a row of elements
			if v := baseVar(n.X); v != nil {
				if a, ok := under(v.Type()).(*types.Array); ok {
					if _, isStruct := under(a.Elem()).(*types.Struct); !isStruct {
						out[v] = true
						if c.rows == nil {
							c.rows = map[*types.Var]types.Type{}
						}
						c.rows[v] = a.Elem()
					}
				}
			}
		case *ast.UnaryExpr:
			if v := baseVar(n.X); n.Op == token.AND && v != nil {
				if _, isArr := under(v.Type()).(*types.Array); isArr {
					arrAddr[v] = true
				}
			}
			if n.Op == token.AND && !direct[n] {
				if v := baseVar(n.X); v != nil {
					out[v] = true
				}
			}
		}
		return true
	})
	for v := range arrAddr {
		if c.rows[v] != nil { // sliced and &v: not supported
			delete(c.rows, v)
		}
	}
	return out
}

func (c *Ctx) bindParams(st *State, fr *Frame, sig *types.Signature, recv Val, args []Val) {
	if r := sig.Recv(); r != nil && recv != nil {
		c.declareVar(st, fr, r, c.coerce(st, recv, r.Type()))
	}
	for i := 0; i < sig.Params().Len(); i++ {
		c.declareVar(st, fr, sig.Params().At(i), args[i])
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		if r.Name() != "" && r.Name() != "_" {
			c.declareVar(st, fr, r, &TV{c.zero(r.Type()), r.Type()})
			fr.results = append(fr.results, r)
		} else {
			fr.results = append(fr.results, types.NewVar(token.NoPos, nil, fmt.Sprintf("result%d", i), r.Type()))
		}
	}
}

// declareVar introduces a local variable
func (c *Ctx) declareVar(st *State, fr *Frame, v *types.Var, x Val) {
	if v.Name() == "_" {
		return
	}
	if tv, ok := x.(*TV); ok && tv.typ != v.Type() {
		x = &TV{c.convert(st, tv.t, tv.typ, v.Type()), v.Type()}
	}
	if fr.heapified[v] {
		o := c.newObj(st)
		if el := c.rows[v]; el != nil {
			c.storeLoc(st, &Loc{obj: o, base: el, typ: v.Type(), row: true}, x, token.NoPos)
		} else {
			c.storeCell(st, o, intT(0), v.Type(), c.term(x))
		}
		c.setVar(st, v, &TV{mkPtr(o, intT(0)), types.NewPointer(v.Type())})
		return
	}
	c.setVar(st, v, x)
}

func (c *Ctx) inlineCall(st *State, fr *Frame, fd *FuncDecl, recv Val, args []Val, pos token.Pos) []Val {
	if c.depth > 14 {
		panic(unsupported("inlining depth"))
	}
	if c.quiet == 0 {
		c.inlined[fd.pkg.path+"."+fd.name] = true
	}
	sig := fd.obj.Type().(*types.Signature)
	nf := c.newFrame(fr, fd, fd.pkg, sig, fd.decl.Body)
	nf.spec = c.w.specs.funcs[fd.pkg.path+"."+fd.name]
	if fr != nil {
		nf.loopPfx = fr.loopPfx + fmt.Sprintf("/%d", pos)
	}
	if rl, ok := recv.(*LocPtr); ok && !isPtr(sig.Recv().Type()) {
		recv = c.loadLoc(st, rl.loc)
	}
	return c.runBody(st, nf, sig, recv, args)
}

func (c *Ctx) inlineLit(st *State, fr *Frame, f *FuncVal, args []Val, pos token.Pos) []Val {
	if c.depth > 14 {
		panic(unsupported("inlining depth"))
	}
	sig := under(f.fr.pkg.info.Types[f.lit].Type).(*types.Signature)
	nf := c.newFrame(f.fr, nil, f.fr.pkg, sig, f.lit.Body)
	nf.loopPfx = f.fr.loopPfx + fmt.Sprintf("/lit%d@%d", f.lit.Pos(), pos)
	for v := range f.fr.heapified {
		nf.heapified[v] = true
	}
	return c.runBody(st, nf, sig, nil, args)
}

func (c *Ctx) runBody(st *State, nf *Frame, sig *types.Signature, recv Val, args []Val) []Val {
	c.depth++
	defer func() { c.depth-- }()
	s := st.clone()
	c.bindParams(s, nf, sig, recv, args)
	c.block(s, nf, nf.body.List)
	if !s.dead() {
		c.doReturn(s, nf, nil, nf.body.Rbrace)
	}
	var sts []*State
	for _, ex := range nf.exits {
		es := ex.st.clone()
		for i, r := range nf.results {
			es.vars[r] = ex.vals[i]
		}
		sts = append(sts, es)
	}
	if len(sts) == 0 {
		// never returns
		n := s.clone()
		n.pc = tFalse
		*st = *n
		var out []Val
		for i := 0; i < sig.Results().Len(); i++ {
			out = append(out, &TV{c.zero(sig.Results().At(i).Type()), sig.Results().At(i).Type()})
		}
		return out
	}
	m := c.merge(sts)
	var out []Val
	for i, r := range nf.results {
		v, ok := m.vars[r]
		if !ok {
			panic(unsupported("merged result of an inlined call"))
		}
		delete(m.vars, r)
		out = append(out, c.coerce(m, v, sig.Results().At(i).Type()))
	}
	// keep the caller's path condition when every path returns
	if complete(nf) {
		m.pc = st.pc
	}
	// drop the variables of the callee
	for v := range m.vars {
		if _, ok := st.vars[v]; !ok {
			delete(m.vars, v)
		}
	}
	*st = *m
	return out
}

// complete: no path of the body is cut (panic); then the merged path condition
// is the caller's
func complete(fr *Frame) bool {
	ok := true
	ast.Inspect(fr.body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			ok = ok && !isPanicLike(n)
			if _, isLit := n.Fun.(*ast.FuncLit); isLit {
				ok = false
			}
		case *ast.ForStmt:
			if n.Cond == nil {
				ok = false
			}
		}
		return true
	})
	// calls may themselves be incomplete: conservative
	hasCall := false
	ast.Inspect(fr.body, func(n ast.Node) bool {
		if ce, isC := n.(*ast.CallExpr); isC {
			if tv, found := fr.pkg.info.Types[ce.Fun]; found && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			hasCall = true
		}
		return true
	})
	return ok && !hasCall
}

func isPanicLike(n *ast.CallExpr) bool {
	if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "panic" {
		return true
	}
	return false
}

// effects computes the heap arrays a function may write
type effects struct {
	heaps map[string]bool
	alloc bool
}

var effCache = map[*FuncDecl]*effects{}
var effBusy = map[*FuncDecl]bool{}
var effIncomplete bool

func (c *Ctx) effectsOf(fd *FuncDecl) *effects {
	if e, ok := effCache[fd]; ok {
		return e
	}
	if effBusy[fd] {
		effIncomplete = true
		return &effects{heaps: map[string]bool{}}
	}
	effBusy[fd] = true
	defer delete(effBusy, fd)
	outer := effIncomplete
	effIncomplete = false
	n := newCtx(c.w, fd)
	n.effectsOnly = true
	n.modAll = true
	tr := &touchRec{vars: map[*types.Var]bool{}, heaps: map[string]bool{}}
	n.touch = []*touchRec{tr}
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(unsupportedErr); ok {
					err = e
					return
				}
				panic(r)
			}
		}()
		st, fr := n.initState(fd)
		n.block(st, fr, fd.decl.Body.List)
	}()
	if err != nil {
		panic(unsupported("effects of " + fd.name + ": " + err.Error()))
	}
	e := &effects{heaps: tr.heaps, alloc: tr.alloc}
	if !effIncomplete || len(effBusy) == 1 {
		effCache[fd] = e
	}
	effIncomplete = outer || (effIncomplete && len(effBusy) > 1)
	// make the heap keys known here
	for k := range tr.heaps {
		c.heapT[k] = n.heapT[k]
	}
	c.importHeaps(n)
	effHeaps[fd] = n.heapT
	return e
}

var effHeaps = map[*FuncDecl]map[string]heapInfo{}

func (c *Ctx) importHeaps(n *Ctx) {
	for k, v := range n.heapT {
		if _, ok := c.heapT[k]; !ok {
			if v.elem != nil {
				c.sortOf(v.elem) // declare the datatypes
			}
			c.heapT[k] = v
		}
	}
}

// contractCall: modular call
func (c *Ctx) contractCall(st *State, fr *Frame, fn *types.Func, fd *FuncDecl, spec *FuncSpec, recv Val, args []Val, pos token.Pos) []Val {
	sig := fn.Type().(*types.Signature)
	name := externName(fn)
	if fd != nil {
		name = fd.name
		if c.quiet == 0 && c.dry == 0 {
			c.usedContracts[fd.pkg.path+"."+fd.name] = true
		}
	}
	if spec.trusted != "" {
		c.note("contract of " + name + " assumed: " + spec.trusted)
	}
	env := &Env{c: c, names: map[string]*SVal{}, st: st, pkg: nil, callee: true}
	if fd != nil {
		env.pkg = fd.pkg
	} else if spec.pkg == "" && c.fd != nil {
		env.pkg = c.fd.pkg
	}
	type back struct {
		loc *Loc
		obj *Term
		typ types.Type
	}
	var backs []back
	bind := func(nm string, v Val, t types.Type) {
		if nm == "" || nm == "_" {
			return
		}
		switch x := v.(type) {
		case *LocPtr:
			if isPtr(t) {
				// copy in / copy out
				o := c.newObj(st)
				cell := c.loadLoc(st, x.loc)
				c.storeCell(st, o, intT(0), x.loc.typ, c.term(cell))
				env.names[nm] = &SVal{t: mkPtr(o, intT(0)), typ: t}
				if len(spec.modifies) > 0 {
					backs = append(backs, back{x.loc, o, x.loc.typ})
				}
				return
			}
			env.names[nm] = &SVal{t: c.term(c.loadLoc(st, x.loc)), typ: t}
		case *FuncVal:
			env.names[nm] = &SVal{t: c.funcConst(x), typ: t, val: v}
		case *TV:
			env.names[nm] = &SVal{t: c.name(x.t, nm), typ: t}
		}
	}
	if r := sig.Recv(); r != nil && recv != nil {
		nm := r.Name()
		if nm == "" {
			nm = "recv"
		}
		if tv, ok := recv.(*TV); ok && isPtr(r.Type()) {
			_ = tv
		}
		bind(nm, recv, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		nm := sig.Params().At(i).Name()
		if nm == "" || nm == "_" {
			nm = fmt.Sprintf("arg%d", i)
		}
		bind(nm, args[i], sig.Params().At(i).Type())
	}
	c.ghostAt(st, fr, "before "+shortCallee(name))
	for _, g := range spec.ghosts {
		var x ast.Expr
		if c.fd != nil && c.fd.spec != nil {
			x = c.fd.spec.give[g.name]
		}
		switch {
		case x != nil && c.entry != nil:
			ge := &Env{c: c, names: map[string]*SVal{}, st: c.entry, fr: c.entryFr, pkg: c.fd.pkg, atEntry: true, scopeP: c.fd.decl.Body.Lbrace + 1}
			env.names[g.name] = ge.eval(x)
		case c.ghosts[g.name] != nil:
			env.names[g.name] = c.ghosts[g.name]
		case c.quiet > 0 || c.effectsOnly:
			t := env.typ(g.typ)
			env.names[g.name] = &SVal{t: c.fresh("ghost_"+g.name, c.sortOf(t)), typ: t}
		default:
			panic(unsupported("no value for the ghost parameter " + g.name + " of " + shortCallee(name)))
		}
	}
	env.st = st
	pre := st.clone()
	for _, r := range spec.requires {
		g := env.boolClause(r, false)
		c.oblige(st, "pre", shortCallee(name)+"/"+clauseName(r), g, pos, r.text+" at "+c.where(pos))
		c.assume(st, env.boolClause(r, true))
	}
	if fd != nil && c.fd == fd && len(spec.decr) > 0 && c.quiet == 0 {
		c.checkDecrease(st, spec, env, pos)
	}
	// modified locations
	var mods []modEntry
	for _, m := range spec.modifies {
		mods = append(mods, env.modEntries(m.expr)...)
	}
	for _, m := range mods {
		c.checkModSubset(st, m, pos)
	}
	// effects
	var keys []string
	allocs := true
	if fd != nil && spec.trusted == "" {
		ef := c.effectsOf(fd)
		if hs, ok := effHeaps[fd]; ok {
			for k, v := range hs {
				if _, ok := c.heapT[k]; !ok {
					if v.elem != nil {
						c.sortOf(v.elem)
					}
					c.heapT[k] = v
				}
			}
		}
		for k := range ef.heaps {
			keys = append(keys, k)
		}
		allocs = ef.alloc
	} else {
		set := map[string]bool{}
		for _, m := range mods {
			if m.isMap {
				a, b, d := c.mapKeys(m.typ)
				set[a], set[b], set[d] = true, true, true
				continue
			}
			for i, k := range c.heapKeys(m.typ) {
				if m.field < 0 || m.field == i {
					set[k] = true
				}
			}
		}
		// results of reference type come with fresh contents
		for i := 0; i < sig.Results().Len(); i++ {
			if sl, ok := under(sig.Results().At(i).Type()).(*types.Slice); ok {
				for _, k := range c.heapKeys(sl.Elem()) {
					set[k] = true
				}
			}
			if p, ok := under(sig.Results().At(i).Type()).(*types.Pointer); ok {
				if _, isB := under(p.Elem()).(*types.Basic); !isB && c.w.pkgOf(p.Elem()) {
					for _, k := range c.heapKeys(p.Elem()) {
						set[k] = true
					}
				}
			}
		}
		for k := range set {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if allocs {
		na := c.fresh("alloc", "Int")
		c.assumeRaw(le(st.alloc, na))
		c.setAlloc(st, na)
	}
	for _, k := range keys {
		c.havocHeap(st, pre, k, mods, pre.alloc)
	}
	// results
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		t := c.fresh("r_"+shortCallee(name), c.sortOf(rt))
		c.assume(st, c.typeFact(t, rt, st.alloc))
		out = append(out, &TV{t, rt})
		nm := sig.Results().At(i).Name()
		sv := &SVal{t: t, typ: rt}
		if nm != "" && nm != "_" {
			env.names[nm] = sv
		}
		env.names[fmt.Sprintf("result%d", i)] = sv
		if i == 0 && !isParamName(sig, fd, "result") {
			env.names["result"] = sv
		}
	}
	env.st = st
	env.old = pre
	for _, en := range spec.assumed {
		c.note("postcondition of " + shortCallee(name) + " assumed, not proved: " + en.text)
	}
	for _, en := range append(append([]*Clause{}, spec.ensures...), spec.assumed...) {
		c.assume(st, env.boolClause(en, true))
	}
	for _, b := range backs {
		c.storeLoc(st, b.loc, &TV{c.loadCell(st, b.obj, intT(0), b.typ), b.typ}, pos)
	}
	c.lastCall = env
	c.ghostAt(st, fr, "after "+shortCallee(name))
	return out
}

func (w *World) pkgOf(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && w.pkgs[n.Obj().Pkg().Path()] != nil
}

func shortCallee(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func clauseName(cl *Clause) string {
	if cl.label != "" {
		return cl.label
	}
	t := cl.text
	if len(t) > 40 {
		t = t[:40]
	}
	return sanitize(t)
}

func (c *Ctx) checkModSubset(st *State, m modEntry, pos token.Pos) {
	if c.quiet > 0 || c.modAll || c.effectsOnly {
		return
	}
	// a nil reference denotes no location
	var ok []*Term
	if !m.any {
		ok = []*Term{not(m.cond), le(c.alloc0, m.obj), eq(m.obj, intT(0))}
	}
	if m.hi != nil {
		ok = append(ok, le(m.hi, m.idx))
	}
	for _, n := range c.modSet {
		if n.isMap != m.isMap || typeKey(n.typ) != typeKey(m.typ) {
			continue
		}
		if n.field >= 0 && n.field != m.field {
			continue
		}
		if n.any {
			return
		}
		if m.any {
			continue
		}
		k := and(n.cond, eq(n.obj, m.obj))
		if n.idx != nil {
			if m.idx == nil {
				continue
			}
			hi := m.hi
			if hi == nil {
				hi = add(m.idx, intT(1))
			}
			k = and(k, n.covers(m.idx, hi))
		}
		ok = append(ok, k)
	}
	c.oblige(st, "frame", "call", or(ok...), pos, c.where(pos))
}

// havocHeap gives a heap array a new version, unchanged outside the modified
// locations among the objects allocated before
func (c *Ctx) havocHeap(st, pre *State, key string, mods []modEntry, alloc *Term) {
	hi := c.heapT[key]
	h0 := c.heapGet(pre, key)
	h1 := c.fresh("hv_"+key, hi.sort)
	c.heapSet(st, key, h1)
	c.frameAxiom(key, h0, h1, mods, alloc)
	if hi.elem != nil {
		c.assumeRaw(c.heapFact(h1, hi, st.alloc))
	}
}

func (c *Ctx) frameAxiom(key string, h0, h1 *Term, mods []modEntry, alloc *Term) {
	o := c.boundVar("o", "Int")
	var excl []*Term
	type cell struct{ m modEntry }
	var cells []modEntry
	for _, m := range mods {
		if !c.modMatches(m, key) {
			continue
		}
		if m.any {
			return
		}
		excl = append(excl, not(and(m.cond, eq(o, m.obj), not(eq(o, intT(0))))))
		if m.idx != nil {
			cells = append(cells, m)
		}
	}
	ante := and(append([]*Term{lt(o, alloc)}, excl...)...)
	s1 := mk(elemSort(h1.sort), "select", h1, o)
	c.assumeRaw(quant("forall", []*Term{o}, imp(ante, eq(s1, sel(h0, o))), [][]*Term{{s1}}))
	for _, m := range cells {
		x := c.boundVar("x", "Int")
		var same []*Term
		for _, n := range mods {
			if !c.modMatches(n, key) {
				continue
			}
			if n.idx == nil {
				same = append(same, not(and(n.cond, eq(n.obj, m.obj))))
			} else {
				same = append(same, not(and(n.cond, eq(n.obj, m.obj), n.has(x))))
			}
		}
		v1 := mk(elemSort(elemSort(h1.sort)), "select", mk(elemSort(h1.sort), "select", h1, m.obj), x)
		c.assumeRaw(quant("forall", []*Term{x}, imp(and(append([]*Term{lt(m.obj, alloc)}, same...)...), eq(v1, sel(sel(h0, m.obj), x))), [][]*Term{{v1}}))
	}
}

func (c *Ctx) modMatches(m modEntry, key string) bool {
	if m.isMap {
		a, b, d := c.mapKeys(m.typ)
		return key == a || key == b || key == d
	}
	for i, k := range c.heapKeys(m.typ) {
		if k == key && (m.field < 0 || m.field == i) {
			return true
		}
	}
	return false
}

func (c *Ctx) checkDecrease(st *State, spec *FuncSpec, env *Env, pos token.Pos) {
	e0 := &Env{c: c, names: map[string]*SVal{}, st: c.entry, fr: c.entryFr, pkg: c.fd.pkg, atEntry: true, scopeP: c.fd.decl.Body.Lbrace + 1}
	c.oblige(st, "decreases", "recursion", c.lexLess(func(e ast.Expr) *Term { return env.intExpr(e) }, func(e ast.Expr) *Term { return e0.intExpr(e) }, spec.decr), pos, "recursive call at "+c.where(pos))
}

func (c *Ctx) lexLess(new_, old func(ast.Expr) *Term, es []ast.Expr) *Term {
	var alts []*Term
	var eqs []*Term
	for _, e := range es {
		n, o := new_(e), old(e)
		alts = append(alts, and(append(append([]*Term{}, eqs...), lt(n, o), le(intT(0), o))...))
		eqs = append(eqs, eq(n, o))
	}
	return or(alts...)
}

// ---------------------------------------------------------------- builtins

func (c *Ctx) builtin(st *State, fr *Frame, e *ast.CallExpr) []Val {
	info := c.info(fr)
	var name string
	switch f := e.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.ParenExpr:
		name = f.X.(*ast.Ident).Name
	}
	rt := info.Types[e].Type
	switch name {
	case "len", "cap":
		xt := info.Types[e.Args[0]].Type
		if p, ok := under(xt).(*types.Pointer); ok {
			return []Val{&TV{intT(under(p.Elem()).(*types.Array).Len()), rt}}
		}
		if a, ok := under(xt).(*types.Array); ok {
			return []Val{&TV{intT(a.Len()), rt}}
		}
		x := c.term(c.expr(st, fr, e.Args[0]))
		switch under(xt).(type) {
		case *types.Slice:
			if name == "cap" {
				return []Val{&TV{scap(x), rt}}
			}
			return []Val{&TV{slen(x), rt}}
		case *types.Basic:
			return []Val{&TV{strLen(x), rt}}
		case *types.Map:
			_, _, card := c.mapKeys(xt)
			return []Val{&TV{ite(eq(pobj(x), intT(0)), intT(0), sel(c.heapGet(st, card), pobj(x))), rt}}
		}
	case "make":
		switch u := under(rt).(type) {
		case *types.Slice:
			n := c.intTerm(c.expr(st, fr, e.Args[1]))
			c.check(st, "makelen", le(intT(0), n), e.Pos())
			cp := n
			if len(e.Args) > 2 {
				cp = c.intTerm(c.expr(st, fr, e.Args[2]))
				c.check(st, "makelen", le(n, cp), e.Pos())
			}
			o := c.newObj(st)
			c.zeroObj(st, o, u.Elem())
			return []Val{&TV{mkSlice(o, intT(0), n, cp), rt}}
		case *types.Map:
			for _, a := range e.Args[1:] {
				c.expr(st, fr, a)
			}
			return []Val{&TV{c.makeMap(st, rt), rt}}
		}
	case "new":
		et := under(rt).(*types.Pointer).Elem()
		o := c.newObj(st)
		c.storeCell(st, o, intT(0), et, c.zero(et))
		return []Val{&TV{mkPtr(o, intT(0)), rt}}
	case "append":
		return []Val{&TV{c.appendCall(st, fr, e), rt}}
	case "copy":
		dst := c.term(c.expr(st, fr, e.Args[0]))
		st0 := info.Types[e.Args[0]].Type
		el := under(st0).(*types.Slice).Elem()
		srcT := info.Types[e.Args[1]].Type
		src := c.term(c.expr(st, fr, e.Args[1]))
		if _, ok := under(srcT).(*types.Slice); !ok {
			src = c.bytesOf(st, src, st0)
		}
		n := c.name(ite(le(slen(dst), slen(src)), slen(dst), slen(src)), "ncopy")
		c.checkWriteCell(st, el, -1, sobj(dst), soff(dst), n, e.Pos())
		for _, k := range c.heapKeys(el) {
			h := c.heapGet(st, k)
			darr, sarr := c.name(sel(h, sobj(dst)), "darr"), c.name(sel(h, sobj(src)), "sarr")
			arr := c.fresh("arr", darr.sort)
			x := c.boundVar("x", "Int")
			in := and(le(soff(dst), x), lt(x, add(soff(dst), n)))
			v := mk(elemSort(arr.sort), "select", arr, x)
			c.assumeRaw(quant("forall", []*Term{x}, eq(v, ite(in, sel(sarr, add(sub(x, soff(dst)), soff(src))), sel(darr, x))), [][]*Term{{v}}))
			// old to new
			y := c.boundVar("y", "Int")
			sv := mk(elemSort(arr.sort), "select", sarr, y)
			in2 := and(le(soff(src), y), lt(y, add(soff(src), n)))
			c.assumeRaw(quant("forall", []*Term{y}, imp(in2, eq(sel(arr, add(sub(y, soff(src)), soff(dst))), sv)), [][]*Term{{sv}}))
			c.heapSet(st, k, ite(le(n, intT(0)), h, store(h, sobj(dst), arr)))
		}
		return []Val{&TV{n, types.Typ[types.Int]}}
	case "panic":
		if id, ok := e.Args[0].(*ast.Ident); !ok || id.Name == "" {
			// the argument is evaluated only for its own panics: skipped
			_ = id
		}
		c.check(st, "panic", tFalse, e.Pos())
		st.pc = tFalse
		return nil
	case "delete":
		mt := info.Types[e.Args[0]].Type
		m := c.term(c.expr(st, fr, e.Args[0]))
		k := c.convTerm(st, c.expr(st, fr, e.Args[1]), under(mt).(*types.Map).Key())
		c.checkWrite(st, &Loc{mref: pobj(m), mtyp: mt}, e.Pos())
		has, _, card := c.mapKeys(mt)
		hh, hc := c.heapGet(st, has), c.heapGet(st, card)
		was := sel(sel(hh, pobj(m)), k)
		c.heapSet(st, card, store(hc, pobj(m), sub(sel(hc, pobj(m)), ite(was, intT(1), intT(0)))))
		c.heapSet(st, has, store(hh, pobj(m), store(sel(hh, pobj(m)), k, tFalse)))
		return nil
	case "print", "println":
		for _, a := range e.Args {
			c.expr(st, fr, a)
		}
		return nil
	}
	panic(unsupported("builtin " + name))
}

func (c *Ctx) zeroObj(st *State, o *Term, el types.Type) {
	z := c.zero(el)
	si, isS := c.elemStruct(el)
	for i, k := range c.heapKeys(el) {
		v := z
		if isS {
			v = si.get(z, i)
		}
		h := c.heapGet(st, k)
		c.heapSet(st, k, store(h, o, constArr("Int", v)))
	}
}

func (c *Ctx) appendCall(st *State, fr *Frame, e *ast.CallExpr) *Term {
	info := c.info(fr)
	stp := info.Types[e].Type
	el := under(stp).(*types.Slice).Elem()
	s := c.convTerm(st, c.expr(st, fr, e.Args[0]), stp)
	si, isS := c.elemStruct(el)
	if e.Ellipsis.IsValid() {
		tt := info.Types[e.Args[1]].Type
		tv := c.expr(st, fr, e.Args[1])
		t := c.term(tv)
		if isString(tt) {
			t = c.bytesOf(st, t, stp)
		} else if b, ok := tt.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			t = nilSlice
		}
		if slen(s).str == "0" && scap(s).str == "0" {
			// append([]T(nil), t...): a fresh copy, nil when t is empty
			o := c.newObj(st)
			for _, k := range c.heapKeys(el) {
				h := c.heapGet(st, k)
				c.heapSet(st, k, store(h, o, sel(h, sobj(t))))
			}
			cp := c.fresh("cap", "Int")
			c.assume(st, le(slen(t), cp))
			empty := eq(slen(t), intT(0))
			return c.name(mkSlice(ite(empty, intT(0), o), soff(t), slen(t), ite(empty, intT(0), cp)), "app")
		}
		n := c.name(add(slen(s), slen(t)), "n")
		inpl := c.name(le(n, scap(s)), "inplace")
		s2 := st.clone()
		s2.pc = and(st.pc, inpl)
		c.checkWriteCell(s2, el, -1, sobj(s), add(soff(s), slen(s)), slen(t), e.Pos())
		fo := c.newObj(st)
		o := c.name(ite(inpl, sobj(s), fo), "o")
		for _, k := range c.heapKeys(el) {
			h := c.heapGet(st, k)
			sarr, tarr := c.name(sel(h, sobj(s)), "sarr"), c.name(sel(h, sobj(t)), "tarr")
			arr := c.fresh("arr", sarr.sort)
			x := c.boundVar("x", "Int")
			v := mk(elemSort(arr.sort), "select", arr, x)
			lo := add(soff(s), slen(s))
			in := and(le(lo, x), lt(x, add(soff(s), n)))
			c.assumeRaw(quant("forall", []*Term{x}, eq(v, ite(in, sel(tarr, add(sub(x, lo), soff(t))), sel(sarr, x))), [][]*Term{{v}}))
			y := c.boundVar("y", "Int")
			tvv := mk(elemSort(arr.sort), "select", tarr, y)
			c.assumeRaw(quant("forall", []*Term{y}, imp(and(le(soff(t), y), lt(y, add(soff(t), slen(t)))), eq(sel(arr, add(sub(y, soff(t)), lo)), tvv)), [][]*Term{{tvv}}))
			z := c.boundVar("z", "Int")
			svv := mk(elemSort(arr.sort), "select", sarr, z)
			c.assumeRaw(quant("forall", []*Term{z}, imp(and(le(soff(s), z), lt(z, lo)), eq(sel(arr, z), svv)), [][]*Term{{svv}}))
			c.heapSet(st, k, ite(le(slen(t), intT(0)), h, store(h, o, arr)))
		}
		cp := c.fresh("cap", "Int")
		c.assume(st, le(n, cp))
		r := mkSlice(o, soff(s), n, ite(inpl, scap(s), cp))
		return c.name(ite(eq(slen(t), intT(0)), s, r), "app")
	}
	var vals []*Term
	for _, a := range e.Args[1:] {
		vals = append(vals, c.convTerm(st, c.eltExpr(st, fr, a, el), el))
	}
	if len(vals) == 0 {
		return s
	}
	k0 := int64(len(vals))
	inpl := c.name(le(add(slen(s), intT(k0)), scap(s)), "inplace")
	s2 := st.clone()
	s2.pc = and(st.pc, inpl)
	c.checkWriteCell(s2, el, -1, sobj(s), add(soff(s), slen(s)), intT(k0), e.Pos())
	fo := c.newObj(st)
	o := c.name(ite(inpl, sobj(s), fo), "o")
	for ki, k := range c.heapKeys(el) {
		h := c.heapGet(st, k)
		a := sel(h, sobj(s))
		for i, v := range vals {
			if isS {
				v = si.get(v, ki)
			}
			a = store(a, add(soff(s), slen(s), intT(int64(i))), v)
		}
		c.heapSet(st, k, store(h, o, a))
	}
	cp := c.fresh("cap", "Int")
	c.assume(st, le(add(slen(s), intT(k0)), cp))
	return c.name(mkSlice(o, soff(s), add(slen(s), intT(k0)), ite(inpl, scap(s), cp)), "app")
}

// isParamName tells whether a parameter or the receiver has the name
func isParamName(sig *types.Signature, fd *FuncDecl, name string) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i).Name() == name {
			return true
		}
	}
	if r := sig.Recv(); r != nil && r.Name() == name {
		return true
	}
	return false
}
