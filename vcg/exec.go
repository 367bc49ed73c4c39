package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func (c *Ctx) block(st *State, fr *Frame, list []ast.Stmt) {
	for _, s := range list {
		if st.dead() {
			return
		}
		c.stmt(st, fr, s, "")
	}
}

func (c *Ctx) stmt(st *State, fr *Frame, s ast.Stmt, label string) {
	if st.dead() {
		return
	}
	c.lastPos = s.Pos()
	switch s := s.(type) {
	case *ast.EmptyStmt:
	case *ast.ExprStmt:
		c.expr0(st, fr, s.X)
	case *ast.BlockStmt:
		c.block(st, fr, s.List)
	case *ast.AssignStmt:
		c.assign(st, fr, s)
	case *ast.IncDecStmt:
		l := c.lvalue(st, fr, s.X)
		v := c.term(c.loadLoc(st, l))
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		one := intT(1)
		if v.sort == "Real" {
			one = mk("Real", "1.0")
		}
		c.storeLoc(st, l, &TV{c.arith(st, op, v, one, l.typ, s.Pos()), l.typ}, s.Pos())
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					v, _ := c.info(fr).Defs[n].(*types.Var)
					if v == nil {
						continue
					}
					c.declareVar(st, fr, v, &TV{c.zero(v.Type()), v.Type()})
				}
				continue
			}
			var vals []Val
			if len(vs.Values) == len(vs.Names) {
				for _, e := range vs.Values {
					vals = append(vals, c.expr(st, fr, e))
				}
			} else {
				vals = c.expr(st, fr, vs.Values[0]).(*Tuple).vs
			}
			for i, n := range vs.Names {
				if v, _ := c.info(fr).Defs[n].(*types.Var); v != nil {
					c.declareVar(st, fr, v, c.coerce(st, vals[i], v.Type()))
				}
			}
		}
	case *ast.IfStmt:
		s0 := st
		if s.Init != nil {
			c.stmt(st, fr, s.Init, "")
		}
		cond := c.name(c.term(c.expr(st, fr, s.Cond)), "c")
		if st.dead() {
			return
		}
		th, el := st.clone(), st.clone()
		th.pc = c.name(and(st.pc, cond), "pc")
		el.pc = c.name(and(st.pc, not(cond)), "pc")
		c.block(th, fr, s.Body.List)
		if s.Else != nil {
			c.stmt(el, fr, s.Else, "")
		}
		pc0 := s0.pc
		m := c.merge([]*State{th, el})
		// both branches fall through without cutting paths: same condition
		if !th.dead() && !el.dead() && !cutsPaths(s, fr) {
			m.pc = pc0
		}
		*st = *m
	case *ast.ForStmt:
		c.forLoop(st, fr, s, label)
	case *ast.RangeStmt:
		c.rangeLoop(st, fr, s, label)
	case *ast.SwitchStmt:
		c.switchStmt(st, fr, s, label)
	case *ast.TypeSwitchStmt:
		c.typeSwitch(st, fr, s, label)
	case *ast.ReturnStmt:
		c.returnStmt(st, fr, s)
	case *ast.BranchStmt:
		c.branch(st, fr, s)
	case *ast.LabeledStmt:
		c.stmt(st, fr, s.Stmt, s.Label.Name)
	case *ast.DeferStmt, *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
		panic(unsupported(fmt.Sprintf("statement %T at %s", s, c.where(s.Pos()))))
	default:
		panic(unsupported(fmt.Sprintf("statement %T at %s", s, c.where(s.Pos()))))
	}
}

func (c *Ctx) expr0(st *State, fr *Frame, e ast.Expr) {
	if ce, ok := e.(*ast.CallExpr); ok {
		c.call(st, fr, ce)
		return
	}
	c.expr(st, fr, e)
}

// cutsPaths: the statement may leave by return, break, panic, or contains
// calls or loops (whose path conditions may be strengthened)
func cutsPaths(n ast.Node, fr *Frame) bool {
	cut := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.ForStmt, *ast.RangeStmt:
			cut = true
		case *ast.CallExpr:
			if tv, found := fr.pkg.info.Types[n.Fun]; found && (tv.IsType() || (tv.IsBuiltin() && !isPanicLike(n))) {
				return true
			}
			cut = true
		}
		return !cut
	})
	return cut
}

func (c *Ctx) assign(st *State, fr *Frame, s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		l := c.lvalue(st, fr, s.Lhs[0])
		x := c.loadLoc(st, l)
		y := c.expr(st, fr, s.Rhs[0])
		xt := c.info(fr).Types[s.Lhs[0]].Type
		yt := c.info(fr).Types[s.Rhs[0]].Type
		r := c.binop(st, op, x, y, xt, yt, xt, s.Pos())
		c.storeLoc(st, l, &TV{r, xt}, s.Pos())
		return
	}
	var vals []Val
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		v := c.expr(st, fr, s.Rhs[0])
		tup, ok := v.(*Tuple)
		if !ok {
			panic(unsupported("tuple assignment"))
		}
		vals = tup.vs
	} else if len(s.Lhs) == 1 {
		vals = []Val{c.expr(st, fr, s.Rhs[0])}
	}
	if s.Tok == token.DEFINE {
		if vals == nil {
			for _, r := range s.Rhs {
				vals = append(vals, c.expr(st, fr, r))
			}
		}
		for i, l := range s.Lhs {
			id := l.(*ast.Ident)
			if id.Name == "_" {
				continue
			}
			if v, ok := c.info(fr).Defs[id].(*types.Var); ok && v != nil {
				c.declareVar(st, fr, v, c.coerce(st, vals[i], v.Type()))
				continue
			}
			loc := c.lvalue(st, fr, l)
			c.storeLoc(st, loc, c.coerce(st, vals[i], loc.typ), s.Pos())
		}
		return
	}
	// ordinary assignment: operands of the left sides first
	var locs []*Loc
	if len(s.Lhs) > 1 && vals == nil {
		for _, l := range s.Lhs {
			locs = append(locs, c.lvalue(st, fr, l))
		}
		for _, r := range s.Rhs {
			vals = append(vals, c.expr(st, fr, r))
		}
	} else {
		for _, l := range s.Lhs {
			locs = append(locs, c.lvalue(st, fr, l))
		}
	}
	for i, l := range locs {
		v := vals[i]
		if !l.discard {
			v = c.coerce(st, v, l.typ)
			if tv, ok := v.(*TV); ok {
				v = &TV{c.name(tv.t, "v"), tv.typ}
				vals[i] = v
			}
		}
		vals[i] = v
	}
	for i, l := range locs {
		c.storeLoc(st, l, vals[i], s.Pos())
	}
}

func (c *Ctx) returnStmt(st *State, fr *Frame, s *ast.ReturnStmt) {
	var vals []Val
	n := fr.sig.Results().Len()
	switch {
	case len(s.Results) == 0:
		vals = nil
	case len(s.Results) == 1 && n > 1:
		vals = c.expr(st, fr, s.Results[0]).(*Tuple).vs
	default:
		for _, r := range s.Results {
			vals = append(vals, c.expr(st, fr, r))
		}
	}
	for i := range vals {
		vals[i] = c.coerce(st, vals[i], fr.sig.Results().At(i).Type())
	}
	if st.dead() {
		return
	}
	c.doReturn(st, fr, vals, s.Pos())
}

func (c *Ctx) doReturn(st *State, fr *Frame, vals []Val, pos token.Pos) {
	if vals == nil && fr.sig.Results().Len() > 0 {
		for _, r := range fr.results {
			if r.Pos() == token.NoPos {
				vals = append(vals, &TV{c.zero(r.Type()), r.Type()})
			} else {
				vals = append(vals, c.loadLoc(st, c.varLoc(st, fr, r)))
			}
		}
	}
	fr.exits = append(fr.exits, &exit{st: st.clone(), vals: vals, pos: pos})
	st.pc = tFalse
}

func (c *Ctx) branch(st *State, fr *Frame, s *ast.BranchStmt) {
	lab := ""
	if s.Label != nil {
		lab = s.Label.Name
	}
	for i := len(fr.brk) - 1; i >= 0; i-- {
		t := fr.brk[i]
		if lab != "" && t.label != lab {
			continue
		}
		switch s.Tok {
		case token.BREAK:
			t.breaks = append(t.breaks, st.clone())
			st.pc = tFalse
			return
		case token.CONTINUE:
			if !t.isLoop {
				continue
			}
			t.conts = append(t.conts, st.clone())
			st.pc = tFalse
			return
		}
	}
	if s.Tok == token.FALLTHROUGH {
		panic(unsupported("fallthrough"))
	}
	panic(unsupported("branch " + s.Tok.String()))
}

func (c *Ctx) switchStmt(st *State, fr *Frame, s *ast.SwitchStmt, label string) {
	if s.Init != nil {
		c.stmt(st, fr, s.Init, "")
	}
	var tag Val
	var tagT types.Type
	if s.Tag != nil {
		tag = c.expr(st, fr, s.Tag)
		tagT = c.info(fr).Types[s.Tag].Type
		if tv, ok := tag.(*TV); ok {
			tag = &TV{c.name(tv.t, "tag"), tv.typ}
		}
	}
	t := &target{label: label}
	fr.brk = append(fr.brk, t)
	var outs []*State
	cur := st.clone()
	var def *ast.CaseClause
	var defIdx int
	var clauses []*ast.CaseClause
	for i, cl := range s.Body.List {
		cc := cl.(*ast.CaseClause)
		clauses = append(clauses, cc)
		if cc.List == nil {
			def = cc
			defIdx = i
		}
	}
	// run a clause with possible fallthrough
	var ft *State // state falling through in the next clause
	runClause := func(b *State, i int) {
		for {
			body := clauses[i].Body
			hasFT := false
			if n := len(body); n > 0 {
				if br, ok := body[n-1].(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
					hasFT = true
					body = body[:n-1]
				}
			}
			c.block(b, fr, body)
			if hasFT && !b.dead() {
				i++
				continue
			}
			break
		}
		if !b.dead() {
			outs = append(outs, b)
		}
	}
	_ = ft
	for i, cc := range clauses {
		if cc == def {
			continue
		}
		if cur.dead() {
			break
		}
		var conds []*Term
		for _, e := range cc.List {
			if s.Tag == nil {
				conds = append(conds, c.term(c.expr(cur, fr, e)))
			} else {
				v := c.expr(cur, fr, e)
				conds = append(conds, c.binop(cur, token.EQL, tag, v, tagT, c.info(fr).Types[e].Type, types.Typ[types.Bool], e.Pos()))
			}
		}
		cond := c.name(or(conds...), "case")
		b := cur.clone()
		b.pc = c.name(and(cur.pc, cond), "pc")
		cur.pc = c.name(and(cur.pc, not(cond)), "pc")
		if !b.dead() {
			runClause(b, i)
		}
	}
	if def != nil && !cur.dead() {
		runClause(cur, defIdx)
	} else if !cur.dead() {
		outs = append(outs, cur)
	}
	fr.brk = fr.brk[:len(fr.brk)-1]
	outs = append(outs, t.breaks...)
	pc0 := st.pc
	if len(outs) == 0 {
		st.pc = tFalse
		return
	}
	m := c.merge(outs)
	if !m.dead() && !cutsPaths(s, fr) {
		m.pc = pc0
	}
	*st = *m
}

func (c *Ctx) typeSwitch(st *State, fr *Frame, s *ast.TypeSwitchStmt, label string) {
	if s.Init != nil {
		c.stmt(st, fr, s.Init, "")
	}
	var x ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	v := c.name(c.term(c.expr(st, fr, x)), "ts")
	xt := c.info(fr).Types[x].Type
	t := &target{label: label}
	fr.brk = append(fr.brk, t)
	var outs []*State
	cur := st.clone()
	var def *ast.CaseClause
	run := func(b *State, cc *ast.CaseClause, val Val) {
		if o, ok := c.info(fr).Implicits[cc].(*types.Var); ok && val != nil {
			c.declareVar(b, fr, o, val)
		}
		c.block(b, fr, cc.Body)
		if !b.dead() {
			outs = append(outs, b)
		}
	}
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		if cur.dead() {
			break
		}
		var conds []*Term
		var val Val = &TV{v, xt}
		for _, e := range cc.List {
			if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
				conds = append(conds, eq(v, mk("Iface", "nilIface")))
				continue
			}
			tt := c.info(fr).Types[e].Type
			tv, ok := c.typeAssert(v, tt)
			conds = append(conds, ok)
			if len(cc.List) == 1 {
				val = &TV{tv, tt}
			}
		}
		cond := c.name(or(conds...), "case")
		b := cur.clone()
		b.pc = c.name(and(cur.pc, cond), "pc")
		cur.pc = c.name(and(cur.pc, not(cond)), "pc")
		if !b.dead() {
			run(b, cc, val)
		}
	}
	if !cur.dead() {
		if def != nil {
			run(cur, def, &TV{v, xt})
		} else {
			outs = append(outs, cur)
		}
	}
	fr.brk = fr.brk[:len(fr.brk)-1]
	outs = append(outs, t.breaks...)
	if len(outs) == 0 {
		st.pc = tFalse
		return
	}
	*st = *c.merge(outs)
}

// ---------------------------------------------------------------- loops

type loopCtx struct {
	key    string
	spec   *LoopSpec
	node   ast.Node
	scopeP token.Pos
	names  map[string]*SVal // extra names visible in the invariants (range index)
	auto   []autoInv
}

type autoInv struct {
	name string
	f    func(st *State) *Term
}

// loopKey finds the contract of a loop
func (c *Ctx) loopSpec(fr *Frame, node ast.Node) (string, *LoopSpec) {
	path := fr.loopPfx + fmt.Sprintf("#%d", node.Pos())
	// nearest function frame
	f := fr
	for f != nil && f.fd == nil {
		f = f.parent
	}
	own := f != nil && f.fd != c.fd && f.spec != nil && len(f.spec.loops) > 0
	var key string
	if own {
		root := fr.loopPfx
		k, ok := c.loopIDs[path]
		if !ok {
			k = fmt.Sprintf("%d", c.loopCnt[f.fd.name+root])
			c.loopCnt[f.fd.name+root]++
			c.loopIDs[path] = k
		}
		key = f.fd.name + ":" + k
		if c.spec != nil && c.spec.loops[key] != nil {
			return key, c.spec.loops[key]
		}
		return key, f.spec.loops[k]
	}
	k, ok := c.loopIDs[path]
	if !ok {
		k = fmt.Sprintf("%d", c.loopCnt[""])
		c.loopCnt[""]++
		c.loopIDs[path] = k
	}
	key = k
	if c.spec != nil {
		return key, c.spec.loops[key]
	}
	return key, nil
}

// runLoop executes a loop given by its parts.
//
//	cond: evaluates the condition (may be nil: true)
//	body: executes one iteration (without post)
//	post: post statement
func (c *Ctx) runLoop(st *State, fr *Frame, lc *loopCtx, label string, cond func(s *State) *Term, body func(s *State), post func(s *State), pos token.Pos, decr func(s *State) *Term) {
	spec := lc.spec
	if spec == nil {
		spec = &LoopSpec{ghost: map[string][]*Ghost{}}
	}
	if spec.unroll > 0 {
		c.unrollLoop(st, fr, lc, label, cond, body, post, pos, spec.unroll)
		return
	}
	c.runGhost(st, fr, lc, spec.ghost["before"])
	entrySt := st.clone()

	iter := func(s *State) (exits []*State, back *State) {
		// evaluates the condition and runs one iteration
		t := &target{label: label, isLoop: true}
		fr.brk = append(fr.brk, t)
		cd := tTrue
		if cond != nil {
			cd = c.name(cond(s), "c")
		}
		ex := s.clone()
		ex.pc = c.name(and(s.pc, not(cd)), "pc")
		in := s.clone()
		in.pc = c.name(and(s.pc, cd), "pc")
		if !in.dead() {
			c.runGhost(in, fr, lc, spec.ghost["begin"])
			body(in)
		}
		fr.brk = fr.brk[:len(fr.brk)-1]
		ends := append([]*State{}, t.conts...)
		if !in.dead() {
			ends = append(ends, in)
		}
		if len(ends) > 0 {
			back = c.merge(ends)
			if post != nil && !back.dead() {
				post(back)
			}
		}
		if !ex.dead() {
			exits = append(exits, ex)
		}
		exits = append(exits, t.breaks...)
		return
	}

	// discover what the loop modifies
	tr := &touchRec{vars: map[*types.Var]bool{}, heaps: map[string]bool{}}
	for round := 0; round < 5; round++ {
		nv, nh, na := len(tr.vars), len(tr.heaps), tr.alloc
		logN, obsN := len(c.log), len(c.obs)
		exitsN := len(fr.exits)
		outer := append([]*target{}, fr.brk...)
		var brkN, contN []int
		for _, o := range outer {
			brkN, contN = append(brkN, len(o.breaks)), append(contN, len(o.conts))
		}
		c.dry++
		c.touch = append(c.touch, tr)
		s := st.clone()
		c.havocLoop(s, st, tr, nil)
		iter(s)
		c.touch = c.touch[:len(c.touch)-1]
		c.dry--
		c.log = c.log[:logN]
		c.obs = c.obs[:obsN]
		c.truncExits(fr, exitsN)
		for i, o := range outer {
			// labelled jumps out of this loop
			o.breaks, o.conts = o.breaks[:brkN[i]], o.conts[:contN[i]]
		}
		if len(tr.vars) == nv && len(tr.heaps) == nh && tr.alloc == na {
			break
		}
	}
	// record in the enclosing recorders
	for _, o := range c.touch {
		for v := range tr.vars {
			o.vars[v] = true
		}
		for h := range tr.heaps {
			o.heaps[h] = true
		}
		o.alloc = o.alloc || tr.alloc
	}

	invs := c.invariants(st, fr, lc, spec, tr, entrySt)
	for _, iv := range invs {
		if g := iv.f(st, false); g != nil {
			if o := c.oblige(st, "inv-init", lc.key+"/"+iv.name, g, pos, iv.text); o != nil {
				o.soft = iv.id
			}
		}
	}
	c.havocLoop(st, entrySt, tr, lc)
	for _, iv := range invs {
		if g := iv.f(st, true); g != nil {
			c.assume(st, g)
		}
	}
	var d0 []*Term
	if len(spec.decr) > 0 && c.dry == 0 {
		env := c.loopEnv(st, fr, lc)
		for _, e := range spec.decr {
			d0 = append(d0, c.tryInt(env, e))
		}
	} else if decr != nil {
		d0 = []*Term{decr(st)}
	}
	exits, back := iter(st)
	if back != nil && !back.dead() {
		el := *lc
		switch n := lc.node.(type) {
		case *ast.ForStmt:
			el.scopeP = n.Body.Rbrace
		case *ast.RangeStmt:
			el.scopeP = n.Body.Rbrace
		}
		c.runGhost(back, fr, &el, spec.ghost["end"])
		for _, iv := range invs {
			if g := iv.f(back, false); g != nil {
				if o := c.oblige(back, "inv-step", lc.key+"/"+iv.name, g, pos, iv.text); o != nil {
					o.soft = iv.id
				}
			}
		}
		if c.dry == 0 && c.quiet == 0 && !c.effectsOnly {
			if len(spec.decr) > 0 {
				env := c.loopEnv(back, fr, lc)
				var alts, eqs []*Term
				ok := true
				for i, e := range spec.decr {
					n := c.tryInt(env, e)
					if n == nil || d0[i] == nil {
						ok = false
						break
					}
					alts = append(alts, and(append(append([]*Term{}, eqs...), lt(n, d0[i]), le(intT(0), d0[i]))...))
					eqs = append(eqs, eq(n, d0[i]))
				}
				if ok {
					c.oblige(back, "decreases", lc.key, or(alts...), pos, c.where(pos))
				} else {
					c.note("termination of the loop at " + c.where(pos) + " not proved (measure does not resolve)")
				}
			} else if decr == nil {
				c.note("termination of a loop of " + c.fd.name + " (loop " + lc.key + ") is not proved")
			}
		}
	}
	pcAll := len(exits) > 0
	_ = pcAll
	if len(exits) == 0 {
		st.pc = tFalse
		return
	}
	*st = *c.merge(exits)
	c.runGhost(st, fr, lc, spec.ghost["exit"])
}

func (c *Ctx) truncExits(fr *Frame, n int) {
	// the returns recorded during the dry run are dropped; closures nested in
	// the loop return into their own frames
	fr.exits = fr.exits[:n]
}

func (c *Ctx) unrollLoop(st *State, fr *Frame, lc *loopCtx, label string, cond func(s *State) *Term, body func(s *State), post func(s *State), pos token.Pos, n int) {
	var exits []*State
	cur := st
	for i := 0; i <= n; i++ {
		t := &target{label: label, isLoop: true}
		fr.brk = append(fr.brk, t)
		cd := tTrue
		if cond != nil {
			cd = c.name(cond(cur), "c")
		}
		ex := cur.clone()
		ex.pc = c.name(and(cur.pc, not(cd)), "pc")
		if !ex.dead() {
			exits = append(exits, ex)
		}
		in := cur.clone()
		in.pc = c.name(and(cur.pc, cd), "pc")
		if i == n {
			fr.brk = fr.brk[:len(fr.brk)-1]
			c.check(in, "unroll", tFalse, pos)
			break
		}
		if !in.dead() {
			body(in)
		}
		fr.brk = fr.brk[:len(fr.brk)-1]
		ends := append([]*State{}, t.conts...)
		if !in.dead() {
			ends = append(ends, in)
		}
		exits = append(exits, t.breaks...)
		if len(ends) == 0 {
			break
		}
		cur = c.merge(ends)
		if cur.dead() {
			break
		}
		if post != nil {
			post(cur)
		}
	}
	if len(exits) == 0 {
		st.pc = tFalse
		return
	}
	*st = *c.merge(exits)
}

type invT struct {
	id, name, text string
	f              func(st *State, hyp bool) *Term
}

func (c *Ctx) loopEnv(st *State, fr *Frame, lc *loopCtx) *Env {
	names := map[string]*SVal{}
	for k, v := range lc.names {
		names[k] = v
	}
	e := &Env{c: c, names: names, st: st, old: c.entry, fr: fr, scopeP: lc.scopeP, pkg: fr.pkg}
	return e
}

func (c *Ctx) tryInt(env *Env, e ast.Expr) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return env.intExpr(e)
}

func (c *Ctx) invariants(st *State, fr *Frame, lc *loopCtx, spec *LoopSpec, tr *touchRec, entrySt *State) []invT {
	var out []invT
	if c.quiet > 0 || c.effectsOnly {
		return nil
	}
	for i, cl := range spec.invs {
		cl := cl
		nm := cl.label
		if nm == "" {
			nm = fmt.Sprintf("%d", i)
		}
		id := "inv:" + lc.key + ":" + nm
		if c.disabled[id] {
			continue
		}
		f := func(s *State, hyp bool) (t *Term) {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(unsupportedErr); ok {
						c.addWarn("invariant " + id + " dropped: " + e.Error())
						t = nil
						return
					}
					panic(r)
				}
			}()
			env := c.loopEnv(s, fr, lc)
			env.entryLoop = entrySt
			return env.boolClause(cl, hyp)
		}
		out = append(out, invT{id, nm, cl.text, f})
	}
	// automatic candidates
	add := func(nm string, f func(s *State) *Term) {
		id := "auto:" + lc.key + ":" + nm
		if c.disabled[id] {
			return
		}
		out = append(out, invT{id, nm, "automatic candidate", func(s *State, hyp bool) *Term { return f(s) }})
	}
	for _, a := range lc.auto {
		add(a.name, a.f)
	}
	// integer variables modified by the loop: never below / above the entry value
	var vs []*types.Var
	for v := range tr.vars {
		if _, ok := st.vars[v]; ok {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	for _, v := range vs {
		v := v
		tv, ok := st.vars[v].(*TV)
		if !ok || tv.t.sort != "Int" || c.isHeapified(fr, v) {
			continue
		}
		e0 := tv.t
		add("ge:"+v.Name(), func(s *State) *Term {
			x, ok := s.vars[v].(*TV)
			if !ok {
				return nil
			}
			return le(e0, x.t)
		})
	}
	// slices and pointers which the loop does not assign: their object is unchanged
	var us []*types.Var
	for v := range st.vars {
		if !tr.vars[v] {
			us = append(us, v)
		}
	}
	sort.Slice(us, func(i, j int) bool { return us[i].Pos() < us[j].Pos() })
	for _, v := range us {
		tv, ok := st.vars[v].(*TV)
		if !ok {
			continue
		}
		var obj *Term
		var el types.Type
		switch u := under(tv.typ).(type) {
		case *types.Slice:
			obj, el = sobj(tv.t), u.Elem()
		case *types.Pointer:
			obj, el = pobj(tv.t), u.Elem()
		default:
			continue
		}
		if c.isHeapified(fr, v) {
			obj, el = pobj(tv.t), v.Type()
			if r := c.rows[v]; r != nil {
				el = r
			}
		}
		for _, k := range c.heapKeys(el) {
			if !tr.heaps[k] {
				continue
			}
			k := k
			h0 := c.heapGet(entrySt, k)
			add("same:"+v.Name()+":"+k, func(s *State) *Term {
				return eq(sel(c.heapGet(s, k), obj), sel(h0, obj))
			})
		}
	}
	return out
}

func (c *Ctx) addWarn(s string) {
	for _, w := range c.warn {
		if w == s {
			return
		}
	}
	c.warn = append(c.warn, s)
}

// havocLoop forgets what the loop modifies
func (c *Ctx) havocLoop(st, entry *State, tr *touchRec, lc *loopCtx) {
	var vs []*types.Var
	for v := range tr.vars {
		if _, ok := st.vars[v]; ok {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Pos() != vs[j].Pos() {
			return vs[i].Pos() < vs[j].Pos()
		}
		return vs[i].Name() < vs[j].Name()
	})
	if tr.alloc {
		na := c.fresh("alloc", "Int")
		c.assumeRaw(le(st.alloc, na))
		st.alloc = na
	}
	for _, v := range vs {
		switch x := st.vars[v].(type) {
		case *TV:
			t := c.fresh(v.Name(), x.t.sort)
			c.assumeRaw(c.typeFact(t, x.typ, st.alloc))
			st.vars[v] = &TV{t, x.typ}
		default:
			// alias or function reassigned in the loop
			delete(st.vars, v)
		}
	}
	var ks []string
	for k := range tr.heaps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		hi := c.heapT[k]
		h1 := c.fresh("lh_"+k, hi.sort)
		// every write is checked against the modifies clause: the other
		// objects allocated at entry keep their initial contents
		if !c.modAll && c.quiet == 0 && !c.effectsOnly {
			c.frameAxiom(k, c.heapInit(k), h1, c.modSet, c.alloc0)
		}
		if hi.elem != nil {
			c.assumeRaw(c.heapFact(h1, hi, st.alloc))
		}
		st.heap[k] = h1
	}
}

func (c *Ctx) forLoop(st *State, fr *Frame, s *ast.ForStmt, label string) {
	if s.Init != nil {
		c.stmt(st, fr, s.Init, "")
	}
	key, spec := c.loopSpec(fr, s)
	lc := &loopCtx{key: key, spec: spec, node: s, scopeP: s.Body.Lbrace + 1}
	var cond func(x *State) *Term
	if s.Cond != nil {
		cond = func(x *State) *Term { return c.term(c.expr(x, fr, s.Cond)) }
	}
	var post func(x *State)
	if s.Post != nil {
		post = func(x *State) { c.stmt(x, fr, s.Post, "") }
	}
	var decr func(x *State) *Term
	// the usual counting loop: for i := a; i < n; i++
	if be, ok := s.Cond.(*ast.BinaryExpr); ok && c.quiet == 0 {
		if id, ok := be.X.(*ast.Ident); ok && (be.Op == token.LSS || be.Op == token.LEQ) {
			if v, ok := c.info(fr).Uses[id].(*types.Var); ok {
				if tv, ok := st.vars[v].(*TV); ok && tv.t.sort == "Int" {
					e0 := tv.t
					lc.auto = append(lc.auto, autoInv{"bound:" + id.Name, func(x *State) *Term {
						cur, ok := x.vars[v].(*TV)
						if !ok {
							return nil
						}
						c.quiet++
						lim := c.term(c.expr(x.clone(), fr, be.Y))
						c.quiet--
						if be.Op == token.LEQ {
							lim = add(lim, intT(1))
						}
						return or(le(cur.t, lim), eq(cur.t, e0))
					}})
				}
			}
		}
	}
	if s.Cond != nil && countsUp(s, c.info(fr)) {
		be := s.Cond.(*ast.BinaryExpr)
		decr = func(x *State) *Term { return intT(0) }
		_ = be
	}
	c.runLoop(st, fr, lc, label, cond, func(x *State) { c.block(x, fr, s.Body.List) }, post, s.Pos(), decr)
}

// countsUp: for i := ..; i < n; i++ where the body assigns neither i nor the
// variables of n
func countsUp(s *ast.ForStmt, info *types.Info) bool {
	be, ok := s.Cond.(*ast.BinaryExpr)
	if !ok || (be.Op != token.LSS && be.Op != token.LEQ) {
		return false
	}
	id, ok := be.X.(*ast.Ident)
	if !ok {
		return false
	}
	inc, ok := s.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC {
		return false
	}
	if iid, ok := inc.X.(*ast.Ident); !ok || info.Uses[iid] != info.Uses[id] {
		return false
	}
	bad := map[types.Object]bool{info.Uses[id]: true}
	simple := true
	ast.Inspect(be.Y, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Ident:
			if o := info.Uses[n]; o != nil {
				if _, ok := o.(*types.Var); ok {
					bad[o] = true
				}
			}
		case *ast.CallExpr:
			if fid, ok := n.Fun.(*ast.Ident); !ok || fid.Name != "len" {
				simple = false
			}
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			simple = false
		}
		return true
	})
	if !simple {
		return false
	}
	ok = true
	ast.Inspect(s.Body, func(n ast.Node) bool {
		chk := func(e ast.Expr) {
			if id, isID := e.(*ast.Ident); isID && bad[info.Uses[id]] {
				ok = false
			}
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				chk(l)
			}
		case *ast.IncDecStmt:
			chk(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				chk(n.X)
			}
		case *ast.RangeStmt:
			if n.Key != nil {
				chk(n.Key)
			}
			if n.Value != nil {
				chk(n.Value)
			}
		}
		return true
	})
	return ok
}

func lazyVar(v *types.Var, t types.Type) func(*State) *SVal {
	return func(x *State) *SVal {
		tv, ok := x.vars[v].(*TV)
		if !ok {
			return nil
		}
		return &SVal{t: tv.t, typ: t}
	}
}

func (c *Ctx) rangeLoop(st *State, fr *Frame, s *ast.RangeStmt, label string) {
	key, spec := c.loopSpec(fr, s)
	lc := &loopCtx{key: key, spec: spec, node: s, scopeP: s.Body.Lbrace + 1, names: map[string]*SVal{}}
	xt := c.info(fr).Types[s.X].Type
	// hidden index
	idx := types.NewVar(s.Pos(), fr.pkg.types, "$i", types.Typ[types.Int])
	setKV := func(x *State, e ast.Expr, v Val, t types.Type) {
		if e == nil {
			return
		}
		id, isID := e.(*ast.Ident)
		if isID && id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			if o, ok := c.info(fr).Defs[id].(*types.Var); ok && o != nil {
				c.declareVar(x, fr, o, v)
				return
			}
		}
		l := c.lvalue(x, fr, e)
		c.storeLoc(x, l, c.coerce(x, v, l.typ), s.Pos())
	}
	var length func(x *State) *Term
	var elem func(x *State, i *Term) Val
	var elT types.Type
	switch u := under(xt).(type) {
	case *types.Slice:
		sl := c.name(c.term(c.expr(st, fr, s.X)), "rng")
		// hidden variable, for the automatic frame invariants
		rng := types.NewVar(s.Pos(), fr.pkg.types, "$rng", xt)
		st.vars[rng] = &TV{sl, xt}
		defer delete(st.vars, rng)
		length = func(*State) *Term { return slen(sl) }
		elT = u.Elem()
		elem = func(x *State, i *Term) Val {
			return &TV{c.loadCell(x, sobj(sl), add(soff(sl), i), u.Elem()), u.Elem()}
		}
	case *types.Array:
		n := intT(u.Len())
		length = func(*State) *Term { return n }
		elT = u.Elem()
		if s.Value != nil {
			// the array is copied
			av := c.name(c.term(c.expr(st, fr, s.X)), "rng")
			elem = func(x *State, i *Term) Val { return &TV{sel(av, i), u.Elem()} }
			lc.names["ranged"] = &SVal{t: av, typ: xt}
		}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		n := intT(at.Len())
		length = func(*State) *Term { return n }
		elT = at.Elem()
		p := c.expr(st, fr, s.X)
		if s.Value != nil {
			l := c.deref(st, p, s.Pos())
			elem = func(x *State, i *Term) Val { return c.loadLoc(x, extendIdx(l, u.Elem(), i)) }
		}
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			n := c.name(c.term(c.expr(st, fr, s.X)), "rng")
			length = func(*State) *Term { return n }
			break
		}
		c.rangeString(st, fr, s, lc, label)
		return
	case *types.Map:
		c.rangeMap(st, fr, s, lc, label, setKV)
		return
	default:
		panic(unsupported("range over " + xt.String()))
	}
	st.vars[idx] = &TV{intT(0), types.Typ[types.Int]}
	lc.auto = append(lc.auto, autoInv{"range", func(x *State) *Term {
		i := x.vars[idx].(*TV).t
		return and(le(intT(0), i), le(i, length(x)))
	}})
	// the key name denotes the hidden index in the invariants
	if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" && s.Tok == token.DEFINE {
		lc.names[id.Name] = &SVal{lazy: lazyVar(idx, types.Typ[types.Int])}
	}
	lc.names["idx'"] = &SVal{lazy: lazyVar(idx, types.Typ[types.Int])}
	lc.names["rangeidx"] = lc.names["idx'"]
	cond := func(x *State) *Term { return lt(x.vars[idx].(*TV).t, length(x)) }
	body := func(x *State) {
		i := x.vars[idx].(*TV).t
		setKV(x, s.Key, &TV{i, types.Typ[types.Int]}, types.Typ[types.Int])
		if s.Value != nil && elem != nil {
			setKV(x, s.Value, elem(x, i), elT)
		}
		c.block(x, fr, s.Body.List)
	}
	post := func(x *State) {
		c.setVar(x, idx, &TV{add(x.vars[idx].(*TV).t, intT(1)), types.Typ[types.Int]})
	}
	c.runLoop(st, fr, lc, label, cond, body, post, s.Pos(), func(*State) *Term { return intT(0) })
	delete(st.vars, idx)
}

// range over a string: the byte index advances by an unspecified positive
// amount and the rune is unspecified
func (c *Ctx) rangeString(st *State, fr *Frame, s *ast.RangeStmt, lc *loopCtx, label string) {
	str := c.name(c.term(c.expr(st, fr, s.X)), "rng")
	idx := types.NewVar(s.Pos(), fr.pkg.types, "$i", types.Typ[types.Int])
	st.vars[idx] = &TV{intT(0), types.Typ[types.Int]}
	c.note("range over a string: the decoded runes are arbitrary")
	lc.auto = append(lc.auto, autoInv{"range", func(x *State) *Term {
		i := x.vars[idx].(*TV).t
		return and(le(intT(0), i), le(i, strLen(str)))
	}})
	cond := func(x *State) *Term { return lt(x.vars[idx].(*TV).t, strLen(str)) }
	var w *Term
	body := func(x *State) {
		i := x.vars[idx].(*TV).t
		if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
			if o, ok := c.info(fr).Defs[id].(*types.Var); ok && o != nil {
				c.declareVar(x, fr, o, &TV{i, types.Typ[types.Int]})
			}
		}
		if id, ok := s.Value.(*ast.Ident); ok && id.Name != "_" {
			if o, ok := c.info(fr).Defs[id].(*types.Var); ok && o != nil {
				r := c.fresh("rune", "Int")
				c.assume(x, and(le(intT(0), r), le(r, intT(0x10FFFF))))
				c.declareVar(x, fr, o, &TV{r, types.Typ[types.Rune]})
			}
		}
		w = c.fresh("w", "Int")
		c.assume(x, and(le(intT(1), w), le(w, intT(4)), le(add(i, w), strLen(str))))
		c.block(x, fr, s.Body.List)
	}
	post := func(x *State) {
		c.setVar(x, idx, &TV{add(x.vars[idx].(*TV).t, w), types.Typ[types.Int]})
	}
	c.runLoop(st, fr, lc, label, cond, body, post, s.Pos(), func(*State) *Term { return intT(0) })
	delete(st.vars, idx)
}

// range over a map: arbitrary order, each key once (ghost set of the visited
// keys). The map must not be written in the loop.
func (c *Ctx) rangeMap(st *State, fr *Frame, s *ast.RangeStmt, lc *loopCtx, label string, setKV func(x *State, e ast.Expr, v Val, t types.Type)) {
	xt := c.info(fr).Types[s.X].Type
	mt := under(xt).(*types.Map)
	m := c.name(c.term(c.expr(st, fr, s.X)), "rngm")
	has, val, _ := c.mapKeys(xt)
	ks := c.sortOf(mt.Key())
	vis := types.NewVar(s.Pos(), fr.pkg.types, "$visited", types.Typ[types.Int])
	setT := &setType{key: mt.Key()}
	st.vars[vis] = &TV{constArr(ks, tFalse), setT}
	lc.names["visited"] = &SVal{lazy: lazyVar(vis, setT)}
	h0 := c.heapGet(st, has)
	nonnil := not(eq(pobj(m), intT(0)))
	// visited keys are in the map
	lc.auto = append(lc.auto, autoInv{"visited", func(x *State) *Term {
		k := c.boundVar("k", ks)
		v := x.vars[vis].(*TV).t
		in := mk("Bool", "select", v, k)
		return quant("forall", []*Term{k}, imp(in, and(nonnil, sel(sel(h0, pobj(m)), k))), [][]*Term{{in}})
	}})
	done := types.NewVar(s.Pos(), fr.pkg.types, "$more", types.Typ[types.Bool])
	_ = done
	cond := func(x *State) *Term {
		// more keys?
		more := c.fresh("more", "Bool")
		v := x.vars[vis].(*TV).t
		// the previous iterations left the keys unchanged (obligation below)
		if h := c.heapGet(x, has); h.str != h0.str {
			c.assume(x, eq(sel(h, pobj(m)), sel(h0, pobj(m))))
		}
		k := c.boundVar("k", ks)
		in := sel(sel(h0, pobj(m)), k)
		c.assume(x, imp(not(more), quant("forall", []*Term{k}, imp(and(nonnil, in), mk("Bool", "select", v, k)), [][]*Term{{in}})))
		return more
	}
	var kt *Term
	body := func(x *State) {
		kt = c.fresh("key", ks)
		v := x.vars[vis].(*TV).t
		c.assume(x, and(nonnil, sel(sel(h0, pobj(m)), kt), not(sel(v, kt)), c.typeFact(kt, mt.Key(), x.alloc)))
		setKV(x, s.Key, &TV{kt, mt.Key()}, mt.Key())
		if s.Value != nil {
			hv := c.heapGet(x, val)
			setKV(x, s.Value, &TV{sel(sel(hv, pobj(m)), kt), mt.Elem()}, mt.Elem())
		}
		c.block(x, fr, s.Body.List)
	}
	post := func(x *State) {
		c.setVar(x, vis, &TV{store(x.vars[vis].(*TV).t, kt, tTrue), setT})
		// the set of keys is unchanged
		h1 := c.heapGet(x, has)
		if h1.str != h0.str {
			c.oblige(x, "rangemap", "", eq(sel(h1, pobj(m)), sel(h0, pobj(m))), s.Pos(), "map unchanged while iterating at "+c.where(s.Pos()))
		}
	}
	c.runLoop(st, fr, lc, label, cond, body, post, s.Pos(), func(*State) *Term { return intT(0) })
	delete(st.vars, vis)
}

// setType is the specification type of the visited keys
type setType struct{ key types.Type }

func (s *setType) Underlying() types.Type { return s }
func (s *setType) String() string         { return "set[" + s.key.String() + "]" }

// ---------------------------------------------------------------- ghost code

func (c *Ctx) runGhost(st *State, fr *Frame, lc *loopCtx, gs []*Ghost) {
	if len(gs) == 0 || c.quiet > 0 || c.effectsOnly || st.dead() {
		return
	}
	for _, g := range gs {
		var env *Env
		if lc != nil {
			env = c.loopEnv(st, fr, lc)
		} else {
			env = &Env{c: c, names: map[string]*SVal{}, st: st, old: c.entry, fr: fr, scopeP: c.lastPos, pkg: fr.pkg}
		}
		c.ghostStep(st, env, g, fr)
	}
}

func (c *Ctx) ghostStep(st *State, env *Env, g *Ghost, fr *Frame) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(unsupportedErr); ok {
				c.addWarn("ghost step dropped: " + g.text + ": " + e.Error())
				return
			}
			panic(r)
		}
	}()
	switch g.kind {
	case "assert":
		id := "ghost:" + g.text
		if c.disabled[id] {
			return
		}
		cl := &Clause{label: g.name, expr: g.expr, text: g.text}
		if o := c.oblige(st, "assert", g.name, env.boolClause(cl, false), token.NoPos, g.text); o != nil {
			o.soft = id
		}
		c.assume(st, env.boolClause(cl, true))
	case "cases":
		c.caseSplit(st, env, g.expr)
	case "use":
		c.useLemma(st, env, g.expr)
	}
}

func (c *Ctx) ghostAt(st *State, fr *Frame, where string) {
	if c.quiet > 0 || c.effectsOnly || c.spec == nil || fr == nil {
		return
	}
	gs := c.spec.ghost[where]
	if len(gs) == 0 {
		return
	}
	for _, g := range gs {
		env := &Env{c: c, names: map[string]*SVal{}, st: st, old: c.entry, fr: fr, scopeP: c.lastPos, pkg: fr.pkg}
		if strings.HasPrefix(where, "after ") && c.lastCall != nil {
			for k, v := range c.lastCall.names {
				if strings.HasPrefix(k, "result") {
					env.names["call_"+k] = v
				}
			}
		}
		c.ghostStep(st, env, g, fr)
	}
}

// initState builds the entry state of a function
func (c *Ctx) initState(fd *FuncDecl) (*State, *Frame) {
	sig := fd.obj.Type().(*types.Signature)
	c.alloc0 = mk("Int", "alloc0")
	st := &State{pc: tTrue, vars: map[*types.Var]Val{}, heap: map[string]*Term{}, alloc: c.alloc0}
	fr := c.newFrame(nil, fd, fd.pkg, sig, fd.decl.Body)
	fr.spec = fd.spec
	param := func(v *types.Var) Val {
		t := mk(c.sortOf(v.Type()), "p_"+sanitize(v.Name()))
		c.decls = append(c.decls, fmt.Sprintf("(declare-const %s %s)", t.op, t.sort))
		c.assumeRaw(c.typeFact(t, v.Type(), c.alloc0))
		return &TV{t, v.Type()}
	}
	var recv Val
	n := 0
	mkp := func(v *types.Var) Val {
		if v.Name() == "" || v.Name() == "_" {
			n++
			t := mk(c.sortOf(v.Type()), fmt.Sprintf("p_anon%d", n))
			c.decls = append(c.decls, fmt.Sprintf("(declare-const %s %s)", t.op, t.sort))
			c.assumeRaw(c.typeFact(t, v.Type(), c.alloc0))
			return &TV{t, v.Type()}
		}
		return param(v)
	}
	if r := sig.Recv(); r != nil {
		recv = mkp(r)
	}
	var args []Val
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, mkp(sig.Params().At(i)))
	}
	c.bindParams(st, fr, sig, recv, args)
	return st, fr
}
