package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Val is a symbolic value: *TV, *LocPtr, *FuncVal or *Tuple.
type Val interface{}

type TV struct {
	t   *Term
	typ types.Type
}

// LocPtr is a pointer to a location which has no Ptr term (interior pointer,
// or address of a local variable).
type LocPtr struct {
	loc *Loc
}

type FuncVal struct {
	fn   *types.Func
	recv Val
	lit  *ast.FuncLit
	fr   *Frame
	meth bool // method expression: first argument is the receiver
}

type Tuple struct{ vs []Val }

// Loc is an assignable location
type Loc struct {
	v    *types.Var // local or global variable (nil: heap)
	obj  *Term
	idx  *Term
	base types.Type // type of the heap cell
	path []pathEl
	typ  types.Type
	// map element
	mref    *Term
	mkey    *Term
	mtyp    types.Type
	discard bool
	row     bool // the whole row of an object: a sliced local array (base: element type)
}

type pathEl struct {
	field int        // >= 0
	idx   *Term      // array index when field < 0
	typ   types.Type // type of the aggregate before the step
}

type State struct {
	pc    *Term
	vars  map[*types.Var]Val
	heap  map[string]*Term
	alloc *Term
	ghost map[string]Val
	hname string // arbitrary heap of a lemma parameter
	rec   *recHeap
}

// recHeap collects the heap arrays that the body of a recursive specification
// function reads through one of its parameters: they become arguments
type recHeap struct {
	prefix string
	param  int // -1: the current heap
	leaf   map[string]*Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, vars: make(map[*types.Var]Val, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), ghost: s.ghost, hname: s.hname, rec: s.rec}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) dead() bool { return s == nil || s.pc.str == "false" }

type Ob struct {
	name   string
	kind   string
	label  string
	prefix int
	goal   *Term
	pc     *Term
	body   *Term
	pos    token.Pos
	soft   string
	fn     string
	text   string
	// results
	ok     bool
	solver string
	ms     int64
	out    string
	query  string
}

type Frame struct {
	fd        *FuncDecl
	pkg       *Pkg
	sig       *types.Signature
	results   []*types.Var // named or synthesized result variables
	exits     []*exit
	parent    *Frame
	brk       []*target
	spec      *FuncSpec
	loopPfx   string
	loopN     *int
	body      *ast.BlockStmt
	scopeP    token.Pos
	heapified map[*types.Var]bool
	aliasOK   map[*types.Var]bool
}

type exit struct {
	st   *State
	vals []Val
	pos  token.Pos
}

type target struct {
	label  string
	isLoop bool
	breaks []*State
	conts  []*State
}

type touchRec struct {
	vars  map[*types.Var]bool
	heaps map[string]bool
	alloc bool
}

// Ctx verifies one function
type Ctx struct {
	defs           map[string]*Term // named boolean terms
	w              *World
	fd             *FuncDecl
	spec           *FuncSpec
	decls          []string // datatypes and global declarations
	log            []string // assumptions, in order
	structs        map[string]*structInfo
	declSet        map[string]bool
	nfresh         int
	nbound         int
	obs            []*Ob
	entry          *State
	entryFr        *Frame
	ghosts         map[string]*SVal
	absMul         bool
	tables         bool
	reveal         []string
	heapT          map[string]heapInfo
	dry            int
	touch          []*touchRec
	rows           map[*types.Var]types.Type // sliced local arrays, by element type
	quiet          int                       // spec mode: no obligations
	noName         int                       // terms may contain bound variables
	strs           map[string]*Term
	ifaceT         map[string]int
	ifaceTypes     []types.Type
	alloc0         *Term
	modSet         []modEntry
	modAll         bool
	disabled       map[string]bool
	assumptions    map[string]bool
	inlined        map[string]bool
	usedContracts  map[string]bool
	depth          int
	obNames        map[string]int
	effectsOnly    bool
	recFns         map[string]bool
	recExtras      map[string][]recExtra
	axioms         []string
	softLoops      bool
	cover          []coverPt
	callN          map[string]int
	pendingPats    [][]*Term
	useAllAxioms   bool
	warn           []string
	globalsDone    map[*types.Var]Val
	lastPos        token.Pos
	mathInt        bool
	loopDepthGuard int
	loopIDs        map[string]string
	loopCnt        map[string]int
	lastCall       *Env
	fnName         string
	globArr        map[string]*Term
}

type coverPt struct {
	name   string
	prefix int
	pc     *Term
}

type heapInfo struct {
	key  string
	sort string // full sort of the heap array
	elem types.Type
	dep  []types.Type
}

// modEntry is a modifiable location set
type modEntry struct {
	typ   types.Type // element type
	field int        // -1: every field
	obj   *Term
	idx   *Term // nil: the whole object
	hi    *Term // with idx: the cells of [idx, hi); nil: the cell idx
	cond  *Term
	isMap bool
	any   bool // every object of the type
}

// has tells whether the entry (with an index) contains the cell x
func (m modEntry) has(x *Term) *Term {
	if m.hi != nil {
		return and(le(m.idx, x), lt(x, m.hi))
	}
	return eq(m.idx, x)
}

// covers tells whether the entry (with an index) contains [lo, hi)
func (m modEntry) covers(lo, hi *Term) *Term {
	if m.hi != nil {
		return and(le(m.idx, lo), le(hi, m.hi))
	}
	return and(eq(m.idx, lo), le(hi, add(lo, intT(1))))
}

func newCtx(w *World, fd *FuncDecl) *Ctx {
	c := &Ctx{w: w, fd: fd, structs: map[string]*structInfo{}, declSet: map[string]bool{}, heapT: map[string]heapInfo{}, strs: map[string]*Term{}, ifaceT: map[string]int{}, disabled: map[string]bool{}, assumptions: map[string]bool{}, inlined: map[string]bool{}, usedContracts: map[string]bool{}, obNames: map[string]int{}, recFns: map[string]bool{}, recExtras: map[string][]recExtra{}, callN: map[string]int{}, globalsDone: map[*types.Var]Val{}, loopIDs: map[string]string{}, loopCnt: map[string]int{}, globArr: map[string]*Term{}}
	if fd != nil {
		c.spec = fd.spec
	}
	return c
}

func (c *Ctx) decl(name, s string) {
	if !c.declSet[name] {
		c.declSet[name] = true
		c.decls = append(c.decls, s)
	}
}

func (c *Ctx) emit(s string) { c.log = append(c.log, s) }

func (c *Ctx) boundVar(hint, sort string) *Term {
	c.nbound++
	return mk(sort, fmt.Sprintf("%s!%d", hint, c.nbound))
}

func (c *Ctx) fresh(hint, sort string) *Term {
	if c.noName > 0 {
		panic(unsupported("fresh value inside a quantified expression: " + hint))
	}
	c.nfresh++
	t := mk(sort, fmt.Sprintf("%s_%d", sanitize(hint), c.nfresh))
	c.emit(fmt.Sprintf("(declare-const %s %s)", t.op, sort))
	return t
}

// name gives a name to a large term
func (c *Ctx) name(t *Term, hint string) *Term {
	if c.noName > 0 || len(t.args) == 0 || (t.n <= 8 && (t.sort == "Bool" || !hasConnective(t))) {
		return t
	}
	c.nfresh++
	v := mk(t.sort, fmt.Sprintf("%s_%d", sanitize(hint), c.nfresh))
	if t.sort != "Bool" && hasConnective(t) {
		// a constant: the connectives of the definition must not end up in
		// quantifier patterns
		c.emit(fmt.Sprintf("(declare-const %s %s)", v.op, t.sort))
		c.emit(fmt.Sprintf("(assert (= %s %s))", v.op, t.str))
		return v
	}
	c.emit(fmt.Sprintf("(define-fun %s () %s %s)", v.op, t.sort, t.str))
	if t.sort == "Bool" {
		if c.defs == nil {
			c.defs = map[string]*Term{}
		}
		c.defs[v.op] = t
	}
	return v
}

// constant declares a constant equal to t
func (c *Ctx) constant(t *Term, hint string) *Term {
	if len(t.args) == 0 {
		return t
	}
	c.nfresh++
	v := mk(t.sort, fmt.Sprintf("%s_%d", sanitize(hint), c.nfresh))
	c.emit(fmt.Sprintf("(declare-const %s %s)", v.op, t.sort))
	c.emit(fmt.Sprintf("(assert (= %s %s))", v.op, t.str))
	return v
}

func (c *Ctx) assume(st *State, f *Term) {
	if c.noName > 0 || f.str == "true" {
		return
	}
	g := imp(st.pc, f)
	if g.str == "true" {
		return
	}
	c.emit("(assert " + g.str + ")")
}

func (c *Ctx) assumeRaw(f *Term) {
	if f.str == "true" {
		return
	}
	if c.noName > 0 {
		return
	}
	c.emit("(assert " + f.str + ")")
}

func (c *Ctx) oblige(st *State, kind, label string, goal *Term, pos token.Pos, text string) *Ob {
	if c.quiet > 0 || c.effectsOnly {
		return nil
	}
	g := imp(st.pc, goal)
	if c.dry > 0 {
		return nil
	}
	base := kind
	if label != "" {
		base += ":" + label
	}
	c.obNames[base]++
	nm := base
	if k := c.obNames[base]; k > 1 {
		nm = fmt.Sprintf("%s#%d", base, k)
	}
	if g.str == "true" && kind != "ensures" && kind != "assert" {
		// trivially true: still counted, discharged by simplification
		o := &Ob{name: nm, kind: kind, label: label, prefix: len(c.log), goal: g, pc: st.pc, body: goal, pos: pos, text: text, ok: true, solver: "simplify"}
		c.obs = append(c.obs, o)
		return o
	}
	o := &Ob{name: nm, kind: kind, label: label, prefix: len(c.log), goal: g, pc: st.pc, body: goal, pos: pos, text: text}
	c.obs = append(c.obs, o)
	return o
}

// check emits a safety obligation and then assumes it
func (c *Ctx) check(st *State, kind string, goal *Term, pos token.Pos) {
	if c.quiet > 0 || goal.str == "true" {
		return
	}
	c.oblige(st, kind, "", goal, pos, c.where(pos))
	c.assume(st, goal)
}

func (c *Ctx) where(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	pos := c.w.fset.Position(p)
	f := strings.TrimPrefix(pos.Filename, c.w.repo+"/")
	return fmt.Sprintf("%s:%d:%d", f, pos.Line, pos.Column)
}

func (c *Ctx) note(a string) { c.assumptions[a] = true }

// ---------------------------------------------------------------- heap

func (c *Ctx) heapKeys(elem types.Type) []string {
	if st, ok := under(elem).(*types.Struct); ok {
		if st.NumFields() == 0 {
			return nil
		}
		var ks []string
		for i := 0; i < st.NumFields(); i++ {
			ks = append(ks, c.fieldKey(elem, i))
		}
		return ks
	}
	return []string{c.cellKey(elem)}
}

func (c *Ctx) fieldKey(t types.Type, i int) string {
	st := under(t).(*types.Struct)
	f := st.Field(i)
	nm := f.Name()
	if nm == "_" {
		nm = fmt.Sprintf("blank%d", i)
	}
	k := "H." + typeKey(t) + "." + nm
	if _, ok := c.heapT[k]; !ok {
		c.heapT[k] = heapInfo{k, arrSort("Int", arrSort("Int", c.sortOf(f.Type()))), f.Type(), nil}
	}
	return k
}

func (c *Ctx) cellKey(t types.Type) string {
	k := "H." + typeKey(t)
	if _, ok := c.heapT[k]; !ok {
		c.heapT[k] = heapInfo{k, arrSort("Int", arrSort("Int", c.sortOf(t))), t, nil}
	}
	return k
}

func (c *Ctx) mapKeys(t types.Type) (has, val, card string) {
	m := under(t).(*types.Map)
	k := "M." + typeKey(m.Key()) + "." + typeKey(m.Elem())
	has, val, card = k+".has", k+".val", k+".card"
	if _, ok := c.heapT[has]; !ok {
		ks := c.sortOf(m.Key())
		c.heapT[has] = heapInfo{has, arrSort("Int", arrSort(ks, "Bool")), nil, []types.Type{m.Key()}}
		c.heapT[val] = heapInfo{val, arrSort("Int", arrSort(ks, c.sortOf(m.Elem()))), nil, []types.Type{m.Key(), m.Elem()}}
		c.heapT[card] = heapInfo{card, arrSort("Int", "Int"), nil, nil}
	}
	return
}

// needSorts declares the sorts of the elements of a heap before the heap
func (c *Ctx) needSorts(hi heapInfo) {
	if hi.elem != nil {
		c.sortOf(hi.elem)
	}
	for _, t := range hi.dep {
		c.sortOf(t)
	}
}

// initial version of a heap array
func (c *Ctx) heapInit(key string) *Term {
	hi := c.heapT[key]
	nm := sanitize(key) + "_init"
	t := mk(hi.sort, nm)
	if !c.declSet[nm] {
		c.declSet[nm] = true
		c.needSorts(hi)
		c.decls = append(c.decls, fmt.Sprintf("(declare-const %s %s)", nm, hi.sort))
		if hi.elem != nil {
			al := mk("Int", "alloc0")
			if f := c.heapFact(t, hi, al); f.str != "true" {
				c.decls = append(c.decls, "(assert "+f.str+")")
			}
		}
		if strings.HasSuffix(key, ".card") {
			o := c.boundVar("o", "Int")
			s := mk("Int", "select", t, o)
			c.decls = append(c.decls, "(assert "+quant("forall", []*Term{o}, le(intT(0), s), [][]*Term{{s}}).str+")")
		}
	}
	return t
}

func (c *Ctx) heapFact(h *Term, hi heapInfo, alloc *Term) *Term {
	o := c.boundVar("o", "Int")
	x := c.boundVar("x", "Int")
	v := mk(elemSort(elemSort(hi.sort)), "select", mk(elemSort(hi.sort), "select", h, o), x)
	if a, ok := under(hi.elem).(*types.Array); ok {
		y := c.boundVar("y", "Int")
		w := mk(elemSort(v.sort), "select", v, y)
		f := c.typeFact(w, a.Elem(), alloc)
		if f.str == "true" {
			return f
		}
		return quant("forall", []*Term{o, x, y}, f, [][]*Term{{w}})
	}
	if hasArr(hi.elem) {
		return tTrue
	}
	f := c.typeFact(v, hi.elem, alloc)
	if f.str == "true" {
		return f
	}
	return quant("forall", []*Term{o, x}, f, [][]*Term{{v}})
}

func hasArr(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Array:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasArr(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) heapGet(st *State, key string) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	if st.rec != nil {
		t := st.rec.leaf[key]
		if t == nil {
			t = mk(c.heapT[key].sort, st.rec.prefix+sanitize(key))
			st.rec.leaf[key] = t
		}
		return t
	}
	if st.hname != "" {
		hi := c.heapT[key]
		nm := sanitize(key) + "_of_" + st.hname
		h := mk(hi.sort, nm)
		if !c.declSet[nm] {
			c.declSet[nm] = true
			c.needSorts(hi)
			c.decls = append(c.decls, fmt.Sprintf("(declare-const %s %s)", nm, hi.sort))
			if hi.elem != nil {
				if f := c.heapFact(h, hi, nil); f.str != "true" {
					c.decls = append(c.decls, "(assert "+f.str+")")
				}
			}
		}
		return h
	}
	return c.heapInit(key)
}

func (c *Ctx) heapSet(st *State, key string, h *Term) {
	st.heap[key] = c.name(h, "h")
	for _, t := range c.touch {
		t.heaps[key] = true
	}
}

func (c *Ctx) setAlloc(st *State, a *Term) {
	st.alloc = a
	for _, t := range c.touch {
		t.alloc = true
	}
}

func (c *Ctx) newObj(st *State) *Term {
	if c.noName > 0 {
		panic(unsupported("allocation inside a specification expression"))
	}
	o := c.name(st.alloc, "obj")
	// constants, not sums: arithmetic in a pattern keeps it from matching
	c.setAlloc(st, c.constant(add(st.alloc, intT(1)), "alloc"))
	return o
}

func (c *Ctx) setVar(st *State, v *types.Var, x Val) {
	if tv, ok := x.(*TV); ok {
		x = &TV{c.name(tv.t, v.Name()), tv.typ}
	}
	st.vars[v] = x
	for _, t := range c.touch {
		t.vars[v] = true
	}
}

// objArr is the contents of an object in a heap array
func (c *Ctx) objArr(st *State, key string, obj *Term) *Term {
	if strings.HasPrefix(obj.op, "globobj_") {
		if a, ok := c.globArr[obj.op+"|"+key]; ok {
			return a
		}
	}
	return sel(c.heapGet(st, key), obj)
}

// load a whole cell (obj, idx) of type t
func (c *Ctx) loadCell(st *State, obj, idx *Term, t types.Type) *Term {
	if s, ok := under(t).(*types.Struct); ok {
		si := c.structOf(t)
		vs := make([]*Term, s.NumFields())
		for i := range vs {
			vs[i] = sel(c.objArr(st, c.fieldKey(t, i), obj), idx)
		}
		return si.make(vs)
	}
	return sel(c.objArr(st, c.cellKey(t), obj), idx)
}

func (c *Ctx) storeCell(st *State, obj, idx *Term, t types.Type, v *Term) {
	if s, ok := under(t).(*types.Struct); ok {
		si := c.structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			k := c.fieldKey(t, i)
			h := c.heapGet(st, k)
			c.heapSet(st, k, store(h, obj, store(sel(h, obj), idx, si.get(v, i))))
		}
		return
	}
	k := c.cellKey(t)
	h := c.heapGet(st, k)
	c.heapSet(st, k, store(h, obj, store(sel(h, obj), idx, v)))
}

// getPath reads along a value path
func (c *Ctx) getPath(v *Term, path []pathEl) *Term {
	for _, p := range path {
		if p.field >= 0 {
			v = c.structOf(p.typ).get(v, p.field)
		} else {
			v = sel(v, p.idx)
		}
	}
	return v
}

func (c *Ctx) setPath(v *Term, path []pathEl, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	p := path[0]
	if p.field >= 0 {
		si := c.structOf(p.typ)
		return si.set(v, p.field, c.setPath(si.get(v, p.field), path[1:], x))
	}
	return store(v, p.idx, c.setPath(sel(v, p.idx), path[1:], x))
}

func (c *Ctx) loadLoc(st *State, l *Loc) Val {
	if l.mref != nil {
		_, val, _ := c.mapKeys(l.mtyp)
		has, _, _ := c.mapKeys(l.mtyp)
		return &TV{ite(sel(sel(c.heapGet(st, has), l.mref), l.mkey), sel(sel(c.heapGet(st, val), l.mref), l.mkey), c.zero(l.typ)), l.typ}
	}
	if l.row {
		return &TV{c.getPath(c.objArr(st, c.cellKey(l.base), l.obj), l.path), l.typ}
	}
	if l.v != nil {
		x := c.varVal(st, l.v)
		if len(l.path) == 0 {
			return x
		}
		tv, ok := x.(*TV)
		if !ok {
			panic(unsupported("path on a non-term value"))
		}
		return &TV{c.getPath(tv.t, l.path), l.typ}
	}
	if len(l.path) > 0 && l.path[0].field >= 0 {
		if _, ok := under(l.base).(*types.Struct); ok {
			return &TV{c.getPath(sel(c.objArr(st, c.fieldKey(l.base, l.path[0].field), l.obj), l.idx), l.path[1:]), l.typ}
		}
	}
	return &TV{c.getPath(c.loadCell(st, l.obj, l.idx, l.base), l.path), l.typ}
}

func (c *Ctx) storeLoc(st *State, l *Loc, x Val, pos token.Pos) {
	if l.discard {
		return
	}
	if l.mref != nil {
		c.checkWrite(st, &Loc{mref: l.mref, mtyp: l.mtyp}, pos)
		has, val, card := c.mapKeys(l.mtyp)
		hh, hv, hc := c.heapGet(st, has), c.heapGet(st, val), c.heapGet(st, card)
		was := sel(sel(hh, l.mref), l.mkey)
		c.heapSet(st, card, store(hc, l.mref, add(sel(hc, l.mref), ite(was, intT(0), intT(1)))))
		c.heapSet(st, has, store(hh, l.mref, store(sel(hh, l.mref), l.mkey, tTrue)))
		c.heapSet(st, val, store(hv, l.mref, store(sel(hv, l.mref), l.mkey, c.term(x))))
		return
	}
	if l.row {
		k := c.cellKey(l.base)
		h := c.heapGet(st, k)
		c.heapSet(st, k, store(h, l.obj, c.setPath(sel(h, l.obj), l.path, c.term(x))))
		return
	}
	if l.v != nil {
		if gi := c.w.globals[l.v]; gi != nil {
			panic(unsupported("assignment to package variable " + l.v.Name()))
		}
		if len(l.path) == 0 {
			c.setVar(st, l.v, x)
			return
		}
		tv := c.varVal(st, l.v).(*TV)
		c.setVar(st, l.v, &TV{c.setPath(tv.t, l.path, c.term(x)), tv.typ})
		return
	}
	c.checkWrite(st, l, pos)
	if len(l.path) > 0 && l.path[0].field >= 0 {
		if _, ok := under(l.base).(*types.Struct); ok {
			k := c.fieldKey(l.base, l.path[0].field)
			h := c.heapGet(st, k)
			old := sel(sel(h, l.obj), l.idx)
			nv := c.setPath(old, l.path[1:], c.term(x))
			c.heapSet(st, k, store(h, l.obj, store(sel(h, l.obj), l.idx, nv)))
			return
		}
	}
	if len(l.path) > 0 {
		old := c.loadCell(st, l.obj, l.idx, l.base)
		c.storeCell(st, l.obj, l.idx, l.base, c.setPath(old, l.path, c.term(x)))
		return
	}
	c.storeCell(st, l.obj, l.idx, l.base, c.term(x))
}

// checkWrite: the written location is fresh or in the modifies clause
func (c *Ctx) checkWrite(st *State, l *Loc, pos token.Pos) {
	if c.quiet > 0 || c.modAll || c.effectsOnly {
		return
	}
	if l.mref != nil {
		ok := []*Term{le(c.alloc0, l.mref)}
		for _, m := range c.modSet {
			if m.isMap && types.Identical(under(m.typ), under(l.mtyp)) {
				ok = append(ok, and(m.cond, eq(m.obj, l.mref)))
			}
		}
		c.check(st, "frame", or(ok...), pos)
		return
	}
	f := -1
	if len(l.path) > 0 {
		f = l.path[0].field
	}
	c.checkWriteCell(st, l.base, f, l.obj, l.idx, nil, pos)
}

// checkWriteCell checks a write of elements [idx, idx+n) (n nil: one element)
func (c *Ctx) checkWriteCell(st *State, elem types.Type, field int, obj, idx, n *Term, pos token.Pos) {
	if c.quiet > 0 || c.modAll || c.effectsOnly {
		return
	}
	ok := []*Term{le(c.alloc0, obj), eq(obj, intT(0))}
	if n != nil {
		ok = append(ok, le(n, intT(0)))
	}
	for _, m := range c.modSet {
		if m.isMap || typeKey(m.typ) != typeKey(elem) {
			continue
		}
		if m.field >= 0 && m.field != field {
			continue
		}
		if m.any {
			return
		}
		k := and(m.cond, eq(m.obj, obj))
		if m.idx != nil {
			one := n
			if n == nil {
				one = intT(1)
			}
			k = and(k, m.covers(idx, add(idx, one)))
		}
		ok = append(ok, k)
	}
	c.check(st, "frame", or(ok...), pos)
}

func (c *Ctx) varVal(st *State, v *types.Var) Val {
	if x, ok := st.vars[v]; ok {
		return x
	}
	if gi := c.w.globals[v]; gi != nil {
		return c.globalVal(v, gi)
	}
	if v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return c.externGlobal(v)
	}
	panic(unsupported("variable without value: " + v.Name()))
}

func (c *Ctx) externGlobal(v *types.Var) Val {
	nm := "glob_" + sanitize(v.Pkg().Path()+"."+v.Name())
	d := fmt.Sprintf("(declare-const %s %s)", nm, c.sortOf(v.Type()))
	if f := c.typeFact(mk(c.sortOf(v.Type()), nm), v.Type(), nil); f.str != "true" {
		d += "\n(assert " + f.str + ")"
	}
	c.decl(nm, d)
	c.note("package variable " + v.Pkg().Path() + "." + v.Name() + " has an arbitrary constant value")
	return &TV{mk(c.sortOf(v.Type()), nm), v.Type()}
}

// term converts a value to an SMT term
func (c *Ctx) term(x Val) *Term {
	switch x := x.(type) {
	case *TV:
		return x.t
	case *FuncVal:
		return c.funcConst(x)
	case *LocPtr:
		panic(unsupported("interior pointer used as a value"))
	case nil:
		panic(unsupported("no value"))
	}
	panic(unsupported(fmt.Sprintf("value %T", x)))
}

func (c *Ctx) funcConst(x *FuncVal) *Term {
	if x.fn != nil && x.recv == nil {
		nm := "fn_" + sanitize(x.fn.FullName())
		c.decl(nm, fmt.Sprintf("(declare-const %s Func)\n(assert (not (= %s nilFunc)))", nm, nm))
		return mk("Func", nm)
	}
	t := c.fresh("closure", "Func")
	c.assumeRaw(not(eq(t, mk("Func", "nilFunc"))))
	return t
}

// merge states with exclusive path conditions
func (c *Ctx) merge(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if !s.dead() {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		if len(sts) > 0 {
			n := sts[0].clone()
			n.pc = tFalse
			return n
		}
		return nil
	}
	if len(live) == 1 {
		return live[0]
	}
	out := live[0].clone()
	var pcs []*Term
	for _, s := range live {
		pcs = append(pcs, s.pc)
	}
	out.pc = c.name(or(pcs...), "pc")
	mergeT := func(get func(s *State) *Term, hint string) *Term {
		last := get(live[len(live)-1])
		t := last
		for i := len(live) - 2; i >= 0; i-- {
			t = ite(live[i].pc, get(live[i]), t)
		}
		return c.name(t, hint)
	}
	vars := make([]*types.Var, 0, len(out.vars))
	for v := range out.vars {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool {
		if vars[i].Pos() != vars[j].Pos() {
			return vars[i].Pos() < vars[j].Pos()
		}
		return vars[i].Name() < vars[j].Name()
	})
	for _, v := range vars {
		all := true
		same := true
		var first Val = out.vars[v]
		allTV := true
		for _, s := range live {
			x, ok := s.vars[v]
			if !ok {
				all = false
				break
			}
			if _, ok := x.(*TV); !ok {
				allTV = false
			}
			if !sameVal(x, first) {
				same = false
			}
		}
		if !all {
			delete(out.vars, v)
			continue
		}
		if same {
			continue
		}
		if !allTV {
			// different aliases: the variable becomes unusable
			delete(out.vars, v)
			continue
		}
		out.vars[v] = &TV{mergeT(func(s *State) *Term { return s.vars[v].(*TV).t }, v.Name()), first.(*TV).typ}
	}
	keys := map[string]bool{}
	for _, s := range live {
		for k := range s.heap {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out.heap[k] = mergeT(func(s *State) *Term { return c.heapGet(s, k) }, "h")
	}
	out.alloc = mergeT(func(s *State) *Term { return s.alloc }, "alloc")
	return out
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*TV)
	y, ok2 := b.(*TV)
	if ok1 && ok2 {
		return x.t.str == y.t.str
	}
	p, ok1 := a.(*LocPtr)
	q, ok2 := b.(*LocPtr)
	if ok1 && ok2 {
		return p.loc == q.loc
	}
	return false
}

// ---------------------------------------------------------------- strings

func (c *Ctx) strLit(s string) *Term {
	if t, ok := c.strs[s]; ok {
		return t
	}
	if s == "" {
		return mk("Str", "str_empty")
	}
	nm := fmt.Sprintf("str_%d", len(c.strs))
	t := mk("Str", nm)
	c.strs[s] = t
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-const %s Str)\n(assert (= (slen.s %s) %d))", nm, nm, len(s))
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, "\n(assert (= (sat %s %d) %d))", nm, i, s[i])
		}
	}
	c.decls = append(c.decls, b.String())
	return t
}

func strLen(s *Term) *Term   { return mk("Int", "slen.s", s) }
func strAt(s, i *Term) *Term { return mk("Int", "sat", s, i) }

// ---------------------------------------------------------------- interfaces

func (c *Ctx) ifaceID(t types.Type) int {
	k := typeKey(t)
	if id, ok := c.ifaceT[k]; ok {
		return id
	}
	id := len(c.ifaceT) + 1
	c.ifaceT[k] = id
	c.ifaceTypes = append(c.ifaceTypes, t)
	s := c.sortOf(t)
	// a value which is not of its type (a pointer before the first object, a
	// byte above 255) has no box of its own: the facts below would contradict it
	wf := "true"
	if !hasArr(t) {
		wf = c.typeFact(mk(s, "x"), t, nil).str
	}
	c.decls = append(c.decls, fmt.Sprintf("(declare-fun box_%s (%s) Iface)\n(declare-fun unbox_%s (Iface) %s)\n(assert (forall ((x %s)) (! (and (= (itag (box_%s x)) %d) (=> %s (= (unbox_%s (box_%s x)) x))) :pattern ((box_%s x)))))\n(assert (forall ((y Iface)) (! (=> (= (itag y) %d) (= (box_%s (unbox_%s y)) y)) :pattern ((unbox_%s y)))))",
		k, s, k, s, s, k, id, wf, k, k, k, id, k, k, k))
	// type facts of unboxed values
	y := mk("Iface", "y")
	if !hasArr(t) {
		f := c.typeFact(mk(s, "unbox_"+k, y), t, nil)
		if f.str != "true" {
			c.decls = append(c.decls, fmt.Sprintf("(assert (forall ((y Iface)) (! (=> (= (itag y) %d) %s) :pattern ((unbox_%s y)))))", id, f.str, k))
		}
	}
	return id
}

func (c *Ctx) box(v *Term, t types.Type) *Term {
	c.ifaceID(t)
	return mk("Iface", "box_"+typeKey(t), v)
}

func (c *Ctx) unbox(v *Term, t types.Type) *Term {
	c.ifaceID(t)
	return mk(c.sortOf(t), "unbox_"+typeKey(t), v)
}

func itag(v *Term) *Term { return mk("Int", "itag", v) }

var _ = big.NewInt

// hasConnective tells whether an if-then-else or a boolean connective occurs
func hasConnective(t *Term) bool {
	if t.q != nil {
		return true
	}
	switch t.op {
	case "store", "ite", "and", "or", "not", "=>", "=", "<", "<=":
		return true
	}
	for _, a := range t.args {
		if hasConnective(a) {
			return true
		}
	}
	return false
}

// pcCases splits a path condition into the joined paths
func (c *Ctx) pcCases(pc *Term, limit int) []*Term {
	if d, ok := c.defs[pc.op]; ok && len(pc.args) == 0 {
		cs := c.pcCases(d, limit)
		if len(cs) == 1 {
			return []*Term{pc}
		}
		return cs
	}
	switch pc.op {
	case "or":
		var out []*Term
		for _, a := range pc.args {
			out = append(out, c.pcCases(a, limit)...)
			if len(out) > limit {
				return []*Term{pc}
			}
		}
		return out
	case "and":
		out := []*Term{tTrue}
		for _, a := range pc.args {
			cs := c.pcCases(a, limit)
			if len(cs) == 1 {
				for i := range out {
					out[i] = and(out[i], a)
				}
				continue
			}
			var nx []*Term
			for _, o := range out {
				for _, x := range cs {
					nx = append(nx, and(o, x))
				}
			}
			if len(nx) > limit {
				return []*Term{pc}
			}
			out = nx
		}
		return out
	}
	return []*Term{pc}
}

// goalParts splits a goal into conjuncts
func goalParts(g *Term) []*Term {
	switch {
	case g.op == "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, goalParts(a)...)
		}
		return out
	case g.op == "=>":
		var out []*Term
		for _, b := range goalParts(g.args[1]) {
			out = append(out, imp(g.args[0], b))
		}
		return out
	case g.op == "=" && g.args[0].sort == "Bool":
		return []*Term{imp(g.args[0], g.args[1]), imp(g.args[1], g.args[0])}
	case isQuant(g, "forall"):
		ps := goalParts(g.q.body)
		if len(ps) == 1 {
			return []*Term{g}
		}
		var out []*Term
		for _, b := range ps {
			out = append(out, quant("forall", g.q.vars, b, nil))
		}
		return out
	}
	return []*Term{g}
}
