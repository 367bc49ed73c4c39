package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Clause is one labelled contract clause.
type Clause struct {
	label string
	expr  ast.Expr
	text  string
	file  string
	line  int
}

type LoopSpec struct {
	invs   []*Clause
	decr   []ast.Expr
	ghost  map[string][]*Ghost // "begin", "end", "exit", "before"
	mods   []ast.Expr
	unroll int
}

// Ghost is a proof step: an assertion which is proved then assumed, or a
// lemma instance.
type Ghost struct {
	kind string // "assert", "use", "let"
	name string
	expr ast.Expr
	text string
}

type FuncSpec struct {
	name     string
	pkg      string
	assumed  []*Clause // postconditions callers assume, not proved (listed in the evidence)
	closed   []*Clause // facts of memory safety, assumed at entry
	requires []*Clause
	ensures  []*Clause
	modifies []*Clause
	decr     []ast.Expr
	loops    map[string]*LoopSpec // key "0" or "callee:0"
	ghost    map[string][]*Ghost  // "entry", "return", "before f", "after f"
	trusted  string               // non empty: reason, body not verified
	extern   bool
	pure     bool
	inline   bool
	opts     map[string]string
	ghosts   []SpecParam         // ghost parameters, arbitrary in the body
	give     map[string]ast.Expr // their values in the calls made by the function
	file     string
	line     int
	calls    map[string]*FuncSpec
}

type SpecParam struct {
	name string
	typ  ast.Expr
}

type SpecFunc struct {
	name   string
	pkg    string
	params []SpecParam
	result ast.Expr
	body   ast.Expr // nil: uninterpreted
	rec    bool
	opaque bool // not recursive, kept folded
	hidden bool // definition visible only to the functions that reveal it
	file   string
	line   int
}

type Lemma struct {
	name     string
	pkg      string
	params   []SpecParam
	requires []*Clause
	ensures  []*Clause
	ih       []*Clause // each expression is a call ih(args...) possibly under ==>
	ghost    []*Ghost
	trusted  string
	pats     []ast.Expr
	decr     []ast.Expr
	order    int
	absMul   bool     // products of variables are uninterpreted
	reveal   []string // hidden specification functions whose definition is used
	tables   bool     // constant fields of the entries of big tables are known
	sameHeap bool
	file     string
	line     int
}

type Axiom struct {
	name string
	pkg  string
	expr ast.Expr
	text string
}

type Property struct {
	id     string
	pkg    string
	funcs  []string
	lemmas []string
	notes  []string
}

type PkgSpec struct {
	path string
}

type Specs struct {
	bv     map[string]bool
	mathT  map[string]bool
	funcs  map[string]*FuncSpec // full name
	specs  map[string]*SpecFunc // by name
	lemmas map[string]*Lemma
	axioms []*Axiom
	props  map[string]*Property
	pkgs   []string
}

func parseSpecs(dir string) (*Specs, error) {
	s := &Specs{bv: map[string]bool{}, mathT: map[string]bool{}, funcs: map[string]*FuncSpec{}, specs: map[string]*SpecFunc{}, lemmas: map[string]*Lemma{}, props: map[string]*Property{}}
	files, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for _, f := range files {
		if err := s.parseFile(f); err != nil {
			return nil, err
		}
	}
	return s, nil
}

var clauseKW = map[string]bool{
	"package": true, "func": true, "extern": true, "trusted": true, "requires": true, "closed": true, "assumes": true, "ensures": true, "modifies": true, "loop": true,
	"invariant": true, "decreases": true, "spec": true, "lemma": true, "axiom": true, "ih": true, "induct": true, "property": true, "lemmas": true, "note": true,
	"assert": true, "use": true, "at": true, "bv": true, "math": true, "option": true, "inline": true, "pure": true, "pattern": true, "unroll": true, "assume": true, "ghost": true, "give": true, "cases": true,
}

func (s *Specs) parseFile(file string) (err error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type item struct {
		kw, rest string
		line     int
	}
	var items []item
	for i, l := range strings.Split(string(data), "\n") {
		t := strings.TrimSpace(l)
		t = strings.TrimSpace(strings.TrimPrefix(t, "//@"))
		if strings.HasPrefix(t, "//") || strings.HasPrefix(t, "#") || t == "" {
			continue
		}
		if j := strings.Index(t, " // "); j >= 0 {
			t = strings.TrimSpace(t[:j])
		}
		kw := t
		rest := ""
		if j := strings.IndexAny(t, " \t:"); j >= 0 {
			kw = t[:j]
			rest = strings.TrimSpace(t[j:])
		}
		if clauseKW[kw] && !(kw == "assert" && false) {
			items = append(items, item{kw, rest, i + 1})
		} else {
			if len(items) == 0 {
				return fmt.Errorf("%s:%d: continuation without clause", file, i+1)
			}
			items[len(items)-1].rest += " " + t
		}
	}
	var (
		pkg  string
		fs   *FuncSpec
		lp   *LoopSpec
		lem  *Lemma
		prop *Property
		at   string
		inLp bool
		line int
	)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s:%d: %v", file, line, r)
		}
	}()
	expr := func(t string) ast.Expr { return parseSpecExpr(t) }
	clause := func(rest string) *Clause {
		label := ""
		t := rest
		if strings.HasPrefix(t, "[") {
			if j := strings.Index(t, "]"); j > 0 {
				label = t[1:j]
				t = strings.TrimSpace(t[j+1:])
			}
		}
		t = strings.TrimPrefix(t, ":")
		return &Clause{label: label, expr: expr(t), text: strings.TrimSpace(t), file: file, line: line}
	}
	params := func(t string) ([]SpecParam, string) {
		// t starts with "("
		d := 0
		end := -1
		for i, c := range t {
			if c == '(' {
				d++
			} else if c == ')' {
				d--
				if d == 0 {
					end = i
					break
				}
			}
		}
		inside := t[1:end]
		var ps []SpecParam
		var pend []string
		for _, part := range splitTop(inside, ',') {
			part = strings.TrimSpace(part)
			if part == "" {
				continue
			}
			j := strings.IndexAny(part, " \t")
			if j < 0 {
				pend = append(pend, part)
				continue
			}
			var ty ast.Expr
			if tt := strings.TrimSpace(part[j:]); strings.HasPrefix(tt, "func(") {
				var err error
				if ty, err = parser.ParseExpr(tt); err != nil {
					panic(err.Error())
				}
			} else {
				ty = expr(tt)
			}
			for _, p := range pend {
				ps = append(ps, SpecParam{p, ty})
			}
			pend = nil
			ps = append(ps, SpecParam{part[:j], ty})
		}
		if len(pend) > 0 {
			panic("parameter without type")
		}
		return ps, strings.TrimSpace(t[end+1:])
	}
	for _, it := range items {
		line = it.line
		switch it.kw {
		case "package":
			pkg = it.rest
			s.pkgs = append(s.pkgs, pkg)
			fs, lp, lem, prop = nil, nil, nil, nil
		case "bv":
			for _, n := range strings.Fields(it.rest) {
				s.bv[pkg+"."+n] = true
			}
		case "math":
			for _, n := range strings.Fields(it.rest) {
				s.mathT[pkg+"."+n] = true
			}
		case "func", "extern", "trusted":
			if it.kw == "trusted" && fs != nil && strings.HasPrefix(it.rest, "\"") {
				if lem != nil {
					lem.trusted = strings.Trim(it.rest, "\"")
				} else {
					fs.trusted = strings.Trim(it.rest, "\"")
				}
				continue
			}
			if it.kw == "trusted" && lem != nil {
				lem.trusted = strings.Trim(it.rest, "\"")
				continue
			}
			fs = &FuncSpec{name: it.rest, pkg: pkg, loops: map[string]*LoopSpec{}, ghost: map[string][]*Ghost{}, opts: map[string]string{}, file: file, line: line}
			lp, lem, prop = nil, nil, nil
			at = "entry"
			inLp = false
			key := pkg + "." + it.rest
			if it.kw == "extern" {
				fs.extern = true
				fs.trusted = "external function, contract assumed"
				key = it.rest
				fs.pkg = ""
			}
			if s.funcs[key] != nil {
				return fmt.Errorf("%s:%d: duplicate contract for %s", file, line, key)
			}
			s.funcs[key] = fs
		case "requires":
			if lem != nil {
				lem.requires = append(lem.requires, clause(it.rest))
			} else {
				fs.requires = append(fs.requires, clause(it.rest))
			}
		case "ghost":
			ps, _ := params("(" + it.rest + ")")
			fs.ghosts = append(fs.ghosts, ps...)
		case "give":
			kv := strings.SplitN(it.rest, "=", 2)
			if fs.give == nil {
				fs.give = map[string]ast.Expr{}
			}
			fs.give[strings.TrimSpace(kv[0])] = expr(strings.TrimSpace(kv[1]))
		case "assumes":
			fs.assumed = append(fs.assumed, clause(it.rest))
		case "closed":
			cl := clause(it.rest)
			if !closedForm(cl.expr) {
				return fmt.Errorf("%s:%d: a closed clause is made of forall, ==>, && and wf", file, cl.line)
			}
			fs.closed = append(fs.closed, cl)
		case "ensures":
			if lem != nil {
				lem.ensures = append(lem.ensures, clause(it.rest))
			} else {
				fs.ensures = append(fs.ensures, clause(it.rest))
			}
		case "modifies":
			for _, p := range splitTop(it.rest, ',') {
				cl := clause(strings.TrimSpace(p))
				if inLp {
					lp.mods = append(lp.mods, cl.expr)
				} else {
					fs.modifies = append(fs.modifies, cl)
				}
			}
		case "loop":
			lp = &LoopSpec{ghost: map[string][]*Ghost{}}
			fs.loops[strings.TrimSuffix(it.rest, ":")] = lp
			inLp = true
			at = "begin"
		case "invariant":
			lp.invs = append(lp.invs, clause(it.rest))
		case "unroll":
			fmt.Sscanf(it.rest, "%d", &lp.unroll)
		case "decreases":
			var es []ast.Expr
			for _, p := range splitTop(it.rest, ',') {
				es = append(es, expr(p))
			}
			if lem != nil {
				lem.decr = es
			} else if inLp {
				lp.decr = es
			} else {
				fs.decr = es
			}
		case "at":
			at = strings.TrimSuffix(it.rest, ":")
			if strings.Contains(at, " assert") || strings.Contains(at, " use") {
				panic("ghost step on the line of its place")
			}
			if strings.HasPrefix(at, "func ") {
				at = strings.TrimPrefix(at, "func ")
				inLp = false
			}
			if inLp && !(at == "before" || at == "begin" || at == "end" || at == "exit") || !inLp && !(at == "entry" || at == "return" || strings.HasPrefix(at, "after ") || strings.HasPrefix(at, "before ")) {
				return fmt.Errorf("%s:%d: unknown place %s", file, line, at)
			}
		case "assert", "use", "assume", "induct", "cases":
			g := &Ghost{kind: it.kw, text: it.rest}
			cl := clause(it.rest)
			g.expr = cl.expr
			g.name = cl.label
			if lem != nil {
				lem.ghost = append(lem.ghost, g)
			} else if inLp {
				lp.ghost[at] = append(lp.ghost[at], g)
			} else {
				fs.ghost[at] = append(fs.ghost[at], g)
			}
		case "spec":
			fs, lp, lem, prop = nil, nil, nil, nil
			rest := it.rest
			sf := &SpecFunc{pkg: pkg, file: file, line: line}
			switch {
			case strings.HasPrefix(rest, "rec "):
				sf.rec = true
				rest = strings.TrimSpace(rest[4:])
			case strings.HasPrefix(rest, "opaque "):
				sf.rec, sf.opaque = true, true
				rest = strings.TrimSpace(rest[7:])
			case strings.HasPrefix(rest, "hidden "):
				sf.rec, sf.opaque, sf.hidden = true, true, true
				rest = strings.TrimSpace(rest[7:])
			case strings.HasPrefix(rest, "func "):
				rest = strings.TrimSpace(rest[5:])
			}
			j := strings.Index(rest, "(")
			sf.name = strings.TrimSpace(rest[:j])
			ps, tail := params(rest[j:])
			sf.params = ps
			rt := tail
			if k := strings.Index(tail, "="); k >= 0 {
				rt = strings.TrimSpace(tail[:k])
				sf.body = expr(tail[k+1:])
			}
			sf.result = expr(rt)
			if s.specs[sf.name] != nil {
				return fmt.Errorf("%s:%d: duplicate spec function %s", file, line, sf.name)
			}
			s.specs[sf.name] = sf
		case "lemma":
			fs, lp, prop = nil, nil, nil
			j := strings.Index(it.rest, "(")
			lem = &Lemma{name: strings.TrimSpace(it.rest[:j]), pkg: pkg, file: file, line: line}
			lem.params, _ = params(it.rest[j:])
			lem.order = len(s.lemmas)
			if s.lemmas[lem.name] != nil {
				return fmt.Errorf("%s:%d: duplicate lemma %s", file, line, lem.name)
			}
			s.lemmas[lem.name] = lem
		case "ih":
			lem.ih = append(lem.ih, clause(it.rest))
		case "pattern":
			for _, p := range splitTop(it.rest, ',') {
				lem.pats = append(lem.pats, expr(p))
			}
		case "axiom":
			cl := clause(it.rest)
			s.axioms = append(s.axioms, &Axiom{name: cl.label, pkg: pkg, expr: cl.expr, text: cl.text})
		case "property":
			fs, lp, lem = nil, nil, nil
			j := strings.Index(it.rest, ":")
			id := strings.TrimSpace(it.rest[:j])
			prop = s.props[id]
			if prop == nil {
				prop = &Property{id: id, pkg: pkg}
				s.props[id] = prop
			}
			for _, f := range splitTop(it.rest[j+1:], ',') {
				if f = strings.TrimSpace(f); f != "" {
					if !strings.Contains(f, "/") {
						f = pkg + "." + f
					}
					prop.funcs = append(prop.funcs, f)
				}
			}
		case "lemmas":
			for _, f := range strings.Split(it.rest, ",") {
				prop.lemmas = append(prop.lemmas, strings.TrimSpace(f))
			}
		case "note":
			prop.notes = append(prop.notes, it.rest)
		case "option":
			kv := strings.SplitN(it.rest, "=", 2)
			v := "true"
			if len(kv) == 2 {
				v = strings.TrimSpace(kv[1])
			}
			if lem != nil {
				lem.sameHeap = lem.sameHeap || kv[0] == "sameheap"
				lem.absMul = lem.absMul || kv[0] == "abstractmul"
				lem.tables = lem.tables || kv[0] == "tables"
				if strings.TrimSpace(kv[0]) == "reveal" {
					lem.reveal = append(lem.reveal, strings.Fields(v)...)
				}
				continue
			}
			fs.opts[strings.TrimSpace(kv[0])] = v
		case "inline":
			fs.inline = true
		case "pure":
			fs.pure = true
		}
	}
	return nil
}

func splitTop(s string, sep rune) []string {
	var out []string
	d := 0
	start := 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	return append(out, s[start:])
}

// ---------------------------------------------------------------- expressions

type tok struct {
	t   token.Token
	lit string
	pos int
}

type sparser struct {
	toks []tok
	i    int
	src  string
}

func parseSpecExpr(src string) ast.Expr {
	fs := token.NewFileSet()
	f := fs.AddFile("", fs.Base(), len(src))
	var sc scanner.Scanner
	sc.Init(f, []byte(src), func(token.Position, string) {}, 0)
	p := &sparser{src: src}
	for {
		pos, t, lit := sc.Scan()
		if t == token.SEMICOLON && lit == "\n" {
			continue
		}
		p.toks = append(p.toks, tok{t, lit, int(pos) - f.Base()})
		if t == token.EOF {
			break
		}
	}
	e := p.expr()
	if p.peek().t != token.EOF {
		panic(fmt.Sprintf("unexpected %q in %q", p.src[p.peek().pos:], src))
	}
	return e
}

func (p *sparser) peek() tok { return p.toks[p.i] }
func (p *sparser) peekN(n int) tok {
	if p.i+n < len(p.toks) {
		return p.toks[p.i+n]
	}
	return p.toks[len(p.toks)-1]
}
func (p *sparser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *sparser) accept(t token.Token) bool {
	if p.peek().t == t {
		p.i++
		return true
	}
	return false
}
func (p *sparser) expect(t token.Token) tok {
	if p.peek().t != t {
		panic(fmt.Sprintf("expected %s at %q in %q", t, p.src[p.peek().pos:], p.src))
	}
	return p.next()
}

func call(name string, args ...ast.Expr) ast.Expr {
	return &ast.CallExpr{Fun: ast.NewIdent(name), Args: args}
}

func (p *sparser) isImp() bool {
	a, b := p.peek(), p.peekN(1)
	return a.t == token.EQL && b.t == token.GTR && b.pos == a.pos+2
}
func (p *sparser) isIff() bool {
	a, b, c := p.peek(), p.peekN(1), p.peekN(2)
	return a.t == token.LEQ && b.t == token.ASSIGN && c.t == token.GTR && b.pos == a.pos+2 && c.pos == b.pos+1
}

func (p *sparser) expr() ast.Expr {
	l := p.ternary()
	for p.isIff() {
		p.i += 3
		r := p.ternary()
		l = call("iff'", l, r)
	}
	return l
}

func (p *sparser) ternary() ast.Expr {
	c := p.impl()
	if p.peek().t == token.ILLEGAL && p.peek().lit == "?" {
		p.next()
		a := p.ternary()
		p.expect(token.COLON)
		b := p.ternary()
		return call("ite'", c, a, b)
	}
	return c
}

func (p *sparser) impl() ast.Expr {
	l := p.orE()
	if p.isImp() {
		p.i += 2
		return call("imp'", l, p.impl())
	}
	return l
}

func (p *sparser) orE() ast.Expr {
	l := p.andE()
	for p.accept(token.LOR) {
		l = &ast.BinaryExpr{X: l, Op: token.LOR, Y: p.andE()}
	}
	return l
}
func (p *sparser) andE() ast.Expr {
	l := p.cmpE()
	for p.accept(token.LAND) {
		l = &ast.BinaryExpr{X: l, Op: token.LAND, Y: p.cmpE()}
	}
	return l
}
func (p *sparser) cmpE() ast.Expr {
	l := p.addE()
	var out ast.Expr
	for {
		t := p.peek().t
		switch t {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if p.isImp() || p.isIff() {
				goto done
			}
			p.next()
			r := p.addE()
			c := &ast.BinaryExpr{X: l, Op: t, Y: r}
			if out == nil {
				out = c
			} else {
				out = &ast.BinaryExpr{X: out, Op: token.LAND, Y: c}
			}
			l = r
		default:
			if t == token.IDENT && p.peek().lit == "in" {
				p.next()
				r := p.addE()
				out = call("in'", l, r)
				l = r
				continue
			}
			goto done
		}
	}
done:
	if out == nil {
		return l
	}
	return out
}
func (p *sparser) addE() ast.Expr {
	l := p.mulE()
	for {
		switch t := p.peek().t; t {
		case token.ADD, token.SUB, token.OR, token.XOR:
			p.next()
			l = &ast.BinaryExpr{X: l, Op: t, Y: p.mulE()}
		default:
			return l
		}
	}
}
func (p *sparser) mulE() ast.Expr {
	l := p.unary()
	for {
		switch t := p.peek().t; t {
		case token.MUL, token.QUO, token.REM, token.SHL, token.SHR, token.AND, token.AND_NOT:
			p.next()
			l = &ast.BinaryExpr{X: l, Op: t, Y: p.unary()}
		default:
			return l
		}
	}
}
func (p *sparser) unary() ast.Expr {
	switch t := p.peek(); t.t {
	case token.NOT, token.SUB, token.ADD, token.XOR, token.AND:
		p.next()
		return &ast.UnaryExpr{Op: t.t, X: p.unary()}
	case token.MUL:
		p.next()
		return &ast.StarExpr{X: p.unary()}
	}
	return p.primary()
}

func (p *sparser) primary() ast.Expr {
	var e ast.Expr
	t := p.next()
	switch t.t {
	case token.INT, token.FLOAT, token.CHAR, token.STRING:
		e = &ast.BasicLit{Kind: t.t, Value: t.lit}
	case token.IDENT:
		if t.lit == "forall" || t.lit == "exists" {
			return p.quant(t.lit)
		}
		e = ast.NewIdent(t.lit)
	case token.LPAREN:
		e = &ast.ParenExpr{X: p.expr()}
		p.expect(token.RPAREN)
	case token.LBRACK:
		// type: []T or [N]T
		if p.accept(token.RBRACK) {
			e = &ast.ArrayType{Elt: p.unary()}
		} else {
			n := p.expr()
			p.expect(token.RBRACK)
			e = &ast.ArrayType{Len: n, Elt: p.unary()}
		}
	case token.MAP:
		p.expect(token.LBRACK)
		k := p.unary()
		p.expect(token.RBRACK)
		e = &ast.MapType{Key: k, Value: p.unary()}
	case token.FUNC:
		e = ast.NewIdent("func")
	default:
		panic(fmt.Sprintf("unexpected token %s %q in %q", t.t, t.lit, p.src))
	}
	for {
		switch p.peek().t {
		case token.PERIOD:
			p.next()
			if p.accept(token.LPAREN) {
				// type assertion
				ty := p.expr()
				p.expect(token.RPAREN)
				e = &ast.TypeAssertExpr{X: e, Type: ty}
				continue
			}
			n := p.next()
			e = &ast.SelectorExpr{X: e, Sel: ast.NewIdent(n.lit)}
		case token.LPAREN:
			p.next()
			var args []ast.Expr
			for p.peek().t != token.RPAREN {
				args = append(args, p.expr())
				if !p.accept(token.COMMA) {
					break
				}
			}
			p.expect(token.RPAREN)
			e = &ast.CallExpr{Fun: e, Args: args}
		case token.LBRACK:
			p.next()
			var lo, hi ast.Expr
			if p.peek().t == token.COLON {
				p.next()
				if p.peek().t != token.RBRACK {
					hi = p.addE()
				}
				p.expect(token.RBRACK)
				e = &ast.SliceExpr{X: e, Low: lo, High: hi}
				continue
			}
			lo = p.expr()
			if p.accept(token.COLON) {
				if p.peek().t != token.RBRACK {
					hi = p.addE()
				}
				p.expect(token.RBRACK)
				e = &ast.SliceExpr{X: e, Low: lo, High: hi}
				continue
			}
			p.expect(token.RBRACK)
			e = &ast.IndexExpr{X: e, Index: lo}
		default:
			return e
		}
	}
}

// quantifiers are encoded as call forall'(FuncType params, pats..., body)
func (p *sparser) quant(kind string) ast.Expr {
	var fields []*ast.Field
	for {
		var names []*ast.Ident
		names = append(names, ast.NewIdent(p.expect(token.IDENT).lit))
		for p.accept(token.COMMA) {
			names = append(names, ast.NewIdent(p.expect(token.IDENT).lit))
			if p.peek().t != token.COMMA && p.peek().t != token.COLON {
				break
			}
		}
		var ty ast.Expr = ast.NewIdent("int")
		if p.peek().t != token.COLON && p.peek().t != token.COMMA {
			ty = p.unary()
		}
		fields = append(fields, &ast.Field{Names: names, Type: ty})
		if !p.accept(token.COMMA) {
			break
		}
	}
	p.expect(token.COLON)
	p.expect(token.COLON)
	var pats []ast.Expr
	for p.peek().t == token.LBRACE {
		p.next()
		var mp []ast.Expr
		for p.peek().t != token.RBRACE {
			mp = append(mp, p.expr())
			if !p.accept(token.COMMA) {
				break
			}
		}
		p.expect(token.RBRACE)
		pats = append(pats, &ast.CompositeLit{Elts: mp})
	}
	body := p.expr()
	args := []ast.Expr{&ast.FuncType{Params: &ast.FieldList{List: fields}}, body}
	args = append(args, pats...)
	return &ast.CallExpr{Fun: ast.NewIdent(kind + "'"), Args: args}
}

// closedForm: the clause only says that values in memory are well formed,
// which holds in every state of a Go program
func closedForm(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return closedForm(x.X)
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		if !ok {
			return false
		}
		switch id.Name {
		case "wf":
			return true
		case "forall'":
			return closedForm(x.Args[1])
		case "imp'":
			return closedForm(x.Args[1])
		}
	case *ast.BinaryExpr:
		return x.Op == token.LAND && closedForm(x.X) && closedForm(x.Y)
	}
	return false
}
