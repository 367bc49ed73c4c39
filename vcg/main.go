package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

var symMu sync.Mutex

type ObRes struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Text   string `json:"text,omitempty"`
	Solver string `json:"solver,omitempty"`
	Ms     int64  `json:"ms"`
	OK     bool   `json:"ok"`
	Out    string `json:"out,omitempty"`
	Query  string `json:"-"`
}

type FnRes struct {
	Name        string   `json:"name"`
	Kind        string   `json:"kind"`
	Obs         []*ObRes `json:"obligations"`
	Err         string   `json:"error,omitempty"`
	Dropped     []string `json:"dropped,omitempty"`
	Assumptions []string `json:"assumptions,omitempty"`
	Inlined     []string `json:"inlined,omitempty"`
	Used        []string `json:"used,omitempty"`
	Warn        []string `json:"warn,omitempty"`
	Vacuous     []string `json:"vacuous,omitempty"`
	DropUser    []string `json:"dropped_user,omitempty"`
	DropWhy     []string `json:"dropped_why,omitempty"`
	Ms          int64    `json:"ms"`
}

func (f *FnRes) failed() []*ObRes {
	var out []*ObRes
	for _, o := range f.Obs {
		if !o.OK {
			out = append(out, o)
		}
	}
	return out
}

// generate runs the symbolic execution of a function
func generate(w *World, fd *FuncDecl, disabled map[string]bool) (c *Ctx, err error) {
	symMu.Lock()
	defer symMu.Unlock()
	c = newCtx(w, fd)
	c.disabled = disabled
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(unsupportedErr); ok {
				err = fmt.Errorf("%s (near %s)", e.Error(), c.where(c.lastPos))
				return
			}
			err = fmt.Errorf("internal error: %v\n%s", r, debug.Stack())
		}
	}()
	st, fr := c.initState(fd)
	c.entry = st.clone()
	c.entryFr = fr
	spec := fd.spec
	c.mathInt = spec.opts["math"] == "true"
	names := map[string]*SVal{}
	for v, x := range st.vars {
		if tv, ok := x.(*TV); ok {
			t := tv.t
			if c.isHeapified(fr, v) {
				t = c.term(c.loadLoc(st, c.varLoc(st, fr, v)))
			}
			isRes := false
			for _, r := range fr.results {
				if r == v {
					isRes = true
				}
			}
			if !isRes {
				names[v.Name()] = &SVal{t: t, typ: v.Type()}
			}
		}
	}
	env := &Env{c: c, names: names, st: st, old: c.entry, pkg: fd.pkg}
	c.ghosts = map[string]*SVal{}
	for _, g := range spec.ghosts {
		t := env.typ(g.typ)
		v := c.fresh("ghost_"+g.name, c.sortOf(t))
		c.assume(st, c.typeFact(v, t, st.alloc))
		c.ghosts[g.name] = &SVal{t: v, typ: t}
	}
	for _, r := range spec.requires {
		c.assume(st, env.boolClause(r, true))
	}
	for _, r := range spec.closed {
		c.assume(st, env.boolClause(r, true))
	}
	for _, m := range spec.modifies {
		if id, ok := m.expr.(*ast.Ident); ok && id.Name == "everything" {
			c.modAll = true
			continue
		}
		c.modSet = append(c.modSet, env.modEntries(m.expr)...)
	}
	c.cover = append(c.cover, coverPt{"precondition", len(c.log), tTrue})
	c.lastPos = fd.decl.Body.Lbrace + 1
	c.ghostAt(st, fr, "entry")
	c.block(st, fr, fd.decl.Body.List)
	if !st.dead() {
		c.doReturn(st, fr, nil, fd.decl.Body.Rbrace)
	}
	for i, ex := range fr.exits {
		if ex.st.dead() {
			continue
		}
		nm := map[string]*SVal{}
		for k, v := range names {
			nm[k] = v
		}
		for j, r := range fr.results {
			v := ex.vals[j]
			var sv *SVal
			if lp, ok := v.(*LocPtr); ok {
				sv = &SVal{val: lp, typ: r.Type()}
			} else if fv, ok := v.(*FuncVal); ok {
				sv = &SVal{t: c.funcConst(fv), typ: r.Type()}
			} else {
				sv = &SVal{t: c.name(c.term(v), "ret"), typ: r.Type()}
			}
			if r.Name() != "" {
				nm[r.Name()] = sv
			}
			nm[fmt.Sprintf("result%d", j)] = sv
			if _, isParam := names["result"]; j == 0 && !isParam {
				nm["result"] = sv
			}
		}
		c.cover = append(c.cover, coverPt{fmt.Sprintf("exit%d", i), len(c.log), ex.st.pc})
		xe := &Env{c: c, names: nm, st: ex.st, old: c.entry, pkg: fd.pkg}
		c.lastPos = ex.pos
		// ghost steps before the exit see the local variables and the results
		for _, g := range spec.ghost["return"] {
			ge := &Env{c: c, names: map[string]*SVal{}, st: ex.st, old: c.entry, fr: fr, scopeP: ex.pos, pkg: fd.pkg}
			for k, v := range nm {
				if strings.HasPrefix(k, "result") {
					ge.names[k] = v
				}
			}
			c.ghostStep(ex.st, ge, g, fr)
		}
		for _, en := range spec.ensures {
			c.oblige(ex.st, "ensures", clauseName(en), xe.boolClause(en, false), ex.pos, en.text+" at "+c.where(ex.pos))
		}
	}
	return c, nil
}

var stagesUser = []stage{{"z3-ne", 4}, {"z3-old-ne", 4}, {"cvc5", 6}, {"z3-ned", 3}, {"z3-ne2", 3}, {"z3-old-r0", 3}, {"z3-new", 4}, {"z3-old", 4}, {"z3-new-mbqi", 4}}

// development: the search for a contradiction in the hypotheses, all solvers
var smokeStages = []stage{{"z3-new-mbqi", 8}, {"z3-ne", 4}, {"cvc5", 5}, {"z3-old-ne", 4}, {"z3-new", 4}}
var stagesAuto = []stage{{"z3-new", 1}}
var stagesSafety = []stage{{"z3-new", 4}, {"z3-old", 4}, {"cvc5", 6}, {"z3-new-mbqi", 4}}

type verifier struct {
	w     *World
	s     *Solver
	dump  string
	hints map[string]string // fn/obligation -> solver that discharges it
}

func (v *verifier) solveOb(c *Ctx, o *Ob, stages []stage) {
	if o.ok {
		return
	}
	q := c.query(o.prefix, o.goal)
	if v.dump != "" {
		os.WriteFile(filepath.Join(v.dump, sanitize(c.fnName+"."+o.name)+".smt2"), []byte(q), 0o644)
	}
	var r solveRes
	var parts []*Term
	hint := v.hints[c.fnName+"/"+o.name]
	split := strings.HasSuffix(hint, " (split)")
	first := strings.TrimSuffix(hint, " (split)")
	if len(stages) > 1 && first != "" {
		reord := []stage{}
		for _, st := range stages {
			if st.solver == first {
				reord = append([]stage{{st.solver, st.sec + 3}}, reord...)
			} else {
				reord = append(reord, st)
			}
		}
		stages = reord
	}
	if len(stages) > 1 && o.pc != nil {
		cases := c.pcCases(o.pc, 16)
		for _, g := range goalParts(o.body) {
			for _, k := range cases {
				parts = append(parts, imp(k, g))
			}
		}
	}
	if len(parts) > 1 && len(parts) <= 48 {
		// first the whole goal, then case by case
		r = solveRes{res: "unknown"}
		if !split {
			r = v.s.run(q, stages[:3])
		}
		if r.res == "unknown" {
			total := r.ms
			ok := true
			solver := ""
			for _, p := range parts {
				q2 := c.query(o.prefix, p)
				r = v.s.run(q2, stages)
				total += r.ms
				if r.res != "unsat" {
					ok = false
					q = q2
					break
				}
				solver = r.solver
			}
			if ok {
				r.solver = solver + " (split)"
				r.res = "unsat"
			}
			r.ms = total
		}
	} else {
		r = v.s.run(q, stages)
	}
	if v.dump != "" && r.res != "unsat" {
		os.WriteFile(filepath.Join(v.dump, sanitize(c.fnName+"."+o.name)+".smt2"), []byte(q), 0o644)
	}
	o.ok = r.res == "unsat"
	o.solver = r.solver
	o.ms = r.ms
	o.out = r.res + "\n" + r.out
	o.query = q
}

func (v *verifier) solveAll(c *Ctx, obs []*Ob, stages func(o *Ob) []stage) {
	var wg sync.WaitGroup
	for _, o := range obs {
		if o.ok {
			continue
		}
		wg.Add(1)
		go func(o *Ob) {
			defer wg.Done()
			v.solveOb(c, o, stages(o))
		}(o)
	}
	wg.Wait()
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (v *verifier) verify(fd *FuncDecl) *FnRes {
	t0 := time.Now()
	res := &FnRes{Name: strings.TrimPrefix(fd.pkg.path, "github.com/benoitkugler/textprocessing/") + "." + fd.name, Kind: "func"}
	defer func() { res.Ms = time.Since(t0).Milliseconds() }()
	disabled := map[string]bool{}
	var c *Ctx
	for round := 0; ; round++ {
		var err error
		c, err = generate(v.w, fd, disabled)
		if c != nil {
			c.fnName = res.Name
			res.Warn = c.warn
			res.Assumptions = keys(c.assumptions)
			res.Inlined = keys(c.inlined)
			res.Used = keys(c.usedContracts)
		}
		if err != nil {
			res.Err = err.Error()
			return res
		}
		var soft []*Ob
		for _, o := range c.obs {
			if o.soft != "" {
				soft = append(soft, o)
			}
		}
		v.solveAll(c, soft, func(o *Ob) []stage {
			if strings.HasPrefix(o.soft, "auto:") {
				return stagesAuto
			}
			return stagesUser
		})
		n := 0
		for _, o := range soft {
			if !o.ok && !disabled[o.soft] {
				disabled[o.soft] = true
				n++
				if !strings.HasPrefix(o.soft, "auto:") {
					res.DropWhy = append(res.DropWhy, fmt.Sprintf("round %d: %s %s [%s]", round, o.name, o.text, short(strings.ReplaceAll(strings.TrimSpace(o.out), "\n", " | "))))
					if v.dump != "" {
						os.WriteFile(filepath.Join(v.dump, fmt.Sprintf("DROP%d.%s.smt2", round, sanitize(c.fnName+"."+o.name))), []byte(o.query), 0o644)
					}
				}
			}
		}
		if n == 0 || round > 12 {
			break
		}
	}
	v.solveAll(c, c.obs, func(o *Ob) []stage { return stagesUser })
	for _, o := range c.obs {
		r := &ObRes{Name: o.name, Kind: o.kind, Text: o.text, Solver: o.solver, Ms: o.ms, OK: o.ok, Query: o.query}
		if !o.ok {
			r.Out = o.out
		}
		res.Obs = append(res.Obs, r)
	}
	for k := range disabled {
		if strings.HasPrefix(k, "auto:") {
			res.Dropped = append(res.Dropped, k)
		} else {
			res.DropUser = append(res.DropUser, k)
		}
	}
	sort.Strings(res.Dropped)
	sort.Strings(res.DropUser)
	v.covers(c, res)
	return res
}

func (v *verifier) covers(c *Ctx, res *FnRes) {
	// vacuity: the precondition is satisfiable and an exit is reachable
	exits, dead := 0, 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, cp := range c.cover {
		wg.Add(1)
		go func(cp coverPt) {
			defer wg.Done()
			st := []stage{{"z3-new", 1}}
			if os.Getenv("VCG_SMOKE") != "" { // development: a longer search for a contradiction
				st = smokeStages
			}
			r := v.s.run(c.query(cp.prefix, not(cp.pc)), st)
			mu.Lock()
			defer mu.Unlock()
			isExit := strings.HasPrefix(cp.name, "exit")
			if isExit {
				exits++
			}
			if r.res == "unsat" {
				if isExit {
					dead++
					if os.Getenv("VCG_SMOKE") != "" {
						fmt.Println("     DEAD", res.Name, cp.name, r.solver)
					}
				} else {
					res.Vacuous = append(res.Vacuous, cp.name+" is contradictory")
				}
			}
		}(cp)
	}
	wg.Wait()
	if exits > 0 && dead == exits {
		res.Vacuous = append(res.Vacuous, "no exit is reachable")
	}
}

func (v *verifier) lemma(l *Lemma) *FnRes {
	t0 := time.Now()
	res := &FnRes{Name: "lemma " + l.name, Kind: "lemma"}
	defer func() { res.Ms = time.Since(t0).Milliseconds() }()
	if l.trusted != "" {
		res.Assumptions = []string{"lemma " + l.name + " assumed: " + l.trusted}
		return res
	}
	c := newCtx(v.w, nil)
	c.fnName = res.Name
	func() {
		symMu.Lock()
		defer symMu.Unlock()
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(unsupportedErr); ok {
					res.Err = e.Error()
					return
				}
				res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
			}
		}()
		c.verifyLemma(l)
	}()
	if res.Err != "" {
		return res
	}
	v.solveAll(c, c.obs, func(o *Ob) []stage { return stagesUser })
	for _, o := range c.obs {
		r := &ObRes{Name: o.name, Kind: o.kind, Text: o.text, Solver: o.solver, Ms: o.ms, OK: o.ok, Query: o.query}
		if !o.ok {
			r.Out = o.out
		}
		res.Obs = append(res.Obs, r)
	}
	res.Used = keys(c.usedContracts)
	res.Assumptions = keys(c.assumptions)
	v.covers(c, res)
	return res
}

type Report struct {
	Property string           `json:"property"`
	Fns      []*FnRes         `json:"functions"`
	Missing  []string         `json:"missing,omitempty"`
	Solvers  map[string]int   `json:"discharged_by"`
	SolverMs map[string]int64 `json:"solver_ms"`
	Total    int              `json:"obligations"`
	OK       int              `json:"discharged"`
	Wall     float64          `json:"wall_s"`
	Err      string           `json:"error,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contracts")
	prop := flag.String("prop", "", "property")
	fn := flag.String("func", "", "verify only this function (suffix match)")
	dump := flag.String("dump", "", "directory for the queries")
	outF := flag.String("out", "", "JSON report")
	scale := flag.Int("scale", 1, "timeout scale")
	par := flag.Int("par", 8, "parallel solvers")
	retry := flag.Int("retry", 0, "verify the failing functions again with timeouts multiplied by this")
	budget := flag.Int("budget", 0, "wall clock limit in seconds")
	wHints := flag.Bool("write-hints", false, "update hints.json with the solvers that discharged the obligations")
	verbose := flag.Bool("v", false, "list every obligation")
	nocallee := flag.Bool("only", false, "do not verify the callees")
	list := flag.Bool("list", false, "list the properties")
	loops := flag.String("loops", "", "list the loops of a function")
	flag.Parse()
	t0 := time.Now()
	specs, err := parseSpecs(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *list {
		var ids []string
		for id := range specs.props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, strings.Join(specs.props[id].funcs, " "))
		}
		return
	}
	rep := &Report{Property: *prop}
	write := func() {
		rep.Wall = time.Since(t0).Seconds()
		if *outF != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*outF, b, 0o644)
		}
	}
	paths := map[string]bool{}
	for _, p := range specs.pkgs {
		if strings.HasPrefix(p, "github.com/benoitkugler/textprocessing") {
			paths[p] = true
		}
	}
	w, err := loadWorld(*repo, keys(paths))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		rep.Err = err.Error()
		write()
		os.Exit(3)
	}
	w.specs = specs
	for _, fd := range w.funcs {
		fd.spec = specs.funcs[fd.pkg.path+"."+fd.name]
	}
	_ = loops
	s := newSolver(*scale, *par)
	defer s.close()
	if *budget > 0 {
		s.deadline = t0.Add(time.Duration(*budget) * time.Second)
	}
	v := &verifier{w: w, s: s, dump: *dump, hints: map[string]string{}}
	hintsFile := filepath.Join(*dir, "hints.json")
	if b, err := os.ReadFile(hintsFile); err == nil {
		json.Unmarshal(b, &v.hints)
	}
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
	}
	var todo []string
	var lemmas []string
	if *fn != "" {
		for _, f := range strings.Split(*fn, ",") {
			found := false
			for k := range specs.funcs {
				if strings.HasSuffix(k, f) && (strings.HasSuffix(k, "."+f) || strings.HasSuffix(k, "/"+f) || k == f) {
					todo = append(todo, k)
					found = true
				}
			}
			for k := range specs.lemmas {
				if k == f {
					lemmas = append(lemmas, k)
					found = true
				}
			}
			if !found {
				fmt.Println("no contract matches", f)
			}
		}
	} else if *prop == "all" {
		for k, f := range specs.funcs {
			if !f.extern && f.trusted == "" && (!f.inline || len(f.ensures) > 0) {
				todo = append(todo, k)
			}
		}
		for k := range specs.lemmas {
			lemmas = append(lemmas, k)
		}
		sort.Strings(todo)
	} else {
		p := specs.props[*prop]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *prop)
			os.Exit(3)
		}
		todo = append(todo, p.funcs...)
		lemmas = append(lemmas, p.lemmas...)
	}
	// worklist
	done := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var add func(name string)
	var addLemma func(name string)
	addLemma = func(name string) {
		mu.Lock()
		defer mu.Unlock()
		if done["lemma "+name] {
			return
		}
		done["lemma "+name] = true
		l := specs.lemmas[name]
		if l == nil {
			rep.Missing = append(rep.Missing, "lemma "+name)
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := v.lemma(l)
			mu.Lock()
			rep.Fns = append(rep.Fns, r)
			mu.Unlock()
			for _, u := range r.Used {
				if strings.HasPrefix(u, "lemma ") {
					addLemma(strings.TrimPrefix(u, "lemma "))
				}
			}
		}()
	}
	add = func(name string) {
		mu.Lock()
		defer mu.Unlock()
		if done[name] {
			return
		}
		done[name] = true
		fd := w.byName[name]
		if fd == nil || fd.decl.Body == nil {
			rep.Missing = append(rep.Missing, name)
			return
		}
		if fd.spec == nil {
			rep.Missing = append(rep.Missing, name+" (no contract)")
			return
		}
		if fd.spec.trusted != "" || fd.spec.inline && len(fd.spec.ensures) == 0 {
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := v.verify(fd)
			mu.Lock()
			rep.Fns = append(rep.Fns, r)
			mu.Unlock()
			if !*nocallee {
				for _, u := range r.Used {
					if strings.HasPrefix(u, "lemma ") {
						addLemma(strings.TrimPrefix(u, "lemma "))
						continue
					}
					add(u)
				}
			}
		}()
	}
	for _, f := range todo {
		add(f)
	}
	for _, l := range lemmas {
		addLemma(l)
	}
	wg.Wait()
	if *retry > 1 {
		for i, r := range rep.Fns {
			if len(r.failed()) == 0 || r.Err != "" || (*budget > 0 && time.Now().After(s.deadline)) {
				continue
			}
			s.scale = *scale * *retry
			var r2 *FnRes
			if r.Kind == "lemma" {
				r2 = v.lemma(specs.lemmas[strings.TrimPrefix(r.Name, "lemma ")])
			} else {
				r2 = v.verify(w.byName["github.com/benoitkugler/textprocessing/"+r.Name])
			}
			s.scale = *scale
			if len(r2.failed()) < len(r.failed()) || len(r2.failed()) == 0 {
				rep.Fns[i] = r2
			}
		}
	}
	if *wHints {
		for _, r := range rep.Fns {
			for k := range v.hints {
				if strings.HasPrefix(k, r.Name+"/") {
					delete(v.hints, k)
				}
			}
			for _, o := range r.Obs {
				for id, def := range solvers {
					if o.OK && (o.Solver == def.name || o.Solver == def.name+" (split)") && o.Solver != solvers[stagesUser[0].solver].name {
						h := id
						if strings.HasSuffix(o.Solver, " (split)") {
							h += " (split)"
						}
						v.hints[r.Name+"/"+o.Name] = h
					}
				}
			}
		}
		b, _ := json.MarshalIndent(v.hints, "", " ")
		os.WriteFile(hintsFile, append(b, '\n'), 0o644)
	}
	sort.Slice(rep.Fns, func(i, j int) bool { return rep.Fns[i].Name < rep.Fns[j].Name })
	bad := len(rep.Missing) > 0
	for _, m := range rep.Missing {
		fmt.Println("MISSING", m)
	}
	for _, r := range rep.Fns {
		st := "ok"
		f := r.failed()
		if r.Err != "" || len(f) > 0 || len(r.Vacuous) > 0 {
			st = "FAIL"
			bad = true
		}
		fmt.Printf("%-4s %s: %d obligations, %d failed, %d ms\n", st, r.Name, len(r.Obs), len(f), r.Ms)
		if r.Err != "" {
			fmt.Println("     error:", r.Err)
		}
		for _, o := range f {
			fmt.Printf("     FAILED %s: %s [%s]\n", o.Name, o.Text, short(strings.ReplaceAll(strings.TrimSpace(o.Out), "\n", " | ")))
		}
		for _, x := range r.Vacuous {
			fmt.Println("     VACUOUS", x)
		}
		for _, x := range r.DropWhy {
			fmt.Println("     dropped:", x)
		}
		for _, x := range r.Warn {
			fmt.Println("     warning:", x)
		}
		if *verbose {
			for _, o := range r.Obs {
				fmt.Printf("       %v %s %s %dms %s\n", o.OK, o.Name, o.Solver, o.Ms, o.Text)
			}
			for _, x := range r.Dropped {
				fmt.Println("       dropped", x)
			}
			for _, x := range r.Assumptions {
				fmt.Println("       assumes", x)
			}
			for _, x := range r.Inlined {
				fmt.Println("       inlined", x)
			}
		}
		for _, o := range r.Obs {
			rep.Total++
			if o.OK {
				rep.OK++
			}
		}
	}
	s.stats["simplify"] = 0
	for _, r := range rep.Fns {
		for _, o := range r.Obs {
			if o.Solver == "simplify" {
				s.stats["simplify"]++
			}
		}
	}
	rep.Solvers = s.stats
	rep.SolverMs = s.timeMs
	write()
	fmt.Printf("%d/%d obligations discharged in %.1fs %v\n", rep.OK, rep.Total, time.Since(t0).Seconds(), s.stats)
	if bad {
		os.Exit(1)
	}
}

func short(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}
