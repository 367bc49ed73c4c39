package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Pkg is a type checked package of the repository.
type Pkg struct {
	path  string
	files []*ast.File
	types *types.Package
	info  *types.Info
	spec  *PkgSpec
}

type World struct {
	fset    *token.FileSet
	pkgs    map[string]*Pkg
	funcs   map[*types.Func]*FuncDecl
	byName  map[string]*FuncDecl // "pkgpath.(T).m" or "pkgpath.f"
	globals map[*types.Var]*globalInfo
	specs   *Specs
	repo    string
}

type FuncDecl struct {
	decl *ast.FuncDecl
	pkg  *Pkg
	obj  *types.Func
	name string // short: "(Charset).findLeafForward"
	spec *FuncSpec
}

type globalInfo struct {
	pkg      *Pkg
	init     ast.Expr
	mutable  bool
	addrUsed bool
}

type listPkg struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Standard   bool
	Error      *struct{ Err string }
}

func loadWorld(repo string, paths []string) (*World, error) {
	w := &World{fset: token.NewFileSet(), pkgs: map[string]*Pkg{}, funcs: map[*types.Func]*FuncDecl{}, byName: map[string]*FuncDecl{}, globals: map[*types.Var]*globalInfo{}, repo: repo}
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Standard,Error"}, paths...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	exports := map[string]string{}
	byPath := map[string]listPkg{}
	var order []string
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		byPath[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}
	gc := importer.ForCompiler(w.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := w.pkgs[path]; ok {
			return p.types, nil
		}
		return gc.Import(path)
	})
	const mod = "github.com/benoitkugler/textprocessing"
	for _, path := range order {
		lp := byPath[path]
		if path != mod && !strings.HasPrefix(path, mod+"/") {
			continue
		}
		if lp.Error != nil && len(lp.GoFiles) == 0 {
			return nil, fmt.Errorf("%s: %s", path, lp.Error.Err)
		}
		p := &Pkg{path: path}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(w.fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.files = append(p.files, af)
		}
		p.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp, GoVersion: "go1.16", Error: func(err error) {}}
		tp, err := conf.Check(path, w.fset, p.files, p.info)
		if err != nil {
			return nil, fmt.Errorf("type checking %s: %v", path, err)
		}
		p.types = tp
		w.pkgs[path] = p
		w.index(p)
	}
	for _, p := range w.pkgs {
		w.scanGlobals(p)
	}
	return w, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func funcShortName(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
		return t.String() + "." + f.Name()
	}
	return f.Name()
}

func (w *World) index(p *Pkg) {
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				obj, _ := p.info.Defs[d.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fd := &FuncDecl{decl: d, pkg: p, obj: obj, name: funcShortName(obj)}
				w.funcs[obj] = fd
				if d.Name.Name != "init" && d.Name.Name != "_" {
					w.byName[p.path+"."+fd.name] = fd
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						v, _ := p.info.Defs[n].(*types.Var)
						if v == nil {
							continue
						}
						gi := &globalInfo{pkg: p}
						if i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
							gi.init = vs.Values[i]
						}
						w.globals[v] = gi
					}
				}
			}
		}
	}
}

// scanGlobals marks the package variables which are written or whose address
// is taken anywhere in the loaded packages.
func (w *World) scanGlobals(p *Pkg) {
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.SliceExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if _, ok := p.info.Selections[x]; ok {
					e = x.X
					continue
				}
				if v, ok := p.info.Uses[x.Sel].(*types.Var); ok {
					if gi := w.globals[v]; gi != nil {
						gi.mutable = true
					}
				}
				return
			case *ast.Ident:
				if v, ok := p.info.Uses[x].(*types.Var); ok {
					if gi := w.globals[v]; gi != nil {
						gi.mutable = true
					}
				}
				return
			default:
				return
			}
		}
	}
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					for _, l := range n.Lhs {
						mark(l)
					}
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					if n.Key != nil {
						mark(n.Key)
					}
					if n.Value != nil {
						mark(n.Value)
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "delete") {
					if _, ok := p.info.Uses[id].(*types.Builtin); ok {
						mark(n.Args[0])
					}
				}
			}
			return true
		})
	}
}
