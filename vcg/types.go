package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("ptr.")
		case c == '[':
			b.WriteString("L")
		case c == ']':
			b.WriteString("R")
		case c == '/':
			b.WriteString("_")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

// canonType gives one type for identical types: without aliases, with uint8 for
// byte and int32 for rune
func canonType(t types.Type) types.Type {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Basic:
		if int(t.Kind()) < len(types.Typ) && types.Typ[t.Kind()] != nil {
			return types.Typ[t.Kind()]
		}
	case *types.Pointer:
		return types.NewPointer(canonType(t.Elem()))
	case *types.Slice:
		return types.NewSlice(canonType(t.Elem()))
	case *types.Array:
		return types.NewArray(canonType(t.Elem()), t.Len())
	case *types.Map:
		return types.NewMap(canonType(t.Key()), canonType(t.Elem()))
	case *types.Chan:
		return types.NewChan(t.Dir(), canonType(t.Elem()))
	}
	return t
}

func typeKey(t types.Type) string {
	t = canonType(t)
	if sg, ok := t.(*types.Signature); ok {
		// without the names of the parameters
		tup := func(l *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < l.Len(); i++ {
				vs = append(vs, types.NewVar(token.NoPos, nil, "", canonType(l.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		t = types.NewSignatureType(nil, nil, nil, tup(sg.Params()), tup(sg.Results()), sg.Variadic())
	}
	return sanitize(types.TypeString(t, func(p *types.Package) string {
		if strings.HasPrefix(p.Path(), "internal/") {
			return p.Path() // sync and internal/sync have types of the same name
		}
		return p.Name()
	}))
}

type structInfo struct {
	sort   string
	st     *types.Struct
	fields []string // selector names
	sorts  []string
}

func under(t types.Type) types.Type { return t.Underlying() }

// intInfo describes an integer type
func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// bvWidth returns the width for the types represented as bit vectors
func (c *Ctx) bvWidth(t types.Type) (int, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return 0, false
	}
	if n.Obj().Pkg() == nil {
		return 0, false
	}
	if c.w.specs.bv[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
		b, _, ok := intInfo(t)
		return b, ok
	}
	return 0, false
}

func (c *Ctx) sortOf(t types.Type) string {
	if st, ok := t.(*setType); ok {
		return arrSort(c.sortOf(st.key), "Bool")
	}
	if w, ok := c.bvWidth(t); ok {
		return fmt.Sprintf("(_ BitVec %d)", w)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Ptr"
		case u.Kind() == types.UnsafePointer:
			return "Ptr"
		}
	case *types.Pointer:
		return "Ptr"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return arrSort("Int", c.sortOf(u.Elem()))
	case *types.Struct:
		return c.structOf(t).sort
	case *types.Map:
		return "Ptr"
	case *types.Interface:
		return "Iface"
	case *types.Signature:
		return "Func"
	case *types.Chan:
		return "Ptr"
	}
	panic(unsupported("type " + t.String()))
}

func (c *Ctx) structOf(t types.Type) *structInfo {
	key := typeKey(t)
	if s, ok := c.structs[key]; ok {
		return s
	}
	st := under(t).(*types.Struct)
	si := &structInfo{sort: "S_" + key, st: st}
	c.structs[key] = si
	var b strings.Builder
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		nm := f.Name()
		if nm == "_" {
			nm = fmt.Sprintf("blank%d", i)
		}
		si.fields = append(si.fields, si.sort+"."+nm)
		si.sorts = append(si.sorts, c.sortOf(f.Type()))
		fmt.Fprintf(&b, " (%s %s)", si.fields[i], si.sorts[i])
	}
	if st.NumFields() == 0 {
		c.decls = append(c.decls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk-%s))))", si.sort, si.sort))
	} else {
		c.decls = append(c.decls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk-%s%s))))", si.sort, si.sort, b.String()))
	}
	return si
}

func (si *structInfo) get(v *Term, i int) *Term {
	if v.op == "mk-"+si.sort && len(v.args) > 0 {
		return v.args[i]
	}
	if v.op == "ite" && v.n < 60 {
		return ite(v.args[0], si.get(v.args[1], i), si.get(v.args[2], i))
	}
	return mk(si.sorts[i], si.fields[i], v)
}

func (si *structInfo) make(vs []*Term) *Term { return mk(si.sort, "mk-"+si.sort, vs...) }

func (si *structInfo) set(v *Term, i int, x *Term) *Term {
	vs := make([]*Term, len(si.fields))
	for j := range vs {
		if j == i {
			vs[j] = x
		} else {
			vs[j] = si.get(v, j)
		}
	}
	return si.make(vs)
}

// pointers, slices
func mkPtr(obj, idx *Term) *Term { return mk("Ptr", "mkPtr", obj, idx) }
func pobj(p *Term) *Term {
	if p.op == "mkPtr" {
		return p.args[0]
	}
	if p.op == "ite" && p.n < 60 {
		return ite(p.args[0], pobj(p.args[1]), pobj(p.args[2]))
	}
	return mk("Int", "pobj", p)
}
func pidx(p *Term) *Term {
	if p.op == "mkPtr" {
		return p.args[1]
	}
	if p.op == "ite" && p.n < 60 {
		return ite(p.args[0], pidx(p.args[1]), pidx(p.args[2]))
	}
	return mk("Int", "pidx", p)
}

var nilPtr = mkPtr(intT(0), intT(0))

func mkSlice(obj, off, l, cp *Term) *Term { return mk("Slice", "mkSlice", obj, off, l, cp) }
func sget(s *Term, i int) *Term {
	if s.op == "mkSlice" {
		return s.args[i]
	}
	if s.op == "ite" && s.n < 100 {
		return ite(s.args[0], sget(s.args[1], i), sget(s.args[2], i))
	}
	return mk("Int", []string{"sobj", "soff", "slen", "scap"}[i], s)
}
func sobj(s *Term) *Term { return sget(s, 0) }
func soff(s *Term) *Term { return sget(s, 1) }
func slen(s *Term) *Term { return sget(s, 2) }
func scap(s *Term) *Term { return sget(s, 3) }

var nilSlice = mkSlice(intT(0), intT(0), intT(0), intT(0))

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

func bvLit(v *big.Int, w int) *Term {
	m := new(big.Int).And(v, new(big.Int).Sub(pow2(w), big.NewInt(1)))
	return mk(fmt.Sprintf("(_ BitVec %d)", w), fmt.Sprintf("(_ bv%s %d)", m.String(), w))
}

func isBV(s string) bool { return strings.HasPrefix(s, "(_ BitVec") }

func bvW(s string) int {
	var w int
	fmt.Sscanf(s, "(_ BitVec %d)", &w)
	return w
}

func intRange(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1))
}

func (c *Ctx) zero(t types.Type) *Term {
	if w, ok := c.bvWidth(t); ok {
		return bvLit(big.NewInt(0), w)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return intT(0)
		case u.Info()&types.IsFloat != 0:
			return mk("Real", "0.0")
		case u.Info()&types.IsString != 0:
			return c.strLit("")
		}
		return nilPtr
	case *types.Pointer, *types.Map, *types.Chan:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Array:
		return constArr("Int", c.zero(u.Elem()))
	case *types.Struct:
		si := c.structOf(t)
		vs := make([]*Term, len(si.fields))
		for i := range vs {
			vs[i] = c.zero(si.st.Field(i).Type())
		}
		return si.make(vs)
	case *types.Interface:
		return mk("Iface", "nilIface")
	case *types.Signature:
		return mk("Func", "nilFunc")
	}
	panic(unsupported("zero of " + t.String()))
}

// facts every value of the type satisfies. alloc bounds the references (nil:
// not emitted)
func (c *Ctx) typeFact(v *Term, t types.Type, alloc *Term) *Term {
	if _, ok := c.bvWidth(t); ok {
		return tTrue
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if bits, signed, ok := intInfo(t); ok {
			if _, lit := asInt(v); lit {
				return tTrue
			}
			if bits == 64 && signed {
				return tTrue // mathematical
			}
			lo, hi := intRange(bits, signed)
			if bits == 64 {
				return le(intBig(lo), v)
			}
			return and(le(intBig(lo), v), le(v, intBig(hi)))
		}
		return tTrue
	case *types.Pointer, *types.Map:
		f := and(le(intT(0), pobj(v)), le(intT(0), pidx(v)), imp(eq(pobj(v), intT(0)), eq(pidx(v), intT(0))))
		if _, isMap := u.(*types.Map); isMap {
			f = and(le(intT(0), pobj(v)), eq(pidx(v), intT(0)))
		}
		if alloc != nil {
			f = and(f, lt(pobj(v), alloc))
		}
		return f
	case *types.Slice:
		f := and(le(intT(0), sobj(v)), le(intT(0), slen(v)), le(slen(v), scap(v)), imp(eq(sobj(v), intT(0)), eq(scap(v), intT(0))))
		if alloc != nil {
			f = and(f, lt(sobj(v), alloc))
		}
		return f
	case *types.Struct:
		si := c.structOf(t)
		var fs []*Term
		for i := range si.fields {
			fs = append(fs, c.typeFact(si.get(v, i), si.st.Field(i).Type(), alloc))
		}
		return and(fs...)
	case *types.Array:
		// quantified fact on the elements
		if v.op == "(as const "+v.sort+")" {
			return tTrue
		}
		x := c.boundVar("q", "Int")
		body := c.typeFact(mk(elemSort(v.sort), "select", v, x), u.Elem(), alloc)
		if body.str == "true" {
			return tTrue
		}
		return quant("forall", []*Term{x}, body, [][]*Term{{mk(elemSort(v.sort), "select", v, x)}})
	}
	return tTrue
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }
func unsupported(m string) error       { return unsupportedErr{m} }
