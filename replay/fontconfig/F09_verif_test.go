package fontconfig

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

// ---- an independent reading of the listing comparison

func v9fold(s string) string { return strings.ToLower(strings.ReplaceAll(s, " ", "")) }

// numbers as intervals
func v9span(v Value) (float32, float32, bool) {
	switch v := v.(type) {
	case Int:
		return float32(v), float32(v), true
	case Float:
		return float32(v), float32(v), true
	case Range:
		return v.Begin, v.End, true
	}
	return 0, 0, false
}

// font value, query value
func v9match(f, q Value) bool {
	if fb, fe, ok := v9span(f); ok {
		qb, qe, ok := v9span(q)
		return ok && fb >= qb && fe <= qe
	}
	switch f := f.(type) {
	case String:
		q, ok := q.(String)
		return ok && v9fold(string(f)) == v9fold(string(q))
	case Bool:
		q, ok := q.(Bool)
		return ok && (f == q || f >= DontCare)
	case Charset:
		q, ok := q.(Charset)
		if !ok {
			return false
		}
		for r := rune(0); r < 0x1000; r++ {
			if q.HasChar(r) && !f.HasChar(r) {
				return false
			}
		}
		return true
	}
	panic("value")
}

func v9patMatch(p, font Pattern) bool {
	for o, vs := range p {
		if o == NAMELANG {
			continue
		}
		for _, q := range *vs {
			found := false
			if l := font[o]; l != nil {
				for _, f := range *l {
					found = found || v9match(f.Value, q.Value)
				}
			}
			if !found {
				return false
			}
		}
	}
	return true
}

var v9objects = []Object{FAMILY, FAMILYLANG, STYLE, STYLELANG, FULLNAME, FULLNAMELANG, ORDER, WEIGHT, OUTLINE, CHARSET}

func (k *vcase) v9value(o Object) Value {
	switch o {
	case FAMILY, FULLNAME:
		return []String{"Arial", "arial", "AR IAL", "Times", "Ti", "mes", "", "Ar"}[k.Intn(8)]
	case STYLE:
		return []String{"Bold", "bo ld", "Italic", "Bo", "ld", "BoldItalic"}[k.Intn(6)]
	case FAMILYLANG, STYLELANG, FULLNAMELANG:
		return []String{"en", "fr", "fr-CA", "fr-FR", "de", "en-US", "FR"}[k.Intn(7)]
	case ORDER:
		return []Int{0, 1, 11, 111}[k.Intn(4)]
	case WEIGHT:
		switch k.Intn(3) {
		case 0:
			return Int(k.Intn(3) * 50)
		case 1:
			return Float(k.Intn(5) * 25)
		}
		b := float32(k.Intn(5) * 25)
		return Range{Begin: b, End: b + float32(k.Intn(4)*25)}
	case OUTLINE:
		return Bool(k.Intn(3))
	case CHARSET:
		var c Charset
		for i := k.Intn(4); i > 0; i-- {
			c.AddChar([]rune{'a', 'b', 0x100, 0x1ff, 0x200, 0xfff}[k.Intn(6)])
		}
		return c
	case FONTFORMAT:
		return []String{"TrueType", "PCF", "true type"}[k.Intn(3)]
	}
	panic("object")
}

func (k *vcase) v9pattern(nobj, nval int) Pattern {
	p := NewPattern()
	for i := k.Intn(nobj + 1); i > 0; i-- {
		o := v9objects[k.Intn(len(v9objects))]
		if p[o] != nil {
			continue
		}
		for j := 1 + k.Intn(nval); j > 0; j-- {
			p.Add(o, k.v9value(o), true)
		}
	}
	return p
}

func v9string(l valueList) string {
	var out []string
	for _, v := range l {
		switch u := v.Value.(type) {
		case Charset:
			var rs []rune
			for r := rune(0); r < 0x1000; r++ {
				if u.HasChar(r) {
					rs = append(rs, r)
				}
			}
			out = append(out, fmt.Sprintf("charset%x", rs))
		case Int, Float: // an integer and the same floating number are equal
			out = append(out, fmt.Sprint(u))
		default:
			out = append(out, fmt.Sprintf("%T:%q", u, fmt.Sprint(u)))
		}
	}
	return strings.Join(out, ";")
}

func v9dump(p Pattern) string {
	var out []string
	for o, l := range p {
		out = append(out, fmt.Sprintf("%03d={%s}", o, v9string(*l)))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// a query close to the font
func (k *vcase) v9query(font Pattern) Pattern {
	p := NewPattern()
	for o, l := range font {
		if k.Intn(3) == 0 {
			continue
		}
		for _, v := range *l {
			switch k.Intn(4) {
			case 0, 1:
				p.Add(o, v.Value, k.Intn(2) == 0)
			case 2:
				if k.Intn(4) == 0 {
					p.Add(o, k.v9value(o), true)
				}
			}
		}
	}
	if k.Intn(4) == 0 {
		p.Add(NAMELANG, String("fr"), true)
	}
	return p
}

func TestVerifF09_patterns(t *testing.T) {
	verifRun(t, "F09 patternMatchAny", 6000, func(k *vcase) {
		font := k.v9pattern(4, 3)
		p := k.v9query(font)
		k.in("font: %s", v9dump(font))
		k.in("query: %s", v9dump(p))
		k.check(patternMatchAny(p, font) == v9patMatch(p, font), "patternMatchAny gives %v", patternMatchAny(p, font))
		for o, l := range p {
			k.check(listMatchAny(*l, font.getVals(o)) == v9patMatch(Pattern{o: l}, font) || o == NAMELANG, "listMatchAny of %s", o)
		}
	})
}

func (k *vcase) v9config(font func() Pattern, globs []string) *Config {
	c := NewConfig()
	for i := k.Intn(3); i > 0; i-- {
		p := k.v9query(font())
		k.in("accept pattern: %s", v9dump(p))
		c.patternsAdd(p, true)
	}
	for i := k.Intn(3); i > 0; i-- {
		p := k.v9query(font())
		k.in("reject pattern: %s", v9dump(p))
		c.patternsAdd(p, false)
	}
	for _, g := range globs {
		switch k.Intn(3) {
		case 0:
			k.in("accept glob: %s", g)
			c.globAdd(g, true)
		case 1:
			k.in("reject glob: %s", g)
			c.globAdd(g, false)
		}
	}
	return c
}

func v9select(c *Config, font Pattern) bool {
	for _, p := range c.acceptPatterns {
		if v9patMatch(p, font) {
			return true
		}
	}
	for _, p := range c.rejectPatterns {
		if v9patMatch(p, font) {
			return false
		}
	}
	return true
}

func v9selectName(c *Config, name string) bool {
	for g := range c.acceptGlobs {
		if ok, _ := filepath.Match(g, name); ok {
			return true
		}
	}
	for g := range c.rejectGlobs {
		if ok, _ := filepath.Match(g, name); ok {
			return false
		}
	}
	return true
}

func TestVerifF09_selectors(t *testing.T) {
	verifRun(t, "F09 acceptFont acceptFilename", 4000, func(k *vcase) {
		font := k.v9pattern(4, 2)
		k.in("font: %s", v9dump(font))
		c := k.v9config(func() Pattern { return font }, []string{"/a/*", "/a/b*", "*", "/?/c", "/a/[bc]"}[:k.Intn(6)])
		if k.Intn(2) == 0 {
			c = c.Copy()
		}
		k.check(c.acceptFont(font) == v9select(c, font), "acceptFont gives %v", c.acceptFont(font))
		for _, name := range []string{"/a/b", "/a/c", "/b/c", "/a/bc", "c", ""} {
			k.check(c.acceptFilename(name) == v9selectName(c, name), "acceptFilename(%q) gives %v", name, c.acceptFilename(name))
		}
	})
}

// the real scans, with a copy of fonts of the repository
func TestVerifF09_scan(t *testing.T) {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	names := []string{"4x6.pcf", "8x16.pcf", "DejaVuSerif-Italic.ttf"}
	all := make(map[string]Pattern)
	os.Mkdir(filepath.Join(dir, "sub"), 0o700)
	var paths []string
	for i, n := range names {
		data, err := os.ReadFile(filepath.Join("test", n))
		if err != nil {
			t.Skip(err)
		}
		path := filepath.Join(dir, n)
		if i == 1 {
			path = filepath.Join(dir, "sub", n)
		}
		if err := os.WriteFile(path, data, 0o600); err != nil {
			t.Fatal(err)
		}
		fs, err := NewConfig().ScanFontFile(path)
		if err != nil || len(fs) != 1 {
			t.Fatal(err, len(fs))
		}
		all[path] = fs[0]
		paths = append(paths, path)
	}
	bad := filepath.Join(dir, "bad.ttf")
	os.WriteFile(bad, []byte("not a font"), 0o600)
	globs := []string{filepath.Join(dir, "*.pcf"), filepath.Join(dir, "sub", "*"), filepath.Join(dir, "Deja*"), filepath.Join(dir, "*")}
	verifRun(t, "F09 scans", 60, func(k *vcase) {
		restrict := func() Pattern {
			font, p := all[paths[k.Intn(3)]], NewPattern()
			for _, o := range []Object{FAMILY, STYLE, OUTLINE, WEIGHT, FONTFORMAT} {
				if l := font[o]; l != nil && k.Intn(2) == 0 {
					p.addList(o, *l, true)
				}
			}
			return p
		}
		c := k.v9config(restrict, globs)
		want := make(map[string]bool)
		for _, path := range paths {
			fs, err := c.ScanFontFile(path)
			k.check(err == nil, "ScanFontFile of %s: %v", path, err)
			ok := v9select(c, all[path])
			k.check((len(fs) == 1) == ok && len(fs) <= 1, "ScanFontFile of %s gives %d fonts, the pattern selectors say %v", path, len(fs), ok)
			if ok {
				k.check(v9dump1(fs[0]) == v9dump1(all[path]), "ScanFontFile of %s: another pattern", path)
			}
			if ok && v9selectName(c, path) {
				want[path] = true
			}
		}
		_, err := c.ScanFontFile(bad)
		k.check(err != nil, "an invalid font file is accepted")
		fs, err := c.ScanFontDirectories([][]string{{dir}, {dir, filepath.Join(dir, "sub")}, {filepath.Join(dir, "sub"), dir}, {dir, dir}}[k.Intn(4)]...)
		k.check(err == nil, "ScanFontDirectories: %v", err)
		got := make(map[string]bool)
		for _, f := range fs {
			file, _ := f.GetString(FILE)
			k.check(!got[file], "%s is listed twice", file)
			got[file] = true
		}
		k.check(fmt.Sprint(got) == fmt.Sprint(want), "ScanFontDirectories gives %v, expected %v", got, want)
	})
}

func v9dump1(p Pattern) string {
	q := NewPattern()
	for _, o := range []Object{FAMILY, STYLE, OUTLINE, FONTFORMAT, FILE} {
		if l := p[o]; l != nil {
			q[o] = l
		}
	}
	return v9dump(q)
}

// ---- listing

func v9low(s string) string { return strings.ToLower(s) }

// the rank of a tag against the language of the listing: 0 the same, 1 another
// territory, 2 another language
func v9tag(a, b string) int {
	a, b = v9low(a), v9low(b)
	if a == b {
		return 0
	}
	if strings.Split(a, "-")[0] == strings.Split(b, "-")[0] {
		return 1
	}
	return 2
}

func v9best(l *valueList, lang string) int {
	if l == nil {
		return 0
	}
	first := func(tag string, rank int) int {
		for i, v := range *l {
			if v9tag(string(v.Value.(String)), tag) == rank {
				return i
			}
		}
		return -1
	}
	if i := first(lang, 0); i >= 0 {
		return i
	}
	if i := first(lang, 1); i > 0 {
		return i
	}
	if i := first("en", 0); i > 0 {
		return i
	}
	return 0
}

func TestVerifF09_list(t *testing.T) {
	verifRun(t, "F09 List", 4000, func(k *vcase) {
		var set Fontset
		for i := 1 + k.Intn(5); i > 0; i-- {
			if len(set) > 0 && k.Intn(3) == 0 { // the same values, spread or cut in another way
				f := set[k.Intn(len(set))].Duplicate()
				for _, o := range v9objects {
					l := f[o]
					if l == nil || k.Intn(2) == 0 {
						continue
					}
					if len(*l) >= 2 {
						a, oka := (*l)[0].Value.(String)
						b, okb := (*l)[1].Value.(String)
						if oka && okb && len(b) > 1 {
							(*l)[0].Value, (*l)[1].Value = a+b[:1], b[1:]
						} else if k.Intn(2) == 0 {
							(*l)[0], (*l)[1] = (*l)[1], (*l)[0]
						}
					} else if a, ok := (*l)[0].Value.(String); ok && len(a) > 1 {
						(*l)[0].Value = a[:1]
						*l = append(*l, valueElt{Value: a[1:]})
					}
				}
				set = append(set, f)
				continue
			}
			set = append(set, k.v9pattern(7, 3))
		}
		for i, f := range set {
			k.in("font %d: %s", i, v9dump(f))
		}
		p := NewPattern()
		if k.Intn(2) == 0 {
			p = k.v9query(set[k.Intn(len(set))])
		}
		lang := []string{"en", "fr", "fr-CA", "de", "ja", "en-GB"}[k.Intn(6)]
		p.Del(NAMELANG)
		p.Add(NAMELANG, String(lang), true)
		k.in("query: %s", v9dump(p))
		var objs []Object
		for _, i := range k.Perm(len(v9objects))[:k.Intn(len(v9objects)+1)] {
			objs = append(objs, v9objects[i])
		}
		k.in("objects: %v", objs)
		want := make(map[string]string) // raw values -> listing
		for _, f := range set {
			if !v9patMatch(p, f) {
				continue
			}
			raw, out := NewPattern(), NewPattern()
			os := objs
			if len(os) == 0 {
				os = v9objects
			}
			for _, o := range os {
				l := f[o]
				if l == nil {
					continue
				}
				raw[o] = l
				d := 0
				switch o {
				case FAMILY, FAMILYLANG:
					d = v9best(f[FAMILYLANG], lang)
				case FULLNAME, FULLNAMELANG:
					d = v9best(f[FULLNAMELANG], lang)
				case STYLE, STYLELANG:
					d = v9best(f[STYLELANG], lang)
				}
				list := valueList{}
				if d < len(*l) {
					list = append(list, (*l)[d])
				}
				for i, v := range *l {
					if i != d {
						list = append(list, v)
					}
				}
				out[o] = &list
			}
			if _, has := want[v9dump(raw)]; !has {
				want[v9dump(raw)] = v9dump(out)
			}
		}
		var exp, got []string
		for _, s := range want {
			exp = append(exp, s)
		}
		before := make([]string, len(set))
		for i, f := range set {
			before[i] = v9dump(f)
		}
		for _, f := range set.List(p, objs...) {
			got = append(got, v9dump(f))
		}
		sort.Strings(exp)
		sort.Strings(got)
		k.check(strings.Join(exp, "\n") == strings.Join(got, "\n"), "List gives\n%s\nexpected\n%s", strings.Join(got, "\n"), strings.Join(exp, "\n"))
		for i, f := range set {
			k.check(before[i] == v9dump(f), "font %d was changed", i)
		}
	})
}

func TestVerifF09_hash(t *testing.T) {
	verifRun(t, "F09 Hash", 4000, func(k *vcase) {
		a, b := k.v9pattern(3, 3), k.v9pattern(3, 3)
		if k.Intn(2) == 0 {
			b = a.Duplicate()
			if k.Intn(2) == 0 {
				for o, l := range b {
					(*l)[k.Intn(len(*l))].Value = k.v9value(o)
					break
				}
			}
		}
		k.in("a: %s\nb: %s", v9dump(a), v9dump(b))
		k.check((a.Hash() == b.Hash()) == (v9dump(a) == v9dump(b)), "the hashes are equal: %v", a.Hash() == b.Hash())
	})
}
