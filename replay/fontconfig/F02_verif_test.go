package fontconfig

import (
	"bytes"
	"os"
	"sort"
	"strings"
	"testing"
)

// a naive model: the languages of the table, by tag, and the others
type v2set struct {
	known, extra map[string]bool
}

func v2new() v2set { return v2set{map[string]bool{}, map[string]bool{}} }

var v2table = func() map[string]bool {
	out := map[string]bool{}
	for _, l := range fcLangCharSets {
		out[l.lang] = true
	}
	return out
}()

func (s v2set) add(tag string) {
	if l := strings.ToLower(tag); v2table[l] {
		s.known[l] = true
	} else {
		s.extra[tag] = true
	}
}

func (s v2set) del(tag string) {
	if l := strings.ToLower(tag); v2table[l] {
		delete(s.known, l)
	} else {
		delete(s.extra, tag)
	}
}

func (s v2set) members() []string {
	var out []string
	for m := range s.known {
		out = append(out, m)
	}
	for m := range s.extra {
		out = append(out, m)
	}
	sort.Strings(out)
	return out
}

func (s v2set) copy() v2set {
	out := v2new()
	for _, m := range s.members() {
		out.add(m)
	}
	return out
}

func (s v2set) real(k *vcase) Langset {
	m := s.members()
	k.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
	var ls Langset
	for _, l := range m {
		ls.add(l)
	}
	return ls
}

func v2primary(s string) string {
	if i := strings.IndexByte(s, '-'); i >= 0 {
		return s[:i]
	}
	return s
}

// und stands for no language: und-x and und-y have nothing in common, and two
// und are not known to be equal
func v2compare(a, b string) langResult {
	a, b = strings.ToLower(a), strings.ToLower(b)
	if v2primary(a) == "und" {
		if a == "und" {
			return langDifferentLang
		}
		if a == b {
			return langEqual
		}
		// the same second subtag, followed by others
		as, bs := strings.SplitN(a, "-", 3), strings.SplitN(b, "-", 3)
		if len(as) > 1 && len(bs) > 1 && bs[0] == "und" && as[1] == bs[1] {
			return langDifferentTerritory
		}
		return langDifferentLang
	}
	if a == b {
		return langEqual
	}
	if v2primary(a) == v2primary(b) {
		return langDifferentTerritory
	}
	return langDifferentLang
}

// the same tag, or one starts with the other and a subtag
func v2contains(super, sub string) bool {
	super, sub = strings.ToLower(super), strings.ToLower(sub)
	return super == sub || strings.HasPrefix(super, sub+"-") || strings.HasPrefix(sub, super+"-")
}

// of the languages of the table, only those with a territory are compared
func v2both(a, b string) bool {
	return v2primary(a) == v2primary(b) && strings.Contains(a, "-") && strings.Contains(b, "-")
}

func (s v2set) contains(tag string) bool {
	for _, m := range s.members() {
		// und is no language: the table is not searched
		if v2contains(m, tag) && !(s.known[m] && strings.EqualFold(tag, "und")) {
			return true
		}
	}
	return false
}

func (s v2set) has(tag string) langResult {
	if s.known[strings.ToLower(tag)] {
		return langEqual
	}
	best := langDifferentLang
	for _, m := range s.members() {
		if r := v2compare(tag, m); r < best {
			best = r
		}
	}
	return best
}

func (k *vcase) v2tag() string {
	t := fcLangCharSets[k.Intn(len(fcLangCharSets))].lang
	if k.Intn(3) == 0 {
		// the languages with several territories
		l := []string{"az-az", "az-ir", "ber-dz", "ber-ma", "ku-am", "ku-iq", "ku-ir", "ku-tr", "mn-cn", "mn-mn", "pa", "pa-pk", "pap-an", "pap-aw", "ps-af", "ps-pk", "ti-er", "ti-et", "und-zmth", "und-zsye", "zh-cn", "zh-hk", "zh-mo", "zh-sg", "zh-tw"}
		t = l[k.Intn(len(l))]
	}
	switch k.Intn(8) {
	case 0:
		return strings.ToUpper(t)
	case 1:
		return v2primary(t)
	case 2:
		return v2primary(t) + []string{"-xx", "-zz", "-aa", "-cn-x", "-"}[k.Intn(5)]
	case 3:
		return []string{"", "a", "-", "zz", "aaa", "qqq-yy", "e", "z", "zzz", "{", "é", "1", "x-klingon", "und", "UND", "unda", "pAp", "en-us", "en", "zh", "en-US-x", "abcdef", "b-b"}[k.Intn(23)]
	}
	return t
}

func (k *vcase) v2langs(n int) v2set {
	s := v2new()
	for ; n > 0; n-- {
		s.add(k.v2tag())
	}
	return s
}

func v2check(k *vcase, ls Langset, s v2set, what string) {
	want := strings.Join(s.members(), "|")
	langs := ls.getLangs()
	var got []string
	for l, in := range langs {
		k.check(in, "%s: language %q with the value false", what, l)
		got = append(got, l)
	}
	sort.Strings(got)
	k.check(strings.Join(got, "|") == want, "%s: got the languages %v, expected %v", what, got, want)
	for i, l := range fcLangCharSets {
		k.check(ls.bitGet(i) == s.known[l.lang], "%s: language %q known: %v", what, l.lang, ls.bitGet(i))
	}
	for _, m := range s.members() {
		k.check(ls.containsLang(m), "%s: %q not contained", what, m)
	}
}

func TestVerifF02(t *testing.T) {
	// the tables
	verifRun(t, "tables", 1, func(k *vcase) {
		k.check(len(fcLangCharSets) == len(fcLangCharSetIndices) && len(fcLangCharSets) == len(fcLangCharSetIndicesInv), "sizes of the tables")
		for i, l := range fcLangCharSets {
			k.in("language %d: %s", i, l.lang)
			for _, tag := range []string{l.lang, strings.ToUpper(l.lang)} {
				k.check(findLangIndex(tag) == i, "position of %q: %d, expected %d", tag, findLangIndex(tag), i)
			}
			k.check(i == 0 || fcLangCharSets[i-1].lang < l.lang, "order of %q", l.lang)
			k.check(len(l.charset.pages) == len(l.charset.pageNumbers) && len(l.charset.pages) < 65535, "pages of %q", l.lang)
			for j, p := range l.charset.pageNumbers {
				k.check(p < 0xFFFF && (j == 0 || l.charset.pageNumbers[j-1] < p), "page numbers of %q", l.lang)
			}
			k.check(int(fcLangCharSetIndicesInv[fcLangCharSetIndices[i]]) == i, "inverse of %d", i)
		}
		// the missing tags are placed in order
		for _, tag := range []string{"", "a", "aaa", "zzz", "ab-xx", "ku", "zh", "pap", "~", "1", "mn-aa", "mn-zz", "en-us", "k"} {
			if p := findLangIndex(tag); p < 0 {
				p = -p - 1
				k.in("missing %q at %d", tag, p)
				if tag != "" && 'a' <= tag[0] && tag[0] <= 'z' && len(tag) > 1 {
					k.check(p == sort.Search(len(fcLangCharSets), func(i int) bool { return fcLangCharSets[i].lang >= tag }), "place of %q: %d", tag, p)
				}
			} else {
				k.check(v2table[tag], "%q found at %d", tag, p)
			}
		}
	})

	// every pair of languages of the table
	verifRun(t, "pairs", 1, func(k *vcase) {
		for i, a := range fcLangCharSets {
			var la Langset
			la.add(a.lang)
			k.check(la.bitGet(i) && len(la.extra) == 0, "adding %q", a.lang)
			for _, b := range fcLangCharSets {
				want := v2compare(a.lang, b.lang)
				k.check(langCompare(a.lang, b.lang) == want, "langCompare(%q, %q) = %d", a.lang, b.lang, langCompare(a.lang, b.lang))
				k.check(langContains(a.lang, b.lang) == v2contains(a.lang, b.lang), "langContains(%q, %q) = %v", a.lang, b.lang, langContains(a.lang, b.lang))
				k.check(la.containsLang(b.lang) == v2contains(a.lang, b.lang), "{%q} contains %q: %v", a.lang, b.lang, la.containsLang(b.lang))
				k.check(la.hasLang(b.lang) == v2compare(b.lang, a.lang), "{%q} has %q: %v", a.lang, b.lang, la.hasLang(b.lang))
				var lb Langset
				lb.add(b.lang)
				got := langSetCompare(la, lb)
				if a.lang != b.lang && !v2both(a.lang, b.lang) {
					want = langDifferentLang
				}
				if v2primary(a.lang) != "und" {
					k.check(got == want, "{%q} compared with {%q}: %d, expected %d", a.lang, b.lang, got, want)
				}
				k.check(la.includes(lb) == v2contains(a.lang, b.lang), "{%q} includes {%q}: %v", a.lang, b.lang, la.includes(lb))
			}
		}
	})

	verifRun(t, "tags", 20000, func(k *vcase) {
		a, b := k.v2tag(), k.v2tag()
		if k.Intn(3) == 0 {
			b = a + []string{"", "-x", "x", "-"}[k.Intn(4)]
		}
		k.in("a %q, b %q", a, b)
		if strings.Count(a, "-") < 2 && strings.Count(b, "-") < 2 || v2primary(a) != "und" {
			k.check(langCompare(a, b) == v2compare(a, b), "langCompare %d, expected %d", langCompare(a, b), v2compare(a, b))
		}
		k.check(langContains(a, b) == v2contains(a, b), "langContains %v", langContains(a, b))
		id := findLangIndex(a)
		k.check((id >= 0) == v2table[strings.ToLower(a)], "position %d", id)
		k.check(isExclusiveLang(a) == (strings.EqualFold(a, "ja") || strings.EqualFold(a, "ko") || strings.EqualFold(a, "zh-cn") || strings.EqualFold(a, "zh-tw")), "exclusive: %v", isExclusiveLang(a))
		ls := langSetPromote(String(a))
		want := v2new()
		if a != "" {
			want.add(a)
		}
		v2check(k, ls, want, "promotion")

		// the character set of a language
		cs := newCharSetFromLang(a)
		best, first := langDifferentLang, -1
		for i, l := range fcLangCharSets {
			if r := v2compare(a, l.lang); r < best {
				best, first = r, i
			}
		}
		if strings.Count(a, "-") < 2 {
			if best == langDifferentLang {
				k.check(cs == nil, "character set of an unknown language")
			} else {
				k.check(cs != nil && charsetEqual(*cs, fcLangCharSets[first].charset), "the character set is not the one of %s", fcLangCharSets[first].lang)
			}
		}
	})

	verifRun(t, "sets", 6000, func(k *vcase) {
		a, b := k.v2langs(k.Intn(8)), k.v2langs(k.Intn(5))
		switch k.Intn(4) {
		case 0: // a variation of a
			b = a.copy()
			for i := k.Intn(3); i > 0; i-- {
				b.add(k.v2tag())
			}
		case 1:
			b = v2new()
			for _, m := range a.members() {
				if k.Intn(2) == 0 {
					b.add(m)
				}
			}
		}
		k.in("a %q", a.members())
		k.in("b %q", b.members())
		la, lb := a.real(k), b.real(k)
		v2check(k, la, a, "a")
		v2check(k, lb, b, "b")

		for i := 0; i < 6; i++ {
			tag := k.v2tag()
			k.in("tag %q", tag)
			k.check(la.containsLang(tag) == a.contains(tag), "containsLang %v", la.containsLang(tag))
			if strings.Count(tag, "-") < 2 {
				k.check(la.hasLang(tag) == a.has(tag), "hasLang %d, expected %d", la.hasLang(tag), a.has(tag))
			}
		}

		includes := true
		for _, m := range b.members() {
			includes = includes && a.contains(m)
		}
		k.check(la.includes(lb) == includes, "a includes b: %v", la.includes(lb))
		k.check(la.includes(la), "a does not include itself")

		// comparison
		want := langDifferentLang
		for m := range a.known {
			if b.known[m] {
				want = langEqual
			}
			for n := range b.known {
				if v2both(m, n) && want > langDifferentTerritory {
					want = langDifferentTerritory
				}
			}
		}
		plain := true
		for m := range a.extra {
			plain = plain && strings.Count(m, "-") < 2 && v2primary(strings.ToLower(m)) != "und"
			if r := b.has(m); r < want {
				want = r
			}
		}
		for m := range b.extra {
			plain = plain && strings.Count(m, "-") < 2 && v2primary(strings.ToLower(m)) != "und"
			if r := a.has(m); r < want {
				want = r
			}
		}
		if plain && !a.known["und-zmth"] && !a.known["und-zsye"] {
			k.check(langSetCompare(la, lb) == want, "comparison %d, expected %d", langSetCompare(la, lb), want)
			k.check(langSetCompare(la, lb) == langSetCompare(lb, la), "the comparison is not symmetric")
		}

		// operations
		u, d := a.copy(), a.copy()
		for _, m := range b.members() {
			u.add(m)
			d.del(m)
		}
		lu, ld := langSetUnion(la, lb), langSetSubtract(la, lb)
		v2check(k, lu, u, "union")
		v2check(k, ld, d, "difference")
		c := la.Copy()
		v2check(k, c, a, "copy")
		k.check(langsetEqual(c, la) && langsetEqual(la, c), "the copy is not equal")
		tag := k.v2tag()
		k.in("tag %q", tag)
		ac := a.copy()
		if k.Intn(2) == 0 {
			c.add(tag)
			ac.add(tag)
		} else {
			c.del(tag)
			ac.del(tag)
		}
		v2check(k, c, ac, "changed copy")
		lu.add("qq-qq")
		ld.add("qq-qq")
		v2check(k, la, a, "a, later")
		v2check(k, lb, b, "b, later")

		same := len(a.members()) == len(b.members()) && strings.Join(a.members(), "|") == strings.Join(b.members(), "|")
		k.check(langsetEqual(la, lb) == same, "equal: %v", langsetEqual(la, lb))
		if same {
			k.check(bytes.Equal(la.hash(), lb.hash()), "equal sets, different hashes")
		} else if len(a.extra)+len(b.extra) == 0 {
			k.check(!bytes.Equal(la.hash(), lb.hash()), "different sets, same hash")
		}

		// text
		if !a.extra[""] {
			back := NewLangset(la.String())
			v2check(k, back, a, "parsed text "+la.String())
		}
	})

	// the character sets
	verifRun(t, "charsets", 60, func(k *vcase) {
		var cs Charset
		var in []string
		for i := k.Intn(4); i >= 0; i-- {
			l := fcLangCharSets[k.Intn(len(fcLangCharSets))]
			in = append(in, l.lang)
			cs = charsetUnion(cs, l.charset)
		}
		for i := k.Intn(3); i > 0; i-- {
			// one character less
			j := k.Intn(len(cs.pages))
			w := k.Intn(8)
			cs.pages[j][w] &= cs.pages[j][w] - 1
		}
		exclusive := []string{"", "", "ja", "ko", "zh-cn", "zh-tw", "fr", "qqq"}[k.Intn(8)]
		k.in("characters of %v, exclusive %q", in, exclusive)
		ls := buildLangSet(cs, exclusive)
		var ex *Charset
		for i, l := range fcLangCharSets {
			if l.lang == exclusive {
				ex = &fcLangCharSets[i].charset
			}
		}
		k.check(len(ls.extra) == 0, "extra languages")
		for i, l := range fcLangCharSets {
			want := true
			for j, p := range l.charset.pageNumbers {
				for w := range l.charset.pages[j] {
					for bit := 0; bit < 32; bit++ {
						if l.charset.pages[j][w]>>uint(bit)&1 != 0 && !cs.HasChar(rune(int(p)<<8|w*32+bit)) {
							want = false
						}
					}
				}
			}
			if ex != nil && (l.lang == "ja" || l.lang == "ko" || l.lang == "zh-cn" || l.lang == "zh-tw") && !charsetEqual(*ex, l.charset) {
				want = false
			}
			k.check(ls.bitGet(i) == want, "language %s: %v", l.lang, ls.bitGet(i))
		}
	})

	verifRun(t, "normalize", 10000, func(k *vcase) {
		lang := []string{"en", "fr", "zh", "ku", "pa", "az", "pap", "ber", "sr", "xx", "qqq", "e", "engl", ""}[k.Intn(14)]
		terr := []string{"", "", "US", "cn", "CN", "HK", "iq", "PK", "AZ", "aw", "ma", "u", "ZZZZ", "ABCD", "zzzzz"}[k.Intn(15)]
		enc := []string{"", "", ".UTF-8", ".utf8", ".iso-8859-1"}[k.Intn(5)]
		mod := []string{"", "", "", "latin", "Euro"}[k.Intn(5)]
		text := lang
		if terr != "" {
			text += []string{"_", "-"}[k.Intn(2)] + terr
		}
		text += enc
		if mod != "" {
			text += "@" + mod
		}
		if k.Intn(5) == 0 {
			text = []string{"C", "POSIX", "posix", "c", "C.UTF-8", "C.utf8", "c.utf-8"}[k.Intn(7)]
			k.in("locale %q", text)
			k.check(normalizeLang(text) == "en", "got %q", normalizeLang(text))
			return
		}
		k.in("locale %q", text)
		got := normalizeLang(text)
		l, te, m := strings.ToLower(lang), strings.ToLower(terr), strings.ToLower(mod)
		want := text
		switch {
		case len(l) < 2 || len(l) > 3 || len(te) == 1 || len(te) > 3 && !(te[0] == 'z' && len(te) == 4):
			want = ""
		case te != "" && m == "" && v2table[l+"-"+te]:
			want = l + "-" + te
		case te != "" && m != "" && v2table[l+"-"+te+"@"+m]:
			want = l + "-" + te + "@" + m
		case m != "" && v2table[l+"@"+m]:
			want = l + "@" + m
		case v2table[l]:
			want = l
		}
		k.check(got == want, "got %q, expected %q", got, want)
		set := strSet{}
		some := addLangs(set, ":"+text+"::fr:")
		exp := strSet{"fr": true}
		if want != "" {
			exp[want] = true
		}
		k.check(some && strSetEquals(set, exp), "list of languages: %v", set)
	})

	verifRun(t, "environment", 60, func(k *vcase) {
		names := []string{"FC_LANG", "LC_ALL", "LC_CTYPE", "LANG"}
		want := "en"
		for _, n := range names {
			if old, ok := os.LookupEnv(n); ok {
				n := n
				defer os.Setenv(n, old)
			} else {
				n := n
				defer os.Unsetenv(n)
			}
		}
		defaultLangsLock.Lock()
		saved := defaultLangs
		defaultLangs = nil
		defaultLangsLock.Unlock()
		defer func() {
			defaultLangsLock.Lock()
			defaultLangs = saved
			defaultLangsLock.Unlock()
		}()
		for i := 3; i >= 0; i-- {
			os.Unsetenv(names[i])
			if k.Intn(2) == 0 {
				l := []string{"fr", "de", "it", "ja"}[i]
				os.Setenv(names[i], l+"_XX.UTF-8")
				want = l
				k.in("%s=%s_XX.UTF-8", names[i], l)
			}
		}
		got := getDefaultLangs()
		k.check(len(got) == 1 && got[want], "got %v, expected %s", got, want)
	})
}
