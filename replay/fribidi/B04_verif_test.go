package fribidi

import "testing"

// An independent reading of UAX #9 (X1-X8, W1-W7, N0-N2, I1, I2, parts 1 to 3
// of L1) over arrays, for a single paragraph.

type u9 struct {
	orig   []CharType
	types  []CharType
	br     []BracketType
	level  []int
	match  []int // isolate initiator <-> PDI, or -1
	base   int
	strong bool // the first strong character gives the base level
}

func u9removed(t CharType) bool {
	return t == LRE || t == RLE || t == LRO || t == RLO || t == PDF || t == BN
}

func u9isolate(t CharType) bool { return t == LRI || t == RLI || t == FSI }

func u9first(types []CharType, match []int, from, to, none int) int {
	for i := from; i < to; i++ {
		switch t := types[i]; {
		case t == LTR:
			return 0
		case t == RTL || t == AL:
			return 1
		case u9isolate(t):
			if match[i] < 0 {
				return none
			}
			i = match[i]
		}
	}
	return none
}

func u9levels(types []CharType, br []BracketType, dir ParType) *u9 {
	n := len(types)
	u := &u9{orig: types, types: append([]CharType{}, types...), br: br, level: make([]int, n), match: make([]int, n)}
	var open []int
	for i := range u.match {
		u.match[i] = -1
	}
	for i, t := range types {
		if u9isolate(t) {
			open = append(open, i)
		} else if t == PDI && len(open) > 0 {
			j := open[len(open)-1]
			open = open[:len(open)-1]
			u.match[i], u.match[j] = j, i
		}
	}
	switch dir {
	case LTR:
		u.base = 0
	case RTL:
		u.base = 1
	default:
		none := 0
		if dir == WRTL {
			none = 1
		}
		u.base = u9first(types, u.match, 0, n, none)
		u.strong = u9first(types, u.match, 0, n, 2) != 2
	}
	u.explicit()
	u.sequences()
	u.reset()
	return u
}

func (u *u9) explicit() {
	type entry struct {
		level    int
		override CharType
		isolate  bool
	}
	stack := []entry{{u.base, ON, false}}
	overIso, overEmb, validIso := 0, 0, 0
	next := func(l, rtl int) int {
		if rtl == 1 {
			return (l + 1) | 1
		}
		return (l + 2) &^ 1
	}
	for i, t := range u.orig {
		top := stack[len(stack)-1]
		u.level[i] = top.level
		switch t {
		case RLE, LRE, RLO, LRO:
			rtl := 0
			if t == RLE || t == RLO {
				rtl = 1
			}
			l := next(top.level, rtl)
			if l <= maxExplicitLevel && overIso == 0 && overEmb == 0 {
				o := CharType(ON)
				if t == RLO {
					o = RTL
				} else if t == LRO {
					o = LTR
				}
				stack = append(stack, entry{l, o, false})
			} else if overIso == 0 {
				overEmb++
			}
		case RLI, LRI, FSI:
			if top.override != ON {
				u.types[i] = top.override
			}
			rtl := 0
			if t == RLI {
				rtl = 1
			} else if t == FSI {
				end := len(u.orig)
				if u.match[i] >= 0 {
					end = u.match[i]
				}
				rtl = u9first(u.orig, u.match, i+1, end, 0)
			}
			l := next(top.level, rtl)
			if l <= maxExplicitLevel && overIso == 0 && overEmb == 0 {
				validIso++
				stack = append(stack, entry{l, ON, true})
			} else {
				overIso++
			}
		case PDI:
			if overIso > 0 {
				overIso--
			} else if validIso > 0 {
				overEmb = 0
				for !stack[len(stack)-1].isolate {
					stack = stack[:len(stack)-1]
				}
				stack = stack[:len(stack)-1]
				validIso--
			}
			top = stack[len(stack)-1]
			u.level[i] = top.level
			if top.override != ON {
				u.types[i] = top.override
			}
		case PDF:
			if overIso > 0 {
			} else if overEmb > 0 {
				overEmb--
			} else if !top.isolate && len(stack) >= 2 {
				stack = stack[:len(stack)-1]
			}
		case BN:
		case BS:
			u.level[i] = u.base
		default:
			if top.override != ON {
				u.types[i] = top.override
			}
		}
	}
}

func (u *u9) sequences() {
	var idx []int
	for i, t := range u.orig {
		if !u9removed(t) {
			idx = append(idx, i)
		}
	}
	// level runs
	var runs [][]int
	for k, i := range idx {
		if k == 0 || u.level[i] != u.level[idx[k-1]] {
			runs = append(runs, nil)
		}
		runs[len(runs)-1] = append(runs[len(runs)-1], i)
	}
	lev := append([]int{}, u.level...)
	runOf := map[int]int{}
	for r, run := range runs {
		runOf[run[0]] = r
	}
	for _, run := range runs {
		if u.orig[run[0]] == PDI && u.match[run[0]] >= 0 {
			continue
		}
		seq := append([]int{}, run...)
		for {
			last := seq[len(seq)-1]
			if !u9isolate(u.orig[last]) || u.match[last] < 0 {
				break
			}
			seq = append(seq, runs[runOf[u.match[last]]]...)
		}
		first, last := seq[0], seq[len(seq)-1]
		before, after := u.base, u.base
		for _, i := range idx {
			if i < first {
				before = lev[i]
			}
		}
		if !u9isolate(u.orig[last]) {
			for k := len(idx) - 1; k >= 0 && idx[k] > last; k-- {
				after = lev[idx[k]]
			}
		}
		u.resolve(seq, u9dir(u9max(before, u.level[first])), u9dir(u9max(after, u.level[first])))
	}
}

func u9max(a, b int) int {
	if a < b {
		return b
	}
	return a
}

func u9dir(l int) CharType {
	if l%2 == 1 {
		return RTL
	}
	return LTR
}

func (u *u9) resolve(seq []int, sos, eos CharType) {
	n := len(seq)
	t := make([]CharType, n)
	for k, i := range seq {
		t[k] = u.types[i]
	}
	iso := func(t CharType) bool { return u9isolate(t) || t == PDI }
	prev := sos
	for k := range t { // W1
		if t[k] == NSM {
			t[k] = prev
			if k > 0 && iso(prev) {
				t[k] = ON
			}
		}
		prev = t[k]
	}
	strong := sos
	for k := range t { // W2
		switch t[k] {
		case LTR, RTL, AL:
			strong = t[k]
		case EN:
			if strong == AL {
				t[k] = AN
			}
		}
	}
	for k := range t { // W3
		if t[k] == AL {
			t[k] = RTL
		}
	}
	for k := 1; k+1 < n; k++ { // W4
		if (t[k] == ES || t[k] == CS) && t[k-1] == EN && t[k+1] == EN {
			t[k] = EN
		} else if t[k] == CS && t[k-1] == AN && t[k+1] == AN {
			t[k] = AN
		}
	}
	for k := 0; k < n; k++ { // W5
		if t[k] == ET {
			e := k
			for e < n && t[e] == ET {
				e++
			}
			if k > 0 && t[k-1] == EN || e < n && t[e] == EN {
				for ; k < e; k++ {
					t[k] = EN
				}
			}
			k = e - 1
		}
	}
	strong = sos
	for k := range t {
		switch t[k] {
		case ES, ET, CS: // W6
			t[k] = ON
		case LTR, RTL:
			strong = t[k]
		case EN: // W7
			if strong == LTR {
				t[k] = LTR
			}
		}
	}
	// N0
	emb := u9dir(u.level[seq[0]])
	str := func(c CharType) CharType {
		if c == EN || c == AN {
			return RTL
		}
		return c
	}
	var stack []int
	var pairs [][2]int
bd16:
	for k, i := range seq {
		b := NoBracket
		if len(u.br) > 0 {
			b = u.br[i]
		}
		if b == NoBracket || t[k] != ON {
			continue
		}
		if b.isOpen() {
			if len(stack) == 63 {
				pairs = nil
				break bd16
			}
			stack = append(stack, k)
			continue
		}
		for s := len(stack) - 1; s >= 0; s-- {
			if u.br[seq[stack[s]]].id() == b.id() {
				pairs = append(pairs, [2]int{stack[s], k})
				stack = stack[:s]
				break
			}
		}
	}
	for i := range pairs {
		for j := i; j > 0 && pairs[j][0] < pairs[j-1][0]; j-- {
			pairs[j], pairs[j-1] = pairs[j-1], pairs[j]
		}
	}
	for _, p := range pairs {
		same, opp := false, false
		for k := p[0] + 1; k < p[1]; k++ {
			if c := str(t[k]); c == LTR || c == RTL {
				same = same || c == emb
				opp = opp || c != emb
			}
		}
		var set CharType
		if same {
			set = emb
		} else if opp {
			ctx := sos
			for k := 0; k < p[0]; k++ {
				if c := str(t[k]); c == LTR || c == RTL {
					ctx = c
				}
			}
			set = emb
			if ctx != emb {
				set = ctx
			}
		} else {
			continue
		}
		for _, k := range p {
			t[k] = set
			for j := k + 1; j < n && u.orig[seq[j]] == NSM; j++ {
				t[j] = set
			}
		}
	}
	// N1, N2
	neutral := func(c CharType) bool { return c == BS || c == SS || c == WS || c == ON || iso(c) }
	for k := 0; k < n; k++ {
		if neutral(t[k]) {
			e := k
			for e < n && neutral(t[e]) {
				e++
			}
			a, b := sos, eos
			if k > 0 {
				a = str(t[k-1])
			}
			if e < n {
				b = str(t[e])
			}
			set := emb
			if a == b {
				set = a
			}
			for ; k < e; k++ {
				t[k] = set
			}
			k = e - 1
		}
	}
	for k, i := range seq {
		l := u.level[i]
		switch {
		case l%2 == 0 && t[k] == RTL, l%2 == 1 && t[k] != RTL:
			u.level[i]++
		case l%2 == 0 && t[k] != LTR:
			u.level[i] += 2
		}
	}
}

func (u *u9) reset() {
	// the removed characters get the level of the one before
	prev := u.base
	for i, t := range u.orig {
		if u9removed(t) {
			u.level[i] = prev
		}
		prev = u.level[i]
	}
	reset := true
	for i := len(u.orig) - 1; i >= 0; i-- {
		t := u.orig[i]
		if t == SS || t == BS {
			reset = true
		} else if !(t == WS || u9isolate(t) || t == PDI || u9removed(t)) {
			reset = false
		}
		if reset {
			u.level[i] = u.base
		}
	}
}

func TestVerifB04(t *testing.T) {
	letters := []CharType{LTR, RTL, AL, EN, AN, ES, CS, ET, NSM, WS, ON, SS, BN}
	marks := []CharType{LRE, RLE, LRO, RLO, PDF, LRI, RLI, FSI, PDI, PDI, PDF}
	verifRun(t, "limit", 30000, func(k *vcase) {
		// a short text close to the deepest level
		var types []CharType
		depth := 120 + k.Intn(7)
		pair := [][2]CharType{{RLE, LRE}, {RLE, LRI}, {RLI, LRI}}[k.Intn(3)]
		for i := 0; i < depth; i++ {
			types = append(types, pair[i%2])
		}
		some := append([]CharType{LTR, RTL, AL, EN, NSM, ON}, marks...)
		for n := 1 + k.Intn(10); n > 0; n-- {
			types = append(types, some[k.Intn(len(some))])
		}
		u9check(k, types, nil)
	})
	verifRun(t, "deep", 20000, func(k *vcase) {
		// a prefix of nested embeddings and isolates, up to and past the limit
		var types []CharType
		depth := 50 + k.Intn(90)
		set := []CharType{LRE, RLE, LRO, RLO, LRI, RLI, FSI}[k.Intn(7):]
		for i := 0; i < depth; i++ {
			types = append(types, set[k.Intn(len(set))])
		}
		if k.Intn(2) == 0 {
			pair := [][2]CharType{{LRI, RLI}, {LRE, RLE}, {LRI, RLE}, {LRO, RLI}}[k.Intn(4)]
			for i := range types {
				types[i] = pair[i%2]
			}
		}
		n := 1 + k.Intn(40)
		some := append([]CharType{LTR, RTL, AL, EN, NSM, ON}, marks...)
		for i := 0; i < n; i++ {
			types = append(types, some[k.Intn(len(some))])
		}
		closing := k.Intn(130)
		for i := 0; i < closing; i++ {
			if k.Intn(10) == 0 {
				types = append(types, some[k.Intn(len(some))])
			} else if k.Intn(8) == 0 {
				types = append(types, PDF)
			} else {
				types = append(types, PDI)
			}
		}
		u9check(k, types, make([]BracketType, len(types)))
	})
	verifRun(t, "brackets", 20000, func(k *vcase) {
		n := 40 + k.Intn(120)
		types := make([]CharType, n)
		br := make([]BracketType, n)
		some := []CharType{LTR, RTL, EN, NSM, ON, LRI, RLI, PDI}[:1+k.Intn(8)]
		open := 1 + k.Intn(70)
		for i := range types {
			types[i] = ON
			br[i] = BracketType(1 + k.Intn(2))
			if k.Intn(12) == 0 {
				types[i], br[i] = some[k.Intn(len(some))], NoBracket
			} else if i < open {
				br[i] |= bracketOpenMask
			}
		}
		u9check(k, types, br)
	})
	verifRun(t, "levels", 100000, func(k *vcase) {
		n := 1 + k.Intn(16)
		types := make([]CharType, n)
		br := make([]BracketType, n)
		few := 1 + k.Intn(len(letters))
		perm := k.Perm(len(letters))
		nomarks := k.Intn(2) == 0
		brackets := k.Intn(2) == 0
		for i := range types {
			types[i] = letters[perm[k.Intn(few)]]
			if !nomarks && k.Intn(3) == 0 {
				types[i] = marks[k.Intn(len(marks))]
			}
			if brackets && k.Intn(3) == 0 {
				types[i] = ON
				br[i] = BracketType(1 + k.Intn(2))
				if k.Intn(2) == 0 {
					br[i] |= bracketOpenMask
				}
			}
		}
		if k.Intn(8) == 0 {
			types[n-1], br[n-1] = BS, NoBracket
		}
		u9check(k, types, br)
	})
}

func u9check(k *vcase, types []CharType, br []BracketType) {
	if k.Intn(4) == 0 {
		for i := range br {
			br[i] = NoBracket
		}
		if k.Intn(2) == 0 {
			br = nil
		}
	}
	dir := []ParType{LTR, RTL, ON, WLTR, WRTL}[k.Intn(5)]
	k.in("types %v brackets %v direction %v", types, br, dir)
	u := u9levels(types, br, dir)
	types0, br0 := append([]CharType{}, types...), append([]BracketType{}, br...)
	d := dir
	got, m := GetParEmbeddingLevels(types, br, &d)
	k.check(len(got) == len(types), "%d levels, want %d", len(got), len(types))
	max := 0
	for i := range types {
		k.check(int(got[i]) == u.level[i], "levels %v, want %v", got, u.level)
		max = u9max(max, int(got[i]))
		k.check(types[i] == types0[i], "input types changed: %v", types)
	}
	for i := range br {
		k.check(br[i] == br0[i], "input brackets changed: %v", br)
	}
	k.check(int(m) > max && m <= maxExplicitLevel+2, "maximum level plus one: %d, with levels %v", m, got)
	switch {
	case dir == LTR || dir == RTL:
		k.check(d == dir, "the strong direction became %v", d)
	case u.strong:
		k.check(d == ParType(u9dir(u.base)), "direction %v, want level %d", d, u.base)
	default:
		k.check(d == dir, "no strong character, but direction %v", d)
	}
}
