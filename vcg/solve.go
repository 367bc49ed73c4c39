package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

const preludeBase = `(set-logic ALL)
(declare-sort Str 0)
(declare-sort Iface 0)
(declare-sort Func 0)
(declare-datatypes ((Ptr 0)) (((mkPtr (pobj Int) (pidx Int)))))
(declare-datatypes ((Slice 0)) (((mkSlice (sobj Int) (soff Int) (slen Int) (scap Int)))))
(declare-const alloc0 Int)
(assert (< 0 alloc0))
(declare-const nilFunc Func)
(declare-const nilIface Iface)
(declare-fun itag (Iface) Int)
(assert (= (itag nilIface) 0))
(define-fun wrapU8 ((x Int)) Int (ite (and (<= 0 x) (<= x 255)) x (mod x 256)))
(define-fun wrapU16 ((x Int)) Int (ite (and (<= 0 x) (<= x 65535)) x (mod x 65536)))
(define-fun wrapU32 ((x Int)) Int (ite (and (<= 0 x) (<= x 4294967295)) x (mod x 4294967296)))
(define-fun wrapU64 ((x Int)) Int (ite (and (<= 0 x) (<= x 18446744073709551615)) x (mod x 18446744073709551616)))
(define-fun wrapS8 ((x Int)) Int (ite (and (<= (- 128) x) (<= x 127)) x (- (mod (+ x 128) 256) 128)))
(define-fun wrapS16 ((x Int)) Int (ite (and (<= (- 32768) x) (<= x 32767)) x (- (mod (+ x 32768) 65536) 32768)))
(define-fun wrapS32 ((x Int)) Int (ite (and (<= (- 2147483648) x) (<= x 2147483647)) x (- (mod (+ x 2147483648) 4294967296) 2147483648)))
(define-fun goDiv ((x Int) (y Int)) Int (ite (>= x 0) (div x y) (- (div (- x) y))))
(define-fun goMod ((x Int) (y Int)) Int (ite (>= x 0) (mod x y) (- (mod (- x) y))))
`

const preludeMul = `(declare-fun vmul (Int Int) Int)
(assert (forall ((x Int) (y Int)) (! (= (vmul x y) (vmul y x)) :pattern ((vmul x y)))))
(declare-fun vdiv (Int Int) Int)
(declare-fun vmod (Int Int) Int)
`

const preludeIface = `(assert (forall ((y Iface)) (! (=> (= (itag y) 0) (= y nilIface)) :pattern ((itag y)))))
`

const preludeStr = `(declare-fun slen.s (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun scat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun sdiff (Str Str) Int)
(declare-fun slt (Str Str) Bool)
(declare-const str_empty Str)
(assert (= (slen.s str_empty) 0))
(assert (forall ((x Str)) (! (and (<= 0 (slen.s x)) (=> (= (slen.s x) 0) (= x str_empty))) :pattern ((slen.s x)))))
(assert (forall ((x Str) (i Int)) (! (and (<= 0 (sat x i)) (<= (sat x i) 255)) :pattern ((sat x i)))))
`
const preludeScat = `(assert (forall ((x Str) (y Str)) (! (= (slen.s (scat x y)) (+ (slen.s x) (slen.s y))) :pattern ((scat x y)))))
(assert (forall ((x Str) (y Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen.s x))) (= (sat (scat x y) i) (sat x i))) :pattern ((sat (scat x y) i)))))
(assert (forall ((x Str) (y Str) (i Int)) (! (=> (and (<= (slen.s x) i) (< i (+ (slen.s x) (slen.s y)))) (= (sat (scat x y) i) (sat y (- i (slen.s x))))) :pattern ((sat (scat x y) i)))))
`
const preludeSsub = `(assert (forall ((x Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen.s x))) (= (slen.s (ssub x a b)) (- b a))) :pattern ((ssub x a b)))))
(assert (forall ((x Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen.s x)) (<= 0 i) (< i (- b a))) (= (sat (ssub x a b) i) (sat x (+ a i)))) :pattern ((sat (ssub x a b) i)))))
(assert (forall ((x Str)) (! (= (ssub x 0 (slen.s x)) x) :pattern ((ssub x 0 (slen.s x))))))
`
const preludeSlt = `(assert (forall ((x Str) (y Str)) (! (and (=> (slt x y) (not (slt y x))) (or (slt x y) (= x y) (slt y x)) (=> (= x y) (not (slt x y)))) :pattern ((slt x y)))))
(assert (forall ((x Str) (y Str) (z Str)) (! (=> (and (slt x y) (slt y z)) (slt x z)) :pattern ((slt x y) (slt y z)))))
`

const preludeBits = `(declare-fun bit (Int Int) Bool)
(declare-fun band (Int Int) Int)
(declare-fun bandn (Int Int) Int)
(declare-fun bor (Int Int) Int)
(declare-fun bxor (Int Int) Int)
(declare-fun shl1_8 (Int) Int)
(declare-fun shl1_16 (Int) Int)
(declare-fun shl1_32 (Int) Int)
(declare-fun shl1_64 (Int) Int)
(declare-fun shlv_8 (Int Int) Int)
(declare-fun shlv_16 (Int Int) Int)
(declare-fun shlv_32 (Int Int) Int)
(declare-fun shlv_64 (Int Int) Int)
(declare-fun shrv (Int Int) Int)
(declare-fun bwit (Int) Int)
(declare-fun bdiff (Int Int) Int)
(assert (forall ((k Int)) (! (not (bit 0 k)) :pattern ((bit 0 k)))))
(assert (forall ((x Int) (k Int)) (! (and (=> (< k 0) (not (bit x k))) (=> (and (<= 0 x) (<= x 255) (<= 8 k)) (not (bit x k))) (=> (and (<= 0 x) (<= x 65535) (<= 16 k)) (not (bit x k))) (=> (and (<= 0 x) (<= x 4294967295) (<= 32 k)) (not (bit x k))) (=> (and (<= 0 x) (<= x 18446744073709551615) (<= 64 k)) (not (bit x k))) (=> (bit x k) (not (= x 0)))) :pattern ((bit x k)))))
(assert (forall ((x Int) (y Int)) (! (and (=> (and (<= 0 x) (<= 0 y)) (and (<= 0 (band x y)) (<= (band x y) x) (<= (band x y) y))) (=> (not (= (band x y) 0)) (bit (band x y) (bwit (band x y))))) :pattern ((band x y)))))
(assert (forall ((x Int) (y Int) (k Int)) (! (= (bit (band x y) k) (and (bit x k) (bit y k))) :pattern ((bit (band x y) k)))))
(assert (forall ((x Int) (y Int) (k Int)) (! (=> (and (bit x k) (bit y k)) (bit (band x y) k)) :pattern ((band x y) (bit x k) (bit y k)))))
(assert (forall ((x Int) (y Int)) (! (and (=> (and (<= 0 x) (<= 0 y)) (and (<= 0 (bandn x y)) (<= (bandn x y) x))) (=> (not (= (bandn x y) 0)) (bit (bandn x y) (bwit (bandn x y))))) :pattern ((bandn x y)))))
(assert (forall ((x Int) (y Int) (k Int)) (! (= (bit (bandn x y) k) (and (bit x k) (not (bit y k)))) :pattern ((bit (bandn x y) k)))))
(assert (forall ((x Int) (y Int) (k Int)) (! (=> (and (bit x k) (not (bit y k))) (bit (bandn x y) k)) :pattern ((bandn x y) (bit x k)))))
(assert (forall ((x Int) (y Int)) (! (and (=> (and (<= 0 x) (<= 0 y)) (and (<= x (bor x y)) (<= y (bor x y)) (<= (bor x y) (+ x y)))) (=> (and (<= 0 x) (<= 0 y) (<= x 255) (<= y 255)) (<= (bor x y) 255)) (=> (and (<= 0 x) (<= 0 y) (<= x 65535) (<= y 65535)) (<= (bor x y) 65535)) (=> (and (<= 0 x) (<= 0 y) (<= x 4294967295) (<= y 4294967295)) (<= (bor x y) 4294967295)) (=> (and (<= 0 x) (<= 0 y) (<= x 18446744073709551615) (<= y 18446744073709551615)) (<= (bor x y) 18446744073709551615))) :pattern ((bor x y)))))
(assert (forall ((x Int) (y Int) (k Int)) (! (= (bit (bor x y) k) (or (bit x k) (bit y k))) :pattern ((bit (bor x y) k)))))
(assert (forall ((x Int) (y Int)) (! (and (=> (and (<= 0 x) (<= 0 y)) (<= 0 (bxor x y))) (=> (and (<= 0 x) (<= 0 y) (<= x 255) (<= y 255)) (<= (bxor x y) 255)) (=> (and (<= 0 x) (<= 0 y) (<= x 4294967295) (<= y 4294967295)) (<= (bxor x y) 4294967295)) (= (= (bxor x y) 0) (= x y))) :pattern ((bxor x y)))))
(assert (forall ((x Int) (y Int) (k Int)) (! (= (bit (bxor x y) k) (not (= (bit x k) (bit y k)))) :pattern ((bit (bxor x y) k)))))
(assert (forall ((x Int)) (! (=> (< 0 x) (bit x (bwit x))) :pattern ((bwit x)))))
(assert (forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (<= 0 y) (not (= x y))) (not (= (bit x (bdiff x y)) (bit y (bdiff x y))))) :pattern ((bdiff x y)))))
(assert (forall ((k Int)) (! (and (=> (<= 8 k) (= (shl1_8 k) 0)) (=> (and (<= 0 k) (< k 8)) (and (<= 1 (shl1_8 k)) (<= (shl1_8 k) 128)))) :pattern ((shl1_8 k)))))
(assert (forall ((k Int) (j Int)) (! (= (bit (shl1_8 k) j) (and (= j k) (<= 0 k) (< k 8))) :pattern ((bit (shl1_8 k) j)))))
(assert (forall ((k Int)) (! (and (=> (<= 16 k) (= (shl1_16 k) 0)) (=> (and (<= 0 k) (< k 16)) (and (<= 1 (shl1_16 k)) (<= (shl1_16 k) 32768)))) :pattern ((shl1_16 k)))))
(assert (forall ((k Int) (j Int)) (! (= (bit (shl1_16 k) j) (and (= j k) (<= 0 k) (< k 16))) :pattern ((bit (shl1_16 k) j)))))
(assert (forall ((k Int)) (! (and (=> (<= 32 k) (= (shl1_32 k) 0)) (=> (and (<= 0 k) (< k 32)) (and (<= 1 (shl1_32 k)) (<= (shl1_32 k) 2147483648)))) :pattern ((shl1_32 k)))))
(assert (forall ((k Int) (j Int)) (! (= (bit (shl1_32 k) j) (and (= j k) (<= 0 k) (< k 32))) :pattern ((bit (shl1_32 k) j)))))
(assert (forall ((k Int)) (! (and (=> (<= 64 k) (= (shl1_64 k) 0)) (=> (and (<= 0 k) (< k 64)) (and (<= 1 (shl1_64 k)) (<= (shl1_64 k) 9223372036854775808)))) :pattern ((shl1_64 k)))))
(assert (forall ((k Int) (j Int)) (! (= (bit (shl1_64 k) j) (and (= j k) (<= 0 k) (< k 64))) :pattern ((bit (shl1_64 k) j)))))
(assert (forall ((x Int) (k Int)) (! (=> (and (<= 0 x) (<= 0 k)) (and (<= 0 (shrv x k)) (<= (shrv x k) x))) :pattern ((shrv x k)))))
(assert (forall ((x Int) (k Int) (j Int)) (! (=> (and (<= 0 x) (<= 0 k) (<= 0 j)) (= (bit (shrv x k) j) (bit x (+ j k)))) :pattern ((bit (shrv x k) j)))))
`

func preludeFor(text string) string {
	var b strings.Builder
	b.WriteString(preludeBase)
	if strings.Contains(text, "(vmul ") || strings.Contains(text, "(vdiv ") || strings.Contains(text, "(vmod ") {
		b.WriteString(preludeMul)
	}
	if strings.Contains(text, "itag") {
		b.WriteString(preludeIface)
	}
	if strings.Contains(text, "Str") {
		b.WriteString(preludeStr)
		if strings.Contains(text, "(scat ") {
			b.WriteString(preludeScat)
		}
		if strings.Contains(text, "(ssub ") {
			b.WriteString(preludeSsub)
		}
		if strings.Contains(text, "(slt ") {
			b.WriteString(preludeSlt)
		}
	}
	for _, w := range []string{"(bit ", "(band ", "(bandn ", "(bor ", "(bxor ", "(bwit ", "(shl1_", "(shlv_", "(shrv "} {
		if strings.Contains(text, w) {
			b.WriteString(preludeBits)
			break
		}
	}
	if strings.Contains(text, "(shrv ") {
		b.WriteString(preludeShr)
	}
	return b.String()
}

// the last bit of a shifted word
const preludeShr = `(assert (forall ((x Int) (k Int)) (! (=> (and (<= 0 x) (<= 0 k)) (= (= (mod (shrv x k) 2) 1) (bit x k))) :pattern ((shrv x k)))))
`

type solverDef struct {
	name string
	args func(file string, sec int) []string
	bin  string
}

var solvers = map[string]solverDef{
	"z3-ne": {"z3-5.3.2 (no array extensionality)", func(f string, s int) []string {
		return []string{"smt.auto_config=false", "smt.mbqi=false", "smt.array.extensional=false", fmt.Sprintf("-T:%d", s), f}
	}, "z3-new"},
	"z3-ne2": {"z3-5.3.2 (no array extensionality, arith 2)", func(f string, s int) []string {
		return []string{"smt.auto_config=false", "smt.mbqi=false", "smt.array.extensional=false", "smt.arith.solver=2", fmt.Sprintf("-T:%d", s), f}
	}, "z3-new"},
	"z3-ned": {"z3-5.3.2 (no array extensionality, delayed units)", func(f string, s int) []string {
		return []string{"smt.auto_config=false", "smt.mbqi=false", "smt.array.extensional=false", "smt.delay_units=true", fmt.Sprintf("-T:%d", s), f}
	}, "z3-new"},
	"z3-old-ne": {"z3-4.8.12 (no array extensionality)", func(f string, s int) []string {
		return []string{"smt.auto_config=false", "smt.mbqi=false", "smt.array.extensional=false", fmt.Sprintf("-T:%d", s), f}
	}, "z3"},
	"z3-old-r0": {"z3-4.8.12 (no relevancy)", func(f string, s int) []string {
		return []string{"smt.auto_config=false", "smt.mbqi=false", "smt.array.extensional=false", "smt.relevancy=0", fmt.Sprintf("-T:%d", s), f}
	}, "z3"},
	"z3-new": {"z3-5.3.2 (mbqi off)", func(f string, s int) []string {
		return []string{"smt.auto_config=false", "smt.mbqi=false", fmt.Sprintf("-T:%d", s), f}
	}, "z3-new"},
	"z3-new-mbqi": {"z3-5.3.2", func(f string, s int) []string { return []string{fmt.Sprintf("-T:%d", s), f} }, "z3-new"},
	"z3-old": {"z3-4.8.12", func(f string, s int) []string {
		return []string{"smt.auto_config=false", "smt.mbqi=false", fmt.Sprintf("-T:%d", s), f}
	}, "z3"},
	"cvc5": {"cvc5-1.1.2", func(f string, s int) []string { return []string{"--quiet", fmt.Sprintf("--tlimit=%d", s*1000), f} }, "cvc5"},
}

type stage struct {
	solver string
	sec    int
}

type Solver struct {
	sem    chan struct{}
	dir    string
	mu     sync.Mutex
	n      int
	scale  int
	cache  map[[32]byte]solveRes
	stats  map[string]int
	timeMs map[string]int64

	deadline time.Time
}

type solveRes struct {
	res    string // unsat, sat, unknown
	solver string
	ms     int64
	out    string
}

func newSolver(scale, par int) *Solver {
	d, err := os.MkdirTemp("", "vcg")
	if err != nil {
		panic(err)
	}
	return &Solver{sem: make(chan struct{}, par), dir: d, scale: scale, cache: map[[32]byte]solveRes{}, stats: map[string]int{}, timeMs: map[string]int64{}}
}

func (s *Solver) close() { os.RemoveAll(s.dir) }

func (s *Solver) run(query string, stages []stage) solveRes {
	key := sha256.Sum256([]byte(query + fmt.Sprint(stages, s.scale)))
	s.mu.Lock()
	if r, ok := s.cache[key]; ok {
		s.mu.Unlock()
		return r
	}
	s.n++
	file := filepath.Join(s.dir, fmt.Sprintf("q%d.smt2", s.n))
	s.mu.Unlock()
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	os.WriteFile(file, []byte(query), 0o644)
	defer os.Remove(file)
	cfile := file
	if q2 := noConstArrays(query); q2 != query {
		cfile = file + ".cvc5.smt2"
		os.WriteFile(cfile, []byte(q2), 0o644)
		defer os.Remove(cfile)
	}
	var r solveRes
	r.res = "unknown"
	var outs []string
	for _, st := range stages {
		if !s.deadline.IsZero() && time.Now().After(s.deadline) {
			outs = append(outs, "time budget exhausted")
			break
		}
		def := solvers[st.solver]
		sec := st.sec * s.scale
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+3)*time.Second)
		t0 := time.Now()
		qf := file
		if def.bin == "cvc5" {
			qf = cfile
		}
		cmd := exec.CommandContext(ctx, def.bin, def.args(qf, sec)...)
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &out
		cmd.Run()
		cancel()
		ms := time.Since(t0).Milliseconds()
		text := strings.TrimSpace(out.String())
		first := ""
		for _, ln := range strings.Split(text, "\n") {
			ln = strings.TrimSpace(ln)
			if strings.HasPrefix(ln, "(error") {
				break
			}
			if ln == "unsat" || ln == "sat" || ln == "unknown" {
				first = ln
				break
			}
		}
		r.ms += ms
		s.mu.Lock()
		s.timeMs[def.name] += ms
		s.mu.Unlock()
		if len(text) > 600 {
			text = text[:600]
		}
		outs = append(outs, def.name+": "+text)
		if first == "unsat" || first == "sat" {
			r.res = first
			r.solver = def.name
			break
		}
	}
	r.out = strings.Join(outs, "\n")
	s.mu.Lock()
	s.cache[key] = r
	if r.res == "unsat" {
		s.stats[r.solver]++
	}
	s.mu.Unlock()
	return r
}

func (c *Ctx) query(prefix int, goal *Term) string {
	var b strings.Builder
	for _, d := range c.decls {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	for _, l := range c.log[:prefix] {
		b.WriteString(l)
		b.WriteByte('\n')
	}
	fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", goal.str)
	t := b.String()
	return preludeFor(t) + t
}

// noConstArrays replaces the constant arrays whose element is not a literal by
// named arrays with their definition (cvc5 accepts values only)
func noConstArrays(q string) string {
	const mark = "((as const "
	if !strings.Contains(q, mark) {
		return q
	}
	match := func(t string, i int) int { // end of the term starting at i
		if t[i] != '(' {
			for i < len(t) && t[i] != ' ' && t[i] != ')' {
				i++
			}
			return i
		}
		d := 0
		for ; i < len(t); i++ {
			if t[i] == '(' {
				d++
			} else if t[i] == ')' {
				d--
				if d == 0 {
					return i + 1
				}
			}
		}
		return len(t)
	}
	var out strings.Builder
	names := map[string]string{}
	for _, line := range strings.SplitAfter(q, "\n") {
		pos := 0
		for {
			j := strings.Index(line[pos:], mark)
			if j < 0 {
				break
			}
			j += pos
			s0 := j + len(mark)
			s1 := match(line, s0)
			v0 := s1 + 2
			if v0 >= len(line) {
				break
			}
			v1 := match(line, v0)
			val := line[v0:v1]
			end := v1 + 1
			switch {
			case val == "0" || val == "0.0" || val == "true" || val == "false" || strings.HasPrefix(val, "(_ bv") || strings.Contains(val, "!") || strings.HasPrefix(line, "(define"):
				pos = s1
				continue
			}
			whole := line[j:end]
			if strings.Contains(val, mark) {
				pos = v0
				continue
			}
			nm := names[whole]
			if nm == "" {
				nm = fmt.Sprintf("constarr_%d", len(names))
				names[whole] = nm
				fmt.Fprintf(&out, "(declare-const %s %s)\n(assert (forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", nm, line[s0:s1], nm, val, nm)
			}
			line = line[:j] + nm + line[end:]
			pos = j
		}
		out.WriteString(line)
	}
	return out.String()
}
