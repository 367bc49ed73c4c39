package github.com/benoitkugler/textprocessing/fontconfig

spec func isNum(v Value) bool = typeis(v, Int) || typeis(v, Float)
spec func num(v Value) float32 = typeis(v, Int) ? float32(v.(Int)) : float32(v.(Float))
spec func isInterval(v Value) bool = typeis(v, Int) || typeis(v, Float) || typeis(v, Range)
spec func lo(v Value) float32 = typeis(v, Range) ? v.(Range).Begin : num(v)
spec func hi(v Value) float32 = typeis(v, Range) ? v.(Range).End : num(v)
spec func wfInterval(v Value) bool = isInterval(v) ==> lo(v) <= hi(v)

func compareNumber
  ensures [mismatch] !isNum(value1) || !isNum(value2) ==> result0 == nil && result1 == -1
  ensures [best] isNum(value1) && isNum(value2) ==> result0 == value2
  ensures [distance] isNum(value1) && isNum(value2) ==> result1 == abs(num(value2) - num(value1))
  ensures [zero] isNum(value1) && isNum(value2) ==> (result1 == 0 <==> num(value1) == num(value2))

extern strings.EqualFold
  ensures result == foldEq(s, t)
spec func foldEq(a string, b string) bool

func compareString
  requires typeis(v1, String) && typeis(v2, String)
  ensures [best] result0 == v2
  ensures [distance] result1 == (foldEq(string(v1.(String)), string(v2.(String))) ? 0 : 1)

# first byte in lower case, or 0
spec func firstLow(s string) int = len(s) == 0 ? 0 : (65 <= s[0] && s[0] <= 90 ? s[0] + 32 : s[0])
func toLower
  ensures result == firstLow(s)

func compareFamily
  requires typeis(v1, String) && typeis(v2, String)
  ensures [best] result0 == v2
  ensures [binary] result1 == 0 || result1 == 1
  ensures [zero] result1 == 0 ==> blankFold(string(v1.(String))) == blankFold(string(v2.(String)))
  ensures [one] result1 == 1 ==> blankFold(string(v1.(String))) != blankFold(string(v2.(String))) || (firstLow(string(v1.(String))) != firstLow(string(v2.(String))) && firstLow(string(v1.(String))) != ' ' && firstLow(string(v2.(String))) != ' ')

func matchIgnoreCaseAndDelims
  trusted "length of a common prefix of normalised copies of the names; strings.Replacer does not lengthen them (checked by the bounded harness)"
  ensures 0 <= result && result <= len(s1)

func comparePostScript
  requires typeis(v1, String) && typeis(v2, String)
  ensures [best] result0 == v2
  ensures [range] 0 <= result1 && result1 <= 1

func compareBool
  ensures [mismatch] !typeis(val1, Bool) || !typeis(val2, Bool) ==> result0 == nil && result1 == -1
  ensures [distance] typeis(val1, Bool) && typeis(val2, Bool) ==> result1 == (val1.(Bool) == val2.(Bool) ? 0 : 1)
  ensures [best] typeis(val1, Bool) && typeis(val2, Bool) ==> typeis(result0, Bool) && result0.(Bool) == (val2.(Bool) != DontCare ? val2.(Bool) : val1.(Bool))

func compareRange
  requires wfInterval(v1) && wfInterval(v2)
  ensures [mismatch] !isInterval(v1) || !isInterval(v2) ==> result0 == nil && result1 == -1
  ensures [overlap] isInterval(v1) && isInterval(v2) ==> (result1 == 0 <==> lo(v1) <= hi(v2) && lo(v2) <= hi(v1))
  ensures [gap] isInterval(v1) && isInterval(v2) && hi(v1) < lo(v2) ==> result1 == lo(v2) - hi(v1)
  ensures [gap2] isInterval(v1) && isInterval(v2) && hi(v2) < lo(v1) ==> result1 == lo(v1) - hi(v2)
  ensures [best] isInterval(v1) && isInterval(v2) ==> typeis(result0, Float) && lo(v2) <= float32(result0.(Float)) && float32(result0.(Float)) <= hi(v2)
  ensures [common] isInterval(v1) && isInterval(v2) && result1 == 0 ==> lo(v1) <= float32(result0.(Float)) && float32(result0.(Float)) <= hi(v1)

func compareSize
  requires wfInterval(v1) && wfInterval(v2)
  ensures [mismatch] !isInterval(v1) || !isInterval(v2) ==> result0 == nil && result1 == -1
  ensures [nonneg] isInterval(v1) && isInterval(v2) ==> result1 >= 0
  ensures [overlap] isInterval(v1) && isInterval(v2) && lo(v1) <= hi(v2) && lo(v2) <= hi(v1) ==> (lo(v2) != hi(v2) && lo(v1) == hi(v2) ? 0 < result1 && result1 <= 1.1e-15 : result1 == 0)
  ensures [gap] isInterval(v1) && isInterval(v2) && hi(v1) < lo(v2) ==> result1 == lo(v2) - hi(v1)
  ensures [gap2] isInterval(v1) && isInterval(v2) && hi(v2) < lo(v1) ==> result1 == lo(v1) - hi(v2)
  ensures [best] isInterval(v1) && isInterval(v2) ==> typeis(result0, Float) && lo(v1) <= float32(result0.(Float)) && float32(result0.(Float)) <= hi(v1)

func rangeCompare
  ensures [equal] op == opEqual ==> (result <==> a.Begin == b.Begin && a.End == b.End)
  ensures [notequal] op == opNotEqual ==> (result <==> !(a.Begin == b.Begin && a.End == b.End))
  ensures [contains] op == opContains || op == opListing ==> (result <==> a.Begin >= b.Begin && a.End <= b.End)
  ensures [notcontains] op == opNotContains ==> (result <==> !(a.Begin >= b.Begin && a.End <= b.End))
  ensures [less] op == opLess ==> (result <==> a.End < b.Begin)
  ensures [lessequal] op == opLessEqual ==> (result <==> a.End <= b.Begin)
  ensures [more] op == opMore ==> (result <==> a.Begin > b.End)
  ensures [moreequal] op == opMoreEqual ==> (result <==> a.Begin >= b.End)

property F05: compareNumber, compareString, toLower, compareFamily, comparePostScript, compareBool, compareRange, compareSize, rangeCompare

# ---------------------------------------------------------------- globs

spec rec globFrom(g string, i int, s string, j int) bool = i >= len(g) ? j == len(s) : (g[i] == '*' ? globFrom(g, i+1, s, j) || (j < len(s) && globFrom(g, i, s, j+1)) : (j < len(s) && (g[i] == '?' || g[i] == s[j]) && globFrom(g, i+1, s, j+1)))

extern strings.IndexByte
  ensures result == -1 ==> forall k int :: 0 <= k && k < len(s) ==> s[k] != c
  ensures result != -1 ==> 0 <= result && result < len(s) && s[result] == c

# the part of a name from b, against the part of a glob from a
lemma globShift(g string, a int, i int, s string, b int, j int)
  requires 0 <= a && 0 <= i && a + i <= len(g) && 0 <= b && 0 <= j && b + j <= len(s)
  ensures globFrom(g[a:], i, s[b:], j) <==> globFrom(g, a+i, s, b+j)
  decreases len(g) - a - i + len(s) - b - j
  ih a + i < len(g) ==> globShift(g, a, i+1, s, b, j)
  ih b + j < len(s) ==> globShift(g, a, i, s, b, j+1)
  ih a + i < len(g) && b + j < len(s) ==> globShift(g, a, i+1, s, b, j+1)

# a final star matches everything
lemma globStar(g string, i int, s string, j int)
  requires 0 <= i && i == len(g) - 1 && g[i] == '*' && 0 <= j && j <= len(s)
  ensures globFrom(g, i, s, j)
  decreases len(s) - j
  ih j < len(s) ==> globStar(g, i, s, j+1)

# without star the lengths are equal
lemma globLen(g string, i int, s string, j int)
  requires 0 <= i && i <= len(g) && 0 <= j && j <= len(s)
  requires forall k int :: i <= k && k < len(g) ==> g[k] != '*'
  ensures globFrom(g, i, s, j) ==> len(s) - j == len(g) - i
  decreases len(g) - i
  ih i < len(g) && j < len(s) ==> globLen(g, i+1, s, j+1)

# a star followed by no star can skip up to the last possible position
spec func noStar(g string, i int) bool = forall k int :: {g[k]} i <= k && k < len(g) ==> g[k] != '*'
lemma globSkip(g string, i int, s string, j int, d int)
  requires 0 <= i && i < len(g) && g[i] == '*' && 0 <= j && 0 <= d && j + d <= len(s)
  requires noStar(g, i+1)
  requires len(s) - j - d == len(g) - i - 1
  ensures globFrom(g, i, s, j) <==> globFrom(g, i, s, j + d)
  decreases d
  use globLen(g, i+1, s, j)
  ih d > 0 ==> globSkip(g, i, s, j+1, d-1)

lemma globShort(g string, i int, s string, j int)
  requires 0 <= i && i < len(g) && g[i] == '*' && 0 <= j && j <= len(s)
  requires len(s) - j < len(g) - i - 1
  requires noStar(g, i+1)
  ensures !globFrom(g, i, s, j)
  decreases len(s) - j
  use globLen(g, i+1, s, j)
  ih j < len(s) ==> globShort(g, i, s, j+1)

func strGlobMatch
  ensures [glob] result <==> globFrom(glob, 0, st, 0)
  loop 0:
    invariant 0 <= str && str <= len(st)
    invariant [rest] globFrom(glob, 0, st, 0) <==> globFrom(glob, rangeidx, st, str)
    at begin:
      assert forall k int :: {glob[k]} i < k && k < len(glob) ==> (glob[i+1:])[k-i-1] == glob[k]
      use glob[i] == '*' && i == len(glob) - 1 ==> globStar(glob, i, st, str)
      use glob[i] == '*' && noStar(glob, i+1) && len(st) - str < len(glob) - i - 1 ==> globShort(glob, i, st, str)
      use glob[i] == '*' && noStar(glob, i+1) && len(st) - str >= len(glob) - i - 1 ==> globSkip(glob, i, st, str, len(st) - str - (len(glob) - i - 1))
  loop 1:
    invariant [star] i < len(glob) && glob[i] == '*' && rest == glob[i+1:] && 0 <= str && str <= len(st) + 1
    invariant [left] globFrom(glob, 0, st, 0) <==> str <= len(st) && globFrom(glob, i, st, str)
    at begin:
      use globShift(glob, i+1, 0, st, str, 0)

property F06: strGlobMatch
  lemmas globShift, globStar, globLen, globSkip, globShort

# ---------------------------------------------------------------- best match and sorted list

func Pattern.GetCharset
  ensures [found] result1 <==> hasCs(p, object)
  ensures [value] result1 ==> result0 == csOf(p, object)
spec func hasCs(p Pattern, object Object) bool = p[object] != nil && len(*p[object]) > 0 && typeis((*p[object])[0].Value, Charset)
spec func csOf(p Pattern, object Object) Charset = (*p[object])[0].Value.(Charset)

# lexicographic order of the scores from index i
spec rec lexLess(a, b [27]float32, i int) bool = i >= 27 ? false : (a[i] != b[i] ? a[i] < b[i] : lexLess(a, b, i+1))

func sortCompare
  requires a != nil && b != nil
  ensures [lex] result <==> lexLess(a.score, b.score, 0)
  loop 0:
    invariant [eq] ad == bd
    invariant [rest] lexLess(a.score, b.score, 0) <==> lexLess(a.score, b.score, i)

lemma lexIrrefl(a [27]float32, i int)
  requires 0 <= i
  ensures !lexLess(a, a, i)
  decreases 27 - i
  ih i < 27 ==> lexIrrefl(a, i+1)

lemma lexTrans(a, b, c [27]float32, i int)
  requires 0 <= i
  ensures lexLess(a, b, i) && lexLess(b, c, i) ==> lexLess(a, c, i)
  ensures !lexLess(a, b, i) && !lexLess(b, c, i) ==> !lexLess(a, c, i)
  decreases 27 - i
  ih i < 27 ==> lexTrans(a, b, c, i+1)

lemma lexAsym(a, b [27]float32, i int)
  requires 0 <= i
  ensures !(lexLess(a, b, i) && lexLess(b, a, i))
  decreases 27 - i
  ih i < 27 ==> lexAsym(a, b, i+1)

# the same as wfCharset
spec opaque wfSet(pn []uint16, pages []charPage) bool = sortedPages(pn) && len(pages) == len(pn) && (forall i int :: 0 <= i && i < len(pn) ==> pn[i] < 0xFFFF)

func sortWalk
  requires forall i int :: 0 <= i && i < len(n) ==> n[i] != nil
  requires forall i int :: 0 <= i && i < len(n) && hasCs(n[i].pattern, CHARSET) ==> wfSet(csOf(n[i].pattern, CHARSET).pageNumbers, csOf(n[i].pattern, CHARSET).pages)
  closed forall i int :: 0 <= i && i < len(n) && hasCs(n[i].pattern, CHARSET) ==> wf(csOf(n[i].pattern, CHARSET))
  ensures [all] !trim ==> len(result0) == len(n) && (forall i int :: 0 <= i && i < len(n) ==> result0[i] == n[i].pattern)
  ensures [wf] wfCharset(result1)
  ensures [sound] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chas(result1, p, w, k) ==> (exists j int :: 0 <= j && j < len(n) && hasCs(n[j].pattern, CHARSET) && chas(csOf(n[j].pattern, CHARSET), p, w, k))
  ensures [kept] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chas(result1, p, w, k) ==> (exists j int :: 0 <= j && j < len(result0) && hasCs(result0[j], CHARSET) && chas(csOf(result0[j], CHARSET), p, w, k))
  ensures [from] forall j int :: 0 <= j && j < len(result0) ==> (exists i int :: 0 <= i && i < len(n) && result0[j] == n[i].pattern)
  ensures [union] forall p, w, k, j int :: 0 <= w && w < 8 && 0 <= k && k < 32 && 0 <= j && j < len(n) && hasCs(n[j].pattern, CHARSET) && chas(csOf(n[j].pattern, CHARSET), p, w, k) ==> chas(result1, p, w, k)
  loop 0:
    invariant [fresh] (csp.pages == nil || fresh(csp.pages)) && (csp.pageNumbers == nil || fresh(csp.pageNumbers))
    invariant [wf] wfCharset(csp)
    invariant [fs] fs == nil || fresh(fs)
    invariant [all] !trim ==> len(fs) == i && (forall j int :: 0 <= j && j < i ==> fs[j] == n[j].pattern)
    invariant [sound] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chas(csp, p, w, k) ==> (exists j int :: 0 <= j && j < i && hasCs(n[j].pattern, CHARSET) && chas(csOf(n[j].pattern, CHARSET), p, w, k))
    invariant [kept] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chas(csp, p, w, k) ==> (exists j int :: 0 <= j && j < len(fs) && hasCs(fs[j], CHARSET) && chas(csOf(fs[j], CHARSET), p, w, k))
    invariant [from] forall j int :: 0 <= j && j < len(fs) ==> (exists k int :: 0 <= k && k < i && fs[j] == n[k].pattern)
    invariant [union] forall p, w, k, j int :: 0 <= w && w < 8 && 0 <= k && k < 32 && 0 <= j && j < i && hasCs(n[j].pattern, CHARSET) && chas(csOf(n[j].pattern, CHARSET), p, w, k) ==> chas(csp, p, w, k)

# the score of a font for a pattern (the table of the pattern's families is
# built from the pattern)
spec func scoreOf(p Pattern, font Pattern, i int) float32
spec func scored(p Pattern, font Pattern) bool
spec func tableFor(data compareData) Pattern

func Pattern.newCompareData
  trusted "the scores are an uninterpreted function of the pattern and the font; checked by the bounded harness"
  ensures tableFor(result) == pat

func blankCaseMap.compare
  trusted "the scores are an uninterpreted function of the pattern and the font; checked by the bounded harness"
  requires tableFor(data) == pat
  requires len(value) == 27
  modifies value[:]
  ensures result0 <==> scored(pat, font)
  ensures result0 ==> forall i int :: 0 <= i && i < 27 ==> value[i] == scoreOf(pat, font, i)

# the font a has a smaller score than b from index i on
spec rec better(p, a, b Pattern, i int) bool = i >= 27 ? false : (scoreOf(p, a, i) != scoreOf(p, b, i) ? scoreOf(p, a, i) < scoreOf(p, b, i) : better(p, a, b, i+1))

lemma betterTrans(p Pattern, i int)
  requires 0 <= i
  ensures [trans] forall a, b, c Pattern :: {better(p, a, b, i), better(p, b, c, i)} better(p, a, b, i) && better(p, b, c, i) ==> better(p, a, c, i)
  ensures [neg] forall a, b, c Pattern :: {better(p, a, b, i), better(p, c, b, i)} better(p, a, b, i) && !better(p, c, b, i) ==> better(p, a, c, i)
  decreases 27 - i
  ih i < 27 ==> betterTrans(p, i+1)

lemma betterIrrefl(p, a Pattern, i int)
  requires 0 <= i
  ensures !better(p, a, a, i)
  decreases 27 - i
  ih i < 27 ==> betterIrrefl(p, a, i+1)

func Fontset.matchInternal
  requires forall k int :: 0 <= k && k < len(set) ==> set[k] != nil
  ensures [none] result == nil <==> len(set) == 0 || (exists k int :: 0 <= k && k < len(set) && !scored(p, set[k]))
  ensures [member] result != nil ==> (exists k int :: 0 <= k && k < len(set) && result == set[k])
  ensures [minimal] result != nil ==> (forall k int :: 0 <= k && k < len(set) ==> !better(p, set[k], result, 0))
  ensures [first] result != nil ==> (exists k int :: 0 <= k && k < len(set) && result == set[k] && (forall j int :: 0 <= j && j < k ==> better(p, result, set[j], 0)))
  loop 0:
    invariant [scored] forall k int :: 0 <= k && k < f ==> scored(p, set[k])
    invariant [none] best == nil <==> f == 0
    invariant [score] f > 0 ==> forall i int :: 0 <= i && i < 27 ==> bestscore[i] == scoreOf(p, best, i)
    invariant [minimal] f > 0 ==> (forall k int :: 0 <= k && k < f ==> !better(p, set[k], best, 0))
    invariant [first] f > 0 ==> (exists k int :: 0 <= k && k < f && best == set[k] && (forall j int :: 0 <= j && j < k ==> better(p, best, set[j], 0)))
    at end:
      use betterIrrefl(p, best, 0)
      use betterTrans(p, 0)
  loop 1:
    invariant [cur] forall k int :: 0 <= k && k < 27 ==> score[k] == scoreOf(p, pat, k)
    invariant [start] i > 0 ==> f > 0
    invariant [prev] best == nil <==> f == 0
    invariant [prevscore] f > 0 ==> forall k int :: 0 <= k && k < 27 ==> ranged[k] == scoreOf(p, best, k) && bestscore[k] == ranged[k]
    invariant [minimal] f > 0 ==> (forall k int :: 0 <= k && k < f ==> !better(p, set[k], best, 0))
    invariant [first] f > 0 ==> (exists k int :: 0 <= k && k < f && best == set[k] && (forall j int :: 0 <= j && j < k ==> better(p, best, set[j], 0)))
    invariant [eq] f > 0 ==> (better(p, pat, best, 0) <==> better(p, pat, best, i))
    invariant [eq2] f > 0 ==> (better(p, best, pat, 0) <==> better(p, best, pat, i))
  loop 2:
    invariant forall k int :: 0 <= k && k < j ==> bestscore[k] == score[k]

property F04: Pattern.GetCharset, sortCompare, sortWalk, Fontset.matchInternal
  lemmas betterTrans, betterIrrefl, lexIrrefl, lexTrans, lexAsym
