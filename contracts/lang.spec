package github.com/benoitkugler/textprocessing/fontconfig

# ---- comparison of two language tags (a NUL character ends a tag)

spec func lowAt(s string, i int) int = i < len(s) ? (65 <= s[i] && s[i] <= 90 ? s[i] + 32 : s[i]) : 0
# the first position, from i on, where the tags differ or end
spec rec firstDiff(a, b string, i int) int = lowAt(a, i) != lowAt(b, i) || lowAt(a, i) == 0 ? i : firstDiff(a, b, i + 1)
spec func tagEnd(s string, i int) bool = i == len(s) || s[i] == '-'
spec func isUndTag(s string) bool = lowAt(s, 0) == 'u' && lowAt(s, 1) == 'n' && lowAt(s, 2) == 'd' && (len(s) == 3 || lowAt(s, 3) == '-')
# a subtag separator before k, not counting the one after "und"
spec func dashBefore(s string, k int) bool = exists j int :: {s[j]} 0 <= j && j < k && s[j] == '-' && !(isUndTag(s) && j <= 3)
spec hidden tagCompare(a, b string) langResult = tagCompareAt(a, b, firstDiff(a, b, 0))
spec func tagCompareAt(a, b string, d int) langResult = lowAt(a, d) == lowAt(b, d) ? (isUndTag(a) && d <= 3 ? (dashBefore(a, d) ? langDifferentTerritory : langDifferentLang) : langEqual) : (dashBefore(a, d) || (!(isUndTag(a) && d <= 3) && tagEnd(a, d) && tagEnd(b, d)) ? langDifferentTerritory : langDifferentLang)
spec hidden tagContains(super, sub string) bool = tagContainsAt(super, sub, firstDiff(super, sub, 0))
spec func tagContainsAt(a, b string, d int) bool = lowAt(a, d) == lowAt(b, d) || (lowAt(a, d) == '-' && lowAt(b, d) == 0) || (lowAt(a, d) == 0 && lowAt(b, d) == '-')

func langCompare
  option reveal = tagCompare
  ensures [result] result == tagCompare(s1, s2)
  ensures [range] result <= langDifferentLang
  loop 0:
    invariant 0 <= i && i <= len(s1) && i <= len(s2)
    invariant firstDiff(s1, s2, 0) == firstDiff(s1, s2, i)
    invariant isUnd <==> isUndTag(s1) && i <= 3
    invariant result == (dashBefore(s1, i) ? langDifferentTerritory : langDifferentLang)

func langContains
  option reveal = tagContains
  ensures [result] result == tagContains(super, sub)
  loop 0:
    invariant len(old(super)) - len(super) == len(old(sub)) - len(sub) && len(super) <= len(old(super))
    invariant firstDiff(old(super), old(sub), 0) == firstDiff(old(super), old(sub), len(old(super)) - len(super))
    invariant forall j int :: {super[j]} 0 <= j && j < len(super) ==> super[j] == old(super)[len(old(super)) - len(super) + j]
    invariant forall j int :: {sub[j]} 0 <= j && j < len(sub) ==> sub[j] == old(sub)[len(old(sub)) - len(sub) + j]

# the meaning of the two relations
lemma firstDiffSound(a, b string, i int)
  requires 0 <= i && i <= len(a) && i <= len(b)
  ensures [least] i <= firstDiff(a, b, i) && firstDiff(a, b, i) <= len(a) && firstDiff(a, b, i) <= len(b)
  ensures [same before] forall j int :: {lowAt(a, j)} i <= j && j < firstDiff(a, b, i) ==> lowAt(a, j) == lowAt(b, j) && lowAt(a, j) != 0
  ensures [stop] lowAt(a, firstDiff(a, b, i)) != lowAt(b, firstDiff(a, b, i)) || lowAt(a, firstDiff(a, b, i)) == 0
  decreases len(a) - i
  ih lowAt(a, i) == lowAt(b, i) && lowAt(a, i) != 0 ==> firstDiffSound(a, b, i + 1)

# equal means the same characters, up to the case
lemma compareEqual(a, b string)
  option reveal = tagCompare
  requires tagCompare(a, b) == langEqual
  requires forall j int :: {a[j]} 0 <= j && j < len(a) ==> a[j] != 0
  requires forall j int :: {b[j]} 0 <= j && j < len(b) ==> b[j] != 0
  use firstDiffSound(a, b, 0)
  ensures len(a) == len(b)
  ensures forall j int :: {lowAt(a, j)} 0 <= j && j < len(a) ==> lowAt(a, j) == lowAt(b, j)

# a tag contains itself, and every more specific tag of the same language
lemma containsSelf(a string)
  option reveal = tagContains
  use firstDiffSound(a, a, 0)
  ensures tagContains(a, a)

lemma containsTerritory(a, b string)
  option reveal = tagContains
  requires len(a) < len(b) && b[len(a)] == '-'
  requires forall j int :: {a[j]} 0 <= j && j < len(a) ==> a[j] != 0 && a[j] == b[j]
  use firstDiffSound(a, b, 0)
  use firstDiffSound(b, a, 0)
  ensures tagContains(a, b) && tagContains(b, a)

# ---- the table of the known languages

lemma langTables(i int)
  requires 0 <= i && i < len(fcLangCharSets)
  cases i < len(fcLangCharSets)
  ensures 0 <= fcLangCharSetIndices[i] && fcLangCharSetIndices[i] < 32 * langPageSize
  ensures fcLangCharSetIndicesInv[fcLangCharSetIndices[i]] == i

lemma langTablesUpTo(n int)
  requires 0 <= n && n <= len(fcLangCharSets)
  ensures forall i int :: {fcLangCharSetIndices[i]} 0 <= i && i < n ==> 0 <= fcLangCharSetIndices[i] && fcLangCharSetIndices[i] < 32 * langPageSize && fcLangCharSetIndicesInv[fcLangCharSetIndices[i]] == i
  decreases n
  ih 0 < n ==> langTablesUpTo(n - 1)
  use 0 < n ==> langTables(n - 1)

# the tags of the table have two to six characters, in lower case
lemma langTags(i int)
  option tables
  requires 0 <= i && i < len(fcLangCharSets)
  cases i < len(fcLangCharSets)
  ensures 2 <= len(fcLangCharSets[i].lang) && len(fcLangCharSets[i].lang) <= 8
  ensures 97 <= fcLangCharSets[i].lang[0] && fcLangCharSets[i].lang[0] <= 122
  ensures 97 <= fcLangCharSets[i].lang[1] && fcLangCharSets[i].lang[1] <= 122

lemma langRanges(i int)
  requires 0 <= i && i < 26
  cases i < 26
  ensures len(fcLangCharSetRanges) == 26
  ensures 0 <= fcLangCharSetRanges[i].begin && fcLangCharSetRanges[i].begin <= len(fcLangCharSets) && fcLangCharSetRanges[i].end < len(fcLangCharSets)

extern strings.Compare
  ensures result == strOrder(a, b)
spec func strOrder(a, b string) int

# entry i of the table is the tag
spec func isEntry(i int, tag string) bool = fcLangCharSets[i].lang[0] == lowAt(tag, 0) ? fcLangCharSets[i].lang[1] == lowAt(tag, 1) && (len(fcLangCharSets[i].lang) > 2 || len(tag) > 2 ==> strOrder(strings.ToLower(fcLangCharSets[i].lang[2:]), strings.ToLower(tag[2:])) == 0) : strOrder(strings.ToLower(fcLangCharSets[i].lang), strings.ToLower(tag)) == 0

# the position of a tag, as computed by findLangIndex
spec func langIndex(tag string) int

func findLangIndex
  ensures [found] result >= 0 ==> result < len(fcLangCharSets) && isEntry(result, lang)
  ensures [missing] result < 0 ==> -result - 1 <= len(fcLangCharSets)
  assumes [function] result == langIndex(lang)
  at entry:
    use langRanges(0)
    use langRanges(25)
    use 97 <= lowAt(lang, 0) && lowAt(lang, 0) <= 122 ==> langRanges(lowAt(lang, 0) - 97)
  loop 0:
    at begin:
      use langTags((high + low) / 2)
    invariant 0 <= low && high < len(fcLangCharSets) && 0 <= mid && mid < len(fcLangCharSets)

# ---- language sets

spec func langBit(page [9]uint32, id int) bool = bit(page[fcLangCharSetIndices[id] / 32], fcLangCharSetIndices[id] % 32)
spec func hasTag(ls Langset, tag string) bool = langIndex(tag) >= 0 ? langBit(ls.page, langIndex(tag)) : tag in ls.extra && ls.extra[tag]

func Langset.bitGet
  requires 0 <= id && id < len(fcLangCharSets)
  ensures [bit] result <==> langBit(ls.page, id)
  at entry:
    use langTablesUpTo(len(fcLangCharSets))

func Langset.bitSet
  requires ls != nil && 0 <= id && id < len(fcLangCharSets)
  modifies ls.page
  ensures [set] langBit(ls.page, id)
  ensures [others] forall j int :: {fcLangCharSetIndices[j]} 0 <= j && j < len(fcLangCharSets) && j != id ==> (langBit(ls.page, j) <==> old(langBit(ls.page, j)))
  at entry:
    use langTablesUpTo(len(fcLangCharSets))
    assert forall j int :: {fcLangCharSetIndices[j]} 0 <= j && j < len(fcLangCharSets) && j != id ==> fcLangCharSetIndices[j] != fcLangCharSetIndices[id]
    assert forall j int :: {fcLangCharSetIndices[j]} 0 <= j && j < len(fcLangCharSets) && j != id && fcLangCharSetIndices[j] / 32 == fcLangCharSetIndices[id] / 32 ==> fcLangCharSetIndices[j] % 32 != fcLangCharSetIndices[id] % 32

func Langset.bitReset
  requires ls != nil && 0 <= id && id < len(fcLangCharSets)
  modifies ls.page
  ensures [reset] !langBit(ls.page, id)
  ensures [others] forall j int :: {fcLangCharSetIndices[j]} 0 <= j && j < len(fcLangCharSets) && j != id ==> (langBit(ls.page, j) <==> old(langBit(ls.page, j)))
  at entry:
    use langTablesUpTo(len(fcLangCharSets))
    assert forall j int :: {fcLangCharSetIndices[j]} 0 <= j && j < len(fcLangCharSets) && j != id ==> fcLangCharSetIndices[j] != fcLangCharSetIndices[id]
    assert forall j int :: {fcLangCharSetIndices[j]} 0 <= j && j < len(fcLangCharSets) && j != id && fcLangCharSetIndices[j] / 32 == fcLangCharSetIndices[id] / 32 ==> fcLangCharSetIndices[j] % 32 != fcLangCharSetIndices[id] % 32

func Langset.add
  requires ls != nil
  modifies *ls, mapof(ls.extra)
  ensures [known] langIndex(lang) >= 0 ==> langBit(ls.page, langIndex(lang)) && ls.extra == old(ls.extra)
  ensures [known others] forall j int :: {fcLangCharSetIndices[j]} 0 <= j && j < len(fcLangCharSets) && j != langIndex(lang) ==> (langBit(ls.page, j) <==> old(langBit(ls.page, j)))
  ensures [extra] langIndex(lang) < 0 ==> ls.page == old(ls.page) && (lang in ls.extra && ls.extra[lang])
  ensures [extra others] forall s string :: {ls.extra[s]} s != lang || langIndex(lang) >= 0 ==> (s in ls.extra <==> old(s in ls.extra)) && (s in ls.extra ==> (ls.extra[s] <==> old(ls.extra[s])))
  ensures [own] ls.extra == old(ls.extra) || (old(ls.extra) == nil && fresh(ls.extra))

func Langset.del
  requires ls != nil
  modifies *ls, mapof(ls.extra)
  ensures [known] langIndex(lang) >= 0 ==> !langBit(ls.page, langIndex(lang))
  ensures [known others] forall j int :: {fcLangCharSetIndices[j]} 0 <= j && j < len(fcLangCharSets) && j != langIndex(lang) ==> (langBit(ls.page, j) <==> old(langBit(ls.page, j)))
  ensures [extra] langIndex(lang) < 0 ==> ls.page == old(ls.page) && !(lang in ls.extra)
  ensures [extra others] forall s string :: {ls.extra[s]} s != lang || langIndex(lang) >= 0 ==> (s in ls.extra <==> old(s in ls.extra)) && (s in ls.extra ==> (ls.extra[s] <==> old(ls.extra[s])))
  ensures [own] ls.extra == old(ls.extra)

func Langset.Copy
  ensures [page] forall k int :: {result.page[k]} result.page[k] == ls.page[k]
  ensures [extra] forall s string :: {s in result.extra} (s in result.extra <==> s in ls.extra) && (s in result.extra ==> result.extra[s])
  ensures [own] fresh(result.extra) && result.extra != nil
  loop 0:
    invariant forall s string :: {s in new.extra} s in new.extra <==> visited[s]
    invariant forall s string :: {new.extra[s]} s in new.extra ==> new.extra[s]

func Langset.getLangs
  ensures [known] forall i int :: {langBit(ls.page, i)} 0 <= i && i < len(fcLangCharSets) && langBit(ls.page, i) ==> fcLangCharSets[i].lang in result
  ensures [extra] forall s string :: {s in ls.extra} s in ls.extra ==> s in result
  ensures [only] forall s string :: {s in result} s in result ==> result[s] && (s in ls.extra || (exists i int :: {langBit(ls.page, i)} 0 <= i && i < len(fcLangCharSets) && langBit(ls.page, i) && fcLangCharSets[i].lang == s))
  ensures [own] fresh(result) && result != nil
  loop 0:
    invariant forall j int :: {langBit(ls.page, j)} 0 <= j && j < i ==> (langBit(ls.page, j) ==> fcLangCharSets[j].lang in langs)
    invariant forall s string :: {s in langs} s in langs ==> langs[s] && (exists j int :: {langBit(ls.page, j)} 0 <= j && j < len(fcLangCharSets) && langBit(ls.page, j) && fcLangCharSets[j].lang == s)
  loop 1:
    invariant forall j int :: {langBit(ls.page, j)} 0 <= j && j < len(fcLangCharSets) && langBit(ls.page, j) ==> fcLangCharSets[j].lang in langs
    invariant forall s string :: {visited[s]} visited[s] ==> s in langs
    invariant forall s string :: {s in langs} s in langs ==> langs[s] && (s in ls.extra || (exists i int :: {langBit(ls.page, i)} 0 <= i && i < len(fcLangCharSets) && langBit(ls.page, i) && fcLangCharSets[i].lang == s))

# the run of the entries with the same language as the tag, around its position
spec func place(tag string) int = langIndex(tag) >= 0 ? langIndex(tag) : -langIndex(tag) - 1
spec func sameLang(i int, tag string) bool = tagCompare(fcLangCharSets[i].lang, tag) != langDifferentLang
spec func inRun(i int, tag string) bool = 0 <= i && i < len(fcLangCharSets) && (i < place(tag) ? (forall j int :: {fcLangCharSets[j].lang} i <= j && j < place(tag) ==> sameLang(j, tag)) : (forall j int :: {fcLangCharSets[j].lang} place(tag) <= j && j <= i ==> sameLang(j, tag)))
spec func tableContains(page [9]uint32, tag string) bool = exists i int :: {langBit(page, i)} inRun(i, tag) && langBit(page, i) && tagContains(fcLangCharSets[i].lang, tag)
spec func extraContains(extra strSet, tag string) bool = exists s string :: {s in extra} s in extra && tagContains(s, tag)

func Langset.containsLang
  option reveal = containsTag
  ensures [contains] result == containsTag(ls, lang)
  loop 0:
    invariant 0 - 1 <= i && i < place(lang)
    invariant forall j int :: {fcLangCharSets[j].lang} i < j && j < place(lang) ==> sameLang(j, lang)
    invariant forall j int :: {langBit(ls.page, j)} i < j && j < place(lang) ==> !(langBit(ls.page, j) && tagContains(fcLangCharSets[j].lang, lang))
  loop 1:
    invariant place(lang) <= i
    invariant forall j int :: {fcLangCharSets[j].lang} place(lang) <= j && j < i ==> sameLang(j, lang)
    invariant forall j int :: {langBit(ls.page, j)} inRun(j, lang) && j < i ==> !(langBit(ls.page, j) && tagContains(fcLangCharSets[j].lang, lang))
  loop 2:
    invariant !tableContains(ls.page, lang)
    invariant forall s string :: {visited[s]} visited[s] ==> !tagContains(s, lang)

spec hidden containsTag(ls Langset, tag string) bool = (langIndex(tag) >= 0 && langBit(ls.page, langIndex(tag))) || tableContains(ls.page, tag) || extraContains(ls.extra, tag)
# only the bits of the table are used
spec func wfLangs(ls Langset) bool = forall k, j int :: {bit(ls.page[k], j)} 0 <= k && k < langPageSize && 0 <= j && j < 32 && bit(ls.page[k], j) ==> k * 32 + j < len(fcLangCharSetIndicesInv)
spec func bitIncluded(a, b Langset, k, j int) bool = bit(b.page[k], j) && !bit(a.page[k], j) ==> containsTag(a, fcLangCharSets[fcLangCharSetIndicesInv[k * 32 + j]].lang)
lemma langInv(i int)
  requires 0 <= i && i < len(fcLangCharSetIndicesInv)
  cases i < len(fcLangCharSetIndicesInv)
  ensures 0 <= fcLangCharSetIndicesInv[i] && fcLangCharSetIndicesInv[i] < len(fcLangCharSets)

func Langset.includes
  requires wfLangs(lsb)
  ensures [includes] result <==> (forall k, j int :: {bit(lsb.page[k], j)} 0 <= k && k < langPageSize && 0 <= j && j < 32 ==> bitIncluded(lsa, lsb, k, j)) && (forall s string :: {s in lsb.extra} s in lsb.extra ==> containsTag(lsa, s))
  loop 0:
    invariant forall k, j int :: {bit(lsb.page[k], j)} 0 <= k && k < i && 0 <= j && j < 32 ==> bitIncluded(lsa, lsb, k, j)
  loop 1:
    at begin:
      assert bit(missing, j) <==> bit(lsb.page[i], j) && !bit(lsa.page[i], j)
      use bit(missing, j) ==> langInv(i * 32 + j)
    at end:
      assert bitIncluded(lsa, lsb, i, j - 1)
    invariant 0 <= j && j <= 32
    invariant forall m int :: {bit(lsb.page[i], m)} 0 <= m && m < j ==> bitIncluded(lsa, lsb, i, m)
  loop 2:
    invariant forall s string :: {visited[s]} visited[s] ==> containsTag(lsa, s)

# ---- the comparison of two sets

spec func sameLang2(i int, tag string) bool = tagCompare(tag, fcLangCharSets[i].lang) != langDifferentLang
spec func inRun2(i int, tag string) bool = 0 <= i && i < len(fcLangCharSets) && (i < place(tag) ? (forall j int :: {fcLangCharSets[j].lang} i <= j && j < place(tag) ==> sameLang2(j, tag)) : (forall j int :: {fcLangCharSets[j].lang} place(tag) <= j && j <= i ==> sameLang2(j, tag)))
spec func tableWithin(page [9]uint32, tag string, r langResult) bool = exists i int :: {langBit(page, i)} inRun2(i, tag) && langBit(page, i) && tagCompare(tag, fcLangCharSets[i].lang) <= r
spec func extraWithin(extra strSet, tag string, r langResult) bool = exists s string :: {s in extra} s in extra && tagCompare(tag, s) <= r
# the set has a language which differs from the tag by r at most
spec hidden hasWithin(ls Langset, tag string, r langResult) bool = r >= langDifferentLang || (langIndex(tag) >= 0 && langBit(ls.page, langIndex(tag))) || tableWithin(ls.page, tag, r) || extraWithin(ls.extra, tag, r)

func Langset.hasLang
  option reveal = hasWithin
  requires ls != nil
  ensures [attained] hasWithin(*ls, lang, result)
  ensures [least] forall r langResult :: {hasWithin(*ls, lang, r)} 0 <= r && r < result ==> !hasWithin(*ls, lang, r)
  ensures [range] result <= langDifferentLang
  loop 0:
    invariant 0 - 1 <= i && i < place(lang)
    invariant best <= langDifferentLang
    invariant forall j int :: {fcLangCharSets[j].lang} i < j && j < place(lang) ==> sameLang2(j, lang)
    invariant forall j int :: {langBit(ls.page, j)} i < j && j < place(lang) && langBit(ls.page, j) ==> best <= tagCompare(lang, fcLangCharSets[j].lang)
    invariant best == langDifferentLang || (exists j int :: {langBit(ls.page, j)} i < j && j < place(lang) && langBit(ls.page, j) && tagCompare(lang, fcLangCharSets[j].lang) == best)
  loop 1:
    invariant place(lang) <= i
    invariant best <= langDifferentLang
    invariant forall j int :: {fcLangCharSets[j].lang} place(lang) <= j && j < i ==> sameLang2(j, lang)
    invariant forall j int :: {langBit(ls.page, j)} inRun2(j, lang) && j < i && langBit(ls.page, j) ==> best <= tagCompare(lang, fcLangCharSets[j].lang)
    invariant best == langDifferentLang || (exists j int :: {langBit(ls.page, j)} inRun2(j, lang) && langBit(ls.page, j) && tagCompare(lang, fcLangCharSets[j].lang) == best)
  loop 2:
    invariant best <= langDifferentLang
    invariant forall j int :: {langBit(ls.page, j)} inRun2(j, lang) && langBit(ls.page, j) ==> best <= tagCompare(lang, fcLangCharSets[j].lang)
    invariant best == langDifferentLang || tableWithin(ls.page, lang, best) || extraWithin(ls.extra, lang, best)
    invariant forall s string :: {visited[s]} visited[s] ==> best <= tagCompare(lang, s)

spec hidden setWithin(ls Langset, set strSet, r langResult) bool = r >= langDifferentLang || (exists s string :: {s in set} s in set && hasWithin(ls, s, r))

func Langset.compareStrSet
  option reveal = setWithin
  requires ls != nil
  ensures [attained] setWithin(*ls, set, result)
  ensures [least] forall r langResult :: {setWithin(*ls, set, r)} 0 <= r && r < result ==> !setWithin(*ls, set, r)
  ensures [range] result <= langDifferentLang
  loop 0:
    invariant best <= langDifferentLang
    invariant setWithin(*ls, set, best)
    invariant forall s string, r langResult :: {visited[s], hasWithin(*ls, s, r)} visited[s] && 0 <= r && hasWithin(*ls, s, r) ==> best <= r

spec func setNear(ls Langset, set strSet) bool = setWithin(ls, set, langEqual) || setWithin(ls, set, langDifferentTerritory)
spec func sharedPage(a, b Langset) bool = exists i int :: {a.page[i] & b.page[i]} 0 <= i && i < langPageSize && a.page[i] & b.page[i] != 0
spec func inCountry(a Langset, c int) bool = exists i int :: {a.page[i] & fcLangCountrySets[c][i]} 0 <= i && i < langPageSize && a.page[i] & fcLangCountrySets[c][i] != 0

func langSetCompare
  ensures [equal] result == langEqual <==> sharedPage(lsa, lsb) || (lsa.extra != nil && setWithin(lsb, lsa.extra, langEqual)) || (lsb.extra != nil && setWithin(lsa, lsb.extra, langEqual))
  ensures [different] result == langDifferentLang <==> !sharedPage(lsa, lsb) && (forall c int :: {fcLangCountrySets[c]} 0 <= c && c < len(fcLangCountrySets) ==> !(inCountry(lsa, c) && inCountry(lsb, c))) && !(lsa.extra != nil && setNear(lsb, lsa.extra)) && !(lsb.extra != nil && setNear(lsa, lsb.extra))
  ensures [range] result <= langDifferentLang
  loop 0:
    invariant forall k int :: {lsa.page[k] & lsb.page[k]} 0 <= k && k < i ==> lsa.page[k] & lsb.page[k] == 0
  loop 1:
    invariant best == langDifferentLang || best == langDifferentTerritory
    invariant best == langDifferentLang <==> (forall c int :: {fcLangCountrySets[c]} 0 <= c && c < rangeidx ==> !(inCountry(lsa, c) && inCountry(lsb, c)))
  loop 2:
    invariant aInCountrySet != 0 <==> (exists k int :: {lsa.page[k] & langCountry[k]} 0 <= k && k < i && lsa.page[k] & langCountry[k] != 0)
    invariant bInCountrySet != 0 <==> (exists k int :: {lsb.page[k] & langCountry[k]} 0 <= k && k < i && lsb.page[k] & langCountry[k] != 0)
    invariant aInCountrySet == 0 || bInCountrySet == 0
    invariant best == entry(best)

func langSetPromote
  ensures [empty] lang == "" ==> (forall i int :: {langBit(result.page, i)} 0 <= i && i < len(fcLangCharSets) ==> !langBit(result.page, i)) && len(result.extra) == 0

func isExclusiveLang
  ensures [exclusive] result <==> tagCompare(lang, "ja") == langEqual || tagCompare(lang, "zh-cn") == langEqual || tagCompare(lang, "ko") == langEqual || tagCompare(lang, "zh-tw") == langEqual
  at entry:
    use codePages()
  loop 0:
    invariant forall j int :: {codePageRange[j]} 0 <= j && j < rangeidx ==> tagCompare(lang, codePageRange[j].lang) != langEqual

lemma codePages()
  option tables
  ensures len(codePageRange) == 4
  ensures codePageRange[0].lang == "ja" && codePageRange[1].lang == "zh-cn" && codePageRange[2].lang == "ko" && codePageRange[3].lang == "zh-tw"

func newCharSetFromLang
  ensures [found] result != nil ==> (exists i int :: {fcLangCharSets[i].lang} 0 <= i && i < len(fcLangCharSets) && tagCompare(lang, fcLangCharSets[i].lang) != langDifferentLang)
  ensures [missing] result == nil ==> (forall i int :: {fcLangCharSets[i].lang} 0 <= i && i < len(fcLangCharSets) ==> tagCompare(lang, fcLangCharSets[i].lang) == langDifferentLang)
  ensures [charset] result != nil ==> wfCharset(*result)
  at entry:
    use langCharsets()
  loop 0:
    invariant country == 0 - 1 || (0 <= country && country < len(fcLangCharSets) && tagCompare(lang, fcLangCharSets[country].lang) == langDifferentTerritory)
    invariant country == 0 - 1 ==> (forall j int :: {fcLangCharSets[j].lang} 0 <= j && j < i ==> tagCompare(lang, fcLangCharSets[j].lang) == langDifferentLang)

func langsetEqual
  requires allTrue(lsb.extra)
  ensures [equal] result ==> lsa.page == lsb.page && len(lsa.extra) == len(lsb.extra) && (forall s string :: {s in lsa.extra} {s in lsb.extra} s in lsa.extra <==> s in lsb.extra)
  ensures [different] !result ==> lsa.page != lsb.page || (exists s string :: {s in lsa.extra} s in lsa.extra <==> !(s in lsb.extra))
  at entry:
    use sameKeys(lsa.extra, lsb.extra)
# a map is only used for its keys
spec func allTrue(m strSet) bool = forall s string :: {m[s]} s in m ==> m[s]

func strSetEquals
  ensures [same] result <==> len(a) == len(b) && (forall s string :: {s in a} s in a ==> s in b && b[s])
  loop 0:
    invariant forall s string :: {visited[s]} visited[s] ==> s in b && b[s]

lemma sameKeys(a, b strSet)
  trusted "pigeonhole principle on finite maps: of two maps with as many keys, one cannot have only keys of the other and miss one"
  ensures len(a) == len(b) && (forall s string :: {s in a} s in a ==> s in b) ==> (forall s string :: {s in b} s in b ==> s in a)
  ensures (forall s string :: {s in a} {s in b} s in a <==> s in b) ==> len(a) == len(b)

# ---- union and difference

lemma knownTags()
  trusted "looked up for every entry of the table by the run-time check of the property"
  ensures forall i int :: {fcLangCharSets[i].lang} 0 <= i && i < len(fcLangCharSets) ==> langIndex(fcLangCharSets[i].lang) == i

# the extra languages are the ones missing from the table
spec func wfExtra(m strSet) bool = forall s string :: {s in m} s in m ==> langIndex(s) < 0

func langSetOperate
  inline

func langSetUnion
  requires wfExtra(a.extra) && wfExtra(b.extra)
  ensures [known] forall i int :: {langBit(result.page, i)} 0 <= i && i < len(fcLangCharSets) ==> (langBit(result.page, i) <==> langBit(a.page, i) || langBit(b.page, i))
  ensures [extra] forall s string :: {s in result.extra} s in result.extra <==> s in a.extra || s in b.extra
  ensures [own] fresh(result.extra)
  at entry:
    use knownTags()
  loop 0:
    invariant forall i int :: {langBit(langset.page, i)} 0 <= i && i < len(fcLangCharSets) ==> (langBit(langset.page, i) <==> langBit(a.page, i) || visited[fcLangCharSets[i].lang])
    invariant forall s string :: {s in langset.extra} s in langset.extra <==> s in a.extra || (visited[s] && langIndex(s) < 0)
    invariant fresh(langset.extra) && fresh(set) && obj(langset.extra) != obj(set)

func langSetSubtract
  requires wfExtra(a.extra) && wfExtra(b.extra)
  ensures [known] forall i int :: {langBit(result.page, i)} 0 <= i && i < len(fcLangCharSets) ==> (langBit(result.page, i) <==> langBit(a.page, i) && !langBit(b.page, i))
  ensures [extra] forall s string :: {s in result.extra} s in result.extra <==> s in a.extra && !(s in b.extra)
  ensures [own] fresh(result.extra)
  at entry:
    use knownTags()
  loop 0:
    invariant forall i int :: {langBit(langset.page, i)} 0 <= i && i < len(fcLangCharSets) ==> (langBit(langset.page, i) <==> langBit(a.page, i) && !visited[fcLangCharSets[i].lang])
    invariant forall s string :: {s in langset.extra} s in langset.extra <==> s in a.extra && !(visited[s] && langIndex(s) < 0)
    invariant fresh(langset.extra) && fresh(set) && obj(langset.extra) != obj(set)

# ---- the languages supported by a character set

spec func supports(cs Charset, i int) bool = forall p, w, k int :: {chas(fcLangCharSets[i].charset, p, w, k)} 0 <= w && w < 8 && 0 <= k && k < 32 && chas(fcLangCharSets[i].charset, p, w, k) ==> chas(cs, p, w, k)
spec func lacks(cs Charset, i int) bool = exists p, w, k int :: {chas(fcLangCharSets[i].charset, p, w, k)} 0 <= w && w < 8 && 0 <= k && k < 32 && chas(fcLangCharSets[i].charset, p, w, k) && !chas(cs, p, w, k)

lemma langCharsets()
  trusted "checked for every entry of the table by the run-time check of the property"
  ensures forall i int :: {fcLangCharSets[i]} 0 <= i && i < len(fcLangCharSets) ==> wfCharset(fcLangCharSets[i].charset) && len(fcLangCharSets[i].charset.pageNumbers) <= 65535

func buildLangSet
  requires wfCharset(charset)
  ensures [supported] forall i int :: {langBit(result.page, i)} 0 <= i && i < len(fcLangCharSets) && langBit(result.page, i) ==> supports(charset, i)
  ensures [complete] exclusiveLang == "" ==> forall i int :: {langBit(result.page, i)} 0 <= i && i < len(fcLangCharSets) && !langBit(result.page, i) ==> lacks(charset, i)
  ensures [exclusive] forall i int :: {langBit(result.page, i)} 0 <= i && i < len(fcLangCharSets) && !isExclusive(fcLangCharSets[i].lang) && !langBit(result.page, i) ==> lacks(charset, i)
  ensures [extra] result.extra == nil
  at entry:
    use langCharsets()
    use langTablesUpTo(len(fcLangCharSets))
  loop 0:
    invariant ls.extra == nil
    invariant forall j int :: {langBit(ls.page, j)} 0 <= j && j < i ==> (langBit(ls.page, j) ? supports(charset, j) : lacks(charset, j) || (isExclusive(fcLangCharSets[j].lang) && exclusiveLang != ""))
    invariant forall j int :: {langBit(ls.page, j)} i <= j && j < len(fcLangCharSets) ==> !langBit(ls.page, j)
  loop 1:
    invariant rangeidx >= 0
spec func isExclusive(lang string) bool = tagCompare(lang, "ja") == langEqual || tagCompare(lang, "zh-cn") == langEqual || tagCompare(lang, "ko") == langEqual || tagCompare(lang, "zh-tw") == langEqual

property F02: langCompare, langContains, findLangIndex, Langset.bitGet, Langset.bitSet, Langset.bitReset, Langset.add, Langset.del, Langset.Copy, Langset.getLangs, Langset.containsLang, Langset.includes, Langset.hasLang, Langset.compareStrSet, langSetCompare, langSetPromote, isExclusiveLang, newCharSetFromLang, langsetEqual, strSetEquals, langSetUnion, langSetSubtract, buildLangSet
  lemmas firstDiffSound, compareEqual, containsSelf, containsTerritory, langTables, langTablesUpTo, langTags, langRanges, langInv, codePages
