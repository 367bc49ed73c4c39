# F09: listing and the font selectors
package github.com/benoitkugler/textprocessing/fontconfig

spec func listingOp() opKind = opWithFlags(opListing, opFlagIgnoreBlanks)

# some value of the font matches v
spec func someMatch(font valueList, v Value) bool = exists k int :: {font[k]} 0 <= k && k < len(font) && cmpOf(font[k].Value, listingOp(), v)
# every value of the query is matched
spec opaque listMatched(query valueList, font valueList) bool = forall j int :: {query[j]} 0 <= j && j < len(query) ==> someMatch(font, query[j].Value)

func opWithFlags
  inline

func listMatchAny
  option reveal = listMatched
  ensures [any] result <==> listMatched(query, font)
  loop 0:
    invariant forall j int :: {query[j]} 0 <= j && j < rangeidx ==> someMatch(font, query[j].Value)
  loop 1:
    invariant !found && (forall k int :: {font[k]} 0 <= k && k < rangeidx ==> !cmpOf(font[k].Value, listingOp(), pat.Value))

spec func valsOf(p Pattern, o Object) valueList = p[o] == nil ? nil : *p[o]

spec opaque patMatched(p Pattern, font Pattern) bool = forall o Object :: {p[o]} o in p && o != NAMELANG ==> listMatched(*p[o], valsOf(font, o))

func patternMatchAny
  option reveal = patMatched
  requires forall o Object :: o in p ==> p[o] != nil
  ensures [match] result <==> patMatched(p, font)
  loop 0:
    invariant forall o Object :: {visited[o]} visited[o] && o != NAMELANG ==> listMatched(*p[o], valsOf(font, o))

spec func someAccepts(fs Fontset, font Pattern) bool = exists i int :: {fs[i]} 0 <= i && i < len(fs) && patMatched(fs[i], font)

spec opaque picked(accepts, rejects Fontset, f Pattern) bool = someAccepts(accepts, f) || !someAccepts(rejects, f)
spec func selects(config *Config, f Pattern) bool = picked(config.acceptPatterns, config.rejectPatterns, f)

func Config.acceptFont
  option reveal = picked
  requires config != nil
  requires wellFormed(config.acceptPatterns) && wellFormed(config.rejectPatterns)
  ensures [selected] result <==> selects(config, font)
  loop 0:
    invariant forall i int :: {config.acceptPatterns[i]} 0 <= i && i < rangeidx ==> !patMatched(config.acceptPatterns[i], font)
  loop 1:
    invariant forall i int :: {config.rejectPatterns[i]} 0 <= i && i < rangeidx ==> !patMatched(config.rejectPatterns[i], font)


extern fmt.Errorf
  ensures result != nil

extern path/filepath.Match
  ensures result0 <==> globMatch(pattern, name)
spec func globMatch(pattern string, name string) bool
spec func someGlob(globs strSet, name string) bool = exists g string :: {globs[g]} g in globs && globMatch(g, name)

func Config.acceptFilename
  requires config != nil
  ensures [selected] result <==> someGlob(config.acceptGlobs, filename) || !someGlob(config.rejectGlobs, filename)
  loop 0:
    invariant forall g string :: {visited[g]} visited[g] ==> !globMatch(g, filename)
  loop 1:
    invariant forall g string :: {visited[g]} visited[g] ==> !globMatch(g, filename)

spec func wellFormed(fs Fontset) bool = forall i int, o Object :: {fs[i][o]} 0 <= i && i < len(fs) && o in fs[i] ==> fs[i][o] != nil

# the patterns read from the content
spec func scanned(content any, id string, config *Config) Fontset
func scanOneFontFile
  trusted "reading a font file is outside of the contracts: the patterns found are an arbitrary list"
  ensures fresh(result) || result == nil
  ensures sameslice(result, scanned(file, fileID, config))


# the number of the n first fonts which are selected: the position of the next one in the result
spec rec nPicked(accepts, rejects, fs Fontset, n int) int = n <= 0 ? 0 : nPicked(accepts, rejects, fs, n - 1) + (picked(accepts, rejects, fs[n - 1]) ? 1 : 0)

func Config.ScanFontRessource
  requires config != nil
  requires wellFormed(config.acceptPatterns) && wellFormed(config.rejectPatterns)
  ensures [invalid] result1 != nil <==> len(scanned(content, contentID, config)) == 0
  ensures [selected] forall i int :: {result0[i]} 0 <= i && i < len(result0) ==> selects(config, result0[i])
  ensures [kept] forall k int :: {scanned(content, contentID, config)[k]} 0 <= k && k < len(scanned(content, contentID, config)) && selects(config, scanned(content, contentID, config)[k]) ==> result0[nPicked(config.acceptPatterns, config.rejectPatterns, scanned(content, contentID, config), k)] == scanned(content, contentID, config)[k]
  ensures [len] len(result0) == nPicked(config.acceptPatterns, config.rejectPatterns, scanned(content, contentID, config), len(scanned(content, contentID, config)))
  loop 0:
    invariant out == nil || (fresh(out) && obj(out) != obj(fonts))
    invariant len(out) == nPicked(config.acceptPatterns, config.rejectPatterns, fonts, rangeidx)
    invariant forall i int :: {out[i]} 0 <= i && i < len(out) ==> selects(config, out[i])
    invariant forall k int :: {fonts[k]} 0 <= k && k < rangeidx && selects(config, fonts[k]) ==> 0 <= nPicked(config.acceptPatterns, config.rejectPatterns, fonts, k) && nPicked(config.acceptPatterns, config.rejectPatterns, fonts, k) < len(out) && out[nPicked(config.acceptPatterns, config.rejectPatterns, fonts, k)] == fonts[k]

# the position of the first of the n first values which compares to lang as wanted
spec func tagIs(v Value, lang string, want langResult) bool = typeis(v, String) && tagCompare(string(v.(String)), lang) == want
spec func firstTag(e valueList, n int, lang string, want langResult, r int) bool = (r == -1 && (forall k int :: {e[k]} 0 <= k && k < n ==> !tagIs(e[k].Value, lang, want))) || (0 <= r && r < n && tagIs(e[r].Value, lang, want) && (forall k int :: {e[k]} 0 <= k && k < r ==> !tagIs(e[k].Value, lang, want)))

# the best position for lang: an equal tag, then another territory, then English, then the first one
spec opaque bestTag(e valueList, lang string, r int) bool = 0 <= r && (r == 0 || r < len(e)) && (forall a int :: {firstTag(e, len(e), lang, langEqual, a)} firstTag(e, len(e), lang, langEqual, a) && a >= 0 ==> r == a) && (forall t, d int :: {firstTag(e, len(e), lang, langDifferentTerritory, t), firstTag(e, len(e), "en", langEqual, d)} firstTag(e, len(e), lang, langEqual, -1) && firstTag(e, len(e), lang, langDifferentTerritory, t) && firstTag(e, len(e), "en", langEqual, d) ==> r == (t > 0 ? t : (d > 0 ? d : 0)))

func Pattern.getDefaultObjectLangIndex
  option reveal = bestTag
  ensures [best] bestTag(valsOf(font, object), lang, result)
  loop 0:
    invariant firstTag(e, rangeidx, lang, langEqual, -1)
    invariant firstTag(e, rangeidx, lang, langDifferentTerritory, idx)
    invariant firstTag(e, rangeidx, "en", langEqual, defidx)

property F09: listMatchAny, patternMatchAny, Config.acceptFont, Config.acceptFilename, Config.ScanFontRessource, Pattern.getDefaultObjectLangIndex
