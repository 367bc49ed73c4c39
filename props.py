prop("F01", "Character sets behave as mathematical sets of runes",
 "A character set built by any history of additions and deletions contains exactly the runes added and not deleted since. Union, subtraction, merge, inclusion and equality agree with the set operations on the runes, whatever the history of their operands, and leave operands they are not documented to change unchanged. Every set keeps its page index sorted and without duplicates.",
 ["inputs", "histories"], "all runes below 0xFFFF00, all histories of additions, deletions and set operations",
 "The tests add a few ranges and compare them; the page search, the page merge loops and the word masks have to be right for all sets and all interleavings of pages.",
 ["fontconfig/charset.go"], [("page search and insertion", "fontconfig/charset.go: findLeafForward, findLeafPos, findLeafCreate, putLeaf"), ("set operations", "fontconfig/charset.go: AddChar, DelChar, HasChar, merge, charsetUnion, Subtract, isSubset, charsetEqual")],
 ["fontconfig"], "All listed functions are under contract and proved; Len and charsetSubtractCount (population counts) are only run by the bounded harness.")
prop("B01", "Reordering a line permutes it by rules L1, L2 and L3",
 "Reordering a line of text applies one and the same permutation of the line to the visual text and to the position map, and changes nothing outside the line. Levels change only for the trailing explicit, boundary-neutral and white-space characters, which get the paragraph level, and the value returned is one more than the highest resulting level. The order is the one obtained by reversing, from the highest level down to one, each maximal run at or above that level (after moving non-spacing marks on request), and the logical-to-visual map is the inverse of the visual-to-logical one.",
 ["inputs"], "all lines (offset, length), level and type sequences, base directions and flags",
 "The conformance file samples paragraphs of a few characters with offset zero; the reversal loops must be right for every nesting of levels and every line position.",
 ["fribidi/bidi.go", "fribidi/fridibi.go"], [("reordering", "fribidi/bidi.go: ReorderLine, stringReverse, indexesReverse"), ("inverse map", "fribidi/fridibi.go: Visual.LogicalToVisual")],
 ["fribidi"], "Permutation, level reset, returned level and frame are proved; the exact L2/L3 order is decided by the bounded harness against an independent reading of the rule.")
prop("B02", "Removing bidi marks keeps exactly the other characters and consistent maps",
 "Removing the bidi marks of a text keeps, in order, exactly the characters that are neither explicit formatting, boundary-neutral, isolate nor directional-mark characters, with their levels and source positions. Afterwards each position map sends a kept character to its new position and a removed one to -1, whichever of the lists the caller provided.",
 ["inputs"], "all texts, level lists and mutually inverse position maps, each list given or omitted",
 "No test calls this function with position maps; the compaction and the map inversion share index variables that only agree when nothing is removed.",
 ["fribidi/fridibi.go"], [("compaction", "fribidi/fridibi.go: RemoveBidiMarks"), ("classification", "fribidi/fridibi.go: GetBidiType")],
 ["fribidi"], "Proved for all inputs with mutually inverse maps; the bidi class of a rune (golang.org/x/text) is an uninterpreted function.")
prop("B04", "Embedding levels follow the Unicode Bidirectional Algorithm",
 "For every sequence of bidi types of one paragraph, with or without bracket types, and every requested direction, GetParEmbeddingLevels returns the levels of rules P2 to I2 of UAX #9 (isolates, embeddings, overrides and their overflow past level 125, weak types, bracket pairs, neutrals) with parts 1 to 3 of L1 applied; removed characters take the level of the character before them. The direction is replaced by the resolved one only when it was weak or neutral and a strong character decides. The value returned is above every level, and the inputs are left alone.",
 ["inputs"], "all sequences of bidi types and bracket types of one paragraph, all base directions",
 "The conformance files sample short sequences; deep nesting, overflowing isolates, unmatched isolates and brackets across them appear in no test.",
 ["fribidi/bidi.go", "fribidi/run.go", "fribidi/fridibi.go"], [("resolution", "fribidi/bidi.go: GetParEmbeddingLevels, pushStatus, popStatus, sortedMerge"), ("run lists", "fribidi/run.go: encodeBidiTypes, shadowRunList, mergeWithPrev, compact, getAdjacentRun"), ("classes", "fribidi/fridibi.go: CharType predicates, dirToLevel, levelToDir, explicitToOverrideDir")],
 ["fribidi"], "The class predicates, direction and level conversions, status stack and run list operations are proved; the resolution itself (GetParEmbeddingLevels, over cyclic linked lists) is outside the reach of the verifier and is decided by a bounded comparison with an independent implementation of UAX #9 (texts up to 300 characters).")
prop("B03", "Arabic letters join, ligate and mirror according to their neighbours and levels",
 "Every character gets the joining type and the bracket type of the Unicode data (listed joining type, else transparent for Mn, Me and Cf, else ignored for marks; brackets share an identity exactly when they are a pair or canonically equivalent). After joining, a shaping letter keeps a side only if the next or previous letter, skipping marks, also joins on that side and nothing between them has another level; the marks between two joined letters carry both sides and every other property is left alone. Shaping replaces each shaping character by its presentation form for the joined sides, each mandatory lam-alef pair on one right-to-left level by its ligature and a zero-width filler, and each character of a right-to-left level by its mirror, which is an involution; it changes nothing else. The visual text of a line is the reordered shaped text.",
 ["inputs"], "all texts, bidi types, levels and joining types",
 "The tests shape a few words; joining across marks, explicit formatting and changes of level, and ligatures at the edge of a level, are not sampled.",
 ["fribidi/joining.go", "fribidi/arabic.go", "fribidi/shape.go", "fribidi/mirroring.go", "fribidi/brackets.go", "fribidi/fridibi.go"], [("joining", "fribidi/joining.go: joinArabic, getJoiningType"), ("shaping", "fribidi/arabic.go: shapeArabic, shapeArabicJoining, shapeArabicLigature; fribidi/shape.go: Shape, shapeMirroring"), ("brackets", "fribidi/brackets.go: GetBracket"), ("text to visual", "fribidi/fridibi.go: LogicalToVisual")],
 ["fribidi"], "All listed functions are under contract and proved; that the ligature table is sorted and the Unicode tables have the listed entries is evaluated for all the entries on every run; GetParEmbeddingLevels is a trusted contract (property B04).")
prop("F02", "Language sets behave as sets of language tags",
 "A language set holds exactly the tags added and not removed since, whether they belong to the table of known languages or not, and adding or removing a tag changes no other. The union, the difference, the copy and the equality of two sets are those of their tags, results share nothing with the operands, and a set written as text is read back. Two tags are equal when they have the same characters ignoring case, differ by territory when their first subtags are the same, and otherwise are different languages (und being no language); a set gives for a tag the best of its languages, and contains it exactly when one of its languages, known or not, is the tag itself or only adds or lacks subtags at the end; it includes another set exactly when it contains each of its languages. A locale name is normalised to the most specific known tag of its language and territory, and the languages of the user come from the first of FC_LANG, LC_ALL, LC_CTYPE and LANG that is set. The set built for a character set holds the languages all of whose characters are present (Han languages other than the exclusive one left out).",
 ["inputs", "histories"], "all language sets, tags (known, unknown, any case, with or without territory) and character sets",
 "The tests compare twenty pairs of sets and look for tags just added; the search around the position of a tag, the two parts of a set (bits and unknown tags) and their combinations have to be right for every set and tag.",
 ["fontconfig/lang.go", "fontconfig/fontconfig.go"], [("tags", "fontconfig/lang.go: langCompare, langContains, findLangIndex, normalizeLang"), ("sets", "fontconfig/lang.go: Langset.add, del, bitSet, bitGet, bitReset, Copy, getLangs, langSetUnion, langSetSubtract, langsetEqual"), ("matching", "fontconfig/lang.go: Langset.containsLang, hasLang, includes, langSetCompare"), ("fonts", "fontconfig/lang.go: buildLangSet, newCharSetFromLang")],
 ["fontconfig"], "Everything but normalizeLang, getDefaultLangs, the text form and the hash is proved; that looking up an entry of the table finds it is an assumption evaluated for all the entries on every run.")
prop("F03", "Pattern values keep their order, bindings and ownership under every edit",
 "Adding a value or a list of values to an object of a pattern puts deep copies of exactly these values, in order and with their bindings, after (append) or before the existing ones; a list with a value of the wrong type for the object adds nothing. Deleting an object removes all its values, inserting or deleting at a position moves no other value, and other objects never change. Reading a position gives its value or the documented result. A duplicate never shares state with its original, and the table of family names always counts the names of the list it follows.",
 ["inputs", "histories"], "all histories of additions, insertions, deletions and duplications, all objects and values",
 "The tests read a few patterns from files; list shifting, aliasing between a pattern and its copies, and the counts of the family table depend on the history.",
 ["fontconfig/pattern.go", "fontconfig/values.go", "fontconfig/substitutions.go"], [("pattern edits", "fontconfig/pattern.go: Add, addList, Del, GetAt, Duplicate, addWithTable, delWithTable, canon"), ("value lists", "fontconfig/values.go: prepend, insert, del, duplicate"), ("family table", "fontconfig/substitutions.go: familyTable.add, del, lookup")],
 ["fontconfig"], "All listed functions are under contract and proved; Value.copy (an interface method) is assumed to make a deep copy, which the bounded harness checks for the concrete values.")
prop("F07", "Configuration rules test and edit the pattern as documented",
 "A test passes exactly when its qualifier (any, all, first, not first) holds of the comparison of its value with the values of its object, and the value it marks is the first one that matches. Each edit of a rule (assign, prepend, append, delete, and their whole-list variants) replaces, inserts before or after, or removes exactly the marked value, or works on the whole list without a marked value; later edits of the rule keep working on the same value, a value that is gone is never used again, and no history of edits panics. Other objects and the query pattern are untouched and no empty list is left.",
 ["inputs", "histories"], "all patterns, rules, sequences of tests and edits, for the query, result and scan kinds",
 "Tests load configuration files whose rules have one edit per object; the position bookkeeping only matters for several edits of one list.",
 ["fontconfig/substitutions.go", "fontconfig/values.go", "fontconfig/pattern.go"], [("tests", "fontconfig/substitutions.go: ruleTest.match, matchValueList"), ("edits", "fontconfig/substitutions.go: ruleEdit.edit"), ("rule loop", "fontconfig/substitutions.go: Config.Substitute")],
 ["fontconfig"], "ruleEdit.edit, ruleTest.match and matchValueList are proved; the evaluation of expressions and compareValue are uninterpreted functions; the loop of Substitute over the rules is run by the bounded harness against a linked-list model.")
prop("F04", "The best font has the smallest score and the sorted list covers everything",
 "Matching a pattern against a set of fonts selects a font whose score is lexicographically smallest, the first one among equals, and nothing if the set is empty or some font cannot be compared. The sorted list contains the fonts in order of increasing score; without trimming it contains all of them, with trimming it drops only fonts that add no character to the ones before, and the coverage returned is exactly the union of the coverage of all the fonts. The pattern rendered for a match takes the closest value for each object that both have, and keeps the objects only one of them has.",
 ["inputs"], "all patterns and font sets, with all value bindings, with and without trimming",
 "The tests compare a few queries with the results of another program on one machine; ties, fonts without coverage and sets that cannot be compared are not exercised.",
 ["fontconfig/match.go", "fontconfig/charset.go", "fontconfig/pattern.go"], [("selection", "fontconfig/match.go: Fontset.matchInternal, sortCompare"), ("sorted list", "fontconfig/match.go: Fontset.Sort, sortWalk"), ("scores", "fontconfig/match.go: compareData.compare, fdFromPatternList, compareFamilies"), ("rendering", "fontconfig/match.go: Config.PrepareRender")],
 ["fontconfig"], "matchInternal, sortCompare, sortWalk and Charset.merge are proved over an uninterpreted score; the score, the language pass of Sort and PrepareRender are run by the bounded harness against an independent reading.")
prop("F05", "Comparing two values gives the documented distance and best value",
 "Numbers are compared by the absolute difference, ranges and sizes by the gap between the intervals (zero when they overlap), booleans and strings by equality, families ignoring case and blanks, PostScript names by the fraction of the name outside the common prefix. Values of the wrong type give -1 and no value; the distance is never negative otherwise, never undefined, and no value panics, not even an empty name. The best value lies in the requested interval, and operators on ranges agree with the order of their bounds.",
 ["inputs"], "all pairs of values",
 "The tests match whole patterns; a distance that is wrong for overlapping, touching or empty values only shows as a worse choice of font.",
 ["fontconfig/match.go", "fontconfig/values.go"], [("distances", "fontconfig/match.go: compareNumber, compareRange, compareSize, compareBool, compareString, compareFamily, comparePostScript"), ("operators", "fontconfig/values.go: rangeCompare, compareValue")],
 ["fontconfig"], "All listed functions except compareValue are proved, with floats as reals; the common prefix length of PostScript names is an assumed contract.")
prop("F06", "File name globs match exactly the names they describe",
 "A glob matches a name exactly when the name can be split so that each star stands for some, possibly empty, sequence of characters, each question mark for one character and every other character for itself, wherever the stars are.",
 ["inputs"], "all globs and names",
 "No test calls the matcher with a question mark or two stars; the shortcuts for a final star and for a last star interact with the recursion.",
 ["fontconfig/match.go"], [("glob matching", "fontconfig/match.go: strGlobMatch")],
 ["fontconfig"], "Proved for all inputs against a recursive definition of glob matching; strings.IndexByte is an assumed contract.")
prop("F09", "Listing and the font selectors pick exactly the fonts that match",
 "A font matches a listing query exactly when, for every object of the query other than the language of the names, every value is matched by some value of the font (strings up to case and blanks, numbers by inclusion in the interval, booleans equal or don't care, character sets by inclusion). A font is accepted exactly when some accept pattern matches it or no reject pattern does, a file name likewise with globs, and scanning a file, a resource or directories returns exactly the accepted fonts. A listing has one pattern for each distinct combination of values of the requested objects among the matching fonts, with only these objects and their values in order, except that the name in the best language comes first.",
 ["inputs"], "all queries, fonts, selectors, objects and languages",
 "The tests list and scan the fonts of the machine or one fixed cache; no test has an accept or reject pattern, two values for one object in the query, or fonts that differ only by the way their values are cut.",
 ["fontconfig/list.go", "fontconfig/config.go", "fontconfig/pattern.go"], [("listing comparison", "fontconfig/list.go: listMatchAny, patternMatchAny"), ("selectors", "fontconfig/config.go: acceptFont, acceptFilename, ScanFontRessource"), ("listing", "fontconfig/list.go: listAppend, getDefaultObjectLangIndex, Fontset.List")],
 ["fontconfig"], "listMatchAny, patternMatchAny, acceptFont, acceptFilename, ScanFontRessource and the choice of the language are proved over the comparison of two values, itself an uninterpreted function; the construction of the listing and the hash of a pattern, and the scan of directories, are run by the bounded harness against an independent reading.")
prop("P01", "Attribute lists stay sorted and give the attributes in effect at every position",
 "An attribute list is sorted by start index after any history of insertions (after, or before, those with the same start), filters and changes, and keeps the order of the others. Its iterator covers the text from 0 to the end with contiguous segments; in each segment the attributes in effect are exactly those whose range contains it, in list order, nothing starts or ends inside a segment, the attribute of a kind is the last of that kind in effect, and only the last of each kind is kept except for the kinds that add up. Changing an attribute replaces every attribute of the same kind on its range, and only there, merges adjoining identical attributes and leaves no overlap. Filtering splits the list in two, keeping both orders; copies are independent.",
 ["inputs", "histories"], "all attribute lists with any ranges (nested, empty, touching, unbounded), all histories of changes, all positions",
 "The tests build a few lists by hand; the stack of the iterator and the splitting done by Change have to be right for every arrangement of overlapping ranges.",
 ["pango/attributes.go"], [("insertion", "pango/attributes.go: AttrList.Insert, pango_attr_list_insert_internal, insertAt, remove, Change, Filter"), ("iteration", "pango/attributes.go: getIterator, attrIterator.next, getByKind, getAttributes")],
 ["pango"], "All listed functions except AttrList.Change are proved; Change is run by the bounded harness against a map from positions to values. The equality and copy of attribute values are uninterpreted.")
prop("P02", "Splitting items and shaped runs loses nothing and copies are independent",
 "Splitting an item, or a shaped run at a cluster boundary, gives two pieces that partition its text and, for a run, its glyphs and cluster indexes in order, both with the analysis and the attributes of the original; a split outside the text, or where no cluster starts, is refused and changes nothing, and unsplitting restores the item. Applying an attribute list to a run gives runs in visual order that partition its text and glyphs, each one with exactly the attributes in effect on its text. Splitting an item by letter case cuts it where the case shown changes. Copies of items and of tab arrays are equal to the original and share nothing with it.",
 ["inputs"], "all items, runs (any clusters, both directions), split positions, attribute lists and tab arrays",
 "The tests split one run of each direction; the moves of glyphs and cluster indexes have to be right for every cluster layout, and shared state only shows after a later change.",
 ["pango/item.go", "pango/glyph_item.go", "pango/glyphs.go", "pango/tabs.go"], [("items", "pango/item.go: Item.copy, Item.split, Item.unSplit, splitItemForVariant"), ("runs", "pango/glyph_item.go: GlyphItem.split, pango_glyph_item_apply_attrs; pango/glyphs.go: setSize"), ("tabs", "pango/tabs.go: TabArray.Copy")],
 ["pango"], "Item.copy, split, unSplit, GlyphItem.split, setSize and TabArray.Copy are proved; the application of attributes and the split by case are run by the bounded harness against independent readings.")
prop("P03", "Clusters are visited exactly once and logical widths sum to the width of the run",
 "Walking the clusters of a run forward from the start, backward from the end, or in any mixture, visits contiguous non-empty clusters that cover its text and glyphs exactly once, in both directions of text, and stays in place at the ends. The width of each cluster is divided equally between its characters, the first one gets the rest, and the logical widths sum to the width of the run. Letter spacing adds the spacing once between two adjacent clusters where the cursor can appear, and only moves and widens glyphs.",
 ["inputs", "histories"], "all runs with clusters in text order (any number of characters and glyphs per cluster, both directions), all walks",
 "The tests iterate over a few shaped strings and need fonts; the mirrored loops for right to left text are easily off by one for clusters of several glyphs.",
 ["pango/glyph_item.go", "pango/glyphs.go"], [("iteration", "pango/glyph_item.go: InitStart, InitEnd, NextCluster, PrevCluster"), ("widths", "pango/glyph_item.go: GetLogicalWidths, getLogicalWidths, letterSpace; pango/glyphs.go: getWidth")],
 ["pango"], "Everything but letterSpace is proved, including the sum of the logical widths; letterSpace is run by the bounded harness.")
prop("P04", "Positions, extents, padding and rounding of glyphs agree with their widths",
 "The position of the leading edge of a character and the trailing edge of the one before are the same; positions go from one side of the run to the other, in its direction, dividing each cluster equally between its characters (or cursor positions). The logical extents of a range of glyphs start at zero and are as wide as the sum of the widths, and as high as the union of the logical rectangles; the ink extents are the union of the non-empty ink rectangles where the glyphs are drawn. Padding moves width between the rest of the line and one glyph, the first or last one that is not empty. Reversing keeps each glyph with its cluster, and rounding to device units gives the nearest, lower or upper multiple.",
 ["inputs"], "all glyph strings, ranges, character indexes, directions and units",
 "No test compares these functions with each other; each one has its own left to right and right to left arithmetic.",
 ["pango/glyphs.go"], [("positions", "pango/glyphs.go: IndexToX, indexToXFull"), ("extents", "pango/glyphs.go: extentsRange, Extents, getWidth"), ("padding and order", "pango/glyphs.go: pad_glyphstring_left, pad_glyphstring_right, reverse, _pango_shape_shape, fallbackShape"), ("rounding", "pango/glyphs.go: Unit.Pixels, PixelsFloor, PixelsCeil, Round")],
 ["pango"], "Rounding, widths, logical width of the extents, padding, reversal and the shape glyphs are proved; the positions, the union of the rectangles and the fallback shaping are run by the bounded harness.")
prop("P06", "Itemization cuts a text in runs of one level and one script, each character in exactly one item",
 "Itemizing a range of a text gives items in logical order, none empty, that cover the range exactly once. All the characters of an item have its bidirectional level (adjusted for the gravity of the item), which is the one given by the bidirectional algorithm on the range with the base direction of the call, and the script of the item; no item goes over the limit of an attribute or of a run of emojis, and spaces take the better of the fonts around them. The script runs of a text are contiguous, not empty, of one script, and as long as possible: characters of no script take that of the text before them (of the text after them at the start), and a closing paired character takes the script of its opening one, however they are nested (up to 128). The width runs (upright or not, by the table of upright characters; variation selectors, modifiers and joined characters stay with the previous one) and the emoji runs (by the grammar of emoji sequences) are exact in the same way.",
 ["inputs"], "all texts and ranges, attribute lists, base directions, gravities, font sets with a font for the spaces",
 "The tests itemize a few files and need fonts; the iterators of levels, attributes, scripts, widths and emojis advance independently, and an index off by one only shows when the limits of two of them meet, or when the range does not start at 0.",
 ["pango/context.go", "pango/itemize.go", "pango/script.go", "pango/emoji.go", "pango/direction_bidi.go"], [("runs of scripts", "pango/script.go: scriptIter.next, reset, get_pair_index"), ("runs of widths and emojis", "pango/context.go: widthIter, isUpright; pango/emoji.go: emojiIter, emojiSegmentationCategory"), ("items", "pango/context.go: newItemizeState, itemizeState.next, updateEmbeddingEnd, updateEnd, addCharacter, update_attr_iterator, itemizeWithFont; pango/itemize.go: processRun")],
 ["pango"], "The script, width and emoji iterators, the state of the itemization and the partition in items are proved; the generated scanner of emojis, the list built from the items, the levels themselves (B04) and the choice of fonts are assumed or run by the bounded harness.")
prop("F08", "The cache gives back the fonts that were written, and refuses damaged data",
 "Writing a font set to the cache and reading it back gives the same patterns in the same order: the same objects, with the same values in the same order, of the same type, with the same binding, for all eight types of values (except the unknown languages of a language set, which are not written). Every decoder reads exactly the bytes its encoder wrote, whatever follows. Any data gives either an error or patterns whose values all have a type, never a panic: truncated data and values of unknown type are errors; and an error of the writer is returned.",
 ["inputs"], "all font sets and patterns (any object, number of values below 65536, binding, value), all byte strings",
 "The tests write and read one font set of the machine and compare two fields; no test reads data that is cut or damaged.",
 ["fontconfig/cache.go"], [("values", "fontconfig/cache.go: serializeBin and deserializeBin of the eight types, valueElt, valueList"), ("patterns", "fontconfig/cache.go: Pattern.serializeBin, deserializePatternBin"), ("files", "fontconfig/cache.go: Fontset.Serialize, LoadFontset")],
 ["fontconfig"], "The decoders (for any data) and the encoders of the eight types, of elements and of lists are proved, with lemmas for the round trip of a list; the encoder of a pattern (a map) and the compressed files are run by the bounded harness against an independent decoder.")
prop("P07", "Break attributes customize the breaks of their own range only",
 "The fifteen flags of a position are independent. A paragraph ends before its first separator (newline, carriage return, both, or U+2029), and the next one starts after it. Attributes forbidding breaks or hyphens change positions strictly inside of them, attributes marking a word or a sentence positions from their start to their end; each changes only the flags it is about, no other position or paragraph, and a mandatory break always stays. Inside of an attribute forbidding breaks, or of a word, a line can only break at mandatory breaks, after visible hyphens and word dividers, and after zero width spaces; a word (or sentence) starts and ends at the limits of its attribute and has none inside, and the words around it are cut there. No attribute list panics, wherever it starts and ends.",
 ["inputs"], "all texts, flags, positions in the layout, and break attributes",
 "The tests compute the breaks of a few texts with attributes inside of one paragraph; an attribute that reaches the end of the text, starts before it or belongs to another paragraph is not sampled.",
 ["pango/break.go", "pango/layout.go"], [("flags", "pango/break.go: CharAttr.IsXXX and setXXX"), ("customization", "pango/break.go: posFromOffset, removeBreaksFromRange, handleAllowBreaks, handleWords, handleSentences, handleHyphens, breakAttrs"), ("paragraphs", "pango/break.go: findParagraphBoundary; pango/layout.go: getItemsLogAttrs")],
 ["pango"], "The flags, the removal of the line breaks of a range (exactly), the paragraph limits, and for the four kinds of attributes the positions they may change and (except for sentences) the flags are proved, without panic; the exact effect of a word or sentence attribute, breakAttrs and the paragraphs of a layout are run by the bounded harness.")
