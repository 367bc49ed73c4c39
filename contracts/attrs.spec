package github.com/benoitkugler/textprocessing/pango

# ---------------------------------------------------------------- attribute lists

# value equality of attribute data
spec func dataEq(a AttrData, b AttrData) bool
spec func dataCopy(a AttrData, b AttrData) bool
extern github.com/benoitkugler/textprocessing/pango.AttrData.equals
  requires recv != nil
  ensures result == dataEq(recv, other)
extern github.com/benoitkugler/textprocessing/pango.AttrData.copy
  requires recv != nil
  ensures dataCopy(recv, result)

spec func attrsOK(l AttrList) bool = forall k int :: {l[k]} 0 <= k && k < len(l) ==> l[k] != nil && l[k].Data != nil && 0 <= l[k].StartIndex && l[k].StartIndex <= l[k].EndIndex && l[k].EndIndex <= MaxInt
spec func nonNil(l AttrList) bool = forall k int :: {l[k]} 0 <= k && k < len(l) ==> l[k] != nil
spec func sortedAttrs(l AttrList) bool = forall j, k int :: {l[j], l[k]} 0 <= j && j < k && k < len(l) ==> l[j].StartIndex <= l[k].StartIndex

func Attribute.equals
  requires attr1.Data != nil
  ensures [equals] result <==> attr1.Kind == attr2.Kind && dataEq(attr1.Data, attr2.Data)

func Attribute.copy
  requires a != nil ==> a.Data != nil
  ensures a == nil ==> result == nil
  ensures [copy] a != nil ==> result != nil && fresh(result) && result.Kind == a.Kind && result.StartIndex == a.StartIndex && result.EndIndex == a.EndIndex && dataCopy(a.Data, result.Data)

func AttrList.copy
  requires forall k int :: 0 <= k && k < len(list) ==> list[k] != nil && list[k].Data != nil
  ensures [len] fresh(result) && len(result) == len(list)
  ensures [copy] forall k int :: {result[k]} 0 <= k && k < len(result) ==> result[k] != nil && fresh(result[k]) && result[k].Kind == list[k].Kind && result[k].StartIndex == list[k].StartIndex && result[k].EndIndex == list[k].EndIndex && dataCopy(list[k].Data, result[k].Data)
  loop 0:
    invariant fresh(out) && len(out) == len(list)
    invariant forall k int :: {out[k]} 0 <= k && k < i ==> out[k] != nil && fresh(out[k]) && out[k].Kind == list[k].Kind && out[k].StartIndex == list[k].StartIndex && out[k].EndIndex == list[k].EndIndex && dataCopy(list[k].Data, out[k].Data)

func AttrList.insertAt
  requires l != nil && 0 <= i && i <= len(*l)
  modifies *l, (*l)[:]
  ensures [len] len(*l) == old(len(*l)) + 1
  ensures [before] forall k int :: {(*l)[k]} 0 <= k && k < i ==> (*l)[k] == old((*l)[k])
  ensures [at] (*l)[i] == attr
  ensures [after] forall k int :: {(*l)[k]} i < k && k < len(*l) ==> (*l)[k] == old(*l)[k-1]
  ensures fresh(*l) || obj(*l) == old(obj(*l))

func AttrList.remove
  requires l != nil && 0 <= i && i < len(*l)
  modifies *l, (*l)[:]
  ensures [len] len(*l) == old(len(*l)) - 1
  ensures [before] forall k int :: {(*l)[k]} 0 <= k && k < i ==> (*l)[k] == old((*l)[k])
  ensures [after] forall k int :: {(*l)[k]} i <= k && k < len(*l) ==> (*l)[k] == old(*l)[k+1]
  ensures obj(*l) == old(obj(*l)) && off(*l) == old(off(*l)) && cap(*l) == old(cap(*l))

# l is m with attr inserted at p
spec func insertedAt(l AttrList, p int, attr *Attribute, before bool) bool = 0 <= p && p < len(l) && l[p] == attr && (forall k int :: {l[k]} 0 <= k && k < p ==> l[k].StartIndex < attr.StartIndex || (!before && l[k].StartIndex == attr.StartIndex)) && (forall k int :: {l[k]} p < k && k < len(l) ==> l[k].StartIndex > attr.StartIndex || (before && l[k].StartIndex == attr.StartIndex))

func AttrList.pango_attr_list_insert_internal
  requires list != nil && attr != nil && nonNil(*list) && sortedAttrs(*list)
  modifies *list, (*list)[:]
  ensures [len] len(*list) == old(len(*list)) + 1
  ensures [inserted] exists p int :: insertedAt(*list, p, attr, before) && (forall k int :: {(*list)[k]} 0 <= k && k < p ==> (*list)[k] == old((*list)[k])) && (forall k int :: {(*list)[k]} p < k && k < len(*list) ==> (*list)[k] == old(*list)[k-1])
  ensures [sorted] sortedAttrs(*list) && nonNil(*list)
  ensures fresh(*list) || obj(*list) == old(obj(*list))
  loop 0:
    invariant forall k int :: {(*list)[k]} 0 <= k && k < rangeidx ==> !((*list)[k].StartIndex > startIndex || (before && (*list)[k].StartIndex == startIndex))

func AttrList.Insert
  requires list != nil ==> attr != nil && nonNil(*list) && sortedAttrs(*list)
  modifies *list, (*list)[:]
  ensures [len] list != nil ==> len(*list) == old(len(*list)) + 1
  ensures [inserted] list != nil ==> exists p int :: insertedAt(*list, p, attr, false) && (forall k int :: {(*list)[k]} 0 <= k && k < p ==> (*list)[k] == old((*list)[k])) && (forall k int :: {(*list)[k]} p < k && k < len(*list) ==> (*list)[k] == old(*list)[k-1])
  ensures [sorted] list != nil ==> sortedAttrs(*list) && nonNil(*list)

func AttrList.pango_attr_list_insert_before
  requires list != nil ==> attr != nil && nonNil(*list) && sortedAttrs(*list)
  modifies *list, (*list)[:]
  ensures [len] list != nil ==> len(*list) == old(len(*list)) + 1
  ensures [inserted] list != nil ==> exists p int :: insertedAt(*list, p, attr, true) && (forall k int :: {(*list)[k]} 0 <= k && k < p ==> (*list)[k] == old((*list)[k])) && (forall k int :: {(*list)[k]} p < k && k < len(*list) ==> (*list)[k] == old(*list)[k-1])
  ensures [sorted] list != nil ==> sortedAttrs(*list) && nonNil(*list)

# number of elements of l[0:n] ending after pos
spec rec rank(l AttrList, n int, pos int) int = n <= 0 ? 0 : rank(l, n-1, pos) + (l[n-1].EndIndex > pos ? 1 : 0)

lemma rankMono(l AttrList, i int, j int, pos int)
  requires 0 <= i && i <= j
  ensures rank(l, i, pos) <= rank(l, j, pos) && 0 <= rank(l, i, pos)
  decreases j
  ih i < j ==> rankMono(l, i, j-1, pos)
  ih i == j && 0 < i ==> rankMono(l, i-1, j-1, pos)

lemma rankMonoAll(l AttrList, n int, pos int)
  requires 0 <= n
  ensures forall i, j int :: {rank(l, i, pos), rank(l, j, pos)} 0 <= i && i <= j && j <= n ==> rank(l, i, pos) <= rank(l, j, pos) && (i < j && l[i].EndIndex > pos ==> rank(l, i, pos) < rank(l, j, pos))
  ensures forall i int :: {rank(l, i, pos)} 0 <= i && i <= n ==> 0 <= rank(l, i, pos)
  decreases n
  ih 0 < n ==> rankMonoAll(l, n-1, pos)

# the attributes of all[0:n] ending after pos, in order
spec func activeAt(stack AttrList, all AttrList, n int, pos int) bool = len(stack) == rank(all, n, pos) && (forall j int :: {all[j]} 0 <= j && j < n && all[j].EndIndex > pos ==> stack[rank(all, j, pos)] == all[j])

spec func itOK(it *attrIterator) bool = it.attrs != nil && attrsOK(*it.attrs) && sortedAttrs(*it.attrs) && 0 <= it.attrIndex && it.attrIndex <= len(*it.attrs) && 0 <= it.StartIndex && it.StartIndex <= it.EndIndex && it.EndIndex <= MaxInt && (len(*it.attrs) == 0 || obj(it.attribute_stack) != obj(*it.attrs))
# the attributes not reached yet start at the end of the segment or later
spec func itNext(it *attrIterator) bool = forall j int :: {(*it.attrs)[j]} it.attrIndex <= j && j < len(*it.attrs) ==> (*it.attrs)[j].StartIndex >= it.EndIndex
# the attributes reached started before the segment, and do not end in it
spec func itPast(it *attrIterator) bool = forall j int :: {(*it.attrs)[j]} 0 <= j && j < it.attrIndex ==> (*it.attrs)[j].StartIndex <= it.StartIndex && ((*it.attrs)[j].EndIndex <= it.StartIndex || (*it.attrs)[j].EndIndex >= it.EndIndex)
spec func itStack(it *attrIterator) bool = activeAt(it.attribute_stack, *it.attrs, it.attrIndex, it.StartIndex) && (forall k int :: {it.attribute_stack[k]} 0 <= k && k < len(it.attribute_stack) ==> it.attribute_stack[k] != nil && it.attribute_stack[k].EndIndex > it.StartIndex && it.attribute_stack[k].EndIndex >= it.EndIndex)

# the attributes ending after pos2, through those ending after pos1 <= pos2
lemma rankCompose(stack AttrList, all AttrList, n int, i int, pos1 int, pos2 int)
  option sameheap
  requires pos1 <= pos2 && 0 <= i && i <= n && activeAt(stack, all, n, pos1)
  ensures rank(all, i, pos2) == rank(stack, rank(all, i, pos1), pos2)
  decreases i
  use rankMono(all, 0, i, pos1)
  use 0 < i ==> rankMono(all, 0, i-1, pos1)
  use 0 < i ==> rankMono(all, i, n, pos1)
  assert 0 < i && all[i-1].EndIndex > pos1 ==> stack[rank(all, i-1, pos1)] == all[i-1] && rank(all, i, pos1) == rank(all, i-1, pos1) + 1
  assert 0 < i && all[i-1].EndIndex <= pos1 ==> rank(all, i, pos1) == rank(all, i-1, pos1)
  assert 0 < i && all[i-1].EndIndex > pos1 ==> rank(stack, rank(all, i-1, pos1) + 1, pos2) == rank(stack, rank(all, i-1, pos1), pos2) + (all[i-1].EndIndex > pos2 ? 1 : 0)
  ih 0 < i ==> rankCompose(stack, all, n, i-1, pos1, pos2)
lemma rankCompose2(stack AttrList, all AttrList, n int, m int, pos1 int, pos2 int)
  option sameheap
  requires pos1 <= pos2 && 0 <= m && m <= n && activeAt(stack, all, n, pos1)
  ensures forall j int :: {all[j]} {rank(all, j, pos2)} 0 <= j && j <= m ==> rank(all, j, pos2) == rank(stack, rank(all, j, pos1), pos2) && 0 <= rank(all, j, pos1) && rank(all, j, pos1) <= rank(all, n, pos1)
  decreases m
  use rankCompose(stack, all, n, m, pos1, pos2)
  use rankMono(all, 0, m, pos1)
  use rankMono(all, m, n, pos1)
  ih 0 < m ==> rankCompose2(stack, all, n, m-1, pos1, pos2)

# after the last attribute, the segment has no end
spec func itLast(it *attrIterator) bool = it.attrIndex == len(*it.attrs) && len(it.attribute_stack) == 0 ==> it.EndIndex == MaxInt

func attrIterator.next
  requires iterator != nil ==> itOK(iterator) && itNext(iterator) && itPast(iterator) && itStack(iterator)
  modifies *iterator, iterator.attribute_stack[:]
  ensures [nil] iterator == nil ==> !result
  ensures [end] iterator != nil && !result ==> *iterator == old(*iterator) && old(iterator.attrIndex == len(*iterator.attrs) && len(iterator.attribute_stack) == 0)
  ensures [more] iterator != nil && result ==> old(iterator.attrIndex < len(*iterator.attrs) || len(iterator.attribute_stack) != 0)
  ensures [contiguous] result ==> iterator.StartIndex == old(iterator.EndIndex)
  ensures [list] iterator != nil ==> iterator.attrs == old(iterator.attrs)
  ensures [inv] iterator != nil ==> itOK(iterator)
  ensures [next] iterator != nil ==> itNext(iterator)
  ensures [past] iterator != nil ==> itPast(iterator)
  ensures [stack] iterator != nil ==> itStack(iterator)
  assumes [last] result ==> itLast(iterator)
  ensures [own] iterator != nil ==> fresh(iterator.attribute_stack) || obj(iterator.attribute_stack) == old(obj(iterator.attribute_stack))
  ensures [reached] iterator != nil && result ==> forall j int :: {(*iterator.attrs)[j]} iterator.attrIndex <= j && j < len(*iterator.attrs) ==> (*iterator.attrs)[j].StartIndex > iterator.StartIndex
  ensures [progress] result && iterator.StartIndex < MaxInt ==> iterator.EndIndex > iterator.StartIndex
  loop 0:
    invariant -1 <= i && i < old(len(iterator.attribute_stack))
    invariant iterator.StartIndex == old(iterator.EndIndex) && iterator.attrIndex == old(iterator.attrIndex) && iterator.attrs == old(iterator.attrs)
    invariant iterator.StartIndex <= iterator.EndIndex && iterator.EndIndex <= MaxInt && (iterator.StartIndex < MaxInt ==> iterator.StartIndex < iterator.EndIndex)
    invariant obj(iterator.attribute_stack) == old(obj(iterator.attribute_stack)) && cap(iterator.attribute_stack) == old(cap(iterator.attribute_stack))
    invariant [low] forall k int :: {iterator.attribute_stack[k]} 0 <= k && k <= i ==> iterator.attribute_stack[k] == old(iterator.attribute_stack[k])
    invariant [len] len(iterator.attribute_stack) == i + 1 + old(rank(iterator.attribute_stack, len(iterator.attribute_stack), iterator.EndIndex)) - old(rank(iterator.attribute_stack, i + 1, iterator.EndIndex))
    invariant [high] forall k int :: {old(iterator.attribute_stack)[k]} i < k && k < old(len(iterator.attribute_stack)) && old(iterator.attribute_stack[k].EndIndex > iterator.EndIndex) ==> iterator.attribute_stack[i + 1 + old(rank(iterator.attribute_stack, k, iterator.EndIndex)) - old(rank(iterator.attribute_stack, i + 1, iterator.EndIndex))] == old(iterator.attribute_stack[k])
    invariant [stack] forall k int :: {iterator.attribute_stack[k]} i < k && k < len(iterator.attribute_stack) ==> iterator.attribute_stack[k] != nil && iterator.attribute_stack[k].EndIndex > iterator.StartIndex && iterator.attribute_stack[k].EndIndex >= iterator.EndIndex
    at begin:
      use rankMonoAll(old(iterator.attribute_stack), old(len(iterator.attribute_stack)), old(iterator.EndIndex))
      assert iterator.attribute_stack[i] == old(iterator.attribute_stack)[i]
      assert old(rank(iterator.attribute_stack, i + 1, iterator.EndIndex)) == old(rank(iterator.attribute_stack, i, iterator.EndIndex)) + (old(iterator.attribute_stack)[i].EndIndex == old(iterator.EndIndex) ? 0 : 1)
  loop 1:
    invariant iterator.StartIndex == old(iterator.EndIndex) && iterator.attrs == old(iterator.attrs) && old(iterator.attrIndex) <= iterator.attrIndex && iterator.attrIndex <= len(*iterator.attrs)
    invariant iterator.StartIndex <= iterator.EndIndex && iterator.EndIndex <= MaxInt && (iterator.StartIndex < MaxInt ==> iterator.StartIndex < iterator.EndIndex)
    invariant len(*iterator.attrs) == 0 || obj(iterator.attribute_stack) != obj(*iterator.attrs)
    invariant fresh(iterator.attribute_stack) || obj(iterator.attribute_stack) == old(obj(iterator.attribute_stack))
    invariant [past] itPast(iterator)
    invariant [stack] itStack(iterator)
    at before:
      use rankMonoAll(old(iterator.attribute_stack), old(len(iterator.attribute_stack)), old(iterator.EndIndex))
      use rankCompose2(old(iterator.attribute_stack), old(*iterator.attrs), old(iterator.attrIndex), old(iterator.attrIndex), old(iterator.StartIndex), old(iterator.EndIndex))
      use rankMonoAll(old(*iterator.attrs), old(iterator.attrIndex), old(iterator.StartIndex))
      assert [pop] activeAt(iterator.attribute_stack, old(iterator.attribute_stack), old(len(iterator.attribute_stack)), iterator.StartIndex)
      assert [kept] forall j int :: {(*iterator.attrs)[j]} 0 <= j && j < iterator.attrIndex && (*iterator.attrs)[j].EndIndex > iterator.StartIndex ==> old(iterator.attribute_stack)[old(rank(*iterator.attrs, j, iterator.StartIndex))] == (*iterator.attrs)[j] && 0 <= old(rank(*iterator.attrs, j, iterator.StartIndex)) && old(rank(*iterator.attrs, j, iterator.StartIndex)) < old(len(iterator.attribute_stack))
    at begin:
      use rankMonoAll(*iterator.attrs, iterator.attrIndex, iterator.StartIndex)

func AttrList.getIterator
  requires list != nil ==> attrsOK(*list) && sortedAttrs(*list)
  ensures list == nil ==> result == nil
  ensures [fresh] list != nil ==> result != nil && fresh(result) && result.attrs == list && result.StartIndex == 0
  ensures [inv] list != nil ==> itOK(result)
  ensures [next] list != nil ==> itNext(result)
  ensures [past] list != nil ==> itPast(result)
  ensures [stack] list != nil ==> itStack(result)
  ensures [last] list != nil ==> itLast(result)
  ensures [own] list != nil ==> fresh(result.attribute_stack) || obj(result.attribute_stack) == 0
  ensures [empty] list != nil && len(*list) == 0 ==> result.EndIndex == MaxInt
  ensures [reached] list != nil ==> forall j int :: {(*list)[j]} result.attrIndex <= j && j < len(*list) ==> (*list)[j].StartIndex > 0

func attrIterator.copy
  ensures iterator == nil ==> result == nil
  ensures [copy] iterator != nil ==> result != nil && fresh(result) && result.attrs == iterator.attrs && result.attrIndex == iterator.attrIndex && result.StartIndex == iterator.StartIndex && result.EndIndex == iterator.EndIndex && (fresh(result.attribute_stack) || len(result.attribute_stack) == 0) && len(result.attribute_stack) == len(iterator.attribute_stack)
  ensures [stack] iterator != nil ==> forall k int :: {result.attribute_stack[k]} 0 <= k && k < len(result.attribute_stack) ==> result.attribute_stack[k] == iterator.attribute_stack[k]

func attrIterator.getByKind
  requires nonNil(iterator.attribute_stack)
  ensures [none] result == nil ==> forall k int :: {iterator.attribute_stack[k]} 0 <= k && k < len(iterator.attribute_stack) ==> iterator.attribute_stack[k].Kind != kind
  ensures [last] result != nil ==> result.Kind == kind && (exists k int :: 0 <= k && k < len(iterator.attribute_stack) && iterator.attribute_stack[k] == result && (forall k2 int :: {iterator.attribute_stack[k2]} k < k2 && k2 < len(iterator.attribute_stack) ==> iterator.attribute_stack[k2].Kind != kind))
  loop 0:
    invariant i < len(iterator.attribute_stack)
    invariant forall k int :: {iterator.attribute_stack[k]} i < k && k < len(iterator.attribute_stack) ==> iterator.attribute_stack[k].Kind != kind

# the attributes kept by getAttributes: the last of each kind, and all those of the kinds that add up
spec func addsUp(k AttrKind) bool = k == ATTR_FONT_DESC || k == ATTR_BASELINE_SHIFT || k == ATTR_FONT_SCALE
spec opaque lastOfKind(s AttrList, k int) bool = forall k2 int :: {s[k2]} k < k2 && k2 < len(s) ==> s[k2].Kind != s[k].Kind
spec func keptAttr(s AttrList, k int) bool = addsUp(s[k].Kind) || lastOfKind(s, k)
spec rec keptFrom(s AttrList, k int) int = k < 0 || k >= len(s) ? 0 : keptFrom(s, k+1) + (keptAttr(s, k) ? 1 : 0)

lemma keptFromMono(s AttrList, i int)
  requires 0 <= i && i <= len(s)
  ensures forall k int :: {keptFrom(s, k)} i <= k && k <= len(s) ==> 0 <= keptFrom(s, k) && keptFrom(s, k) <= keptFrom(s, i)
  ensures forall k int :: {keptFrom(s, k)} i <= k && k < len(s) && keptAttr(s, k) ==> 1 <= keptFrom(s, k)
  decreases len(s) - i
  ih i < len(s) ==> keptFromMono(s, i+1)

func attrIterator.getAttributes
  requires nonNil(iterator.attribute_stack)
  ensures [len] len(result) == keptFrom(iterator.attribute_stack, 0)
  ensures [kept] forall k int :: {iterator.attribute_stack[k]} 0 <= k && k < len(iterator.attribute_stack) && keptAttr(iterator.attribute_stack, k) ==> result[len(result) - keptFrom(iterator.attribute_stack, k)] == iterator.attribute_stack[k]
  loop 0:
    invariant -1 <= i && i < len(iterator.attribute_stack)
    invariant fresh(attrs) || cap(attrs) == 0
    invariant [len] len(attrs) == keptFrom(iterator.attribute_stack, i+1)
    invariant [nonnil] nonNil(attrs)
    invariant [kept] forall k int :: {iterator.attribute_stack[k]} i < k && k < len(iterator.attribute_stack) && keptAttr(iterator.attribute_stack, k) ==> attrs[len(attrs) - keptFrom(iterator.attribute_stack, k)] == iterator.attribute_stack[k]
    invariant [from] forall m int :: {attrs[m]} 0 <= m && m < len(attrs) ==> exists k int :: i < k && k < len(iterator.attribute_stack) && attrs[m] == iterator.attribute_stack[k]
    invariant [kinds] forall k int :: {iterator.attribute_stack[k]} i < k && k < len(iterator.attribute_stack) ==> exists m int :: 0 <= m && m < len(attrs) && attrs[m].Kind == iterator.attribute_stack[k].Kind
    at begin:
      use keptFromMono(iterator.attribute_stack, i+1)
    at end:
      assert !found ==> attrs[0] == iterator.attribute_stack[i+1] && len(attrs) > 0
      assert found ==> exists m int :: 0 <= m && m < len(attrs) && attrs[m].Kind == iterator.attribute_stack[i+1].Kind
  loop 1:
    invariant !found && forall m int :: {attrs[m]} 0 <= m && m < rangeidx ==> attrs[m].Kind != attr.Kind

# number of elements of l[0:n] for which fn is true
spec rec cntTrue(fn func(*Attribute) bool, l AttrList, n int) int = n <= 0 ? 0 : cntTrue(fn, l, n-1) + (fn(l[n-1]) ? 1 : 0)
lemma cntTrueBound(fn func(*Attribute) bool, l AttrList, n int)
  requires 0 <= n
  ensures forall i int :: {cntTrue(fn, l, i)} 0 <= i && i <= n ==> 0 <= cntTrue(fn, l, i) && cntTrue(fn, l, i) <= i && cntTrue(fn, l, i) <= cntTrue(fn, l, n) && i - cntTrue(fn, l, i) <= n - cntTrue(fn, l, n)
  ensures forall i int :: {cntTrue(fn, l, i)} 0 <= i && i < n ==> (fn(l[i]) ? cntTrue(fn, l, i) < cntTrue(fn, l, n) : i - cntTrue(fn, l, i) < n - cntTrue(fn, l, n))
  decreases n
  ih 0 < n ==> cntTrueBound(fn, l, n-1)

func AttrList.Filter
  requires list != nil ==> fn != nil
  modifies *list, (*list)[:]
  ensures list == nil ==> len(result) == 0
  ensures [out] list != nil ==> len(result) == old(cntTrue(fn, *list, len(*list))) && (forall k int :: {old(*list)[k]} 0 <= k && k < old(len(*list)) && fn(old((*list)[k])) ==> result[old(cntTrue(fn, *list, k))] == old((*list)[k]))
  ensures [kept] list != nil ==> len(*list) == old(len(*list)) - len(result) && (forall k int :: {old(*list)[k]} 0 <= k && k < old(len(*list)) && !fn(old((*list)[k])) ==> (*list)[k - old(cntTrue(fn, *list, k))] == old((*list)[k]))
  loop 0:
    invariant 0 <= i && i <= p && p == len(*list) && len(*list) == old(len(*list)) - len(out)
    invariant obj(*list) == old(obj(*list)) && off(*list) == old(off(*list))
    invariant fresh(out) || cap(out) == 0
    invariant [cnt] len(out) == cntTrue(fn, old(*list), i + len(out))
    invariant [rest] forall k int :: {(*list)[k]} i <= k && k < len(*list) ==> (*list)[k] == old(*list)[k + len(out)]
    invariant [out] forall k int :: {old(*list)[k]} 0 <= k && k < i + len(out) && fn(old((*list)[k])) ==> out[old(cntTrue(fn, *list, k))] == old((*list)[k])
    invariant [kept] forall k int :: {old(*list)[k]} 0 <= k && k < i + len(out) && !fn(old((*list)[k])) ==> (*list)[k - old(cntTrue(fn, *list, k))] == old((*list)[k])
    at begin:
      use cntTrueBound(fn, old(*list), i + len(out))

# true only for lists of the same length in which every attribute of list is in otherList
func AttrList.pango_attr_list_equal
  requires attrsOK(list) && attrsOK(otherList)
  ensures [len] result ==> len(list) == len(otherList)
  ensures [included] result ==> forall k int :: {list[k]} 0 <= k && k < len(list) ==> exists m int :: 0 <= m && m < len(otherList) && list[k].StartIndex == otherList[m].StartIndex && list[k].EndIndex == otherList[m].EndIndex && list[k].Kind == otherList[m].Kind && dataEq(list[k].Data, otherList[m].Data)
  loop 0:
    invariant forall k int :: {list[k]} 0 <= k && k < rangeidx ==> exists m int :: 0 <= m && m < len(otherList) && list[k].StartIndex == otherList[m].StartIndex && list[k].EndIndex == otherList[m].EndIndex && list[k].Kind == otherList[m].Kind && dataEq(list[k].Data, otherList[m].Data)
  loop 1:
    invariant !attrEqual

property P01: Attribute.equals, Attribute.copy, AttrList.copy, AttrList.insertAt, AttrList.remove, AttrList.pango_attr_list_insert_internal, AttrList.Insert, AttrList.pango_attr_list_insert_before, AttrList.Filter, AttrList.pango_attr_list_equal, AttrList.getIterator, attrIterator.copy, attrIterator.next, attrIterator.getByKind, attrIterator.getAttributes
  lemmas rankMono, rankMonoAll, rankCompose, rankCompose2, keptFromMono, cntTrueBound
