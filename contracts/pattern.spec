package github.com/benoitkugler/textprocessing/fontconfig

func valueList.prepend
  requires len(v) == 0 || obj(v) != obj(l)
  modifies l[:]
  ensures [len] len(result) == len(l) + len(v)
  ensures [new] forall k int :: 0 <= k && k < len(v) ==> result[k] == old(v[k])
  ensures [kept] forall k int :: {result[k]} len(v) <= k && k < len(l) + len(v) ==> result[k] == old(l[k - len(v)])
  ensures fresh(result) || obj(result) == obj(l)

spec func validList(object Object, l valueList) bool = forall k int :: 0 <= k && k < len(l) ==> object.hasValidType(l[k].Value)

spec func resolved(b valueBinding, same valueBinding) valueBinding = b == vbSame ? same : b

spec func cutoffOf(position int, appendMode bool, n int) int = position == -1 ? (appendMode ? n : 0) : (appendMode ? position + 1 : position)

spec func sameBindingOf(l valueList, position int) valueBinding = position == -1 ? vbWeak : l[position].Binding

# the key used to compare family names when blanks are ignored
spec func blankFold(s string) string
func ignoreBlanksAndCase
  trusted "uninterpreted function of its argument (strings.Replacer and strings.ToLower)"
  ensures result == blankFold(s1)

# number of family names of l[0:n] with the given key
spec rec countCase(l valueList, n int, key string) int = n <= 0 ? 0 : countCase(l, n-1, key) + (strings.ToLower(string(l[n-1].Value.(String))) == key ? 1 : 0)
spec rec countBlank(l valueList, n int, key string) int = n <= 0 ? 0 : countBlank(l, n-1, key) + (blankFold(string(l[n-1].Value.(String))) == key ? 1 : 0)

spec func allStrings(l valueList) bool = forall k int :: 0 <= k && k < len(l) ==> typeis(l[k].Value, String)

spec func tableOK(t familyTable) bool = t.familyHash != nil && t.familyBlankHash != nil && t.familyHash != t.familyBlankHash

func familyTable.add
  requires tableOK(table) && allStrings(values)
  modifies mapof(table.familyHash), mapof(table.familyBlankHash)
  ensures [case] forall s string :: table.familyHash[s] == old(table.familyHash[s]) + countCase(values, len(values), s)
  ensures [blank] forall s string :: table.familyBlankHash[s] == old(table.familyBlankHash[s]) + countBlank(values, len(values), s)
  loop 0:
    invariant [case] forall s string :: table.familyHash[s] == old(table.familyHash[s]) + countCase(values, rangeidx, s)
    invariant [blank] forall s string :: table.familyBlankHash[s] == old(table.familyBlankHash[s]) + countBlank(values, rangeidx, s)

func familyTable.del
  requires tableOK(table)
  modifies mapof(table.familyHash), mapof(table.familyBlankHash)
  ensures [case] forall k string :: table.familyHash[k] == old(table.familyHash[k]) - (k == strings.ToLower(string(s)) && old(k in table.familyHash) ? 1 : 0)
  ensures [blank] forall k string :: table.familyBlankHash[k] == old(table.familyBlankHash[k]) - (k == blankFold(string(s)) && old(k in table.familyBlankHash) ? 1 : 0)
  ensures [presence] old(forall k string :: k in table.familyHash <==> table.familyHash[k] != 0) ==> (forall k string :: k in table.familyHash <==> table.familyHash[k] != 0)
  ensures [presenceblank] old(forall k string :: k in table.familyBlankHash <==> table.familyBlankHash[k] != 0) ==> (forall k string :: k in table.familyBlankHash <==> table.familyBlankHash[k] != 0)

func familyTable.lookup
  requires tableOK(table)
  ensures [case] op.getFlags() & opFlagIgnoreBlanks == 0 ==> (result <==> strings.ToLower(string(s)) in table.familyHash)
  ensures [blank] op.getFlags() & opFlagIgnoreBlanks != 0 ==> (result <==> blankFold(string(s)) in table.familyBlankHash)

func valueList.insert
  requires head != nil
  requires position == -1 || (0 <= position && position < len(*head))
  requires len(newList) == 0 || obj(newList) != obj(*head)
  requires object == FAMILY && table != nil ==> tableOK(*table)
  modifies *head, (*head)[:], newList[0:len(newList)], (object == FAMILY && table != nil ? mapof(table.familyHash) : newList[0:0]), (object == FAMILY && table != nil ? mapof(table.familyBlankHash) : newList[0:0])
  ensures [valid] result <==> old(validList(object, newList))
  ensures [unchanged] !result ==> *head == old(*head) && (forall k int :: 0 <= k && k < len(*head) ==> (*head)[k] == old((*head)[k]))
  ensures [len] result ==> len(*head) == old(len(*head)) + len(newList)
  ensures [before] result ==> forall k int :: {(*head)[k]} 0 <= k && k < cutoffOf(position, appendMode, old(len(*head))) ==> (*head)[k] == old((*head)[k])
  ensures [new] result ==> forall k int :: {(*head)[k]} cutoffOf(position, appendMode, old(len(*head))) <= k && k < cutoffOf(position, appendMode, old(len(*head))) + len(newList) ==> (*head)[k].Value == old(newList)[k - cutoffOf(position, appendMode, old(len(*head)))].Value && (*head)[k].Binding == resolved(old(newList)[k - cutoffOf(position, appendMode, old(len(*head)))].Binding, old(sameBindingOf(*head, position)))
  ensures [after] result ==> forall k int :: {(*head)[k]} cutoffOf(position, appendMode, old(len(*head))) + len(newList) <= k && k < len(*head) ==> (*head)[k] == old(*head)[k - len(newList)]
  ensures [tablecase] result && object == FAMILY && table != nil ==> (forall s string :: table.familyHash[s] == old(table.familyHash[s]) + old(countCase(newList, len(newList), s)))
  ensures [tableblank] result && object == FAMILY && table != nil ==> (forall s string :: table.familyBlankHash[s] == old(table.familyBlankHash[s]) + old(countBlank(newList, len(newList), s)))
  ensures fresh(*head) || obj(*head) == old(obj(*head))
  loop 0:
    invariant forall k int :: 0 <= k && k < rangeidx ==> object.hasValidType(newList[k].Value)
  loop 1:
    invariant forall k int :: 0 <= k && k < len(newList) ==> newList[k].Value == old(newList[k].Value)
    invariant forall k int :: {(*head)[k]} 0 <= k && k < len(*head) ==> (*head)[k] == old((*head)[k])
    invariant forall k int :: 0 <= k && k < i ==> newList[k].Binding == resolved(old(newList[k].Binding), sameBinding)
    invariant forall k int :: i <= k && k < len(newList) ==> newList[k].Binding == old(newList[k].Binding)

func valueList.del
  requires head != nil
  requires 0 <= position && position < len(*head)
  requires object == FAMILY && table != nil ==> tableOK(*table) && typeis((*head)[position].Value, String)
  modifies *head, (*head)[0:len(*head)], (object == FAMILY && table != nil ? mapof(table.familyHash) : (*head)[0:0]), (object == FAMILY && table != nil ? mapof(table.familyBlankHash) : (*head)[0:0])
  ensures [len] len(*head) == old(len(*head)) - 1
  ensures [before] forall k int :: {(*head)[k]} 0 <= k && k < position ==> (*head)[k] == old((*head)[k])
  ensures [after] forall k int :: {(*head)[k]} position <= k && k < len(*head) ==> (*head)[k] == old(*head)[k + 1]

# b is a deep copy of a
spec func isCopy(a Value, b Value) bool
extern github.com/benoitkugler/textprocessing/fontconfig.Value.copy
  requires recv != nil
  ensures isCopy(recv, result)

spec func copiedList(a valueList, b valueList) bool = len(a) == len(b) && (forall k int :: {b[k]} 0 <= k && k < len(b) ==> b[k].Binding == a[k].Binding && (a[k].Value == nil ? b[k].Value == nil : isCopy(a[k].Value, b[k].Value)))

func valueList.duplicate
  ensures l == nil ==> result == nil
  ensures [copy] l != nil ==> result != nil && fresh(result) && fresh(*result) && len(*result) == len(*l) && (forall k int :: {(*result)[k]} 0 <= k && k < len(*result) ==> (*result)[k].Binding == (*l)[k].Binding && ((*l)[k].Value == nil ? (*result)[k].Value == nil : isCopy((*l)[k].Value, (*result)[k].Value)))
  loop 0:
    invariant fresh(out) && len(out) == len(*l)
    invariant forall k int :: {out[k]} 0 <= k && k < i ==> out[k].Binding == (*l)[k].Binding && ((*l)[k].Value == nil ? out[k].Value == nil : isCopy((*l)[k].Value, out[k].Value))

spec func lenOf(p Pattern, o Object) int = p[o] == nil ? 0 : len(*p[o])

func Pattern.addList
  requires p != nil
  requires p[object] != nil ==> obj(list) != obj(*p[object])
  modifies p, *p[object], (*p[object])[:]
  ensures [others] forall o Object :: o != object ==> p[o] == old(p[o]) && (o in p <==> old(o in p))
  ensures [invalid] !validList(object, list) ==> p[object] == old(p[object]) && (p[object] != nil ==> *p[object] == old(*p[object])) && (object in p <==> old(object in p))
  ensures [same] old(p[object]) != nil ==> p[object] == old(p[object])
  ensures [created] old(p[object]) == nil && validList(object, list) ==> fresh(p[object]) && fresh(*p[object])
  ensures [valid] validList(object, list) ==> p[object] != nil && len(*p[object]) == len(list) + old(lenOf(p, object))
  ensures [keptappend] validList(object, list) && appendMode ==> forall k int :: {(*p[object])[k]} 0 <= k && k < old(lenOf(p, object)) ==> (*p[object])[k] == old((*p[object])[k])
  ensures [newappend] validList(object, list) && appendMode ==> forall k int :: {(*p[object])[k]} old(lenOf(p, object)) <= k && k < len(*p[object]) ==> (*p[object])[k].Binding == list[k - old(lenOf(p, object))].Binding && (list[k - old(lenOf(p, object))].Value == nil ? (*p[object])[k].Value == nil : isCopy(list[k - old(lenOf(p, object))].Value, (*p[object])[k].Value))
  ensures [newprepend] validList(object, list) && !appendMode ==> forall k int :: {(*p[object])[k]} 0 <= k && k < len(list) ==> (*p[object])[k].Binding == list[k].Binding && (list[k].Value == nil ? (*p[object])[k].Value == nil : isCopy(list[k].Value, (*p[object])[k].Value))
  ensures [keptprepend] validList(object, list) && !appendMode ==> forall k int :: {(*p[object])[k]} len(list) <= k && k < len(*p[object]) ==> (*p[object])[k] == old((*p[object])[k - len(list)])
  ensures validList(object, list) ==> fresh(*p[object]) || obj(*p[object]) == old(obj(*p[object]))
  loop 0:
    invariant forall k int :: 0 <= k && k < rangeidx ==> object.hasValidType(list[k].Value)

func Pattern.addWithBinding
  requires p != nil
  modifies p, *p[object], (*p[object])[:]
  ensures [others] forall o Object :: o != object ==> p[o] == old(p[o]) && (o in p <==> old(o in p))
  ensures [invalid] !object.hasValidType(value) ==> p[object] == old(p[object]) && (p[object] != nil ==> *p[object] == old(*p[object])) && (object in p <==> old(object in p))
  ensures [len] object.hasValidType(value) ==> p[object] != nil && len(*p[object]) == 1 + old(lenOf(p, object))
  ensures [append] object.hasValidType(value) && appendMode ==> (*p[object])[len(*p[object]) - 1].Binding == binding && (value == nil ? (*p[object])[len(*p[object]) - 1].Value == nil : isCopy(value, (*p[object])[len(*p[object]) - 1].Value))
  ensures [appendkept] object.hasValidType(value) && appendMode ==> forall k int :: {(*p[object])[k]} 0 <= k && k < len(*p[object]) - 1 ==> (*p[object])[k] == old((*p[object])[k])
  ensures [prepend] object.hasValidType(value) && !appendMode ==> (*p[object])[0].Binding == binding && (value == nil ? (*p[object])[0].Value == nil : isCopy(value, (*p[object])[0].Value))
  ensures [prependkept] object.hasValidType(value) && !appendMode ==> forall k int :: {(*p[object])[k]} 1 <= k && k < len(*p[object]) ==> (*p[object])[k] == old((*p[object])[k - 1])
  ensures old(p[object]) != nil ==> p[object] == old(p[object])
  ensures [created] old(p[object]) == nil && object.hasValidType(value) ==> fresh(p[object]) && fresh(*p[object])
  ensures object.hasValidType(value) ==> fresh(*p[object]) || obj(*p[object]) == old(obj(*p[object]))

func Pattern.Add
  requires p != nil
  modifies p, *p[object], (*p[object])[:]
  ensures [others] forall o Object :: o != object ==> p[o] == old(p[o]) && (o in p <==> old(o in p))
  ensures [len] object.hasValidType(value) ==> p[object] != nil && len(*p[object]) == 1 + old(lenOf(p, object))
  ensures [append] object.hasValidType(value) && appendMode ==> (*p[object])[len(*p[object]) - 1].Binding == vbStrong && (value == nil ? (*p[object])[len(*p[object]) - 1].Value == nil : isCopy(value, (*p[object])[len(*p[object]) - 1].Value))
  ensures [appendkept] object.hasValidType(value) && appendMode ==> forall k int :: {(*p[object])[k]} 0 <= k && k < len(*p[object]) - 1 ==> (*p[object])[k] == old((*p[object])[k])
  ensures [prepend] object.hasValidType(value) && !appendMode ==> (*p[object])[0].Binding == vbStrong && (value == nil ? (*p[object])[0].Value == nil : isCopy(value, (*p[object])[0].Value))
  ensures [prependkept] object.hasValidType(value) && !appendMode ==> forall k int :: {(*p[object])[k]} 1 <= k && k < len(*p[object]) ==> (*p[object])[k] == old((*p[object])[k - 1])
  ensures old(p[object]) != nil ==> p[object] == old(p[object])
  ensures [created] old(p[object]) == nil && object.hasValidType(value) ==> fresh(p[object]) && fresh(*p[object])
  ensures object.hasValidType(value) ==> fresh(*p[object]) || obj(*p[object]) == old(obj(*p[object]))

func Pattern.Del
  modifies p
  ensures [gone] !(object in p) && p[object] == nil
  ensures [others] forall o Object :: o != object ==> p[o] == old(p[o]) && (o in p <==> old(o in p))

func Pattern.getVals
  ensures p[obj] == nil ==> len(result) == 0
  ensures p[obj] != nil ==> sameslice(result, *p[obj])

func Pattern.GetAt
  requires 0 <= id
  ensures [nomatch] result1 == ResultNoMatch <==> p[object] == nil
  ensures [noid] result1 == ResultNoId <==> p[object] != nil && id >= len(*p[object])
  ensures [match] p[object] != nil && id < len(*p[object]) ==> result1 == ResultMatch && result0 == (*p[object])[id].Value
  ensures [nil] result1 != ResultMatch ==> result0 == nil

func Pattern.delWithTable
  requires p != nil
  requires object == FAMILY && table != nil ==> tableOK(*table) && (p[object] != nil ==> allStrings(*p[object]))
  modifies p, (object == FAMILY && table != nil ? mapof(table.familyHash) : p), (object == FAMILY && table != nil ? mapof(table.familyBlankHash) : p)
  ensures [gone] !(object in p) && p[object] == nil
  ensures [others] forall o Object :: o != object ==> p[o] == old(p[o]) && (o in p <==> old(o in p))

func Pattern.addWithTable
  requires p != nil
  requires p[object] != nil ==> obj(list) != obj(*p[object])
  requires object == FAMILY && table != nil ==> tableOK(*table)
  modifies p, *p[object], (*p[object])[:], list[0:len(list)], (object == FAMILY && table != nil ? mapof(table.familyHash) : p), (object == FAMILY && table != nil ? mapof(table.familyBlankHash) : p)
  ensures [others] forall o Object :: o != object ==> p[o] == old(p[o]) && (o in p <==> old(o in p))
  ensures [listed] p[object] != nil
  ensures [same] old(p[object]) != nil ==> p[object] == old(p[object])
  ensures [len] len(*p[object]) == (old(validList(object, list)) ? len(list) : 0) + old(lenOf(p, object))
  ensures [kept] append || !old(validList(object, list)) ==> forall k int :: {(*p[object])[k]} 0 <= k && k < old(lenOf(p, object)) ==> (*p[object])[k] == old((*p[object])[k])
  ensures [new] append && old(validList(object, list)) ==> forall k int :: {(*p[object])[k]} old(lenOf(p, object)) <= k && k < len(*p[object]) ==> (*p[object])[k].Value == old(list)[k - old(lenOf(p, object))].Value && (*p[object])[k].Binding == resolved(old(list)[k - old(lenOf(p, object))].Binding, vbWeak)
  ensures [keptfirst] !append && old(validList(object, list)) ==> forall k int :: {(*p[object])[k]} len(list) <= k && k < len(*p[object]) ==> (*p[object])[k] == old((*p[object])[k - len(list)])
  ensures [newfirst] !append && old(validList(object, list)) ==> forall k int :: {(*p[object])[k]} 0 <= k && k < len(list) ==> (*p[object])[k].Value == old(list)[k].Value && (*p[object])[k].Binding == resolved(old(list)[k].Binding, vbWeak)

func Pattern.canon
  requires p != nil
  modifies p
  ensures [canon] (object in p) ==> p[object] != nil && len(*p[object]) > 0
  ensures [removed] old(p[object] == nil || len(*p[object]) == 0) ==> p[object] == nil && !(object in p)
  ensures [kept] old(p[object] != nil && len(*p[object]) > 0) ==> p[object] == old(p[object]) && object in p
  ensures [others] forall o Object :: o != object ==> p[o] == old(p[o]) && (o in p <==> old(o in p))

func Pattern.Duplicate
  closed forall o Object :: wf(p[o]) && wf(*p[o])
  ensures [fresh] fresh(result)
  ensures [keys] forall o Object :: o in result <==> o in p
  ensures [nil] forall o Object :: o in p ==> (result[o] == nil <==> p[o] == nil)
  ensures [copies] forall o Object :: o in p && p[o] != nil ==> fresh(result[o]) && copiedList(*p[o], *result[o])
  loop 0:
    invariant fresh(out) && out != nil
    invariant forall k Object :: k in out <==> visited[k]
    invariant forall k Object :: {visited[k]} visited[k] ==> (out[k] == nil <==> p[k] == nil)
    invariant forall k Object :: {visited[k]} visited[k] && p[k] != nil ==> fresh(out[k]) && allocated(out[k]) && fresh(*out[k]) && allocated(*out[k]) && copiedList(*p[k], *out[k])

property F03: valueList.prepend, valueList.insert, valueList.del, familyTable.add, familyTable.del, familyTable.lookup, valueList.duplicate, Pattern.addList, Pattern.addWithBinding, Pattern.Add, Pattern.Del, Pattern.getVals, Pattern.GetAt, Pattern.delWithTable, Pattern.addWithTable, Pattern.canon, Pattern.Duplicate
