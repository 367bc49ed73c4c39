package github.com/benoitkugler/textprocessing/fontconfig

# the values of an edit expression
spec func exprLen(e *expression, p Pattern, q Pattern, kind matchKind) int
spec func exprVal(e *expression, p Pattern, q Pattern, kind matchKind, k int) Value

# whether the object accepts all the values of the expression
spec func exprOK(o Object, e *expression, p Pattern, q Pattern, kind matchKind) bool

func expression.toValues
  trusted "the values of an expression are an uninterpreted function of the expression, the patterns and the kind; evaluation does not write to memory and does not panic"
  ensures fresh(result) && allocated(result)
  ensures len(result) == exprLen(e, p, p_pat, kind) && len(result) >= 0
  ensures forall k int :: {result[k]} 0 <= k && k < len(result) ==> result[k].Value == exprVal(e, p, p_pat, kind, k) && result[k].Value != nil && result[k].Binding == binding
  ensures forall o Object :: {exprOK(o, e, p, p_pat, kind)} exprOK(o, e, p, p_pat, kind) <==> validList(o, result)

# number of values inserted: none if one of them has a wrong type
spec func nbNew(r ruleEdit, p Pattern, q Pattern, kind matchKind) int = exprOK(r.object, r.expr, p, q, kind) ? exprLen(r.expr, p, q, kind) : 0

# the list of the object is made of its first a old values, then m values of the edit ("same" bindings resolved), then the old values from b
spec func editedLen(p Pattern, r ruleEdit, a int, m int, b int) bool = lenOf(p, r.object) == a + m + old(lenOf(p, r.object)) - b
spec func editedBefore(p Pattern, r ruleEdit, a int) bool = forall k int :: {(*p[r.object])[k]} 0 <= k && k < a ==> (*p[r.object])[k] == old((*p[r.object])[k])
spec func editedNew(p Pattern, r ruleEdit, q Pattern, kind matchKind, a int, m int, same valueBinding) bool = forall k int :: {(*p[r.object])[k]} a <= k && k < a + m ==> (*p[r.object])[k].Value == exprVal(r.expr, p, q, kind, k - a) && (*p[r.object])[k].Binding == resolved(r.binding, same)
spec func editedAfter(p Pattern, r ruleEdit, a int, m int, b int) bool = forall k int :: {(*p[r.object])[k]} a + m <= k && k < lenOf(p, r.object) ==> (*p[r.object])[k] == old((*p[r.object])[k - a - m + b])

func ruleEdit.edit
  requires p != nil
  requires 0 <= r.object && r.object < len(valuePos) && r.object < len(targets) && r.object < len(tst)
  requires r.object == FAMILY && table != nil ==> tableOK(*table) && (p[FAMILY] != nil ==> allStrings(*p[FAMILY]))
  requires valuePos[r.object] == -1 || (p[r.object] != nil && 0 <= valuePos[r.object] && valuePos[r.object] < len(*p[r.object]))
  requires valuePos[r.object] == -1 || targets[r.object] == p[r.object] || tst[r.object].kind == MatchResult || selectedKind == MatchQuery
  closed forall o Object :: wf(p[o]) && wf(*p[o])
  modifies p, *p[r.object], (*p[r.object])[:], valuePos[r.object], targets[r.object], (r.object == FAMILY && table != nil ? mapof(table.familyHash) : p), (r.object == FAMILY && table != nil ? mapof(table.familyBlankHash) : p)
  ensures [others] forall o Object :: o != r.object ==> p[o] == old(p[o]) && (o in p <==> old(o in p))
  ensures [canon] (r.object in p) ==> p[r.object] != nil && len(*p[r.object]) > 0
  ensures [position] valuePos[r.object] == -1 || (p[r.object] != nil && 0 <= valuePos[r.object] && valuePos[r.object] < len(*p[r.object]))
  ensures [target] valuePos[r.object] == -1 || targets[r.object] == p[r.object] || tst[r.object].kind == MatchResult || selectedKind == MatchQuery
  ensures [assignlen] r.op.getOp() == opAssign && old(valuePos[r.object]) != -1 ==> editedLen(p, r, old(valuePos[r.object]), nbNew(r, p, pPat, selectedKind), old(valuePos[r.object]) + 1)
  ensures [assignbefore] r.op.getOp() == opAssign && old(valuePos[r.object]) != -1 ==> editedBefore(p, r, old(valuePos[r.object]))
  ensures [assignnew] r.op.getOp() == opAssign && old(valuePos[r.object]) != -1 ==> editedNew(p, r, pPat, selectedKind, old(valuePos[r.object]), nbNew(r, p, pPat, selectedKind), old((*p[r.object])[valuePos[r.object]].Binding))
  ensures [assignafter] r.op.getOp() == opAssign && old(valuePos[r.object]) != -1 ==> editedAfter(p, r, old(valuePos[r.object]), nbNew(r, p, pPat, selectedKind), old(valuePos[r.object]) + 1)
  ensures [assignposition] r.op.getOp() == opAssign && old(valuePos[r.object]) != -1 ==> valuePos[r.object] == (nbNew(r, p, pPat, selectedKind) > 0 ? old(valuePos[r.object]) : -1)
  ensures [replacelen] r.op.getOp() == opAssignReplace || (r.op.getOp() == opAssign && old(valuePos[r.object]) == -1) ==> editedLen(p, r, 0, nbNew(r, p, pPat, selectedKind), old(lenOf(p, r.object)))
  ensures [replacebefore] r.op.getOp() == opAssignReplace || (r.op.getOp() == opAssign && old(valuePos[r.object]) == -1) ==> editedBefore(p, r, 0)
  ensures [replacenew] r.op.getOp() == opAssignReplace || (r.op.getOp() == opAssign && old(valuePos[r.object]) == -1) ==> editedNew(p, r, pPat, selectedKind, 0, nbNew(r, p, pPat, selectedKind), vbWeak)
  ensures [replaceafter] r.op.getOp() == opAssignReplace || (r.op.getOp() == opAssign && old(valuePos[r.object]) == -1) ==> editedAfter(p, r, 0, nbNew(r, p, pPat, selectedKind), old(lenOf(p, r.object)))
  ensures [replaceposition] r.op.getOp() == opAssignReplace || (r.op.getOp() == opAssign && old(valuePos[r.object]) == -1) ==> valuePos[r.object] == -1
  ensures [prependlen] r.op.getOp() == opPrepend && old(valuePos[r.object]) != -1 ==> editedLen(p, r, old(valuePos[r.object]), nbNew(r, p, pPat, selectedKind), old(valuePos[r.object]))
  ensures [prependbefore] r.op.getOp() == opPrepend && old(valuePos[r.object]) != -1 ==> editedBefore(p, r, old(valuePos[r.object]))
  ensures [prependnew] r.op.getOp() == opPrepend && old(valuePos[r.object]) != -1 ==> editedNew(p, r, pPat, selectedKind, old(valuePos[r.object]), nbNew(r, p, pPat, selectedKind), old((*p[r.object])[valuePos[r.object]].Binding))
  ensures [prependafter] r.op.getOp() == opPrepend && old(valuePos[r.object]) != -1 ==> editedAfter(p, r, old(valuePos[r.object]), nbNew(r, p, pPat, selectedKind), old(valuePos[r.object]))
  ensures [prependposition] r.op.getOp() == opPrepend && old(valuePos[r.object]) != -1 ==> valuePos[r.object] == old(valuePos[r.object]) + nbNew(r, p, pPat, selectedKind)
  ensures [prependfirstlen] r.op.getOp() == opPrependFirst || (r.op.getOp() == opPrepend && old(valuePos[r.object]) == -1) ==> editedLen(p, r, 0, nbNew(r, p, pPat, selectedKind), 0)
  ensures [prependfirstbefore] r.op.getOp() == opPrependFirst || (r.op.getOp() == opPrepend && old(valuePos[r.object]) == -1) ==> editedBefore(p, r, 0)
  ensures [prependfirstnew] r.op.getOp() == opPrependFirst || (r.op.getOp() == opPrepend && old(valuePos[r.object]) == -1) ==> editedNew(p, r, pPat, selectedKind, 0, nbNew(r, p, pPat, selectedKind), vbWeak)
  ensures [prependfirstafter] r.op.getOp() == opPrependFirst || (r.op.getOp() == opPrepend && old(valuePos[r.object]) == -1) ==> editedAfter(p, r, 0, nbNew(r, p, pPat, selectedKind), 0)
  ensures [prependfirstposition] r.op.getOp() == opPrependFirst || (r.op.getOp() == opPrepend && old(valuePos[r.object]) == -1) ==> valuePos[r.object] == (old(valuePos[r.object]) == -1 ? -1 : old(valuePos[r.object]) + nbNew(r, p, pPat, selectedKind))
  ensures [appendlen] r.op.getOp() == opAppend && old(valuePos[r.object]) != -1 ==> editedLen(p, r, old(valuePos[r.object]) + 1, nbNew(r, p, pPat, selectedKind), old(valuePos[r.object]) + 1)
  ensures [appendbefore] r.op.getOp() == opAppend && old(valuePos[r.object]) != -1 ==> editedBefore(p, r, old(valuePos[r.object]) + 1)
  ensures [appendnew] r.op.getOp() == opAppend && old(valuePos[r.object]) != -1 ==> editedNew(p, r, pPat, selectedKind, old(valuePos[r.object]) + 1, nbNew(r, p, pPat, selectedKind), old((*p[r.object])[valuePos[r.object]].Binding))
  ensures [appendafter] r.op.getOp() == opAppend && old(valuePos[r.object]) != -1 ==> editedAfter(p, r, old(valuePos[r.object]) + 1, nbNew(r, p, pPat, selectedKind), old(valuePos[r.object]) + 1)
  ensures [appendposition] r.op.getOp() == opAppend && old(valuePos[r.object]) != -1 ==> valuePos[r.object] == old(valuePos[r.object])
  ensures [appendlastlen] r.op.getOp() == opAppendLast || (r.op.getOp() == opAppend && old(valuePos[r.object]) == -1) ==> editedLen(p, r, old(lenOf(p, r.object)), nbNew(r, p, pPat, selectedKind), old(lenOf(p, r.object)))
  ensures [appendlastbefore] r.op.getOp() == opAppendLast || (r.op.getOp() == opAppend && old(valuePos[r.object]) == -1) ==> editedBefore(p, r, old(lenOf(p, r.object)))
  ensures [appendlastnew] r.op.getOp() == opAppendLast || (r.op.getOp() == opAppend && old(valuePos[r.object]) == -1) ==> editedNew(p, r, pPat, selectedKind, old(lenOf(p, r.object)), nbNew(r, p, pPat, selectedKind), vbWeak)
  ensures [appendlastafter] r.op.getOp() == opAppendLast || (r.op.getOp() == opAppend && old(valuePos[r.object]) == -1) ==> editedAfter(p, r, old(lenOf(p, r.object)), nbNew(r, p, pPat, selectedKind), old(lenOf(p, r.object)))
  ensures [appendlastposition] r.op.getOp() == opAppendLast || (r.op.getOp() == opAppend && old(valuePos[r.object]) == -1) ==> valuePos[r.object] == old(valuePos[r.object])
  ensures [deletelen] r.op.getOp() == opDelete && old(valuePos[r.object]) != -1 ==> editedLen(p, r, old(valuePos[r.object]), 0, old(valuePos[r.object]) + 1)
  ensures [deletebefore] r.op.getOp() == opDelete && old(valuePos[r.object]) != -1 ==> editedBefore(p, r, old(valuePos[r.object]))
  ensures [deleteafter] r.op.getOp() == opDelete && old(valuePos[r.object]) != -1 ==> editedAfter(p, r, old(valuePos[r.object]), 0, old(valuePos[r.object]) + 1)
  ensures [deleteposition] r.op.getOp() == opDelete && old(valuePos[r.object]) != -1 ==> valuePos[r.object] == -1
  ensures [deleteall] r.op.getOp() == opDeleteAll || (r.op.getOp() == opDelete && old(valuePos[r.object]) == -1) ==> p[r.object] == nil && !(r.object in p)
  ensures [deleteallposition] r.op.getOp() == opDeleteAll || (r.op.getOp() == opDelete && old(valuePos[r.object]) == -1) ==> valuePos[r.object] == -1

# the value of a test expression, and the comparison of two values
spec func evalOf(e *expression, p Pattern, q Pattern, kind matchKind) Value
func expression.evaluate
  trusted "the value of an expression is an uninterpreted function of the expression, the patterns and the kind; evaluation does not write to memory and does not panic"
  ensures result0 == evalOf(e, result, query, kind)

spec func cmpOf(l Value, op opKind, r Value) bool
func compareValue
  trusted "uninterpreted function of its arguments (checked by the bounded harness)"
  ensures result == cmpOf(leftO, op, rightO)

spec rec commaTree(e *expression) bool = e == nil || (e.op.getOp() == opComma ? typeis(e.u, exprTree) && commaTree(e.u.(exprTree).right) : true)

spec func single(t ruleTest) bool = t.expr != nil && t.expr.op.getOp() != opComma
spec func usesTable(t ruleTest, table *familyTable) bool = t.object == FAMILY && table != nil

func matchValueList
  requires commaTree(t.expr)
  requires usesTable(t, table) ==> tableOK(*table) && (forall e *expression :: {evalOf(e, p, pPat, kind)} typeis(evalOf(e, p, pPat, kind), String))
  ensures [range] -1 <= result && (result < len(values) || (usesTable(t, table) && t.op.getOp() == opNotEqual && t.qual == qualAll && result == 0))
  ensures [first] single(t) && !usesTable(t, table) && t.qual != qualAll ==> forall k int :: 0 <= k && k < (result == -1 ? len(values) : result) ==> !cmpOf(values[k].Value, t.op, evalOf(t.expr, p, pPat, kind))
  ensures [found] single(t) && !usesTable(t, table) && result != -1 ==> cmpOf(values[result].Value, t.op, evalOf(t.expr, p, pPat, kind))
  ensures [all] single(t) && !usesTable(t, table) && t.qual == qualAll ==> (result == 0 <==> len(values) > 0 && (forall k int :: 0 <= k && k < len(values) ==> cmpOf(values[k].Value, t.op, evalOf(t.expr, p, pPat, kind))))
  ensures [allfirst] single(t) && !usesTable(t, table) && t.qual == qualAll ==> result <= 0
  loop 0:
    invariant -1 <= ret && (ret < len(values) || (usesTable(t, table) && t.op.getOp() == opNotEqual && t.qual == qualAll && ret == 0))
    invariant commaTree(e)
    invariant single(t) && e == t.expr ==> ret == -1
    invariant single(t) ==> e == nil || e == t.expr
    invariant single(t) && !usesTable(t, table) && e == nil && t.qual != qualAll ==> forall k int :: 0 <= k && k < (ret == -1 ? len(values) : ret) ==> !cmpOf(values[k].Value, t.op, evalOf(t.expr, p, pPat, kind))
    invariant single(t) && !usesTable(t, table) && e == nil && ret != -1 ==> cmpOf(values[ret].Value, t.op, evalOf(t.expr, p, pPat, kind))
    invariant single(t) && !usesTable(t, table) && e == nil && t.qual == qualAll ==> (ret == 0 <==> len(values) > 0 && (forall k int :: 0 <= k && k < len(values) ==> cmpOf(values[k].Value, t.op, evalOf(t.expr, p, pPat, kind))))
    invariant single(t) && !usesTable(t, table) && e == nil && t.qual == qualAll ==> ret <= 0
  loop 1:
    invariant -1 <= ret && ret < len(values)
    invariant single(t) && t.qual != qualAll ==> ret == -1 && (forall k int :: 0 <= k && k < rangeidx ==> !cmpOf(values[k].Value, t.op, value))
    invariant single(t) && t.qual == qualAll ==> ret == (rangeidx == 0 ? -1 : 0) && (forall k int :: 0 <= k && k < rangeidx ==> cmpOf(values[k].Value, t.op, value))

spec func testTarget(r ruleTest, selectedKind matchKind, p Pattern, pPat Pattern) Pattern = selectedKind == MatchResult && r.kind == MatchQuery ? pPat : p

func ruleTest.match
  requires 0 <= r.object && r.object < len(valuePos) && r.object < len(targets) && r.object < len(tst)
  requires commaTree(r.expr)
  requires r.object == FAMILY ==> tableOK(data) && (forall e *expression, q Pattern, q2 Pattern, k matchKind :: {evalOf(e, q, q2, k)} typeis(evalOf(e, q, q2, k), String))
  requires testTarget(r, selectedKind, p, pPat)[r.object] != nil ==> len(*testTarget(r, selectedKind, p, pPat)[r.object]) > 0
  modifies valuePos[r.object], targets[r.object], tst[r.object]
  ensures [absent] testTarget(r, selectedKind, p, pPat)[r.object] == nil ==> (result1 <==> r.qual == qualAll) && (valuePos[r.object] == old(valuePos[r.object]) || valuePos[r.object] == -1)
  ensures [marked] valuePos[r.object] == old(valuePos[r.object]) || valuePos[r.object] == -1 || (old(valuePos[r.object]) == -1 && selectedKind == r.kind && p[r.object] != nil && 0 <= valuePos[r.object] && valuePos[r.object] < len(*p[r.object]))
  ensures [target] targets[r.object] == old(targets[r.object]) || (old(targets[r.object]) == nil && selectedKind == r.kind && targets[r.object] == p[r.object])
  ensures [test] targets[r.object] != old(targets[r.object]) ==> tst[r.object].kind == r.kind

property F07: ruleEdit.edit, ruleTest.match, matchValueList
