package github.com/benoitkugler/textprocessing/fontconfig

spec func sortedPages(s []uint16) bool = forall i, j int :: 0 <= i && i < j && j < len(s) ==> s[i] < s[j]

spec func wfCharset(s Charset) bool = sortedPages(s.pageNumbers) && len(s.pages) == len(s.pageNumbers) && (forall i int :: 0 <= i && i < len(s.pageNumbers) ==> s.pageNumbers[i] < 0xFFFF)

# the insertion position of num in s
spec func isInsertPos(s []uint16, p int, num uint16) bool = 0 <= p && p <= len(s) && (forall k int :: 0 <= k && k < p ==> s[k] < num) && (forall k int :: p <= k && k < len(s) ==> s[k] > num)

# membership of the rune of page p, word w and bit k
spec opaque inPages(pn []uint16, pages []charPage, p, w, k int) bool = exists i int :: 0 <= i && i < len(pn) && pn[i] == p && bit(pages[i][w], k)

spec func chas(s Charset, p, w, k int) bool = inPages(s.pageNumbers, s.pages, p, w, k)

spec func hasRune(s Charset, r int) bool = chas(s, (r / 256) % 65536, (r % 256) / 32, r % 32)

func Charset.findLeafForward
  requires 0 <= low && low <= len(fcs.pageNumbers)
  requires sortedPages(fcs.pageNumbers)
  requires forall k int :: 0 <= k && k < low ==> fcs.pageNumbers[k] < num
  ensures [range] result < len(fcs.pageNumbers)
  ensures [found] result >= 0 ==> fcs.pageNumbers[result] == num
  ensures [insert] result < 0 ==> isInsertPos(fcs.pageNumbers, -result-1, num)
  loop 0:
    invariant entry(low) <= low && high < len(numbers) && low <= high + 1
    invariant forall k int :: 0 <= k && k < low ==> numbers[k] < num
    invariant forall k int :: high < k && k < len(numbers) ==> numbers[k] > num
    decreases high - low + 1

func Charset.findLeafPos
  requires sortedPages(fcs.pageNumbers)
  ensures [range] result < len(fcs.pageNumbers)
  ensures [found] result >= 0 ==> fcs.pageNumbers[result] == page
  ensures [insert] result < 0 ==> isInsertPos(fcs.pageNumbers, -result-1, page)

func Charset.findLeaf
  requires fcs != nil
  requires wfCharset(*fcs)
  ensures [found] result != nil ==> (exists i int :: 0 <= i && i < len(fcs.pageNumbers) && fcs.pageNumbers[i] == pageNumber && result == &fcs.pages[i])
  ensures [absent] result == nil ==> (forall i int :: 0 <= i && i < len(fcs.pageNumbers) ==> fcs.pageNumbers[i] != pageNumber)

func Charset.putLeaf
  requires fcs != nil
  requires len(fcs.pages) == len(fcs.pageNumbers)
  requires 0 <= pos && pos <= len(fcs.pageNumbers)
  modifies fcs.pageNumbers, fcs.pages, fcs.pageNumbers[:], fcs.pages[:]
  ensures (fresh(fcs.pages) || obj(fcs.pages) == old(obj(fcs.pages))) && (fresh(fcs.pageNumbers) || obj(fcs.pageNumbers) == old(obj(fcs.pageNumbers)))
  ensures len(fcs.pageNumbers) == len(old(fcs.pageNumbers)) + 1
  ensures len(fcs.pages) == len(old(fcs.pages)) + 1
  ensures fcs.pageNumbers[pos] == page && fcs.pages[pos] == leaf
  ensures forall k int :: 0 <= k && k < pos ==> fcs.pageNumbers[k] == old(fcs.pageNumbers[k]) && fcs.pages[k] == old(fcs.pages[k])
  ensures forall k int :: pos < k && k < len(fcs.pageNumbers) ==> fcs.pageNumbers[k] == old(fcs.pageNumbers[k-1]) && fcs.pages[k] == old(fcs.pages[k-1])

# the page is created empty if needed; the content is unchanged
func Charset.findLeafCreate
  requires fcs != nil
  requires wfCharset(*fcs) && page < 0xFFFF
  modifies fcs.pageNumbers, fcs.pages, fcs.pageNumbers[:], fcs.pages[:]
  ensures (fresh(fcs.pages) || obj(fcs.pages) == old(obj(fcs.pages))) && (fresh(fcs.pageNumbers) || obj(fcs.pageNumbers) == old(obj(fcs.pageNumbers)))
  ensures [wf] wfCharset(*fcs)
  ensures [ptr] exists q int :: 0 <= q && q < len(fcs.pageNumbers) && fcs.pageNumbers[q] == page && result == &fcs.pages[q] && (len(fcs.pageNumbers) == old(len(fcs.pageNumbers)) ? samePages(*fcs, old(*fcs)) : insertedPage(*fcs, old(*fcs), q))

spec func samePages(s Charset, o Charset) bool = forall k int :: 0 <= k && k < len(s.pageNumbers) ==> s.pageNumbers[k] == o.pageNumbers[k] && s.pages[k] == o.pages[k]

spec func insertedPage(s Charset, o Charset, q int) bool = len(s.pageNumbers) == len(o.pageNumbers) + 1 && (forall w int :: 0 <= w && w < 8 ==> s.pages[q][w] == 0) && (forall k int :: 0 <= k && k < q ==> s.pageNumbers[k] == o.pageNumbers[k] && s.pages[k] == o.pages[k]) && (forall k int :: q < k && k < len(s.pageNumbers) ==> s.pageNumbers[k] == o.pageNumbers[k-1] && s.pages[k] == o.pages[k-1])

func Charset.AddChar
  requires fcs != nil
  requires wfCharset(*fcs)
  requires 0 <= r && r < 0xFFFF00
  modifies fcs.pageNumbers, fcs.pages, fcs.pageNumbers[:], fcs.pages[:]
  ensures (fresh(fcs.pages) || obj(fcs.pages) == old(obj(fcs.pages))) && (fresh(fcs.pageNumbers) || obj(fcs.pageNumbers) == old(obj(fcs.pageNumbers)))
  ensures [wf] wfCharset(*fcs)
  ensures [set] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(*fcs, p, w, k) <==> old(chas(*fcs, p, w, k)) || (p == r/256 && w == (r % 256)/32 && k == r % 32))

func Charset.DelChar
  requires wfCharset(fcs)
  requires 0 <= r && r < 0xFFFF00
  modifies fcs.pages[:]
  ensures [set] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(fcs, p, w, k) <==> old(chas(fcs, p, w, k)) && !(p == r/256 && w == (r % 256)/32 && k == r % 32))

func Charset.HasChar
  requires fcs != nil
  requires wfCharset(*fcs)
  ensures [has] result <==> hasRune(*fcs, r)

func Charset.Copy
  requires wfCharset(fcs)
  ensures wfCharset(result)
  ensures [fresh] (len(fcs.pages) > 0 ==> fresh(result.pages) && fresh(result.pageNumbers))
  ensures [same] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(result, p, w, k) <==> chas(fcs, p, w, k))

func Charset.addLeaf
  requires fcs != nil
  requires wfCharset(*fcs) && pageNumber < 0xFFFF
  modifies fcs.pageNumbers, fcs.pages, fcs.pageNumbers[:], fcs.pages[:]
  ensures (fresh(fcs.pages) || obj(fcs.pages) == old(obj(fcs.pages))) && (fresh(fcs.pageNumbers) || obj(fcs.pageNumbers) == old(obj(fcs.pageNumbers)))
  ensures [wf] wfCharset(*fcs)
  ensures [pages] forall i, p int :: 0 <= i && i < len(fcs.pageNumbers) && p == fcs.pageNumbers[i] ==> p == pageNumber || old(hasPage(*fcs, p))
  ensures [pos] exists q int :: 0 <= q && q < len(fcs.pageNumbers) && fcs.pageNumbers[q] == pageNumber && (len(fcs.pageNumbers) == old(len(fcs.pageNumbers)) ? sameNumbers(*fcs, old(*fcs)) : insertedNumber(*fcs, old(*fcs), q))
  ensures [set] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(*fcs, p, w, k) <==> (p == pageNumber && bit(leaf[w], k)) || (p != pageNumber && old(chas(*fcs, p, w, k))))

spec func sameNumbers(s Charset, o Charset) bool = forall k int :: 0 <= k && k < len(s.pageNumbers) ==> s.pageNumbers[k] == o.pageNumbers[k]

spec func insertedNumber(s Charset, o Charset, q int) bool = len(s.pageNumbers) == len(o.pageNumbers) + 1 && (forall k int :: 0 <= k && k < q ==> s.pageNumbers[k] == o.pageNumbers[k]) && (forall k int :: q < k && k < len(s.pageNumbers) ==> s.pageNumbers[k] == o.pageNumbers[k-1])

spec func hasPage(s Charset, p int) bool = exists i int :: 0 <= i && i < len(s.pageNumbers) && s.pageNumbers[i] == p

spec opaque inPagesUpto(pn []uint16, pages []charPage, n, p, w, k int) bool = exists i int :: 0 <= i && i < n && i < len(pn) && pn[i] == p && bit(pages[i][w], k)

spec func chasUpto(s Charset, n, p, w, k int) bool = inPagesUpto(s.pageNumbers, s.pages, n, p, w, k)

spec func iterOK(it *charsetIter, s Charset) bool = it.charset == s && 0 <= it.pos && (it.pos < len(s.pageNumbers) ? it.leaf == &s.pages[it.pos] : it.leaf == nil)

func charPage.unionLeaf
  requires result != nil
  modifies *result
  ensures result0
  ensures [bits] forall w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (bit(result[w], k) <==> bit(a[w], k) || bit(b[w], k))
  loop 0:
    unroll 8

func charPage.subtractLeaf
  requires result != nil
  modifies *result
  ensures [bits] forall w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (bit(result[w], k) <==> bit(al[w], k) && !bit(bl[w], k))
  ensures [nonempty] result0 <==> (exists w int :: 0 <= w && w < 8 && result[w] != 0)
  loop 0:
    unroll 8

func newCharsetIter
  requires wfCharset(fcs)
  ensures fresh(result) && result.pos == 0 && iterOK(result, fcs)

func charsetIter.next
  requires iter != nil && wfCharset(iter.charset) && iterOK(iter, iter.charset)
  modifies iter.pos, iter.leaf
  ensures iter.pos == old(iter.pos) + 1 && iterOK(iter, iter.charset)

func charsetIter.set
  requires iter != nil && wfCharset(iter.charset)
  modifies iter.pos, iter.leaf
  ensures iterOK(iter, iter.charset) && iter.pos <= len(iter.charset.pageNumbers)
  ensures forall i int :: 0 <= i && i < iter.pos ==> iter.charset.pageNumbers[i] < pageNumber
  ensures forall i int :: iter.pos <= i && i < len(iter.charset.pageNumbers) ==> iter.charset.pageNumbers[i] >= pageNumber

func charsetUnion
  requires wfCharset(a) && wfCharset(b)
  ensures [wf] wfCharset(result)
  ensures [set] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(result, p, w, k) <==> chas(a, p, w, k) || chas(b, p, w, k))
  ensures [fresh] fresh(result.pages) || result.pages == nil

func charsetSubtract
  requires wfCharset(a) && wfCharset(b)
  ensures [wf] wfCharset(result)
  ensures [set] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(result, p, w, k) <==> chas(a, p, w, k) && !chas(b, p, w, k))
  ensures [fresh] fresh(result.pages) || result.pages == nil

func operate
  inline
  loop 0:
    invariant iterOK(ai, a) && iterOK(bi, b) && fresh(ai) && fresh(bi) && ai != bi
    invariant wfCharset(fcs) && (fresh(fcs.pages) || fcs.pages == nil) && (fresh(fcs.pageNumbers) || fcs.pageNumbers == nil)
    invariant [below] forall i int :: 0 <= i && i < len(fcs.pageNumbers) ==> fcs.pageNumbers[i] < ai.page() && (bonly ==> fcs.pageNumbers[i] < bi.page())
    invariant [abelow] bonly ==> forall i int :: 0 <= i && i < ai.pos && i < len(a.pageNumbers) ==> a.pageNumbers[i] < bi.page()
    invariant [bbelow] forall i int :: 0 <= i && i < bi.pos && i < len(b.pageNumbers) ==> b.pageNumbers[i] < ai.page()
    invariant [union] bonly ==> forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(fcs, p, w, k) <==> chasUpto(a, ai.pos, p, w, k) || chasUpto(b, bi.pos, p, w, k))
    invariant [sub] !bonly ==> forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(fcs, p, w, k) <==> chasUpto(a, ai.pos, p, w, k) && !chas(b, p, w, k))

func Charset.isSubset
  requires wfCharset(a) && wfCharset(b)
  ensures [sub] result ==> forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chas(a, p, w, k) ==> chas(b, p, w, k)
  ensures [witness] !result ==> exists i, w, k int :: 0 <= i && i < len(a.pageNumbers) && 0 <= w && w < 8 && 0 <= k && k < 32 && bit(a.pages[i][w], k) && !chas(b, a.pageNumbers[i], w, k)
  at return:
    assert forall i, w int :: {a.pages[i][w]} a.pages[i][w] != 0 ==> bit(a.pages[i][w], bwit(a.pages[i][w]))
  loop 0:
    invariant 0 <= ai && ai <= len(a.pageNumbers) && 0 <= bi && bi <= len(b.pageNumbers)
    invariant [abelow] forall i int :: 0 <= i && i < ai && bi < len(b.pageNumbers) ==> a.pageNumbers[i] < b.pageNumbers[bi]
    invariant [bbelow] forall i int :: 0 <= i && i < bi && ai < len(a.pageNumbers) ==> b.pageNumbers[i] < a.pageNumbers[ai]
    invariant [sub] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chasUpto(a, ai, p, w, k) ==> chas(b, p, w, k)
  loop 1:
    unroll 8
  loop 2:
    invariant 0 <= ai && ai <= len(a.pageNumbers)
    invariant [bbelow] forall i, j int :: 0 <= i && i < len(b.pageNumbers) && ai <= j && j < len(a.pageNumbers) ==> b.pageNumbers[i] < a.pageNumbers[j]
    invariant [sub] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chasUpto(a, ai, p, w, k) ==> chas(b, p, w, k)

extern math/bits.OnesCount32
  ensures 0 <= result && result <= 32
  ensures result == 0 <==> x == 0

func charsetSubtractCount
  requires wfCharset(a) && wfCharset(b) && len(a.pageNumbers) <= 65535
  ensures [sub] result == 0 ==> forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chas(a, p, w, k) ==> chas(b, p, w, k)
  ensures [witness] result != 0 ==> exists p, w, k int :: {chas(a, p, w, k)} 0 <= w && w < 8 && 0 <= k && k < 32 && chas(a, p, w, k) && !chas(b, p, w, k)
  loop 0:
    invariant iterOK(ai, a) && iterOK(bi, b) && fresh(ai) && fresh(bi) && ai != bi && ai.pos <= len(a.pageNumbers)
    invariant [bbelow] forall i int :: 0 <= i && i < bi.pos && i < len(b.pageNumbers) ==> b.pageNumbers[i] < ai.page()
    invariant [count] 0 <= count && count <= 256 * ai.pos
    invariant [sub] count == 0 ==> forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chasUpto(a, ai.pos, p, w, k) ==> chas(b, p, w, k)
    invariant [witness] count != 0 ==> exists p, w, k int :: {chas(a, p, w, k)} 0 <= w && w < 8 && 0 <= k && k < 32 && chas(a, p, w, k) && !chas(b, p, w, k)
    at begin:
      assert [rowA] forall w, k int :: {bit(a.pages[ai.pos][w], k)} 0 <= w && w < 8 && 0 <= k && k < 32 && bit(a.pages[ai.pos][w], k) ==> chas(a, a.pageNumbers[ai.pos], w, k)
      assert [rowB] bi.pos < len(b.pageNumbers) && b.pageNumbers[bi.pos] == a.pageNumbers[ai.pos] ==> forall w, k int :: {bit(b.pages[bi.pos][w], k)} 0 <= w && w < 8 && 0 <= k && k < 32 ==> (bit(b.pages[bi.pos][w], k) <==> chas(b, a.pageNumbers[ai.pos], w, k))
      assert [noB] a.pageNumbers[ai.pos] < bi.page() ==> forall w, k int :: {chas(b, a.pageNumbers[ai.pos], w, k)} !chas(b, a.pageNumbers[ai.pos], w, k)
    at end:
      assert [both] forall q, w int :: {a.pages[q][w] & ^b.pages[bi.pos][w]} 0 <= q && q < len(a.pageNumbers) && bi.pos < len(b.pageNumbers) && 0 <= w && w < 8 && a.pages[q][w] & ^b.pages[bi.pos][w] != 0 ==> bit(a.pages[q][w], bwit(a.pages[q][w] & ^b.pages[bi.pos][w])) && !bit(b.pages[bi.pos][w], bwit(a.pages[q][w] & ^b.pages[bi.pos][w]))
      assert [only] forall q, w int :: {a.pages[q][w]} 0 <= q && q < len(a.pageNumbers) && 0 <= w && w < 8 && a.pages[q][w] != 0 ==> bit(a.pages[q][w], bwit(a.pages[q][w]))
      assert [new] 0 < ai.pos && bi.pos < len(b.pageNumbers) && a.pageNumbers[ai.pos - 1] == b.pageNumbers[bi.pos] ==> forall w int :: {a.pages[ai.pos - 1][w]} 0 <= w && w < 8 && a.pages[ai.pos - 1][w] & ^b.pages[bi.pos][w] != 0 ==> chas(a, a.pageNumbers[ai.pos - 1], w, bwit(a.pages[ai.pos - 1][w] & ^b.pages[bi.pos][w])) && !chas(b, a.pageNumbers[ai.pos - 1], w, bwit(a.pages[ai.pos - 1][w] & ^b.pages[bi.pos][w]))
  loop 1:
    unroll 8
  loop 2:
    unroll 8

func charsetEqual
  requires wfCharset(a) && wfCharset(b)
  ensures [eq] result ==> forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(a, p, w, k) <==> chas(b, p, w, k))
  ensures [ne] !result ==> exists p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && !(chas(a, p, w, k) <==> chas(b, p, w, k))

func Charset.merge
  requires wfCharset(b)
  requires a != nil ==> wfCharset(*a)
  requires a != nil && 0 < len(b.pageNumbers) ==> obj(b.pages) != obj(a.pages) && obj(b.pageNumbers) != obj(a.pageNumbers)
  modifies a.pageNumbers, a.pages, a.pageNumbers[:], a.pages[:]
  ensures a == nil ==> !result
  ensures a != nil ==> (fresh(a.pages) || obj(a.pages) == old(obj(a.pages))) && (fresh(a.pageNumbers) || obj(a.pageNumbers) == old(obj(a.pageNumbers)))
  ensures [wf] a != nil ==> wfCharset(*a)
  ensures [set] a != nil ==> forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(*a, p, w, k) <==> old(chas(*a, p, w, k)) || old(chas(b, p, w, k)))
  ensures [unchanged] a != nil && !result ==> forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chas(*a, p, w, k) ==> old(chas(*a, p, w, k))
  ensures [changed] a != nil && result ==> exists p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 && chas(*a, p, w, k) && !old(chas(*a, p, w, k))
  loop 0:
    invariant 0 <= ai && ai <= len(a.pageNumbers) && 0 <= bi && bi <= len(b.pageNumbers) && changed
    invariant wfCharset(*a)
    invariant (fresh(a.pages) || obj(a.pages) == old(obj(a.pages))) && (fresh(a.pageNumbers) || obj(a.pageNumbers) == old(obj(a.pageNumbers)))
    invariant bi < len(b.pageNumbers) ==> obj(b.pages) != obj(a.pages) && obj(b.pageNumbers) != obj(a.pageNumbers)
    invariant [below] forall i int :: 0 <= i && i < ai && i < len(a.pageNumbers) && bi < len(b.pageNumbers) ==> a.pageNumbers[i] < b.pageNumbers[bi]
    invariant [set] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(*a, p, w, k) <==> old(chas(*a, p, w, k)) || chasUpto(b, bi, p, w, k))
    at end:
      assert [stepb] forall p, w, k int :: {chasUpto(b, bi, p, w, k)} bi > 0 ==> (chasUpto(b, bi, p, w, k) <==> chasUpto(b, bi - 1, p, w, k) || (p == b.pageNumbers[bi-1] && bit(b.pages[bi-1][w], k)))
    at func after charPage.unionLeaf:
      assert [step] forall p, w, k int :: 0 <= w && w < 8 && 0 <= k && k < 32 ==> (chas(*a, p, w, k) <==> old(chas(*a, p, w, k)) || chasUpto(b, bi, p, w, k) || (p == b.pageNumbers[bi] && bit(b.pages[bi][w], k)))

property F01: Charset.findLeafForward, Charset.findLeafPos, Charset.findLeaf, Charset.putLeaf, Charset.findLeafCreate, Charset.AddChar, Charset.DelChar, Charset.HasChar, Charset.Copy, Charset.addLeaf, charPage.unionLeaf, charPage.subtractLeaf, newCharsetIter, charsetIter.next, charsetIter.set, charsetUnion, charsetSubtract, charsetSubtractCount, Charset.isSubset, charsetEqual, Charset.merge
