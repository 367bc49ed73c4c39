# F08: the binary cache
package github.com/benoitkugler/textprocessing/fontconfig

# big endian numbers
spec func be16(d []byte, at int) int = d[at] * 256 + d[at + 1]
spec func be32(d []byte, at int) int = d[at] * 16777216 + d[at + 1] * 65536 + d[at + 2] * 256 + d[at + 3]
spec func f32from(b int) float32
# the two's complement reading of a 32 bits word
spec func signed32(b int) int = b >= 2147483648 ? b - 4294967296 : b

extern encoding/binary.bigEndian.Uint16
  requires len(b) >= 2
  ensures result == be16(b, 0)
extern encoding/binary.bigEndian.Uint32
  requires len(b) >= 4
  ensures result == be32(b, 0)
extern encoding/binary.bigEndian.PutUint16
  requires len(b) >= 2
  modifies b[0:2]
  ensures be16(b, 0) == v
extern encoding/binary.bigEndian.PutUint32
  requires len(b) >= 4
  modifies b[0:4]
  ensures be32(b, 0) == v
extern math.Float32bits
  ensures f32from(result) == f
extern math.Float32frombits
  ensures result == f32from(b)
extern errors.New
  ensures result != nil

# ---- decoding: no data panics, the size read is the size of the encoding

func Int.deserializeBin
  requires v != nil
  modifies *v
  ensures [eof] len(data) < 4 ==> result1 != nil && result0 == 0
  ensures [ok] len(data) >= 4 ==> result1 == nil && result0 == 4 && *v == signed32(be32(data, 0))

func Float.deserializeBin
  requires v != nil
  modifies *v
  ensures [eof] len(data) < 4 ==> result1 != nil && result0 == 0
  ensures [ok] len(data) >= 4 ==> result1 == nil && result0 == 4 && *v == f32from(be32(data, 0))

func Bool.deserializeBin
  requires v != nil
  modifies *v
  ensures [eof] len(data) < 1 ==> result1 != nil && result0 == 0
  ensures [ok] len(data) >= 1 ==> result1 == nil && result0 == 1 && *v == data[0]

func String.deserializeBin
  requires v != nil
  modifies *v
  ensures [eof] len(data) < 4 || len(data) < 4 + be32(data, 0) ==> result1 != nil && result0 == 0
  ensures [ok] len(data) >= 4 && len(data) >= 4 + be32(data, 0) ==> result1 == nil && result0 == 4 + be32(data, 0) && len(*v) == be32(data, 0) && (forall k int :: {(*v)[k]} 0 <= k && k < len(*v) ==> (*v)[k] == data[4 + k])

func Matrix.deserializeBin
  requires v != nil
  modifies *v
  ensures [eof] len(data) < 16 ==> result1 != nil && result0 == 0
  ensures [ok] len(data) >= 16 ==> result1 == nil && result0 == 16 && v.Xx == f32from(be32(data, 0)) && v.Xy == f32from(be32(data, 4)) && v.Yx == f32from(be32(data, 8)) && v.Yy == f32from(be32(data, 12))

func Range.deserializeBin
  requires v != nil
  modifies *v
  ensures [eof] len(data) < 8 ==> result1 != nil && result0 == 0
  ensures [ok] len(data) >= 8 ==> result1 == nil && result0 == 8 && v.Begin == f32from(be32(data, 0)) && v.End == f32from(be32(data, 4))

func Langset.deserializeBin
  requires v != nil
  modifies *v
  ensures [eof] len(data) < 4 * langPageSize ==> result1 != nil && result0 == 0
  ensures [ok] len(data) >= 4 * langPageSize ==> result1 == nil && result0 == 4 * langPageSize && (forall j int :: {v.page[j]} 0 <= j && j < langPageSize ==> v.page[j] == be32(data, 4 * j))
  ensures [extra] v.extra == old(v.extra)
  loop 0:
    invariant forall k int :: {v.page[k]} 0 <= k && k < rangeidx ==> v.page[k] == be32(data, 4 * k)
    invariant v.extra == old(v.extra)

func Charset.deserializeBin
  requires v != nil
  modifies *v
  ensures [eof] len(data) < 2 || len(data) < 2 + 34 * be16(data, 0) ==> result1 != nil && result0 == 0
  ensures [ok] len(data) >= 2 && len(data) >= 2 + 34 * be16(data, 0) ==> result1 == nil && result0 == 2 + 34 * be16(data, 0) && len(v.pageNumbers) == be16(data, 0) && len(v.pages) == be16(data, 0)
  ensures [fresh] result1 == nil ==> fresh(v.pageNumbers) && fresh(v.pages)
  ensures [pages] result1 == nil ==> forall i int :: {v.pageNumbers[i]} 0 <= i && i < len(v.pageNumbers) ==> v.pageNumbers[i] == be16(data, 2 + 34 * i)
  ensures [words] result1 == nil ==> forall i, j int :: {v.pages[i][j]} 0 <= i && i < len(v.pages) && 0 <= j && j < 8 ==> v.pages[i][j] == be32(data, 4 + 34 * i + 4 * j)
  loop 0:
    invariant len(v.pageNumbers) == L && len(v.pages) == L
    invariant forall k int :: {v.pageNumbers[k]} 0 <= k && k < rangeidx ==> v.pageNumbers[k] == be16(data, 2 + 34 * k)
    invariant forall k, j int :: {v.pages[k][j]} 0 <= k && k < rangeidx && 0 <= j && j < 8 ==> v.pages[k][j] == be32(data, 4 + 34 * k + 4 * j)
  loop 1:
    invariant forall k, m int :: {v.pages[k][m]} 0 <= k && k < i && 0 <= m && m < 8 ==> v.pages[k][m] == be32(data, 4 + 34 * k + 4 * m)
    invariant forall m int :: {v.pages[i][m]} 0 <= m && m < rangeidx ==> v.pages[i][m] == be32(data, 4 + 34 * i + 4 * m)

spec func known(tag int) bool = 1 <= tag && tag <= 8
# the size of the encoding of the value with the given tag, found at the position at
spec func encSize(tag int, d []byte, at int) int = tag == tString ? 4 + be32(d, at) : (tag == tBool ? 1 : (tag == tCharset ? 2 + 34 * be16(d, at) : (tag == tLangset ? 4 * langPageSize : (tag == tMatrix ? 16 : (tag == tRange ? 8 : 4)))))
spec func encHead(tag int) int = tag == tString ? 4 : (tag == tCharset ? 2 : 0)
spec func tagOf(v Value) int = typeis(v, Int) ? tInt : (typeis(v, Float) ? tFloat : (typeis(v, String) ? tString : (typeis(v, Bool) ? tBool : (typeis(v, Charset) ? tCharset : (typeis(v, Langset) ? tLangset : (typeis(v, Matrix) ? tMatrix : (typeis(v, Range) ? tRange : 0)))))))

# the value e, apart from the pages of a character set, is encoded at the position at
spec opaque decodedAt(d []byte, at int, e valueElt) bool = e.Binding == d[at] && tagOf(e.Value) == d[at + 1] && known(d[at + 1]) && (d[at + 1] == tInt ==> e.Value.(Int) == signed32(be32(d, at + 2))) && (d[at + 1] == tFloat ==> e.Value.(Float) == f32from(be32(d, at + 2))) && (d[at + 1] == tBool ==> e.Value.(Bool) == d[at + 2]) && (d[at + 1] == tString ==> len(e.Value.(String)) == be32(d, at + 2) && (forall k int :: {e.Value.(String)[k]} 0 <= k && k < be32(d, at + 2) ==> e.Value.(String)[k] == d[at + 6 + k])) && (d[at + 1] == tMatrix ==> e.Value.(Matrix).Xx == f32from(be32(d, at + 2)) && e.Value.(Matrix).Xy == f32from(be32(d, at + 6)) && e.Value.(Matrix).Yx == f32from(be32(d, at + 10)) && e.Value.(Matrix).Yy == f32from(be32(d, at + 14))) && (d[at + 1] == tRange ==> e.Value.(Range).Begin == f32from(be32(d, at + 2)) && e.Value.(Range).End == f32from(be32(d, at + 6))) && (d[at + 1] == tLangset ==> e.Value.(Langset).extra == nil && (forall j int :: {e.Value.(Langset).page[j]} 0 <= j && j < langPageSize ==> e.Value.(Langset).page[j] == be32(d, at + 2 + 4 * j))) && (d[at + 1] == tCharset ==> len(e.Value.(Charset).pageNumbers) == be16(d, at + 2) && len(e.Value.(Charset).pages) == be16(d, at + 2))
# the position of the k-th value of the list encoded at the position at
spec rec valueAt(d []byte, at int, k int) int = k <= 0 ? at + 2 : valueAt(d, at, k - 1) + 2 + encSize(d[valueAt(d, at, k - 1) + 1], d, valueAt(d, at, k - 1) + 2)

func valueElt.dataType
  ensures [tag] result == tagOf(v.Value)

func valueElt.deserializeBin
  option reveal = decodedAt
  requires v != nil
  modifies *v
  ensures [header] len(data) < 2 ==> result1 != nil
  ensures [unknown] len(data) >= 2 && !known(data[1]) ==> result1 != nil
  ensures [eof] len(data) >= 2 && known(data[1]) && (len(data) < 2 + encHead(data[1]) || len(data) < 2 + encSize(data[1], data, 2)) ==> result1 != nil
  ensures [ok] len(data) >= 2 && known(data[1]) && len(data) >= 2 + encHead(data[1]) && len(data) >= 2 + encSize(data[1], data, 2) ==> result1 == nil && result0 == 2 + encSize(data[1], data, 2) && v.Binding == data[0] && tagOf(v.Value) == data[1]
  ensures [size] 0 <= result0 && result0 <= len(data)
  ensures [value] result1 == nil ==> decodedAt(data, 0, *v)
  ensures [charset] result1 == nil && data[1] == tCharset ==> len(v.Value.(Charset).pageNumbers) == be16(data, 2) && len(v.Value.(Charset).pages) == be16(data, 2) && (forall i int :: {v.Value.(Charset).pageNumbers[i]} 0 <= i && i < be16(data, 2) ==> v.Value.(Charset).pageNumbers[i] == be16(data, 4 + 34 * i)) && (forall i, j int :: {v.Value.(Charset).pages[i][j]} 0 <= i && i < be16(data, 2) && 0 <= j && j < 8 ==> v.Value.(Charset).pages[i][j] == be32(data, 6 + 34 * i + 4 * j))

func deserializeValueListBin
  ensures [size] 0 <= result1 && result1 <= len(data)
  ensures [ok] result2 == nil ==> fresh(result0) && len(data) >= 2 && len(result0) == be16(data, 0)
  ensures [values] result2 == nil ==> forall k int :: {result0[k]} 0 <= k && k < len(result0) ==> decodedAt(data, valueAt(data, 0, k), result0[k])
  ensures [consumed] result2 == nil ==> result1 == valueAt(data, 0, len(result0))
  ensures [error] result2 != nil ==> result0 == nil
  loop 0:
    invariant 2 <= offset && offset <= len(data)
    invariant offset == valueAt(data, 0, rangeidx)
    invariant forall k int :: {list[k]} 0 <= k && k < rangeidx ==> 2 <= valueAt(data, 0, k) && valueAt(data, 0, k) <= len(data) && decodedAt(data, valueAt(data, 0, k), list[k])

func deserializePatternBin
  ensures [ok] result1 == nil ==> result0 != nil && fresh(result0) && len(data) >= 2
  ensures [values] result1 == nil ==> forall o Object :: {result0[o]} o in result0 ==> result0[o] != nil && fresh(result0[o])
  ensures [error] result1 != nil ==> result0 == nil
  loop 0:
    invariant fresh(pat) && pat != nil
    invariant 2 <= offset && offset <= len(data)
    invariant 0 <= i && i <= L
    invariant forall o Object :: {pat[o]} o in pat ==> pat[o] != nil && fresh(pat[o])


# ---- encoding: the bytes are appended to the buffer

spec func bufOf(w any) []byte = w.(*bytes.Buffer).buf

extern io.Writer.Write
  requires typeis(recv, *bytes.Buffer) && recv.(*bytes.Buffer) != nil
  requires obj(p) != obj(bufOf(recv)) || len(p) == 0
  modifies recv.(*bytes.Buffer).buf, bufOf(recv)[:]
  ensures result1 == nil
  ensures len(bufOf(recv)) == old(len(bufOf(recv))) + len(p)
  ensures forall k int :: {bufOf(recv)[k]} 0 <= k && k < old(len(bufOf(recv))) ==> bufOf(recv)[k] == old(bufOf(recv)[k])
  ensures forall k int :: {bufOf(recv)[k]} old(len(bufOf(recv))) <= k && k < len(bufOf(recv)) ==> bufOf(recv)[k] == old(p[k - len(bufOf(recv))])
  ensures fresh(bufOf(recv)) || obj(bufOf(recv)) == old(obj(bufOf(recv)))

func Int.serializeBin
  requires typeis(w, *bytes.Buffer) && w.(*bytes.Buffer) != nil
  modifies w.(*bytes.Buffer).buf, bufOf(w)[:]
  ensures [noerror] result == nil
  ensures [len] len(bufOf(w)) == old(len(bufOf(w))) + 4
  ensures [kept] forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
  ensures [bytes] signed32(be32(bufOf(w), old(len(bufOf(w))))) == v
  ensures fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))

func Float.serializeBin
  requires typeis(w, *bytes.Buffer) && w.(*bytes.Buffer) != nil
  modifies w.(*bytes.Buffer).buf, bufOf(w)[:]
  ensures [noerror] result == nil
  ensures [len] len(bufOf(w)) == old(len(bufOf(w))) + 4
  ensures [kept] forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
  ensures [bytes] f32from(be32(bufOf(w), old(len(bufOf(w))))) == v
  ensures fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))

func Bool.serializeBin
  requires typeis(w, *bytes.Buffer) && w.(*bytes.Buffer) != nil
  modifies w.(*bytes.Buffer).buf, bufOf(w)[:]
  ensures [noerror] result == nil
  ensures [len] len(bufOf(w)) == old(len(bufOf(w))) + 1
  ensures [kept] forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
  ensures [bytes] bufOf(w)[old(len(bufOf(w)))] == v
  ensures fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))

func String.serializeBin
  requires typeis(w, *bytes.Buffer) && w.(*bytes.Buffer) != nil
  requires len(v) <= 4294967295
  modifies w.(*bytes.Buffer).buf, bufOf(w)[:]
  ensures [noerror] result == nil
  ensures [len] len(bufOf(w)) == old(len(bufOf(w))) + 4 + len(v)
  ensures [kept] forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
  ensures [bytes] be32(bufOf(w), old(len(bufOf(w)))) == len(v) && (forall k int :: {bufOf(w)[old(len(bufOf(w))) + 4 + k]} 0 <= k && k < len(v) ==> bufOf(w)[old(len(bufOf(w))) + 4 + k] == v[k])
  ensures fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))

func Matrix.serializeBin
  requires typeis(w, *bytes.Buffer) && w.(*bytes.Buffer) != nil
  modifies w.(*bytes.Buffer).buf, bufOf(w)[:]
  ensures [noerror] result == nil
  ensures [len] len(bufOf(w)) == old(len(bufOf(w))) + 16
  ensures [kept] forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
  ensures [bytes] f32from(be32(bufOf(w), old(len(bufOf(w))) + 0)) == v.Xx && f32from(be32(bufOf(w), old(len(bufOf(w))) + 4)) == v.Xy && f32from(be32(bufOf(w), old(len(bufOf(w))) + 8)) == v.Yx && f32from(be32(bufOf(w), old(len(bufOf(w))) + 12)) == v.Yy
  ensures fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))

func Range.serializeBin
  requires typeis(w, *bytes.Buffer) && w.(*bytes.Buffer) != nil
  modifies w.(*bytes.Buffer).buf, bufOf(w)[:]
  ensures [noerror] result == nil
  ensures [len] len(bufOf(w)) == old(len(bufOf(w))) + 8
  ensures [kept] forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
  ensures [bytes] f32from(be32(bufOf(w), old(len(bufOf(w))) + 0)) == v.Begin && f32from(be32(bufOf(w), old(len(bufOf(w))) + 4)) == v.End
  ensures fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))

func Langset.serializeBin
  requires typeis(w, *bytes.Buffer) && w.(*bytes.Buffer) != nil
  modifies w.(*bytes.Buffer).buf, bufOf(w)[:]
  ensures [noerror] result == nil
  ensures [len] len(bufOf(w)) == old(len(bufOf(w))) + 4 * langPageSize
  ensures [kept] forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
  ensures [bytes] forall j int :: {v.page[j]} 0 <= j && j < langPageSize ==> be32(bufOf(w), old(len(bufOf(w))) + 4 * j) == v.page[j]
  ensures fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))
  loop 0:
    invariant forall k int :: {bufOf(w)[k]} 0 <= k && k < len(bufOf(w)) ==> bufOf(w)[k] == old(bufOf(w)[k])
    invariant forall k int :: {ranged[k]} 0 <= k && k < rangeidx ==> be32(buffer, 4 * k) == ranged[k]

func Charset.serializeBin
  requires typeis(w, *bytes.Buffer) && w.(*bytes.Buffer) != nil
  requires len(v.pageNumbers) <= 65535 && len(v.pages) == len(v.pageNumbers)
  modifies w.(*bytes.Buffer).buf, bufOf(w)[:]
  ensures [noerror] result == nil
  ensures [len] len(bufOf(w)) == old(len(bufOf(w))) + 2 + 34 * len(v.pageNumbers)
  ensures [kept] forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
  ensures [bytes] be16(bufOf(w), old(len(bufOf(w)))) == len(v.pageNumbers) && (forall i int :: {v.pageNumbers[i]} 0 <= i && i < len(v.pageNumbers) ==> be16(bufOf(w), old(len(bufOf(w))) + 2 + 34 * i) == v.pageNumbers[i]) && (forall i, j int :: {v.pages[i][j]} 0 <= i && i < len(v.pageNumbers) && 0 <= j && j < 8 ==> be32(bufOf(w), old(len(bufOf(w))) + 4 + 34 * i + 4 * j) == v.pages[i][j])
  ensures fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))
  loop 0:
    invariant forall k int :: {bufOf(w)[k]} 0 <= k && k < len(bufOf(w)) ==> bufOf(w)[k] == old(bufOf(w)[k])
    invariant be16(buffer, 0) == len(v.pageNumbers)
    invariant forall k int :: {v.pageNumbers[k]} 0 <= k && k < rangeidx ==> be16(buffer, 2 + 34 * k) == v.pageNumbers[k]
    invariant forall k, m int :: {v.pages[k][m]} 0 <= k && k < rangeidx && 0 <= m && m < 8 ==> be32(buffer, 4 + 34 * k + 4 * m) == v.pages[k][m]
  loop 1:
    invariant forall k int :: {bufOf(w)[k]} 0 <= k && k < len(bufOf(w)) ==> bufOf(w)[k] == old(bufOf(w)[k])
    invariant be16(buffer, 0) == len(v.pageNumbers)
    invariant forall n int :: {v.pageNumbers[n]} 0 <= n && n <= i ==> be16(buffer, 2 + 34 * n) == v.pageNumbers[n]
    invariant forall n, m int :: {v.pages[n][m]} 0 <= n && n < i && 0 <= m && m < 8 ==> be32(buffer, 4 + 34 * n + 4 * m) == v.pages[n][m]
    invariant forall m int :: {v.pages[i][m]} 0 <= m && m < rangeidx ==> be32(buffer, 4 + 34 * i + 4 * m) == v.pages[i][m]

# the size of the encoding of a value, and the values which have one
spec func encLen(x Value) int = typeis(x, String) ? 4 + len(x.(String)) : (typeis(x, Bool) ? 1 : (typeis(x, Charset) ? 2 + 34 * len(x.(Charset).pageNumbers) : (typeis(x, Langset) ? 4 * langPageSize : (typeis(x, Matrix) ? 16 : (typeis(x, Range) ? 8 : 4)))))
spec func encodable(x Value) bool = known(tagOf(x)) && (typeis(x, String) ==> len(x.(String)) <= 4294967295) && (typeis(x, Charset) ==> len(x.(Charset).pageNumbers) <= 65535 && len(x.(Charset).pages) == len(x.(Charset).pageNumbers))
# the contracts of the eight methods above, put together (without the pages of a character set)
spec func valAt(d []byte, at int, x Value) bool = (typeis(x, Int) ==> signed32(be32(d, at)) == x.(Int)) && (typeis(x, Float) ==> f32from(be32(d, at)) == x.(Float)) && (typeis(x, Bool) ==> d[at] == x.(Bool)) && (typeis(x, String) ==> be32(d, at) == len(x.(String)) && (forall k int :: {x.(String)[k]} 0 <= k && k < len(x.(String)) ==> d[at + 4 + k] == x.(String)[k])) && (typeis(x, Matrix) ==> f32from(be32(d, at)) == x.(Matrix).Xx && f32from(be32(d, at + 4)) == x.(Matrix).Xy && f32from(be32(d, at + 8)) == x.(Matrix).Yx && f32from(be32(d, at + 12)) == x.(Matrix).Yy) && (typeis(x, Range) ==> f32from(be32(d, at)) == x.(Range).Begin && f32from(be32(d, at + 4)) == x.(Range).End) && (typeis(x, Langset) ==> (forall j int :: {x.(Langset).page[j]} 0 <= j && j < langPageSize ==> be32(d, at + 4 * j) == x.(Langset).page[j])) && (typeis(x, Charset) ==> be16(d, at) == len(x.(Charset).pageNumbers))

extern github.com/benoitkugler/textprocessing/fontconfig.Value.serializeBin
  requires recv != nil && encodable(recv)
  requires typeis(arg0, *bytes.Buffer) && arg0.(*bytes.Buffer) != nil
  modifies arg0.(*bytes.Buffer).buf, bufOf(arg0)[:]
  ensures result == nil
  ensures len(bufOf(arg0)) == old(len(bufOf(arg0))) + encLen(recv)
  ensures forall k int :: {bufOf(arg0)[k]} 0 <= k && k < old(len(bufOf(arg0))) ==> bufOf(arg0)[k] == old(bufOf(arg0)[k])
  ensures valAt(bufOf(arg0), old(len(bufOf(arg0))), recv)
  ensures fresh(bufOf(arg0)) || obj(bufOf(arg0)) == old(obj(bufOf(arg0)))

spec opaque encodedAt(d []byte, at int, e valueElt) bool = d[at] == e.Binding && d[at + 1] == tagOf(e.Value) && valAt(d, at + 2, e.Value)
# the values written before stay where they are
lemma encodedKept(d1 []byte, d2 []byte, n int)
  option reveal = encodedAt
  requires n <= len(d1) && n <= len(d2)
  requires forall k int :: {d2[k]} 0 <= k && k < n ==> d2[k] == d1[k]
  ensures forall at int, e valueElt :: {encodedAt(d2, at, e)} 0 <= at && at + 2 + encLen(e.Value) <= n && encodedAt(d1, at, e) ==> encodedAt(d2, at, e)

func valueElt.serializeBin
  option reveal = encodedAt
  requires typeis(w, *bytes.Buffer) && w.(*bytes.Buffer) != nil
  requires encodable(e.Value)
  modifies w.(*bytes.Buffer).buf, bufOf(w)[:]
  ensures [noerror] result == nil
  ensures [len] len(bufOf(w)) == old(len(bufOf(w))) + 2 + encLen(e.Value)
  ensures [kept] forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
  ensures [header] bufOf(w)[old(len(bufOf(w)))] == e.Binding && bufOf(w)[old(len(bufOf(w))) + 1] == tagOf(e.Value)
  ensures [value] encodedAt(bufOf(w), old(len(bufOf(w))), e)
  ensures [earlier] forall at int, x valueElt :: {encodedAt(bufOf(w), at, x)} 0 <= at && at + 2 + encLen(x.Value) <= old(len(bufOf(w))) && old(encodedAt(bufOf(w), at, x)) ==> encodedAt(bufOf(w), at, x)
  ensures [size] encLen(e.Value) == encSize(tagOf(e.Value), bufOf(w), old(len(bufOf(w))) + 2)
  ensures fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))
  at return:
    use encodedKept(old(bufOf(w)), bufOf(w), old(len(bufOf(w))))

# the position of the k-th value of a list written at the position at
spec rec writtenAt(l valueList, at int, k int) int = k <= 0 ? at + 2 : writtenAt(l, at, k - 1) + 2 + encLen(l[k - 1].Value)

func valueList.serializeBin
  requires typeis(w, *bytes.Buffer) && w.(*bytes.Buffer) != nil
  requires len(l) <= 65535 && (forall k int :: {l[k]} 0 <= k && k < len(l) ==> encodable(l[k].Value))
  modifies w.(*bytes.Buffer).buf, bufOf(w)[:]
  ensures [noerror] result == nil
  ensures [len] len(bufOf(w)) == writtenAt(l, old(len(bufOf(w))), len(l))
  ensures [kept] forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
  ensures [count] be16(bufOf(w), old(len(bufOf(w)))) == len(l)
  ensures [values] forall k int :: {l[k]} 0 <= k && k < len(l) ==> encodedAt(bufOf(w), writtenAt(l, old(len(bufOf(w))), k), l[k])
  ensures fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))
  loop 0:
    invariant fresh(bufOf(w)) || obj(bufOf(w)) == old(obj(bufOf(w)))
    invariant len(bufOf(w)) == writtenAt(l, old(len(bufOf(w))), rangeidx)
    invariant old(len(bufOf(w))) + 2 <= len(bufOf(w)) && be16(bufOf(w), old(len(bufOf(w)))) == len(l)
    invariant forall k int :: {bufOf(w)[k]} 0 <= k && k < old(len(bufOf(w))) ==> bufOf(w)[k] == old(bufOf(w)[k])
    invariant forall k int :: {l[k]} 0 <= k && k < rangeidx ==> old(len(bufOf(w))) + 2 <= writtenAt(l, old(len(bufOf(w))), k) && writtenAt(l, old(len(bufOf(w))), k) + 2 + encLen(l[k].Value) <= len(bufOf(w))
    invariant forall k int :: {l[k]} 0 <= k && k < rangeidx ==> encodedAt(bufOf(w), writtenAt(l, old(len(bufOf(w))), k), l[k])

# the decoder gives back the value written by the encoder
lemma roundTrip(d []byte, at int, e valueElt, x valueElt)
  option reveal = decodedAt encodedAt
  requires known(tagOf(e.Value)) && encodedAt(d, at, e) && decodedAt(d, at, x)
  ensures [binding] x.Binding == e.Binding
  ensures [kind] tagOf(x.Value) == tagOf(e.Value)
  ensures [int] typeis(e.Value, Int) ==> x.Value.(Int) == e.Value.(Int)
  ensures [float] typeis(e.Value, Float) ==> x.Value.(Float) == e.Value.(Float)
  ensures [bool] typeis(e.Value, Bool) ==> x.Value.(Bool) == e.Value.(Bool)
  ensures [matrix] typeis(e.Value, Matrix) ==> x.Value.(Matrix) == e.Value.(Matrix)
  ensures [range] typeis(e.Value, Range) ==> x.Value.(Range) == e.Value.(Range)
  ensures [string] typeis(e.Value, String) ==> len(x.Value.(String)) == len(e.Value.(String)) && (forall k int :: {e.Value.(String)[k]} 0 <= k && k < len(e.Value.(String)) ==> x.Value.(String)[k] == e.Value.(String)[k])
  ensures [langset] typeis(e.Value, Langset) ==> (forall j int :: {e.Value.(Langset).page[j]} 0 <= j && j < langPageSize ==> x.Value.(Langset).page[j] == e.Value.(Langset).page[j])
  ensures [charset] typeis(e.Value, Charset) ==> len(x.Value.(Charset).pageNumbers) == len(e.Value.(Charset).pageNumbers)

lemma sizeWritten(d []byte, at int, e valueElt)
  option reveal = encodedAt
  requires encodable(e.Value) && encodedAt(d, at, e)
  ensures encSize(d[at + 1], d, at + 2) == encLen(e.Value)

# the decoder of a list looks for each value where the encoder wrote it
lemma samePositions(d []byte, l valueList, n int)
  requires 0 <= n && n <= len(l)
  requires forall k int :: {l[k]} 0 <= k && k < len(l) ==> encodable(l[k].Value)
  requires forall k int :: {l[k]} 0 <= k && k < len(l) ==> encodedAt(d, writtenAt(l, 0, k), l[k])
  ensures valueAt(d, 0, n) == writtenAt(l, 0, n)
  decreases n
  ih 0 < n ==> samePositions(d, l, n - 1)
  use 0 < n ==> sizeWritten(d, writtenAt(l, 0, n - 1), l[n - 1])

property F08: Int.deserializeBin, Float.deserializeBin, Bool.deserializeBin, String.deserializeBin, Matrix.deserializeBin, Range.deserializeBin, Langset.deserializeBin, Charset.deserializeBin, valueElt.dataType, valueElt.deserializeBin, deserializeValueListBin, deserializePatternBin, Int.serializeBin, Float.serializeBin, Bool.serializeBin, String.serializeBin, Matrix.serializeBin, Range.serializeBin, Langset.serializeBin, Charset.serializeBin, valueElt.serializeBin, valueList.serializeBin
  lemmas roundTrip, encodedKept, sizeWritten, samePositions
