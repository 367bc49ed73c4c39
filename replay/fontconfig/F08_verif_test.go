package fontconfig

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"testing"
)

var v8floats = []float32{0, 1, -1, 0.1, -0.25, 1e30, -1e-30, math.MaxFloat32, math.SmallestNonzeroFloat32, 180, 200.5, float32(math.Inf(1)), float32(math.Inf(-1)), 12345678}

func (k *vcase) v8float() float32 {
	if k.Intn(2) == 0 {
		return v8floats[k.Intn(len(v8floats))]
	}
	for {
		f := math.Float32frombits(k.Uint32())
		if f == f {
			return f
		}
	}
}

func (k *vcase) v8value(kind int) Value {
	switch kind {
	case 0:
		return []Int{0, 1, -1, math.MaxInt32, math.MinInt32, 255, 256, 65536, -200, Int(int32(k.Uint32()))}[k.Intn(10)]
	case 1:
		return Float(k.v8float())
	case 2:
		n := []int{0, 1, 3, 40, 255, 256, 300}[k.Intn(7)]
		if k.Intn(60) == 0 {
			n = 65536 + k.Intn(3)
		}
		b := make([]byte, n)
		k.Read(b)
		if k.Intn(2) == 0 {
			for i := range b {
				b[i] = "abc é\x00z"[int(b[i])%8]
			}
		}
		return String(b)
	case 3:
		return []Bool{False, True, DontCare}[k.Intn(3)]
	case 4:
		var c Charset
		n, max := []int{0, 1, 2, 10, 500}[k.Intn(5)], []int{0x100, 0x1000, 0x110000}[k.Intn(3)]
		for i := 0; i < n; i++ {
			c.AddChar(rune(k.Intn(max)))
		}
		return c
	case 5:
		var l Langset
		for i := range l.page {
			l.page[i] = []uint32{0, math.MaxUint32, k.Uint32(), 1, 1 << 31}[k.Intn(5)]
		}
		return l
	case 6:
		return Matrix{Xx: k.v8float(), Xy: k.v8float(), Yx: k.v8float(), Yy: k.v8float()}
	default:
		return Range{Begin: k.v8float(), End: k.v8float()}
	}
}

func (k *vcase) v8pattern(max int) Pattern {
	p := NewPattern()
	for i := k.Intn(max + 1); i > 0; i-- {
		o := []Object{Object(1 + k.Intn(50)), FirstCustomObject + Object(k.Intn(1000)), Object(k.Intn(65536)), 0, 255, 256, 65535}[k.Intn(7)]
		l := make(valueList, k.Intn(5))
		if k.Intn(80) == 0 {
			l = make(valueList, 255+k.Intn(3))
		}
		for j := range l {
			kind := k.Intn(8)
			if len(l) > 10 {
				kind = k.Intn(2)
			}
			l[j] = valueElt{Value: k.v8value(kind), Binding: valueBinding(k.Intn(3))}
		}
		p[o] = &l
	}
	return p
}

func v8dumpValue(v Value) string {
	b := func(fs ...float32) string {
		out := ""
		for _, f := range fs {
			out += fmt.Sprintf(" %08x", math.Float32bits(f))
		}
		return out
	}
	switch v := v.(type) {
	case Int:
		return fmt.Sprintf("int %d", int64(v))
	case Float:
		return "float" + b(float32(v))
	case String:
		return fmt.Sprintf("string %q", string(v))
	case Bool:
		return fmt.Sprintf("bool %d", int(v))
	case Charset:
		out := "charset"
		for i, n := range v.pageNumbers {
			out += fmt.Sprintf(" %d:%x", n, v.pages[i])
		}
		return fmt.Sprintf("%s (%d)", out, len(v.pages))
	case Langset:
		return fmt.Sprintf("langset %x", v.page)
	case Matrix:
		return "matrix" + b(v.Xx, v.Xy, v.Yx, v.Yy)
	case Range:
		return "range" + b(v.Begin, v.End)
	}
	return fmt.Sprintf("BAD TYPE %T", v)
}

// all the content of a pattern
func v8dump(p Pattern) string {
	var objs []int
	for o := range p {
		objs = append(objs, int(o))
	}
	sort.Ints(objs)
	out := ""
	for _, o := range objs {
		out += fmt.Sprintf("%d:", o)
		for _, e := range *p[Object(o)] {
			out += fmt.Sprintf(" [%d %s]", e.Binding, v8dumpValue(e.Value))
		}
		out += "\n"
	}
	return out
}

func v8dumpSet(fs Fontset) string {
	out := fmt.Sprintf("%d patterns\n", len(fs))
	for i, p := range fs {
		out += fmt.Sprintf("pattern %d\n%s", i, v8dump(p))
	}
	return out
}

func v8short(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

// an independent decoder of the format, which says if the data is complete
type v8dec struct {
	d   []byte
	bad bool
}

func (d *v8dec) n(n int) []byte {
	if d.bad || n > len(d.d) {
		d.bad = true
		return make([]byte, n&0xffff)
	}
	out := d.d[:n]
	d.d = d.d[n:]
	return out
}

func (d *v8dec) value() {
	d.n(1)
	tag := d.n(1)[0]
	switch {
	case d.bad:
	case tag == 1 || tag == 2:
		d.n(4)
	case tag == 3:
		d.n(int(binary.BigEndian.Uint32(d.n(4))))
	case tag == 4:
		d.n(1)
	case tag == 5:
		d.n(34 * int(binary.BigEndian.Uint16(d.n(2))))
	case tag == 6:
		d.n(4 * langPageSize)
	case tag == 7:
		d.n(16)
	case tag == 8:
		d.n(8)
	default:
		d.bad = true
	}
}

func (d *v8dec) list() {
	for i := int(binary.BigEndian.Uint16(d.n(2))); i > 0 && !d.bad; i-- {
		d.value()
	}
}

func (d *v8dec) pattern() {
	for i := int(binary.BigEndian.Uint16(d.n(2))); i > 0 && !d.bad; i-- {
		d.n(2)
		d.list()
	}
}

func (k *vcase) v8wellTyped(p Pattern) {
	for o, l := range p {
		k.check(l != nil, "object %d has a nil list", o)
		for _, e := range *l {
			switch e.Value.(type) {
			case Int, Float, String, Bool, Charset, Langset, Matrix, Range:
			default:
				k.check(false, "object %d has a value of type %T", o, e.Value)
			}
			if c, ok := e.Value.(Charset); ok {
				k.check(len(c.pages) == len(c.pageNumbers), "character set with %d numbers for %d pages", len(c.pageNumbers), len(c.pages))
			}
		}
	}
}

// one pattern: what is decoded is what was encoded, byte for byte
func TestVerifF08Pattern(t *testing.T) {
	verifRun(t, "F08 pattern codec", 4000, func(k *vcase) {
		p := k.v8pattern(6)
		want := v8dump(p)
		k.in("pattern:\n%s", v8short(want))
		data, err := p.serializeBin()
		k.check(err == nil, "serializeBin: %v", err)
		k.check(v8dump(p) == want, "serializeBin modified the pattern")
		d := &v8dec{d: data}
		d.pattern()
		k.check(!d.bad && len(d.d) == 0, "the encoding has not the documented format (invalid: %v, %d bytes left)", d.bad, len(d.d))
		back, err := deserializePatternBin(data)
		k.check(err == nil, "deserializePatternBin: %v", err)
		got := v8dump(back)
		k.check(got == want, "decoded pattern:\n%s", v8short(got))
		// the decoded pattern does not depend on the buffer
		for i := range data {
			data[i] = 0xaa
		}
		k.check(v8dump(back) == want, "the decoded pattern changes with the data:\n%s", v8short(v8dump(back)))
	})
}

// the values, lists: the number of bytes read is the number written, whatever follows
func TestVerifF08Sizes(t *testing.T) {
	verifRun(t, "F08 sizes", 6000, func(k *vcase) {
		var l valueList
		if k.Intn(2) == 0 {
			l = make(valueList, k.Intn(4))
			for j := range l {
				l[j] = valueElt{Value: k.v8value(k.Intn(8)), Binding: valueBinding(k.Intn(3))}
			}
		} else {
			l = valueList{{Value: k.v8value(k.Intn(8)), Binding: valueBinding(k.Intn(3))}}
		}
		dump := func(l valueList) string { return v8dump(Pattern{1: &l}) }
		want := dump(l)
		k.in("list: %s", v8short(want))
		var w bytes.Buffer
		k.check(l.serializeBin(&w) == nil, "serializeBin")
		n := w.Len()
		extra := make([]byte, k.Intn(6))
		k.Read(extra)
		w.Write(extra)
		back, read, err := deserializeValueListBin(w.Bytes())
		k.check(err == nil, "deserializeValueListBin: %v", err)
		k.check(read == n, "read %d bytes of the %d written", read, n)
		k.check(dump(back) == want, "decoded list: %s", v8short(dump(back)))
		for _, e := range l {
			w.Reset()
			k.check(e.serializeBin(&w) == nil, "serializeBin")
			n := w.Len()
			w.Write(extra)
			var e2 valueElt
			read, err := e2.deserializeBin(w.Bytes())
			k.check(err == nil && read == n, "value: read %d bytes of the %d written, error %v", read, n, err)
			k.check(dump(valueList{e2}) == dump(valueList{e}), "decoded value %s", v8short(dump(valueList{e2})))
		}
	})
}

// truncated or corrupted data: an error exactly when the data is not an encoding
func TestVerifF08Corrupted(t *testing.T) {
	verifRun(t, "F08 corrupted data", 4000, func(k *vcase) {
		p := k.v8pattern(3)
		data, err := p.serializeBin()
		k.check(err == nil, "serializeBin: %v", err)
		if len(data) > 3000 {
			data = data[:3000]
		}
		try := func(data []byte) {
			d := &v8dec{d: data}
			d.pattern()
			var back Pattern
			var err error
			func() {
				defer func() {
					if r := recover(); r != nil {
						k.in("data: %x", data)
						panic(r)
					}
				}()
				back, err = deserializePatternBin(data)
			}()
			if (err != nil) != d.bad {
				k.in("data: %x", data)
				k.check(false, "decoded with error %v; the data is complete: %v", err, !d.bad)
			}
			if err == nil {
				k.v8wellTyped(back)
			}
		}
		step := 1 + len(data)/40
		for n := k.Intn(step); n < len(data); n += step {
			try(append(make([]byte, 0, n), data[:n]...))
		}
		for i := 0; i < 12 && len(data) > 0; i++ {
			b := append([]byte(nil), data...)
			for j := 1 + k.Intn(3); j > 0; j-- {
				at := k.Intn(len(b))
				if k.Intn(2) == 0 && len(b) > 12 {
					at = k.Intn(12)
				}
				b[at] = []byte{0, 1, 2, 5, 9, 127, 128, 255, byte(k.Intn(256))}[k.Intn(9)]
			}
			try(b)
		}
		b := make([]byte, k.Intn(40))
		for i := range b {
			b[i] = byte(k.Intn(10))
			if k.Intn(3) == 0 {
				b[i] = 0
			}
		}
		try(b)
	})
}

type v8slow struct {
	r io.Reader
	k *vcase
}

func (s v8slow) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1+s.k.Intn(len(b))]
	}
	return s.r.Read(b)
}

// a writer which fails after some bytes
type v8full struct{ left int }

func (w *v8full) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.left = 0
		return n, fmt.Errorf("no space left")
	}
	w.left -= len(b)
	return len(b), nil
}

func TestVerifF08Fontset(t *testing.T) {
	dir := t.TempDir()
	verifRun(t, "F08 font sets", 1500, func(k *vcase) {
		fs := make(Fontset, []int{0, 1, 2, 5, 20}[k.Intn(5)])
		for i := range fs {
			fs[i] = k.v8pattern(5)
		}
		want := v8dumpSet(fs)
		k.in("%s", v8short(want))
		var w bytes.Buffer
		err := fs.Serialize(&w)
		k.check(err == nil, "Serialize: %v", err)
		k.check(v8dumpSet(fs) == want, "Serialize modified the font set")
		data := w.Bytes()

		var r io.Reader = bytes.NewReader(data)
		if k.Intn(2) == 0 {
			r = v8slow{r, k}
		}
		back, err := LoadFontset(r)
		k.check(err == nil, "LoadFontset: %v", err)
		k.check(v8dumpSet(back) == want, "loaded font set:\n%s", v8short(v8dumpSet(back)))
		for i := range back { // loaded patterns are independent
			for _, l := range back[i] {
				for j := range *l {
					(*l)[j].Binding = 77
					if c, ok := (*l)[j].Value.(Charset); ok {
						for m := range c.pages {
							c.pages[m] = charPage{}
						}
					}
				}
			}
			k.check(v8dumpSet(back[i+1:]) == v8dumpSet(fs[i+1:]), "the pattern %d shares its values with another one", i)
		}

		if k.Intn(20) == 0 {
			f := filepath.Join(dir, "cache.fc")
			k.check(os.WriteFile(f, data, 0o600) == nil, "writing the cache")
			back, err := LoadFontsetFile(f)
			k.check(err == nil && v8dumpSet(back) == want, "LoadFontsetFile: %v\n%s", err, v8short(v8dumpSet(back)))
			_, err = LoadFontsetFile(f + "_missing")
			k.check(err != nil, "LoadFontsetFile accepts a missing file")
		}

		// truncated file: an error, or the same fonts (when only the check sum is missing)
		n := k.Intn(len(data))
		if k.Intn(2) == 0 && len(data) > 12 {
			n = len(data) - 1 - k.Intn(12)
		}
		back, err = LoadFontset(bytes.NewReader(data[:n]))
		k.check(err != nil || v8dumpSet(back) == want, "a file cut at %d bytes of %d is loaded as:\n%s", n, len(data), v8short(v8dumpSet(back)))
		// truncated content, with a valid compression
		gz, err := gzip.NewReader(bytes.NewReader(data))
		k.check(err == nil, "the cache is not compressed: %v", err)
		raw, err := io.ReadAll(gz)
		k.check(err == nil, "the cache is not a complete gzip file: %v", err)
		gzipped := func(b []byte) io.Reader {
			var w bytes.Buffer
			zw, _ := gzip.NewWriterLevel(&w, gzip.NoCompression)
			zw.Write(b)
			zw.Close()
			return &w
		}
		for i := 0; i < 4; i++ {
			n := k.Intn(len(raw))
			back, err = LoadFontset(gzipped(raw[:n]))
			k.check(err != nil, "content cut at %d bytes of %d is loaded as:\n%s", n, len(raw), v8short(v8dumpSet(back)))
		}
		// corrupted content
		for i := 0; i < 4; i++ {
			b := append([]byte(nil), raw...)
			b[k.Intn(len(b))] = byte(k.Intn(256))
			if len(fs) <= 5 && int64(b[0])<<24+int64(b[1])<<16+int64(b[2])<<8 > 70000 {
				continue // avoid big allocations
			}
			back, err = LoadFontset(gzipped(b))
			for _, p := range back {
				k.check(err == nil, "fonts are returned with the error %v", err)
				k.v8wellTyped(p)
			}
		}
		// failing writer
		if n := k.Intn(1 + len(data)/2); true { // the order of the objects, so the size, may change
			err := fs.Serialize(&v8full{left: n})
			k.check(err != nil, "Serialize to a writer full after %d bytes of %d succeeds", n, len(data))
		}
	})
}
