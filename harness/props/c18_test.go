package props

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- valid accessors

// place stores els in a new buffer view of doc (with junk around and between
// the elements) and returns the view and the offset of the first element.
func place(t *rapid.T, doc *gltf.Document, k elem, els [][]uint32, stride int, label string) (view, offset int) {
	e := stride
	if e == 0 {
		e = k.size
	}
	offset = pick(t, label+".offset", 0, 0, 0, 4, 8, 12, 1, 3)
	tail := pick(t, label+".tail", 0, 0, 1, 4, e, k.size-k.end)
	ln := offset + k.span(len(els), e) + tail
	raw := payload(t, ln, label+".raw")
	k.put(raw[offset:], e, els)
	before := pick(t, label+".before", 0, 0, 1, 4, 20)
	after := pick(t, label+".after", 0, 0, 3, 50)
	bi := -1
	if len(doc.Buffers) > 0 && rapid.Bool().Draw(t, label+".same") {
		bi = intn(t, 0, len(doc.Buffers)-1, label+".buffer")
	} else {
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{})
		bi = len(doc.Buffers) - 1
	}
	b := doc.Buffers[bi]
	b.Data = append(b.Data, payload(t, before, label+".pre")...)
	at := len(b.Data)
	b.Data = append(append(b.Data, raw...), payload(t, after, label+".post")...)
	b.ByteLength = len(b.Data)
	doc.BufferViews = append(doc.BufferViews, &gltf.BufferView{Buffer: bi, ByteOffset: at, ByteLength: ln, ByteStride: stride})
	return len(doc.BufferViews) - 1, offset
}

var sparseKinds = []elem{ubyte1, ushrt1, uint1}

// drawAccessor adds to doc an accessor of n elements of kind k and returns what it denotes.
func drawAccessorOrder(t *rapid.T, doc *gltf.Document, k elem, n int, shuffleSparse bool, label string) (*gltf.Accessor, [][]uint32) {
	a := &gltf.Accessor{ComponentType: k.c, Type: k.t, Count: n}
	els := zeros(k, n)
	sparse := n > 0 && chance(t, 35, label+".sparse")
	if n == 0 || !chance(t, 25, label+".noview") {
		els = drawEls(t, k, n, label)
		stride := 0
		switch intn(t, 0, 3, label+".stride.k") {
		case 1:
			stride = k.size
		case 2:
			stride = up4(k.size) + 4*intn(t, 0, 6, label+".stride")
		case 3:
			stride = pick(t, label+".stride", 252, k.size+1, k.size+3)
		}
		v, off := place(t, doc, k, els, stride, label)
		a.BufferView, a.ByteOffset = gltf.Index(v), off
	}
	if sparse {
		els = append([][]uint32{}, els...)
		ik := pick(t, label+".indexType", sparseKinds...)
		limit := n
		if ik == ubyte1 {
			limit = min(n, 256)
		} else if ik == ushrt1 {
			limit = min(n, 65536)
		}
		var at []int
		switch intn(t, 0, 3, label+".indices.k") {
		case 0: // all
			for i := 0; i < limit; i++ {
				at = append(at, i)
			}
		case 1: // the ends
			at = []int{0}
			if limit > 1 {
				at = append(at, limit-1)
			}
		default:
			m := map[int]bool{}
			r := newRand(rapid.Uint64().Draw(t, label+".indices"))
			for i, c := 0, intn(t, 1, limit, label+".indices.n"); i < c; i++ {
				m[r.n(limit)] = true
			}
			for i := range m {
				at = append(at, i)
			}
			sort.Ints(at)
		}
		if shuffleSparse && len(at) > 1 && chance(t, 15, label+".unsorted") {
			r := newRand(rapid.Uint64().Draw(t, label+".order"))
			for i := len(at) - 1; i > 0; i-- {
				j := r.n(i + 1)
				at[i], at[j] = at[j], at[i]
			}
		}
		idx := make([][]uint32, len(at))
		for i, x := range at {
			idx[i] = []uint32{uint32(x)}
		}
		vals := drawEls(t, k, len(at), label+".values")
		for i, x := range at {
			els[x] = vals[i]
		}
		iv, ioff := place(t, doc, ik, idx, 0, label+".sparseIndices")
		vv, voff := place(t, doc, k, vals, 0, label+".sparseValues")
		a.Sparse = &gltf.Sparse{Count: len(at), Indices: gltf.SparseIndices{BufferView: iv, ByteOffset: ioff, ComponentType: ik.c}, Values: gltf.SparseValues{BufferView: vv, ByteOffset: voff}}
	}
	return a, els
}

func drawAccessor(t *rapid.T, doc *gltf.Document, k elem, n int, label string) (*gltf.Accessor, [][]uint32) {
	return drawAccessorOrder(t, doc, k, n, false, label)
}

// sortedSparse tells whether the sparse indices of a strictly increase.
func sortedSparse(doc *gltf.Document, a *gltf.Accessor) bool {
	if a.Sparse == nil {
		return true
	}
	bv := doc.BufferViews[a.Sparse.Indices.BufferView]
	k := elemOf(a.Sparse.Indices.ComponentType, gltf.AccessorScalar)
	at := k.get(doc.Buffers[bv.Buffer].Data[bv.ByteOffset+a.Sparse.Indices.ByteOffset:], k.cs, a.Sparse.Count)
	for i := 1; i < len(at); i++ {
		if at[i][0] <= at[i-1][0] {
			return false
		}
	}
	return true
}

func accText(doc *gltf.Document, a *gltf.Accessor) string {
	s := fmt.Sprintf("%d %v at %d", a.Count, elemOf(a.ComponentType, a.Type), a.ByteOffset)
	if a.BufferView == nil {
		s = fmt.Sprintf("%d %v without view", a.Count, elemOf(a.ComponentType, a.Type))
	} else if v := *a.BufferView; v >= 0 && v < len(doc.BufferViews) && doc.BufferViews[v] != nil {
		s += fmt.Sprintf(" of view [%d,+%d) stride %d", doc.BufferViews[v].ByteOffset, doc.BufferViews[v].ByteLength, doc.BufferViews[v].ByteStride)
	}
	if a.Sparse != nil {
		s += fmt.Sprintf(" with %d sparse (%v)", a.Sparse.Count, a.Sparse.Indices.ComponentType)
	}
	return s
}

// drawBacking draws a backing buffer for ReadAccessor.
func drawBacking(t *rapid.T, k elem, n int, label string) []byte {
	mem := n * k.n * k.cs
	switch intn(t, 0, 6, label+".k") {
	case 0, 1:
		return nil
	case 2:
		return []byte{}
	case 3:
		return payload(t, mem, label)
	case 4:
		return payload(t, mem+intn(t, 1, 50, label+".more"), label)
	case 5:
		b := payload(t, mem+8, label)
		return b[:intn(t, 0, len(b), label+".len")]
	default:
		return payload(t, intn(t, 1, max(1, mem), label+".len"), label)
	}
}

func TestC18Read(t *testing.T) {
	Prop(t, Opt{Quick: 3000, Rule: "at least one read of two or more elements that is strided, sparse, without view, offset or given a dirty backing buffer"}, func(rt *rapid.T, c *Case) {
		doc := gltf.NewDocument()
		type acc struct {
			a   *gltf.Accessor
			els [][]uint32
			k   elem
		}
		var accs []acc
		for i, m := 0, intn(rt, 1, 3, "accessors"); i < m; i++ {
			k := drawElem(rt)
			a, els := drawAccessorOrder(rt, doc, k, drawCount(rt, "count"), true, "a")
			accs = append(accs, acc{a, els, k})
			if rapid.Bool().Draw(rt, "listed") {
				doc.Accessors = append(doc.Accessors, a)
			}
		}
		before := cloneDoc(doc)
		var accBefore []*gltf.Accessor
		for _, x := range accs {
			accBefore = append(accBefore, clone(reflect.ValueOf(x.a)).Interface().(*gltf.Accessor))
		}
		type result struct {
			data any
			acc
			what string
		}
		var kept []result
		log := ""
		shared := payload(rt, 700, "shared")
		for i, m := 0, intn(rt, 1, 5, "reads"); i < m; i++ {
			x := accs[intn(rt, 0, len(accs)-1, "which")]
			fresh := true
			var backing []byte
			if chance(rt, 20, "shared backing") {
				backing, fresh = shared, false
			} else {
				backing = drawBacking(rt, x.k, len(x.els), "backing")
			}
			var data any
			var err error
			what := fmt.Sprintf("read of %s with a backing buffer of %d/%d bytes", accText(doc, x.a), len(backing), cap(backing))
			log += "\n" + what
			p := call(func() { data, err = modeler.ReadAccessor(doc, x.a, backing) })
			if p == "" && err != nil && !sortedSparse(doc, x.a) {
				c.Label("unsorted sparse indices rejected") // the specification wants them to increase
				continue
			}
			if p != "" || err != nil {
				rt.Fatalf("%s: %v %s\nhistory:%s", what, err, p, log)
			}
			if d := x.k.diff(data, x.els); d != "" {
				rt.Fatalf("%s: %s\nhistory:%s", what, d, log)
			}
			if fresh {
				kept = append(kept, result{data, x, what})
			}
			c.NonTrivial(len(x.els) >= 2 && (x.a.BufferView == nil || x.a.Sparse != nil || x.a.ByteOffset > 0 || len(backing) > 0 || doc.BufferViews[*x.a.BufferView].ByteStride > x.k.size))
			c.LabelIf(x.a.Sparse != nil, "sparse")
			c.LabelIf(x.a.Sparse != nil && x.a.Sparse.Count > 100, "more than 100 sparse elements")
			c.LabelIf(x.a.Sparse != nil && !sortedSparse(doc, x.a), "unsorted sparse indices")
			c.LabelIf(x.a.BufferView == nil, "without view")
			c.LabelIf(x.a.BufferView != nil && doc.BufferViews[*x.a.BufferView].ByteStride > x.k.size, "strided")
			c.LabelIf(len(backing) > 0, "dirty backing")
		}
		for _, r := range kept {
			if d := r.k.diff(r.data, r.els); d != "" {
				rt.Fatalf("result changed after it was returned: %s: %s\nhistory:%s", r.what, d, log)
			}
		}
		if !reflect.DeepEqual(before, doc) {
			rt.Fatalf("reading changed the document\nhistory:%s", log)
		}
		for i, x := range accs {
			if !reflect.DeepEqual(accBefore[i], x.a) {
				rt.Fatalf("reading changed the accessor\nhistory:%s", log)
			}
		}
		// writing to a result doesn't change the document either
		for _, r := range kept {
			reflect.Copy(reflect.ValueOf(r.data), reflect.ValueOf(r.k.junk(len(r.els), false)))
		}
		if !reflect.DeepEqual(before, doc) {
			rt.Fatalf("a result aliases the document\nhistory:%s", log)
		}
		for i, bv := range doc.BufferViews {
			b, err := modeler.ReadBufferView(doc, bv)
			want := before.Buffers[bv.Buffer].Data[bv.ByteOffset : bv.ByteOffset+bv.ByteLength]
			if err != nil || !bytes.Equal(b, want) {
				rt.Fatalf("ReadBufferView %d: %v, %x, want %x", i, err, trunc(b), trunc(want))
			}
		}
		c.Key(log)
		c.Sample("%s", log)
	})
}

// rereads draws accessors and reads them several times, with bytes, views and
// accessors changing in between; every result is what they denote then, and
// earlier results stay as they were returned.
func rereads(rt *rapid.T, c *Case, doc *gltf.Document, draw func(n int) *gltf.Accessor, read func(a *gltf.Accessor) any, diff func(a *gltf.Accessor, els [][]uint32, data any) string) {
	var accs []*gltf.Accessor
	for i, m := 0, intn(rt, 1, 3, "accessors"); i < m; i++ {
		accs = append(accs, draw(drawCount(rt, "count")))
	}
	type result struct {
		a    *gltf.Accessor
		els  [][]uint32
		data any
		what string
	}
	var kept []result
	log := ""
	for i, m := 0, intn(rt, 2, 6, "reads"); i < m; i++ {
		a := accs[intn(rt, 0, len(accs)-1, "which")]
		if i > 0 {
			how := pick(rt, "change", "nothing", "bytes", "bytes", "bytes", "assigned", "count", "view", "sparse", "new array", "result")
			switch how {
			case "bytes":
				r := newRand(rapid.Uint64().Draw(rt, "bytes"))
				views := []int{}
				if a.BufferView != nil {
					views = append(views, *a.BufferView)
				}
				if a.Sparse != nil {
					views = append(views, a.Sparse.Values.BufferView)
				}
				for _, v := range views {
					bv := doc.BufferViews[v]
					shared := false // with sparse indices, which must stay in range
					for _, x := range accs {
						shared = shared || x.Sparse != nil && x.Sparse.Indices.BufferView == v
					}
					if b := doc.Buffers[bv.Buffer].Data[bv.ByteOffset : bv.ByteOffset+bv.ByteLength]; !shared {
						for j := range b {
							b[j] ^= byte(r.u64())
						}
					}
				}
			case "assigned": // the same pointer, other contents
				*a = *draw(drawCount(rt, "count"))
			case "count":
				if a.Count > 1 && a.Sparse == nil {
					a.Count -= intn(rt, 1, a.Count-1, "less")
				}
			case "view":
				if x := draw(a.Count); a.BufferView != nil && x.BufferView != nil {
					*doc.BufferViews[*a.BufferView] = *doc.BufferViews[*x.BufferView]
					a.ByteOffset = x.ByteOffset
					for _, y := range accs {
						if y != a && y.BufferView != nil && *y.BufferView == *a.BufferView {
							*y = *a
						}
					}
				}
			case "sparse":
				if a.BufferView != nil {
					a.Sparse = nil
				}
			case "new array":
				for _, b := range doc.Buffers {
					b.Data = append([]byte{}, b.Data...)
				}
			case "result": // the caller may do what it wants with a result
				for _, x := range kept {
					if v := reflect.ValueOf(x.data); v.Len() > 0 {
						reflect.Copy(v, reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
					}
				}
				kept = nil
			}
			c.Label("changed: " + how)
			log += "; " + how
		}
		els, verdict := refAccessor(doc, a)
		if verdict != refGood {
			rt.Fatalf("harness: the model can't read %s\nhistory:%s", accText(doc, a), log)
		}
		what := fmt.Sprintf("read %d of %s", i, accText(doc, a))
		log += "; " + what
		data := read(a)
		if d := diff(a, els, data); d != "" {
			rt.Fatalf("%s: %s\nhistory:%s", what, d, log)
		}
		now := *a
		kept = append(kept, result{&now, els, data, what})
		c.NonTrivial(i > 0 && a.Count > 0)
	}
	for _, x := range kept {
		if d := diff(x.a, x.els, x.data); d != "" {
			rt.Fatalf("the result of %s changed: %s\nhistory:%s", x.what, d, log)
		}
	}
	c.Key(log)
	c.Sample("%s", log)
}

func TestC18Again(t *testing.T) {
	Prop(t, Opt{Quick: 1500, Rule: "an accessor with elements is read after another read, with bytes, buffer views, accessors or earlier results changed in between"}, func(rt *rapid.T, c *Case) {
		doc := gltf.NewDocument()
		k := drawElem(rt)
		rereads(rt, c, doc, func(n int) *gltf.Accessor {
			a, _ := drawAccessor(rt, doc, k, n, "a")
			return a
		}, func(a *gltf.Accessor) any {
			data, err := modeler.ReadAccessor(doc, a, nil)
			if err != nil {
				rt.Fatalf("ReadAccessor of %s: %v", accText(doc, a), err)
			}
			return data
		}, func(a *gltf.Accessor, els [][]uint32, data any) string { return k.diff(data, els) })
	})
}

// ---------------------------------------------------------------- C19

// a typed reader, wrapped to return its result as components.
type typedReader struct {
	name string
	out  elem
	// accepts tells the allowed encodings
	accepts func(k elem) bool
	// read with a destination of the given length and capacity full of junk (nil if len<0)
	read func(doc *gltf.Document, a *gltf.Accessor, dst any) (any, error)
	// ok checks one output component given the input element; "" when right
	ok func(k elem, in []uint32, i int, got uint32) string
}

func isKind(c gltf.ComponentType, list ...gltf.ComponentType) bool {
	for _, x := range list {
		if c == x {
			return true
		}
	}
	return false
}

func same(_ elem, in []uint32, i int, got uint32) string {
	if got != in[i] {
		return fmt.Sprintf("%#x, want %#x", got, in[i])
	}
	return ""
}

func fraction(k elem, in []uint32, i int, got uint32) string {
	if k.c == gltf.ComponentFloat {
		return same(k, in, i, got)
	}
	want := float64(in[i]) / (math.Pow(2, float64(8*k.cs)) - 1)
	if f := float64(math.Float32frombits(got)); !(math.Abs(f-want) <= 1e-7) {
		return fmt.Sprintf("%v, want %v (%d normalized)", f, want, in[i])
	}
	return ""
}

// srgb is the opto-electronic transfer function of IEC 61966-2-1.
func srgb(f float64) float64 {
	if f <= 0.0031308 {
		return f * 12.92
	}
	return 1.055*math.Pow(f, 1/2.4) - 0.055
}

func colorCheck(bits int) func(k elem, in []uint32, i int, got uint32) string {
	full := float64(uint64(1)<<bits - 1)
	return func(k elem, in []uint32, i int, got uint32) string {
		if i == 3 && k.n == 3 {
			if float64(got) != full {
				return fmt.Sprintf("alpha %d, want %v", got, full)
			}
			return ""
		}
		v := in[i]
		switch {
		case k.c == gltf.ComponentFloat:
			f := float64(math.Float32frombits(v))
			if i < 3 {
				f = srgb(f)
			}
			if math.Abs(float64(got)-f*full) > 1.01 {
				return fmt.Sprintf("%d, want about %.2f", got, f*full)
			}
			if (v == 0 || v == 0x3f800000) && float64(got) != math.Round(f)*full {
				return fmt.Sprintf("%d, want exactly %v", got, math.Round(f)*full)
			}
			return ""
		case k.cs*8 == bits:
			return same(k, in, i, got)
		case bits == 16: // 8-bit source
			if got != v*257 {
				return fmt.Sprintf("%d, want %d (from %d)", got, v*257, v)
			}
			return ""
		default: // 16-bit source, 8-bit result
			if got == v>>8 || float64(got) == math.Round(float64(v)/257) {
				return ""
			}
			if got == v&0xff && known("readcolor-ushort-lowbyte") {
				return ""
			}
			return fmt.Sprintf("%d, want %d (from the 16-bit %d)", got, v>>8, v)
		}
	}
}

func wrap[T any](f func(*gltf.Document, *gltf.Accessor, []T) ([]T, error)) func(*gltf.Document, *gltf.Accessor, any) (any, error) {
	return func(d *gltf.Document, a *gltf.Accessor, dst any) (any, error) {
		if dst == nil {
			return f(d, a, nil)
		}
		return f(d, a, dst.([]T))
	}
}

const (
	tFloat  = gltf.ComponentFloat
	tUbyte  = gltf.ComponentUbyte
	tUshort = gltf.ComponentUshort
	tUint   = gltf.ComponentUint
)

func accepts(t gltf.AccessorType, cs ...gltf.ComponentType) func(elem) bool {
	return func(k elem) bool { return k.t == t && isKind(k.c, cs...) }
}

func acceptsColor(k elem) bool {
	return (k.t == gltf.AccessorVec3 || k.t == gltf.AccessorVec4) && isKind(k.c, tFloat, tUbyte, tUshort)
}

var typedReaders = []typedReader{
	{"ReadIndices", uint1, accepts(gltf.AccessorScalar, tUbyte, tUshort, tUint), wrap(modeler.ReadIndices), same},
	{"ReadNormal", float3, accepts(gltf.AccessorVec3, tFloat), wrap(modeler.ReadNormal), same},
	{"ReadTangent", float4, accepts(gltf.AccessorVec4, tFloat), wrap(modeler.ReadTangent), same},
	{"ReadTextureCoord", float2, accepts(gltf.AccessorVec2, tUbyte, tUshort, tFloat), wrap(modeler.ReadTextureCoord), fraction},
	{"ReadWeights", float4, accepts(gltf.AccessorVec4, tUbyte, tUshort, tFloat), wrap(modeler.ReadWeights), fraction},
	{"ReadJoints", ushrt4, accepts(gltf.AccessorVec4, tUbyte, tUshort), wrap(modeler.ReadJoints), same},
	{"ReadPosition", float3, accepts(gltf.AccessorVec3, tFloat), wrap(modeler.ReadPosition), same},
	{"ReadColor", ubyte4, acceptsColor, wrap(modeler.ReadColor), colorCheck(8)},
	{"ReadColor64", ushrt4, acceptsColor, wrap(modeler.ReadColor64), colorCheck(16)},
	{"ReadInverseBindMatrices", floatM, accepts(gltf.AccessorMat4, tFloat), wrap(modeler.ReadInverseBindMatrices), same},
}

// drawDst draws a destination slice: nil, shorter, equal, longer, with spare capacity; always dirty.
func drawDst(t *rapid.T, k elem, n int, label string) (any, string) {
	switch intn(t, 0, 6, label+".k") {
	case 0:
		return nil, "nil"
	case 1:
		return k.junk(0, false), "empty"
	case 2:
		m := intn(t, 0, n, label)
		return k.junk(m, false), fmt.Sprint("length ", m)
	case 3:
		return k.junk(n, false), fmt.Sprint("length ", n)
	case 4:
		m := n + intn(t, 1, 9, label)
		return k.junk(m, false), fmt.Sprint("length ", m)
	case 5:
		m := n + intn(t, 1, 9, label)
		l := intn(t, 0, m, label+".len")
		return reflect.ValueOf(k.junk(m, false)).Slice(0, l).Interface(), fmt.Sprintf("length %d capacity %d", l, m)
	default:
		return k.junk(n+200, false), fmt.Sprint("length ", n+200)
	}
}

func (r *typedReader) check(k elem, els [][]uint32, data any) string {
	got, err := r.out.elements(data)
	if err != nil {
		return err.Error()
	}
	if len(got) != len(els) {
		return fmt.Sprintf("%d elements, want %d", len(got), len(els))
	}
	for i := range els {
		for j := range got[i] {
			if s := r.ok(k, els[i], j, got[i][j]); s != "" {
				return fmt.Sprintf("element %d component %d: %s", i, j, s)
			}
		}
	}
	return ""
}

// unitFloats replaces the float components by values in 0..1, as colors have.
func unitFloats(rt *rapid.T, doc *gltf.Document, k elem, n int, label string) (*gltf.Accessor, [][]uint32) {
	a := &gltf.Accessor{ComponentType: k.c, Type: k.t, Count: n}
	els := drawEls(rt, k, n, label)
	for i := range els {
		for j := range els[i] {
			v := els[i][j]
			f := float32(v>>8) / (1 << 24)
			switch v % 8 {
			case 0:
				f = float32(v>>8%2) * 1
			case 1:
				f = float32(v>>8%256) / 255
			case 2:
				f = 0.0031308 + float32(int32(v>>8%64)-32)/(1<<28)
			}
			if f > 1 {
				f = 1
			}
			els[i][j] = math.Float32bits(f)
		}
	}
	v, off := place(rt, doc, k, els, pick(rt, label+".stride", 0, 0, k.size, k.size+4), label)
	a.BufferView, a.ByteOffset = gltf.Index(v), off
	return a, els
}

func TestC19Typed(t *testing.T) {
	Prop(t, Opt{Quick: 5000, Rule: "a supported encoding with at least one element, or an unsupported encoding that must be rejected"}, func(rt *rapid.T, c *Case) {
		doc := gltf.NewDocument()
		log := ""
		type result struct {
			data any
			r    *typedReader
			k    elem
			els  [][]uint32
			what string
		}
		var kept []result
		for i, m := 0, intn(rt, 1, 4, "reads"); i < m; i++ {
			r := &typedReaders[intn(rt, 0, len(typedReaders)-1, "reader")]
			var ks []elem
			for _, k := range allElems {
				if r.accepts(k) {
					ks = append(ks, k)
				}
			}
			k := pick(rt, "kind", ks...)
			if chance(rt, 25, "any kind") {
				k = drawElem(rt)
			}
			n := drawCount(rt, "count")
			var a *gltf.Accessor
			var els [][]uint32
			if k.c == tFloat && r.out.c != tFloat {
				a, els = unitFloats(rt, doc, k, n, "a")
			} else {
				a, els = drawAccessor(rt, doc, k, n, "a")
			}
			a.Normalized = rapid.Bool().Draw(rt, "normalized")
			if k.c != tFloat && (r.name == "ReadTextureCoord" || r.name == "ReadWeights" || r.name == "ReadColor" || r.name == "ReadColor64") {
				a.Normalized = true // required by the specification
			}
			dst, dstText := drawDst(rt, r.out, n, "dst")
			before := cloneDoc(doc)
			var data any
			var err error
			what := fmt.Sprintf("%s of %s into a destination: %s", r.name, accText(doc, a), dstText)
			log += "\n" + what
			p := call(func() { data, err = r.read(doc, a, dst) })
			if p != "" {
				rt.Fatalf("%s: %s\nhistory:%s", what, p, log)
			}
			c.Label(r.name)
			if !r.accepts(k) {
				if err == nil {
					rt.Fatalf("%s: accepted\nhistory:%s", what, log)
				}
				c.NonTrivial(true)
				c.Label("rejected encoding")
				continue
			}
			if err != nil {
				rt.Fatalf("%s: %v\nhistory:%s", what, err, log)
			}
			if d := r.check(k, els, data); d != "" {
				rt.Fatalf("%s: %s\nhistory:%s", what, d, log)
			}
			if !reflect.DeepEqual(before, doc) {
				rt.Fatalf("%s: changed the document\nhistory:%s", what, log)
			}
			c.NonTrivial(n > 0)
			c.LabelIf(k != r.out, "converted")
			c.LabelIf(dst != nil, "dirty destination")
			kept = append(kept, result{data, r, k, els, what})
		}
		for _, x := range kept {
			if d := x.r.check(x.k, x.els, x.data); d != "" {
				rt.Fatalf("the result of an earlier %s changed: %s\nhistory:%s", x.what, d, log)
			}
		}
		c.Key(log)
		c.Sample("%s", log)
	})
}

func TestC19Again(t *testing.T) {
	Prop(t, Opt{Quick: 1500, Rule: "an accessor with elements is read after another read, with bytes, buffer views, accessors or earlier results changed in between"}, func(rt *rapid.T, c *Case) {
		doc := gltf.NewDocument()
		r := &typedReaders[intn(rt, 0, len(typedReaders)-1, "reader")]
		var ks []elem
		for _, k := range allElems {
			if r.accepts(k) && (k.c != tFloat || r.out.c == tFloat) {
				ks = append(ks, k)
			}
		}
		k := pick(rt, "kind", ks...)
		rereads(rt, c, doc, func(n int) *gltf.Accessor {
			a, _ := drawAccessor(rt, doc, k, n, "a")
			a.Normalized = k.c != tFloat
			return a
		}, func(a *gltf.Accessor) any {
			data, err := r.read(doc, a, nil)
			if err != nil {
				rt.Fatalf("%s of %s: %v", r.name, accText(doc, a), err)
			}
			return data
		}, func(a *gltf.Accessor, els [][]uint32, data any) string { return r.check(k, els, data) })
	})
}

// Every reader on every encoding.
func TestC19Matrix(t *testing.T) {
	Each(t, "every typed reader x all 42 encodings, with 0, 1 and 3 elements, nil accessor included", func(record func(c *Case)) {
		r := newRand(12345)
		for i := range typedReaders {
			tr := &typedReaders[i]
			if p := call(func() {
				if _, err := tr.read(gltf.NewDocument(), nil, nil); err == nil {
					t.Fatalf("%s accepts a nil accessor", tr.name)
				}
			}); p != "" {
				t.Fatalf("%s of a nil accessor: %s", tr.name, p)
			}
			for _, k := range allElems {
				for _, n := range []int{0, 1, 3} {
					els := zeros(k, n)
					for i := range els {
						for j := range els[i] {
							els[i][j] = uint32(r.u64()) & uint32(uint64(1)<<(8*k.cs)-1)
							if k.c == tFloat {
								els[i][j] = math.Float32bits(float32(r.n(1000)) / 999)
							}
						}
					}
					b := make([]byte, n*k.size)
					k.put(b, k.size, els)
					doc := gltf.NewDocument()
					doc.Buffers = []*gltf.Buffer{{ByteLength: len(b), Data: b}}
					doc.BufferViews = []*gltf.BufferView{{ByteLength: len(b)}}
					a := &gltf.Accessor{ComponentType: k.c, Type: k.t, Count: n, BufferView: gltf.Index(0), Normalized: k.c != tFloat}
					c := new(Case)
					c.Key(tr.name, k.String(), n)
					c.NonTrivial(true)
					c.Sample("%s of %d %v, accepted=%v", tr.name, n, k, tr.accepts(k))
					var data any
					var err error
					if p := call(func() { data, err = tr.read(doc, a, nil) }); p != "" {
						t.Fatalf("%s of %d %v: %s", tr.name, n, k, p)
					}
					if tr.accepts(k) != (err == nil) {
						t.Fatalf("%s of %d %v: %v", tr.name, n, k, err)
					}
					if err == nil {
						if d := tr.check(k, els, data); d != "" {
							t.Fatalf("%s of %d %v: %s", tr.name, n, k, d)
						}
					}
					record(c)
				}
			}
		}
	})
}
