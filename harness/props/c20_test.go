package props

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"pgregory.net/rapid"
)

// refView is the reference semantics of a buffer view: its bytes, or not ok.
func refView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, bool) {
	if bv == nil || bv.Buffer < 0 || bv.Buffer >= len(doc.Buffers) || doc.Buffers[bv.Buffer] == nil || bv.ByteOffset < 0 || bv.ByteLength < 0 {
		return nil, false
	}
	data := doc.Buffers[bv.Buffer].Data
	if bv.ByteOffset > len(data) || bv.ByteLength > len(data)-bv.ByteOffset {
		return nil, false
	}
	return data[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], true
}

const (
	refBad  = iota // malformed: must be rejected
	refGood        // denotes the elements
	refGray        // not specified: only "no panic" and the length apply
)

func refElements(doc *gltf.Document, view, offset int, k elem, n int) ([][]uint32, int) {
	if view < 0 || view >= len(doc.BufferViews) || doc.BufferViews[view] == nil {
		return nil, refBad
	}
	bv := doc.BufferViews[view]
	raw, ok := refView(doc, bv)
	if !ok || n < 0 || offset < 0 || bv.ByteStride < 0 {
		return nil, refBad
	}
	if n == 0 {
		if offset > len(raw) {
			return nil, refGray // nothing to read from a misplaced accessor
		}
		return nil, refGood
	}
	stride := bv.ByteStride
	if stride == 0 {
		stride = k.size
	}
	if offset > len(raw) {
		return nil, refBad
	}
	raw = raw[offset:]
	if k.end > len(raw) || n-1 > (len(raw)-k.end)/stride {
		return nil, refBad
	}
	return k.get(raw, stride, n), refGood
}

// refAccessor is the reference semantics of an accessor, for any integers.
func refAccessor(doc *gltf.Document, a *gltf.Accessor) ([][]uint32, int) {
	if a == nil || compSize[a.ComponentType] == 0 || shapeName[a.Type] == "" || a.Count < 0 {
		return nil, refBad
	}
	k := elemOf(a.ComponentType, a.Type)
	state := refGood
	var els [][]uint32
	if a.BufferView != nil {
		if els, state = refElements(doc, *a.BufferView, a.ByteOffset, k, a.Count); state == refBad {
			return nil, refBad
		}
		if els == nil {
			els = [][]uint32{}
		}
	} else {
		if a.Count > 1<<22 {
			return nil, refBad // can't be allocated, see hostile
		}
		els = zeros(k, a.Count)
		if a.ByteOffset != 0 {
			state = refGray
		}
	}
	s := a.Sparse
	if s == nil {
		return els, state
	}
	if !isKind(s.Indices.ComponentType, tUbyte, tUshort, tUint) || s.Count < 0 {
		return nil, refBad
	}
	idx, st1 := refElements(doc, s.Indices.BufferView, s.Indices.ByteOffset, elemOf(s.Indices.ComponentType, gltf.AccessorScalar), s.Count)
	vals, st2 := refElements(doc, s.Values.BufferView, s.Values.ByteOffset, k, s.Count)
	if st1 == refBad || st2 == refBad {
		return nil, refBad
	}
	if st1 == refGray || st2 == refGray {
		state = refGray
	}
	if s.Count > 0 && (doc.BufferViews[s.Indices.BufferView].ByteStride != 0 || doc.BufferViews[s.Values.BufferView].ByteStride != 0) {
		state = refGray // the specification forbids strides here
	}
	seen := map[uint32]bool{}
	for i := range idx {
		if int64(idx[i][0]) >= int64(a.Count) {
			if state == refGray {
				return els, refGray
			}
			return nil, refBad
		}
		if seen[idx[i][0]] {
			state = refGray // repeated index
		}
		seen[idx[i][0]] = true
		els[idx[i][0]] = vals[i]
	}
	return els, state
}

// hostile draws an integer for a field of a malformed document. Counts of more
// than 2^22 elements that a correct reader would try to allocate aren't drawn.
func hostile(t *rapid.T, old int, label string) int {
	switch intn(t, 0, 6, label+".k") {
	case 6: // the same number in fewer bits
		return old + pick(t, label, 1<<32, 1<<31, 1<<16, 1<<8, 1<<33, 1<<40, 1<<62, -1<<32, -1<<16, -1<<8, math.MinInt)
	case 0:
		return old + pick(t, label, -1, 1, -2, 2, 4, -4, 3, 8)
	case 1:
		return -old
	case 2:
		return pick(t, label, -1, -2, -4, math.MinInt, math.MinInt+1, math.MaxInt, math.MaxInt-1, math.MaxInt-3, math.MaxInt/2, math.MaxInt/2+1, math.MaxInt/4+1, 1<<62, 1<<61, 1<<60, -1<<32, -1<<31)
	case 3: // wraps around when added to or multiplied by something small
		return math.MaxInt - intn(t, 0, 64, label)
	case 4:
		return intn(t, -5, 40, label)
	default:
		return pick(t, label, 0, 1, 100, 1000, 65535, 65536, 65537, old*2, old/2)
	}
}

// corrupt applies one mutation to the document or to the accessor.
func corrupt(t *rapid.T, doc *gltf.Document, a **gltf.Accessor) string {
	x := *a
	if x == nil {
		return ""
	}
	view := func() *gltf.BufferView {
		i := intn(t, 0, len(doc.BufferViews)-1, "c.view")
		if chance(t, 60, "c.used") {
			if x.Sparse != nil && rapid.Bool().Draw(t, "c.sparse") {
				i = pick(t, "c.sv", x.Sparse.Indices.BufferView, x.Sparse.Values.BufferView)
			} else if x.BufferView != nil {
				i = *x.BufferView
			}
		}
		if i < 0 || i >= len(doc.BufferViews) {
			return nil
		}
		return doc.BufferViews[i]
	}
	kinds := []string{"count", "count", "byteOffset", "bufferView", "type", "componentType", "noview", "nil accessor", "nil doc arrays"}
	if len(doc.BufferViews) > 0 {
		kinds = append(kinds, "view.byteOffset", "view.byteLength", "view.byteStride", "view.byteStride", "view.buffer", "nil view", "nil buffer", "short buffer", "window", "window", "data")
	}
	if x.Sparse != nil {
		kinds = append(kinds, "sparse.count", "sparse.indices.view", "sparse.values.view", "sparse.indices.offset", "sparse.values.offset", "sparse.indices.type", "sparse.indices.type")
	} else {
		kinds = append(kinds, "add sparse")
	}
	kd := pick(t, "corruption", kinds...)
	switch kd {
	case "count":
		x.Count = hostile(t, x.Count, kd)
	case "byteOffset":
		x.ByteOffset = hostile(t, x.ByteOffset, kd)
	case "bufferView":
		old := 0
		if x.BufferView != nil {
			old = *x.BufferView
		}
		x.BufferView = gltf.Index(pick(t, kd, len(doc.BufferViews), hostile(t, old, kd)))
	case "type":
		x.Type = gltf.AccessorType(pick(t, kd, 0, 1, 2, 3, 4, 5, 6, 7, 8, 255))
	case "componentType":
		x.ComponentType = gltf.ComponentType(pick(t, kd, 0, 1, 2, 3, 4, 5, 6, 7, 5126, 65535))
	case "noview":
		x.BufferView = nil
	case "nil accessor":
		*a = nil
	case "nil doc arrays":
		if rapid.Bool().Draw(t, kd) {
			doc.BufferViews = nil
		} else {
			doc.Buffers = nil
		}
	case "sparse.count":
		x.Sparse.Count = hostile(t, x.Sparse.Count, kd)
	case "sparse.indices.view":
		x.Sparse.Indices.BufferView = hostile(t, x.Sparse.Indices.BufferView, kd)
	case "sparse.values.view":
		x.Sparse.Values.BufferView = hostile(t, x.Sparse.Values.BufferView, kd)
	case "sparse.indices.offset":
		x.Sparse.Indices.ByteOffset = hostile(t, x.Sparse.Indices.ByteOffset, kd)
	case "sparse.values.offset":
		x.Sparse.Values.ByteOffset = hostile(t, x.Sparse.Values.ByteOffset, kd)
	case "sparse.indices.type":
		x.Sparse.Indices.ComponentType = gltf.ComponentType(pick(t, kd, 0, 1, 2, 3, 4, 5, 6, 7, 65535))
	case "add sparse":
		x.Sparse = &gltf.Sparse{Count: hostile(t, 1, kd), Indices: gltf.SparseIndices{BufferView: hostile(t, 0, kd+".i"), ComponentType: pick(t, kd+".t", tUbyte, tUshort, tUint)}, Values: gltf.SparseValues{BufferView: hostile(t, 0, kd+".v")}}
	case "nil view":
		doc.BufferViews[intn(t, 0, len(doc.BufferViews)-1, kd)] = nil
	case "nil buffer":
		if len(doc.Buffers) > 0 {
			doc.Buffers[intn(t, 0, len(doc.Buffers)-1, kd)] = nil
		}
	case "short buffer":
		if len(doc.Buffers) > 0 {
			if b := doc.Buffers[intn(t, 0, len(doc.Buffers)-1, kd)]; b != nil {
				// the memory after the end stays, so that reading too far doesn't just panic
				b.Data = b.Data[:intn(t, 0, len(b.Data), kd+".len")]
				if len(b.Data) == 0 && rapid.Bool().Draw(t, kd+".nil") {
					b.Data = nil
				}
				b.ByteLength = len(b.Data)
			}
		}
	case "data":
		if len(doc.Buffers) > 0 {
			if b := doc.Buffers[intn(t, 0, len(doc.Buffers)-1, kd)]; b != nil && len(b.Data) > 0 {
				copy(b.Data[intn(t, 0, len(b.Data)-1, kd+".at"):], payload(t, 8, kd+".bytes"))
			}
		}
	default:
		bv := view()
		if bv == nil {
			return ""
		}
		switch kd {
		case "view.byteOffset":
			bv.ByteOffset = hostile(t, bv.ByteOffset, kd)
		case "view.byteLength":
			bv.ByteLength = hostile(t, bv.ByteLength, kd)
		case "view.byteStride":
			bv.ByteStride = hostile(t, bv.ByteStride, kd)
		case "view.buffer":
			bv.Buffer = pick(t, kd, len(doc.Buffers), hostile(t, bv.Buffer, kd))
		case "window": // offset and length whose sum is small, or the last bytes of the view missing
			if rapid.Bool().Draw(t, kd) {
				bv.ByteLength -= intn(t, 1, 8, kd+".less")
			} else {
				o := math.MaxInt - intn(t, 0, 20, kd+".off")
				bv.ByteOffset, bv.ByteLength = o, pick(t, kd+".len", math.MaxInt-o+1+intn(t, 0, 9, kd+".over"), bv.ByteLength)
			}
		}
	}
	return kd
}

// tame replaces counts for which a correct reader may try to allocate gigabytes of zeros by impossible ones.
func tame(a *gltf.Accessor) {
	if a == nil {
		return
	}
	huge := func(n int) bool { return n > 1<<16 && n <= 1<<48 }
	if a.BufferView == nil && huge(a.Count) {
		a.Count = math.MaxInt
	}
}

func TestC20Malformed(t *testing.T) {
	Prop(t, Opt{Quick: 12000, Rule: "the document is malformed (the reference rejects it) or a mutated one that is still readable with at least one element"}, func(rt *rapid.T, c *Case) {
		doc := gltf.NewDocument()
		ks := allElems
		if rapid.Bool().Draw(rt, "colors") { // the encodings the typed readers like
			ks = []elem{float3, float4, float2, ubyte4, ushrt4, ubyte3, ushrt3, ubyte1, ushrt1, uint1, floatM, ubyte2, ushrt2}
		}
		k := pick(rt, "kind", ks...)
		a, _ := drawAccessor(rt, doc, k, intn(rt, 0, 9, "count"), "a")
		what := ""
		for i, m := 0, intn(rt, 1, 3, "corruptions"); i < m; i++ {
			if s := corrupt(rt, doc, &a); s != "" {
				what += " " + s
			}
		}
		tame(a)
		want, state := refAccessor(doc, a)
		before := cloneDoc(doc)
		var backing []byte
		if a != nil && compSize[a.ComponentType] != 0 && shapeName[a.Type] != "" {
			backing = drawBacking(rt, elemOf(a.ComponentType, a.Type), 8, "backing")
		}
		desc := fmt.Sprintf("corruption:%s; accessor %s; views %s", what, trunc(mustJSON(toGeneric(a))), trunc(mustJSON(toGeneric(doc.BufferViews))))
		c.Key(desc)
		c.NonTrivial(state == refBad || len(want) > 0)
		c.Label([]string{"malformed", "still readable", "unspecified"}[state])
		c.Sample("%s", desc)
		var data any
		var err error
		if p := call(func() { data, err = modeler.ReadAccessor(doc, a, backing) }); p != "" {
			rt.Fatalf("ReadAccessor: %s\n%s", p, desc)
		}
		if err == nil {
			if state == refBad {
				rt.Fatalf("ReadAccessor accepted a malformed accessor\n%s", desc)
			}
			k := elemOf(a.ComponentType, a.Type)
			got, err := k.elements(data)
			if err != nil || len(got) != a.Count {
				rt.Fatalf("ReadAccessor returned %T of %d elements, want %d of %v\n%s", data, len(got), a.Count, k, desc)
			}
			if state == refGood {
				if d := diffEls(got, want); d != "" {
					rt.Fatalf("ReadAccessor: %s\n%s", d, desc)
				}
			}
		} else if state == refGood {
			rt.Fatalf("ReadAccessor rejected (%v) a readable accessor\n%s", err, desc)
		}
		for i := range typedReaders {
			tr := &typedReaders[i]
			dst, dstText := any(nil), "nil"
			if chance(rt, 30, "dst?") {
				dst, dstText = drawDst(rt, tr.out, 8, "dst")
			}
			var res any
			var rerr error
			if p := call(func() { res, rerr = tr.read(doc, a, dst) }); p != "" {
				rt.Fatalf("%s (destination %s): %s\n%s", tr.name, dstText, p, desc)
			}
			if rerr == nil {
				if state == refBad || err != nil || !tr.accepts(elemOf(a.ComponentType, a.Type)) {
					rt.Fatalf("%s accepted a malformed accessor\n%s", tr.name, desc)
				}
				if n := reflect.ValueOf(res).Len(); n != a.Count {
					rt.Fatalf("%s (destination %s) returned %d elements, want %d\n%s", tr.name, dstText, n, a.Count, desc)
				}
			} else if state == refGood && tr.accepts(elemOf(a.ComponentType, a.Type)) {
				rt.Fatalf("%s rejected (%v) a readable accessor\n%s", tr.name, rerr, desc)
			}
		}
		for i, bv := range doc.BufferViews {
			want, ok := refView(doc, bv)
			var b []byte
			var err error
			if p := call(func() { b, err = modeler.ReadBufferView(doc, bv) }); p != "" {
				rt.Fatalf("ReadBufferView %d: %s\n%s", i, p, desc)
			}
			if ok != (err == nil) || ok && !bytes.Equal(b, want) {
				rt.Fatalf("ReadBufferView %d: %v, %x, want %x\n%s", i, err, trunc(b), trunc(want), desc)
			}
		}
		if !reflect.DeepEqual(before, doc) {
			rt.Fatalf("reading changed the document\n%s", desc)
		}
	})
}

// Arbitrary integers everywhere, not derived from a valid document.
func TestC20Arbitrary(t *testing.T) {
	Prop(t, Opt{Quick: 8000, Rule: "all cases: every integer of the accessor, its views and its sparse part is arbitrary"}, func(rt *rapid.T, c *Case) {
		any1 := func(label string) int {
			if chance(rt, 50, label+".small") {
				return intn(rt, 0, 6, label)
			}
			return hostile(rt, intn(rt, 0, 20, label+".old"), label)
		}
		doc := new(gltf.Document)
		for i, m := 0, intn(rt, 0, 2, "buffers"); i < m; i++ {
			if chance(rt, 10, "nil") {
				doc.Buffers = append(doc.Buffers, nil)
				continue
			}
			b := payload(rt, intn(rt, 0, 60, "len"), "data")
			for j := range b {
				b[j] %= 5 // small sparse indices
			}
			doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: len(b), Data: b[:max(0, len(b)-8)]})
		}
		for i, m := 0, intn(rt, 0, 3, "views"); i < m; i++ {
			if chance(rt, 5, "nil") {
				doc.BufferViews = append(doc.BufferViews, nil)
				continue
			}
			bv := &gltf.BufferView{Buffer: intn(rt, 0, 1, "buffer"), ByteOffset: intn(rt, 0, 9, "off"), ByteLength: intn(rt, 0, 50, "len"), ByteStride: pick(rt, "stride", 0, 0, 4, 1)}
			switch intn(rt, 0, 9, "hostile") {
			case 0:
				bv.Buffer = any1("buffer")
			case 1:
				bv.ByteOffset = any1("off")
			case 2:
				bv.ByteLength = any1("len")
			case 3, 4:
				bv.ByteStride = any1("stride")
			}
			doc.BufferViews = append(doc.BufferViews, bv)
		}
		a := &gltf.Accessor{Count: any1("count"), ByteOffset: pick(rt, "offset", 0, any1("offset")), ComponentType: gltf.ComponentType(intn(rt, 0, 6, "ct")), Type: gltf.AccessorType(intn(rt, 0, 7, "t"))}
		if chance(rt, 80, "view?") {
			a.BufferView = gltf.Index(any1("view"))
		}
		if chance(rt, 50, "sparse?") {
			a.Sparse = &gltf.Sparse{Count: any1("scount"), Indices: gltf.SparseIndices{BufferView: intn(rt, -1, 3, "iview"), ByteOffset: any1("ioff"), ComponentType: gltf.ComponentType(intn(rt, 0, 6, "ict"))},
				Values: gltf.SparseValues{BufferView: intn(rt, -1, 3, "vview"), ByteOffset: any1("voff")}}
		}
		tame(a)
		want, state := refAccessor(doc, a)
		desc := fmt.Sprintf("accessor %s; views %s; %d buffers", trunc(mustJSON(toGeneric(a))), trunc(mustJSON(toGeneric(doc.BufferViews))), len(doc.Buffers))
		c.Key(desc)
		c.NonTrivial(true)
		c.Label([]string{"malformed", "readable", "unspecified"}[state])
		c.Sample("%s", desc)
		var data any
		var err error
		var backing []byte
		if compSize[a.ComponentType] != 0 && shapeName[a.Type] != "" && chance(rt, 50, "backing?") {
			backing = drawBacking(rt, elemOf(a.ComponentType, a.Type), 8, "backing")
		}
		if p := call(func() { data, err = modeler.ReadAccessor(doc, a, backing) }); p != "" {
			rt.Fatalf("ReadAccessor: %s\n%s", p, desc)
		}
		switch {
		case err == nil && state == refBad:
			rt.Fatalf("ReadAccessor accepted a malformed accessor\n%s", desc)
		case err != nil && state == refGood:
			rt.Fatalf("ReadAccessor rejected (%v) a readable accessor\n%s", err, desc)
		case err == nil:
			got, e := elemOf(a.ComponentType, a.Type).elements(data)
			if e != nil || len(got) != a.Count {
				rt.Fatalf("ReadAccessor returned %d elements, want %d (%v)\n%s", len(got), a.Count, e, desc)
			}
			if state == refGood && diffEls(got, want) != "" {
				rt.Fatalf("ReadAccessor: %s\n%s", diffEls(got, want), desc)
			}
		}
		tr := &typedReaders[intn(rt, 0, len(typedReaders)-1, "reader")]
		var res any
		dst, dstText := any(nil), "nil"
		if rapid.Bool().Draw(rt, "dst?") {
			dst, dstText = drawDst(rt, tr.out, 8, "dst")
		}
		if p := call(func() { res, err = tr.read(doc, a, dst) }); p != "" {
			rt.Fatalf("%s (destination %s): %s\n%s", tr.name, dstText, p, desc)
		}
		if err == nil && (state == refBad || reflect.ValueOf(res).Len() != a.Count) {
			rt.Fatalf("%s accepted it, or returned a wrong number of elements\n%s", tr.name, desc)
		}
	})
}
