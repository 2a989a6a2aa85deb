package props

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"testing"
	"unsafe"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C31

// arena is memory of the caller, of which each read is handed one window.
type arena struct {
	slice reflect.Value // of elements
	raw   []byte        // the same memory
	size  int           // of an element
}

func newArena(rt *rapid.T, tp reflect.Type, n int, label string) *arena {
	a := &arena{slice: reflect.MakeSlice(reflect.SliceOf(tp), n, n), size: int(tp.Size())}
	a.raw = unsafe.Slice((*byte)(a.slice.UnsafePointer()), n*a.size)
	copy(a.raw, payload(rt, len(a.raw), label))
	return a
}

// where tells the place of a slice in the arena, up to its capacity; inside is false if it has no byte in common with it.
func (a *arena) where(s reflect.Value) (from, to int, inside bool) {
	if s.Cap() == 0 {
		return 0, 0, false
	}
	base := uintptr(unsafe.Pointer(&a.raw[0]))
	p := uintptr(s.UnsafePointer())
	from, to = int(p)-int(base), int(p)-int(base)+s.Cap()*int(s.Type().Elem().Size())
	return from, to, from < len(a.raw) && to > 0
}

// damage changes an accessor that is to be read so that reading it fails, most of the time at a late point.
func damage(rt *rapid.T, doc *gltf.Document, a *gltf.Accessor) string {
	switch intn(rt, 0, 4, "damage") {
	case 0:
		a.Count += intn(rt, 1, 50, "damage.count")
		return "count too large"
	case 1:
		if a.Sparse != nil {
			a.Sparse.Count += intn(rt, 1, 300, "damage.sparse")
			return "sparse count too large"
		}
	case 2:
		if a.Sparse != nil && a.Sparse.Count > 0 {
			bv := doc.BufferViews[a.Sparse.Indices.BufferView]
			b := doc.Buffers[bv.Buffer].Data[bv.ByteOffset+a.Sparse.Indices.ByteOffset:]
			cs := a.Sparse.Indices.ComponentType.ByteSize()
			for i := (a.Sparse.Count - 1) * cs; i < a.Sparse.Count*cs; i++ {
				b[i] = 0xff
			}
			return "last sparse index too large"
		}
	case 3:
		if a.BufferView != nil {
			doc.BufferViews[*a.BufferView].ByteLength--
			return "view too short"
		}
	}
	if a.Sparse != nil {
		a.Sparse.Values.BufferView = len(doc.BufferViews)
		return "sparse values without view"
	}
	a.BufferView = gltf.Index(len(doc.BufferViews))
	return "view out of range"
}

func TestC31Memory(t *testing.T) {
	Prop(t, Opt{Quick: 5000, Rule: "case = a document with 1-3 accessors (packed, strided, sparse, without view, sometimes damaged) and 1-6 reads by ReadAccessor or a typed reader, each given a window of a larger piece of the caller's memory full of noise: of any length and capacity, at any place, also used by an earlier read; non-trivial = a read of at least one element with a window that has capacity; distinct by the reads"}, func(rt *rapid.T, c *Case) {
		doc := gltf.NewDocument()
		type acc struct {
			a    *gltf.Accessor
			k    elem
			els  [][]uint32
			flaw string
		}
		var accs []acc
		most := 0
		for i, m := 0, intn(rt, 1, 3, "accessors"); i < m; i++ {
			k := drawElem(rt)
			if chance(rt, 60, "typed kind") {
				k = pick(rt, "kind", uint1, ushrt1, ubyte1, float3, float4, float2, ubyte4, ushrt4, floatM)
			}
			n := drawCount(rt, "count")
			a, els := drawAccessor(rt, doc, k, n, "a")
			a.Normalized = k.c != tFloat && k.c != gltf.ComponentUint
			accs = append(accs, acc{a, k, els, ""})
			most = max(most, n)
		}
		for i := range accs {
			if chance(rt, 15, "damaged") {
				accs[i].flaw = damage(rt, doc, accs[i].a)
				// the damage might be to bytes or views that others use
				for j := range accs {
					if accs[j].flaw == "" {
						accs[j].flaw = "by another one"
					}
				}
			}
		}
		arenas := map[string]*arena{}
		type result struct {
			what     string
			data     any
			where    *arena
			from, to int
			check    func(any) string
		}
		var kept []result
		log := ""
		for i, m := 0, intn(rt, 1, 6, "reads"); i < m; i++ {
			x := accs[intn(rt, 0, len(accs)-1, "which")]
			// the function, and the memory it takes
			var usable []*typedReader
			for j := range typedReaders {
				if r := &typedReaders[j]; r.accepts(x.k) && (x.k.c != tFloat || r.out.c == tFloat) {
					usable = append(usable, r)
				}
			}
			var r *typedReader
			name, out := "ReadAccessor", x.k
			if len(usable) > 0 && chance(rt, 60, "typed") {
				r = pick(rt, "reader", usable...)
				name, out = r.name, r.out
			}
			key, tp := "bytes", reflect.TypeOf(byte(0))
			unit := out.n * out.cs // of window per element
			if r != nil {
				key, tp, unit = out.String(), out.elemType(), 1
			}
			mem := arenas[key]
			if mem == nil {
				n := most + 300
				if r == nil {
					n = (most+20)*64 + 300
				}
				mem = newArena(rt, tp, n, "memory")
				arenas[key] = mem
			}
			need := x.a.Count * unit
			// the window
			pre := intn(rt, 0, 20, "pre")
			if r == nil {
				pre = pick(rt, "pre.bytes", 0, 8, 16, 64, 4, pre)
			}
			room := mem.slice.Len() - pre
			var ln int
			switch intn(rt, 0, 5, "window") {
			case 0, 1:
				ln = need
			case 2:
				ln = need + intn(rt, 1, 40, "more")
			case 3:
				ln = max(0, need-intn(rt, 1, max(1, need), "less"))
			case 4:
				ln = 0
			default:
				ln = room
			}
			ln = min(max(ln, 0), room)
			cp := min(room, ln+pick(rt, "spare", 0, 0, 0, 1, 8, 50, room))
			w := mem.slice.Slice3(pre, pre+ln, pre+cp)
			what := fmt.Sprintf("%s of %s into a window of length %d and capacity %d at %d", name, accText(doc, x.a), ln, cp, pre)
			if x.flaw != "" {
				what += " (damaged: " + x.flaw + ")"
			}
			log += "\n" + what
			// earlier results in the same memory are given up
			from, limit := pre*mem.size, (pre+cp)*mem.size
			n := 0
			for _, e := range kept {
				if e.where != mem || e.to <= from || e.from >= limit {
					kept[n] = e
					n++
				} else {
					c.Label("memory of an earlier result")
				}
			}
			kept = kept[:n]
			before := bytes.Clone(mem.raw)
			others := map[string][]byte{}
			for k, o := range arenas {
				if o != mem {
					others[k] = bytes.Clone(o.raw)
				}
			}
			var data any
			var err error
			p := call(func() {
				if r != nil {
					data, err = r.read(doc, x.a, w.Interface())
				} else {
					data, err = modeler.ReadAccessor(doc, x.a, w.Interface().([]byte))
				}
			})
			if p != "" {
				rt.Fatalf("%s: %s\nhistory:%s", what, p, log)
			}
			end := min(limit, from+need*mem.size)
			for j := range before {
				if before[j] != mem.raw[j] && (j < from || j >= end) {
					rt.Fatalf("%s (%v) changes byte %d of the caller's memory, outside of [%d,%d) that the result may use\nhistory:%s", what, err, j, from, end, log)
				}
			}
			for k, o := range others {
				if !bytes.Equal(o, arenas[k].raw) {
					rt.Fatalf("%s (%v) changes memory that it was not given\nhistory:%s", what, err, log)
				}
			}
			c.LabelIf(x.flaw != "" && err != nil, "failed read")
			if err != nil {
				if x.flaw == "" && sortedSparse(doc, x.a) {
					rt.Fatalf("%s: %v\nhistory:%s", what, err, log)
				}
				continue
			}
			c.Label(name)
			c.NonTrivial(need > 0 && cp > 0)
			v := reflect.ValueOf(data)
			if v.Kind() != reflect.Slice || v.Len() != x.a.Count {
				rt.Fatalf("%s returns a %v\nhistory:%s", what, v.Type(), log)
			}
			rf, rto, inside := mem.where(v)
			if inside && (rf < from || rto > limit) {
				rt.Fatalf("%s returns a slice of the bytes [%d,%d) of the caller's memory and was given [%d,%d)\nhistory:%s", what, rf, rto, from, limit, log)
			}
			if need > 0 && ln >= need {
				c.Label("large enough")
				if !inside || rf != from {
					rt.Fatalf("%s doesn't use the memory it was given, although it is large enough\nhistory:%s", what, log)
				}
			}
			c.LabelIf(need > 0 && cp < need, "too small")
			if x.flaw == "" {
				check := func(data any) string { return x.k.diff(data, x.els) }
				if r != nil {
					check = func(data any) string { return r.check(x.k, x.els, data) }
				}
				if d := check(data); d != "" {
					rt.Fatalf("%s: %s\nhistory:%s", what, d, log)
				}
				e := result{what: what, data: data, check: check}
				if inside {
					e.where, e.from, e.to = mem, rf, rto
				}
				kept = append(kept, e)
			}
			// appending to the result stays within the window as well
			before = bytes.Clone(mem.raw)
			reflect.Append(v, reflect.Zero(v.Type().Elem()))
			for j := range before {
				if before[j] != mem.raw[j] && (j < from || j >= limit) {
					rt.Fatalf("appending to the result of %s changes byte %d of the caller's memory, which was not given to it\nhistory:%s", what, j, log)
				}
			}
		}
		for _, e := range kept {
			if d := e.check(e.data); d != "" {
				rt.Fatalf("the result of %s changed: %s\nhistory:%s", e.what, d, log)
			}
		}
		runtime.KeepAlive(arenas)
		c.Key(log)
		c.Sample("%s", log)
	})
}
