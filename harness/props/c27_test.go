package props

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"runtime"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C27

// allocated is how many bytes f allocates.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// memoryBound is what an operation on n bytes of input may allocate. The
// lengths drawn by hugeLength are mostly at least four times the constant part.
func memoryBound(n int) uint64 { return 64<<20 + 2048*uint64(n) }

// hugeLength is a length that is declared but not there.
func hugeLength(t *rapid.T, limit int, label string) int {
	return min(limit, pick(t, label, 1<<27, intn(t, 1<<27-1<<25, 1<<28, label+".less"), 1<<28, 1<<28+1, 1<<29, 1<<30-4, 1<<31-1, 1<<31, 1<<32-4, 1<<32-1, 1<<33, 1<<40, 1<<53, math.MaxInt, intn(t, 1<<28, 1<<32-1, label+".any")))
}

func TestC27Decode(t *testing.T) {
	Prop(t, Opt{Quick: 600, Rule: "case = file of a few kB (glTF or GLB, cut anywhere or not) in which one or more declared lengths - buffer.byteLength, chunk lengths, total length, view lengths, counts - are 96 MiB or more; all are non-trivial; distinct by bytes"}, func(rt *rapid.T, c *Case) {
		m := newMemFS()
		const max32 = 1<<32 - 1
		big := func(limit int, label string) int { return hugeLength(rt, limit, label) }
		data := payload(rt, pick(rt, "data.len", 0, 1, 3, 4, 7, 100, 4096, 70000), "data")
		declared := big(max32, "byteLength")
		doc := map[string]any{"asset": map[string]any{"version": "2.0"}}
		var buffers []any
		glb := chance(rt, 65, "glb")
		first := map[string]any{"byteLength": declared}
		what := ""
		if !glb {
			switch pick(rt, "source", 0, 1, 2) {
			case 0:
				first["uri"] = "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(data)
				what = "embedded"
			case 1:
				first["uri"] = "a.bin"
				m.files["a.bin"] = data
				what = "external"
			default:
				first["uri"] = "http://example.com/a.bin"
				what = "absolute"
			}
			first["byteLength"] = big(1<<53, "byteLength")
		}
		buffers = append(buffers, first)
		for i, n := 0, intn(rt, 0, 3, "more"); i < n; i++ {
			name := fmt.Sprintf("b%d.bin", i)
			m.files[name] = payload(rt, intn(rt, 1, 50, "file"), "file")
			buffers = append(buffers, map[string]any{"byteLength": big(1<<53, "byteLength"), "uri": name})
		}
		doc["buffers"] = buffers
		doc["bufferViews"] = []any{map[string]any{"buffer": 0, "byteLength": big(1<<53, "view"), "byteOffset": big(1<<53, "offset")}}
		doc["accessors"] = []any{map[string]any{"componentType": 5126, "type": "MAT4", "count": big(1<<53, "count"), "bufferView": big(1<<53, "index")}}
		js, err := json.Marshal(doc)
		if err != nil {
			rt.Fatal(err)
		}
		in := js
		if glb {
			in = buildGLB(glbChunk{chunkJSON, pad(js, ' ')}, glbChunk{chunkBIN, pad(data, 0)})
			jsonEnd := 20 + len(pad(js, ' '))
			put := func(at, v int) { binary.LittleEndian.PutUint32(in[at:], uint32(min(v, max32))) }
			for _, x := range []struct {
				name string
				at   int
				pct  int
			}{{"total length", 8, 70}, {"JSON length", 12, 15}, {"BIN length", jsonEnd, 85}} {
				if chance(rt, x.pct, x.name) {
					v := big(max32, x.name+" value")
					if x.name == "BIN length" && rapid.Bool().Draw(rt, "fits") {
						v = max(v, declared)
					}
					put(x.at, v)
					what += " " + x.name
				}
			}
			if chance(rt, 30, "cut") {
				at := intn(rt, jsonEnd, len(in), "cut.at")
				if chance(rt, 20, "cut.any") {
					at = intn(rt, 0, len(in), "cut.where")
				}
				in = in[:at]
				what += " cut"
			}
		}
		total := len(in)
		for _, f := range m.files {
			total += len(f)
		}
		c.Key(in)
		c.NonTrivial(true)
		c.Label("glb=" + fmt.Sprint(glb))
		d := new(gltf.Document)
		var derr error
		n := allocated(func() {
			if p := call(func() { derr = gltf.NewDecoderFS(bytes.NewReader(in), m).Decode(d) }); p != "" {
				rt.Fatalf("Decode: %s", p)
			}
		})
		c.LabelIf(derr == nil, "accepted")
		c.Sample("%d bytes (%s), byteLength %v: %d bytes allocated, error %v", total, what, first["byteLength"], n, derr)
		if n > memoryBound(total) {
			rt.Fatalf("decoding %d bytes (%s), byteLength %v, allocates %d bytes (error %v)", total, what, first["byteLength"], n, derr)
		}
		if derr != nil {
			return
		}
		// what was accepted can be saved or refused, and its views and accessors read or refused
		for _, bin := range []bool{false, true} {
			n = allocated(func() { encode(d, bin, newMemFS()) })
			if n > memoryBound(total) {
				rt.Fatalf("encoding (glb=%v) a document with %d bytes of data (%s, byteLength %v) allocates %d bytes", bin, total, what, first["byteLength"], n)
			}
		}
		n = allocated(func() {
			modeler.ReadAccessor(d, d.Accessors[0], nil)
			modeler.ReadBufferView(d, d.BufferViews[0])
		})
		if n > memoryBound(total) {
			rt.Fatalf("reading the accessor of a document with %d bytes of data allocates %d bytes", total, n)
		}
	})
}

func TestC27Read(t *testing.T) {
	Prop(t, Opt{Quick: 800, Rule: "case = small valid accessor with a buffer view, made to declare 96 Mi elements or more (its own count or that of its sparse part) or a huge view length, stride or offset, read by ReadAccessor and every typed reader; all are non-trivial; distinct by accessor"}, func(rt *rapid.T, c *Case) {
		doc := gltf.NewDocument()
		r := &typedReaders[intn(rt, 0, len(typedReaders)-1, "reader")]
		var ks []elem
		for _, k := range allElems {
			if r.accepts(k) {
				ks = append(ks, k)
			}
		}
		k := pick(rt, "kind", ks...)
		var a *gltf.Accessor
		for i := 0; a == nil || a.BufferView == nil && a.Sparse == nil; i++ {
			a, _ = drawAccessor(rt, doc, k, pick(rt, "count", 1, 2, 5, 40), "a")
			if i > 3 && a.BufferView == nil {
				return
			}
		}
		a.Normalized = k.c != tFloat
		total := 0
		for _, b := range doc.Buffers {
			total += len(b.Data)
		}
		big := func(label string) int { return hugeLength(rt, math.MaxInt, label) }
		how := ""
		for i, n := 0, intn(rt, 1, 3, "edits"); i < n; i++ {
			v := 0
			if a.BufferView != nil {
				v = *a.BufferView
			}
			if a.Sparse != nil && (a.BufferView == nil || rapid.Bool().Draw(rt, "sparse view")) {
				v = pick(rt, "which", a.Sparse.Indices.BufferView, a.Sparse.Values.BufferView)
			}
			x := pick(rt, "edit", "count", "count", "count", "sparse count", "sparse count", "view length", "view offset", "stride", "byteLength")
			switch x {
			case "count":
				if a.BufferView == nil {
					continue // that many zeros is what it denotes
				}
				a.Count = big("count")
			case "sparse count":
				if a.Sparse == nil {
					a.Sparse = &gltf.Sparse{Indices: gltf.SparseIndices{BufferView: v, ComponentType: pick(rt, "indices", gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint)}, Values: gltf.SparseValues{BufferView: v}}
				}
				a.Sparse.Count = big("sparse count")
			case "view length":
				doc.BufferViews[v].ByteLength = big("length")
			case "view offset":
				doc.BufferViews[v].ByteOffset = big("offset")
			case "stride":
				doc.BufferViews[v].ByteStride = big("stride")
			case "byteLength":
				for _, b := range doc.Buffers {
					b.ByteLength = big("buffer")
				}
			}
			how += " " + x
		}
		text := accText(doc, a)
		c.Key(text, how)
		c.NonTrivial(true)
		for _, x := range []struct {
			name string
			f    func() error
		}{
			{"ReadAccessor", func() error { _, err := modeler.ReadAccessor(doc, a, nil); return err }},
			{"ReadAccessor with a backing buffer", func() error { _, err := modeler.ReadAccessor(doc, a, make([]byte, 64)); return err }},
			{r.name, func() error { _, err := r.read(doc, a, nil); return err }},
		} {
			var err error
			n := allocated(func() {
				if p := call(func() { err = x.f() }); p != "" {
					rt.Fatalf("%s of %s (changed:%s): %s", x.name, text, how, p)
				}
			})
			if n > memoryBound(total) {
				rt.Fatalf("%s of %s (changed:%s), with %d bytes of data, allocates %d bytes (error %v)", x.name, text, how, total, n, err)
			}
			c.LabelIf(err == nil, "read all the same")
		}
		c.Sample("%s (changed:%s)", text, how)
	})
}
