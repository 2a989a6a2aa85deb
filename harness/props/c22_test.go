package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C22

// job is one operation that may run concurrently with others. do may be called
// several times; it returns the result, which nobody else may change.
type job struct {
	what string
	do   func() any
	// own tells that the caller owns the result and may overwrite it
	own bool
}

type outcome struct {
	val any
	err string
}

func run(f func() (any, error)) any {
	var o outcome
	if p := call(func() {
		v, err := f()
		o.val = v
		if err != nil {
			o.err = err.Error()
		}
	}); p != "" {
		o.err = "PANIC " + p
	}
	return o
}

// fingerprint is the text of a result, by value.
func fingerprint(v any) string {
	o := v.(outcome)
	switch x := o.val.(type) {
	case *gltf.Document:
		b, err := json.Marshal(x)
		s := fmt.Sprintf("%s %v", b, err)
		for _, b := range x.Buffers {
			s += fmt.Sprintf(" %x", b.Data)
		}
		return s + " " + o.err
	case [][]byte: // output and files of an encoder
		return fmt.Sprintf("%q %s", x, o.err)
	}
	return fmt.Sprintf("%T %v %s", o.val, o.val, o.err)
}

func shorten(s string) string {
	if len(s) < 700 {
		return s
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%s...(%d bytes, hash %x)", s[:700], len(s), h.Sum64())
}

// overwrite fills a result that is a slice of plain data.
func overwrite(v any) {
	o := v.(outcome)
	if o.val == nil {
		return
	}
	s := reflect.ValueOf(o.val)
	if s.Kind() != reflect.Slice {
		return
	}
	for i := 0; i < s.Len(); i++ {
		scribbleAll(s.Index(i))
	}
}

func scribbleAll(v reflect.Value) {
	switch v.Kind() {
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribbleAll(v.Index(i))
		}
	case reflect.Float32:
		v.SetFloat(-77)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		v.SetUint(0x5a)
	case reflect.Int8, reflect.Int16:
		v.SetInt(-0x5b)
	}
}

type tagged struct{ Tag, Raw string }

// drawJobs draws the operations of one goroutine.
func drawJobs(rt *rapid.T, who int, shared *gltf.Document, accs []*gltf.Accessor, texts [][]byte, inputs []vdata) (jobs []job) {
	for i, n := 0, intn(rt, 1, 5, "jobs"); i < n; i++ {
		switch pick(rt, "job", "typed", "typed", "typed", "accessor", "accessor", "accessor", "view", "encode", "decode", "decode", "write", "write", "register", "image") {
		case "typed":
			ai := intn(rt, 0, len(accs)-1, "accessor")
			a := accs[ai]
			k := elemOf(a.ComponentType, a.Type)
			var fit []*typedReader
			for j := range typedReaders {
				if typedReaders[j].accepts(k) {
					fit = append(fit, &typedReaders[j])
				}
			}
			if len(fit) == 0 || chance(rt, 10, "any reader") {
				fit = []*typedReader{&typedReaders[intn(rt, 0, len(typedReaders)-1, "reader")]}
			}
			r := pick(rt, "fitting", fit...)
			dst := pick(rt, "dst", -1, -1, 0, 8, a.Count, a.Count+5)
			jobs = append(jobs, job{fmt.Sprintf("%s(%d) dst %d", r.name, ai, dst), func() any {
				return run(func() (any, error) {
					if dst < 0 {
						return r.read(shared, a, nil)
					}
					return r.read(shared, a, r.out.junk(dst, false))
				})
			}, true})
		case "accessor":
			ai := intn(rt, 0, len(accs)-1, "accessor")
			a := accs[ai]
			size := pick(rt, "backing", -1, -1, 0, 64, a.Count*64+64)
			jobs = append(jobs, job{fmt.Sprintf("ReadAccessor(%d) backing %d", ai, size), func() any {
				return run(func() (any, error) {
					var b []byte
					if size >= 0 {
						b = make([]byte, size)
						for i := range b {
							b[i] = 0xA5
						}
					}
					return modeler.ReadAccessor(shared, a, b)
				})
			}, true})
		case "view":
			if len(shared.BufferViews) == 0 {
				continue
			}
			vi := intn(rt, 0, len(shared.BufferViews)-1, "view")
			jobs = append(jobs, job{fmt.Sprintf("ReadBufferView(%d)", vi), func() any {
				return run(func() (any, error) { return modeler.ReadBufferView(shared, shared.BufferViews[vi]) })
			}, false})
		case "encode":
			glb := rapid.Bool().Draw(rt, "glb")
			indent := rapid.Bool().Draw(rt, "indent")
			jobs = append(jobs, job{fmt.Sprintf("Encode glb=%v indent=%v", glb, indent), func() any {
				return run(func() (any, error) {
					fsys := newMemFS()
					var buf bytes.Buffer
					e := gltf.NewEncoderFS(&buf, fsys)
					e.AsBinary = glb
					if indent {
						e.SetJSONIndent("", " ")
					}
					err := e.Encode(shared)
					out := [][]byte{buf.Bytes()}
					for _, n := range fsys.names() {
						out = append(out, []byte(n), fsys.files[n])
					}
					return out, err
				})
			}, true})
		case "decode":
			ti := intn(rt, 0, len(texts)-1, "text")
			jobs = append(jobs, job{fmt.Sprintf("Decode(%d)", ti), func() any {
				return run(func() (any, error) {
					fsys := newMemFS()
					for _, b := range shared.Buffers {
						fsys.files[b.URI] = b.Data
					}
					d, err := decode(texts[ti], fsys)
					return d, err
				})
			}, false})
		case "write":
			ii := intn(rt, 0, len(inputs)-1, "input")
			v, w := inputs[ii], inputs[intn(rt, 0, len(inputs)-1, "input2")]
			kind := pick(rt, "writer", "WriteAccessor", "WriteBufferView", "WriteAccessorsInterleaved", "WriteIndices", "WriteImage", "WritePosition", "WriteColor", "WritePrimitiveAttributes")
			jobs = append(jobs, job{fmt.Sprintf("%s(%d)", kind, ii), func() any {
				return run(func() (any, error) {
					d := gltf.NewDocument()
					var err error
					// twice, so that the second write appends to the data of the first one
					for i := 0; i < 2 && err == nil; i++ {
						switch kind {
						case "WriteAccessor":
							modeler.WriteAccessor(d, gltf.TargetArrayBuffer, v.data)
						case "WriteBufferView":
							_, err = modeler.WriteBufferViewInterleaved(d, v.data)
							modeler.WriteBufferView(d, gltf.TargetNone, w.data)
						case "WriteAccessorsInterleaved":
							_, err = modeler.WriteAccessorsInterleaved(d, v.data, v.data)
						case "WriteIndices":
							modeler.WriteIndices(d, []uint16{uint16(ii), 1, 2})
						case "WriteImage":
							_, err = modeler.WriteImage(d, "n", "image/png", bytes.NewReader([]byte(v.k.String())))
						case "WritePosition":
							modeler.WritePosition(d, [][3]float32{{1, 2, float32(ii)}, {0, 0, 0}})
						case "WriteColor":
							modeler.WriteColor(d, [][4]uint8{{1, 2, 3, uint8(ii)}})
						case "WritePrimitiveAttributes":
							_, err = modeler.WritePrimitiveAttributes(d,
								modeler.PrimitiveAttribute{Name: "POSITION", Data: [][3]float32{{1, 2, float32(ii)}}},
								modeler.PrimitiveAttribute{Name: "COLOR_0", Data: [][4]uint8{{1, 2, 3, uint8(ii)}}})
						}
					}
					return d, err
				})
			}, false})
		case "register":
			key := fmt.Sprintf("VERIF_g%d_%d", who, i)
			jobs = append(jobs, job{"RegisterExtension " + key, func() any {
				return run(func() (any, error) {
					gltf.RegisterExtension(key, func(b []byte) (any, error) { return &tagged{key, string(b)}, nil })
					d, err := decode([]byte(fmt.Sprintf(`{"asset":{"version":"2.0"},"extensions":{%q:{"a":[1]}},"nodes":[{"extensions":{%q:2}}]}`, key, key)), nil)
					if err != nil {
						return nil, err
					}
					t1, ok1 := d.Extensions[key].(*tagged)
					t2, ok2 := d.Nodes[0].Extensions[key].(*tagged)
					if !ok1 || !ok2 {
						return nil, fmt.Errorf("registered extension %s decoded as %T, %T", key, d.Extensions[key], d.Nodes[0].Extensions[key])
					}
					return *t1, map[bool]error{true: nil, false: fmt.Errorf("%v", *t2)}[*t2 == tagged{key, "2"}]
				})
			}, false})
		case "image":
			ti := intn(rt, 0, 9, "n")
			im := &gltf.Image{URI: "data:image/png;base64," + encode64([]byte(fmt.Sprint("image", ti)))}
			jobs = append(jobs, job{"Image.MarshalData", func() any { return run(func() (any, error) { return im.MarshalData() }) }, true})
		}
	}
	return jobs
}

func TestC22Concurrent(t *testing.T) {
	Prop(t, Opt{Slow: true, Quick: map[bool]int{true: 1000, false: 3000}[raceOn], Thorough: map[bool]int{true: 12000, false: 40000}[raceOn], Rule: "case = a shared document with 1-4 accessors of random encodings (strided, sparse, without view), 1-3 file texts and 1-3 source slices, used by 2-6 goroutines with 1-5 operations each (typed readers, ReadAccessor, ReadBufferView, Encode of the shared document, Decode, modeler writes to private documents, RegisterExtension), run alone and all together, in either order, with returned slices kept or overwritten by their owner; non-trivial = at least two goroutines and four operations of two kinds; distinct by the operations and documents"}, func(rt *rapid.T, c *Case) {
		before := raceErrors()
		shared := gltf.NewDocument()
		if chance(rt, 25, "rich") { // with nodes, materials, extensions and so on
			shared = newDocGen(rt).doc(bufNoURI)
			c.Label("shared document with objects of all kinds")
		}
		var accs []*gltf.Accessor
		for i, n := 0, intn(rt, 1, 4, "accessors"); i < n; i++ {
			k := drawElem(rt)
			if chance(rt, 60, "typed kind") {
				k = pick(rt, "kind", uint1, ushrt1, ubyte1, float3, float4, float2, ubyte4, ushrt4, floatM)
			}
			count := 0
			switch fit := 1024 / (k.n * k.cs); intn(rt, 0, 3, "count.k") {
			case 0:
				count = intn(rt, 0, 10, "count")
			case 1:
				count = intn(rt, 0, 40, "count")
			case 2: // nearly as many as fit in an internal buffer
				count = max(0, fit-pick(rt, "below", 0, 0, 0, 1, 2, intn(rt, 0, fit/4, "count")))
			default:
				count = fit + intn(rt, 1, 60, "count")
			}
			a, _ := drawAccessor(rt, shared, k, count, "a")
			shared.Accessors = append(shared.Accessors, a)
			accs = append(accs, a)
		}
		for i, b := range shared.Buffers {
			switch pick(rt, "buffer", "none", "external", "embedded") {
			case "external":
				b.URI = fmt.Sprintf("dir/buf %d.bin", i)
			case "embedded":
				b.EmbeddedResource()
			}
		}
		var texts [][]byte
		for i, n := 0, intn(rt, 1, 3, "texts"); i < n; i++ {
			g := newDocGen(rt)
			b, err := encode(g.doc(bufEmbedded, bufNoURI), rapid.Bool().Draw(rt, "glb"), nil)
			if err != nil {
				rt.Fatalf("HARNESS-ERROR %v", err)
			}
			texts = append(texts, b)
		}
		if len(shared.Buffers) > 0 {
			b, err := encode(cloneDoc(shared), rapid.Bool().Draw(rt, "glb"), nil)
			if err != nil {
				rt.Fatalf("Encode: %v", err)
			}
			texts = append(texts, b)
		}
		var inputs []vdata
		for i, n := 0, intn(rt, 1, 3, "inputs"); i < n; i++ {
			inputs = append(inputs, drawData(rt, "input", intn(rt, 1, 20, "n"), false, allElems...))
		}
		gs := make([][]job, intn(rt, 2, 6, "goroutines"))
		own := make([][]bool, len(gs))
		total, kinds := 0, map[string]bool{}
		var show strings.Builder
		for g := range gs {
			gs[g] = drawJobs(rt, g, shared, accs, texts, inputs)
			total += len(gs[g])
			fmt.Fprintf(&show, "goroutine %d:", g)
			for _, j := range gs[g] {
				kinds[strings.FieldsFunc(j.what, func(r rune) bool { return r == '(' || r == ' ' })[0]] = true
				own[g] = append(own[g], j.own && chance(rt, 30, "overwrite"))
				fmt.Fprintf(&show, " %s;", j.what)
			}
			show.WriteString("\n")
		}
		rounds := intn(rt, 1, 3, "rounds")
		c.Key(show.String(), rounds)
		for _, a := range accs {
			c.Key(accText(shared, a))
		}
		c.NonTrivial(total >= 4 && len(kinds) >= 2)
		for k := range kinds {
			c.Label(k)
		}
		c.Sample("%s", show.String())

		frozen := cloneDoc(shared)
		want := make([][]string, len(gs))
		alone := func() {
			for g := range gs {
				for _, j := range gs[g] {
					want[g] = append(want[g], fingerprint(j.do()))
				}
			}
		}
		// Whatever is set up lazily by the first use is set up either by a single goroutine or by all together.
		cold := rapid.Bool().Draw(rt, "cold")
		if !cold {
			alone()
		} else {
			c.Label("together before alone")
		}
		// together
		type kept struct {
			g, i int
			v    any
		}
		var mu sync.Mutex
		var results []kept
		got := make([][][]string, len(gs))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := range gs {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				var mine []kept
				for r := 0; r < rounds; r++ {
					var fps []string
					for i, j := range gs[g] {
						v := j.do()
						fps = append(fps, fingerprint(v))
						if own[g][i] {
							overwrite(v)
						} else {
							mine = append(mine, kept{g, i, v})
						}
						runtime.Gosched()
					}
					got[g] = append(got[g], fps)
				}
				mu.Lock()
				defer mu.Unlock()
				results = append(results, mine...)
			}(g)
		}
		close(start)
		wg.Wait()
		if cold {
			alone()
		}
		for g := range gs {
			for r := range got[g] {
				for i, fp := range got[g][r] {
					if fp != want[g][i] {
						rt.Fatalf("%s in goroutine %d gives\n%s\nand alone it gives\n%s\n%s", gs[g][i].what, g, shorten(fp), shorten(want[g][i]), show.String())
					}
				}
			}
		}
		// once more, after which the results already returned are still the same
		for g := range gs {
			for i, j := range gs[g] {
				v := j.do()
				if own[g][i] {
					overwrite(v)
				}
			}
		}
		for _, k := range results {
			if fp := fingerprint(k.v); fp != want[k.g][k.i] {
				rt.Fatalf("the result of %s in goroutine %d changed to\n%s\nfrom\n%s\n%s", gs[k.g][k.i].what, k.g, shorten(fp), shorten(want[k.g][k.i]), show.String())
			}
		}
		if d := sameLoaded("shared document", reflect.ValueOf(frozen), reflect.ValueOf(shared)); d != "" {
			rt.Fatalf("%s\n%s", d, show.String())
		}
		if n := raceErrors() - before; n > 0 {
			rt.Fatalf("%d data races\n%s", n, show.String())
		}
	})
}
