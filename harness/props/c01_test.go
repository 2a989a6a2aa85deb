package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"
)

// checkLoaded compares a loaded document with the one that was saved.
func checkLoaded(rt *rapid.T, what string, saved, got *gltf.Document, binary bool) {
	want := specSaved(saved, binary)
	if d := diffJSON("doc", want, specDoc(got)); d != "" {
		rt.Fatalf("%s: document changed (saved vs loaded): %s", what, d)
	}
	for i, b := range saved.Buffers {
		if !bytes.Equal(b.Data, got.Buffers[i].Data) {
			rt.Fatalf("%s: buffer %d: saved %d bytes %x, loaded %d bytes %x", what, i, len(b.Data), trunc(b.Data), len(got.Buffers[i].Data), trunc(got.Buffers[i].Data))
		}
	}
}

func trunc(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func docCase(c *Case, d *gltf.Document) {
	s := describe(d)
	c.Key(s)
	for _, b := range d.Buffers {
		c.Key(b.Data)
	}
	c.NonTrivial(docSize(d) >= 2)
	c.LabelIf(docSize(d) >= 5, "docs with >=5 populated collections")
	c.LabelIf(len(d.Buffers) > 1, "several buffers")
	c.LabelIf(len(d.Buffers) > 0 && d.Buffers[0].URI == "", "first buffer without URI")
	c.Sample("%s", s)
}

const docRule = "case = random document (13 collections, extensions/extras, buffers with and without URI); non-trivial = at least two populated collections; distinct by full content"

func TestC01RoundTrip(t *testing.T) {
	Prop(t, Opt{Quick: 2500, Rule: docRule}, func(rt *rapid.T, c *Case) {
		g := newDocGen(rt)
		d := g.doc(bufNoURI, bufNoURI, bufEmbedded, bufExternal)
		docCase(c, d)
		c.LabelIf(g.sites > 0, "extensions or extras present")
		prefix, indent := "", ""
		if chance(rt, 40, "indent?") {
			prefix = pick(rt, "prefix", "", " ", "\t", "\n")
			indent = pick(rt, "indent", "", " ", "\t", "    ", "\r\n ")
			c.Label("prefix/indent set")
		}
		m := newMemFS()
		var buf bytes.Buffer
		e := gltf.NewEncoderFS(&buf, m)
		e.AsBinary = false
		if prefix != "" || indent != "" {
			e.SetJSONIndent(prefix, indent)
		}
		if err := e.Encode(d); err != nil {
			rt.Fatalf("Encode: %v", err)
		}
		got, err := reload(rt, d, buf.Bytes(), m)
		if err != nil {
			rt.Fatalf("Decode of encoded document: %v\n%s", err, buf.Bytes())
		}
		checkLoaded(rt, "json", d, got, false)
		if prefix != "" || indent != "" {
			plain, err := encode(d, false, newMemFS())
			if err != nil {
				rt.Fatalf("Encode: %v", err)
			}
			a, err1 := parseJSON(plain)
			b, err2 := parseJSON(buf.Bytes())
			if err1 != nil || err2 != nil {
				rt.Fatalf("output is not one JSON value: %v %v", err1, err2)
			}
			if df := diffJSON("json", a, b); df != "" {
				rt.Fatalf("indentation changed the content: %s", df)
			}
		}
	})
}

// One encoder used for several documents, and for one that changes in between.
func reuse(rt *rapid.T, c *Case, binary bool) {
	m := newMemFS()
	var buf bytes.Buffer
	e := gltf.NewEncoderFS(&buf, m)
	e.AsBinary = binary
	x := new(gltf.Document)
	for i, n := 0, intn(rt, 2, 4, "documents"); i < n; i++ {
		kinds := []int{bufNoURI, bufNoURI, bufEmbedded, bufExternal}
		how := pick(rt, "how", "new", "assigned", "edited", "data", "same")
		if i == 0 {
			how = "new"
		}
		c.Label(how)
		switch how {
		case "new":
			x = newDocGen(rt).doc(kinds...)
		case "assigned": // the same pointer
			*x = *newDocGen(rt).doc(kinds...)
		case "edited": // the same document, something deep inside
			y := newDocGen(rt)
			switch {
			case len(x.Nodes) > 0 && chance(rt, 50, "node"):
				*x.Nodes[len(x.Nodes)-1] = *y.node()
			case len(x.Materials) > 0:
				x.Materials[0] = y.material()
			default:
				x.Asset.Copyright += "x"
			}
		case "data": // the bytes of a buffer, in place
			for _, b := range x.Buffers {
				if len(b.Data) > 0 {
					b.Data[len(b.Data)-1] ^= 0x55
				}
			}
			for _, b := range x.Buffers {
				if b.IsEmbeddedResource() {
					b.URI = dataURI(b.Data)
				}
			}
		}
		if i > 0 && chance(rt, 20, "indent") {
			e.SetJSONIndent("", pick(rt, "indent", "", " ", "\t"))
		}
		if chance(rt, 20, "form") {
			e.AsBinary = !e.AsBinary
		}
		docCase(c, x)
		buf.Reset()
		clear(m.files)
		if err := e.Encode(x); err != nil {
			rt.Fatalf("document %d (%s): Encode: %v", i, how, err)
		}
		got, err := reload(rt, x, append([]byte{}, buf.Bytes()...), m)
		if err != nil {
			rt.Fatalf("document %d (%s): Decode: %v\n%s", i, how, err, trunc(buf.Bytes()))
		}
		checkLoaded(rt, fmt.Sprintf("document %d (%s)", i, how), x, got, e.AsBinary)
	}
}

const reuseRule = "case = one encoder that writes 2-4 documents, some of them the same one assigned, edited or with other data in between; non-trivial = a document with at least two populated collections; distinct by content"

func TestC01Reuse(t *testing.T) {
	Prop(t, Opt{Quick: 300, Rule: reuseRule}, func(rt *rapid.T, c *Case) { reuse(rt, c, false) })
}

func TestC02Reuse(t *testing.T) {
	Prop(t, Opt{Quick: 300, Rule: reuseRule}, func(rt *rapid.T, c *Case) { reuse(rt, c, true) })
}

// A document whose arrays are long and whose strings are large still round-trips.
func TestC01Large(t *testing.T) {
	Prop(t, Opt{Quick: 40, Thorough: 400, Rule: "case = document with long arrays (>100 entries) or strings >4 kB; non-trivial = all"}, func(rt *rapid.T, c *Case) {
		d := gltf.NewDocument()
		k := intn(rt, 100, 400, "k")
		seed := rapid.Uint64().Draw(rt, "seed")
		r := newRand(seed)
		for i := 0; i < k; i++ {
			nd := &gltf.Node{Name: strings.Repeat(string(rune('a'+r.n(26))), r.n(100)), Children: []int{r.n(k), r.n(k)}}
			for j := range nd.Translation {
				nd.Translation[j] = math.Float64frombits(r.u64()>>12 | 0x3ff0000000000000)
			}
			if r.n(2) == 0 {
				nd.Mesh = gltf.Index(r.n(10))
			}
			d.Nodes = append(d.Nodes, nd)
			d.Scenes[0].Nodes = append(d.Scenes[0].Nodes, r.n(k))
		}
		d.Extras = strings.Repeat("<&é", intn(rt, 1000, 4000, "extras"))
		data := payload(rt, intn(rt, 5000, 70000, "len"), "data")
		d.Buffers = []*gltf.Buffer{{ByteLength: len(data), Data: data}}
		c.Key(k, seed, len(data))
		c.NonTrivial(true)
		c.Sample("%d nodes, %d data bytes", k, len(data))
		for _, bin := range []bool{false, true} {
			b, err := encode(d, bin, nil)
			if err != nil {
				rt.Fatalf("Encode: %v", err)
			}
			got, err := decode(b, nil)
			if err != nil {
				rt.Fatalf("Decode: %v", err)
			}
			checkLoaded(rt, fmt.Sprintf("binary=%v", bin), d, got, bin)
		}
	})
}

// ---------------------------------------------------------------- C02

func TestC02RoundTrip(t *testing.T) {
	Prop(t, Opt{Quick: 2500, Rule: docRule}, func(rt *rapid.T, c *Case) {
		g := newDocGen(rt)
		d := g.doc(bufNoURI, bufNoURI, bufNoURI, bufEmbedded, bufExternal)
		docCase(c, d)
		m := newMemFS()
		b, err := encode(d, true, m)
		if err != nil {
			rt.Fatalf("Encode: %v", err)
		}
		got, err := reload(rt, d, b, m)
		if err != nil {
			rt.Fatalf("Decode of encoded GLB: %v", err)
		}
		checkLoaded(rt, "glb", d, got, true)
		// Loaded from the JSON form, the document is the same apart from where
		// the first buffer's bytes live.
		mj := newMemFS()
		bj, err := encode(d, false, mj)
		if err != nil {
			rt.Fatalf("Encode JSON: %v", err)
		}
		gotj, err := reload(rt, d, bj, mj)
		if err != nil {
			rt.Fatalf("Decode JSON: %v", err)
		}
		if len(d.Buffers) > 0 && d.Buffers[0].URI == "" {
			c.Label("binary chunk")
			c.Label(fmt.Sprintf("binary chunk length mod 4 = %d", d.Buffers[0].ByteLength%4))
			gotj.Buffers[0].URI = ""
		}
		if df := diffJSON("doc", specDoc(got), specDoc(gotj)); df != "" {
			rt.Fatalf("GLB and JSON forms load differently: %s", df)
		}
		for i := range got.Buffers {
			if !bytes.Equal(got.Buffers[i].Data, gotj.Buffers[i].Data) {
				rt.Fatalf("buffer %d differs between GLB and JSON forms", i)
			}
		}
	})
}

// GLB files of other writers: any JSON spelling and padding, a BIN chunk that is
// longer than the first buffer, trailing bytes.
// Binary chunks of many megabytes.
func TestC02Big(t *testing.T) {
	Each(t, "case = document with one buffer of 4 to 48 MiB, around the sizes where a reader might split its work, saved as GLB, loaded whole, through short reads, and cut before the end of the data; all are non-trivial", func(record func(c *Case)) {
		r := newRand(99)
		for _, n := range []int{1 << 22, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 5000, 1 << 25, 1<<25 + 3, 3<<24 - 1, 3 << 24, 3<<24 + 1} {
			data := make([]byte, n)
			for i := 0; i+8 <= n; i += 8 {
				binary.LittleEndian.PutUint64(data[i:], r.u64())
			}
			d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: n, Data: data}}}
			out, err := encode(d, true, nil)
			if err != nil {
				t.Fatalf("Encode of %d bytes: %v", n, err)
			}
			f, err := parseGLB(out)
			if err != nil {
				t.Fatalf("GLB with %d bytes: %v", n, err)
			}
			if len(f.chunks) != 2 || len(f.chunks[1].data) < n || !bytes.Equal(f.chunks[1].data[:n], data) {
				t.Fatalf("GLB doesn't contain the %d bytes", n)
			}
			for _, how := range []string{"whole", "short reads", "cut"} {
				c := new(Case)
				c.Key(n, how)
				c.NonTrivial(true)
				c.Sample("%d bytes, %s", n, how)
				var in io.Reader = bytes.NewReader(out)
				switch how {
				case "short reads":
					in = iotest.HalfReader(in)
				case "cut":
					in = bytes.NewReader(out[:len(out)-4-r.n(n-4)])
				}
				got := new(gltf.Document)
				err := gltf.NewDecoder(in).Decode(got)
				if how == "cut" {
					if err == nil {
						t.Fatalf("%d bytes, cut: no error", n)
					}
				} else if err != nil || len(got.Buffers) != 1 || !bytes.Equal(got.Buffers[0].Data, data) {
					t.Fatalf("%d bytes, %s: error %v, same data: false", n, how, err)
				}
				record(c)
			}
		}
	})
}

func TestC02Foreign(t *testing.T) {
	Prop(t, Opt{Quick: 1200, Rule: "case = GLB file of an independent writer (random JSON spelling, JSON padding of 0 to 260 KiB, BIN chunk up to 80 bytes longer than byteLength) decoded, saved as GLB and as JSON and decoded again; non-trivial = has a binary chunk; distinct by bytes"}, func(rt *rapid.T, c *Case) {
		s := drawStream(rt)
		s.key(c)
		c.NonTrivial(s.bin > 0)
		if !s.glb {
			return
		}
		same := func(what string, got *gltf.Document, want M) {
			if df := diffJSON("doc", want, specDoc(got)); df != "" {
				rt.Fatalf("%s: document changed: %s", what, df)
			}
			for i, b := range s.doc.Buffers {
				if g := got.Buffers[i]; !bytes.Equal(b.Data, g.Data) {
					rt.Fatalf("%s: buffer %d holds %d bytes %x, want %d bytes %x", what, i, len(g.Data), trunc(g.Data), len(b.Data), trunc(b.Data))
				}
			}
		}
		got, err := reload(rt, s.doc, s.b, s.fs)
		if err != nil {
			rt.Fatalf("Decode: %v", err)
		}
		same("load", got, specDoc(s.doc))
		for _, bin := range []bool{true, false} {
			m := newMemFS()
			b, err := encode(got, bin, m)
			if err != nil {
				rt.Fatalf("Encode: %v", err)
			}
			again, err := decode(b, m)
			if err != nil {
				rt.Fatalf("Decode of the saved document: %v", err)
			}
			same(fmt.Sprintf("load, save (binary=%v), load", bin), again, specSaved(s.doc, bin))
		}
	})
}

// ---------------------------------------------------------------- C03

func TestC03Container(t *testing.T) {
	Prop(t, Opt{Quick: 3000, Rule: docRule}, func(rt *rapid.T, c *Case) {
		g := newDocGen(rt)
		var d *gltf.Document
		if chance(rt, 30, "tiny") { // tiny documents: all residues of the JSON length
			d = &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: strings.Repeat("x", intn(rt, 0, 9, "gen"))}}
			for i, k := 0, intn(rt, 0, 2, "bufs"); i < k; i++ {
				d.Buffers = append(d.Buffers, g.buffer(i, bufNoURI, bufNoURI, bufEmbedded))
			}
		} else {
			d = g.doc(bufNoURI, bufNoURI, bufNoURI, bufEmbedded, bufExternal, bufExternalNoData)
		}
		docCase(c, d)
		var buf bytes.Buffer
		e := gltf.NewEncoderFS(&buf, newMemFS())
		if chance(rt, 15, "indent?") {
			e.SetJSONIndent("", pick(rt, "indent", " ", "\t"))
		}
		if err := e.Encode(d); err != nil { // binary is the Encoder's default
			rt.Fatalf("Encode: %v", err)
		}
		f, err := parseGLB(buf.Bytes())
		if err != nil {
			rt.Fatalf("not a conforming GLB: %v\n% x", err, trunc(buf.Bytes()))
		}
		js := bytes.TrimRight(f.chunks[0].data, " ")
		if len(f.chunks[0].data)-len(js) > 3 {
			rt.Fatalf("JSON chunk padded with %d spaces", len(f.chunks[0].data)-len(js))
		}
		if len(js) == 0 || js[len(js)-1] != '}' {
			rt.Fatalf("JSON chunk is not padded with spaces: ends with %q", js[max(0, len(js)-8):])
		}
		v, err := parseJSON(js)
		if err != nil {
			rt.Fatalf("JSON chunk: %v", err)
		}
		c.Label(fmt.Sprintf("JSON length mod 4 = %d", len(js)%4))
		var errs []string
		got := conform("doc", "glTF", v, &errs)
		if len(errs) > 0 {
			rt.Fatalf("JSON chunk does not conform: %v", errs)
		}
		if df := diffJSON("doc", specSaved(d, true), got); df != "" {
			rt.Fatalf("JSON chunk differs from the document: %s", df)
		}
		if len(d.Buffers) > 0 && d.Buffers[0].URI == "" {
			c.Label(fmt.Sprintf("BIN length mod 4 = %d", d.Buffers[0].ByteLength%4))
			if len(f.chunks) != 2 || f.chunks[1].typ != chunkBIN {
				rt.Fatalf("want exactly JSON and BIN chunks, got %d chunks", len(f.chunks))
			}
			bin, data := f.chunks[1].data, d.Buffers[0].Data
			if len(bin) < len(data) || len(bin)-len(data) > 3 {
				rt.Fatalf("BIN chunk of %d bytes for a buffer of %d", len(bin), len(data))
			}
			if !bytes.Equal(bin[:len(data)], data) {
				rt.Fatalf("BIN chunk does not hold the buffer bytes")
			}
			for _, x := range bin[len(data):] {
				if x != 0 {
					rt.Fatalf("BIN chunk is not padded with zeros: % x", bin[len(data):])
				}
			}
		} else if len(f.chunks) != 1 {
			c.Label("no BIN chunk")
			rt.Fatalf("want no BIN chunk, got %d chunks", len(f.chunks))
		}
	})
}

// A first buffer whose data doesn't have its byteLength can't be carried by a
// binary chunk: either the document is refused or the container is well formed.
func TestC03Mismatch(t *testing.T) {
	Prop(t, Opt{Quick: 500, Rule: "case = document whose first buffer has no URI and data that is shorter or longer than its byteLength; non-trivial = all; distinct by content and byteLength"}, func(rt *rapid.T, c *Case) {
		d := newDocGen(rt).doc(bufNoURI)
		if len(d.Buffers) == 0 {
			d.Buffers = []*gltf.Buffer{{ByteLength: 5, Data: []byte("hello")}}
		}
		b := d.Buffers[0]
		n := len(b.Data)
		b.ByteLength = pick(rt, "byteLength", n+1, n+3, n+4, n-1, n-4, n/2, 2*n, 0, -1, -n, 1<<32+n, intn(rt, 1, 3*n, "any"))
		if chance(rt, 20, "no data") {
			b.Data, b.ByteLength = nil, n
		}
		if b.ByteLength == len(b.Data) {
			b.ByteLength++
		}
		docCase(c, d)
		c.Key(b.ByteLength)
		c.NonTrivial(true)
		c.LabelIf(len(b.Data) == 0, "no data")
		c.LabelIf(b.ByteLength < len(b.Data), "longer")
		var buf bytes.Buffer
		if err := gltf.NewEncoder(&buf).Encode(d); err != nil {
			c.Label("refused")
			return
		}
		if f, err := parseGLB(buf.Bytes()); err != nil {
			rt.Fatalf("byteLength %d with %d bytes of data: not a conforming GLB: %v\n% x", b.ByteLength, len(b.Data), err, trunc(buf.Bytes()))
		} else if len(f.chunks) != 2 || f.chunks[1].typ != chunkBIN || len(f.chunks[1].data) < b.ByteLength || len(f.chunks[1].data)-b.ByteLength > 3 {
			rt.Fatalf("byteLength %d with %d bytes of data: %d chunks", b.ByteLength, len(b.Data), len(f.chunks))
		}
	})
}

// ---------------------------------------------------------------- C04

func TestC04EncodeVocabulary(t *testing.T) {
	Prop(t, Opt{Quick: 2500, Rule: docRule}, func(rt *rapid.T, c *Case) {
		d := newDocGen(rt).doc(bufNoURI, bufEmbedded, bufExternal, bufExternalNoData, bufAbsolute)
		docCase(c, d)
		b, err := encode(d, false, newMemFS())
		if err != nil {
			rt.Fatalf("Encode: %v", err)
		}
		v, err := parseJSON(b)
		if err != nil {
			rt.Fatalf("output is not one JSON value: %v\n%s", err, b)
		}
		var errs []string
		got := conform("doc", "glTF", v, &errs)
		if len(errs) > 0 {
			sort.Strings(errs)
			rt.Fatalf("output does not conform to glTF 2.0: %v", errs)
		}
		if df := diffJSON("doc", specSaved(d, false), got); df != "" {
			rt.Fatalf("output (right) does not describe the document (left): %s", df)
		}
	})
}

// rnd expands one drawn seed; used where thousands of tiny choices are needed.
type rnd struct{ s uint64 }

func newRand(s uint64) *rnd { return &rnd{s} }
func (r *rnd) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rnd) n(n int) int { return int(r.u64() % uint64(n)) }

// spell writes v as JSON text in one of its many spellings.
type speller struct {
	r       *rnd
	b       strings.Builder
	plain   bool // no variation
	unknown bool // insert unknown members
	defs    int  // percentage of defaults to spell out
}

func (s *speller) ws() {
	if s.plain || s.r.n(4) != 0 {
		return
	}
	s.b.WriteString([]string{" ", "\n", "\t", "\r\n", "   "}[s.r.n(5)])
}

func (s *speller) str(x string) {
	if s.plain || s.r.n(3) != 0 {
		s.b.Write(mustJSON(x))
		return
	}
	s.b.WriteByte('"')
	for _, r := range x {
		switch {
		case r > 0xffff:
			r -= 0x10000
			fmt.Fprintf(&s.b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		case r < 0x20 || r == '"' || r == '\\' || s.r.n(3) == 0:
			fmt.Fprintf(&s.b, `\u%04x`, r)
		default:
			s.b.WriteRune(r)
		}
	}
	s.b.WriteByte('"')
}

func (s *speller) value(v any) {
	s.ws()
	switch v := v.(type) {
	case nil:
		s.b.WriteString("null")
	case bool:
		fmt.Fprint(&s.b, v)
	case string:
		s.str(v)
	case float64:
		s.num(v, false)
	case []any:
		s.b.WriteByte('[')
		for i, x := range v {
			if i > 0 {
				s.b.WriteByte(',')
			}
			s.value(x)
		}
		s.ws()
		s.b.WriteByte(']')
	case map[string]any:
		s.object("", v)
	default:
		panic(fmt.Sprintf("harness: %T", v))
	}
	s.ws()
}

func (s *speller) num(f float64, integer bool) {
	if integer {
		s.b.WriteString(strconv.FormatInt(int64(f), 10))
		return
	}
	switch k := s.r.n(6); {
	case s.plain || k < 3:
		s.b.Write(mustJSON(f))
	case k == 3:
		s.b.WriteString(strconv.FormatFloat(f, 'e', -1, 64))
	case k == 4:
		s.b.WriteString(strconv.FormatFloat(f, 'E', 20, 64))
	default:
		if math.Abs(f) < 1e15 && f == math.Trunc(f) {
			s.b.WriteString(strconv.FormatFloat(f, 'f', 1, 64))
		} else {
			s.b.Write(mustJSON(f))
		}
	}
}

// object writes an object of the given kind ("" for free-form).
func (s *speller) object(k string, m map[string]any) {
	kd := schema[k]
	type member struct {
		key string
		pd  pdef
		val any
	}
	var ms []member
	for key, v := range m {
		ms = append(ms, member{key, kd[key], v})
	}
	var defs []string
	for key, pd := range kd {
		if _, ok := m[key]; !ok && pd.def != nil {
			defs = append(defs, key)
		}
	}
	sort.Strings(defs)
	for _, key := range defs {
		if s.r.n(100) < s.defs {
			ms = append(ms, member{key, kd[key], kd[key].def})
		}
	}
	if s.unknown && k != "" && s.r.n(4) == 0 {
		ms = append(ms, member{[]string{"unknownProp", "x-future", "zzz"}[s.r.n(3)], pdef{typ: "any"}, []any{M{"a": n(1, 2)}, "s", nil, 3., M{"nodes": n(1)}}[s.r.n(5)]})
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].key < ms[j].key })
	if !s.plain {
		for i := len(ms) - 1; i > 0; i-- {
			j := s.r.n(i + 1)
			ms[i], ms[j] = ms[j], ms[i]
		}
	}
	s.b.WriteByte('{')
	for i, x := range ms {
		if i > 0 {
			s.b.WriteByte(',')
		}
		s.ws()
		s.str(x.key)
		s.ws()
		s.b.WriteByte(':')
		s.typed(x.pd, x.val)
	}
	s.ws()
	s.b.WriteByte('}')
}

func (s *speller) typed(pd pdef, v any) {
	s.ws()
	switch {
	case strings.HasPrefix(pd.typ, "obj:"):
		s.object(pd.typ[4:], v.(M))
	case pd.typ == "attrs":
		s.attrs(v.(M))
	case pd.typ == "arr:attrs":
		s.b.WriteByte('[')
		for i, x := range v.(A) {
			if i > 0 {
				s.b.WriteByte(',')
			}
			s.attrs(x.(M))
		}
		s.b.WriteByte(']')
	case strings.HasPrefix(pd.typ, "arr:"):
		s.b.WriteByte('[')
		for i, x := range v.(A) {
			if i > 0 {
				s.b.WriteByte(',')
			}
			if x == nil {
				s.b.WriteString("null")
			} else {
				s.object(pd.typ[4:], x.(M))
			}
		}
		s.b.WriteByte(']')
	case pd.typ == "[]int":
		s.b.WriteByte('[')
		for i, x := range v.(A) {
			if i > 0 {
				s.b.WriteByte(',')
			}
			s.num(x.(float64), true)
		}
		s.b.WriteByte(']')
	case pd.typ == "int" || strings.HasPrefix(pd.typ, "code:"):
		if f, ok := v.(float64); ok {
			s.num(f, true)
		} else {
			s.value(v)
		}
	default:
		s.value(v)
	}
	s.ws()
}

func (s *speller) attrs(m M) {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s.b.WriteByte('{')
	for i, k := range keys {
		if i > 0 {
			s.b.WriteByte(',')
		}
		s.str(k)
		s.b.WriteByte(':')
		s.num(m[k].(float64), true)
	}
	s.b.WriteByte('}')
}

func drawSpelling(rt *rapid.T, m M) []byte {
	s := &speller{r: newRand(rapid.Uint64().Draw(rt, "spelling")), plain: !chance(rt, 85, "vary?"), unknown: chance(rt, 50, "unknown?"), defs: pick(rt, "defs", 0, 30, 100)}
	s.ws()
	s.object("glTF", m)
	s.ws()
	return []byte(s.b.String())
}

func TestC04DecodeVocabulary(t *testing.T) {
	Prop(t, Opt{Quick: 2500, Rule: "case = random document rendered to glTF JSON by an independent writer with random key order, white space, escapes, number spelling, explicit defaults and unknown members; non-trivial = at least two populated collections; distinct by text"}, func(rt *rapid.T, c *Case) {
		d := newDocGen(rt).doc(bufEmbedded, bufExternal)
		m := newMemFS()
		for _, b := range d.Buffers {
			if !strings.HasPrefix(b.URI, "data:") {
				m.files[b.URI] = b.Data
			}
		}
		want := specDoc(d)
		txt := drawSpelling(rt, want)
		c.Key(txt)
		c.NonTrivial(docSize(d) >= 2)
		c.Sample("%s", txt)
		in := txt
		if chance(rt, 25, "glb") {
			c.Label("inside a GLB")
			in = buildGLB(glbChunk{chunkJSON, pad(txt, ' ')})
		}
		got, err := decode(in, m)
		if err != nil {
			rt.Fatalf("Decode: %v\n%s", err, txt)
		}
		if df := diffJSON("doc", want, specDoc(got)); df != "" {
			rt.Fatalf("decoded document (right) is not the one described (left): %s\n%s", df, txt)
		}
		for i, b := range d.Buffers {
			if !bytes.Equal(b.Data, got.Buffers[i].Data) {
				rt.Fatalf("buffer %d bytes differ", i)
			}
		}
	})
}

// ---------------------------------------------------------------- files on disk

// savedFile saves d with Save or SaveBinary at a drawn place, which may hold an
// older file, and returns the content of the file and the loaded document.
func savedFile(rt *rapid.T, c *Case, root string, d *gltf.Document, asBinary bool) ([]byte, *gltf.Document) {
	dir, err := os.MkdirTemp(root, "d")
	must(err)
	defer os.RemoveAll(dir)
	sub := pick(rt, "dir", "", "", "a b", "ü/x", "%41", "a.gltf")
	must(os.MkdirAll(filepath.Join(dir, sub), 0o755))
	file := pick(rt, "file", "m.gltf", "m.glb", "m", "a b%20.gltf", "é.bin", "m.GLB", ".gltf")
	name, back := docPath(rt, filepath.Join(dir, sub), file)
	defer back()
	var m *memFS
	for i := 0; ; i++ {
		m = newMemFS()
		want, err := encode(d, asBinary, m)
		if err != nil {
			rt.Fatalf("Encode: %v", err)
		}
		if i == 0 && rapid.Bool().Draw(rt, "exists") {
			c.Label("an older file is replaced")
			old := bytes.Repeat([]byte(pick(rt, "old", "{}", "glTF", " ", "\x00", "}")), 1+intn(rt, 0, len(want), "old.len"))
			must(os.WriteFile(name, old, 0o644))
		}
		save := gltf.Save
		if asBinary {
			save = gltf.SaveBinary
		}
		if err := save(d, name); err != nil {
			rt.Fatalf("saving %q: %v", name, err)
		}
		got, err := os.ReadFile(name)
		must(err)
		if !bytes.Equal(got, want) {
			rt.Fatalf("the file holds %d bytes, Encode writes %d: %q and %q", len(got), len(want), trunc(got), trunc(want))
		}
		for _, n := range m.names() {
			if b, _ := os.ReadFile(filepath.Join(filepath.Dir(name), filepath.FromSlash(n))); !bytes.Equal(b, m.files[n]) {
				rt.Fatalf("external file %q holds %d bytes, Encode writes %d", n, len(b), len(m.files[n]))
			}
		}
		doc, err := gltf.Open(name)
		if err != nil {
			rt.Fatalf("Open: %v", err)
		}
		if i == 1 || len(d.Nodes)+len(d.Meshes)+len(d.Materials) == 0 || !rapid.Bool().Draw(rt, "again") {
			return got, doc
		}
		// Save again with less content over the same file.
		c.Label("saved again with less content")
		x := *d
		x.Nodes, x.Meshes, x.Materials = nil, nil, nil
		*d = x
	}
}

func TestC01Disk(t *testing.T) {
	root := tempRoot(t)
	Prop(t, Opt{Quick: 200, Rule: docRule}, func(rt *rapid.T, c *Case) {
		d := newDocGen(rt).doc(bufNoURI, bufEmbedded, bufExternal)
		docCase(c, d)
		b, got := savedFile(rt, c, root, d, false)
		if _, err := parseJSON(b); err != nil {
			rt.Fatalf("the file is not one JSON value: %v", err)
		}
		checkLoaded(rt, "json file", d, got, false)
	})
}

func TestC02Disk(t *testing.T) {
	root := tempRoot(t)
	Prop(t, Opt{Quick: 200, Rule: docRule}, func(rt *rapid.T, c *Case) {
		d := newDocGen(rt).doc(bufNoURI, bufNoURI, bufEmbedded, bufExternal)
		docCase(c, d)
		_, got := savedFile(rt, c, root, d, true)
		checkLoaded(rt, "GLB file", d, got, true)
	})
}

func TestC03Disk(t *testing.T) {
	root := tempRoot(t)
	Prop(t, Opt{Quick: 200, Rule: docRule}, func(rt *rapid.T, c *Case) {
		d := newDocGen(rt).doc(bufNoURI, bufNoURI, bufEmbedded, bufExternal)
		docCase(c, d)
		b, _ := savedFile(rt, c, root, d, true)
		if _, err := parseGLB(b); err != nil {
			rt.Fatalf("the file is not a conforming GLB: %v\n% x", err, trunc(b))
		}
	})
}
