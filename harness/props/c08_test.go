package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"
)

// stream is a generated input of the decoder together with what it describes.
type stream struct {
	b    []byte
	glb  bool
	doc  *gltf.Document // the document described
	fs   *memFS
	json int // GLB: end of the JSON text; JSON: end of the JSON value
	jEnd int // GLB: end of the JSON chunk
	bin  int // GLB: end of the declared data of the first buffer, 0 without binary chunk
	note string
}

// drawStream draws a document and renders it independently of the encoder.
func drawStream(rt *rapid.T) *stream {
	s := &stream{fs: newMemFS(), glb: rapid.Bool().Draw(rt, "glb")}
	g := newDocGen(rt)
	if chance(rt, 60, "tiny") {
		d := &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: strings.Repeat("x", intn(rt, 0, 5, "gen"))}}
		for i, k := 0, intn(rt, 0, 2, "bufs"); i < k; i++ {
			d.Buffers = append(d.Buffers, g.buffer(i, bufEmbedded, bufExternal))
		}
		s.doc = d
	} else {
		s.doc = g.doc(bufEmbedded, bufExternal)
	}
	d := s.doc
	if s.glb && (len(d.Buffers) == 0 || chance(rt, 60, "bin")) {
		data := payload(rt, bufLen(rt, "bin.len"), "bin.data")
		d.Buffers = append([]*gltf.Buffer{{ByteLength: len(data), Data: data}}, d.Buffers...)
	}
	for _, b := range d.Buffers {
		if b.URI != "" && !strings.HasPrefix(b.URI, "data:") {
			s.fs.files[b.URI] = b.Data
			if chance(rt, 30, "longer file") {
				s.fs.files[b.URI] = append(append([]byte{}, b.Data...), payload(rt, intn(rt, 1, 9, "more"), "more")...)
			}
		}
	}
	js := drawSpelling(rt, specDoc(d))
	if chance(rt, 15, "first member") { // unknown members that resemble the container
		js = bytes.Replace(js, []byte("{"), []byte(pick(rt, "first", `{"glTF":1,`, `{"glTF_Tool":"x",`, `{ "glTF":null,`, `{"JSON":2,`, `{"BIN\u0000":[],`, `{"\u0000":"glTF",`, `{"a":"glTF\u0002\u0000",`)), 1)
	}
	if !s.glb {
		lead := pick(rt, "lead", "", "", " ", "\n\n", " \t ", "\r\n\r\n", "            ", strings.Repeat(" ", 5000), strings.Repeat(" ", 70000))
		s.b = append([]byte(lead), js...)
		s.json = len(lead) + len(bytes.TrimRight(js, " \t\r\n"))
		if chance(rt, 20, "trailing") {
			s.b = append(s.b, pick(rt, "tail", "\n", "   ", "\r\n\t")...)
		}
		return s
	}
	text := bytes.TrimRight(js, " \t\r\n")
	chunk := pad(text, ' ')
	switch pick(rt, "padding", 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 6) {
	case 6: // longer than any internal buffer
		chunk = append(chunk, bytes.Repeat([]byte{' '}, 4*pick(rt, "pad", 1<<14-1, 1<<14, 1<<14+1, 1<<15, 40000, 1<<16, 1<<16+1000))...)
		s.note = "JSON padding of 64 to 260 KiB"
	case 3:
		chunk = append(chunk, bytes.Repeat([]byte{' '}, 4*intn(rt, 1, 20, "pad"))...)
		s.note = "JSON padding <=80 bytes"
	case 4:
		chunk = append(chunk, bytes.Repeat([]byte{' '}, 4*intn(rt, 100, 600, "pad"))...)
		s.note = "JSON padding up to 2400 bytes"
	case 5:
		chunk = append(chunk, bytes.Repeat([]byte{' '}, 4*intn(rt, 1000, 3000, "pad"))...)
		s.note = "JSON padding >=4000 bytes"
	}
	s.json = 20 + len(text)
	s.jEnd = 20 + len(chunk)
	chunks := []glbChunk{{chunkJSON, chunk}}
	if len(d.Buffers) > 0 && d.Buffers[0].URI == "" {
		bin := pad(d.Buffers[0].Data, 0)
		if chance(rt, 20, "longer bin") {
			bin = append(bin, payload(rt, 4*pick(rt, "binpad", 1, 2, 3, 5, 8, 15, 20), "binpad")...)
		}
		chunks = append(chunks, glbChunk{chunkBIN, bin})
		s.bin = s.jEnd + 8 + d.Buffers[0].ByteLength
	}
	s.b = buildGLB(chunks...)
	return s
}

func (s *stream) key(c *Case) {
	c.Key(s.b)
	c.LabelIf(s.glb, "GLB")
	c.LabelIf(s.bin > 0, "binary chunk")
	c.LabelIf(s.note != "", s.note)
	c.Sample("%d bytes, glb=%v, JSON ends at %d, data ends at %d: %q", len(s.b), s.glb, s.json, s.bin, trunc(s.b))
}

// mutate changes a few bytes of b.
func mutate(rt *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for i, k := 0, intn(rt, 1, 3, "edits"); i < k && len(b) > 0; i++ {
		p := intn(rt, 0, len(b)-1, "pos")
		if rapid.Bool().Draw(rt, "header") {
			p = intn(rt, 0, min(len(b)-1, 40), "hpos")
		}
		switch intn(rt, 0, 6, "edit") {
		case 0:
			b[p] = byte(intn(rt, 0, 255, "byte"))
		case 1:
			b[p] ^= 1 << intn(rt, 0, 7, "bit")
		case 2:
			b = append(b[:p], b[min(len(b), p+intn(rt, 1, 8, "del")):]...)
		case 3:
			ins := pick(rt, "ins", "null", "-", "0", "{", "}", "[", "]", "\"", ",", "9", "e9", "data:", "%", "\\", "/", "..", "\x00", "\xff")
			b = append(b[:p], append([]byte(ins), b[p:]...)...)
		case 4:
			q := min(len(b), p+intn(rt, 1, 40, "dup"))
			b = append(b[:q], append(append([]byte{}, b[p:q]...), b[q:]...)...)
		case 5:
			b = b[:p]
		case 6:
			p = p / 4 * 4
			if p+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[p:], pick(rt, "u32", 0, 1, 0xffffffff, 0x7fffffff, 0x80000000, uint32(len(b)), uint32(len(b)-20), uint32(len(b)-19), 0xfffffff0, chunkBIN, chunkJSON))
			}
		}
	}
	return b
}

func sameOutcome(rt *rapid.T, what string, d1 *gltf.Document, e1 error, d2 *gltf.Document, e2 error) {
	if (e1 == nil) != (e2 == nil) {
		rt.Fatalf("%s: error %v, but the whole stream at once gives error %v", what, e2, e1)
	}
	if e1 == nil && !reflect.DeepEqual(d1, d2) {
		df := diffJSON("doc", specDoc(d1), specDoc(d2))
		for i := range d1.Buffers {
			if df == "" && i < len(d2.Buffers) && !bytes.Equal(d1.Buffers[i].Data, d2.Buffers[i].Data) {
				df = fmt.Sprintf("buffer %d: %x vs %x", i, trunc(d1.Buffers[i].Data), trunc(d2.Buffers[i].Data))
			}
		}
		rt.Fatalf("%s: a different document than the whole stream at once: %s", what, df)
	}
}

func TestC08Chunking(t *testing.T) {
	Prop(t, Opt{Quick: 2500, Rule: "case = glTF or GLB byte stream (valid, mutated or truncated; JSON chunk padding from 0 to 260 KiB; trailing bytes) decoded whole and through 4 readers that split it differently (single bytes, fixed and random chunks, splits, data together with EOF, empty reads); non-trivial = stream longer than 20 bytes; distinct by bytes and reader"}, func(rt *rapid.T, c *Case) {
		s := drawStream(rt)
		b := s.b
		c.NonTrivial(len(b) > 20)
		mutated := chance(rt, 25, "mutate")
		if mutated {
			b = mutate(rt, b)
			c.Label("mutated")
		}
		if chance(rt, 20, "garbage") {
			b = append(append([]byte{}, b...), payload(rt, intn(rt, 1, 50, "garbage.len"), "garbage")...)
			c.Label("trailing bytes")
		}
		s.key(c)
		d1, e1 := decode(b, s.fs)
		if !mutated {
			if e1 != nil {
				rt.Fatalf("Decode of a valid stream: %v", e1)
			}
			if df := diffJSON("doc", specDoc(s.doc), specDoc(d1)); df != "" {
				rt.Fatalf("decoded document differs: %s", df)
			}
			for i, x := range s.doc.Buffers {
				if !bytes.Equal(x.Data, d1.Buffers[i].Data) {
					rt.Fatalf("buffer %d: want %x, got %x", i, trunc(x.Data), trunc(d1.Buffers[i].Data))
				}
			}
		}
		c.LabelIf(e1 != nil, "rejected streams")
		if !needsFS(s.doc) && !mutated {
			c.Label("NewDecoder")
			d2, e2 := decode(b, nil)
			sameOutcome(rt, "NewDecoder", d1, e1, d2, e2)
		}
		for i := 0; i < 4; i++ {
			r, name := drawReader(rt, b)
			c.Key(name, fmt.Sprint(r.sizes))
			c.Label("reader " + name)
			d2 := new(gltf.Document)
			e2 := gltf.NewDecoderFS(r, s.fs).Decode(d2)
			sameOutcome(rt, fmt.Sprintf("reader %s %v dataEOF=%v", name, r.sizes, r.dataEOF), d1, e1, d2, e2)
		}
	})
}

func TestC08Trailing(t *testing.T) {
	Prop(t, Opt{Quick: 2000, Rule: "case = valid GLB with a binary chunk, followed by further chunks or arbitrary bytes, with and without them in the declared length; non-trivial = at least one byte follows; distinct by bytes"}, func(rt *rapid.T, c *Case) {
		s := drawStream(rt)
		s.key(c)
		if s.bin == 0 {
			return
		}
		d1, e1 := decode(s.b, s.fs)
		if e1 != nil {
			rt.Fatalf("Decode of a valid stream: %v", e1)
		}
		var tail []byte
		if rapid.Bool().Draw(rt, "chunk") {
			data := payload(rt, 4*intn(rt, 0, 20, "tail.len"), "tail")
			tail = binary.LittleEndian.AppendUint32(tail, uint32(len(data)))
			tail = binary.LittleEndian.AppendUint32(tail, pick[uint32](rt, "type", chunkBIN, chunkJSON, 0x12345678))
			tail = append(tail, data...)
		} else {
			tail = payload(rt, intn(rt, 1, 5000, "tail.len"), "tail")
		}
		b := append(append([]byte{}, s.b...), tail...)
		if rapid.Bool().Draw(rt, "declared") {
			binary.LittleEndian.PutUint32(b[8:], uint32(len(b)))
		}
		c.NonTrivial(true)
		c.Key(tail)
		d2, e2 := decode(b, s.fs)
		sameOutcome(rt, "with trailing bytes", d1, e1, d2, e2)
	})
}

// ---------------------------------------------------------------- C09

// checkAccepted states what every accepted document satisfies.
func checkAccepted(rt *rapid.T, d *gltf.Document, what string) {
	for i, b := range d.Buffers {
		if b == nil {
			rt.Fatalf("%s: accepted with null buffer %d", what, i)
		}
		if b.ByteLength <= 0 {
			rt.Fatalf("%s: accepted with byteLength %d", what, b.ByteLength)
		}
		if b.URI == "" && (i > 0 || len(b.Data) != b.ByteLength) {
			rt.Fatalf("%s: accepted buffer %d without URI, %d bytes of data, byteLength %d", what, i, len(b.Data), b.ByteLength)
		}
	}
	for i, a := range d.Accessors {
		if a != nil && accessorCode[a.Type] == "" {
			rt.Fatalf("%s: accepted accessor %d with type %d", what, i, a.Type)
		}
	}
}

func TestC09Bytes(t *testing.T) {
	Prop(t, Opt{Quick: 8000, Rule: "case = valid glTF or GLB stream with 1-3 random byte edits (overwrite, flip, delete, insert token, duplicate, truncate, extreme 32-bit header fields); non-trivial = the stream differs from the valid one; distinct by bytes"}, func(rt *rapid.T, c *Case) {
		s := drawStream(rt)
		b := mutate(rt, s.b)
		c.NonTrivial(!bytes.Equal(b, s.b))
		c.Key(b)
		c.Sample("%q", trunc(b))
		d, err := decode(b, s.fs)
		c.LabelIf(err == nil, "accepted")
		c.LabelIf(err != nil, "rejected")
		if err == nil {
			checkAccepted(rt, d, "mutated bytes")
		}
	})
}

func TestC09Random(t *testing.T) {
	Prop(t, Opt{Quick: 4000, Rule: "case = arbitrary bytes, with or without a GLB header in front; non-trivial = at least 12 bytes; distinct by bytes"}, func(rt *rapid.T, c *Case) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "bytes")
		if rapid.Bool().Draw(rt, "header") {
			h := append([]byte("glTF\x02\x00\x00\x00"), b...)
			if len(h) >= 20 {
				binary.LittleEndian.PutUint32(h[8:], pick(rt, "total", uint32(len(h)), 0xffffffff, 20, 19, 0))
				binary.LittleEndian.PutUint32(h[12:], pick(rt, "json", uint32(len(h)-20), 0, 1, 0xffffffff, 0xffffffec))
				binary.LittleEndian.PutUint32(h[16:], chunkJSON)
			}
			b = h
		}
		c.NonTrivial(len(b) >= 12)
		c.Key(b)
		d, err := decode(b, newMemFS())
		if err == nil {
			checkAccepted(rt, d, "random bytes")
		}
	})
}

var hostileValues = []any{nil, true, false, "", "x", "data:", "data:;base64,", "data:application/octet-stream;base64,", "data:application/octet-stream;base64,AA=", "\x00",
	-1., 0., 1., 0.5, 1e300, -1e300, float64(math.MinInt64), float64(1 << 53), 9.2e18, float64(math.MaxInt32), float64(math.MinInt32), 1e19, A{}, M{}, A{nil}, A{A{}}, A{M{}}, M{"": nil}, M{"extensions": nil},
	A{1., 2., 3.}, A{0., 0., 0., 0., 0., 0., 0., 0., 0., 0., 0., 0., 0., 0., 0., 0., 0.}, "VEC5", "SCALAR", 5121., 99999.}

// treePaths lists the paths of all nodes of a JSON tree.
func treeNodes(v any, visit func(set func(any))) {
	switch v := v.(type) {
	case M:
		for _, k := range sortedKeys(v) {
			visit(func(x any) { v[k] = x })
			treeNodes(v[k], visit)
		}
	case A:
		for i := range v {
			visit(func(x any) { v[i] = x })
			treeNodes(v[i], visit)
		}
	}
}

func TestC09Tree(t *testing.T) {
	Prop(t, Opt{Quick: 8000, Rule: "case = glTF document in which 1-4 JSON nodes are replaced by hostile values (null, wrong types, extreme numbers, empty and huge arrays), as JSON or inside a GLB with a binary chunk; non-trivial = at least one node replaced; distinct by text"}, func(rt *rapid.T, c *Case) {
		fs := newMemFS()
		g := newDocGen(rt)
		d := g.doc(bufEmbedded, bufExternal, bufNoURI, bufNoURI)
		m := toGeneric(specDoc(d)).(M)
		for i, k := 0, intn(rt, 1, 4, "edits"); i < k; i++ {
			var sets []func(any)
			treeNodes(m, func(set func(any)) { sets = append(sets, set) })
			// half of the edits concern buffers, accessors and images, which the decoder interprets
			if sub, ok := m[pick(rt, "part", "buffers", "accessors", "images", "nodes")].(A); ok && len(sub) > 0 && rapid.Bool().Draw(rt, "focus") {
				sets = nil
				treeNodes(sub, func(set func(any)) { sets = append(sets, set) })
			}
			sets[intn(rt, 0, len(sets)-1, "node")](toGeneric(hostileValues[intn(rt, 0, len(hostileValues)-1, "value")]))
		}
		for _, b := range d.Buffers {
			if b.URI != "" && !strings.HasPrefix(b.URI, "data:") {
				fs.files[b.URI] = b.Data
			}
		}
		b := mustJSON(m)
		c.Key(b)
		c.NonTrivial(true)
		c.Sample("%s", b)
		if rapid.Bool().Draw(rt, "glb") {
			b = buildGLB(glbChunk{chunkJSON, pad(b, ' ')}, glbChunk{chunkBIN, payload(rt, 4*intn(rt, 0, 10, "bin"), "bin")})
		}
		got, err := decode(b, fs)
		c.LabelIf(err == nil, "accepted")
		c.LabelIf(err != nil, "rejected")
		if err == nil {
			checkAccepted(rt, got, "hostile JSON")
		}
	})
}

func TestC09Truncation(t *testing.T) {
	Prop(t, Opt{Quick: 300, Rule: "case = valid stream of which every strict prefix is decoded (all cut points of small streams, 400 cut points of large ones); non-trivial = at least 20 cut points inside the JSON or the declared data; distinct by bytes"}, func(rt *rapid.T, c *Case) {
		s := drawStream(rt)
		s.key(c)
		must := s.json // every shorter prefix cuts the JSON
		if s.bin > 0 {
			must = s.bin
		}
		step := 1
		if must > 1500 {
			step = must/400 + 1
		}
		cuts := 0
		for k := must - 1; k >= 0; k -= step {
			cuts++
			_, err := decode(s.b[:k:k], s.fs)
			if err == nil {
				rt.Fatalf("the first %d of %d bytes are accepted (JSON ends at %d, declared data at %d)", k, len(s.b), s.json, s.bin)
			}
		}
		c.NonTrivial(cuts >= 20)
		// the rest may be cut
		if s.bin > 0 {
			for k := s.bin; k <= len(s.b); k++ {
				if _, err := decode(s.b[:k:k], s.fs); err != nil {
					rt.Fatalf("the first %d of %d bytes hold all declared data but are rejected: %v", k, len(s.b), err)
				}
				if k > s.bin+8 {
					k += 3
				}
			}
		}
	})
}

var digits = regexp.MustCompile(`\[[0-9]+\]`)

func TestC09Reject(t *testing.T) {
	dir := tempRoot(t)
	Prop(t, Opt{Quick: 3000, Rule: "case = valid stream with exactly one defect of a listed class; non-trivial = all; distinct by class and bytes"}, func(rt *rapid.T, c *Case) {
		s := drawStream(rt)
		d := s.doc
		type gen = func() []byte
		m := toGeneric(specDoc(d)).(M)
		render := func() []byte { // m again as a stream of the same form
			js := mustJSON(m)
			if !s.glb {
				return js
			}
			chunks := []glbChunk{{chunkJSON, pad(js, ' ')}}
			if s.bin > 0 {
				chunks = append(chunks, glbChunk{chunkBIN, pad(d.Buffers[0].Data, 0)})
			}
			return buildGLB(chunks...)
		}
		classes := map[string]gen{}
		u32 := func(b []byte, p int, v uint32) []byte {
			b = append([]byte{}, b...)
			binary.LittleEndian.PutUint32(b[p:], v)
			return b
		}
		if s.glb {
			classes["first chunk is not JSON"] = func() []byte {
				return u32(s.b, 16, pick(rt, "type", 0, chunkBIN, 0x4E4F534B, 0x6E6F736A, rapid.Uint32Range(0, chunkJSON-1).Draw(rt, "t")))
			}
			classes["JSON length exceeds total"] = func() []byte {
				total := binary.LittleEndian.Uint32(s.b[8:])
				return u32(s.b, 12, pick(rt, "len", total-19, total, 0xffffffff, 0xffffffec, 0xfffffff0, 0x80000000, total-19+rapid.Uint32Range(0, 1<<20).Draw(rt, "l")))
			}
			classes["JSON chunk ends inside the JSON"] = func() []byte {
				text := s.b[20:s.json]
				k := intn(rt, 0, len(text)-1, "cut")
				if rapid.Bool().Draw(rt, "near the end") {
					k = max(0, len(text)-intn(rt, 1, 12, "cut.end"))
				}
				chunks := []glbChunk{{chunkJSON, text[:k]}}
				if rapid.Bool().Draw(rt, "spaces") {
					chunks[0].data = pad(text[:k], ' ')
				}
				if s.bin > 0 {
					chunks = append(chunks, glbChunk{chunkBIN, pad(d.Buffers[0].Data, 0)})
				}
				if rapid.Bool().Draw(rt, "rest follows") {
					chunks = append([]glbChunk{chunks[0]}, glbChunk{chunkBIN, text[k:]})
				}
				return buildGLB(chunks...)
			}
			classes["total shorter than JSON"] = func() []byte {
				return u32(s.b, 8, pick(rt, "total", 0, 1, 12, 20, uint32(s.jEnd-1), rapid.Uint32Range(0, uint32(s.jEnd-1)).Draw(rt, "t")))
			}
		}
		if s.bin > 0 {
			classes["binary chunk of the wrong type"] = func() []byte {
				return u32(s.b, s.jEnd+4, pick(rt, "type", 0, chunkJSON, 0x004E4943, rapid.Uint32Range(0, chunkBIN-1).Draw(rt, "t")))
			}
			classes["binary chunk shorter than the buffer"] = func() []byte {
				return u32(s.b, s.jEnd, rapid.Uint32Range(0, uint32(d.Buffers[0].ByteLength-1)).Draw(rt, "l"))
			}
			classes["binary chunk missing"] = func() []byte { return s.b[:s.jEnd:s.jEnd] }
			classes["buffer longer than the binary chunk"] = func() []byte {
				m["buffers"].(A)[0].(M)["byteLength"] = float64(pick(rt, "l", 4+len(pad(d.Buffers[0].Data, 0)), 1<<32, 1<<31, 1<<53, 1<<62))
				return render()
			}
		}
		if len(d.Buffers) > 0 {
			i := intn(rt, 0, len(d.Buffers)-1, "buffer")
			bs := m["buffers"].(A)
			classes["null buffer"] = func() []byte {
				if rapid.Bool().Draw(rt, "append") {
					m["buffers"] = append(bs, nil)
				} else {
					bs[i] = nil
				}
				return render()
			}
			classes["non-positive byteLength"] = func() []byte {
				bs[i].(M)["byteLength"] = pick(rt, "l", 0., -1., -4., math.MinInt32, math.MinInt64)
				return render()
			}
			classes["missing byteLength"] = func() []byte {
				delete(bs[i].(M), "byteLength")
				return render()
			}
			if !(s.glb && i == 0) {
				classes["buffer without data source"] = func() []byte {
					if rapid.Bool().Draw(rt, "empty") {
						bs[i].(M)["uri"] = ""
					} else {
						delete(bs[i].(M), "uri")
					}
					return render()
				}
			}
		}
		classes["unknown accessor type"] = func() []byte {
			a := M{"componentType": 5126., "count": 1., "type": pick(rt, "type", "VEC5", "", "vec3", "SCALAR ", "MAT5", "Vec2", "MAT", "SCALA", "VEC1", "MAT1", "unknown", "0", text(rt, "type2")+"?")}
			l, _ := m["accessors"].(A)
			m["accessors"] = append(l, a)
			return render()
		}
		wrong := "property of the wrong JSON type"
		classes[wrong] = func() []byte {
			g := &objGen{t: rt, pct: pick(rt, "density", 20, 50, 80)}
			for i, l := 0, intn(rt, 0, 2, "collections"); i < l; i++ {
				key := pick(rt, "collection", "accessors", "animations", "asset", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes", "skins", "textures")
				m[key] = g.value("glTF."+key, schema["glTF"][key])
			}
			sites := typeSites("doc", "glTF", m, nil)
			if rapid.Bool().Draw(rt, "deep") { // below the top level
				var deep []typeSite
				for _, x := range sites {
					if strings.Contains(x.path[4:], ".") {
						deep = append(deep, x)
					}
				}
				sites = deep
			}
			x := sites[intn(rt, 0, len(sites)-1, "site")]
			x.obj[x.key] = wrongValue(rt, x.pd, x.obj[x.key])
			c.Label("wrong type at " + digits.ReplaceAllString(x.path, "[]"))
			return render()
		}
		names := sortedKeys(classes)
		names = append(names, wrong, wrong) // the largest class
		class := names[intn(rt, 0, len(names)-1, "class")]
		b := classes[class]()
		c.Label(class)
		c.Key(class, b)
		c.NonTrivial(true)
		c.Sample("%s: %q", class, trunc(b))
		got, err := decode(b, s.fs)
		if err == nil {
			rt.Fatalf("%s: accepted as %s\n%q", class, show(specDoc(got)), b[:min(len(b), 300)])
		}
		if chance(rt, 20, "open") {
			name := filepath.Join(dir, "f.gltf")
			if err := os.WriteFile(name, b, 0o644); err != nil {
				panic("harness: " + err.Error())
			}
			for _, x := range s.doc.Buffers {
				if n := x.URI; n != "" && !strings.HasPrefix(n, "data:") {
					os.WriteFile(filepath.Join(dir, n), x.Data, 0o644)
				}
			}
			if doc, err := gltf.Open(name); err == nil || doc != nil {
				rt.Fatalf("%s: Open returned %v, %v", class, doc, err)
			}
			c.Label("Open")
		}
	})
}

func TestC09Open(t *testing.T) {
	dir := tempRoot(t)
	Prop(t, Opt{Quick: 400, Rule: "case = file with valid, mutated or random content (or no file, or a directory) opened by name; non-trivial = the file exists; distinct by content"}, func(rt *rapid.T, c *Case) {
		s := drawStream(rt)
		b := s.b
		kind := pick(rt, "kind", "valid", "mutated", "mutated", "random", "missing", "dir")
		c.Label(kind)
		name := filepath.Join(dir, pick(rt, "name", "a.gltf", "a.glb", "noext"))
		os.RemoveAll(name)
		switch kind {
		case "mutated":
			b = mutate(rt, b)
		case "random":
			b = rapid.SliceOf(rapid.Byte()).Draw(rt, "random")
		case "dir":
			os.Mkdir(name, 0o755)
		}
		c.Key(kind, b)
		if kind != "missing" && kind != "dir" {
			c.NonTrivial(true)
			if err := os.WriteFile(name, b, 0o644); err != nil {
				panic("harness: " + err.Error())
			}
			for n, x := range s.fs.files {
				os.WriteFile(filepath.Join(dir, n), x, 0o644)
			}
			defer func() {
				for n := range s.fs.files {
					os.Remove(filepath.Join(dir, n))
				}
			}()
		}
		d, err := gltf.Open(name)
		if (d == nil) != (err != nil) {
			rt.Fatalf("%s: Open returned document %v and error %v", kind, d != nil, err)
		}
		switch kind {
		case "missing", "dir":
			if err == nil {
				rt.Fatalf("%s: no error", kind)
			}
		case "valid":
			if err != nil {
				rt.Fatalf("valid file: %v", err)
			}
			if df := diffJSON("doc", specDoc(s.doc), specDoc(d)); df != "" {
				rt.Fatalf("opened document differs: %s", df)
			}
		}
		if err == nil {
			checkAccepted(rt, d, "Open")
		}
	})
}
