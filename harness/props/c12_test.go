package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"pgregory.net/rapid"
)

// errInjected is the error of the faults injected by the current case.
var errInjected = errors.New("injected fault")

type tempErr struct{}

func (tempErr) Error() string   { return "try again" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

// drawFault draws the error of the injected faults: also the well-known ones,
// which code might be tempted to treat as success.
func drawFault(rt *rapid.T, writing bool) {
	faults := []error{errors.New("injected fault"), tempErr{}, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress,
		fs.ErrNotExist, fs.ErrExist, fs.ErrPermission, fs.ErrClosed, fs.ErrInvalid, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC,
		&fs.PathError{Op: "read", Path: "x", Err: fs.ErrNotExist}, fmt.Errorf("wrapped: %w", io.EOF), errors.ErrUnsupported}
	if writing {
		faults = append(faults, io.EOF)
	}
	if chance(rt, 30, "plain fault") {
		errInjected = faults[0]
		return
	}
	errInjected = faults[intn(rt, 0, len(faults)-1, "fault error")]
}

// faultWriter fails at one point: at the Nth call (accepting part of the bytes),
// or when the total would exceed limit bytes; once or for ever.
type faultWriter struct {
	buf    bytes.Buffer
	calls  int
	at     int // failing call, -1: none
	limit  int // failing byte, -1: none
	part   int // bytes accepted by a failing call
	sticky bool
	failed bool
}

func (w *faultWriter) Write(b []byte) (int, error) {
	i := w.calls
	w.calls++
	if w.failed && w.sticky {
		return 0, errInjected
	}
	if !w.failed && w.at >= 0 && i == w.at {
		w.failed = true
		n := min(w.part, len(b))
		w.buf.Write(b[:n])
		return n, errInjected
	}
	if !w.failed && w.limit >= 0 && w.buf.Len()+len(b) > w.limit {
		w.failed = true
		n := w.limit - w.buf.Len()
		w.buf.Write(b[:n])
		return n, errInjected
	}
	return w.buf.Write(b)
}

// faultDoc draws a document with n external buffers.
func faultDoc(rt *rapid.T) *gltf.Document {
	g := newDocGen(rt)
	var d *gltf.Document
	if chance(rt, 70, "tiny") {
		d = &gltf.Document{Asset: gltf.Asset{Generator: strings.Repeat("x", intn(rt, 0, 5, "gen"))}}
		for i, k := 0, intn(rt, 0, 3, "bufs"); i < k; i++ {
			d.Buffers = append(d.Buffers, g.buffer(i, bufNoURI, bufEmbedded, bufExternal, bufExternal))
		}
	} else {
		d = g.doc(bufNoURI, bufEmbedded, bufExternal, bufExternal)
	}
	return d
}

func TestC12Write(t *testing.T) {
	Prop(t, Opt{Quick: 300, Thorough: 3000, Rule: "case = document; faults = every write call to the output (accepting 0, some or all bytes; once and for ever), every byte offset of small outputs (40 offsets of large ones), and create, first write and close of every external file; non-trivial = at least one fault was injected; distinct by document and form; label counts give the injected faults"}, func(rt *rapid.T, c *Case) {
		drawFault(rt, true)
		d := faultDoc(rt)
		docCase(c, d)
		c.NonTrivial(true)
		bin := rapid.Bool().Draw(rt, "bin")
		c.Key(bin)
		run := func(w *faultWriter, m *memFS) error {
			e := gltf.NewEncoderFS(w, m)
			e.AsBinary = bin
			return e.Encode(d)
		}
		ok := &faultWriter{at: -1, limit: -1}
		mok := newMemFS()
		var ops []string // external operations in order
		mok.failOn = func(op, name string) error { ops = append(ops, op); return nil }
		if err := run(ok, mok); err != nil {
			rt.Fatalf("Encode without faults: %v", err)
		}
		total := ok.buf.Len()
		for i := 0; i < ok.calls; i++ {
			for _, part := range []int{0, 1, 1 << 30} {
				for _, sticky := range []bool{true, false} {
					w := &faultWriter{at: i, limit: -1, part: part, sticky: sticky}
					c.Label("output write failed")
					if err := run(w, newMemFS()); err == nil {
						rt.Fatalf("write call %d of %d to the output failed (for ever: %v) but Encode returns nil (%d of %d bytes written)", i, ok.calls, sticky, w.buf.Len(), total)
					}
				}
			}
		}
		step := 1
		if total > 400 {
			step = total/40 + 1
		}
		for k := 0; k < total; k += step {
			w := &faultWriter{at: -1, limit: k, sticky: k%2 == 0}
			c.Label("output failed at byte")
			if err := run(w, newMemFS()); err == nil {
				rt.Fatalf("the output failed after %d of %d bytes but Encode returns nil", k, total)
			}
		}
		for i, op := range ops {
			for _, sticky := range []bool{true, false} {
				m := newMemFS()
				n := 0
				m.failOn = func(string, string) error {
					n++
					if n-1 == i || sticky && n-1 > i {
						return errInjected
					}
					return nil
				}
				c.Label("external " + op + " failed")
				if err := run(&faultWriter{at: -1, limit: -1}, m); err == nil {
					rt.Fatalf("external operation %d (%s) failed but Encode returns nil", i, op)
				}
			}
		}
	})
}

// faultReader delivers the first k bytes in chunks, then fails once or for ever.
type faultReader struct {
	b      []byte
	k      int
	chunk  int
	with   bool // the error comes together with the last bytes
	sticky bool
	pos    int
	failed bool
}

func (r *faultReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.failed && r.sticky {
		return 0, errInjected
	}
	end := len(r.b)
	if !r.failed {
		end = r.k
	}
	if r.pos >= end {
		if !r.failed {
			r.failed = true
			return 0, errInjected
		}
		return 0, io.EOF
	}
	n := copy(p, r.b[r.pos:min(end, r.pos+r.chunk)])
	r.pos += n
	if r.with && !r.failed && r.pos == r.k {
		r.failed = true
		return n, errInjected
	}
	return n, nil
}

func TestC12Read(t *testing.T) {
	Prop(t, Opt{Quick: 400, Thorough: 4000, Rule: "case = valid stream; faults = the reader fails after every byte offset before the JSON (and the declared binary data) is complete (all offsets of small streams, 60 of large ones), with or without data, once and for ever; open and read faults of every external buffer; non-trivial = all; distinct by bytes; label counts give the injected faults"}, func(rt *rapid.T, c *Case) {
		drawFault(rt, false)
		s := drawStream(rt)
		s.key(c)
		c.NonTrivial(true)
		need := s.json
		if s.bin > 0 {
			need = s.bin
		}
		step := 1
		if need > 300 {
			step = need/60 + 1
		}
		chunk := pick(rt, "chunk", 1, 7, 512, 1<<20)
		with := rapid.Bool().Draw(rt, "with")
		for k := need - 1; k >= 0; k -= step {
			for _, sticky := range []bool{true, false} {
				// A failure that goes away is only injected where encoding/json, which
				// may skip one within white space, does not read yet.
				where := "begin"
				if k >= 20 {
					where = "JSON"
				}
				if s.bin > 0 && k >= s.json {
					where = "JSON padding"
				}
				if s.bin > 0 && k > s.jEnd {
					where = "binary chunk"
				}
				if !sticky && (where == "begin" && s.b[0] != '{' && s.b[0] != 'g' || where == "JSON" || where == "JSON padding" && with) {
					continue
				}
				c.Label("reader failed in " + where)
				r := &faultReader{b: s.b, k: k, chunk: chunk, with: with, sticky: sticky}
				if err := gltf.NewDecoderFS(r, s.fs).Decode(new(gltf.Document)); err == nil {
					rt.Fatalf("the reader failed (for ever: %v) after %d of %d needed bytes but Decode returns nil", sticky, k, need)
				}
			}
		}
		for _, name := range s.fs.names() {
			for _, op := range []string{"open", "read"} {
				c.Label("external " + op + " failed")
				s.fs.failOn = func(o, n string) error {
					if o == op && n == name {
						return errInjected
					}
					return nil
				}
				if _, err := decode(s.b, s.fs); err == nil {
					rt.Fatalf("%s of external buffer %q failed but Decode returns nil", op, name)
				}
				// a failure after some bytes
				s.fs.failOn = nil
				if op == "read" && len(s.fs.files[name]) > 1 {
					c.Label("external read failed half way")
					if err := gltf.NewDecoderFS(bytes.NewReader(s.b), halfFS{s.fs, name}).Decode(new(gltf.Document)); err == nil {
						rt.Fatalf("reading external buffer %q failed half way but Decode returns nil", name)
					}
				}
			}
		}
	})
}

// halfFS delivers half of one file and then fails.
type halfFS struct {
	fs.FS
	name string
}

func (h halfFS) Open(name string) (fs.File, error) {
	f, err := h.FS.Open(name)
	if err == nil && name == h.name {
		return &halfFile{File: f}, nil
	}
	return f, err
}

type halfFile struct {
	fs.File
	n int
}

func (f *halfFile) Read(b []byte) (int, error) {
	if f.n > 0 || len(b) == 0 {
		return 0, errInjected
	}
	f.n++
	return f.File.Read(b[:1])
}

func TestC12Disk(t *testing.T) {
	if fi, err := os.Stat("/dev/full"); err != nil || fi.Mode()&os.ModeCharDevice == 0 {
		t.Skip("no /dev/full")
	}
	root := tempRoot(t)
	cnt := 0
	Prop(t, Opt{Quick: 200, Rule: "case = document saved with Save or SaveBinary where the output or one external buffer file is a symbolic link to /dev/full, its directory is missing, or the name is a directory; non-trivial = a fault was injected; distinct by document, form and fault"}, func(rt *rapid.T, c *Case) {
		cnt++
		dir := filepath.Join(root, fmt.Sprint(cnt))
		must(os.Mkdir(dir, 0o755))
		defer os.RemoveAll(dir)
		d := faultDoc(rt)
		docCase(c, d)
		bin := rapid.Bool().Draw(rt, "bin")
		save, doc := gltf.Save, "doc.gltf"
		if bin {
			save, doc = gltf.SaveBinary, "doc.glb"
		}
		targets := []string{doc}
		for _, b := range d.Buffers {
			if b.URI != "" && !b.IsEmbeddedResource() && len(b.Data) > 0 {
				targets = append(targets, b.URI)
			}
		}
		target := pick(rt, "target", targets...)
		name := filepath.Join(dir, target)
		fault := pick(rt, "fault", "full", "full", "directory", "missing")
		out := filepath.Join(dir, doc)
		switch fault {
		case "full":
			must(os.Symlink("/dev/full", name))
		case "directory":
			must(os.Mkdir(name, 0o755))
		case "missing":
			if target == doc {
				out = filepath.Join(dir, "missing", doc)
			} else {
				for _, b := range d.Buffers {
					if b.URI == target {
						b.URI = "missing/" + target
					}
				}
			}
		}
		c.Label(fault)
		c.Key(bin, target, fault)
		c.NonTrivial(true)
		if err := save(d, out); err == nil {
			rt.Fatalf("%s: %s cannot be written but saving returns nil", fault, target)
		}
		if fault != "missing" {
			must(os.Remove(name))
		}
		if fault == "missing" {
			must(os.Mkdir(filepath.Join(dir, "missing"), 0o755))
		}
		if err := save(d, out); err != nil {
			rt.Fatalf("saving after the fault is gone: %v", err)
		}
		if got, err := gltf.Open(out); err != nil {
			rt.Fatalf("Open: %v", err)
		} else {
			for i, b := range d.Buffers {
				if !bytes.Equal(b.Data, got.Buffers[i].Data) {
					rt.Fatalf("buffer %d differs", i)
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C13

// clone is a deep copy of v (maps, slices with their capacity, pointers, interfaces).
func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(clone(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		x := reflect.New(v.Type()).Elem()
		x.Set(clone(v.Elem()))
		return x
	case reflect.Struct:
		x := reflect.New(v.Type()).Elem()
		x.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if x.Field(i).CanSet() {
				x.Field(i).Set(clone(v.Field(i)))
			}
		}
		return x
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		x := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			x.Index(i).Set(clone(v.Index(i)))
		}
		return x
	case reflect.Array:
		x := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			x.Index(i).Set(clone(v.Index(i)))
		}
		return x
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		x := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			x.SetMapIndex(k, clone(v.MapIndex(k)))
		}
		return x
	}
	return v
}

func cloneDoc(d *gltf.Document) *gltf.Document {
	return clone(reflect.ValueOf(d)).Interface().(*gltf.Document)
}

// typedExt draws values of the built-in extensions for the sites they belong to.
func typedExt(t *rapid.T, site, key string) any {
	switch key {
	case keyTransform:
		return drawTransform(t)
	case keyLights:
		if site == "node" {
			return lightspunctual.LightIndex(intn(t, 0, 3, "light"))
		}
		return lightspunctual.Lights{{Type: "point", Color: &[3]float64{1, 1, 1}, Intensity: gltf.Float(1), Range: gltf.Float(pick(t, "range", 1, math.Inf(1)))},
			{Type: "spot", Spot: &lightspunctual.Spot{OuterConeAngle: pnum(t, math.Pi/4, "outer")}}}
	case keySpecular:
		return &specular.PBRSpecularGlossiness{GlossinessFactor: pnum(t, 1, "gloss"), DiffuseFactor: &[4]float64{1, 1, 1, float64(intn(t, 0, 1, "alpha"))}, SpecularFactor: &[3]float64{1, 1, 1},
			DiffuseTexture: &gltf.TextureInfo{Extensions: gltf.Extensions{keyTransform: drawTransform(t)}, Extras: M{"scale": 1.}}}
	}
	return nil
}

func pureDoc(rt *rapid.T) *gltf.Document {
	g := newDocGen(rt)
	g.extPct, g.extraPct = 25, 20
	g.extKeys = []string{"EXT_a", "EXT_b", "EXT_map", keyTransform, keyLights, keySpecular}
	g.extValue = typedExt
	d := g.doc(bufNoURI, bufNoURI, bufEmbedded, bufExternal, bufExternal, bufExternalNoData, bufAbsolute)
	// maps with several keys, to expose iteration order
	if chance(rt, 50, "map extras") {
		m := M{}
		for i, k := 0, intn(rt, 2, 9, "keys"); i < k; i++ {
			m[fmt.Sprintf("k%d", i)] = float64(i)
		}
		d.Asset.Extras = m
		d.Scenes = append(d.Scenes, &gltf.Scene{Extensions: gltf.Extensions{"EXT_map": m, "EXT_z": M{"b": 1., "a": 2.}, "EXT_a": json5(m)}})
	}
	for i, b := range d.Buffers {
		if b.URI != "" && !strings.HasPrefix(b.URI, "data:") && !strings.HasPrefix(b.URI, "https:") && chance(rt, 40, "spell") {
			b.URI = spellURI(rt, fmt.Sprintf("dir/b %d.bin", i), intn(rt, 0, 7, "how"))
		}
	}
	for _, im := range d.Images {
		if im.URI != "" && !strings.HasPrefix(im.URI, "data:") && chance(rt, 40, "spell") {
			im.URI = spellURI(rt, "tex/i 1.png", intn(rt, 0, 7, "how"))
		}
	}
	return d
}

func json5(m M) any { return []any{m, "x"} }

type saved struct {
	out   []byte
	files string
}

func snapshot(m *memFS) string {
	var b strings.Builder
	for _, n := range m.names() {
		fmt.Fprintf(&b, "%q:%x\n", n, m.files[n])
	}
	sort.Strings(m.created)
	fmt.Fprint(&b, m.created)
	return b.String()
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

func TestC13Pure(t *testing.T) {
	Prop(t, Opt{Quick: 2000, Rule: "case = document (typed and raw extensions, map-valued extras, buffers of every kind whose slices have spare capacity) encoded 3-6 times as glTF and GLB in random order, with fresh and reused encoders; non-trivial = at least two populated collections; distinct by content and order"}, func(rt *rapid.T, c *Case) {
		d := pureDoc(rt)
		// data that changed since it was embedded
		for _, b := range d.Buffers {
			if b.IsEmbeddedResource() && chance(rt, 40, "stale URI") {
				b.Data = payload(rt, len(b.Data), "fresh")
				c.Label("embedded data changed")
			}
		}
		docCase(c, d)
		// give the data slices spare capacity with known content
		spare := payload(rt, 16, "spare")
		var backing [][]byte
		for _, b := range d.Buffers {
			if b.Data != nil {
				full := append(append(make([]byte, 0, len(b.Data)+len(spare)), b.Data...), spare...)
				backing = append(backing, full)
				b.Data = full[:len(b.Data)]
			}
		}
		before := cloneDoc(d)
		if !reflect.DeepEqual(before, d) {
			panic("harness: clone differs")
		}
		seen := map[string]saved{}
		indent := pick(rt, "indent", "", "", " ")
		shared := map[bool]*gltf.Encoder{}
		var sbuf bytes.Buffer
		sfs := newMemFS()
		for i, k := 0, intn(rt, 3, 6, "encodes"); i < k; i++ {
			bin := rapid.Bool().Draw(rt, "bin")
			key := fmt.Sprint(bin)
			c.Key(key)
			var got saved
			if chance(rt, 30, "reuse") {
				e := shared[bin]
				if e == nil {
					e = gltf.NewEncoderFS(&sbuf, sfs)
					e.AsBinary = bin
					e.SetJSONIndent("", indent)
					shared[bin] = e
				}
				sbuf.Reset()
				sfs.files, sfs.created = map[string][]byte{}, nil
				if err := e.Encode(d); err != nil {
					rt.Fatalf("Encode: %v", err)
				}
				got = saved{bytes.Clone(sbuf.Bytes()), snapshot(sfs)}
			} else {
				var buf bytes.Buffer
				m := newMemFS()
				touched := false
				// not even while it is being written
				e := gltf.NewEncoderFS(writerFunc(func(p []byte) (int, error) {
					touched = touched || !reflect.DeepEqual(before, d)
					return buf.Write(p)
				}), m)
				e.AsBinary = bin
				e.SetJSONIndent("", indent)
				if err := e.Encode(d); err != nil {
					rt.Fatalf("Encode: %v", err)
				}
				if touched {
					rt.Fatalf("encode %d (binary %v) modified the document for a while", i, bin)
				}
				got = saved{buf.Bytes(), snapshot(m)}
			}
			if !reflect.DeepEqual(before, d) {
				what := diffJSON("doc", specDoc(before), specDoc(d))
				rt.Fatalf("encode %d (binary %v) modified the document: %s", i, bin, what)
			}
			for j, full := range backing {
				if !bytes.Equal(full[len(full)-len(spare):], spare) {
					rt.Fatalf("encode %d (binary %v) wrote beyond the data of buffer %d", i, bin, j)
				}
			}
			if prev, ok := seen[key]; ok {
				if !bytes.Equal(prev.out, got.out) {
					rt.Fatalf("encode %d (binary %v) produced different bytes than before:\n%q\n%q", i, bin, prev.out, got.out)
				}
				if prev.files != got.files {
					rt.Fatalf("encode %d (binary %v) wrote different external files:\n%s\n%s", i, bin, prev.files, got.files)
				}
				c.Label("repeated form")
			}
			seen[key] = got
		}
	})
}

func TestC13Disk(t *testing.T) {
	root := tempRoot(t)
	cnt := 0
	Prop(t, Opt{Quick: 250, Rule: "case = document saved twice with Save and SaveBinary into different directories; non-trivial = at least two populated collections; distinct by content"}, func(rt *rapid.T, c *Case) {
		d := pureDoc(rt)
		docCase(c, d)
		before := cloneDoc(d)
		var prev map[string]string
		cnt++
		for i := 0; i < 2; i++ {
			dir := filepath.Join(root, fmt.Sprint(cnt, "-", i))
			must(os.MkdirAll(filepath.Join(dir, "dir"), 0o755))
			for _, f := range []func() error{func() error { return gltf.Save(d, filepath.Join(dir, "a.gltf")) }, func() error { return gltf.SaveBinary(d, filepath.Join(dir, "a.glb")) }} {
				if err := f(); err != nil {
					rt.Fatalf("save: %v", err)
				}
				if !reflect.DeepEqual(before, d) {
					rt.Fatalf("saving modified the document: %s", diffJSON("doc", specDoc(before), specDoc(d)))
				}
			}
			files := listFiles(dir)
			if prev != nil && !reflect.DeepEqual(prev, files) {
				rt.Fatalf("saving twice produced different files")
			}
			prev = files
			os.RemoveAll(dir)
		}
	})
}

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot be represented") }

type half struct{}

func (half) MarshalJSON() ([]byte, error) { return []byte(`{"a":`), nil }

// unrepresentable makes d impossible to represent as JSON.
func unrepresentable(rt *rapid.T, d *gltf.Document) string {
	bad := pick(rt, "bad number", math.NaN(), math.Inf(1), math.Inf(-1))
	last := func() *gltf.Node {
		d.Nodes = append(d.Nodes, &gltf.Node{})
		return d.Nodes[len(d.Nodes)-1]
	}
	kinds := map[string]func(){
		"translation": func() { last().Translation[1] = bad },
		"rotation":    func() { last().Rotation[3] = bad },
		"scale":       func() { last().Scale[0] = bad },
		"matrix":      func() { last().Matrix[7] = bad },
		"weights":     func() { last().Weights = []float64{1, bad} },
		"camera":      func() { d.Cameras = append(d.Cameras, &gltf.Camera{Name: "no projection"}) },
		"yfov":        func() { d.Cameras = append(d.Cameras, &gltf.Camera{Perspective: &gltf.Perspective{Yfov: bad}}) },
		"xmag":        func() { d.Cameras = append(d.Cameras, &gltf.Camera{Orthographic: &gltf.Orthographic{Xmag: bad}}) },
		"accessor max": func() {
			d.Accessors = append(d.Accessors, &gltf.Accessor{Max: []float64{bad}})
		},
		"alphaCutoff":    func() { d.Materials = append(d.Materials, &gltf.Material{AlphaCutoff: &bad}) },
		"emissiveFactor": func() { d.Materials = append(d.Materials, &gltf.Material{EmissiveFactor: [3]float64{0, 0, bad}}) },
		"roughness": func() {
			d.Materials = append(d.Materials, &gltf.Material{PBRMetallicRoughness: &gltf.PBRMetallicRoughness{RoughnessFactor: &bad}})
		},
		"normal scale": func() {
			d.Materials = append(d.Materials, &gltf.Material{NormalTexture: &gltf.NormalTexture{Scale: &bad}})
		},
		"extras func":  func() { d.Extras = func() {} },
		"extras NaN":   func() { d.Asset.Extras = M{"x": bad} },
		"extras error": func() { last().Extras = badJSON{} },
		"extension":    func() { last().Extensions = gltf.Extensions{"EXT_bad": badJSON{}} },
		"invalid raw":  func() { d.Extensions = gltf.Extensions{"EXT_bad": half{}} },
		"light":        func() { d.Extensions = gltf.Extensions{keyLights: lightspunctual.Lights{{Intensity: &bad}}} },
		"light range": func() { // only +Inf stands for a light without range
			bad := pick(rt, "bad range", math.NaN(), math.Inf(-1))
			d.Extensions = gltf.Extensions{keyLights: lightspunctual.Lights{{Type: "point"}, {Type: "point", Range: &bad}}}
		},
		"light color": func() {
			d.Extensions = gltf.Extensions{keyLights: lightspunctual.Lights{{Type: "point", Color: &[3]float64{1, bad, 1}}}}
		},
		"spot": func() {
			d.Extensions = gltf.Extensions{keyLights: lightspunctual.Lights{{Type: "spot", Spot: &lightspunctual.Spot{OuterConeAngle: &bad}}}}
		},
		"glossiness": func() {
			d.Materials = append(d.Materials, &gltf.Material{Extensions: gltf.Extensions{keySpecular: &specular.PBRSpecularGlossiness{GlossinessFactor: &bad}}})
		},
		"transform": func() {
			tr := &texturetransform.TextureTranform{Rotation: bad}
			if rapid.Bool().Draw(rt, "bad scale") {
				tr = &texturetransform.TextureTranform{Scale: [2]float64{1, bad}}
			}
			d.Materials = append(d.Materials, &gltf.Material{EmissiveTexture: &gltf.TextureInfo{Extensions: gltf.Extensions{keyTransform: tr}}})
		},
		"buffer extras": func() { d.Buffers = append(d.Buffers, &gltf.Buffer{ByteLength: 1, Data: []byte{1}, Extras: badJSON{}}) },
	}
	names := sortedKeys(kinds)
	k := names[intn(rt, 0, len(names)-1, "unrepresentable")]
	kinds[k]()
	return k
}

func TestC13Unrepresentable(t *testing.T) {
	Prop(t, Opt{Quick: 1500, Rule: "case = document with one value that JSON cannot represent (NaN or infinity in any numeric field, camera without projection, failing or invalid extension or extras); non-trivial = all; distinct by content and defect"}, func(rt *rapid.T, c *Case) {
		d := newDocGen(rt).doc(bufNoURI, bufEmbedded, bufExternal)
		docCase(c, d)
		k := unrepresentable(rt, d)
		c.Label(k)
		c.Key(k)
		c.NonTrivial(true)
		c.Sample("%s", k)
		w := &faultWriter{at: -1, limit: -1}
		m := newMemFS()
		e := gltf.NewEncoderFS(w, m)
		e.AsBinary = rapid.Bool().Draw(rt, "bin")
		if chance(rt, 30, "indent") {
			e.SetJSONIndent("", " ")
		}
		if err := e.Encode(d); err == nil {
			rt.Fatalf("%s: Encode returns nil", k)
		}
		if w.buf.Len() > 0 {
			rt.Fatalf("%s: %d bytes were written before the document was rejected: %q", k, w.buf.Len(), trunc(w.buf.Bytes()))
		}
		if len(m.created) > 0 {
			rt.Fatalf("%s: files %q were created before the document was rejected", k, m.created)
		}
	})
}
