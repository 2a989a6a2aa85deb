package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- file system stand-in

// memFS is an in-memory gltf.CreateFS that records every name it is given.
type memFS struct {
	files   map[string][]byte
	created []string
	opened  []string
	failOn  func(op, name string) error // op: create, write, close, open, read
	writes  int
}

func newMemFS() *memFS { return &memFS{files: map[string][]byte{}} }

func (m *memFS) fail(op, name string) error {
	if m.failOn == nil {
		return nil
	}
	return m.failOn(op, name)
}

func (m *memFS) Open(name string) (fs.File, error) {
	m.opened = append(m.opened, name)
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	if err := m.fail("open", name); err != nil {
		return nil, err
	}
	b, ok := m.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	f, err := fstest.MapFS{name: &fstest.MapFile{Data: b}}.Open(name)
	if err != nil {
		return nil, err
	}
	return &memFile{f, m, name}, nil
}

type memFile struct {
	fs.File
	m    *memFS
	name string
}

func (f *memFile) Read(b []byte) (int, error) {
	if err := f.m.fail("read", f.name); err != nil {
		return 0, err
	}
	return f.File.Read(b)
}

func (m *memFS) Create(name string) (io.WriteCloser, error) {
	m.created = append(m.created, name)
	if err := m.fail("create", name); err != nil {
		return nil, err
	}
	m.files[name] = nil
	return &memWriter{m: m, name: name}, nil
}

type memWriter struct {
	m    *memFS
	name string
	open bool
}

func (w *memWriter) Write(b []byte) (int, error) {
	w.m.writes++
	if err := w.m.fail("write", w.name); err != nil {
		return 0, err
	}
	w.m.files[w.name] = append(w.m.files[w.name], b...)
	return len(b), nil
}

func (w *memWriter) Close() error { return w.m.fail("close", w.name) }

func (m *memFS) names() []string {
	var s []string
	for k := range m.files {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// ---------------------------------------------------------------- encode/decode helpers

func encode(d *gltf.Document, asBinary bool, fsys gltf.CreateFS) ([]byte, error) {
	var buf bytes.Buffer
	e := gltf.NewEncoderFS(&buf, fsys)
	if fsys == nil {
		e = gltf.NewEncoder(&buf)
	}
	e.AsBinary = asBinary
	err := e.Encode(d)
	return buf.Bytes(), err
}

func decode(b []byte, fsys fs.FS) (*gltf.Document, error) {
	d := new(gltf.Document)
	dec := gltf.NewDecoder(bytes.NewReader(b))
	if fsys != nil {
		dec = gltf.NewDecoderFS(bytes.NewReader(b), fsys)
	}
	err := dec.Decode(d)
	return d, err
}

// needsFS tells whether a document has buffers in files.
func needsFS(d *gltf.Document) bool {
	for _, b := range d.Buffers {
		if b.URI != "" && !strings.HasPrefix(b.URI, "data:") {
			return true
		}
	}
	return false
}

// reload decodes with the file system, or without one if the document needs none.
func reload(t *rapid.T, d *gltf.Document, b []byte, m *memFS) (*gltf.Document, error) {
	if !needsFS(d) && rapid.Bool().Draw(t, "NewDecoder") {
		return decode(b, nil)
	}
	return decode(b, m)
}

// ---------------------------------------------------------------- independent GLB container

type glbChunk struct {
	typ  uint32
	data []byte
}

const (
	chunkJSON = 0x4E4F534A
	chunkBIN  = 0x004E4942
)

type glbFile struct {
	version, length uint32
	chunks          []glbChunk
}

// parseGLB reads a GLB strictly according to the specification.
func parseGLB(b []byte) (*glbFile, error) {
	if len(b) < 12 {
		return nil, errors.New("shorter than a GLB header")
	}
	if string(b[:4]) != "glTF" {
		return nil, fmt.Errorf("magic %q", b[:4])
	}
	f := &glbFile{version: binary.LittleEndian.Uint32(b[4:]), length: binary.LittleEndian.Uint32(b[8:])}
	if f.version != 2 {
		return nil, fmt.Errorf("version %d", f.version)
	}
	if int(f.length) != len(b) {
		return nil, fmt.Errorf("declared length %d, actual %d", f.length, len(b))
	}
	p := 12
	for p < len(b) {
		if len(b)-p < 8 {
			return nil, fmt.Errorf("%d bytes left for a chunk header", len(b)-p)
		}
		l := int(binary.LittleEndian.Uint32(b[p:]))
		t := binary.LittleEndian.Uint32(b[p+4:])
		p += 8
		if l%4 != 0 {
			return nil, fmt.Errorf("chunk %d length %d is not a multiple of 4", len(f.chunks), l)
		}
		if l > len(b)-p {
			return nil, fmt.Errorf("chunk %d length %d exceeds the file", len(f.chunks), l)
		}
		f.chunks = append(f.chunks, glbChunk{t, b[p : p+l]})
		p += l
	}
	if len(f.chunks) == 0 || f.chunks[0].typ != chunkJSON {
		return nil, errors.New("first chunk is not JSON")
	}
	return f, nil
}

// buildGLB assembles a container from raw parts (nothing is padded here).
func buildGLB(chunks ...glbChunk) []byte {
	var b []byte
	b = append(b, "glTF"...)
	b = binary.LittleEndian.AppendUint32(b, 2)
	b = binary.LittleEndian.AppendUint32(b, 0)
	for _, c := range chunks {
		b = binary.LittleEndian.AppendUint32(b, uint32(len(c.data)))
		b = binary.LittleEndian.AppendUint32(b, c.typ)
		b = append(b, c.data...)
	}
	binary.LittleEndian.PutUint32(b[8:], uint32(len(b)))
	return b
}

func pad(b []byte, c byte) []byte {
	b = append([]byte{}, b...)
	for len(b)%4 != 0 {
		b = append(b, c)
	}
	return b
}

// ---------------------------------------------------------------- readers

// chunkReader delivers data in the given chunk sizes (cycling), optionally
// returning io.EOF together with the last bytes.
type chunkReader struct {
	b       []byte
	sizes   []int
	i       int
	dataEOF bool
	zeros   bool // interleave (0, nil) reads
	z       bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.zeros {
		r.z = !r.z
		if r.z {
			return 0, nil
		}
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	k := len(p)
	if len(r.sizes) > 0 {
		k = r.sizes[r.i%len(r.sizes)]
		r.i++
	}
	if k > len(p) {
		k = len(p)
	}
	if k > len(r.b) {
		k = len(r.b)
	}
	copy(p, r.b[:k])
	r.b = r.b[k:]
	if len(r.b) == 0 && r.dataEOF {
		return k, io.EOF
	}
	return k, nil
}

func drawReader(t *rapid.T, b []byte) (*chunkReader, string) {
	r := &chunkReader{b: b, dataEOF: rapid.Bool().Draw(t, "dataEOF")}
	switch intn(t, 0, 5, "reader") {
	case 0:
		return r, "whole"
	case 1:
		r.sizes = []int{1}
		return r, "one-byte"
	case 2:
		r.sizes = []int{intn(t, 2, 40, "size")}
		return r, "fixed"
	case 3:
		k := intn(t, 0, len(b), "split")
		r.sizes = []int{max(k, 1), max(len(b)-k, 1)}
		return r, "split"
	case 4:
		r.sizes = []int{pick(t, "big", 511, 512, 513, 4095, 4096, 4097)}
		return r, "bufsize"
	default:
		r.sizes = rapid.SliceOfN(rapid.IntRange(1, 600), 1, 8).Draw(t, "sizes")
		r.zeros = rapid.Bool().Draw(t, "zeros")
		return r, "random"
	}
}
