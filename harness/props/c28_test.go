package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"testing"

	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C28

// handle is a file of a trackFS, or a stream of the caller.
type handle struct {
	name   string
	closed bool
	late   string // what was done to it once closed
}

func (h *handle) use(op string) {
	if h.closed && op != "close" { // Closing twice does no harm.
		h.late += " " + op
	}
}

// trackFS is a file system that records what becomes of the files it hands out.
type trackFS struct {
	*memFS
	handles []*handle
	nclose  int // how many closes may happen before they fail, -1: any
}

var errClose = errors.New("injected close fault")

type trackFile struct {
	fs.File
	h *handle
	m *trackFS
}

func (m *trackFS) close(h *handle) error {
	h.use("close")
	h.closed = true
	if m.nclose == 0 {
		return errClose
	}
	if m.nclose > 0 {
		m.nclose--
	}
	return nil
}

func (m *trackFS) Open(name string) (fs.File, error) {
	f, err := m.memFS.Open(name)
	if err != nil {
		return nil, err
	}
	h := &handle{name: "read " + name}
	m.handles = append(m.handles, h)
	return &trackFile{f, h, m}, nil
}

func (f *trackFile) Read(b []byte) (int, error) {
	f.h.use("read")
	return f.File.Read(b)
}

func (f *trackFile) Stat() (fs.FileInfo, error) {
	f.h.use("stat")
	return f.File.Stat()
}

func (f *trackFile) Close() error {
	f.File.Close()
	return f.m.close(f.h)
}

type trackWriter struct {
	io.WriteCloser
	h *handle
	m *trackFS
}

func (m *trackFS) Create(name string) (io.WriteCloser, error) {
	w, err := m.memFS.Create(name)
	if err != nil {
		return nil, err
	}
	h := &handle{name: "write " + name}
	m.handles = append(m.handles, h)
	return &trackWriter{w, h, m}, nil
}

func (w *trackWriter) Write(b []byte) (int, error) {
	w.h.use("write")
	return w.WriteCloser.Write(b)
}

func (w *trackWriter) Close() error {
	w.WriteCloser.Close()
	return w.m.close(w.h)
}

// open is what is wrong with the handles after a call.
func (m *trackFS) open() string {
	for _, h := range m.handles {
		if !h.closed {
			return fmt.Sprintf("%q is still open", h.name)
		}
		if h.late != "" {
			return fmt.Sprintf("%q was used after it was closed:%s", h.name, h.late)
		}
	}
	return ""
}

// callerStream is a reader or writer of the caller that can be closed.
type callerStream struct {
	handle
	io.Reader
	io.Writer
}

func (s *callerStream) Close() error { s.closed = true; return nil }

func (s *callerStream) left() string {
	if s.closed {
		return "the caller's stream was closed"
	}
	return ""
}

// limited fails once n bytes have been read or written.
type limited struct {
	io.ReadWriter
	n int
}

func (l *limited) Read(b []byte) (int, error) {
	if l.n <= 0 {
		return 0, errInjected
	}
	b = b[:min(len(b), l.n)]
	n, err := l.ReadWriter.Read(b)
	l.n -= n
	return n, err
}

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.n {
		return 0, errInjected
	}
	l.n -= len(b)
	return l.ReadWriter.Write(b)
}

// handleDoc draws a document with at least one external buffer.
func handleDoc(rt *rapid.T) *gltf.Document {
	g := newDocGen(rt)
	d := &gltf.Document{}
	n := intn(rt, 1, 5, "bufs")
	for i, ext := 0, intn(rt, 0, n-1, "external"); i < n; i++ {
		if i == ext {
			d.Buffers = append(d.Buffers, g.buffer(i, bufExternal))
		} else {
			d.Buffers = append(d.Buffers, g.buffer(i, bufNoURI, bufEmbedded, bufExternal, bufExternal))
		}
	}
	return d
}

func TestC28Streams(t *testing.T) {
	Prop(t, Opt{Quick: 1500, Rule: "case = document with external buffers saved to and loaded from a recording file system, with no fault or one at any create, open, read, write, close, at any point of the caller's stream, or a damaged document; non-trivial = at least one file was opened or created; distinct by document, form and fault"}, func(rt *rapid.T, c *Case) {
		errInjected = errors.New("injected fault")
		d := handleDoc(rt)
		docCase(c, d)
		bin := rapid.Bool().Draw(rt, "bin")
		m := &trackFS{memFS: newMemFS(), nclose: -1}
		ops := 0
		fault := func(limit int, label string) (at int) {
			at = -1
			switch pick(rt, label, "none", "file", "file", "close", "stream") {
			case "file":
				at = intn(rt, 0, limit, label+".at")
			case "close":
				m.nclose = intn(rt, 0, 3, label+".close")
			case "stream":
				return -2
			}
			return at
		}
		arm := func(at int) {
			ops = 0
			m.failOn = func(op, name string) error {
				if op == "close" {
					return nil
				}
				if ops++; ops-1 == at {
					return errInjected
				}
				return nil
			}
		}
		at := fault(2*len(d.Buffers), "save")
		arm(at)
		var out bytes.Buffer
		w := &callerStream{Writer: &out}
		if at == -2 {
			w.Writer = &limited{&out, intn(rt, 0, 2000, "save.limit")}
		}
		if chance(rt, 10, "bad document") {
			d.Extras = func() {}
			c.Label("document that can't be written")
		}
		e := gltf.NewEncoderFS(w, m)
		e.AsBinary = bin
		err := e.Encode(d)
		c.LabelIf(err != nil, "failed save")
		if s := m.open() + w.left(); s != "" {
			rt.Fatalf("after saving (fault %d, error %v): %s", at, err, s)
		}
		c.NonTrivial(len(m.handles) > 0)
		c.Key(bin, at, m.nclose)

		// a complete save to load from
		d.Extras = nil
		m = &trackFS{memFS: newMemFS(), nclose: -1}
		b, err := encode(d, bin, m.memFS)
		if err != nil {
			rt.Fatalf("Encode: %v", err)
		}
		what := pick(rt, "damage", "", "", "", "missing file", "cut", "byte", "long file", "short file", "byteLength")
		switch what {
		case "cut":
			b = b[:intn(rt, 0, len(b), "cut")]
		case "byte":
			b[intn(rt, 0, len(b)-1, "byte.at")] ^= byte(1 << intn(rt, 0, 7, "bit"))
		case "byteLength":
			b = bytes.Replace(b, []byte(`"byteLength":`), []byte(`"byteLength":-`), pick(rt, "lengths", 1, 2, -1))
		case "missing file", "long file", "short file":
			if names := m.names(); len(names) > 0 {
				name := pick(rt, "name", names...)
				switch what {
				case "missing file":
					delete(m.files, name)
				case "long file":
					m.files[name] = append(m.files[name], make([]byte, 3000)...)
				default:
					m.files[name] = m.files[name][:len(m.files[name])/2]
				}
			}
		}
		at = fault(3*len(d.Buffers), "load")
		arm(at)
		r := &callerStream{Reader: bytes.NewReader(b)}
		if at == -2 {
			r.Reader = &limited{bytes.NewBuffer(b), intn(rt, 0, len(b), "load.limit")}
		}
		err = gltf.NewDecoderFS(r, m).Decode(new(gltf.Document))
		c.LabelIf(err != nil, "failed load")
		if s := m.open() + r.left(); s != "" {
			rt.Fatalf("after loading (%s, fault %d, error %v): %s", what, at, err, s)
		}
		c.NonTrivial(len(m.handles) > 0)
		c.Key(what, at, m.nclose)
		c.Sample("%d buffers, load: %q fault %d: %v", len(d.Buffers), what, at, err)
	})
}

// openBelow lists the open files of this process below dir, and /dev/full.
func openBelow(dir string) (l []string) {
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range es {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (strings.HasPrefix(p, dir+"/") || p == "/dev/full") {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return
}

func TestC28Disk(t *testing.T) {
	if _, err := os.ReadDir("/proc/self/fd"); err != nil {
		t.Skip(err)
	}
	root := tempRoot(t)
	root, err := filepath.EvalSymlinks(root)
	must(err)
	cnt := 0
	Prop(t, Opt{Quick: 400, Rule: "case = document with external buffers saved and opened in a directory where nothing or one thing is wrong: a file that is a directory, missing, full or damaged, or a document that can't be written; non-trivial = all; distinct by document, form and fault"}, func(rt *rapid.T, c *Case) {
		cnt++
		dir := filepath.Join(root, fmt.Sprint(cnt))
		must(os.Mkdir(dir, 0o755))
		defer os.RemoveAll(dir)
		defer debug.SetGCPercent(debug.SetGCPercent(-1)) // the collector closes lost files
		d := handleDoc(rt)
		docCase(c, d)
		c.NonTrivial(true)
		save, doc := gltf.Save, "doc.gltf"
		if rapid.Bool().Draw(rt, "bin") {
			save, doc = gltf.SaveBinary, "doc.glb"
		}
		out := filepath.Join(dir, doc)
		targets := []string{doc}
		for _, b := range d.Buffers {
			if b.URI != "" && !b.IsEmbeddedResource() && len(b.Data) > 0 {
				targets = append(targets, b.URI)
			}
		}
		check := func(what string, err error) {
			if l := openBelow(dir); len(l) > 0 {
				rt.Fatalf("%s (error %v) leaves %q open", what, err, l)
			}
			c.LabelIf(err != nil, "failed "+what)
		}
		target := filepath.Join(dir, pick(rt, "target", targets...))
		fault := pick(rt, "save fault", "none", "directory", "full", "document")
		switch fault {
		case "directory":
			must(os.Mkdir(target, 0o755))
		case "full":
			if _, err := os.Stat("/dev/full"); err == nil {
				must(os.Symlink("/dev/full", target))
			}
		case "document":
			d.Extras = func() {}
		}
		check("save", save(d, out))
		d.Extras = nil
		os.Remove(target)
		err := save(d, out)
		check("save", err)
		if err != nil {
			rt.Fatalf("save: %v", err)
		}
		target = filepath.Join(dir, pick(rt, "load target", targets...))
		what := pick(rt, "load fault", "none", "directory", "missing", "short", "damaged")
		switch what {
		case "directory":
			must(os.Remove(target))
			must(os.Mkdir(target, 0o755))
		case "missing":
			must(os.Remove(target))
		case "short", "damaged":
			b, err := os.ReadFile(target)
			must(err)
			if what == "short" {
				b = b[:intn(rt, 0, len(b), "short")]
			} else {
				b = append([]byte("{"), b...)
			}
			must(os.WriteFile(target, b, 0o644))
		}
		_, err = gltf.Open(out)
		check("load", err)
		c.Key(doc, fault, what)
		c.Sample("%s: save fault %s, load fault %s", doc, fault, what)
	})
}
