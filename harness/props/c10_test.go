package props

import (
	"bytes"
	"fmt"
	"io/fs"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- names and their spellings

var nameSegments = []string{"a", "b.bin", "my buf.bin", "café.bin", "日本", "100%", "a%41", "x#y", "q?z", "c:d", "Z:0", "A:z", "a9:x", "z0-+.:y", "d+e", "~t", "a&b=c", "..x", "x..", ".hidden", "...", "A.BIN", "'q'", "[x]", "%2e%2e", "%", "a;b", "@", "x ", " x", " ", "x.", "tab\t", "\nline", "e\u0301", "\u00a0n\u00a0", "a,b", "`", "$HOME", "*", "-x", "x\x7f", "\"q\"", "<x>", "a|b", "nul", "{0}"}

// drawName draws a clean, local, slash-separated file name.
func drawName(rt *rapid.T, i int) string {
	var segs []string
	for j, k := 0, pick(rt, "depth", 0, 0, 1, 2); j < k; j++ {
		segs = append(segs, pick(rt, "segment", nameSegments...))
	}
	last := pick(rt, "segment", nameSegments...)
	// keep the names of one document distinct, and no name a directory of another one
	mark := "f"
	if i > 0 {
		mark = strconv.Itoa(i)
	}
	if rapid.Bool().Draw(rt, "mark first") {
		last = mark + "-" + last
	} else {
		last += "-" + mark
	}
	return strings.Join(append(segs, last), "/")
}

func nested(names []string) bool {
	for _, a := range names {
		for _, b := range names {
			if strings.HasPrefix(a, b+"/") {
				return true
			}
		}
	}
	return false
}

const (
	spellPct   = 1 << iota // percent-encode bytes that need not be
	spellSlash             // write separators as backslash or encoded
	spellDots              // insert . and x/.. and empty segments
)

// spellURI writes the relative file name as a URI. Every result resolves to name.
func spellURI(rt *rapid.T, name string, how int) string {
	r := newRand(rapid.Uint64().Draw(rt, "spell"))
	var b strings.Builder
	sep := func() string {
		if how&spellSlash != 0 {
			return []string{"/", "\\", "%2F", "%2f", "%5C", "%5c"}[r.n(6)]
		}
		return "/"
	}
	dots := func(n int) string {
		s := ""
		for ; n > 0; n-- {
			if how&spellPct != 0 {
				s += []string{".", "%2e", "%2E"}[r.n(3)]
			} else {
				s += "."
			}
		}
		return s
	}
	noise := func() {
		if how&spellDots == 0 {
			return
		}
		for r.n(3) == 0 {
			switch r.n(3) {
			case 0:
				b.WriteString(dots(1) + sep())
			case 1:
				b.WriteString([]string{"x", "tmp", "y y"}[r.n(3)] + sep() + dots(2) + sep())
			case 2:
				if b.Len() > 0 {
					b.WriteString("/") // empty segment
				}
			}
		}
	}
	rest := name
	if strings.HasPrefix(rest, "/") {
		b.WriteString(sep())
		rest = rest[1:]
	}
	for i, seg := range strings.Split(rest, "/") {
		if i > 0 {
			b.WriteString(sep())
		}
		noise()
		if seg == ".." || seg == "." {
			b.WriteString(dots(len(seg)))
			continue
		}
		for _, c := range seg {
			must := c == '%' || c == '#' || c == '?' || c < 0x20 || c == 0x7f || c == '\\' || c == ':'
			if must || how&spellPct != 0 && r.n(3) == 0 {
				for _, x := range []byte(string(c)) {
					fmt.Fprintf(&b, []string{"%%%02x", "%%%02X"}[r.n(2)], x)
				}
			} else {
				b.WriteRune(c)
			}
		}
	}
	return b.String()
}

var absoluteURIs = []string{"https://example.com/a/b.bin", "http://example.com/../x.bin", "HTTP://h/%2e%2e/x", "file:///tmp/x.bin", "file:x.bin", "urn:isbn:1", "data:text/plain,hello", "ftp://h\\x\\y.bin", "a+b-c.1:x", "mailto:a@b.c", "https://example.com/a b.bin", "x:", "C:/x.bin", "c:\\x.bin", "s3://bucket/%zz", "Z:/x", "z:x", "A9:x", "aZz0-9+.Z://host/x", "zZaA.+-09:%41/../x", "Z:/%zz", "z:%", "A0:%zz"}

// drifts reports whether a name looks like a percent-encoded one, which makes
// the library decode it once more when the loaded document is saved.
func drifts(names []string) bool {
	for _, name := range names {
		if dec, err := url.PathUnescape(name); err == nil && dec != name {
			return true
		}
	}
	return false
}

func TestC10Files(t *testing.T) {
	Prop(t, Opt{Quick: 3000, Rule: "case = document with 1-4 buffers whose relative URIs are random spellings (percent-encoding, backslashes, dot segments) of random file names, next to absolute, embedded and data-less buffers, saved to a recording file system and loaded back in glTF and GLB form; non-trivial = a URI differs from its file name; distinct by URIs and data"}, func(rt *rapid.T, c *Case) {
		d := &gltf.Document{}
		names := map[int]string{}
		var all []string
		g := newDocGen(rt)
		for i, k := 0, pick(rt, "buffers", 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, intn(rt, 4, 20, "many")); i < k; i++ {
			data := payload(rt, bufLen(rt, "len"), "data")
			if i > 0 && chance(rt, 15, "same data") {
				if of := d.Buffers[intn(rt, 0, i-1, "of")].Data; len(of) > 0 {
					data = of // the very same bytes, not a copy
				}
			}
			b := &gltf.Buffer{ByteLength: len(data), Data: data}
			switch pick(rt, "kind", 0, 0, 0, 0, 1, 2, 3, 4) {
			case 0:
				name := drawName(rt, i)
				names[i] = name
				all = append(all, name)
				b.URI = spellURI(rt, name, intn(rt, 0, 7, "how"))
				c.NonTrivial(b.URI != name)
				c.LabelIf(strings.Contains(b.URI, "%"), "percent-encoded")
				c.LabelIf(strings.Contains(b.URI, "\\"), "backslash")
				c.LabelIf(strings.Contains(b.URI, ".."), "dot segments")
				c.LabelIf(i == 0, "first buffer external")
			case 1:
				b.URI = pick(rt, "abs", absoluteURIs...)
				c.Label("absolute URI with data")
			case 2:
				b.URI = pick(rt, "abs", absoluteURIs...)
				b.Data = nil
				c.Label("absolute URI without data")
			case 3:
				b = g.buffer(i, bufEmbedded)
			case 4:
				b.URI = ""
			}
			c.Key(b.URI, b.Data)
			d.Buffers = append(d.Buffers, b)
		}
		for i, k := 0, intn(rt, 0, 2, "images"); i < k; i++ {
			d.Images = append(d.Images, &gltf.Image{URI: spellURI(rt, drawName(rt, i), 7)})
		}
		if nested(all) {
			return
		}
		uris := []string{}
		for _, b := range d.Buffers {
			uris = append(uris, b.URI)
		}
		c.Sample("URIs %q name files %q", uris, all)
		for _, bin := range []bool{false, true} {
			m := newMemFS()
			out, err := encode(d, bin, m)
			if err != nil {
				rt.Fatalf("Encode: %v (URIs %q)", err, uris)
			}
			if len(m.created) != len(names) {
				rt.Fatalf("created files %q, want those of %q", m.created, names)
			}
			for i, name := range names {
				got, ok := m.files[name]
				if !ok {
					rt.Fatalf("URI %q: no file %q was written, only %q", d.Buffers[i].URI, name, m.names())
				}
				if !bytes.Equal(got, d.Buffers[i].Data) {
					rt.Fatalf("file %q holds %x, want %x", name, trunc(got), trunc(d.Buffers[i].Data))
				}
			}
			if len(m.opened) > 0 {
				rt.Fatalf("Encode opened files: %q", m.opened)
			}
			// a longer file is truncated to byteLength
			longer := chance(rt, 30, "longer")
			if longer {
				for _, name := range names {
					m.files[name] = append(append([]byte{}, m.files[name]...), payload(rt, intn(rt, 1, 600, "more"), "more")...)
				}
			}
			got, err := decode(out, m)
			if err != nil {
				rt.Fatalf("Decode: %v (URIs %q, files %q)", err, uris, m.names())
			}
			if len(m.opened) != len(names) {
				rt.Fatalf("loading opened %q, want %q", m.opened, all)
			}
			for i, b := range d.Buffers {
				h := got.Buffers[i]
				if _, ext := names[i]; !ext && b.URI != "" && !b.IsEmbeddedResource() {
					if len(h.Data) != 0 {
						rt.Fatalf("buffer %d (%q): %d bytes loaded", i, b.URI, len(h.Data))
					}
					continue
				}
				if !bytes.Equal(h.Data, b.Data) {
					rt.Fatalf("buffer %d (%q): saved %x, loaded %x", i, b.URI, trunc(b.Data), trunc(h.Data))
				}
			}
			// The loaded URI names the same file when it is saved again.
			m2 := newMemFS()
			if _, err := encode(got, bin, m2); err != nil && !drifts(all) {
				rt.Fatalf("Encode of the loaded document: %v", err)
			}
			for i, name := range names {
				if drifts(all) {
					continue // finding uri-double-decoding of C25
				}
				if _, ok := m2.files[name]; !ok {
					rt.Fatalf("URI %q loaded as %q: saving again writes %q, not %q", d.Buffers[i].URI, got.Buffers[i].URI, m2.names(), name)
				}
			}
			// Without a file system nothing external is touched and no error occurs.
			out2, err := encode(d, bin, nil)
			if err != nil || !bytes.Equal(out, out2) {
				rt.Fatalf("Encode without file system: error %v, same output: %v", err, bytes.Equal(out, out2))
			}
			nf, err := decode(out, nil)
			if err != nil {
				rt.Fatalf("Decode without file system: %v", err)
			}
			for i := range d.Buffers {
				if _, ext := names[i]; ext && len(nf.Buffers[i].Data) != 0 {
					rt.Fatalf("Decode without file system loaded %d bytes of %q", len(nf.Buffers[i].Data), d.Buffers[i].URI)
				}
			}
			// A missing file is an error.
			if len(all) > 0 {
				gone := pick(rt, "gone", all...)
				delete(m.files, gone)
				if _, err := decode(out, m); err == nil {
					rt.Fatalf("file %q is missing but Decode succeeds", gone)
				}
				// unless its buffer is never loaded
				c.Label("missing file")
			}
		}
	})
}

// Several buffers may refer to the same file, each with its own byteLength,
// and a file may change between two loads.
func TestC10Shared(t *testing.T) {
	Prop(t, Opt{Quick: 1000, Rule: "case = document of 2-6 buffers that refer, in random spellings, to one or two files with byteLengths of 1 to the size of the file, loaded twice in glTF or GLB form with the files changing in between; non-trivial = all; distinct by URIs and lengths"}, func(rt *rapid.T, c *Case) {
		var names []string
		m := newMemFS()
		for i, n := 0, intn(rt, 1, 2, "files"); i < n; i++ {
			names = append(names, drawName(rt, i))
			m.files[names[i]] = payload(rt, 1+bufLen(rt, "size"), "file")
		}
		if nested(names) {
			return
		}
		d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
		var of []string
		for i, n := 0, intn(rt, 2, 6, "buffers"); i < n; i++ {
			name := pick(rt, "of", names...)
			of = append(of, name)
			size := len(m.files[name])
			b := &gltf.Buffer{URI: spellURI(rt, name, intn(rt, 0, 7, "how")), ByteLength: pick(rt, "byteLength", size, 1, intn(rt, 1, size, "any"))}
			c.Key(b.URI, b.ByteLength)
			d.Buffers = append(d.Buffers, b)
		}
		c.NonTrivial(true)
		b, err := encode(d, rapid.Bool().Draw(rt, "bin"), nil)
		if err != nil {
			rt.Fatalf("Encode: %v", err)
		}
		for round := 0; round < 2; round++ {
			got, err := decode(b, m)
			if err != nil {
				rt.Fatalf("Decode: %v", err)
			}
			for i, x := range got.Buffers {
				if want := m.files[of[i]][:d.Buffers[i].ByteLength]; !bytes.Equal(x.Data, want) {
					rt.Fatalf("load %d, buffer %d (%q): %d bytes %x, want %d bytes %x of %q", round, i, d.Buffers[i].URI, len(x.Data), trunc(x.Data), len(want), trunc(want), of[i])
				}
			}
			for _, name := range names {
				m.files[name] = payload(rt, len(m.files[name])+intn(rt, 0, 3, "grow"), "new file")
			}
		}
	})
}

// One encoder saves the same document several times; each time the files hold
// what the buffers hold then, whatever was saved before.
func TestC10Again(t *testing.T) {
	Prop(t, Opt{Quick: 600, Rule: "case = one encoder that saves a document of 1-5 buffers 2-4 times, with data edited in place, replaced, grown, shrunk or removed, buffers exchanged and files deleted or damaged in between; non-trivial = a file was to be written at least twice; distinct by URIs and data"}, func(rt *rapid.T, c *Case) {
		d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
		var names []string
		for i, n := 0, intn(rt, 1, 5, "buffers"); i < n; i++ {
			name := drawName(rt, i)
			names = append(names, name)
			data := payload(rt, bufLen(rt, "len"), "data")
			if i > 0 && chance(rt, 15, "same data") {
				data = d.Buffers[i-1].Data
			}
			d.Buffers = append(d.Buffers, &gltf.Buffer{URI: spellURI(rt, name, intn(rt, 0, 7, "how")), Data: data, ByteLength: len(data)})
		}
		if nested(names) {
			return
		}
		m := newMemFS()
		var out bytes.Buffer
		e := gltf.NewEncoderFS(&out, m)
		log := ""
		for round, n := 0, intn(rt, 2, 4, "saves"); round < n; round++ {
			if round > 0 {
				i := intn(rt, 0, len(d.Buffers)-1, "which")
				b := d.Buffers[i]
				how := pick(rt, "change", "nothing", "in place", "in place", "replaced", "renamed", "removed", "exchanged", "copied", "damaged", "deleted")
				log += " " + how
				switch how {
				case "in place":
					for j := range b.Data {
						b.Data[j] ^= byte(j + 1)
					}
				case "replaced":
					b.Data = payload(rt, bufLen(rt, "len"), "data")
					b.ByteLength = len(b.Data)
				case "renamed":
					names[i] = fmt.Sprintf("renamed%d-%d", round, i)
					b.URI = names[i]
				case "removed":
					b.Data = nil
				case "exchanged":
					b.URI, d.Buffers[0].URI = d.Buffers[0].URI, b.URI
					names[i], names[0] = names[0], names[i]
				case "copied": // the same buffers, at other addresses
					x := *b
					d.Buffers[i] = &x
				case "damaged":
					if x, ok := m.files[names[i]]; ok && len(x) > 0 {
						m.files[names[i]] = append(bytes.Clone(x), "tail"...)
					}
				case "deleted":
					clear(m.files)
				}
			}
			if chance(rt, 50, "form") {
				e.AsBinary = !e.AsBinary
			}
			m.created, m.opened = nil, nil
			old := map[string][]byte{}
			for k, v := range m.files {
				old[k] = bytes.Clone(v)
			}
			out.Reset()
			if err := e.Encode(d); err != nil {
				rt.Fatalf("save %d after%s: %v", round, log, err)
			}
			for i, b := range d.Buffers {
				got, ok := m.files[names[i]]
				want := b.Data
				if len(b.Data) == 0 {
					want = old[names[i]]
					if _, was := old[names[i]]; was != ok {
						rt.Fatalf("save %d after%s: file %q of a buffer without data: there before %v, now %v", round, log, names[i], was, ok)
					}
				} else if !ok {
					rt.Fatalf("save %d after%s: no file %q for URI %q", round, log, names[i], b.URI)
				}
				if !bytes.Equal(got, want) {
					rt.Fatalf("save %d after%s: file %q holds %x, want %x", round, log, names[i], trunc(got), trunc(want))
				}
				c.NonTrivial(round > 0 && len(b.Data) > 0)
				c.Key(b.URI, b.Data)
			}
		}
		c.Sample("%q%s", names, log)
	})
}

// A buffer without data is not written; its file, if there, is left alone.
func TestC10NoData(t *testing.T) {
	Prop(t, Opt{Quick: 1000, Rule: "case = document mixing buffers with and without data under relative URIs, saved over existing files; non-trivial = one of each; distinct by URIs"}, func(rt *rapid.T, c *Case) {
		d := &gltf.Document{}
		m := newMemFS()
		want := map[string][]byte{}
		var names []string
		with, without := 0, 0
		for i, k := 0, intn(rt, 1, 4, "buffers"); i < k; i++ {
			name := drawName(rt, i)
			names = append(names, name)
			data := payload(rt, intn(rt, 1, 30, "len"), "data")
			b := &gltf.Buffer{ByteLength: len(data), URI: spellURI(rt, name, intn(rt, 0, 7, "how"))}
			old := payload(rt, intn(rt, 0, 60, "old.len"), "old")
			if rapid.Bool().Draw(rt, "exists") {
				m.files[name] = old
				want[name] = old
			}
			if rapid.Bool().Draw(rt, "data") {
				b.Data = data
				want[name] = data
				with++
			} else {
				without++
			}
			c.Key(b.URI, len(b.Data))
			d.Buffers = append(d.Buffers, b)
		}
		if nested(names) {
			return
		}
		c.NonTrivial(with > 0 && without > 0)
		if _, err := encode(d, rapid.Bool().Draw(rt, "bin"), m); err != nil {
			rt.Fatalf("Encode: %v", err)
		}
		if len(m.files) != len(want) {
			rt.Fatalf("files %q, want %q", m.names(), sortedKeys(want))
		}
		for name, w := range want {
			if !bytes.Equal(m.files[name], w) {
				rt.Fatalf("file %q: %x, want %x", name, trunc(m.files[name]), trunc(w))
			}
		}
	})
}

// listFiles returns all regular files below dir with their content.
func listFiles(dir string) map[string]string {
	out := map[string]string{}
	filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			panic("harness: " + err.Error())
		}
		rel, _ := filepath.Rel(dir, p)
		if e.Type().IsRegular() {
			b, _ := os.ReadFile(p)
			out[rel] = string(b)
		} else {
			out[rel] = "(" + e.Type().String() + ")"
		}
		return nil
	})
	return out
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// docPath draws a way to name the file name of the existing directory dir: as
// an absolute, an unclean or a relative path, or as a bare name after changing
// to dir. restore undoes the change of directory.
func docPath(rt *rapid.T, dir, name string) (p string, restore func()) {
	restore = func() {}
	sep := string(filepath.Separator)
	cwd, err := os.Getwd()
	must(err)
	chdir := func(to string) {
		must(os.Chdir(to))
		restore = func() { must(os.Chdir(cwd)) }
	}
	p = filepath.Join(dir, name)
	switch intn(rt, 0, 9, "path") {
	case 5:
		p = dir + sep + "." + sep + sep + name
	case 6:
		p = dir + sep + ".." + sep + filepath.Base(dir) + sep + name
	case 7:
		p, err = filepath.Rel(cwd, p)
		must(err)
	case 8:
		chdir(dir)
		p = pick(rt, "bare", name, name, "."+sep+name)
	case 9:
		chdir(filepath.Dir(dir))
		p = filepath.Base(dir) + sep + name
	}
	return p, restore
}

// docName draws the name of a file to save a document in. The form that is
// written does not depend on it.
func docName(rt *rapid.T) string {
	return pick(rt, "doc", "doc.gltf", "doc.gltf", "doc.glb", "doc.glb", "doc", "a b%20.gltf", "%41.glb", "d.bin", "é#?.gltf", "DOC.GLB", ".gltf", "doc.gltf.tmp", "d;o")
}

// The same on disk, through Save, SaveBinary and Open.
func TestC10Disk(t *testing.T) {
	root := tempRoot(t)
	cnt := 0
	Prop(t, Opt{Quick: 500, Rule: "case = document with external buffers saved with Save or SaveBinary in a fresh directory and opened again; non-trivial = a URI differs from its file name; distinct by URIs and data"}, func(rt *rapid.T, c *Case) {
		cnt++
		dir := filepath.Join(root, fmt.Sprint(cnt))
		must(os.Mkdir(dir, 0o755))
		defer os.RemoveAll(dir)
		d := &gltf.Document{}
		want := map[string]string{}
		var names []string
		for i, k := 0, intn(rt, 1, 3, "buffers"); i < k; i++ {
			name := drawName(rt, i)
			names = append(names, name)
			data := payload(rt, bufLen(rt, "len"), "data")
			b := &gltf.Buffer{ByteLength: len(data), Data: data, URI: spellURI(rt, name, intn(rt, 0, 7, "how"))}
			c.NonTrivial(b.URI != name)
			c.Key(b.URI, data)
			want[name] = string(data)
			must(os.MkdirAll(filepath.Join(dir, path.Dir(name)), 0o755))
			if chance(rt, 30, "exists") { // an older, longer file is replaced
				must(os.WriteFile(filepath.Join(dir, name), bytes.Repeat([]byte("old"), 5000), 0o644))
			}
			d.Buffers = append(d.Buffers, b)
		}
		if nested(names) {
			return
		}
		bin := rapid.Bool().Draw(rt, "bin")
		save, doc := gltf.Save, docName(rt)
		if bin {
			save = gltf.SaveBinary
		}
		docAt, back := docPath(rt, dir, doc)
		defer back()
		must(os.WriteFile(filepath.Join(dir, doc), bytes.Repeat([]byte("old"), 9000), 0o644))
		if err := save(d, docAt); err != nil {
			rt.Fatalf("save: %v", err)
		}
		files := listFiles(dir)
		for name, w := range want {
			if files[filepath.FromSlash(name)] != w {
				rt.Fatalf("file %q: %q, want %q", name, trunc([]byte(files[name])), trunc([]byte(w)))
			}
		}
		for name, w := range files {
			if _, ok := want[name]; !ok && name != doc && !strings.HasPrefix(w, "(d") {
				rt.Fatalf("unexpected file %q", name)
			}
		}
		got, err := gltf.Open(docAt)
		if err != nil {
			rt.Fatalf("Open: %v", err)
		}
		for i, b := range d.Buffers {
			if !bytes.Equal(got.Buffers[i].Data, b.Data) {
				rt.Fatalf("buffer %q: saved %x, loaded %x", b.URI, trunc(b.Data), trunc(got.Buffers[i].Data))
			}
		}
		// Saving the loaded document over itself, and with a relative path, gives the same files.
		if !drifts(names) && chance(rt, 50, "again") {
			if err := save(got, docAt); err != nil {
				rt.Fatalf("saving the loaded document: %v", err)
			}
			again := listFiles(dir)
			for name, w := range files {
				if name != doc && again[name] != w {
					rt.Fatalf("saving the loaded document again changed %q: %q, was %q", name, trunc([]byte(again[name])), trunc([]byte(w)))
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C11

var hostilePieces = []string{"..", "..", "/", "\\", "%2e%2e", "%2E.", "%2f", "%5c", "%252e", "%252f", "%00", "\x00", "a", "b.bin", ".", "C:", "file:", "//h", "?", "#", "%", "%zz", " ", ":", "~", "\n", "é", "%c0%ae", "\\\\h\\s", "data:", "NUL", "..;", "%2e"}

func drawHostile(rt *rapid.T) string {
	if chance(rt, 30, "escape?") {
		return spellURI(rt, drawEscape(rt, ""), intn(rt, 0, 7, "how"))
	}
	s := ""
	for i, k := 0, intn(rt, 1, 7, "pieces"); i < k; i++ {
		s += pick(rt, "piece", hostilePieces...)
	}
	return s
}

// drawEscape draws a path outside the document's directory. Absolute paths
// point into abs.
func drawEscape(rt *rapid.T, abs string) string {
	file := pick(rt, "file", "x.bin", "secret.bin", "d/y z.bin")
	switch intn(rt, 0, 4, "escape") {
	case 0:
		return "../" + file
	case 1:
		return "../../" + file
	case 2:
		return "a/../../" + file
	case 3:
		return "../../../" + file
	default:
		return abs + "/" + file
	}
}

func checkNames(rt *rapid.T, what string, names []string) {
	for _, name := range names {
		if !fs.ValidPath(name) || !filepath.IsLocal(name) {
			rt.Fatalf("%s: the file system was given the name %q", what, name)
		}
	}
}

func TestC11Names(t *testing.T) {
	Prop(t, Opt{Quick: 6000, Rule: "case = document whose buffer and image URIs are hostile spellings (parent segments, absolute paths, backslashes, encoded and doubly encoded dots and slashes, NUL, drive letters), encoded and decoded against a recording file system; non-trivial = all; distinct by URIs"}, func(rt *rapid.T, c *Case) {
		d := &gltf.Document{}
		for i, k := 0, intn(rt, 1, 2, "buffers"); i < k; i++ {
			data := payload(rt, intn(rt, 1, 8, "len"), "data")
			b := &gltf.Buffer{ByteLength: len(data), Data: data, URI: drawHostile(rt)}
			if b.URI == "" {
				b.URI = ".."
			}
			if chance(rt, 15, "nodata") {
				b.Data = nil
			}
			c.Key(b.URI)
			d.Buffers = append(d.Buffers, b)
		}
		for i, k := 0, intn(rt, 0, 1, "images"); i < k; i++ {
			d.Images = append(d.Images, &gltf.Image{URI: drawHostile(rt)})
			c.Key(d.Images[i].URI)
		}
		c.NonTrivial(true)
		c.Sample("%q", d.Buffers[0].URI)
		m := newMemFS()
		_, err := encode(d, rapid.Bool().Draw(rt, "bin"), m)
		checkNames(rt, fmt.Sprintf("Encode of %q", d.Buffers[0].URI), append(m.created, m.opened...))
		c.LabelIf(err != nil, "saving refused")
		c.LabelIf(err == nil, "saving allowed")
		js := mustJSON(M{"asset": M{"version": "2.0"}, "buffers": uriList(d), "images": imageList(d)})
		r := newMemFS()
		for name := range m.files {
			r.files[name] = make([]byte, 20)
		}
		if rapid.Bool().Draw(rt, "glb") {
			js = buildGLB(glbChunk{chunkJSON, pad(js, ' ')})
		}
		_, err = decode(js, r)
		checkNames(rt, fmt.Sprintf("Decode of %q", d.Buffers[0].URI), append(r.created, r.opened...))
		c.LabelIf(err != nil, "loading refused")
		c.LabelIf(err == nil, "loading allowed")
		if len(r.created) > 0 {
			rt.Fatalf("Decode created %q", r.created)
		}
	})
}

func uriList(d *gltf.Document) A {
	a := A{}
	for _, b := range d.Buffers {
		a = append(a, M{"uri": b.URI, "byteLength": float64(b.ByteLength)})
	}
	return a
}

func imageList(d *gltf.Document) A {
	a := A{}
	for _, b := range d.Images {
		a = append(a, M{"uri": b.URI})
	}
	return a
}

// Escapes by construction, on disk, inside a scratch directory deep enough for
// every generated parent reference.
func TestC11Disk(t *testing.T) {
	root := tempRoot(t)
	const secret = "SECRET-BYTES-OUTSIDE"
	cnt := 0
	Prop(t, Opt{Quick: 1200, Rule: "case = document in a directory four levels below the scratch root with a buffer URI that spells a path outside its directory (relative parents or an absolute path into the scratch area), saved with Save/SaveBinary and opened with Open; non-trivial = all; distinct by URI and form"}, func(rt *rapid.T, c *Case) {
		cnt++
		top := filepath.Join(root, fmt.Sprint(cnt))
		dir := filepath.Join(top, "l1", "l2", "l3", "l4")
		must(os.MkdirAll(dir, 0o755))
		defer os.RemoveAll(top)
		for _, p := range []string{"l1", "l1/l2", "l1/l2/l3", "l1/l2/l3/l4/a", "l1/l2/l3/d", "l1/d"} {
			must(os.MkdirAll(filepath.Join(top, p), 0o755))
			must(os.WriteFile(filepath.Join(top, p, "secret.bin"), []byte(secret), 0o644))
			must(os.WriteFile(filepath.Join(top, p, "x.bin"), []byte(secret), 0o644))
		}
		esc := drawEscape(rt, filepath.ToSlash(filepath.Join(top, "l1")))
		uri := spellURI(rt, esc, intn(rt, 0, 7, "how"))
		data := payload(rt, intn(rt, 1, 30, "len"), "data")
		bin := rapid.Bool().Draw(rt, "bin")
		c.Key(strings.ReplaceAll(uri, top, ""), bin)
		c.NonTrivial(true)
		c.Sample("%q", uri)
		d := &gltf.Document{Images: []*gltf.Image{{URI: uri}}, Buffers: []*gltf.Buffer{{ByteLength: len(data), Data: data, URI: uri}}}
		if rapid.Bool().Draw(rt, "second") {
			d.Buffers = append([]*gltf.Buffer{{ByteLength: 2, Data: []byte{1, 2}}}, d.Buffers...)
		}
		before := listFiles(top)
		save, doc := gltf.Save, docName(rt)
		if bin {
			save = gltf.SaveBinary
		}
		docAt, back := docPath(rt, dir, doc)
		defer back()
		if err := save(d, docAt); err == nil {
			rt.Fatalf("saving a buffer with URI %q (%q) succeeds", uri, esc)
		}
		after := listFiles(top)
		inside := filepath.Join("l1", "l2", "l3", "l4") + string(filepath.Separator)
		for name, w := range after {
			if before[name] != w && !strings.HasPrefix(name, inside) {
				rt.Fatalf("saving URI %q created or modified %q", uri, name)
			}
		}
		for name := range before {
			if _, ok := after[name]; !ok {
				rt.Fatalf("saving URI %q removed %q", uri, name)
			}
		}
		// loading
		js := mustJSON(M{"asset": M{"version": "2.0"}, "buffers": A{M{"uri": uri, "byteLength": float64(intn(rt, 1, 20, "bl"))}}, "images": A{M{"uri": uri}}})
		if bin {
			js = buildGLB(glbChunk{chunkJSON, pad(js, ' ')})
		}
		must(os.WriteFile(filepath.Join(dir, doc), js, 0o644))
		got, err := gltf.Open(docAt)
		if err == nil {
			rt.Fatalf("opening a document with buffer URI %q (%q) succeeds, data %q", uri, esc, got.Buffers[0].Data)
		}
	})
}

// encodeMore percent-encodes pieces of a URI levels times more, so that the
// dangerous characters only appear after decoding more often than a URI is.
func encodeMore(r *rnd, uri string, levels int) string {
	for ; levels > 0; levels-- {
		var b strings.Builder
		for i := 0; i < len(uri); i++ {
			ch := uri[i]
			if ch == '%' || (ch == '.' || ch == '/' || ch == '\\') && r.n(4) > 0 {
				fmt.Fprintf(&b, []string{"%%%02x", "%%%02X"}[r.n(2)], ch)
			} else {
				b.WriteByte(ch)
			}
		}
		uri = b.String()
	}
	return uri
}

// URIs that would escape only if they were decoded once more than they should
// be. Decoded once they are odd but local names, so saving and loading may
// succeed: whatever happens, only files inside the directory may be involved.
func TestC11Deep(t *testing.T) {
	root := tempRoot(t)
	const secret = "SECRET-BYTES-OUTSIDE"
	cnt := 0
	Prop(t, Opt{Quick: 1200, Rule: "case = document four levels below the scratch root with a buffer URI spelling an escaping path percent-encoded one to three additional times, saved and opened on disk; non-trivial = saving or loading succeeds; distinct by URI and form"}, func(rt *rapid.T, c *Case) {
		cnt++
		top := filepath.Join(root, fmt.Sprint(cnt))
		dir := filepath.Join(top, "l1", "l2", "l3", "l4")
		must(os.MkdirAll(dir, 0o755))
		defer os.RemoveAll(top)
		for _, p := range []string{"l1", "l1/l2", "l1/l2/l3", "l1/l2/l3/l4/a", "l1/l2/l3/d", "l1/d"} {
			must(os.MkdirAll(filepath.Join(top, p), 0o755))
			for _, f := range []string{"secret.bin", "x.bin", "y z.bin"} {
				if !strings.Contains(p, "l4") {
					must(os.WriteFile(filepath.Join(top, p, f), []byte(secret), 0o644))
				}
			}
		}
		r := newRand(rapid.Uint64().Draw(rt, "deep"))
		uri := encodeMore(r, spellURI(rt, drawEscape(rt, ""), intn(rt, 0, 7, "how")), intn(rt, 1, 3, "levels"))
		if strings.HasPrefix(uri, "/") {
			uri = uri[1:]
		}
		data := payload(rt, intn(rt, 1, 30, "len"), "data")
		bin := rapid.Bool().Draw(rt, "bin")
		c.Key(uri, bin)
		c.Sample("%q", uri)
		d := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: len(data), Data: data, URI: uri}}}
		// The decoded name may have directories.
		if name, err := url.PathUnescape(uri); err == nil && filepath.IsLocal(name) && rapid.Bool().Draw(rt, "mkdir") && len(name) < 200 {
			must(os.MkdirAll(filepath.Join(dir, path.Dir(name)), 0o755))
		}
		inside := filepath.Join("l1", "l2", "l3", "l4") + string(filepath.Separator)
		check := func(what string, before map[string]string) {
			after := listFiles(top)
			for name, w := range after {
				if before[name] != w && !strings.HasPrefix(name, inside) {
					rt.Fatalf("%s URI %q created or modified %q", what, uri, name)
				}
			}
			for name := range before {
				if _, ok := after[name]; !ok {
					rt.Fatalf("%s URI %q removed %q", what, uri, name)
				}
			}
		}
		before := listFiles(top)
		save, doc := gltf.Save, docName(rt)
		if bin {
			save = gltf.SaveBinary
		}
		docAt, back := docPath(rt, dir, doc)
		defer back()
		saved := save(d, docAt) == nil
		check("saving", before)
		c.LabelIf(saved, "saving allowed")
		js := mustJSON(M{"asset": M{"version": "2.0"}, "buffers": A{M{"uri": uri, "byteLength": float64(intn(rt, 12, len(secret), "bl"))}}, "images": A{M{"uri": uri}}})
		if bin {
			js = buildGLB(glbChunk{chunkJSON, pad(js, ' ')})
		}
		must(os.WriteFile(filepath.Join(dir, doc), js, 0o644))
		before = listFiles(top)
		got, err := gltf.Open(docAt)
		check("loading", before)
		c.LabelIf(err == nil, "loading allowed")
		c.NonTrivial(saved || err == nil)
		if err == nil && len(got.Buffers[0].Data) >= 12 && strings.HasPrefix(secret, string(got.Buffers[0].Data)) {
			rt.Fatalf("opening a document with buffer URI %q reads %q from a file outside", uri, got.Buffers[0].Data)
		}
	})
}
