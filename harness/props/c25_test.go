package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C25

// sampleFile is a real-world file of harness/corpus.
type sampleFile struct {
	name string
	tree M      // the glTF JSON
	bin  []byte // the BIN chunk of a GLB
	text []byte // the file as is
}

var samples = func() (list []sampleFile) {
	dir := os.Getenv("VERIF_CORPUS")
	if dir == "" {
		dir = "../corpus"
	}
	names, _ := filepath.Glob(filepath.Join(dir, "*.gl*"))
	for _, name := range names {
		b, err := os.ReadFile(name)
		if err != nil {
			panic("harness: " + err.Error())
		}
		s := sampleFile{name: filepath.Base(name), text: b}
		if strings.HasSuffix(name, ".glb") {
			g, err := parseGLB(b)
			if err != nil {
				panic("harness: " + err.Error())
			}
			b = g.chunks[0].data
			if len(g.chunks) > 1 {
				s.bin = g.chunks[1].data
			}
		}
		v, err := parseJSON(b)
		if err != nil {
			panic("harness: " + name + ": " + err.Error())
		}
		s.tree = v.(M)
		list = append(list, s)
	}
	return list
}()

// grafts are the subtrees of the sample files by member name.
var grafts = func() map[string][]any {
	m := map[string][]any{}
	var walk func(v any)
	walk = func(v any) {
		switch v := v.(type) {
		case M:
			for _, k := range sortedKeys(v) {
				if len(m[k]) < 40 && len(mustJSON(v[k])) < 400 {
					m[k] = append(m[k], v[k])
				}
				walk(v[k])
			}
		case A:
			for _, x := range v {
				walk(x)
			}
		}
	}
	for _, s := range samples {
		walk(s.tree)
	}
	return m
}()

// mutateTree makes one structural edit of a glTF JSON tree.
func mutateTree(rt *rapid.T, root M) string {
	type site struct {
		obj M
		key string
		arr A
		i   int
		set func(any) // replaces the whole array
	}
	var sites []site
	var walk func(v any, set func(any))
	walk = func(v any, set func(any)) {
		switch v := v.(type) {
		case M:
			for _, k := range sortedKeys(v) {
				k := k
				sites = append(sites, site{obj: v, key: k})
				walk(v[k], func(x any) { v[k] = x })
			}
		case A:
			for i := range v {
				i := i
				sites = append(sites, site{arr: v, i: i, set: set})
				walk(v[i], func(x any) { v[i] = x })
			}
		}
	}
	// half of the edits go to one top-level member, so that small parts are reached too
	if len(root) > 0 && rapid.Bool().Draw(rt, "focus") {
		ks := sortedKeys(root)
		k := ks[intn(rt, 0, len(ks)-1, "part")]
		walk(root[k], func(x any) { root[k] = x })
	}
	if len(sites) == 0 {
		walk(root, nil)
	}
	if len(sites) == 0 {
		root["asset"] = M{"version": "2.0"}
		return "asset"
	}
	s := sites[intn(rt, 0, len(sites)-1, "site")]
	var old any
	put := func(x any) {
		if s.arr != nil {
			s.arr[s.i] = x
		} else {
			s.obj[s.key] = x
		}
	}
	if s.arr != nil {
		old = s.arr[s.i]
	} else {
		old = s.obj[s.key]
	}
	switch op := pick(rt, "edit", "delete", "value", "value", "value", "repeat", "extend", "extras", "extension", "graft", "rename", "default"); op {
	case "delete":
		if s.arr != nil {
			s.set(append(append(A{}, s.arr[:s.i]...), s.arr[s.i+1:]...))
		} else {
			delete(s.obj, s.key)
		}
		return op
	case "repeat":
		if s.arr != nil {
			a := append(A{}, s.arr...)
			s.set(append(a, toGeneric(s.arr[intn(rt, 0, len(s.arr)-1, "element")])))
			return op
		}
		return "nothing"
	case "rename":
		if s.obj != nil {
			delete(s.obj, s.key)
			s.obj[pick(rt, "member", "unknown", strings.ToUpper(s.key), s.key+"2", "")] = old
			return op
		}
		return "nothing"
	case "extras", "extension":
		o, ok := old.(M)
		if !ok {
			o = s.obj
		}
		if o == nil {
			return "nothing"
		}
		if op == "extras" {
			o["extras"] = jsonValue(rt, 2, "extras")
			return op
		}
		e, ok := o["extensions"].(M)
		if !ok {
			e = M{}
			o["extensions"] = e
		}
		e[pick(rt, "name", "EXT_x", "VENDOR_y", "a")] = jsonValue(rt, 2, "ext")
		return op
	case "graft", "extend":
		if s.obj == nil {
			return "nothing"
		}
		k := s.key
		if op == "extend" {
			ks := sortedKeys(grafts)
			k = ks[intn(rt, 0, len(ks)-1, "member")]
		}
		g := grafts[k]
		if len(g) == 0 {
			return "nothing"
		}
		s.obj[k] = toGeneric(g[intn(rt, 0, len(g)-1, "subtree")])
		return op
	case "default":
		// a value that looks unset
		switch old := old.(type) {
		case float64:
			put(pick(rt, "number", 0., 1., 0.5, math.Copysign(0, -1)))
		case string:
			put("")
		case M:
			put(M{})
		case A:
			if chance(rt, 50, "empty") {
				put(A{})
				break
			}
			for i := range old {
				if _, ok := old[i].(float64); ok {
					old[i] = pick(rt, "element", 0., 1.)
				}
			}
		}
		return op
	}
	switch old := old.(type) {
	case float64:
		put(pick(rt, "number", 0, 1, -1, 2, old+1, old-1, old/2, old/3, -old, 1e-300, 1e21, math.MaxFloat64, float64(1<<53), float64(intn(rt, 0, 70000, "any"))))
	case string:
		put(pick(rt, "string", "", old+"x", strings.ToLower(old), text(rt, "text"), "a b.bin", "dir/../b.bin", "x%20y.bin", "data:application/octet-stream;base64,AAECAw==", "TRIANGLES", "MASK", "BLEND", "OPAQUE", "VEC3", "STEP", "rotation", "weights", "image/jpeg"))
	case bool:
		put(!old)
	case A:
		if len(old) > 1 {
			i, j := intn(rt, 0, len(old)-1, "i"), intn(rt, 0, len(old)-1, "j")
			old[i], old[j] = old[j], old[i]
		}
	case M:
		put(M{})
	}
	return "value"
}

// canonical replaces what the library documents as unset by the default it stands for.
func canonical(v reflect.Value) reflect.Value {
	switch x := v.Interface().(type) {
	case gltf.Node:
		if x.Matrix == ([16]float64{}) {
			x.Matrix = [16]float64{0: 1, 5: 1, 10: 1, 15: 1}
		}
		if x.Rotation == ([4]float64{}) {
			x.Rotation[3] = 1
		}
		if x.Scale == ([3]float64{}) {
			x.Scale = [3]float64{1, 1, 1}
		}
		return reflect.ValueOf(x)
	case texturetransform.TextureTranform:
		if x.Scale == ([2]float64{}) {
			x.Scale = [2]float64{1, 1}
		}
		return reflect.ValueOf(x)
	}
	return v
}

// sameLoaded compares two loaded documents by what they denote: absent and
// empty collections are the same, embedded buffers are the same when their
// bytes are, and raw JSON is compared as JSON. It returns the first difference.
func sameLoaded(path string, a, b reflect.Value) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %v vs %v", path, a.Type(), b.Type())
	}
	if ra, ok := a.Interface().(json.RawMessage); ok {
		rb := b.Interface().(json.RawMessage)
		return diffJSON(path, toGeneric(ra), toGeneric(rb))
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: %v vs %v", path, a, b)
			}
			return ""
		}
		return sameLoaded(path, a.Elem(), b.Elem())
	case reflect.Struct:
		a, b = canonical(a), canonical(b)
		ba, isBuf := a.Interface().(gltf.Buffer)
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			x, y := a.Field(i), b.Field(i)
			if isBuf && f.Name == "URI" {
				bb := b.Interface().(gltf.Buffer)
				if (ba.URI == "" || ba.IsEmbeddedResource()) && (bb.URI == "" || bb.IsEmbeddedResource()) {
					continue
				}
			}
			if !f.IsExported() {
				continue
			}
			if d := sameLoaded(path+"."+f.Name, x, y); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := sameLoaded(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %v vs %v", path, a, b)
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: %v lost", path, k)
			}
			if d := sameLoaded(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), y); d != "" {
				return d
			}
		}
		return ""
	}
	if !a.Equal(b) {
		return fmt.Sprintf("%s: %v vs %v", path, a, b)
	}
	return ""
}

// resources provides every external buffer of a glTF tree, and shrinks huge ones.
func resources(rt *rapid.T, tree M) *memFS {
	fsys := newMemFS()
	bufs, _ := tree["buffers"].(A)
	for i, x := range bufs {
		b, _ := x.(M)
		uri, _ := b["uri"].(string)
		n, _ := b["byteLength"].(float64)
		if b == nil || uri == "" || strings.HasPrefix(uri, "data:") {
			continue
		}
		if n > 4096 || n < 0 || n != math.Trunc(n) {
			n = float64(40 + i)
			b["byteLength"] = n
		}
		name := uri
		if d, err := decode([]byte(fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":1,"uri":%s}]}`, mustJSON(uri))), nil); err == nil {
			name = d.Buffers[0].URI
		}
		fsys.files[strings.TrimPrefix(name, "./")] = payload(rt, int(n), "file")
	}
	return fsys
}

func (m *memFS) has(uri string) bool {
	_, ok := m.files[strings.TrimPrefix(uri, "./")]
	return ok
}

// resave checks load/save cycles of a document text.
func resave(rt *rapid.T, c *Case, text []byte, fsys *memFS) {
	trunc := func(b []byte) string { return fmt.Sprintf("%.3000q", b) }
	doc, err := decode(text, fsys)
	if err != nil {
		c.Label("rejected")
		return
	}
	if doc.Asset.Version == "" {
		c.Label("no asset.version") // which glTF requires
		return
	}
	for _, b := range doc.Buffers {
		if len(b.Data) == 0 && fsys.has(b.URI) {
			c.Label("empty file") // shorter than byteLength, so not valid
			return
		}
		if drifts([]string{b.URI}) {
			c.Label("name looks encoded")
			return
		}
	}
	for _, im := range doc.Images {
		if !im.IsEmbeddedResource() && drifts([]string{im.URI}) {
			c.Label("name looks encoded")
			return
		}
	}
	var formats []bool
	for i, k := 0, intn(rt, 1, 4, "cycles"); i < k; i++ {
		formats = append(formats, rapid.Bool().Draw(rt, "glb"))
	}
	c.Label("accepted")
	history := "load"
	start := doc
	for i, glb := range formats {
		history += map[bool]string{false: " save-gltf", true: " save-glb"}[glb]
		out := newMemFS()
		var txt []byte
		if p := call(func() { txt, err = encode(doc, glb, out) }); p != "" {
			rt.Fatalf("%s panics: %s\nfile: %s", history, p, trunc(text))
		}
		if err != nil {
			if i > 0 {
				rt.Fatalf("%s: %v\nfile: %s", history, err, trunc(text))
			}
			c.Label("not representable")
			return
		}
		again, err := decode(txt, out)
		history += " load"
		if err != nil {
			rt.Fatalf("%s: %v\nfile: %s\nsaved: %s", history, err, trunc(text), trunc(txt))
		}
		if d := sameLoaded("document", reflect.ValueOf(doc), reflect.ValueOf(again)); d != "" {
			rt.Fatalf("%s: %s\nfile: %s\nsaved: %s", history, d, trunc(text), trunc(txt))
		}
		out2 := newMemFS()
		txt2, err := encode(again, glb, out2)
		if err != nil || !bytes.Equal(txt, txt2) {
			rt.Fatalf("%s: the second save differs: %v\nfile: %s\nfirst:  %s\nsecond: %s", history, err, trunc(text), trunc(txt), trunc(txt2))
		}
		if s1, s2 := snapshot(out), snapshot(out2); s1 != s2 {
			rt.Fatalf("%s: the second save writes other files: %s vs %s\nfile: %s", history, s1, s2, trunc(text))
		}
		doc = again
	}
	if d := sameLoaded("document", reflect.ValueOf(start), reflect.ValueOf(doc)); d != "" {
		rt.Fatalf("%s: %s\nfile: %s", history, d, trunc(text))
	}
	c.Label(fmt.Sprintf("%d cycles", len(formats)))
	c.NonTrivial(true)
}

func TestC25Samples(t *testing.T) {
	Prop(t, Opt{Quick: 5000, Thorough: 60000, Slow: true, Rule: "case = one of the repository's sample files with 0-6 structural edits (members and elements deleted, repeated, renamed, changed, grafted from other samples, extras and extensions added), taken as glTF or GLB and through 1-4 load/save cycles in random formats; non-trivial = the file loads and can be saved; distinct by text"}, func(rt *rapid.T, c *Case) {
		s := samples[intn(rt, 0, len(samples)-1, "sample")]
		tree := toGeneric(s.tree).(M)
		var edits []string
		for i, k := 0, intn(rt, 0, 6, "edits"); i < k; i++ {
			edits = append(edits, mutateTree(rt, tree))
		}
		fsys := resources(rt, tree)
		txt := mustJSON(tree)
		if s.bin != nil || chance(rt, 20, "as glb") {
			chunks := []glbChunk{{chunkJSON, pad(txt, ' ')}}
			if s.bin != nil {
				chunks = append(chunks, glbChunk{chunkBIN, s.bin})
			}
			txt = buildGLB(chunks...)
		}
		if len(edits) == 0 && s.bin != nil {
			txt = s.text
		}
		c.Key(txt)
		c.Sample("%s %v: %s", s.name, edits, txt)
		for _, e := range edits {
			c.Label("edit " + e)
		}
		resave(rt, c, txt, fsys)
	})
}

func TestC25Generated(t *testing.T) {
	Prop(t, Opt{Quick: 3000, Rule: "case = file generated member by member from the glTF vocabulary, with 0-2 structural edits, in a random spelling, taken through 1-4 load/save cycles in random formats; non-trivial = the file loads and can be saved; distinct by text"}, func(rt *rapid.T, c *Case) {
		g := &objGen{t: rt, pct: pick(rt, "density", 10, 30, 60, 95)}
		count := 0
		g.ext = builtinExt(pick(rt, "ext", 0, 20, 40), &count)
		tree := g.object("glTF")
		if _, ok := tree["asset"]; !ok {
			tree["asset"] = M{"version": "2.0"}
		}
		edits := pick(rt, "edits", 0, 0, 1, 2)
		for i := 0; i < edits; i++ {
			c.Label("edit " + mutateTree(rt, tree))
		}
		fsys := resources(rt, tree)
		var txt []byte
		if edits == 0 {
			txt = drawSpelling(rt, tree)
		} else {
			txt = mustJSON(tree)
		}
		c.Key(txt)
		c.LabelIf(count > 0, "built-in extensions")
		c.Sample("%s", txt)
		resave(rt, c, txt, fsys)
	})
}

// TestC25Names takes files with arbitrary names of external buffers and images through a cycle.
func TestC25Names(t *testing.T) {
	Prop(t, Opt{Quick: 4000, Rule: "case = file with 1-3 external buffers and 0-2 images under random names (non-ASCII, percent signs, reserved characters, directories) in random spellings, loaded, saved in one form and loaded again; non-trivial = it loads; distinct by URIs"}, func(rt *rapid.T, c *Case) {
		fsys := newMemFS()
		var names []string
		bufs, imgs := A{}, A{}
		for i, k := 0, intn(rt, 1, 3, "buffers"); i < k; i++ {
			name := drawName(rt, i)
			names = append(names, name)
			b := payload(rt, intn(rt, 1, 20, "len"), "data")
			fsys.files[name] = b
			bufs = append(bufs, M{"byteLength": float64(len(b)), "uri": spellURI(rt, name, intn(rt, 0, 7, "how"))})
		}
		for i, k := 0, intn(rt, 0, 2, "images"); i < k; i++ {
			names = append(names, drawName(rt, 10+i))
			imgs = append(imgs, M{"uri": spellURI(rt, names[len(names)-1], intn(rt, 0, 7, "how"))})
		}
		if nested(names) {
			return
		}
		text := mustJSON(M{"asset": M{"version": "2.0"}, "buffers": bufs, "images": imgs})
		c.Key(text)
		c.Sample("%s", text)
		doc, err := decode(text, fsys)
		if err != nil {
			rt.Fatalf("file doesn't load: %v\n%s", err, text)
		}
		c.NonTrivial(true)
		glb := rapid.Bool().Draw(rt, "glb")
		out := newMemFS()
		txt, err := encode(doc, glb, out)
		var again *gltf.Document
		if err == nil {
			again, err = decode(txt, out)
		}
		drift := ""
		if err != nil {
			drift = err.Error()
		} else {
			for i, b := range again.Buffers {
				if !bytes.Equal(b.Data, doc.Buffers[i].Data) {
					drift += fmt.Sprintf("buffer %d: %x became %x; ", i, doc.Buffers[i].Data, b.Data)
				}
			}
			drift += sameLoaded("document", reflect.ValueOf(doc), reflect.ValueOf(again))
			if drift == "" && !reflect.DeepEqual(fsys.files, out.files) {
				drift = fmt.Sprintf("files %q became %q", fsys.files, out.files)
			}
		}
		if drifts(names) {
			c.Label("name looks encoded")
			if drift == "" || known("uri-double-decoding") {
				return
			}
		}
		if drift != "" {
			rt.Fatalf("after load and save (glb=%v): %s\n%s", glb, drift, text)
		}
	})
}
