package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"testing"
	"unsafe"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/modeler"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C30

// region is memory that can be changed through a value.
type region struct {
	from, to uintptr
	path     string
}

// regions collects the memory that is reachable from v, with slices up to their capacity.
func regions(v reflect.Value, path string, out *[]region) {
	add := func(p unsafe.Pointer, size uintptr) {
		if size > 0 && p != nil {
			*out = append(*out, region{uintptr(p), uintptr(p) + size, path})
		}
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			add(v.UnsafePointer(), v.Type().Elem().Size())
			regions(v.Elem(), path, out)
		}
	case reflect.Interface:
		if !v.IsNil() {
			regions(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			regions(v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Slice:
		if v.Cap() > 0 {
			add(v.UnsafePointer(), uintptr(v.Cap())*v.Type().Elem().Size())
		}
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			regions(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Array:
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			regions(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		add(v.UnsafePointer(), 1)
		for _, k := range v.MapKeys() {
			regions(v.MapIndex(k), fmt.Sprintf("%s[%v]", path, k), out)
		}
	}
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Array, reflect.Map:
		return false
	}
	return true
}

// shared names two places of rs that share memory.
func shared(rs []region) string {
	sort.Slice(rs, func(i, j int) bool { return rs[i].from < rs[j].from })
	end, path := uintptr(0), ""
	for _, r := range rs {
		if r.from < end {
			return path + " and " + r.path
		}
		if r.to > end {
			end, path = r.to, r.path
		}
	}
	return ""
}

// scramble changes all that is reachable from v in place, and the spare capacity of slices.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem())
			if x := reflect.ValueOf("scrambled"); v.CanSet() && x.Type().AssignableTo(v.Type()) {
				v.Set(x)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i))
		}
	case reflect.Slice:
		if v.CanInterface() {
			if b, ok := v.Interface().([]byte); ok {
				b = b[:cap(b)]
				for i := range b {
					b[i] ^= 0x55
				}
				return
			}
		}
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
		for all, i := v.Slice(0, v.Cap()), v.Len(); i < v.Cap(); i++ {
			if x := all.Index(i); flat(x.Type()) {
				scramble(x)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			x := reflect.New(v.Type().Elem()).Elem()
			x.Set(v.MapIndex(k))
			scramble(x)
			v.SetMapIndex(k, x)
		}
		if x := reflect.ValueOf("scrambled"); v.Type().Key().Kind() == reflect.String && !v.IsNil() {
			v.SetMapIndex(x.Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x55)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float()/2 + 12345)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	}
}

// globals are the package-level values that a caller could reach.
func globals() map[string]any {
	return map[string]any{"gltf.DefaultMatrix": &gltf.DefaultMatrix, "gltf.DefaultRotation": &gltf.DefaultRotation, "gltf.DefaultScale": &gltf.DefaultScale,
		"gltf.DefaultTranslation": &gltf.DefaultTranslation, "texturetransform.DefaultScale": &texturetransform.DefaultScale}
}

func TestC30Independent(t *testing.T) {
	root := tempRoot(t)
	cnt := 0
	pristine := cloneDoc(gltf.NewDocument())
	Prop(t, Opt{Quick: 600, Rule: "case = history of 2-6 loads (Decode from memory or files, Open, the same or different files, GLB or glTF), new documents and modeler writes, each document in turn changed everywhere in place; the memory reachable from the documents, the inputs and the package defaults must be disjoint and what was not changed must stay equal; non-trivial = the same file was loaded twice or two buffers refer to one file; distinct by history"}, func(rt *rapid.T, c *Case) {
		cnt++
		dir := filepath.Join(root, fmt.Sprint(cnt))
		must(os.Mkdir(dir, 0o755))
		defer os.RemoveAll(dir)
		type file struct {
			text  []byte
			m     *memFS
			name  string
			first *gltf.Document // a copy of what the first load gave
			loads int
		}
		var files []*file
		for i, n := 0, pick(rt, "files", 1, 1, 2); i < n; i++ {
			d := pureDoc(rt)
			for _, b := range d.Buffers {
				if len(b.Data) == 0 {
					b.Data = payload(rt, b.ByteLength, "data")
				}
			}
			for i, im := range d.Images { // the images may name the same file as well
				if i > 0 && im.URI == "" && im.BufferView == nil {
					im.URI = d.Images[0].URI
				}
			}
			sub := filepath.Join(dir, fmt.Sprint(i))
			must(os.Mkdir(sub, 0o755))
			f := &file{m: newMemFS(), name: filepath.Join(sub, "doc.gltf")}
			var err error
			if f.text, err = encode(d, rapid.Bool().Draw(rt, "bin"), f.m); err != nil {
				rt.Fatalf("Encode: %v", err)
			}
			if len(f.m.files) > 0 && chance(rt, 40, "same file") { // two more buffers that refer to one file
				d2, err := decode(f.text, f.m)
				if err != nil {
					rt.Fatalf("Decode: %v", err)
				}
				for _, b := range d2.Buffers {
					if name := b.URI; len(b.Data) > 0 && f.m.files[name] != nil {
						d2.Buffers = append(d2.Buffers, &gltf.Buffer{URI: name, ByteLength: b.ByteLength}, &gltf.Buffer{URI: name, ByteLength: 1})
						c.NonTrivial(true)
						break
					}
				}
				b, err := encode(d2, false, nil)
				if err != nil {
					rt.Fatalf("Encode: %v", err)
				}
				f.text = b
			}
			must(os.WriteFile(f.name, f.text, 0o644))
			for name, b := range f.m.files {
				p := filepath.Join(sub, filepath.FromSlash(name))
				must(os.MkdirAll(filepath.Dir(p), 0o755))
				must(os.WriteFile(p, b, 0o644))
			}
			files = append(files, f)
		}
		type live struct {
			d, copy *gltf.Document
			what    string
		}
		var docs []live
		log := ""
		defaults := map[string]any{}
		for k, v := range globals() {
			defaults[k] = clone(reflect.ValueOf(v)).Interface()
		}
		check := func() {
			var rs []region
			for _, x := range docs {
				regions(reflect.ValueOf(x.d), x.what, &rs)
			}
			for k, v := range globals() {
				regions(reflect.ValueOf(v), k, &rs)
			}
			for i, f := range files {
				regions(reflect.ValueOf(f.text), fmt.Sprintf("input %d", i), &rs)
				for name, b := range f.m.files {
					regions(reflect.ValueOf(b), fmt.Sprintf("file %q of input %d", name, i), &rs)
				}
			}
			if s := shared(rs); s != "" {
				rt.Fatalf("%s share memory\nhistory:%s", s, log)
			}
		}
		for i, n := 0, intn(rt, 2, 6, "steps"); i < n; i++ {
			x := live{what: fmt.Sprintf("document %d", i)}
			switch pick(rt, "step", "load", "load", "load", "load", "new", "write") {
			case "load":
				k := intn(rt, 0, len(files)-1, "file")
				f := files[k]
				f.loads++
				var err error
				if rapid.Bool().Draw(rt, "open") {
					log += fmt.Sprintf("\n%s: Open file %d", x.what, k)
					x.d, err = gltf.Open(f.name)
				} else {
					log += fmt.Sprintf("\n%s: Decode file %d", x.what, k)
					x.d, err = decode(f.text, f.m)
				}
				if err != nil {
					rt.Fatalf("loading: %v\nhistory:%s", err, log)
				}
				c.NonTrivial(f.loads > 1)
				if f.first == nil {
					f.first = cloneDoc(x.d)
				} else if !reflect.DeepEqual(f.first, x.d) {
					rt.Fatalf("the file loads differently than at first\nhistory:%s", log)
				}
			case "new":
				log += "\n" + x.what + ": NewDocument"
				x.d = gltf.NewDocument()
				if !reflect.DeepEqual(x.d, pristine) {
					rt.Fatalf("NewDocument differs from the first one: %+v\nhistory:%s", x.d, log)
				}
			case "write":
				log += "\n" + x.what + ": modeler"
				x.d = new(gltf.Document)
				a, b := drawPositions(rt, "a", intn(rt, 1, 5, "n")), drawPositions(rt, "b", intn(rt, 1, 5, "m"))
				modeler.WritePosition(x.d, a.data.([][3]float32))
				modeler.WritePosition(x.d, b.data.([][3]float32))
				modeler.WritePrimitiveAttributes(x.d, modeler.PrimitiveAttribute{Name: "POSITION", Data: a.data}, modeler.PrimitiveAttribute{Name: "NORMAL", Data: a.data})
				modeler.WritePrimitiveAttributes(x.d, modeler.PrimitiveAttribute{Name: "POSITION", Data: b.data})
				if len(x.d.Accessors) != 5 {
					rt.Fatalf("%d accessors\nhistory:%s", len(x.d.Accessors), log)
				}
				modeler.WriteImage(x.d, "a", "image/png", bytes.NewBuffer(payload(rt, 7, "image")))
				modeler.WriteImage(x.d, "b", "image/png", bytes.NewReader(payload(rt, 9, "image")))
			}
			x.copy = cloneDoc(x.d)
			docs = append(docs, x)
			check()
			if chance(rt, 60, "scramble") {
				k := intn(rt, 0, len(docs)-1, "which")
				log += "\nchange " + docs[k].what
				scramble(reflect.ValueOf(docs[k].d))
				docs = append(docs[:k:k], docs[k+1:]...)
				for _, y := range docs {
					if !reflect.DeepEqual(y.copy, y.d) {
						rt.Fatalf("%s changed\nhistory:%s", y.what, log)
					}
				}
				for k, v := range globals() {
					if !reflect.DeepEqual(v, defaults[k]) {
						rt.Fatalf("%s changed\nhistory:%s", k, log)
					}
				}
			}
		}
		c.Key(log, len(files[0].text))
		c.Sample("%s", log)
	})
}
