package props

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C29

type (
	namedIndices []uint16
	namedColor   [4]uint8
	namedFloat   float32
)

// foreign are slices, of n elements, that no writer accepts.
var foreign = []func(n int) any{
	func(n int) any { return make([]int, n) },
	func(n int) any { return make([]uint64, n) },
	func(n int) any { return make([]float64, n) },
	func(n int) any { return make([]bool, n) },
	func(n int) any { return make([]string, n) },
	func(n int) any { return make([]any, n) },
	func(n int) any { return make([][2]float64, n) },
	func(n int) any { return make([][4]int, n) },
	func(n int) any { return make([][5]uint8, n) },
	func(n int) any { return make([][]float32, n) },
	func(n int) any { return make([]*[4]uint8, n) },
	func(n int) any { return make([]namedColor, n) },
	func(n int) any { return make([][4]namedFloat, n) },
	func(n int) any { return make([][2]namedFloat, n) },
}

// typedWriter is a writer of one attribute, what it accepts and how that is read.
type typedWriter struct {
	name    string
	kinds   []elem
	rgba    bool // color.RGBA and color.RGBA64 are accepted
	open    bool // takes any data; otherwise the type is fixed by the signature
	write   func(doc *gltf.Document, data any) (int, error)
	readers []string
	norm    bool
}

func attribute(name string) func(doc *gltf.Document, data any) (int, error) {
	return func(doc *gltf.Document, data any) (int, error) {
		attrs, err := modeler.WritePrimitiveAttributes(doc, modeler.PrimitiveAttribute{Name: name, Data: data})
		if err != nil {
			return 0, err
		}
		i, ok := attrs[name]
		if !ok || len(attrs) != 1 {
			return 0, fmt.Errorf("WritePrimitiveAttributes returned %v for %s", attrs, name)
		}
		return i, nil
	}
}

func direct(f func(*gltf.Document, any) int) func(doc *gltf.Document, data any) (int, error) {
	return func(doc *gltf.Document, data any) (int, error) { return f(doc, data), nil }
}

func fixed[T any](f func(*gltf.Document, []T) int) func(doc *gltf.Document, data any) (int, error) {
	return func(doc *gltf.Document, data any) (int, error) { return f(doc, data.([]T)), nil }
}

var colorReaders = []string{"ReadColor", "ReadColor64"}

var typedWriters = func() []typedWriter {
	tex, weights, joints, colors := attrKinds["TEXCOORD_0"].kinds, attrKinds["WEIGHTS_0"].kinds, attrKinds["JOINTS_0"].kinds, attrKinds["COLOR_0"].kinds
	return []typedWriter{
		{"WriteIndices", []elem{ushrt1, uint1}, false, true, direct(modeler.WriteIndices), []string{"ReadIndices"}, false},
		{"WriteNormal", []elem{float3}, false, false, fixed(modeler.WriteNormal), []string{"ReadNormal", "ReadPosition"}, false},
		{"WriteTangent", []elem{float4}, false, false, fixed(modeler.WriteTangent), []string{"ReadTangent"}, false},
		{"WritePosition", []elem{float3}, false, false, fixed(modeler.WritePosition), []string{"ReadPosition", "ReadNormal"}, false},
		{"WriteInverseBindMatrices", []elem{floatM}, false, false, fixed(modeler.WriteInverseBindMatrices), []string{"ReadInverseBindMatrices"}, false},
		{"WriteTextureCoord", tex, false, true, direct(modeler.WriteTextureCoord), []string{"ReadTextureCoord"}, true},
		{"WriteWeights", weights, false, true, direct(modeler.WriteWeights), []string{"ReadWeights"}, true},
		{"WriteJoints", joints, false, true, direct(modeler.WriteJoints), []string{"ReadJoints"}, false},
		{"WriteColor", colors, true, true, direct(modeler.WriteColor), colorReaders, true},
		{"attribute POSITION", []elem{float3}, false, true, attribute("POSITION"), []string{"ReadPosition"}, false},
		{"attribute NORMAL", []elem{float3}, false, false, attribute("NORMAL"), []string{"ReadNormal"}, false},
		{"attribute TANGENT", []elem{float4}, false, false, attribute("TANGENT"), []string{"ReadTangent"}, false},
		{"attribute TEXCOORD_0", tex, false, true, attribute("TEXCOORD_0"), []string{"ReadTextureCoord"}, true},
		{"attribute TEXCOORD_1", tex, false, true, attribute("TEXCOORD_1"), []string{"ReadTextureCoord"}, true},
		{"attribute WEIGHTS_0", weights, false, true, attribute("WEIGHTS_0"), []string{"ReadWeights"}, true},
		{"attribute JOINTS_0", joints, false, true, attribute("JOINTS_0"), []string{"ReadJoints"}, false},
		{"attribute COLOR_0", colors, true, true, attribute("COLOR_0"), colorReaders, true},
	}
}()

func readerNamed(name string) *typedReader {
	for i := range typedReaders {
		if typedReaders[i].name == name {
			return &typedReaders[i]
		}
	}
	panic("harness: no reader " + name)
}

// unit maps every float component to 0..1, as colors have them.
func (v *vdata) unit() {
	if v.k.c != gltf.ComponentFloat {
		return
	}
	rgba := reflect.TypeOf(v.data).Elem() == rgbaType(v.k)
	for _, el := range v.els {
		for j := range el {
			f := float32(el[j]>>8) / (1 << 24)
			switch el[j] % 8 {
			case 0:
				f = float32(el[j] >> 8 % 2)
			case 1:
				f = float32(el[j]>>8%256) / 255
			}
			el[j] = math.Float32bits(min(f, 1))
		}
	}
	v.data = v.k.slice(v.els, rgba)
}

func TestC29Writers(t *testing.T) {
	Prop(t, Opt{Quick: 3000, Rule: "case = 1-5 calls of typed writers (or of WritePrimitiveAttributes with one attribute) on one document, with slices of the types the attribute allows or of any other type, then every accepted slice read with the reader of its attribute, often after a save and load; non-trivial = an accepted slice of two or more elements or a refused type; distinct by calls"}, func(rt *rapid.T, c *Case) {
		doc := prefixDoc(rt)
		type wrote struct {
			w   *typedWriter
			v   vdata
			acc int
		}
		var all []wrote
		log := ""
		for i, n := 0, intn(rt, 1, 5, "calls"); i < n; i++ {
			w := &typedWriters[intn(rt, 0, len(typedWriters)-1, "writer")]
			count := max(1, drawCount(rt, "count"))
			var v vdata
			allowed := true
			switch {
			case w.kinds[0] == float3:
				v = drawPositions(rt, "data", count)
			default:
				v = drawData(rt, "data", count, w.rgba, w.kinds...)
			}
			if w.rgba {
				v.unit()
			}
			if w.open && chance(rt, 40, "any type") {
				if chance(rt, 40, "foreign") {
					v = vdata{data: foreign[intn(rt, 0, len(foreign)-1, "foreign")](count)}
					if chance(rt, 10, "named") {
						v.data = make(namedIndices, count)
					}
					allowed = false
				} else {
					v = drawData(rt, "other", count, true, allElems...)
					allowed = false
					for _, k := range w.kinds {
						allowed = allowed || k == v.k
					}
					if rgbaType(v.k) != nil && reflect.TypeOf(v.data).Elem() == rgbaType(v.k) && !w.rgba {
						allowed = false
					}
					if w.rgba && allowed {
						v.unit()
					}
					if allowed && v.k == float3 && !w.rgba {
						v = drawPositions(rt, "data", count)
					}
				}
			}
			before := cloneDoc(doc)
			var acc int
			var err error
			p := call(func() { acc, err = w.write(doc, v.data) })
			log += fmt.Sprintf("\n%s(%d %T)", w.name, count, v.data)
			if !allowed {
				c.NonTrivial(true)
				c.Label("refused type")
				if p == "" && err == nil {
					rt.Fatalf("accepted:%s", log)
				}
				if !reflect.DeepEqual(before, doc) {
					rt.Fatalf("the refused call changed the document:%s", log)
				}
				continue
			}
			if p != "" || err != nil {
				rt.Fatalf("refused: %s %v%s", p, err, log)
			}
			if acc != len(before.Accessors) || len(doc.Accessors) != acc+1 {
				rt.Fatalf("returned %d, the document had %d accessors and has %d:%s", acc, len(before.Accessors), len(doc.Accessors), log)
			}
			c.NonTrivial(count > 1)
			c.Label(w.name)
			all = append(all, wrote{w, v, acc})
			if chance(rt, 30, "ruin") {
				v.ruin()
			}
		}
		c.Key(log)
		c.Sample("%s", log)
		if len(all) > 0 && chance(rt, 40, "reload") {
			m := newMemFS()
			b, err := encode(doc, rapid.Bool().Draw(rt, "bin"), m)
			if err != nil {
				rt.Fatalf("saving: %v%s", err, log)
			}
			if doc, err = decode(b, m); err != nil {
				rt.Fatalf("loading: %v%s", err, log)
			}
			c.Label("reloaded")
		}
		for _, x := range all {
			a := doc.Accessors[x.acc]
			if norm := x.w.norm && x.v.k.c != gltf.ComponentFloat; a.Normalized != norm {
				rt.Fatalf("accessor %d of %s: normalized %v, want %v%s", x.acc, x.w.name, a.Normalized, norm, log)
			}
			for _, name := range x.w.readers {
				r := readerNamed(name)
				dst, _ := drawDst(rt, r.out, len(x.v.els), "dst")
				var got any
				var err error
				p := call(func() { got, err = r.read(doc, a, dst) })
				if p != "" || err != nil {
					rt.Fatalf("%s refuses what %s wrote (%d %v): %v %s%s", name, x.w.name, len(x.v.els), x.v.k, err, p, log)
				}
				if d := r.check(x.v.k, x.v.els, got); d != "" {
					rt.Fatalf("%s of what %s wrote (%d %v): %s%s", name, x.w.name, len(x.v.els), x.v.k, d, log)
				}
			}
		}
	})
}
