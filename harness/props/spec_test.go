package props

// An independent description of the glTF 2.0 JSON vocabulary (written from the
// specification, not from the code under test), a hand-written mapping from
// gltf.Document to that vocabulary, and comparison helpers.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"
)

type M = map[string]any
type A = []any

// pdef describes one property of a glTF object.
type pdef struct {
	typ string // int num str bool any, []int []num []str, code:NAME (enumeration), obj:K arr:K attrs arr:attrs, vec:N
	req bool
	def any // default of an optional property; nil when there is none
}

type kind map[string]pdef

func n(vals ...float64) A {
	a := make(A, len(vals))
	for i, v := range vals {
		a[i] = v
	}
	return a
}

var enumCodes = map[string][]any{
	"componentType": {5120., 5121., 5122., 5123., 5125., 5126.},
	"indexType":     {5120., 5121., 5122., 5123., 5125., 5126.},
	"accessorType":  {"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"},
	"target":        {34962., 34963.},
	"mode":          {0., 1., 2., 3., 4., 5., 6.},
	"alphaMode":     {"OPAQUE", "MASK", "BLEND"},
	"magFilter":     {9728., 9729.},
	"minFilter":     {9728., 9729., 9984., 9985., 9986., 9987.},
	"wrap":          {33071., 33648., 10497.},
	"interpolation": {"LINEAR", "STEP", "CUBICSPLINE"},
	"path":          {"translation", "rotation", "scale", "weights"},
	"camera":        {"perspective", "orthographic"},
}

var schema = func() map[string]kind {
	s := map[string]kind{
		"glTF": {
			"extensionsUsed": {typ: "[]str"}, "extensionsRequired": {typ: "[]str"},
			"accessors": {typ: "arr:accessor"}, "animations": {typ: "arr:animation"},
			"asset": {typ: "obj:asset", req: true}, "buffers": {typ: "arr:buffer"},
			"bufferViews": {typ: "arr:bufferView"}, "cameras": {typ: "arr:camera"},
			"images": {typ: "arr:image"}, "materials": {typ: "arr:material"},
			"meshes": {typ: "arr:mesh"}, "nodes": {typ: "arr:node"},
			"samplers": {typ: "arr:sampler"}, "scene": {typ: "int"},
			"scenes": {typ: "arr:scene"}, "skins": {typ: "arr:skin"}, "textures": {typ: "arr:texture"},
		},
		"asset": {
			"copyright": {typ: "str", def: ""}, "generator": {typ: "str", def: ""},
			"version": {typ: "str", req: true}, "minVersion": {typ: "str", def: ""},
		},
		"accessor": {
			"name": {typ: "str", def: ""}, "bufferView": {typ: "int"}, "byteOffset": {typ: "int", def: 0.},
			"componentType": {typ: "code:componentType", req: true}, "normalized": {typ: "bool", def: false},
			"count": {typ: "int", req: true}, "type": {typ: "code:accessorType", req: true},
			"max": {typ: "[]num"}, "min": {typ: "[]num"}, "sparse": {typ: "obj:sparse"},
		},
		"sparse": {
			"count": {typ: "int", req: true}, "indices": {typ: "obj:sparseIndices", req: true},
			"values": {typ: "obj:sparseValues", req: true},
		},
		"sparseIndices": {
			"bufferView": {typ: "int", req: true}, "byteOffset": {typ: "int", def: 0.},
			"componentType": {typ: "code:indexType", req: true},
		},
		"sparseValues": {"bufferView": {typ: "int", req: true}, "byteOffset": {typ: "int", def: 0.}},
		"buffer": {
			"name": {typ: "str", def: ""}, "uri": {typ: "str"}, "byteLength": {typ: "int", req: true},
		},
		"bufferView": {
			"name": {typ: "str", def: ""}, "buffer": {typ: "int", req: true}, "byteOffset": {typ: "int", def: 0.},
			"byteLength": {typ: "int", req: true}, "byteStride": {typ: "int"}, "target": {typ: "code:target"},
		},
		"scene": {"name": {typ: "str", def: ""}, "nodes": {typ: "[]int"}},
		"node": {
			"name": {typ: "str", def: ""}, "camera": {typ: "int"}, "children": {typ: "[]int"}, "skin": {typ: "int"},
			"matrix": {typ: "vec:16", def: n(1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1)}, "mesh": {typ: "int"},
			"rotation": {typ: "vec:4", def: n(0, 0, 0, 1)}, "scale": {typ: "vec:3", def: n(1, 1, 1)},
			"translation": {typ: "vec:3", def: n(0, 0, 0)}, "weights": {typ: "[]num"},
		},
		"skin": {
			"name": {typ: "str", def: ""}, "inverseBindMatrices": {typ: "int"}, "skeleton": {typ: "int"},
			"joints": {typ: "[]int", req: true},
		},
		"camera": {
			"name": {typ: "str", def: ""}, "type": {typ: "code:camera", req: true},
			"orthographic": {typ: "obj:orthographic"}, "perspective": {typ: "obj:perspective"},
		},
		"orthographic": {
			"xmag": {typ: "num", req: true}, "ymag": {typ: "num", req: true},
			"zfar": {typ: "num", req: true}, "znear": {typ: "num", req: true},
		},
		"perspective": {
			"aspectRatio": {typ: "num"}, "yfov": {typ: "num", req: true}, "zfar": {typ: "num"}, "znear": {typ: "num", req: true},
		},
		"mesh": {"name": {typ: "str", def: ""}, "primitives": {typ: "arr:primitive", req: true}, "weights": {typ: "[]num"}},
		"primitive": {
			"attributes": {typ: "attrs", req: true}, "indices": {typ: "int"}, "material": {typ: "int"},
			"mode": {typ: "code:mode", def: 4.}, "targets": {typ: "arr:attrs"},
		},
		"material": {
			"name": {typ: "str", def: ""}, "pbrMetallicRoughness": {typ: "obj:pbr"},
			"normalTexture": {typ: "obj:normalTexture"}, "occlusionTexture": {typ: "obj:occlusionTexture"},
			"emissiveTexture": {typ: "obj:textureInfo"}, "emissiveFactor": {typ: "vec:3", def: n(0, 0, 0)},
			"alphaMode": {typ: "code:alphaMode", def: "OPAQUE"}, "alphaCutoff": {typ: "num", def: 0.5},
			"doubleSided": {typ: "bool", def: false},
		},
		"pbr": {
			"baseColorFactor": {typ: "vec:4", def: n(1, 1, 1, 1)}, "baseColorTexture": {typ: "obj:textureInfo"},
			"metallicFactor": {typ: "num", def: 1.}, "roughnessFactor": {typ: "num", def: 1.},
			"metallicRoughnessTexture": {typ: "obj:textureInfo"},
		},
		"textureInfo":      {"index": {typ: "int", req: true}, "texCoord": {typ: "int", def: 0.}},
		"normalTexture":    {"index": {typ: "int"}, "texCoord": {typ: "int", def: 0.}, "scale": {typ: "num", def: 1.}},
		"occlusionTexture": {"index": {typ: "int"}, "texCoord": {typ: "int", def: 0.}, "strength": {typ: "num", def: 1.}},
		"texture":          {"name": {typ: "str", def: ""}, "sampler": {typ: "int"}, "source": {typ: "int"}},
		"sampler": {
			"name": {typ: "str", def: ""}, "magFilter": {typ: "code:magFilter"}, "minFilter": {typ: "code:minFilter"},
			"wrapS": {typ: "code:wrap", def: 10497.}, "wrapT": {typ: "code:wrap", def: 10497.},
		},
		"image": {
			"name": {typ: "str", def: ""}, "uri": {typ: "str"}, "mimeType": {typ: "str", def: ""}, "bufferView": {typ: "int"},
		},
		"animation": {
			"name": {typ: "str", def: ""}, "channels": {typ: "arr:animationChannel", req: true},
			"samplers": {typ: "arr:animationSampler", req: true},
		},
		"animationSampler": {
			"input": {typ: "int", req: true}, "interpolation": {typ: "code:interpolation", def: "LINEAR"},
			"output": {typ: "int", req: true},
		},
		"animationChannel":       {"sampler": {typ: "int", req: true}, "target": {typ: "obj:animationChannelTarget", req: true}},
		"animationChannelTarget": {"node": {typ: "int"}, "path": {typ: "code:path", req: true}},
	}
	for _, k := range s {
		k["extensions"] = pdef{typ: "ext"}
		k["extras"] = pdef{typ: "any"}
	}
	return s
}()

// ---------------------------------------------------------------- generic JSON

func parseJSON(b []byte) (any, error) {
	var v any
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	// only white space may follow
	rest := append([]byte{}, b[d.InputOffset():]...)
	if len(bytes.Trim(rest, " \t\r\n")) != 0 {
		return nil, fmt.Errorf("trailing data after JSON value: %q", rest)
	}
	return v, nil
}

// toGeneric turns any JSON-like value into generic JSON (map, slice, float64, string, bool, nil).
func toGeneric(v any) any {
	switch v := v.(type) {
	case nil:
		return nil
	case json.RawMessage:
		g, err := parseJSON(v)
		if err != nil {
			return "INVALID RAW JSON: " + string(v)
		}
		return g
	case []byte:
		g, err := parseJSON(v)
		if err != nil {
			return "INVALID RAW JSON: " + string(v)
		}
		return g
	case map[string]any:
		m := M{}
		for k, x := range v {
			m[k] = toGeneric(x)
		}
		return m
	case []any:
		a := make(A, len(v))
		for i, x := range v {
			a[i] = toGeneric(x)
		}
		return a
	case float64:
		return v
	case int:
		return float64(v)
	case string:
		return v
	case bool:
		return v
	}
	b, err := json.Marshal(v)
	if err != nil {
		return "UNMARSHALABLE " + err.Error()
	}
	g, _ := parseJSON(b)
	return g
}

// diffJSON returns "" when a and b are equal, or a description of the first difference.
func diffJSON(path string, a, b any) string {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: %s vs %s", path, show(a), show(b))
		}
		keys := map[string]bool{}
		for k := range x {
			keys[k] = true
		}
		for k := range y {
			keys[k] = true
		}
		ks := make([]string, 0, len(keys))
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			xv, xo := x[k]
			yv, yo := y[k]
			if xo != yo {
				if xo {
					return fmt.Sprintf("%s.%s: %s vs (absent)", path, k, show(xv))
				}
				return fmt.Sprintf("%s.%s: (absent) vs %s", path, k, show(yv))
			}
			if d := diffJSON(path+"."+k, xv, yv); d != "" {
				return d
			}
		}
		return ""
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: %s vs %s", path, show(a), show(b))
		}
		for i := range x {
			if d := diffJSON(fmt.Sprintf("%s[%d]", path, i), x[i], y[i]); d != "" {
				return d
			}
		}
		return ""
	case float64:
		y, ok := b.(float64)
		if !ok || (x != y && !(math.IsNaN(x) && math.IsNaN(y))) {
			return fmt.Sprintf("%s: %s vs %s", path, show(a), show(b))
		}
		return ""
	}
	if a != b {
		return fmt.Sprintf("%s: %s vs %s", path, show(a), show(b))
	}
	return ""
}

func show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	if len(b) > 400 {
		return string(b[:400]) + "..."
	}
	return string(b)
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

// conform checks v against the schema of kind k and returns a copy in which
// optional properties equal to their default are dropped; problems are appended to errs.
func conform(path, k string, v any, errs *[]string) any {
	m, ok := v.(map[string]any)
	if !ok {
		*errs = append(*errs, fmt.Sprintf("%s: want a %s object, got %s", path, k, show(v)))
		return v
	}
	kd := schema[k]
	out := M{}
	for key, val := range m {
		pd, ok := kd[key]
		if !ok {
			*errs = append(*errs, fmt.Sprintf("%s.%s: not a property of %s", path, key, k))
			continue
		}
		val = conformValue(path+"."+key, pd, val, errs)
		if e, ok := val.(map[string]any); ok && key == "extensions" {
			val = conformBuiltin(path+".extensions", k, e, errs)
		}
		if !pd.req && pd.def != nil && diffJSON("", val, pd.def) == "" {
			continue
		}
		if pd.typ == "any" && val == nil {
			continue
		}
		out[key] = val
	}
	for key, pd := range kd {
		if _, ok := m[key]; pd.req && !ok {
			*errs = append(*errs, fmt.Sprintf("%s.%s: required property missing", path, key))
		}
	}
	return out
}

func isInt(v any) bool {
	f, ok := v.(float64)
	return ok && f == math.Trunc(f)
}

func conformValue(path string, pd pdef, v any, errs *[]string) any {
	bad := func() any {
		*errs = append(*errs, fmt.Sprintf("%s: value %s is not of type %s", path, show(v), pd.typ))
		return v
	}
	each := func(ok func(any) bool) any {
		a, isA := v.([]any)
		if !isA {
			return bad()
		}
		for _, x := range a {
			if !ok(x) {
				return bad()
			}
		}
		return v
	}
	isNum := func(x any) bool { _, ok := x.(float64); return ok }
	switch t := pd.typ; {
	case t == "any":
		return v
	case t == "ext":
		if _, ok := v.(map[string]any); !ok {
			return bad()
		}
		return v
	case t == "int":
		if !isInt(v) {
			return bad()
		}
		return v
	case t == "num":
		if !isNum(v) {
			return bad()
		}
		return v
	case t == "str":
		if _, ok := v.(string); !ok {
			return bad()
		}
		return v
	case t == "bool":
		if _, ok := v.(bool); !ok {
			return bad()
		}
		return v
	case t == "[]int":
		return each(isInt)
	case t == "[]num":
		return each(isNum)
	case t == "[]str":
		return each(func(x any) bool { _, ok := x.(string); return ok })
	case strings.HasPrefix(t, "vec:"):
		var want int
		fmt.Sscanf(t, "vec:%d", &want)
		if a, ok := v.([]any); !ok || len(a) != want {
			return bad()
		}
		return each(isNum)
	case strings.HasPrefix(t, "code:"):
		for _, c := range enumCodes[t[5:]] {
			if c == v {
				return v
			}
		}
		return bad()
	case t == "attrs":
		return conformAttrs(path, v, errs)
	case t == "arr:attrs":
		a, ok := v.([]any)
		if !ok {
			return bad()
		}
		for i, x := range a {
			conformAttrs(fmt.Sprintf("%s[%d]", path, i), x, errs)
		}
		return v
	case strings.HasPrefix(t, "obj:"):
		return conform(path, t[4:], v, errs)
	case strings.HasPrefix(t, "arr:"):
		a, ok := v.([]any)
		if !ok {
			return bad()
		}
		out := make(A, len(a))
		for i, x := range a {
			out[i] = conform(fmt.Sprintf("%s[%d]", path, i), t[4:], x, errs)
		}
		return out
	}
	panic("harness: unknown type " + pd.typ)
}

func conformAttrs(path string, v any, errs *[]string) any {
	m, ok := v.(map[string]any)
	if !ok {
		*errs = append(*errs, fmt.Sprintf("%s: want an attributes object, got %s", path, show(v)))
		return v
	}
	for k, x := range m {
		if !isInt(x) {
			*errs = append(*errs, fmt.Sprintf("%s.%s: want an index, got %s", path, k, show(x)))
		}
	}
	return v
}

// ---------------------------------------------------------------- Document -> vocabulary

type specB struct{ m M }

func obj(ext gltf.Extensions, extras any) specB {
	b := specB{M{}}
	if len(ext) > 0 {
		e := M{}
		for k, v := range ext {
			e[k] = toGeneric(v)
		}
		b.m["extensions"] = e
	}
	if g := toGeneric(extras); g != nil {
		b.m["extras"] = g
	}
	return b
}

func (b specB) str(k, v string) {
	if v != "" {
		b.m[k] = v
	}
}
func (b specB) int(k string, v int) { b.m[k] = float64(v) }
func (b specB) int0(k string, v int) {
	if v != 0 {
		b.m[k] = float64(v)
	}
}
func (b specB) pint(k string, v *int) {
	if v != nil {
		b.m[k] = float64(*v)
	}
}
func (b specB) num(k string, v float64) { b.m[k] = v }
func (b specB) pnum(k string, v *float64, def float64) {
	if v != nil && *v != def {
		b.m[k] = *v
	}
}
func (b specB) pnumNoDef(k string, v *float64) {
	if v != nil {
		b.m[k] = *v
	}
}
func (b specB) bool(k string, v bool) {
	if v {
		b.m[k] = true
	}
}
func (b specB) ints(k string, v []int, req bool) {
	if len(v) == 0 && !req {
		return
	}
	a := make(A, len(v))
	for i, x := range v {
		a[i] = float64(x)
	}
	b.m[k] = a
}
func (b specB) nums(k string, v []float64) {
	if len(v) != 0 {
		b.m[k] = n(v...)
	}
}
func (b specB) strs(k string, v []string) {
	if len(v) == 0 {
		return
	}
	a := make(A, len(v))
	for i, x := range v {
		a[i] = x
	}
	b.m[k] = a
}

// vec stores v unless it equals the default or, when zeroUnset, is all zero.
func (b specB) vec(k string, v []float64, def []float64, zeroUnset bool) {
	zero, isDef := true, true
	for i := range v {
		zero = zero && v[i] == 0
		isDef = isDef && v[i] == def[i]
	}
	if isDef || zero && zeroUnset {
		return
	}
	b.m[k] = n(v...)
}

func (b specB) arr(k string, ln int, req bool, f func(i int) any) {
	if ln == 0 && !req {
		return
	}
	a := make(A, ln)
	for i := range a {
		a[i] = f(i)
	}
	b.m[k] = a
}

func attrs(m map[string]int) M {
	o := M{}
	for k, v := range m {
		o[k] = float64(v)
	}
	return o
}

var componentCode = map[gltf.ComponentType]float64{
	gltf.ComponentByte: 5120, gltf.ComponentUbyte: 5121, gltf.ComponentShort: 5122,
	gltf.ComponentUshort: 5123, gltf.ComponentUint: 5125, gltf.ComponentFloat: 5126,
}
var accessorCode = map[gltf.AccessorType]string{
	gltf.AccessorScalar: "SCALAR", gltf.AccessorVec2: "VEC2", gltf.AccessorVec3: "VEC3", gltf.AccessorVec4: "VEC4",
	gltf.AccessorMat2: "MAT2", gltf.AccessorMat3: "MAT3", gltf.AccessorMat4: "MAT4",
}
var modeCode = map[gltf.PrimitiveMode]float64{
	gltf.PrimitivePoints: 0, gltf.PrimitiveLines: 1, gltf.PrimitiveLineLoop: 2, gltf.PrimitiveLineStrip: 3,
	gltf.PrimitiveTriangles: 4, gltf.PrimitiveTriangleStrip: 5, gltf.PrimitiveTriangleFan: 6,
}
var alphaCode = map[gltf.AlphaMode]string{gltf.AlphaOpaque: "OPAQUE", gltf.AlphaMask: "MASK", gltf.AlphaBlend: "BLEND"}
var magCode = map[gltf.MagFilter]float64{gltf.MagNearest: 9728, gltf.MagLinear: 9729}
var minCode = map[gltf.MinFilter]float64{
	gltf.MinNearest: 9728, gltf.MinLinear: 9729, gltf.MinNearestMipMapNearest: 9984,
	gltf.MinLinearMipMapNearest: 9985, gltf.MinNearestMipMapLinear: 9986, gltf.MinLinearMipMapLinear: 9987,
}
var wrapCode = map[gltf.WrappingMode]float64{gltf.WrapRepeat: 10497, gltf.WrapClampToEdge: 33071, gltf.WrapMirroredRepeat: 33648}
var interpCode = map[gltf.Interpolation]string{gltf.InterpolationLinear: "LINEAR", gltf.InterpolationStep: "STEP", gltf.InterpolationCubicSpline: "CUBICSPLINE"}
var pathCode = map[gltf.TRSProperty]string{gltf.TRSTranslation: "translation", gltf.TRSRotation: "rotation", gltf.TRSScale: "scale", gltf.TRSWeights: "weights"}
var targetCode = map[gltf.Target]float64{gltf.TargetArrayBuffer: 34962, gltf.TargetElementArrayBuffer: 34963}

// specDoc maps a document to the JSON it must be equivalent to (defaults omitted).
// Null entries map to nil.
func specDoc(d *gltf.Document) M {
	b := obj(d.Extensions, d.Extras)
	b.strs("extensionsUsed", d.ExtensionsUsed)
	b.strs("extensionsRequired", d.ExtensionsRequired)
	b.pint("scene", d.Scene)
	a := obj(d.Asset.Extensions, d.Asset.Extras)
	a.str("copyright", d.Asset.Copyright)
	a.str("generator", d.Asset.Generator)
	a.str("minVersion", d.Asset.MinVersion)
	a.m["version"] = "2.0"
	a.str("version", d.Asset.Version)
	b.m["asset"] = a.m
	b.arr("accessors", len(d.Accessors), false, func(i int) any { return specAccessor(d.Accessors[i]) })
	b.arr("animations", len(d.Animations), false, func(i int) any { return specAnimation(d.Animations[i]) })
	b.arr("buffers", len(d.Buffers), false, func(i int) any {
		x := d.Buffers[i]
		if x == nil {
			return nil
		}
		o := obj(x.Extensions, x.Extras)
		o.str("name", x.Name)
		o.str("uri", x.URI)
		o.int("byteLength", x.ByteLength)
		return o.m
	})
	b.arr("bufferViews", len(d.BufferViews), false, func(i int) any {
		x := d.BufferViews[i]
		if x == nil {
			return nil
		}
		o := obj(x.Extensions, x.Extras)
		o.str("name", x.Name)
		o.int("buffer", x.Buffer)
		o.int0("byteOffset", x.ByteOffset)
		o.int("byteLength", x.ByteLength)
		o.int0("byteStride", x.ByteStride)
		if c, ok := targetCode[x.Target]; ok {
			o.num("target", c)
		} else if x.Target != gltf.TargetNone {
			o.num("target", float64(x.Target))
		}
		return o.m
	})
	b.arr("cameras", len(d.Cameras), false, func(i int) any { return specCamera(d.Cameras[i]) })
	b.arr("images", len(d.Images), false, func(i int) any {
		x := d.Images[i]
		if x == nil {
			return nil
		}
		o := obj(x.Extensions, x.Extras)
		o.str("name", x.Name)
		o.str("uri", x.URI)
		o.str("mimeType", x.MimeType)
		o.pint("bufferView", x.BufferView)
		return o.m
	})
	b.arr("materials", len(d.Materials), false, func(i int) any { return specMaterial(d.Materials[i]) })
	b.arr("meshes", len(d.Meshes), false, func(i int) any { return specMesh(d.Meshes[i]) })
	b.arr("nodes", len(d.Nodes), false, func(i int) any { return specNode(d.Nodes[i]) })
	b.arr("samplers", len(d.Samplers), false, func(i int) any {
		x := d.Samplers[i]
		if x == nil {
			return nil
		}
		o := obj(x.Extensions, x.Extras)
		o.str("name", x.Name)
		if c, ok := magCode[x.MagFilter]; ok {
			o.num("magFilter", c)
		}
		if c, ok := minCode[x.MinFilter]; ok {
			o.num("minFilter", c)
		}
		if x.WrapS != gltf.WrapRepeat {
			o.num("wrapS", wrapCode[x.WrapS])
		}
		if x.WrapT != gltf.WrapRepeat {
			o.num("wrapT", wrapCode[x.WrapT])
		}
		return o.m
	})
	b.arr("scenes", len(d.Scenes), false, func(i int) any {
		x := d.Scenes[i]
		if x == nil {
			return nil
		}
		o := obj(x.Extensions, x.Extras)
		o.str("name", x.Name)
		o.ints("nodes", x.Nodes, false)
		return o.m
	})
	b.arr("skins", len(d.Skins), false, func(i int) any {
		x := d.Skins[i]
		if x == nil {
			return nil
		}
		o := obj(x.Extensions, x.Extras)
		o.str("name", x.Name)
		o.pint("inverseBindMatrices", x.InverseBindMatrices)
		o.pint("skeleton", x.Skeleton)
		o.ints("joints", x.Joints, true)
		return o.m
	})
	b.arr("textures", len(d.Textures), false, func(i int) any {
		x := d.Textures[i]
		if x == nil {
			return nil
		}
		o := obj(x.Extensions, x.Extras)
		o.str("name", x.Name)
		o.pint("sampler", x.Sampler)
		o.pint("source", x.Source)
		return o.m
	})
	return b.m
}

func specAccessor(x *gltf.Accessor) any {
	if x == nil {
		return nil
	}
	o := obj(x.Extensions, x.Extras)
	o.str("name", x.Name)
	o.pint("bufferView", x.BufferView)
	o.int0("byteOffset", x.ByteOffset)
	o.num("componentType", componentCode[x.ComponentType])
	o.bool("normalized", x.Normalized)
	o.int("count", x.Count)
	o.m["type"] = accessorCode[x.Type]
	o.nums("max", x.Max)
	o.nums("min", x.Min)
	if s := x.Sparse; s != nil {
		p := obj(s.Extensions, s.Extras)
		p.int("count", s.Count)
		q := obj(s.Indices.Extensions, s.Indices.Extras)
		q.int("bufferView", s.Indices.BufferView)
		q.int0("byteOffset", s.Indices.ByteOffset)
		q.num("componentType", componentCode[s.Indices.ComponentType])
		p.m["indices"] = q.m
		v := obj(s.Values.Extensions, s.Values.Extras)
		v.int("bufferView", s.Values.BufferView)
		v.int0("byteOffset", s.Values.ByteOffset)
		p.m["values"] = v.m
		o.m["sparse"] = p.m
	}
	return o.m
}

func specAnimation(x *gltf.Animation) any {
	if x == nil {
		return nil
	}
	o := obj(x.Extensions, x.Extras)
	o.str("name", x.Name)
	o.arr("channels", len(x.Channels), true, func(i int) any {
		c := x.Channels[i]
		if c == nil {
			return nil
		}
		p := obj(c.Extensions, c.Extras)
		p.int("sampler", c.Sampler)
		t := obj(c.Target.Extensions, c.Target.Extras)
		t.pint("node", c.Target.Node)
		t.m["path"] = pathCode[c.Target.Path]
		p.m["target"] = t.m
		return p.m
	})
	o.arr("samplers", len(x.Samplers), true, func(i int) any {
		c := x.Samplers[i]
		if c == nil {
			return nil
		}
		p := obj(c.Extensions, c.Extras)
		p.int("input", c.Input)
		p.int("output", c.Output)
		if c.Interpolation != gltf.InterpolationLinear {
			p.m["interpolation"] = interpCode[c.Interpolation]
		}
		return p.m
	})
	return o.m
}

func specCamera(x *gltf.Camera) any {
	if x == nil {
		return nil
	}
	o := obj(x.Extensions, x.Extras)
	o.str("name", x.Name)
	if p := x.Perspective; p != nil {
		o.m["type"] = "perspective"
		q := obj(p.Extensions, p.Extras)
		q.pnumNoDef("aspectRatio", p.AspectRatio)
		q.num("yfov", p.Yfov)
		q.pnumNoDef("zfar", p.Zfar)
		q.num("znear", p.Znear)
		o.m["perspective"] = q.m
	}
	if p := x.Orthographic; p != nil {
		if x.Perspective == nil {
			o.m["type"] = "orthographic"
		}
		q := obj(p.Extensions, p.Extras)
		q.num("xmag", p.Xmag)
		q.num("ymag", p.Ymag)
		q.num("zfar", p.Zfar)
		q.num("znear", p.Znear)
		o.m["orthographic"] = q.m
	}
	return o.m
}

func specTextureInfo(x *gltf.TextureInfo) any {
	o := obj(x.Extensions, x.Extras)
	o.int("index", x.Index)
	o.int0("texCoord", x.TexCoord)
	return o.m
}

func specMaterial(x *gltf.Material) any {
	if x == nil {
		return nil
	}
	o := obj(x.Extensions, x.Extras)
	o.str("name", x.Name)
	if p := x.PBRMetallicRoughness; p != nil {
		q := obj(p.Extensions, p.Extras)
		if p.BaseColorFactor != nil {
			q.vec("baseColorFactor", p.BaseColorFactor[:], []float64{1, 1, 1, 1}, false)
		}
		if p.BaseColorTexture != nil {
			q.m["baseColorTexture"] = specTextureInfo(p.BaseColorTexture)
		}
		q.pnum("metallicFactor", p.MetallicFactor, 1)
		q.pnum("roughnessFactor", p.RoughnessFactor, 1)
		if p.MetallicRoughnessTexture != nil {
			q.m["metallicRoughnessTexture"] = specTextureInfo(p.MetallicRoughnessTexture)
		}
		o.m["pbrMetallicRoughness"] = q.m
	}
	if p := x.NormalTexture; p != nil {
		q := obj(p.Extensions, p.Extras)
		q.pint("index", p.Index)
		q.int0("texCoord", p.TexCoord)
		q.pnum("scale", p.Scale, 1)
		o.m["normalTexture"] = q.m
	}
	if p := x.OcclusionTexture; p != nil {
		q := obj(p.Extensions, p.Extras)
		q.pint("index", p.Index)
		q.int0("texCoord", p.TexCoord)
		q.pnum("strength", p.Strength, 1)
		o.m["occlusionTexture"] = q.m
	}
	if x.EmissiveTexture != nil {
		o.m["emissiveTexture"] = specTextureInfo(x.EmissiveTexture)
	}
	o.vec("emissiveFactor", x.EmissiveFactor[:], []float64{0, 0, 0}, false)
	if x.AlphaMode != gltf.AlphaOpaque {
		o.m["alphaMode"] = alphaCode[x.AlphaMode]
	}
	o.pnum("alphaCutoff", x.AlphaCutoff, 0.5)
	o.bool("doubleSided", x.DoubleSided)
	return o.m
}

func specMesh(x *gltf.Mesh) any {
	if x == nil {
		return nil
	}
	o := obj(x.Extensions, x.Extras)
	o.str("name", x.Name)
	o.nums("weights", x.Weights)
	o.arr("primitives", len(x.Primitives), true, func(i int) any {
		p := x.Primitives[i]
		if p == nil {
			return nil
		}
		q := obj(p.Extensions, p.Extras)
		q.m["attributes"] = attrs(p.Attributes)
		q.pint("indices", p.Indices)
		q.pint("material", p.Material)
		if p.Mode != gltf.PrimitiveTriangles {
			q.num("mode", modeCode[p.Mode])
		}
		q.arr("targets", len(p.Targets), false, func(i int) any { return attrs(p.Targets[i]) })
		return q.m
	})
	return o.m
}

func specNode(x *gltf.Node) any {
	if x == nil {
		return nil
	}
	o := obj(x.Extensions, x.Extras)
	o.str("name", x.Name)
	o.pint("camera", x.Camera)
	o.ints("children", x.Children, false)
	o.pint("skin", x.Skin)
	o.pint("mesh", x.Mesh)
	o.vec("matrix", x.Matrix[:], []float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, true)
	o.vec("rotation", x.Rotation[:], []float64{0, 0, 0, 1}, true)
	o.vec("scale", x.Scale[:], []float64{1, 1, 1}, true)
	o.vec("translation", x.Translation[:], []float64{0, 0, 0}, true)
	o.nums("weights", x.Weights)
	return o.m
}

// specSaved is specDoc of what a load returns after saving d: buffers that have
// data and no URI come back with an embedded URI (except the GLB binary chunk).
func specSaved(d *gltf.Document, binary bool) M {
	m := specDoc(d)
	bufs, _ := m["buffers"].([]any)
	for i, x := range d.Buffers {
		if x.URI == "" && len(x.Data) > 0 && !(binary && i == 0) {
			bufs[i].(M)["uri"] = dataURI(x.Data)
		}
	}
	return m
}

func dataURI(b []byte) string {
	return "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(b)
}

// ---------------------------------------------------------------- wrong types

// typeSite is one property of one object of a JSON document.
type typeSite struct {
	path string
	kind string
	obj  M
	key  string
	pd   pdef
}

// typeSites lists the typed properties of v, an object of kind k: those it has
// and those it could have. Nothing inside extensions and extras is listed.
func typeSites(path, k string, v any, out []typeSite) []typeSite {
	m, ok := v.(M)
	if !ok {
		return out
	}
	for _, key := range sortedKeys(schema[k]) {
		pd, p := schema[k][key], path+"."+key
		if pd.typ == "any" || pd.typ == "code:camera" { // the camera type is inferred from its properties
			continue
		}
		out = append(out, typeSite{p, k, m, key, pd})
		switch t := pd.typ; {
		case strings.HasPrefix(t, "obj:"):
			out = typeSites(p, t[4:], m[key], out)
		case strings.HasPrefix(t, "arr:") && t != "arr:attrs":
			a, _ := m[key].(A)
			for i, x := range a {
				out = typeSites(fmt.Sprintf("%s[%d]", p, i), t[4:], x, out)
			}
		}
	}
	return out
}

// wrongValue draws a JSON value that is not of the type of pd; good is the value it replaces.
func wrongValue(t *rapid.T, pd pdef, good any) any {
	str, num, frac, yes, arr, obj := any("1"), any(1.), any(1.5), any(true), any(A{}), any(M{})
	inArray := func(elems ...any) any {
		bad := elems[intn(t, 0, len(elems)-1, "wrong.elem")]
		a, _ := good.(A)
		a = append(A{}, a...)
		if len(a) == 0 {
			return A{bad}
		}
		a[intn(t, 0, len(a)-1, "wrong.at")] = bad
		return a
	}
	var c []any
	switch p := pd.typ; {
	case p == "int":
		c = []any{str, frac, yes, arr, obj, A{1.}}
	case p == "num":
		c = []any{str, yes, arr, obj, A{1.}}
	case p == "str":
		c = []any{num, yes, arr, obj, A{"a"}}
	case p == "bool":
		c = []any{str, num, any(0.), arr, obj, "true"}
	case p == "[]int":
		c = []any{str, num, yes, obj, inArray(str, frac, yes, arr, obj)}
		c = append(c, c[4])
	case p == "[]num", strings.HasPrefix(p, "vec:"):
		c = []any{str, num, yes, obj, inArray(str, yes, arr, obj)}
		c = append(c, c[4])
	case p == "[]str":
		c = []any{str, num, yes, obj, inArray(num, yes, arr, obj)}
	case strings.HasPrefix(p, "code:"):
		c = []any{yes, arr, obj}
		if _, isStr := enumCodes[p[5:]][0].(string); isStr {
			c = append(c, num, any(0.))
		} else {
			c = append(c, str, frac)
		}
	case p == "attrs":
		c = []any{str, num, yes, arr, M{"POSITION": str}, M{"POSITION": frac}, M{"POSITION": obj}, A{M{}}}
	case p == "ext", strings.HasPrefix(p, "obj:"):
		c = []any{str, num, yes, arr, A{M{}}}
	case strings.HasPrefix(p, "arr:"):
		c = []any{str, num, yes, obj, inArray(str, num, yes, arr)}
	default:
		panic("harness: type " + p)
	}
	return c[intn(t, 0, len(c)-1, "wrong")]
}
