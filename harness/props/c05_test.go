package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"pgregory.net/rapid"
)

// Schemas of the built-in extensions.
func init() {
	schema["ext:lights"] = kind{"lights": {typ: "arr:ext:light"}}
	schema["ext:light"] = kind{
		"type": {typ: "code:light", req: true}, "name": {typ: "str", def: ""}, "color": {typ: "vec:3", def: n(1, 1, 1)},
		"intensity": {typ: "num", def: 1.}, "range": {typ: "num"}, "spot": {typ: "obj:ext:spot"},
	}
	enumCodes["light"] = []any{"directional", "point", "spot"}
	schema["ext:spot"] = kind{"innerConeAngle": {typ: "num", def: 0.}, "outerConeAngle": {typ: "num", def: math.Pi / 4}}
	schema["ext:nodelight"] = kind{"light": {typ: "int", req: true}}
	schema["ext:specular"] = kind{
		"diffuseFactor": {typ: "vec:4", def: n(1, 1, 1, 1)}, "diffuseTexture": {typ: "obj:textureInfo"},
		"specularFactor": {typ: "vec:3", def: n(1, 1, 1)}, "glossinessFactor": {typ: "num", def: 1.},
		"specularGlossinessTexture": {typ: "obj:textureInfo"},
	}
	schema["ext:transform"] = kind{
		"offset": {typ: "vec:2", def: n(0, 0)}, "rotation": {typ: "num", def: 0.}, "scale": {typ: "vec:2", def: n(1, 1)}, "texCoord": {typ: "int"},
	}
}

// objGen draws JSON objects of a schema kind in which every optional property
// is present or absent at random.
type objGen struct {
	t       *rapid.T
	pct     int // probability of each optional property
	bufs    int
	objects int
	present int
	absent  int
	ext     func(g *objGen, kind string) any // draws the extensions member; nil: none
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (g *objGen) object(k string) M {
	g.objects++
	if k == "buffer" {
		g.bufs++
		l := intn(g.t, 1, 9, "buffer.len")
		m := M{"byteLength": float64(l), "uri": dataURI(payload(g.t, l, "buffer.data"))}
		if rapid.Bool().Draw(g.t, "buffer.name?") {
			m["name"] = text(g.t, "buffer.name")
		}
		return m
	}
	pct := g.pct
	if k != "glTF" {
		pct = pick(g.t, k+".density", 10, 50, 90)
	}
	m := M{}
	kd := schema[k]
	for _, key := range sortedKeys(kd) {
		pd := kd[key]
		switch {
		case key == "extensions":
			if g.ext != nil {
				if v := g.ext(g, k); v != nil {
					m[key] = v
				}
			}
			continue
		case key == "extras":
			if chance(g.t, 10, "extras?") {
				m[key] = jsonValue(g.t, 1, "extras")
			}
			continue
		}
		if !pd.req && !chance(g.t, pct, k+"."+key+"?") {
			g.absent++
			continue
		}
		if !pd.req {
			g.present++
		}
		m[key] = g.value(k+"."+key, pd)
	}
	return m
}

func (g *objGen) value(label string, pd pdef) any {
	t := g.t
	// the values that look unset and the default itself are as likely as others
	if pd.def != nil && chance(t, 20, label+".def") {
		return copyDef(pd.def)
	}
	switch {
	case pd.typ == "int":
		if label == "bufferView.byteStride" {
			return float64(intn(t, 1, 63, label) * 4) // 0 is not a valid stride
		}
		return float64(pick(t, label, 0, 0, 1, 2, 7, 1000, 1<<31, 1<<40))
	case pd.typ == "num":
		if chance(t, 30, label+".zero") {
			return 0.
		}
		if def, ok := pd.def.(float64); ok && chance(t, 20, label+".nearby") {
			return nearby(t, def, label)
		}
		return num(t, label)
	case pd.typ == "str":
		if label == "image.uri" {
			return pick(t, label, "t.png", "d/t.jpg", "data:image/png;base64,AAAA")
		}
		if label == "asset.version" {
			return pick(t, label, "2.0", "2.1", "2.0 x") // the empty string is not a version
		}
		if chance(t, 20, label+".empty") {
			return ""
		}
		return text(t, label)
	case pd.typ == "bool":
		return rapid.Bool().Draw(t, label)
	case strings.HasPrefix(pd.typ, "code:"):
		codes := enumCodes[pd.typ[5:]]
		return codes[intn(t, 0, len(codes)-1, label)]
	case strings.HasPrefix(pd.typ, "vec:"):
		var k int
		fmt.Sscan(pd.typ[4:], &k)
		v := make([]float64, k)
		def := make([]float64, k)
		if d, ok := pd.def.([]any); ok {
			for i := range def {
				def[i] = d[i].(float64)
			}
		}
		vecN(t, label, def, v, true)
		return n(v...)
	case pd.typ == "[]int":
		a := A{}
		for i, k := 0, intn(t, 0, 3, label+".n"); i < k; i++ {
			a = append(a, float64(intn(t, 0, 9, label)))
		}
		return a
	case pd.typ == "[]num":
		return n(nums(t, 0, 4, label)...)
	case pd.typ == "[]str":
		a := A{}
		for i, k := 0, intn(t, 0, 3, label+".n"); i < k; i++ {
			a = append(a, text(t, label))
		}
		return a
	case pd.typ == "attrs":
		return g.attrs(label)
	case pd.typ == "arr:attrs":
		a := A{}
		for i, k := 0, intn(t, 0, 2, label+".n"); i < k; i++ {
			a = append(a, g.attrs(label))
		}
		return a
	case strings.HasPrefix(pd.typ, "arr:"):
		a := A{}
		for i, k := 0, intn(t, 1, 2, label+".n"); i < k; i++ {
			a = append(a, g.object(pd.typ[4:]))
		}
		return a
	case strings.HasPrefix(pd.typ, "obj:"):
		return g.object(pd.typ[4:])
	}
	panic("harness: no generator for " + pd.typ)
}

// copyDef copies a default, for the edits that change trees in place.
func copyDef(v any) any {
	if a, ok := v.([]any); ok {
		return append(A{}, a...)
	}
	return v
}

func (g *objGen) attrs(label string) M {
	m := M{}
	for i, k := 0, intn(g.t, 0, 3, label+".n"); i < k; i++ {
		m[pick(g.t, label+".name", attrNames...)] = float64(intn(g.t, 0, 9, label))
	}
	return m
}

func goField(key string) string {
	switch key {
	case "uri":
		return "URI"
	case "pbrMetallicRoughness":
		return "PBRMetallicRoughness"
	}
	return strings.ToUpper(key[:1]) + key[1:]
}

// goCode returns the glTF code of an enumeration constant.
func goCode(v any) (any, bool) {
	switch v := v.(type) {
	case string:
		return v, true
	case gltf.ComponentType:
		c, ok := componentCode[v]
		return c, ok
	case gltf.AccessorType:
		c, ok := accessorCode[v]
		return c, ok
	case gltf.PrimitiveMode:
		c, ok := modeCode[v]
		return c, ok
	case gltf.AlphaMode:
		c, ok := alphaCode[v]
		return c, ok
	case gltf.MagFilter:
		c, ok := magCode[v]
		return c, ok
	case gltf.MinFilter:
		c, ok := minCode[v]
		return c, ok
	case gltf.WrappingMode:
		c, ok := wrapCode[v]
		return c, ok
	case gltf.Interpolation:
		c, ok := interpCode[v]
		return c, ok
	case gltf.TRSProperty:
		c, ok := pathCode[v]
		return c, ok
	case gltf.Target:
		c, ok := targetCode[v]
		return c, ok
	}
	return nil, false
}

// checkDecoded compares the decoded Go object v with the JSON object m of kind
// k, field by field: a present property must hold exactly the written value, an
// absent one its default (nil or zero when it has none).
func checkDecoded(path, k string, m M, v reflect.Value) string {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return path + ": object is nil"
		}
		v = v.Elem()
	}
	kd := schema[k]
	for _, key := range sortedKeys(kd) {
		if k == "camera" && key == "type" {
			continue
		}
		pd := kd[key]
		p := path + "." + key
		if key == "extensions" {
			if e, ok := m[key].(M); ok {
				if d := checkBuiltin(p, k, e, v.FieldByName("Extensions").Interface().(gltf.Extensions)); d != "" {
					return d
				}
			}
			continue
		}
		want, present := m[key]
		f := v.FieldByName(goField(key))
		if !f.IsValid() {
			if strings.HasPrefix(k, "ext:") && key == "extras" {
				continue
			}
			return p + ": no such Go field"
		}
		if key == "extras" {
			if d := diffJSON(p, want, toGeneric(f.Interface())); d != "" {
				return d
			}
			continue
		}
		if d := checkField(p, k, pd, present, want, f); d != "" {
			return d
		}
	}
	return ""
}

func checkField(p, k string, pd pdef, present bool, want any, f reflect.Value) string {
	state := "absent"
	if present {
		state = "written as " + show(want)
	}
	fail := func() string { return fmt.Sprintf("%s: %s but decoded as %#v", p, state, deref(f)) }
	if f.Kind() == reflect.Pointer && !strings.HasPrefix(pd.typ, "obj:") {
		if f.IsNil() {
			if present && !(pd.def != nil && diffJSON("", want, pd.def) == "") {
				return fail()
			}
			return ""
		}
		f = f.Elem()
		if !present && pd.def == nil {
			if k == "ext:light" && strings.HasSuffix(p, ".range") && math.IsInf(f.Float(), 1) {
				return ""
			}
			return fail()
		}
	}
	switch {
	case strings.HasPrefix(pd.typ, "obj:"):
		if !present {
			if f.Kind() != reflect.Pointer || !f.IsNil() {
				return fail()
			}
			return ""
		}
		return checkDecoded(p, pd.typ[4:], want.(M), f)
	case pd.typ == "attrs" || pd.typ == "arr:attrs":
		var a any
		switch x := f.Interface().(type) {
		case gltf.PrimitiveAttributes:
			a = attrs(x)
		case []gltf.PrimitiveAttributes:
			l := A{}
			for _, e := range x {
				l = append(l, attrs(e))
			}
			a = l
		}
		if !present {
			if f.Len() != 0 {
				return fail()
			}
			return ""
		}
		return diffJSON(p, want, a)
	case strings.HasPrefix(pd.typ, "arr:"):
		var l A
		if present {
			l = want.(A)
		}
		if f.Len() != len(l) {
			return fail()
		}
		for i := range l {
			if d := checkDecoded(fmt.Sprintf("%s[%d]", p, i), pd.typ[4:], l[i].(M), f.Index(i)); d != "" {
				return d
			}
		}
		return ""
	}
	if !present {
		if want = pd.def; want == nil {
			switch f.Kind() {
			case reflect.Slice:
				want = A{}
			case reflect.String:
				want = ""
			case reflect.Bool:
				want = false
			default:
				if !f.IsZero() {
					return fail()
				}
				return ""
			}
		}
	}
	if strings.HasPrefix(pd.typ, "code:") {
		c, ok := goCode(f.Interface())
		if !ok || diffJSON("", want, c) != "" {
			return fail()
		}
		return ""
	}
	var got any
	switch f.Kind() {
	case reflect.Slice, reflect.Array:
		l := A{}
		for i := 0; i < f.Len(); i++ {
			l = append(l, scalarOf(f.Index(i)))
		}
		got = l
	default:
		got = scalarOf(f)
	}
	if diffJSON("", want, got) != "" {
		return fail()
	}
	return ""
}

func deref(f reflect.Value) any {
	for f.Kind() == reflect.Pointer && !f.IsNil() {
		f = f.Elem()
	}
	return f.Interface()
}

func scalarOf(f reflect.Value) any {
	switch f.Kind() {
	case reflect.Int:
		return float64(f.Int())
	case reflect.Float64:
		return f.Float()
	case reflect.String:
		return f.String()
	case reflect.Bool:
		return f.Bool()
	}
	return f.Interface()
}

// dropZeroTRS removes all-zero matrices, rotations and scales of nodes, which
// the library documents as unset.
func dropZeroTRS(m M) {
	nodes, _ := m["nodes"].(A)
	for _, x := range nodes {
		nd := x.(M)
		for _, key := range []string{"matrix", "rotation", "scale"} {
			if v, ok := nd[key].(A); ok {
				zero := true
				for _, e := range v {
					zero = zero && e == 0.
				}
				if zero {
					delete(nd, key)
				}
			}
		}
	}
}

// scribble overwrites every number reachable from v, to reveal state that is
// shared between decoded objects.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-77)
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(77)
		}
	}
}

func TestC05Defaults(t *testing.T) {
	Prop(t, Opt{Quick: 5000, Rule: "case = glTF JSON text in which every optional property of every object is independently present (also as 0, false, \"\" or its default) or absent; non-trivial = at least one optional property present and one absent below the root; distinct by text"}, func(rt *rapid.T, c *Case) {
		g := &objGen{t: rt, pct: 30}
		m := g.object("glTF")
		txt := mustJSON(m)
		c.Key(txt)
		c.NonTrivial(g.objects > 2 && g.present > 0 && g.absent > 0)
		c.Sample("%s", txt)
		for _, key := range sortedKeys(m) {
			c.Label("has " + key)
		}
		d, err := decode(txt, nil)
		if err != nil {
			rt.Fatalf("Decode: %v\n%s", err, txt)
		}
		if df := checkDecoded("doc", "glTF", m, reflect.ValueOf(d)); df != "" {
			rt.Fatalf("%s\n%s", df, txt)
		}
		// The document is valid for encoding only if each camera has a projection.
		for _, cam := range d.Cameras {
			if cam.Perspective == nil && cam.Orthographic == nil {
				cam.Perspective = &gltf.Perspective{}
			}
		}
		out, err := encode(d, false, nil)
		if err != nil {
			rt.Fatalf("Encode: %v\n%s", err, txt)
		}
		v, err := parseJSON(out)
		if err != nil {
			rt.Fatalf("output: %v", err)
		}
		var errs []string
		want := conform("doc", "glTF", toGeneric(m), &errs).(M)
		got := conform("doc", "glTF", v, &errs).(M)
		// cameras: a missing projection was added above and the type follows it
		wc, _ := want["cameras"].(A)
		gc, _ := got["cameras"].(A)
		for i := range wc {
			cam := wc[i].(M)
			if cam["perspective"] == nil && cam["orthographic"] == nil && i < len(gc) {
				delete(gc[i].(M), "perspective")
			}
			if i < len(gc) {
				cam["type"] = gc[i].(M)["type"]
			}
		}
		dropZeroTRS(want)
		normEmpty(want)
		normEmpty(got)
		if df := diffJSON("doc", want, got); df != "" {
			rt.Fatalf("re-encoding changed a value (decoded text vs encoded text): %s\nin:  %s\nout: %s", df, txt, out)
		}
		// Decoded objects share no state.
		scribble(reflect.ValueOf(d))
		d2, err := decode(txt, nil)
		if err != nil {
			rt.Fatalf("second Decode: %v", err)
		}
		if df := checkDecoded("doc", "glTF", m, reflect.ValueOf(d2)); df != "" {
			rt.Fatalf("modifying a decoded document changed a later decode: %s", df)
		}
	})
}

// normEmpty removes empty arrays, which the document model does not distinguish from absent ones.
func normEmpty(v any) {
	switch v := v.(type) {
	case M:
		for k, x := range v {
			if k == "extras" || k == "extensions" {
				continue
			}
			if a, ok := x.(A); ok && len(a) == 0 {
				delete(v, k)
				continue
			}
			normEmpty(x)
		}
	case A:
		for _, x := range v {
			normEmpty(x)
		}
	}
}

func TestC05OrDefault(t *testing.T) {
	Prop(t, Opt{Quick: 4000, Rule: "case = node/material/texture/light/spot/transform objects with random set and unset fields; non-trivial = all; distinct by content"}, func(rt *rapid.T, c *Case) {
		c.NonTrivial(true)
		optF := func(label string) *float64 {
			if rapid.Bool().Draw(rt, label+"?") {
				return gltf.Float(pick(rt, label, 0, 1, 0.5, -1, math.Pi/4, num(rt, label+"n")))
			}
			return nil
		}
		eff := func(p *float64, def float64) float64 {
			if p == nil {
				return def
			}
			return *p
		}
		same := func(what string, got, want any) {
			if !reflect.DeepEqual(got, want) {
				rt.Fatalf("%s = %v, want %v", what, got, want)
			}
		}
		keep := func(what string, before []byte, now any) {
			if b := mustJSON(now); string(b) != string(before) {
				rt.Fatalf("%s modified its object: %s -> %s", what, before, b)
			}
		}
		type plainNode struct {
			M [16]float64
			R [4]float64
			S [3]float64
			T [3]float64
		}
		nd := newDocGen(rt).node()
		plain := func() plainNode { return plainNode{nd.Matrix, nd.Rotation, nd.Scale, nd.Translation} }
		before := mustJSON(plain())
		c.Key(before)
		c.Sample("node %s", before)
		wm, wr, ws := nd.Matrix, nd.Rotation, nd.Scale
		if wm == [16]float64{} {
			wm = [16]float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
		}
		if wr == [4]float64{} {
			wr = [4]float64{0, 0, 0, 1}
		}
		if ws == [3]float64{} {
			ws = [3]float64{1, 1, 1}
		}
		for i := 0; i < 2; i++ {
			same("MatrixOrDefault", nd.MatrixOrDefault(), wm)
			same("RotationOrDefault", nd.RotationOrDefault(), wr)
			same("ScaleOrDefault", nd.ScaleOrDefault(), ws)
			same("TranslationOrDefault", nd.TranslationOrDefault(), nd.Translation)
			keep("Node accessors", before, plain())
		}
		// The other properties of each object are random as well.
		mat := newDocGen(rt).material()
		nt, oc, pbr := mat.NormalTexture, mat.OcclusionTexture, mat.PBRMetallicRoughness
		mat.AlphaCutoff = optF("alphaCutoff")
		if nt == nil {
			nt = &gltf.NormalTexture{}
		}
		nt.Scale = optF("scale")
		if oc == nil {
			oc = &gltf.OcclusionTexture{}
		}
		oc.Strength = optF("strength")
		if pbr == nil {
			pbr = &gltf.PBRMetallicRoughness{}
		}
		pbr.MetallicFactor, pbr.RoughnessFactor, pbr.BaseColorFactor = optF("metallic"), optF("roughness"), nil
		wb := [4]float64{1, 1, 1, 1}
		if rapid.Bool().Draw(rt, "bcf?") {
			pbr.BaseColorFactor = new([4]float64)
			vecN(rt, "bcf", []float64{1, 1, 1, 1}, pbr.BaseColorFactor[:], true)
			wb = *pbr.BaseColorFactor
		}
		li := &lightspunctual.Light{Type: pick(rt, "type", "directional", "point", "spot", ""), Name: text(rt, "name"), Range: optF("range"), Intensity: optF("intensity")}
		wl := [3]float64{1, 1, 1}
		if rapid.Bool().Draw(rt, "color?") {
			li.Color = new([3]float64)
			vecN(rt, "color", []float64{1, 1, 1}, li.Color[:], true)
			wl = *li.Color
		}
		sp := &lightspunctual.Spot{InnerConeAngle: num(rt, "inner"), OuterConeAngle: optF("outer")}
		if rapid.Bool().Draw(rt, "spot?") {
			li.Spot = sp
		}
		tt := &texturetransform.TextureTranform{Rotation: num(rt, "trot"), TexCoord: pidx(rt, "ttc")}
		vecN(rt, "tscale", []float64{1, 1}, tt.Scale[:], true)
		vecN(rt, "toffset", []float64{0, 0}, tt.Offset[:], true)
		wt := tt.Scale
		if wt == [2]float64{} {
			wt = [2]float64{1, 1}
		}
		objects := []any{nd, mat, nt, oc, pbr, li, sp, tt}
		copies := make([]any, len(objects))
		for i, x := range objects {
			copies[i] = clone(reflect.ValueOf(x)).Interface()
		}
		c.Key(fmt.Sprint(mat.AlphaMode, mat.AlphaCutoff == nil), mustJSON([]any{nt.Scale, oc.Strength, pbr.MetallicFactor, pbr.RoughnessFactor, pbr.BaseColorFactor, li.Intensity, li.Color, sp, tt.Scale, tt.Offset}))
		for i := 0; i < 2; i++ {
			same("AlphaCutoffOrDefault", mat.AlphaCutoffOrDefault(), eff(mat.AlphaCutoff, 0.5))
			same("NormalTexture.ScaleOrDefault", nt.ScaleOrDefault(), eff(nt.Scale, 1))
			same("StrengthOrDefault", oc.StrengthOrDefault(), eff(oc.Strength, 1))
			same("MetallicFactorOrDefault", pbr.MetallicFactorOrDefault(), eff(pbr.MetallicFactor, 1))
			same("RoughnessFactorOrDefault", pbr.RoughnessFactorOrDefault(), eff(pbr.RoughnessFactor, 1))
			same("BaseColorFactorOrDefault", pbr.BaseColorFactorOrDefault(), wb)
			same("IntensityOrDefault", li.IntensityOrDefault(), eff(li.Intensity, 1))
			same("ColorOrDefault", li.ColorOrDefault(), wl)
			same("OuterConeAngleOrDefault", sp.OuterConeAngleOrDefault(), eff(sp.OuterConeAngle, math.Pi/4))
			same("TextureTranform.ScaleOrDefault", tt.ScaleOrDefault(), wt)
			same("MatrixOrDefault", nd.MatrixOrDefault(), wm)
			for i, x := range objects {
				if !reflect.DeepEqual(x, copies[i]) {
					rt.Fatalf("an OrDefault accessor modified its object: %+v -> %+v", reflect.ValueOf(copies[i]).Elem(), reflect.ValueOf(x).Elem())
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C06

// walkExt visits every Extensions map reachable from v, in a fixed order.
func walkExt(path string, v reflect.Value, f func(path string, e gltf.Extensions)) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			walkExt(path, v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fv := v.Field(i)
			if e, ok := fv.Interface().(gltf.Extensions); ok {
				if len(e) > 0 {
					f(path+".extensions", e)
				}
				continue
			}
			if v.Type().Field(i).Name == "Extras" {
				continue
			}
			walkExt(path+"."+v.Type().Field(i).Name, fv, f)
		}
	case reflect.Slice, reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Pointer, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				walkExt(fmt.Sprintf("%s[%d]", path, i), v.Index(i), f)
			}
		}
	}
}

type regVal struct {
	gen int
	raw string
}

func (r *regVal) MarshalJSON() ([]byte, error) { return []byte(r.raw), nil }

const (
	regOK    = "REG_pointer"
	regValue = "REG_value"
	regFail  = "REG_fail"
	regBoth  = "REG_value_and_error"
	regDyn   = "REG_dynamic"
	regNil   = "REG_nil"
	regTyped = "REG_nil_pointer"
	regMap   = "REG_map"
)

func init() {
	gltf.RegisterExtension(regNil, func(b []byte) (any, error) { return nil, nil })
	gltf.RegisterExtension(regTyped, func(b []byte) (any, error) { return (*regVal)(nil), nil })
	gltf.RegisterExtension(regMap, func(b []byte) (any, error) { return map[string]any{"len": len(b)}, nil })
	gltf.RegisterExtension(regOK, func(b []byte) (any, error) { return &regVal{raw: string(b)}, nil })
	gltf.RegisterExtension(regValue, func(b []byte) (any, error) { return json.Number(fmt.Sprint(len(b))), nil })
	gltf.RegisterExtension(regFail, func(b []byte) (any, error) { return nil, fmt.Errorf("cannot parse") })
	gltf.RegisterExtension(regBoth, func(b []byte) (any, error) { return &regVal{raw: "1"}, fmt.Errorf("partial") })
}

func TestC06Preserved(t *testing.T) {
	Prop(t, Opt{Quick: 3000, Rule: "case = random document whose objects carry extensions (registered, failing, re-registered and unregistered keys) and extras at random sites of all kinds; non-trivial = at least two sites; distinct by content"}, func(rt *rapid.T, c *Case) {
		g := newDocGen(rt)
		g.extPct, g.extraPct = pick(rt, "extPct", 20, 70), pick(rt, "extraPct", 10, 60)
		g.extKeys = []string{regOK, regOK, regFail, regBoth, regDyn, regValue, regNil, regTyped, regMap, "EXT_a", "VENDOR_\u00e9 \"q\"", "",
			// not the registered keys
			"reg_pointer", "REG_POINTER", "REG_pointe", "REG_pointer2", " REG_pointer", "REG_pointer ", "khr_materials_unlit", "KHR_MATERIALS_UNLIT", "KHR_materials_unlit2", "KHR_Texture_Transform", "KHR_lights_punctual ", "KHR_MATERIALS_PBRSPECULARGLOSSINESS", "EXT_materials_unlit", "materials_unlit", "lights_punctual"}
		d := g.doc(bufNoURI, bufEmbedded)
		s := describe(d)
		c.Key(s)
		c.Sample("%s", s)
		c.NonTrivial(g.sites >= 2)
		gen := intn(rt, 1, 1<<30, "generation")
		gltf.RegisterExtension(regDyn, func(b []byte) (any, error) { return nil, fmt.Errorf("replaced") })
		gltf.RegisterExtension(regDyn, func(b []byte) (any, error) { return &regVal{gen, string(b)}, nil })
		bin := rapid.Bool().Draw(rt, "binary")
		var in []byte
		if rapid.Bool().Draw(rt, "independent writer") {
			m := specSaved(d, false)
			in = drawSpelling(rt, m)
			bin = false
		} else {
			b, err := encode(d, bin, nil)
			if err != nil {
				rt.Fatalf("Encode: %v", err)
			}
			in = b
		}
		got, err := decode(in, nil)
		if err != nil {
			rt.Fatalf("Decode: %v", err)
		}
		type site struct {
			path string
			e    gltf.Extensions
		}
		var want, have []site
		walkExt("doc", reflect.ValueOf(d), func(p string, e gltf.Extensions) { want = append(want, site{p, e}) })
		walkExt("doc", reflect.ValueOf(got), func(p string, e gltf.Extensions) { have = append(have, site{p, e}) })
		if len(want) != len(have) {
			rt.Fatalf("%d objects carried extensions, %d do after decoding", len(want), len(have))
		}
		hasValue := false
		for i := range want {
			if want[i].path != have[i].path || len(want[i].e) != len(have[i].e) {
				rt.Fatalf("extensions moved: %v -> %v", want[i], have[i])
			}
			c.Label(want[i].path[strings.LastIndex(strings.TrimSuffix(want[i].path, ".extensions"), ".")+1:])
			for key, w := range want[i].e {
				p := want[i].path + "." + key
				h, ok := have[i].e[key]
				if !ok {
					rt.Fatalf("%s: lost", p)
				}
				raw := func() string {
					r, ok := h.(json.RawMessage)
					if !ok {
						rt.Fatalf("%s: decoded as %T, want json.RawMessage", p, h)
					}
					return string(r)
				}
				var js string
				switch key {
				case regOK, regDyn:
					r, ok := h.(*regVal)
					if !ok {
						rt.Fatalf("%s: decoded as %T, not the value returned by the registered function", p, h)
					}
					if key == regDyn && r.gen != gen {
						rt.Fatalf("%s: decoded by generation %d of the registered function, want %d", p, r.gen, gen)
					}
					js = r.raw
				case regValue:
					hasValue = true
					if _, ok := h.(json.Number); !ok {
						rt.Fatalf("%s: decoded as %T, not the value returned by the registered function", p, h)
					}
					continue
				case regNil:
					hasValue = true
					if h != nil {
						rt.Fatalf("%s: decoded as %#v, the registered function returned nil", p, h)
					}
					continue
				case regTyped:
					hasValue = true
					if r, ok := h.(*regVal); !ok || r != nil {
						rt.Fatalf("%s: decoded as %#v, the registered function returned a nil pointer", p, h)
					}
					continue
				case regMap:
					hasValue = true
					if m, ok := h.(map[string]any); !ok || len(m) != 1 {
						rt.Fatalf("%s: decoded as %#v, not the value returned by the registered function", p, h)
					}
					continue
				default:
					js = raw()
				}
				if df := diffJSON(p, toGeneric(w), toGeneric(json.RawMessage(js))); df != "" {
					rt.Fatalf("payload differs: %s", df)
				}
			}
		}
		if hasValue {
			c.Label("value-type extension")
			return
		}
		out, err := encode(got, bin, nil)
		if err != nil {
			rt.Fatalf("re-encode: %v", err)
		}
		if bin {
			f, err := parseGLB(out)
			if err != nil {
				rt.Fatalf("re-encode: %v", err)
			}
			out = f.chunks[0].data
		}
		v, err := parseJSON(out)
		if err != nil {
			rt.Fatalf("re-encode: %v", err)
		}
		var errs []string
		if df := diffJSON("doc", specSaved(d, bin), conform("doc", "glTF", v, &errs)); df != "" {
			rt.Fatalf("re-encoded document differs: %s", df)
		}
	})
}

// Registration history: every decode uses the function registered last.
func TestC06Registration(t *testing.T) {
	keys := []string{"HIST_a", "HIST_b", "HIST_a2"}
	cur := map[string]int{}
	counter := 0
	Prop(t, Opt{Quick: 400, Steps: 15, Rule: "case = history of registrations (succeeding or failing functions) of three keys and decodes; non-trivial = a key registered at least twice before a decode that uses it; distinct by history"}, func(rt *rapid.T, c *Case) {
		counter++
		regs := 0
		rt.Repeat(map[string]func(*rapid.T){
			"register": func(rt *rapid.T) {
				k := pick(rt, "key", keys...)
				counter++
				id := counter
				if rapid.Bool().Draw(rt, "fails") {
					gltf.RegisterExtension(k, func(b []byte) (any, error) { return &regVal{id, string(b)}, fmt.Errorf("no") })
					cur[k] = -id
				} else {
					gltf.RegisterExtension(k, func(b []byte) (any, error) { return &regVal{id, string(b)}, nil })
					cur[k] = id
				}
				regs++
				c.Key("r", k, cur[k] > 0)
			},
			"decode": func(rt *rapid.T) {
				k := pick(rt, "key", keys...)
				val := string(mustJSON(jsonValue(rt, 1, "val")))
				txt := fmt.Sprintf(`{"asset":{"version":"2.0"},"nodes":[{"extensions":{%q:%s,"other":1}}]}`, k, val)
				d, err := decode([]byte(txt), nil)
				if err != nil {
					rt.Fatalf("Decode: %v", err)
				}
				h := d.Nodes[0].Extensions[k]
				c.Key("d", k)
				c.NonTrivial(regs >= 2)
				if id := cur[k]; id > 0 {
					r, ok := h.(*regVal)
					if !ok || r.gen != id {
						rt.Fatalf("key %s: decoded as %#v, want the value of registration %d", k, h, id)
					}
				} else if _, ok := h.(json.RawMessage); !ok {
					rt.Fatalf("key %s: decoded as %#v, want json.RawMessage", k, h)
				}
			},
		})
	})
}
