package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
	"pgregory.net/rapid"
)

const (
	keyLights    = "KHR_lights_punctual"
	keySpecular  = "KHR_materials_pbrSpecularGlossiness"
	keyTransform = "KHR_texture_transform"
	keyUnlit     = "KHR_materials_unlit"
)

// builtinKind returns the schema kind of a built-in extension of an object of kind k.
func builtinKind(k, key string) string {
	switch key {
	case keyLights:
		switch k {
		case "glTF":
			return "ext:lights"
		case "node":
			return "ext:nodelight"
		}
	case keySpecular:
		if k == "material" {
			return "ext:specular"
		}
	case keyTransform:
		switch k {
		case "textureInfo", "normalTexture", "occlusionTexture":
			return "ext:transform"
		}
	}
	return ""
}

// conformBuiltin checks the built-in extensions of an object of kind k and drops their defaults.
func conformBuiltin(path, k string, e M, errs *[]string) M {
	out := M{}
	for _, key := range sortedKeys(e) {
		out[key] = e[key]
		if ek := builtinKind(k, key); ek != "" {
			out[key] = conform(path+"."+key, ek, e[key], errs)
		}
	}
	return out
}

// checkBuiltin compares the decoded extensions of an object with their JSON.
func checkBuiltin(path, k string, m M, e gltf.Extensions) string {
	for _, key := range sortedKeys(m) {
		p := path + "." + key
		h, ok := e[key]
		if !ok {
			return p + ": lost"
		}
		js, _ := m[key].(M)
		switch ek := builtinKind(k, key); ek {
		case "ext:lights":
			l, ok := h.(lightspunctual.Lights)
			if !ok {
				return fmt.Sprintf("%s: decoded as %T", p, h)
			}
			want := js["lights"].(A)
			if len(l) != len(want) {
				return fmt.Sprintf("%s: %d lights, want %d", p, len(l), len(want))
			}
			for i := range want {
				if d := checkDecoded(fmt.Sprintf("%s.lights[%d]", p, i), "ext:light", want[i].(M), reflect.ValueOf(l[i])); d != "" {
					return d
				}
			}
		case "ext:nodelight":
			if i, ok := h.(lightspunctual.LightIndex); !ok || float64(i) != js["light"].(float64) {
				return fmt.Sprintf("%s: decoded as %#v, want %v", p, h, js["light"])
			}
		case "ext:specular":
			x, ok := h.(*specular.PBRSpecularGlossiness)
			if !ok {
				return fmt.Sprintf("%s: decoded as %T", p, h)
			}
			if d := checkDecoded(p, ek, js, reflect.ValueOf(x)); d != "" {
				return d
			}
			// absent factors are filled with the extension's defaults
			if x.DiffuseFactor == nil || x.SpecularFactor == nil || x.GlossinessFactor == nil {
				return fmt.Sprintf("%s: a factor has no value: %+v", p, x)
			}
		case "ext:transform":
			x, ok := h.(*texturetransform.TextureTranform)
			if !ok {
				return fmt.Sprintf("%s: decoded as %T", p, h)
			}
			if d := checkDecoded(p, ek, js, reflect.ValueOf(x)); d != "" {
				return d
			}
		default:
			if key == keyUnlit {
				if _, ok := h.(*unlit.Unlit); !ok {
					return fmt.Sprintf("%s: decoded as %T", p, h)
				}
			}
			if d := diffJSON(p, m[key], toGeneric(h)); d != "" {
				return d
			}
		}
	}
	return ""
}

// builtinExt draws built-in extensions for an object of kind k.
func builtinExt(pct int, count *int) func(g *objGen, k string) any {
	return func(g *objGen, k string) any {
		m := M{}
		add := func(key string, f func() M) {
			if chance(g.t, pct, k+"."+key+"?") {
				m[key] = f()
				*count++
			}
		}
		switch k {
		case "glTF":
			add(keyLights, func() M {
				a := A{}
				for i, l := 0, intn(g.t, 1, 3, "lights.n"); i < l; i++ {
					a = append(a, g.object("ext:light"))
				}
				return M{"lights": a}
			})
		case "node":
			add(keyLights, func() M { return M{"light": float64(pick(g.t, "light", 0, 0, 1, 2, 1000))} })
		case "material":
			add(keySpecular, func() M { return g.object("ext:specular") })
			add(keyUnlit, func() M {
				if chance(g.t, 20, "unlit.extras?") {
					return M{"extras": jsonValue(g.t, 1, "unlit.extras")}
				}
				return M{}
			})
		case "textureInfo", "normalTexture", "occlusionTexture":
			add(keyTransform, func() M { return g.object("ext:transform") })
		}
		if chance(g.t, 5, k+".otherExt?") {
			m["EXT_other"] = M{"v": jsonValue(g.t, 2, "otherExt")}
		}
		if len(m) == 0 {
			return nil
		}
		return m
	}
}

// dropZero removes what the library documents as unset: all-zero transform
// scales, matrices, rotations and scales.
func dropZero(v any) {
	switch v := v.(type) {
	case M:
		for _, key := range []string{"scale", "rotation", "matrix"} {
			if a, ok := v[key].(A); ok {
				zero := len(a) > 0
				for _, e := range a {
					zero = zero && e == 0.
				}
				if zero {
					delete(v, key)
				}
			}
		}
		for k, x := range v {
			switch k {
			case "extras":
			case "extensions": // the content of other extensions is free
				if e, ok := x.(M); ok {
					for _, key := range []string{keyLights, keySpecular, keyTransform, keyUnlit} {
						dropZero(e[key])
					}
				}
			default:
				dropZero(x)
			}
		}
	case A:
		for _, x := range v {
			dropZero(x)
		}
	}
}

// fillZero replaces what the library documents as unset by the default.
func fillZero(d *gltf.Document) {
	for _, x := range d.Nodes {
		x.Matrix, x.Rotation, x.Scale = x.MatrixOrDefault(), x.RotationOrDefault(), x.ScaleOrDefault()
	}
	fill := func(_ string, e gltf.Extensions) {
		for _, h := range e {
			if t, ok := h.(*texturetransform.TextureTranform); ok && t.Scale == [2]float64{} {
				t.Scale = [2]float64{1, 1}
			}
		}
	}
	walkExt("", reflect.ValueOf(d), fill)
	walkExt("", reflect.ValueOf(d), func(_ string, e gltf.Extensions) {
		for _, h := range e {
			if s, ok := h.(*specular.PBRSpecularGlossiness); ok {
				walkExt("", reflect.ValueOf(s), fill)
			}
		}
	})
}

func TestC07Files(t *testing.T) {
	Prop(t, Opt{Quick: 5000, Rule: "case = glTF JSON text with the built-in extensions (lights at the root and on nodes, specular-glossiness and unlit on materials, texture transforms on every texture reference including those nested in specular-glossiness), each property of each extension independently present or absent; non-trivial = at least one built-in extension; distinct by text"}, func(rt *rapid.T, c *Case) {
		count := 0
		g := &objGen{t: rt, pct: 0, ext: builtinExt(pick(rt, "density", 40, 80), &count)}
		m := g.object("glTF")
		delete(m, "animations")
		// the collections that carry the extensions
		for _, key := range []string{"nodes", "materials"} {
			if chance(rt, 70, key+"?") {
				m[key] = g.value("glTF."+key, schema["glTF"][key])
			}
		}
		txt := mustJSON(m)
		c.Key(txt)
		c.NonTrivial(count > 0)
		c.Sample("%s", txt)
		d, err := decode(txt, nil)
		if err != nil {
			rt.Fatalf("Decode: %v\n%s", err, txt)
		}
		if df := checkDecoded("doc", "glTF", m, reflect.ValueOf(d)); df != "" {
			rt.Fatalf("%s\n%s", df, txt)
		}
		walkExt("doc", reflect.ValueOf(d), func(p string, e gltf.Extensions) {
			for k, h := range e {
				c.Label(fmt.Sprintf("%s %T", k, h))
				if s, ok := h.(*specular.PBRSpecularGlossiness); ok {
					c.LabelIf(s.DiffuseTexture != nil && (s.DiffuseTexture.Extras != nil || s.DiffuseTexture.Extensions != nil), "specular with nested texture extras or extensions")
				}
			}
		})
		bin := rapid.Bool().Draw(rt, "binary")
		out, err := encode(d, bin, nil)
		if err != nil {
			rt.Fatalf("a document that was loaded cannot be saved: %v\n%s", err, txt)
		}
		js := out
		if bin {
			f, err := parseGLB(out)
			if err != nil {
				rt.Fatalf("GLB: %v", err)
			}
			js = f.chunks[0].data
		}
		v, err := parseJSON(js)
		if err != nil {
			rt.Fatalf("output: %v", err)
		}
		var errs []string
		got := conform("doc", "glTF", v, &errs).(M)
		if len(errs) > 0 {
			rt.Fatalf("saved document does not conform: %v\nin:  %s\nout: %s", errs, txt, js)
		}
		want := conform("doc", "glTF", toGeneric(m), &errs).(M)
		dropZero(want)
		dropZero(got)
		normEmpty(want)
		normEmpty(got)
		if df := diffJSON("doc", want, got); df != "" {
			rt.Fatalf("saved document differs from the loaded one: %s\nin:  %s\nout: %s", df, txt, js)
		}
		d2, err := decode(out, nil)
		if err != nil {
			rt.Fatalf("a saved document cannot be loaded again: %v\nin:  %s\nout: %s", err, txt, js)
		}
		m2 := toGeneric(m).(M)
		dropZero(m2)
		fillZero(d2)
		if df := checkDecoded("doc", "glTF", m2, reflect.ValueOf(d2)); df != "" {
			rt.Fatalf("after saving and loading: %s\nin:  %s\nout: %s", df, txt, js)
		}
		// decoded values are not shared between objects or decodes
		scribble(reflect.ValueOf(d))
		walkExt("doc", reflect.ValueOf(d), func(p string, e gltf.Extensions) {
			for _, h := range e {
				scribble(reflect.ValueOf(h))
			}
		})
		d3, err := decode(txt, nil)
		if err != nil {
			rt.Fatalf("second Decode: %v", err)
		}
		if df := checkDecoded("doc", "glTF", m, reflect.ValueOf(d3)); df != "" {
			rt.Fatalf("modifying a decoded document changed a later decode: %s", df)
		}
	})
}

// extSite is one built-in extension of a JSON document.
type extSite struct {
	path string
	ext  M // the extensions member that holds it
	key  string
	kind string // schema kind of its value, "" for unlit
}

func extSites(path, k string, v any, out []extSite) []extSite {
	for _, s := range typeSites(path, k, v, nil) {
		if s.pd.typ != "ext" {
			continue
		}
		e, _ := s.obj["extensions"].(M)
		for _, key := range sortedKeys(e) {
			p, ek := s.path+"."+key, builtinKind(s.kind, key)
			if ek != "" || key == keyUnlit {
				out = append(out, extSite{p, e, key, ek})
			}
			if ek != "" {
				out = extSites(p, ek, e[key], out)
			}
		}
	}
	return out
}

func TestC07Malformed(t *testing.T) {
	Prop(t, Opt{Quick: 2500, Rule: "case = glTF JSON text with built-in extensions, one of which (also one nested in specular-glossiness) is not of the extension's type: not an object, or with a property of the wrong JSON type; non-trivial = all; distinct by text"}, func(rt *rapid.T, c *Case) {
		count := 0
		g := &objGen{t: rt, pct: 0, ext: builtinExt(80, &count)}
		m := g.object("glTF")
		for _, key := range []string{"nodes", "materials"} {
			if m[key] == nil && (key == "materials" || rapid.Bool().Draw(rt, key+"?")) {
				m[key] = g.value("glTF."+key, schema["glTF"][key])
			}
		}
		sites := extSites("doc", "glTF", m, nil)
		if len(sites) == 0 {
			return
		}
		x := sites[intn(rt, 0, len(sites)-1, "site")]
		scalar := func() { x.ext[x.key] = pick(rt, "not an object", any("x"), 1., 1.5, true, false, "") }
		if in := typeSites("", x.kind, x.ext[x.key], nil); x.kind == "" || len(in) == 0 || chance(rt, 15, "scalar") {
			scalar()
		} else {
			w := in[intn(rt, 0, len(in)-1, "property")]
			w.obj[w.key] = wrongValue(rt, w.pd, w.obj[w.key])
			c.Label("wrong type at " + x.kind + digits.ReplaceAllString(w.path, "[]"))
		}
		c.Label(digits.ReplaceAllString(x.path, "[]"))
		txt := mustJSON(m)
		bad := toGeneric(x.ext[x.key])
		c.Key(txt)
		c.NonTrivial(true)
		c.Sample("%s", txt)
		d, err := decode(txt, nil)
		if err != nil {
			rt.Fatalf("Decode: %v\n%s", err, txt)
		}
		raw := 0
		visit := func(p string, e gltf.Extensions) {
			for _, key := range []string{keyLights, keySpecular, keyTransform, keyUnlit} {
				switch h := e[key].(type) {
				case json.RawMessage:
					raw++
					if df := diffJSON(p+"."+key, bad, toGeneric(h)); key != x.key || df != "" {
						rt.Fatalf("%s.%s: kept as raw JSON: %s, the malformed one is %s\n%s", p, key, h, x.path, txt)
					}
				}
			}
		}
		walkExt("doc", reflect.ValueOf(d), func(p string, e gltf.Extensions) {
			visit(p, e)
			if s, ok := e[keySpecular].(*specular.PBRSpecularGlossiness); ok {
				walkExt(p+"."+keySpecular, reflect.ValueOf(s), visit)
			}
		})
		if raw != 1 {
			rt.Fatalf("%s is malformed; %d extensions are kept as raw JSON, want 1\n%s", x.path, raw, txt)
		}
		bin := rapid.Bool().Draw(rt, "binary")
		out, err := encode(d, bin, nil)
		if err != nil {
			rt.Fatalf("a document that was loaded cannot be saved: %v\n%s", err, txt)
		}
		js := out
		if bin {
			f, err := parseGLB(out)
			if err != nil {
				rt.Fatalf("GLB: %v", err)
			}
			js = f.chunks[0].data
		}
		v, err := parseJSON(js)
		if err != nil {
			rt.Fatalf("output: %v", err)
		}
		found := false
		for _, y := range extSites("doc", "glTF", v, nil) {
			if y.path == x.path {
				found = true
				if df := diffJSON(y.path, bad, y.ext[y.key]); df != "" {
					rt.Fatalf("malformed extension changed by loading and saving: %s\nin:  %s\nout: %s", df, txt, js)
				}
				delete(y.ext, y.key)
				delete(x.ext, x.key)
			}
		}
		if !found {
			rt.Fatalf("%s: lost\nin:  %s\nout: %s", x.path, txt, js)
		}
		// everything else is saved as always
		var errs []string
		got := conform("doc", "glTF", v, &errs).(M)
		if len(errs) > 0 {
			rt.Fatalf("saved document does not conform: %v\nin:  %s\nout: %s", errs, txt, js)
		}
		want := conform("doc", "glTF", toGeneric(m), &errs).(M)
		dropZero(want)
		dropZero(got)
		normEmpty(want)
		normEmpty(got)
		if df := diffJSON("doc", want, got); df != "" {
			rt.Fatalf("next to a malformed extension: %s\nin:  %s\nout: %s", df, txt, js)
		}
	})
}

func TestC07Typed(t *testing.T) {
	Prop(t, Opt{Quick: 4000, Rule: "case = document holding extension values built by hand (nil and set pointers, infinite range, zero transforms, nested textures with extensions and extras); non-trivial = all; distinct by JSON"}, func(rt *rapid.T, c *Case) {
		c.NonTrivial(true)
		dg := newDocGen(rt)
		dg.extPct, dg.extraPct = 30, 30
		dg.extKeys = []string{keyTransform, "EXT_a"}
		dg.extValue = func(t *rapid.T, site, key string) any {
			if key == keyTransform {
				return drawTransform(t)
			}
			return nil
		}
		optF := func(label string, def float64) *float64 { return pnum(rt, def, label) }
		d := gltf.NewDocument()
		var lights lightspunctual.Lights
		for i, k := 0, intn(rt, 1, 3, "lights.n"); i < k; i++ {
			l := &lightspunctual.Light{Type: pick(rt, "type", lightspunctual.TypeDirectional, lightspunctual.TypePoint, lightspunctual.TypeSpot), Name: text(rt, "name"), Intensity: optF("intensity", 1), Range: optF("range", math.Inf(1))}
			if rapid.Bool().Draw(rt, "color?") {
				l.Color = new([3]float64)
				vecN(rt, "color", []float64{1, 1, 1}, l.Color[:], true)
			}
			if l.Type == "spot" {
				l.Spot = &lightspunctual.Spot{InnerConeAngle: pick(rt, "inner", 0, 0.25, num(rt, "inner2")), OuterConeAngle: optF("outer", math.Pi/4)}
			}
			lights = append(lights, l)
		}
		d.Extensions = gltf.Extensions{keyLights: lights}
		li := lightspunctual.LightIndex(idx(rt, "light"))
		d.Nodes = []*gltf.Node{{Extensions: gltf.Extensions{keyLights: li}}}
		s := &specular.PBRSpecularGlossiness{GlossinessFactor: optF("glossiness", 1), DiffuseTexture: dg.texInfo("diffuseTexture"), SpecularGlossinessTexture: dg.texInfo("sgTexture")}
		if rapid.Bool().Draw(rt, "diffuse?") {
			s.DiffuseFactor = new([4]float64)
			vecN(rt, "diffuse", []float64{1, 1, 1, 1}, s.DiffuseFactor[:], true)
		}
		if rapid.Bool().Draw(rt, "specular?") {
			s.SpecularFactor = new([3]float64)
			vecN(rt, "specular", []float64{1, 1, 1}, s.SpecularFactor[:], true)
		}
		tr := drawTransform(rt)
		d.Materials = []*gltf.Material{{Extensions: gltf.Extensions{keySpecular: s, keyUnlit: &unlit.Unlit{}},
			EmissiveTexture: &gltf.TextureInfo{Extensions: gltf.Extensions{keyTransform: tr}}, NormalTexture: &gltf.NormalTexture{Index: gltf.Index(0), Extensions: gltf.Extensions{keyTransform: tr}}}}

		// what a conforming reader must see
		eff := func(p *float64, def float64) float64 {
			if p == nil {
				return def
			}
			return *p
		}
		ltxt := A{}
		for _, l := range lights {
			o := M{"type": l.Type, "name": l.Name, "intensity": eff(l.Intensity, 1), "color": n(1, 1, 1)}
			if l.Color != nil {
				o["color"] = n(l.Color[:]...)
			}
			if r := eff(l.Range, math.Inf(1)); !math.IsInf(r, 1) {
				o["range"] = r
			}
			if l.Spot != nil {
				o["spot"] = M{"innerConeAngle": l.Spot.InnerConeAngle, "outerConeAngle": eff(l.Spot.OuterConeAngle, math.Pi/4)}
			}
			ltxt = append(ltxt, o)
		}
		stxt := M{"glossinessFactor": eff(s.GlossinessFactor, 1)}
		if s.DiffuseFactor != nil {
			stxt["diffuseFactor"] = n(s.DiffuseFactor[:]...)
		}
		if s.SpecularFactor != nil {
			stxt["specularFactor"] = n(s.SpecularFactor[:]...)
		}
		if s.DiffuseTexture != nil {
			stxt["diffuseTexture"] = texSpec(s.DiffuseTexture)
		}
		if s.SpecularGlossinessTexture != nil {
			stxt["specularGlossinessTexture"] = texSpec(s.SpecularGlossinessTexture)
		}
		ttxt := transformSpec(tr)
		want := M{
			"asset": M{"version": "2.0"}, "scene": 0., "scenes": A{M{"name": "Root Scene"}},
			"extensions": M{keyLights: M{"lights": ltxt}},
			"nodes":      A{M{"extensions": M{keyLights: M{"light": float64(li)}}}},
			"materials": A{M{"extensions": M{keySpecular: stxt, keyUnlit: M{}},
				"emissiveTexture": M{"index": 0., "extensions": M{keyTransform: ttxt}}, "normalTexture": M{"index": 0., "extensions": M{keyTransform: ttxt}}}},
		}
		c.Key(mustJSON(want))
		c.Sample("%s", mustJSON(want))
		bin := rapid.Bool().Draw(rt, "binary")
		out, err := encode(d, bin, nil)
		if err != nil {
			rt.Fatalf("Encode: %v", err)
		}
		js := out
		if bin {
			f, err := parseGLB(out)
			if err != nil {
				rt.Fatalf("GLB: %v", err)
			}
			js = f.chunks[0].data
		}
		v, err := parseJSON(js)
		if err != nil {
			rt.Fatalf("output: %v", err)
		}
		var errs []string
		got := conform("doc", "glTF", v, &errs).(M)
		if len(errs) > 0 {
			rt.Fatalf("does not conform: %v\n%s", errs, js)
		}
		// generator and scene name are NewDocument's business
		delete(got["asset"].(M), "generator")
		want["scenes"], want["scene"] = got["scenes"], got["scene"]
		wc := conform("doc", "glTF", want, &errs).(M)
		dropZero(wc)
		dropZero(got)
		if df := diffJSON("doc", wc, got); df != "" {
			rt.Fatalf("the values held (left) are not the ones written (right): %s\n%s", df, js)
		}
		d2, err := decode(out, nil)
		if err != nil {
			rt.Fatalf("Decode: %v\n%s", err, js)
		}
		want["asset"] = M{"version": d.Asset.Version, "generator": d.Asset.Generator}
		if len(d.Scenes) == 0 {
			delete(want, "scenes")
		}
		dropZero(want)
		fillZero(d2)
		if df := checkDecoded("doc", "glTF", want, reflect.ValueOf(d2)); df != "" {
			rt.Fatalf("decoding what was written: %s\n%s", df, js)
		}
	})
}

func drawTransform(t *rapid.T) *texturetransform.TextureTranform {
	x := &texturetransform.TextureTranform{Rotation: pick(t, "rotation", 0, 0, 1.5, num(t, "rotation2")), TexCoord: pidx(t, "transform.texCoord")}
	vecN(t, "transform.offset", []float64{0, 0}, x.Offset[:], true)
	vecN(t, "transform.scale", []float64{1, 1}, x.Scale[:], true)
	return x
}

func transformSpec(x *texturetransform.TextureTranform) M {
	m := M{"offset": n(x.Offset[:]...), "rotation": x.Rotation}
	if x.Scale != [2]float64{} {
		m["scale"] = n(x.Scale[:]...)
	}
	if x.TexCoord != nil {
		m["texCoord"] = float64(*x.TexCoord)
	}
	return m
}

func texSpec(x *gltf.TextureInfo) M {
	m := M{"index": float64(x.Index), "texCoord": float64(x.TexCoord)}
	if len(x.Extensions) > 0 {
		e := M{}
		for k, v := range x.Extensions {
			if tr, ok := v.(*texturetransform.TextureTranform); ok {
				e[k] = transformSpec(tr)
			} else {
				e[k] = toGeneric(v)
			}
		}
		m["extensions"] = e
	}
	if g := toGeneric(x.Extras); g != nil {
		m["extras"] = g
	}
	return m
}
