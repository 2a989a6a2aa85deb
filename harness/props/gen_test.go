package props

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- primitive draws

// chance is true in about pct percent of the draws and shrinks to false.
func chance(t *rapid.T, pct int, label string) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-pct
}

func intn(t *rapid.T, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(t, label) }

func pick[T any](t *rapid.T, label string, vals ...T) T {
	return vals[rapid.IntRange(0, len(vals)-1).Draw(t, label)]
}

var textPieces = []string{
	"", "a", "Name", "scale", "null", "{}", "[]", "{,", ",,", ",}", `"scale":1`, `"glossinessFactor":1`, `"diffuseFactor":[1,1,1,1]`,
	`"`, `\`, `\\"`, "<&>", "\u2028", "\u00e9", "日本", "😀", "\n", "\t", "\x00", "\x1f", " ", "0", "/", "-", "data:", "\ufffd", "Z",
	`": `, `"me": 1, "you"`, `", "`, `": [`, `":{},`, "[ ]", "{ }", "//", "/* */", `\u0041`, "%20", "\r\n", "\ufeff", "true", "1e5", "KHR_materials_unlit",
	"  ", "'", "&amp;", "&#34;", "\u2029", "\u007f", "\u0085", "\u0300", "\U0010ffff", "extras", "uri",
}

func text(t *rapid.T, label string) string {
	switch intn(t, 0, 3, label+".k") {
	case 0:
		return pick(t, label, textPieces...)
	case 1:
		return pick(t, label, textPieces...) + pick(t, label+"2", textPieces...) + pick(t, label+"3", textPieces...)
	case 2:
		return rapid.StringN(0, 12, -1).Draw(t, label)
	default:
		return fmt.Sprintf("n%d", intn(t, 0, 999, label))
	}
}

var someNums = []float64{0, 1, -1, 0.5, 2, 0.25, 1.5, 255, 0.1, 1e-7, 1e21, 1e20, -1e-300, 5e-324, math.MaxFloat64, -math.MaxFloat64,
	math.Pi, 1 / 3.0, 9007199254740993, 1e6, 123456789.125, 0.30000000000000004, 3.4028234663852886e38, 1.401298464324817e-45}

func num(t *rapid.T, label string) float64 {
	switch intn(t, 0, 3, label+".k") {
	case 0, 1:
		return pick(t, label, someNums...)
	case 2:
		return float64(intn(t, -1000, 1000, label)) / 8
	default:
		f := rapid.Float64().Draw(t, label)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 7
		}
		return f
	}
}

func nums(t *rapid.T, lo, hi int, label string) []float64 {
	k := intn(t, lo, hi, label+".n")
	if k == 0 {
		return nil
	}
	v := make([]float64, k)
	for i := range v {
		v[i] = num(t, label)
	}
	return v
}

func idx(t *rapid.T, label string) int {
	switch intn(t, 0, 9, label+".k") {
	case 9:
		return pick(t, label, 100, 1000, 65535, 65536, 1<<31-1, 1<<31, 1<<32, 1<<53)
	default:
		return intn(t, 0, 5, label)
	}
}

func pidx(t *rapid.T, label string) *int {
	if !chance(t, 50, label+"?") {
		return nil
	}
	return gltf.Index(idx(t, label))
}

func pnum(t *rapid.T, def float64, label string) *float64 {
	switch intn(t, 0, 3, label+"?") {
	case 0, 1:
		return nil
	case 2:
		return gltf.Float(def)
	default:
		if chance(t, 25, label+".nearby") {
			return gltf.Float(nearby(t, def, label))
		}
		return gltf.Float(num(t, label))
	}
}

func idxs(t *rapid.T, lo, hi int, label string) []int {
	k := intn(t, lo, hi, label+".n")
	if k == 0 {
		return nil
	}
	v := make([]int, k)
	for i := range v {
		v[i] = idx(t, label)
	}
	return v
}

func strs(t *rapid.T, hi int, label string) []string {
	k := intn(t, 0, hi, label+".n")
	if k == 0 {
		return nil
	}
	v := make([]string, k)
	for i := range v {
		v[i] = text(t, label)
	}
	return v
}

// payload draws n bytes; big ones are expanded from one drawn seed.
func payload(t *rapid.T, n int, label string) []byte {
	b := make([]byte, n)
	x := rapid.Uint64().Draw(t, label)
	for i := range b {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		b[i] = byte(z ^ (z >> 31))
	}
	// some contents that are not like noise
	switch s := rapid.IntRange(0, 29).Draw(t, label+".like"); s {
	case 24: // all the same, often zero
		v := byte(x>>8) * byte(x&1)
		for i := range b {
			b[i] = v
		}
	case 25: // zeros at the end
		clear(b[len(b)-len(b)/3:])
	case 26: // zeros at the start
		clear(b[:len(b)/3])
	case 27: // text
		const chars = "{}[]\":, \r\n\tAz0=+/-"
		for i := range b {
			b[i] = chars[int(b[i])%len(chars)]
		}
	case 28:
		copy(b, []string{"glTF\x02\x00\x00\x00", "\x1f\x8b\x08", "{\"asset\":", "data:,", "\xef\xbb\xbf", "PK\x03\x04", "\x89PNG\r\n", "BIN\x00", "JSON", "AAAA"}[x%10])
	case 29: // periodic
		for i := 4; i < len(b); i++ {
			b[i] = b[i-4]
		}
	}
	return b
}

// values of extras and extensions that repeat glTF names and defaults
var gltfLike = func() M {
	m := M{"light": 0., "lights": A{}, "type": "perspective"}
	for _, k := range []string{"asset", "node", "material", "pbr", "normalTexture", "occlusionTexture", "sampler", "primitive", "image", "accessor"} {
		for key, pd := range schema[k] {
			if pd.def != nil {
				m[key] = copyDef(pd.def)
			}
		}
	}
	return m
}()

var gltfKeys = sortedKeys(gltfLike)

// jsonValue draws a generic JSON value.
func jsonValue(t *rapid.T, depth int, label string) any {
	hi := 8
	if depth <= 0 {
		hi = 4
	}
	switch intn(t, 0, hi, label+".kind") {
	case 0:
		return text(t, label)
	case 1:
		return num(t, label)
	case 2:
		return rapid.Bool().Draw(t, label)
	case 3:
		return nil
	case 4:
		return float64(intn(t, -3, 3, label))
	case 7: // looks like glTF
		m := M{}
		for i, k := 0, intn(t, 1, 3, label+".n"); i < k; i++ {
			key := pick(t, label+".gltfKey", gltfKeys...)
			m[key] = gltfLike[key]
		}
		return m
	case 5:
		a := A{}
		for i, k := 0, intn(t, 0, 3, label+".n"); i < k; i++ {
			a = append(a, jsonValue(t, depth-1, label))
		}
		return a
	default:
		m := M{}
		for i, k := 0, intn(t, 0, 3, label+".n"); i < k; i++ {
			m[text(t, label+".key")] = jsonValue(t, depth-1, label)
		}
		return m
	}
}

// ---------------------------------------------------------------- documents

type docGen struct {
	t *rapid.T
	// extPct/extraPct: probability that an object carries extensions/extras
	extPct, extraPct int
	// extKeys: extension names to draw from; values are unregistered raw JSON
	extKeys []string
	// extValue draws the value for an extension key (default: raw JSON)
	extValue func(t *rapid.T, site, key string) any
	// nilEntries allows null entries in object arrays other than buffers and images
	sites int // number of objects that carry extensions or extras
}

var rawExtKeys = []string{"EXT_a", "VENDOR_thing", "KHR_unknown", "EXT_\u00e9 \"x\""}

func newDocGen(t *rapid.T) *docGen {
	return &docGen{t: t, extPct: 12, extraPct: 12, extKeys: rawExtKeys}
}

func (g *docGen) ext(site string) gltf.Extensions {
	if !chance(g.t, g.extPct, site+".ext?") {
		return nil
	}
	e := gltf.Extensions{}
	for i, k := 0, intn(g.t, 1, 2, site+".ext.n"); i < k; i++ {
		key := pick(g.t, site+".ext.key", g.extKeys...)
		if g.extValue != nil {
			if v := g.extValue(g.t, site, key); v != nil {
				e[key] = v
				continue
			}
		}
		e[key] = json.RawMessage(mustJSON(jsonValue(g.t, 2, site+".ext")))
	}
	g.sites++
	return e
}

func (g *docGen) extra(site string) any {
	if !chance(g.t, g.extraPct, site+".extras?") {
		return nil
	}
	g.sites++
	return jsonValue(g.t, 2, site+".extras")
}

func (g *docGen) name(site string) string {
	if chance(g.t, 40, site+".name?") {
		return text(g.t, site+".name")
	}
	return ""
}

func (g *docGen) some(label string) int {
	return pick(g.t, label+".count", 0, 0, 0, 1, 1, 2, 3)
}

func (g *docGen) texInfo(site string) *gltf.TextureInfo {
	if !chance(g.t, 40, site+"?") {
		return nil
	}
	return &gltf.TextureInfo{Extensions: g.ext(site), Extras: g.extra(site), Index: idx(g.t, site), TexCoord: intn(g.t, 0, 2, site+".tc")}
}

// nearby returns a number very close to f.
func nearby(t *rapid.T, f float64, label string) float64 {
	d := pick(t, label+".near", 0, 1e-15, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3)
	if d == 0 {
		return math.Nextafter(f, pick(t, label+".dir", -1.0, 2))
	}
	return f + d*pick(t, label+".dir", -1.0, 1)
}

func vecN(t *rapid.T, label string, def []float64, dst []float64, zeroOK bool) {
	switch intn(t, 0, 7, label+".k") {
	case 0:
		copy(dst, def)
	case 5: // barely differs from the default
		copy(dst, def)
		i := intn(t, 0, len(dst)-1, label+".i")
		dst[i] = nearby(t, dst[i], label)
	case 6: // differs from the default in two components, with the same sum or product
		copy(dst, def)
		i, j := intn(t, 0, len(dst)-1, label+".i"), intn(t, 0, len(dst)-2, label+".j")
		if j >= i {
			j++
		}
		if x := pick(t, label+".by", 0.5, 2, -1, 3, 0.25); dst[i] != 0 && dst[j] != 0 && rapid.Bool().Draw(t, label+".product") {
			dst[i], dst[j] = dst[i]*x, dst[j]/x
		} else {
			dst[i], dst[j] = dst[i]+x, dst[j]-x
		}
	case 7: // the default rotated or negated
		k, sign := intn(t, 0, len(dst)-1, label+".rot"), pick(t, label+".sign", 1.0, -1)
		for i := range dst {
			if dst[i] = sign * def[(i+k)%len(def)]; dst[i] == 0 {
				dst[i] = 0 // no negative zeros
			}
		}
	case 1: // left zero: "unset"
	case 2: // differs from the default in one component
		copy(dst, def)
		dst[intn(t, 0, len(dst)-1, label+".i")] = num(t, label)
	case 3: // one component different from zero
		dst[intn(t, 0, len(dst)-1, label+".i")] = num(t, label)
	default:
		for i := range dst {
			dst[i] = num(t, label)
		}
	}
}

func (g *docGen) node() *gltf.Node {
	t := g.t
	x := &gltf.Node{Extensions: g.ext("node"), Extras: g.extra("node"), Name: g.name("node"), Camera: pidx(t, "node.camera"),
		Children: idxs(t, 0, 3, "node.children"), Skin: pidx(t, "node.skin"), Mesh: pidx(t, "node.mesh"), Weights: nums(t, 0, 3, "node.weights")}
	vecN(t, "node.matrix", []float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, x.Matrix[:], true)
	vecN(t, "node.rotation", []float64{0, 0, 0, 1}, x.Rotation[:], true)
	vecN(t, "node.scale", []float64{1, 1, 1}, x.Scale[:], true)
	vecN(t, "node.translation", []float64{0, 0, 0}, x.Translation[:], true)
	return x
}

func (g *docGen) material() *gltf.Material {
	t := g.t
	x := &gltf.Material{Extensions: g.ext("material"), Extras: g.extra("material"), Name: g.name("material"),
		EmissiveTexture: g.texInfo("material.emissiveTexture"), AlphaCutoff: pnum(t, 0.5, "alphaCutoff"),
		AlphaMode: pick(t, "alphaMode", gltf.AlphaOpaque, gltf.AlphaMask, gltf.AlphaBlend), DoubleSided: rapid.Bool().Draw(t, "doubleSided")}
	vecN(t, "emissiveFactor", []float64{0, 0, 0}, x.EmissiveFactor[:], true)
	if chance(t, 50, "pbr?") {
		p := &gltf.PBRMetallicRoughness{Extensions: g.ext("pbr"), Extras: g.extra("pbr"),
			BaseColorTexture: g.texInfo("pbr.baseColorTexture"), MetallicRoughnessTexture: g.texInfo("pbr.metallicRoughnessTexture"),
			MetallicFactor: pnum(t, 1, "metallicFactor"), RoughnessFactor: pnum(t, 1, "roughnessFactor")}
		if chance(t, 60, "baseColorFactor?") {
			p.BaseColorFactor = new([4]float64)
			vecN(t, "baseColorFactor", []float64{1, 1, 1, 1}, p.BaseColorFactor[:], true)
		}
		x.PBRMetallicRoughness = p
	}
	if chance(t, 40, "normalTexture?") {
		x.NormalTexture = &gltf.NormalTexture{Extensions: g.ext("normalTexture"), Extras: g.extra("normalTexture"),
			Index: pidx(t, "normalTexture.index"), TexCoord: intn(t, 0, 2, "normalTexture.tc"), Scale: pnum(t, 1, "normalTexture.scale")}
	}
	if chance(t, 40, "occlusionTexture?") {
		x.OcclusionTexture = &gltf.OcclusionTexture{Extensions: g.ext("occlusionTexture"), Extras: g.extra("occlusionTexture"),
			Index: pidx(t, "occlusionTexture.index"), TexCoord: intn(t, 0, 2, "occlusionTexture.tc"), Strength: pnum(t, 1, "occlusionTexture.strength")}
	}
	return x
}

var allComponents = []gltf.ComponentType{gltf.ComponentFloat, gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint}
var allShapes = []gltf.AccessorType{gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4}

func (g *docGen) accessor() *gltf.Accessor {
	t := g.t
	x := &gltf.Accessor{Extensions: g.ext("accessor"), Extras: g.extra("accessor"), Name: g.name("accessor"),
		BufferView: pidx(t, "accessor.bufferView"), ByteOffset: idx(t, "accessor.byteOffset"), ComponentType: pick(t, "accessor.ct", allComponents...),
		Normalized: rapid.Bool().Draw(t, "accessor.normalized"), Count: idx(t, "accessor.count"), Type: pick(t, "accessor.type", allShapes...),
		Max: nums(t, 0, 4, "accessor.max"), Min: nums(t, 0, 4, "accessor.min")}
	if chance(t, 30, "sparse?") {
		x.Sparse = &gltf.Sparse{Extensions: g.ext("sparse"), Extras: g.extra("sparse"), Count: idx(t, "sparse.count"),
			Indices: gltf.SparseIndices{Extensions: g.ext("sparseIndices"), Extras: g.extra("sparseIndices"), BufferView: idx(t, "si.bv"), ByteOffset: idx(t, "si.off"),
				ComponentType: pick(t, "si.ct", gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint)},
			Values: gltf.SparseValues{Extensions: g.ext("sparseValues"), Extras: g.extra("sparseValues"), BufferView: idx(t, "sv.bv"), ByteOffset: idx(t, "sv.off")},
		}
	}
	return x
}

var attrNames = []string{"POSITION", "NORMAL", "TANGENT", "TEXCOORD_0", "TEXCOORD_1", "WEIGHTS_0", "JOINTS_0", "COLOR_0", "_CUSTOM", "_\u00e9"}

func (g *docGen) attributes(label string) gltf.PrimitiveAttributes {
	m := gltf.PrimitiveAttributes{}
	for i, k := 0, intn(g.t, 1, 3, label+".n"); i < k; i++ {
		m[pick(g.t, label+".name", attrNames...)] = idx(g.t, label)
	}
	return m
}

func (g *docGen) mesh() *gltf.Mesh {
	t := g.t
	x := &gltf.Mesh{Extensions: g.ext("mesh"), Extras: g.extra("mesh"), Name: g.name("mesh"), Weights: nums(t, 0, 3, "mesh.weights")}
	for i, k := 0, intn(t, 1, 2, "primitives.n"); i < k; i++ {
		p := &gltf.Primitive{Extensions: g.ext("primitive"), Extras: g.extra("primitive"), Attributes: g.attributes("attributes"),
			Indices: pidx(t, "primitive.indices"), Material: pidx(t, "primitive.material"), Mode: gltf.PrimitiveMode(intn(t, 0, 6, "mode"))}
		for j, k := 0, pick(t, "targets.n", 0, 0, 1, 2); j < k; j++ {
			p.Targets = append(p.Targets, g.attributes("target"))
		}
		x.Primitives = append(x.Primitives, p)
	}
	return x
}

func (g *docGen) animation() *gltf.Animation {
	t := g.t
	x := &gltf.Animation{Extensions: g.ext("animation"), Extras: g.extra("animation"), Name: g.name("animation")}
	for i, k := 0, intn(t, 1, 2, "channels.n"); i < k; i++ {
		x.Channels = append(x.Channels, &gltf.AnimationChannel{Extensions: g.ext("channel"), Extras: g.extra("channel"), Sampler: idx(t, "channel.sampler"),
			Target: gltf.AnimationChannelTarget{Extensions: g.ext("target"), Extras: g.extra("target"), Node: pidx(t, "target.node"), Path: gltf.TRSProperty(intn(t, 0, 3, "path"))}})
	}
	for i, k := 0, intn(t, 1, 2, "asamplers.n"); i < k; i++ {
		x.Samplers = append(x.Samplers, &gltf.AnimationSampler{Extensions: g.ext("asampler"), Extras: g.extra("asampler"), Input: idx(t, "input"),
			Interpolation: gltf.Interpolation(intn(t, 0, 2, "interpolation")), Output: idx(t, "output")})
	}
	return x
}

func (g *docGen) camera() *gltf.Camera {
	t := g.t
	x := &gltf.Camera{Extensions: g.ext("camera"), Extras: g.extra("camera"), Name: g.name("camera")}
	if rapid.Bool().Draw(t, "ortho") {
		x.Orthographic = &gltf.Orthographic{Extensions: g.ext("orthographic"), Extras: g.extra("orthographic"), Xmag: num(t, "xmag"), Ymag: num(t, "ymag"), Zfar: num(t, "zfar"), Znear: num(t, "znear")}
	} else {
		p := &gltf.Perspective{Extensions: g.ext("perspective"), Extras: g.extra("perspective"), Yfov: num(t, "yfov"), Znear: num(t, "znear")}
		if chance(t, 50, "aspectRatio?") {
			p.AspectRatio = gltf.Float(num(t, "aspectRatio"))
		}
		if chance(t, 50, "zfar?") {
			p.Zfar = gltf.Float(num(t, "zfar"))
		}
		x.Perspective = p
	}
	return x
}

// bufLen draws a buffer length: mostly small, all residues mod 4, sometimes around I/O buffer sizes.
func bufLen(t *rapid.T, label string) int {
	switch intn(t, 0, 9, label+".k") {
	case 8:
		return intn(t, 60, 300, label)
	case 9:
		if chance(t, 20, label+".large") {
			return pick(t, label, 16385, 32769, 65535, 65537, 70001, 131075, 300001, 1<<20+1)
		}
		return pick(t, label, 511, 512, 513, 4075, 4076, 4095, 4096, 4097, 8190, 8193, 12289)
	default:
		return intn(t, 1, 17, label)
	}
}

const (
	bufNoURI = iota
	bufEmbedded
	bufExternal       // with data
	bufExternalNoData // not loaded
	bufAbsolute       // absolute URI, no data
)

// buffer draws one buffer; ext tells whether external ones are allowed.
func (g *docGen) buffer(i int, kinds ...int) *gltf.Buffer {
	t := g.t
	data := payload(t, bufLen(t, "buffer.len"), "buffer.data")
	x := &gltf.Buffer{Extensions: g.ext("buffer"), Extras: g.extra("buffer"), Name: g.name("buffer"), ByteLength: len(data)}
	switch pick(t, "buffer.kind", kinds...) {
	case bufNoURI:
		x.Data = data
	case bufEmbedded:
		x.Data = data
		x.URI = dataURI(data)
	case bufExternal:
		x.Data = data
		x.URI = fmt.Sprintf("b%d.bin", i)
	case bufExternalNoData:
		x.URI = fmt.Sprintf("missing%d.bin", i)
	case bufAbsolute:
		x.URI = fmt.Sprintf("https://example.com/m/b%d.bin", i)
	}
	return x
}

func (g *docGen) image() *gltf.Image {
	t := g.t
	x := &gltf.Image{Extensions: g.ext("image"), Extras: g.extra("image"), Name: g.name("image")}
	switch intn(t, 0, 3, "image.kind") {
	case 0:
		x.BufferView = gltf.Index(idx(t, "image.bufferView"))
		x.MimeType = pick(t, "mime", "image/png", "image/jpeg")
	case 1:
		x.URI = pick(t, "image.uri", "tex.png", "dir/tex file.jpg", "caf\u00e9.png", "https://example.com/a.png")
	case 2:
		x.URI = pick(t, "image.pre", "data:image/png;base64,", "data:image/jpeg;base64,") + dataURI(payload(t, intn(t, 0, 20, "image.len"), "image.data"))[37:]
	default:
		x.URI = "t.png"
		x.MimeType = text(t, "mime")
	}
	return x
}

// doc draws a valid document. kinds are the allowed buffer kinds.
func (g *docGen) doc(kinds ...int) *gltf.Document {
	t := g.t
	d := &gltf.Document{Extensions: g.ext("glTF"), Extras: g.extra("glTF"), ExtensionsUsed: strs(t, 2, "extensionsUsed"), ExtensionsRequired: strs(t, 2, "extensionsRequired"), Scene: pidx(t, "scene")}
	d.Asset = gltf.Asset{Extensions: g.ext("asset"), Extras: g.extra("asset"), Copyright: g.name("copyright"), Generator: g.name("generator"),
		Version: pick(t, "version", "2.0", "", "2.1", "2.0 beta"), MinVersion: pick(t, "minVersion", "", "2.0", "2.1")}
	// A random subset of the collections is populated, so that documents stay
	// small while all combinations occur.
	on := func(label string) int {
		if chance(t, 35, label+"?") {
			return intn(t, 1, 3, label+".n")
		}
		return 0
	}
	for i, k := 0, on("accessors"); i < k; i++ {
		d.Accessors = append(d.Accessors, g.accessor())
	}
	for i, k := 0, on("animations"); i < k; i++ {
		d.Animations = append(d.Animations, g.animation())
	}
	for i, k := 0, pick(t, "buffers.n", 0, 1, 1, 1, 2, 3); i < k; i++ {
		d.Buffers = append(d.Buffers, g.buffer(i, kinds...))
	}
	for i, k := 0, on("bufferViews"); i < k; i++ {
		d.BufferViews = append(d.BufferViews, &gltf.BufferView{Extensions: g.ext("bufferView"), Extras: g.extra("bufferView"), Name: g.name("bufferView"), Buffer: idx(t, "bv.buffer"),
			ByteOffset: idx(t, "bv.offset"), ByteLength: idx(t, "bv.length"), ByteStride: pick(t, "bv.stride", 0, 4, 12, 252), Target: pick(t, "bv.target", gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer)})
	}
	for i, k := 0, on("cameras"); i < k; i++ {
		d.Cameras = append(d.Cameras, g.camera())
	}
	for i, k := 0, on("images"); i < k; i++ {
		d.Images = append(d.Images, g.image())
	}
	for i, k := 0, on("materials"); i < k; i++ {
		d.Materials = append(d.Materials, g.material())
	}
	for i, k := 0, on("meshes"); i < k; i++ {
		d.Meshes = append(d.Meshes, g.mesh())
	}
	for i, k := 0, on("nodes"); i < k; i++ {
		d.Nodes = append(d.Nodes, g.node())
	}
	for i, k := 0, on("samplers"); i < k; i++ {
		d.Samplers = append(d.Samplers, &gltf.Sampler{Extensions: g.ext("sampler"), Extras: g.extra("sampler"), Name: g.name("sampler"), MagFilter: gltf.MagFilter(intn(t, 0, 2, "mag")),
			MinFilter: gltf.MinFilter(intn(t, 0, 6, "min")), WrapS: gltf.WrappingMode(intn(t, 0, 2, "wrapS")), WrapT: gltf.WrappingMode(intn(t, 0, 2, "wrapT"))})
	}
	for i, k := 0, on("scenes"); i < k; i++ {
		d.Scenes = append(d.Scenes, &gltf.Scene{Extensions: g.ext("scene"), Extras: g.extra("scene"), Name: g.name("scene"), Nodes: idxs(t, 0, 3, "scene.nodes")})
	}
	for i, k := 0, on("skins"); i < k; i++ {
		d.Skins = append(d.Skins, &gltf.Skin{Extensions: g.ext("skin"), Extras: g.extra("skin"), Name: g.name("skin"), InverseBindMatrices: pidx(t, "ibm"), Skeleton: pidx(t, "skeleton"), Joints: idxs(t, 1, 3, "joints")})
	}
	for i, k := 0, on("textures"); i < k; i++ {
		d.Textures = append(d.Textures, &gltf.Texture{Extensions: g.ext("texture"), Extras: g.extra("texture"), Name: g.name("texture"), Sampler: pidx(t, "texture.sampler"), Source: pidx(t, "texture.source")})
	}
	if chance(t, 4, "crowd?") {
		g.crowd(d, kinds...)
	}
	if len(d.Buffers) > 1 && chance(t, 12, "shared data?") {
		shareData(t, d)
	}
	return d
}

// shareData makes the data of one buffer a part of the data of another one.
func shareData(t *rapid.T, d *gltf.Document) {
	a := d.Buffers[intn(t, 0, len(d.Buffers)-1, "shared.from")]
	b := d.Buffers[intn(t, 0, len(d.Buffers)-1, "shared.to")]
	if a == b || len(a.Data) == 0 || len(b.Data) == 0 {
		return
	}
	lo := pick(t, "shared.lo", 0, 0, 0, intn(t, 0, len(a.Data)-1, "shared.any"))
	hi := pick(t, "shared.hi", len(a.Data), intn(t, lo+1, len(a.Data), "shared.any"))
	b.Data = a.Data[lo:hi:hi]
	b.ByteLength = len(b.Data)
	if b.IsEmbeddedResource() {
		b.URI = dataURI(b.Data)
	}
}

// grow repeats the elements of s (shallow copies marked by f) until there are n.
func grow[T any](s []*T, n int, f func(x *T, i int)) []*T {
	for i := 0; len(s) > 0 && len(s) < n; i++ {
		if s[i] == nil {
			s = append(s, nil)
			continue
		}
		x := *s[i]
		f(&x, len(s))
		s = append(s, &x)
	}
	return s
}

// crowd makes some of the lists of d long.
func (g *docGen) crowd(d *gltf.Document, kinds ...int) {
	t := g.t
	long := func(label string) []int {
		v := make([]int, pick(t, label+".long", 9, 17, 33, 65, 129, 257, 1025))
		for i := range v {
			v[i] = len(v) - i
		}
		return v
	}
	n := pick(t, "crowd", 9, 10, 17, 33, 64, 65, 129, 257, 300, 1025)
	for j, k := 0, intn(t, 1, 3, "crowds"); j < k; j++ {
		switch intn(t, 0, 15, "crowd.of") {
		case 0:
			d.Accessors = grow(d.Accessors, n, func(x *gltf.Accessor, i int) { x.Count = i })
		case 1:
			d.Animations = grow(d.Animations, n, func(x *gltf.Animation, i int) { x.Name = fmt.Sprint(i) })
		case 2:
			d.BufferViews = grow(d.BufferViews, n, func(x *gltf.BufferView, i int) { x.ByteOffset = i })
		case 3:
			d.Cameras = grow(d.Cameras, n, func(x *gltf.Camera, i int) { x.Name = fmt.Sprint(i) })
		case 4:
			d.Images = grow(d.Images, n, func(x *gltf.Image, i int) { x.Name = fmt.Sprint(i) })
		case 5:
			d.Materials = grow(d.Materials, n, func(x *gltf.Material, i int) { x.Name = fmt.Sprint(i) })
		case 6:
			d.Meshes = grow(d.Meshes, n, func(x *gltf.Mesh, i int) { x.Name = fmt.Sprint(i) })
		case 7:
			d.Nodes = grow(d.Nodes, n, func(x *gltf.Node, i int) { x.Name = fmt.Sprint(i) })
		case 8:
			d.Samplers = grow(d.Samplers, n, func(x *gltf.Sampler, i int) { x.Name = fmt.Sprint(i) })
		case 9:
			d.Scenes = grow(d.Scenes, n, func(x *gltf.Scene, i int) { x.Name = fmt.Sprint(i) })
		case 10:
			d.Skins = grow(d.Skins, n, func(x *gltf.Skin, i int) { x.Name = fmt.Sprint(i) })
		case 11:
			d.Textures = grow(d.Textures, n, func(x *gltf.Texture, i int) { x.Name = fmt.Sprint(i) })
		case 12:
			for len(d.Buffers) > 0 && len(d.Buffers) < min(n, 20) {
				d.Buffers = append(d.Buffers, g.buffer(len(d.Buffers), kinds...))
			}
		case 13:
			for _, x := range d.Skins {
				if x != nil {
					x.Joints = long("joints")
				}
			}
		case 14:
			for _, x := range d.Scenes {
				if x != nil {
					x.Nodes = long("scene.nodes")
				}
			}
			for _, x := range d.Nodes {
				if x != nil {
					x.Children = long("children")
				}
			}
		case 15:
			for _, x := range d.Meshes {
				if x != nil {
					x.Primitives = grow(x.Primitives, min(n, 65), func(x *gltf.Primitive, i int) { x.Material = gltf.Index(i) })
				}
			}
			for _, x := range d.Animations {
				if x != nil {
					x.Channels = grow(x.Channels, min(n, 65), func(x *gltf.AnimationChannel, i int) { x.Sampler = i })
					x.Samplers = grow(x.Samplers, min(n, 65), func(x *gltf.AnimationSampler, i int) { x.Input = i })
				}
			}
		}
	}
}

// docSize counts the populated collections, for classification.
func docSize(d *gltf.Document) int {
	k := 0
	for _, l := range []int{len(d.Accessors), len(d.Animations), len(d.Buffers), len(d.BufferViews), len(d.Cameras), len(d.Images), len(d.Materials),
		len(d.Meshes), len(d.Nodes), len(d.Samplers), len(d.Scenes), len(d.Skins), len(d.Textures)} {
		if l > 0 {
			k++
		}
	}
	return k
}

// describe is a short text of a document for samples.
func describe(d *gltf.Document) string {
	s := string(mustJSON(specDoc(d)))
	for i, b := range d.Buffers {
		s += fmt.Sprintf(" buf%d:%dB", i, len(b.Data))
	}
	return s
}
