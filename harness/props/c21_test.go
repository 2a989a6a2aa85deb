package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C21

type normFn struct {
	name string
	lo   int // lowest code
	max  int
	norm func(float32) int
	den  func(int) float32
}

var normFns = []normFn{
	{"Byte", -128, 127, func(f float32) int { return int(gltf.NormalizeByte(f)) }, func(c int) float32 { return gltf.DenormalizeByte(int8(c)) }},
	{"Ubyte", 0, 255, func(f float32) int { return int(gltf.NormalizeUbyte(f)) }, func(c int) float32 { return gltf.DenormalizeUbyte(uint8(c)) }},
	{"Short", -32768, 32767, func(f float32) int { return int(gltf.NormalizeShort(f)) }, func(c int) float32 { return gltf.DenormalizeShort(int16(c)) }},
	{"Ushort", 0, 65535, func(f float32) int { return int(gltf.NormalizeUshort(f)) }, func(c int) float32 { return gltf.DenormalizeUshort(uint16(c)) }},
}

func TestC21Codes(t *testing.T) {
	Each(t, "every code of every integer type", func(record func(c *Case)) {
		for _, f := range normFns {
			prev := float32(math.Inf(-1))
			for code := f.lo; code <= f.max; code++ {
				c := new(Case)
				c.Key(f.name, code)
				c.NonTrivial(true)
				c.Label(f.name)
				got := f.den(code)
				want := math.Max(float64(code)/float64(f.max), -1)
				c.Sample("Denormalize%s(%d) = %v", f.name, code, got)
				if !(math.Abs(float64(got)-want) <= 6e-8*math.Max(math.Abs(want), 1e-3)) {
					t.Fatalf("Denormalize%s(%d) = %v, want %v", f.name, code, got, want)
				}
				if got < prev || got > 1 || got < -1 || f.lo == 0 && got < 0 || code > -f.max+1 && got <= prev {
					t.Fatalf("Denormalize%s(%d) = %v, the previous code gives %v", f.name, code, got, prev)
				}
				prev = got
				back := code
				if back < -f.max {
					back = -f.max
				}
				if b := f.norm(got); b != back {
					t.Fatalf("Normalize%s(Denormalize%s(%d)) = %d, want %d", f.name, f.name, code, b, back)
				}
				record(c)
			}
			// 0.5 and -0.5 are the only exact ties
			if half := f.norm(0.5); half != (f.max+1)/2 {
				t.Fatalf("Normalize%s(0.5) = %d, want round(%v) = %d", f.name, half, 0.5*float64(f.max), (f.max+1)/2)
			}
			if f.lo < 0 && f.norm(-0.5) != -(f.max+1)/2 {
				t.Fatalf("Normalize%s(-0.5) = %d, want round(%v) = %d", f.name, f.norm(-0.5), -0.5*float64(f.max), -(f.max+1)/2)
			}
			if f.den(f.max) != 1 || f.den(0) != 0 || f.lo < 0 && (f.den(f.lo) != -1 || f.den(-f.max) != -1) {
				t.Fatalf("Denormalize%s doesn't map the extremes exactly", f.name)
			}
		}
	})
}

// drawUnit draws a float32 in [-1,1] or [0,1], often close to a code or to a rounding threshold.
func drawUnit(rt *rapid.T, max int, signed bool, label string) float32 {
	var f float32
	switch intn(rt, 0, 4, label+".k") {
	case 0:
		f = pick(rt, label, 0, 1, 0.5, 0.0031308, 0.04045, 1.0/3, math.SmallestNonzeroFloat32, 1e-20, 0.999999, math.Nextafter32(1, 0), float32(math.Copysign(0, -1)))
	case 1: // at a code
		f = float32(float64(intn(rt, 0, max, label)) / float64(max))
	case 2: // at a threshold
		f = float32((float64(intn(rt, 0, max-1, label)) + 0.5) / float64(max))
	default:
		f = float32(rapid.Uint32Range(0, 1<<24).Draw(rt, label)) / (1 << 24)
	}
	for i, k := 0, intn(rt, -2, 2, label+".ulp"); i != k; {
		if k > 0 {
			f = math.Nextafter32(f, 2)
			i++
		} else {
			f = math.Nextafter32(f, -1)
			i--
		}
	}
	f = float32(math.Min(1, math.Max(0, float64(f))))
	if signed && rapid.Bool().Draw(rt, label+".neg") {
		f = -f
	}
	return f
}

func TestC21Floats(t *testing.T) {
	Prop(t, Opt{Quick: 10000, Rule: "a pair of different floats of the range"}, func(rt *rapid.T, c *Case) {
		f := normFns[intn(rt, 0, len(normFns)-1, "type")]
		a := drawUnit(rt, f.max, f.lo < 0, "a")
		b := drawUnit(rt, f.max, f.lo < 0, "b")
		if chance(rt, 30, "near") {
			b = math.Nextafter32(a, 0)
		}
		c.Key(f.name, a, b)
		c.NonTrivial(a != b)
		c.Label(f.name)
		na, nb := f.norm(a), f.norm(b)
		c.Sample("Normalize%s(%v)=%d (%v)=%d", f.name, a, na, b, nb)
		for _, p := range [][2]float64{{float64(a), float64(na)}, {float64(b), float64(nb)}} {
			if exact := p[0] * float64(f.max); math.Abs(p[1]-exact) > 0.5+1e-6*float64(f.max)/255 {
				rt.Fatalf("Normalize%s(%v) = %v, want the closest to %v", f.name, p[0], p[1], exact)
			}
		}
		if (a < b && na > nb) || (a > b && na < nb) || (a == b && na != nb) {
			rt.Fatalf("Normalize%s isn't monotonic: %v gives %d, %v gives %d", f.name, a, na, b, nb)
		}
	})
}

// linear is the electro-optical transfer function of IEC 61966-2-1.
func linear(v float64) float64 {
	if v <= 0.04045 {
		return v / 12.92
	}
	return math.Pow((v+0.055)/1.055, 2.4)
}

type rgbFn struct {
	name string
	max  int
	norm func(f [4]float32) []int
	den  func(c [4]int) []float32
}

var rgbFns = []rgbFn{
	{"RGB", 255, func(f [4]float32) []int {
		x := gltf.NormalizeRGB([3]float32(f[:3]))
		return []int{int(x[0]), int(x[1]), int(x[2])}
	}, func(c [4]int) []float32 {
		x := gltf.DenormalizeRGB([3]uint8{uint8(c[0]), uint8(c[1]), uint8(c[2])})
		return x[:]
	}},
	{"RGBA", 255, func(f [4]float32) []int {
		x := gltf.NormalizeRGBA(f)
		return []int{int(x[0]), int(x[1]), int(x[2]), int(x[3])}
	}, func(c [4]int) []float32 {
		x := gltf.DenormalizeRGBA([4]uint8{uint8(c[0]), uint8(c[1]), uint8(c[2]), uint8(c[3])})
		return x[:]
	}},
	{"RGB64", 65535, func(f [4]float32) []int {
		x := gltf.NormalizeRGB64([3]float32(f[:3]))
		return []int{int(x[0]), int(x[1]), int(x[2])}
	}, func(c [4]int) []float32 {
		x := gltf.DenormalizeRGB64([3]uint16{uint16(c[0]), uint16(c[1]), uint16(c[2])})
		return x[:]
	}},
	{"RGBA64", 65535, func(f [4]float32) []int {
		x := gltf.NormalizeRGBA64(f)
		return []int{int(x[0]), int(x[1]), int(x[2]), int(x[3])}
	}, func(c [4]int) []float32 {
		x := gltf.DenormalizeRGBA64([4]uint16{uint16(c[0]), uint16(c[1]), uint16(c[2]), uint16(c[3])})
		return x[:]
	}},
}

func TestC21ColorCodes(t *testing.T) {
	Each(t, "every code in every channel of the four color conversions, with different codes in the other channels", func(record func(c *Case)) {
		for _, f := range rgbFns {
			var prev []float32
			for code := 0; code <= f.max; code++ {
				in := [4]int{code, (code*7 + 3) % (f.max + 1), f.max - code, (code*13 + 5) % (f.max + 1)}
				c := new(Case)
				c.Key(f.name, code)
				c.NonTrivial(true)
				c.Label(f.name)
				for rot := 0; rot < 4; rot++ {
					got := f.den(in)
					for ch, v := range got {
						want := float64(in[ch]) / float64(f.max)
						if ch < 3 {
							want = linear(want)
						}
						if !(math.Abs(float64(v)-want) <= 1e-6) || v < 0 || v > 1 {
							t.Fatalf("Denormalize%s(%v) channel %d = %v, want %v", f.name, in, ch, v, want)
						}
						if in[ch] == 0 && v != 0 || ch == 3 && in[ch] == f.max && v != 1 {
							t.Fatalf("Denormalize%s(%v) channel %d = %v, the extreme isn't exact", f.name, in, ch, v)
						}
					}
					var fl [4]float32
					copy(fl[:], got)
					for ch, b := range f.norm(fl) {
						if d := b - in[ch]; d < -1 || d > 1 || (in[ch] == 0 || ch == 3 && in[ch] == f.max) && d != 0 {
							t.Fatalf("Normalize%s of Denormalize%s(%v) channel %d is %d", f.name, f.name, in, ch, b)
						}
					}
					in = [4]int{in[3], in[0], in[1], in[2]}
				}
				one := f.den([4]int{code, code, code, code})
				for ch := range prev {
					if one[ch] <= prev[ch] {
						t.Fatalf("Denormalize%s isn't monotonic: channel %d of %d is %v, of %d is %v", f.name, ch, code-1, prev[ch], code, one[ch])
					}
				}
				prev = one
				c.Sample("Denormalize%s(%d) = %v", f.name, code, one)
				record(c)
			}
		}
	})
}

func TestC21ColorFloats(t *testing.T) {
	Prop(t, Opt{Quick: 10000, Rule: "a pair of colors that differ in some channel"}, func(rt *rapid.T, c *Case) {
		f := rgbFns[intn(rt, 0, len(rgbFns)-1, "conversion")]
		var a, b [4]float32
		for i := range a {
			a[i] = drawUnit(rt, f.max, false, "a")
			b[i] = drawUnit(rt, f.max, false, "b")
			if chance(rt, 30, "near") {
				b[i] = math.Nextafter32(a[i], pick(rt, "dir", float32(0), 1))
			}
		}
		c.Key(f.name, a, b)
		c.NonTrivial(a != b)
		c.Label(f.name)
		na, nb := f.norm(a), f.norm(b)
		c.Sample("Normalize%s(%v)=%v", f.name, a, na)
		for ch := range na {
			exact := float64(a[ch])
			if ch < 3 {
				exact = srgb(exact)
			}
			exact *= float64(f.max)
			if d := float64(na[ch]) - exact; d < -1.01 || d > 1.01 {
				rt.Fatalf("Normalize%s(%v) channel %d = %d, want about %.3f", f.name, a, ch, na[ch], exact)
			}
			if a[ch] == 0 && na[ch] != 0 || a[ch] == 1 && na[ch] != f.max {
				rt.Fatalf("Normalize%s(%v) channel %d = %d, the extreme isn't exact", f.name, a, ch, na[ch])
			}
			if a[ch] < b[ch] && na[ch] > nb[ch] || a[ch] > b[ch] && na[ch] < nb[ch] {
				rt.Fatalf("Normalize%s isn't monotonic in channel %d: %v gives %d, %v gives %d", f.name, ch, a[ch], na[ch], b[ch], nb[ch])
			}
		}
	})
}

// ---------------------------------------------------------------- C24

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func encode64(b []byte) string {
	var s strings.Builder
	for i := 0; i < len(b); i += 3 {
		var x [3]byte
		n := copy(x[:], b[i:])
		v := uint(x[0])<<16 | uint(x[1])<<8 | uint(x[2])
		for j := 0; j < 4; j++ {
			if j > n {
				s.WriteByte('=')
			} else {
				s.WriteByte(b64[v>>(18-6*j)&63])
			}
		}
	}
	return s.String()
}

// decode64: state 0 valid, 1 invalid, 2 unspecified (line breaks, non-zero trailing bits).
func decode64(s string) ([]byte, int) {
	if strings.ContainsAny(s, "\r\n") {
		return nil, 2
	}
	if len(s)%4 != 0 {
		return nil, 1
	}
	body := strings.TrimRight(s, "=")
	pad := len(s) - len(body)
	if pad > 2 {
		return nil, 1
	}
	var out []byte
	acc, bits := uint(0), 0
	for i := 0; i < len(body); i++ {
		p := strings.IndexByte(b64, body[i])
		if p < 0 {
			return nil, 1
		}
		acc = acc<<6 | uint(p)
		if bits += 6; bits >= 8 {
			bits -= 8
			out = append(out, byte(acc>>bits))
		}
	}
	if acc&(1<<bits-1) != 0 {
		return nil, 2
	}
	return out, 0
}

const octetPrefix = "data:application/octet-stream;base64,"

func TestC24Buffer(t *testing.T) {
	Prop(t, Opt{Quick: 3000, Rule: "non-empty data"}, func(rt *rapid.T, c *Case) {
		data := payload(rt, pick(rt, "len.k", 0, 1, 2, 3, bufLen(rt, "len")), "data")
		orig := bytes.Clone(data)
		b := &gltf.Buffer{ByteLength: len(data), Data: data, Name: "n", URI: pick(rt, "old", "", "x.bin", octetPrefix+"AAAA")}
		b.EmbeddedResource()
		c.Key(data)
		c.NonTrivial(len(data) > 0)
		c.Sample("%d bytes: %s", len(data), trunc([]byte(b.URI)))
		if b.URI != octetPrefix+encode64(orig) {
			rt.Fatalf("URI of %x is %s", trunc(orig), b.URI)
		}
		if !b.IsEmbeddedResource() || !bytes.Equal(b.Data, orig) || b.ByteLength != len(orig) || b.Name != "n" {
			rt.Fatalf("EmbeddedResource changed the buffer: %d bytes, byteLength %d", len(b.Data), b.ByteLength)
		}
		if len(data) == 0 {
			return
		}
		doc := gltf.NewDocument()
		at := intn(rt, 0, 2, "at")
		for i := 0; i < at; i++ {
			doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 2, Data: []byte{1, byte(i)}})
		}
		doc.Buffers = append(doc.Buffers, b)
		bin := rapid.Bool().Draw(rt, "glb")
		c.LabelIf(bin, "glb")
		out, err := encode(doc, bin, nil)
		if err != nil {
			rt.Fatalf("Encode: %v", err)
		}
		d2, err := decode(out, nil)
		if err != nil {
			rt.Fatalf("Decode: %v", err)
		}
		if x := d2.Buffers[at]; !bytes.Equal(x.Data, orig) || !x.IsEmbeddedResource() || x.URI != b.URI {
			rt.Fatalf("loaded %x (%s), want %x", trunc(x.Data), trunc([]byte(x.URI)), trunc(orig))
		}
	})
}

// corrupt64 alters base64 text.
func corrupt64(rt *rapid.T, s string) string {
	switch intn(rt, 0, 5, "corruption") {
	case 0: // lose the end
		return s[:max(0, len(s)-intn(rt, 1, 3, "cut"))]
	case 1: // illegal character
		if len(s) == 0 {
			return "!"
		}
		i := intn(rt, 0, len(s)-1, "at")
		return s[:i] + pick(rt, "char", "!", "-", "_", " ", "%", "=", "\x00", "é", ",", "\n") + s[i+1:]
	case 2:
		return s + pick(rt, "more", "=", "A", "==", "AA", "AAA", "A===", "AA==", "!!!!")
	case 3: // insert
		i := intn(rt, 0, len(s), "at")
		return s[:i] + pick(rt, "char", "=", "*", "A", " ", "====") + s[i:]
	case 4: // drop one
		if len(s) == 0 {
			return "A"
		}
		i := intn(rt, 0, len(s)-1, "at")
		return s[:i] + s[i+1:]
	default:
		return s
	}
}

func TestC24Corrupted(t *testing.T) {
	Prop(t, Opt{Quick: 5000, Rule: "the text was altered into something that is not base64"}, func(rt *rapid.T, c *Case) {
		data := payload(rt, intn(rt, 1, 40, "len"), "data")
		s := corrupt64(rt, encode64(data))
		want, state := decode64(s)
		doc := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d,"uri":%s}]}`, max(1, len(want)), mustJSON(octetPrefix+s))
		what := fmt.Sprintf("%q", s)
		c.Key(s)
		c.NonTrivial(state == 1)
		c.Label([]string{"valid base64", "invalid", "unspecified"}[state])
		c.Sample("%s", what)
		glb := rapid.Bool().Draw(rt, "glb")
		in := []byte(doc)
		if glb {
			in = buildGLB(glbChunk{chunkJSON, pad(in, ' ')})
		}
		d, err := decode(in, nil)
		if state == 1 && err == nil {
			rt.Fatalf("buffer with content %s loaded as %x", what, d.Buffers[0].Data)
		}
		if state == 1 && d != nil && len(d.Buffers) > 0 && len(d.Buffers[0].Data) > 0 {
			rt.Fatalf("buffer with content %s: partial data %x", what, d.Buffers[0].Data)
		}
		if state == 0 && len(want) > 0 && (err != nil || !bytes.Equal(d.Buffers[0].Data, want)) {
			rt.Fatalf("buffer with content %s: %v", what, err)
		}
		im := &gltf.Image{URI: pick(rt, "mime", "data:image/png;base64,", "data:image/jpeg;base64,") + s}
		var b []byte
		if p := call(func() { b, err = im.MarshalData() }); p != "" {
			rt.Fatalf("MarshalData of %s: %s", im.URI, p)
		}
		if state == 1 && err == nil {
			rt.Fatalf("MarshalData of %s returned %x", im.URI, b)
		}
		if state == 0 && (err != nil || !bytes.Equal(b, want)) {
			rt.Fatalf("MarshalData of %s returned %x, %v", im.URI, b, err)
		}
	})
}

func TestC24Image(t *testing.T) {
	Prop(t, Opt{Quick: 4000, Rule: "a base64 PNG or JPEG data URI with content, or any other non-empty URI"}, func(rt *rapid.T, c *Case) {
		data := payload(rt, pick(rt, "len.k", 0, 1, 2, 3, bufLen(rt, "len")), "data")
		embedded := rapid.Bool().Draw(rt, "embedded")
		im := &gltf.Image{Name: "i", MimeType: pick(rt, "mimeType", "", "image/png", "image/jpeg", "image/webp")}
		if embedded {
			im.URI = pick(rt, "mime", "data:image/png;base64,", "data:image/jpeg;base64,") + encode64(data)
		} else {
			im.URI = pick(rt, "uri", "", "a.png", "dir/a b.jpg", "https://x.org/data:image/png;base64,AAAA", "data:image/png,abcd", "data:image/webp;base64,"+encode64(data), "data:image/gif;base64,"+encode64(data),
				"data:application/octet-stream;base64,"+encode64(data), "data:text/plain;base64,"+encode64(data), "data:", "data:image/pn", "image/png;base64,"+encode64(data), " data:image/png;base64,"+encode64(data), "image.jpeg;base64,AAAA", text(rt, "any"))
		}
		c.Key(im.URI)
		c.NonTrivial(embedded && len(data) > 0 || !embedded && im.URI != "")
		c.LabelIf(embedded, "embedded")
		c.Sample("%s", trunc([]byte(im.URI)))
		if rapid.Bool().Draw(rt, "loaded") && (embedded || strings.ToValidUTF8(im.URI, "") == im.URI) {
			doc := gltf.NewDocument()
			doc.Images = []*gltf.Image{im}
			out, err := encode(doc, rapid.Bool().Draw(rt, "glb"), nil)
			if err != nil {
				rt.Fatalf("Encode: %v", err)
			}
			d2, err := decode(out, nil)
			if err != nil {
				rt.Fatalf("Decode: %v", err)
			}
			im = d2.Images[0]
		}
		before := *im
		var b []byte
		var err error
		if p := call(func() { b, err = im.MarshalData() }); p != "" {
			rt.Fatalf("MarshalData of %q: %s", im.URI, p)
		}
		if !reflect.DeepEqual(before, *im) {
			rt.Fatalf("MarshalData changed the image")
		}
		if im.IsEmbeddedResource() != embedded {
			rt.Fatalf("IsEmbeddedResource of %q is %v", im.URI, !embedded)
		}
		want := data
		if !embedded {
			want = nil
		}
		if err != nil || !bytes.Equal(b, want) {
			rt.Fatalf("MarshalData of %q returned %x, %v, want %x", im.URI, trunc(b), err, trunc(want))
		}
	})
}

// ---------------------------------------------------------------- C26

type enumRow struct {
	value any    // the constant
	code  any    // its glTF code; nil when it has none (undefined)
	name  string // String()
	def   bool   // the glTF default, or the absence of a value
}

type enumTable struct {
	name string
	rows []enumRow
}

var enumTables = []enumTable{
	{"ComponentType", []enumRow{{gltf.ComponentFloat, 5126, "FLOAT", true}, {gltf.ComponentByte, 5120, "BYTE", false}, {gltf.ComponentUbyte, 5121, "UNSIGNED_BYTE", false},
		{gltf.ComponentShort, 5122, "SHORT", false}, {gltf.ComponentUshort, 5123, "UNSIGNED_SHORT", false}, {gltf.ComponentUint, 5125, "UNSIGNED_INT", false}}},
	{"AccessorType", []enumRow{{gltf.AccessorScalar, "SCALAR", "SCALAR", true}, {gltf.AccessorVec2, "VEC2", "VEC2", false}, {gltf.AccessorVec3, "VEC3", "VEC3", false},
		{gltf.AccessorVec4, "VEC4", "VEC4", false}, {gltf.AccessorMat2, "MAT2", "MAT2", false}, {gltf.AccessorMat3, "MAT3", "MAT3", false}, {gltf.AccessorMat4, "MAT4", "MAT4", false}}},
	{"Target", []enumRow{{gltf.TargetNone, nil, "NONE", true}, {gltf.TargetArrayBuffer, 34962, "ARRAY_BUFFER", false}, {gltf.TargetElementArrayBuffer, 34963, "ELEMENT_ARRAY_BUFFER", false}}},
	{"PrimitiveMode", []enumRow{{gltf.PrimitiveTriangles, 4, "TRIANGLES", true}, {gltf.PrimitivePoints, 0, "POINTS", false}, {gltf.PrimitiveLines, 1, "LINES", false}, {gltf.PrimitiveLineLoop, 2, "LINE_LOOP", false},
		{gltf.PrimitiveLineStrip, 3, "LINE_STRIP", false}, {gltf.PrimitiveTriangleStrip, 5, "TRIANGLE_STRIP", false}, {gltf.PrimitiveTriangleFan, 6, "TRIANGLE_FAN", false}}},
	{"AlphaMode", []enumRow{{gltf.AlphaOpaque, "OPAQUE", "OPAQUE", true}, {gltf.AlphaMask, "MASK", "MASK", false}, {gltf.AlphaBlend, "BLEND", "BLEND", false}}},
	{"MagFilter", []enumRow{{gltf.MagUndefined, nil, "UNDEFINED", true}, {gltf.MagLinear, 9729, "LINEAR", false}, {gltf.MagNearest, 9728, "NEAREST", false}}},
	{"MinFilter", []enumRow{{gltf.MinUndefined, nil, "UNDEFINED", true}, {gltf.MinLinear, 9729, "LINEAR", false}, {gltf.MinNearest, 9728, "NEAREST", false}, {gltf.MinNearestMipMapNearest, 9984, "NEAREST_MIPMAP_NEAREST", false},
		{gltf.MinLinearMipMapNearest, 9985, "LINEAR_MIPMAP_NEAREST", false}, {gltf.MinNearestMipMapLinear, 9986, "NEAREST_MIPMAP_LINEAR", false}, {gltf.MinLinearMipMapLinear, 9987, "LINEAR_MIPMAP_LINEAR", false}}},
	{"WrappingMode", []enumRow{{gltf.WrapRepeat, 10497, "REPEAT", true}, {gltf.WrapClampToEdge, 33071, "CLAMP_TO_EDGE", false}, {gltf.WrapMirroredRepeat, 33648, "MIRRORED_REPEAT", false}}},
	{"Interpolation", []enumRow{{gltf.InterpolationLinear, "LINEAR", "LINEAR", true}, {gltf.InterpolationStep, "STEP", "STEP", false}, {gltf.InterpolationCubicSpline, "CUBICSPLINE", "CUBICSPLINE", false}}},
	{"TRSProperty", []enumRow{{gltf.TRSTranslation, "translation", "translation", true}, {gltf.TRSRotation, "rotation", "rotation", false}, {gltf.TRSScale, "scale", "scale", false}, {gltf.TRSWeights, "weights", "weights", false}}},
}

func marshalValue(v any) ([]byte, error) {
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return json.Marshal(p.Interface())
}

func unmarshalValue(b []byte, like any) (any, error) {
	p := reflect.New(reflect.TypeOf(like))
	err := json.Unmarshal(b, p.Interface())
	return p.Elem().Interface(), err
}

func (e enumTable) codes() map[string]any {
	m := map[string]any{}
	for _, r := range e.rows {
		if r.code != nil {
			m[string(mustJSON(r.code))] = r.value
		}
	}
	return m
}

func TestC26Constants(t *testing.T) {
	Each(t, "every constant of every enumeration", func(record func(c *Case)) {
		for _, e := range enumTables {
			seen := map[string]bool{}
			for _, r := range e.rows {
				c := new(Case)
				c.Key(e.name, r.name)
				c.NonTrivial(true)
				c.Label(e.name)
				c.Sample("%s %v: code %v", e.name, r.name, r.code)
				if got := fmt.Sprint(r.value); got != r.name {
					t.Fatalf("%s %v: String is %q, want %q", e.name, r.code, got, r.name)
				}
				if r.def != reflect.ValueOf(r.value).IsZero() {
					t.Fatalf("%s %s: zero value %v, default %v", e.name, r.name, !r.def, r.def)
				}
				if r.code != nil {
					b, err := marshalValue(r.value)
					if err != nil || string(b) != string(mustJSON(r.code)) {
						t.Fatalf("%s %s encodes to %s (%v), want %v", e.name, r.name, b, err, r.code)
					}
					if seen[string(b)] {
						t.Fatalf("%s: code %s used twice", e.name, b)
					}
					seen[string(b)] = true
					v, err := unmarshalValue(b, r.value)
					if err != nil || v != r.value {
						t.Fatalf("%s: code %s decodes to %v (%v), want %s", e.name, b, v, err, r.name)
					}
				}
				record(c)
			}
		}
		for _, c := range compList {
			if c.ByteSize() != compSize[c] {
				t.Fatalf("%v: ByteSize %d", c, c.ByteSize())
			}
		}
		for _, s := range shapeList {
			if s.Components() != elemOf(gltf.ComponentFloat, s).n {
				t.Fatalf("%v: Components %d", s, s.Components())
			}
		}
	})
}

// Every 16-bit code: the defined ones decode to their constant, the others to an error or to the default.
func TestC26Codes(t *testing.T) {
	Each(t, "every 16-bit code of every numeric enumeration; non-trivial = the code is defined for the enumeration", func(record func(c *Case)) {
		for _, e := range enumTables {
			if _, text := e.rows[0].value.(interface{ String() string }); !text {
				t.Fatalf("%s has no String", e.name)
			}
			if _, isText := e.rows[len(e.rows)-1].code.(string); isText || e.name == "Target" {
				continue
			}
			codes := e.codes()
			for code := 0; code < 1<<16; code++ {
				b := mustJSON(code)
				v, err := unmarshalValue(b, e.rows[0].value)
				want, ok := codes[string(b)]
				if ok && (err != nil || v != want) {
					t.Fatalf("%s: code %d decodes to %v (%v), want %v", e.name, code, v, err, want)
				}
				if !ok && err == nil && !reflect.ValueOf(v).IsZero() {
					t.Fatalf("%s: undefined code %d decodes to %v", e.name, code, v)
				}
				c := new(Case)
				c.Key(e.name, code)
				c.NonTrivial(ok)
				c.LabelIf(ok, e.name)
				record(c)
			}
		}
	})
}

func TestC26Names(t *testing.T) {
	Prop(t, Opt{Quick: 6000, Rule: "a string that differs from the defined codes, or a defined code"}, func(rt *rapid.T, c *Case) {
		var texts []enumTable
		for _, e := range enumTables {
			if _, ok := e.rows[len(e.rows)-1].code.(string); ok {
				texts = append(texts, e)
			}
		}
		e := texts[intn(rt, 0, len(texts)-1, "enum")]
		s := e.rows[intn(rt, 0, len(e.rows)-1, "row")].code.(string)
		switch intn(rt, 0, 6, "edit") {
		case 0:
			s = text(rt, "any")
		case 1:
			s = strings.ToLower(s)
		case 2:
			s = s + pick(rt, "more", " ", "S", "2", "\x00")
		case 3:
			s = s[:len(s)-1]
		case 4:
			o := texts[intn(rt, 0, len(texts)-1, "other")]
			s = o.rows[intn(rt, 0, len(o.rows)-1, "otherrow")].code.(string)
		case 5:
			s = strings.ToUpper(s)
		}
		want, ok := e.codes()[string(mustJSON(s))]
		v, err := unmarshalValue(mustJSON(s), e.rows[0].value)
		c.Key(e.name, s)
		c.NonTrivial(true)
		c.LabelIf(ok, "defined")
		c.LabelIf(!ok, "undefined")
		c.Sample("%s %q", e.name, s)
		if ok && (err != nil || v != want) {
			rt.Fatalf("%s: %q decodes to %v (%v), want %v", e.name, s, v, err, want)
		}
		if !ok && err == nil && (e.name == "AccessorType" || !reflect.ValueOf(v).IsZero()) {
			rt.Fatalf("%s: undefined %q decodes to %v", e.name, s, v)
		}
		if e.name == "AccessorType" {
			doc := fmt.Sprintf(`{"asset":{"version":"2.0"},"accessors":[{"componentType":5126,"count":1,"type":%s}]}`, mustJSON(s))
			d, err := decode([]byte(doc), nil)
			if ok != (err == nil) || ok && d.Accessors[0].Type != want {
				rt.Fatalf("document with accessor type %q: %v", s, err)
			}
		}
	})
}
