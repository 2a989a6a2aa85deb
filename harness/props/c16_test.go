package props

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- attributes

var (
	float3 = elemOf(gltf.ComponentFloat, gltf.AccessorVec3)
	float4 = elemOf(gltf.ComponentFloat, gltf.AccessorVec4)
	float2 = elemOf(gltf.ComponentFloat, gltf.AccessorVec2)
	ubyte2 = elemOf(gltf.ComponentUbyte, gltf.AccessorVec2)
	ubyte3 = elemOf(gltf.ComponentUbyte, gltf.AccessorVec3)
	ubyte4 = elemOf(gltf.ComponentUbyte, gltf.AccessorVec4)
	ushrt2 = elemOf(gltf.ComponentUshort, gltf.AccessorVec2)
	ushrt3 = elemOf(gltf.ComponentUshort, gltf.AccessorVec3)
	ushrt4 = elemOf(gltf.ComponentUshort, gltf.AccessorVec4)
	ubyte1 = elemOf(gltf.ComponentUbyte, gltf.AccessorScalar)
	ushrt1 = elemOf(gltf.ComponentUshort, gltf.AccessorScalar)
	uint1  = elemOf(gltf.ComponentUint, gltf.AccessorScalar)
	floatM = elemOf(gltf.ComponentFloat, gltf.AccessorMat4)
)

// attrKinds are the encodings that the modeler checks for an attribute; normalized when integer if norm.
var attrKinds = map[string]struct {
	kinds []elem
	norm  bool
}{
	"POSITION":   {[]elem{float3}, false},
	"TEXCOORD_0": {[]elem{float2, ubyte2, ushrt2}, true},
	"TEXCOORD_1": {[]elem{float2, ubyte2, ushrt2}, true},
	"WEIGHTS_0":  {[]elem{float4, ubyte4, ushrt4}, true},
	"JOINTS_0":   {[]elem{ubyte4, ushrt4}, false},
	"COLOR_0":    {[]elem{ubyte4, ubyte3, ushrt4, ushrt3, float3, float4}, true},
}

// vdata is data given to a modeler call, with what must be read back.
type vdata struct {
	k    elem
	els  [][]uint32
	data any
	norm bool
}

func drawData(t *rapid.T, label string, n int, rgba bool, kinds ...elem) vdata {
	k := pick(t, label+".kind", kinds...)
	v := vdata{k: k, els: drawEls(t, k, n, label)}
	v.data = k.slice(v.els, rgba && rgbaType(k) != nil && rapid.Bool().Draw(t, label+".rgba"))
	return v
}

var allElems = func() (l []elem) {
	for _, c := range compList {
		for _, s := range shapeList {
			l = append(l, elemOf(c, s))
		}
	}
	return
}()

// drawPositions draws finite positions.
func drawPositions(t *rapid.T, label string, n int) vdata {
	v := vdata{k: float3, els: drawEls(t, float3, n, label)}
	mode := intn(t, 0, 5, label+".mode")
	for i, el := range v.els {
		for j := range el {
			f := math.Float32frombits(el[j])
			if f != f || math.IsInf(float64(f), 0) {
				f = math.Float32frombits(el[j] &^ 0x40000000)
			}
			switch mode {
			case 1: // all negative
				f = -float32(math.Abs(float64(f)))
			case 2:
				f = float32(math.Abs(float64(f)))
			case 3: // ordinary coordinates
				f = float32(int32(el[j])%100000) / 64
			case 4: // all equal
				f = math.Float32frombits(v.els[0][0])
				if i == 0 && j == 0 {
					f = float32(int32(el[j])%1000) / 8
				}
			}
			el[j] = math.Float32bits(f)
		}
	}
	if n > 0 && mode == 5 { // one extreme
		v.els[intn(t, 0, n-1, label+".at")][intn(t, 0, 2, label+".axis")] = math.Float32bits(pick(t, label+".extreme", math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, 0, 1e-38, float32(math.Copysign(0, -1))))
	}
	v.data = v.k.slice(v.els, false)
	return v
}

func bounds(els [][]uint32) (lo, hi []float64) {
	for i, el := range els {
		for j, b := range el {
			f := float64(math.Float32frombits(b))
			if i == 0 {
				lo, hi = append(lo, f), append(hi, f)
			}
			if f < lo[j] {
				lo[j] = f
			}
			if f > hi[j] {
				hi[j] = f
			}
		}
	}
	return
}

func drawAttr(t *rapid.T, label, name string, n int) vdata {
	if name == "POSITION" {
		return drawPositions(t, label, n)
	}
	a, ok := attrKinds[name]
	switch {
	case ok:
	case name == "NORMAL":
		a.kinds, ok = []elem{float3}, true
	case name == "TANGENT":
		a.kinds, ok = []elem{float4}, true
	case strings.Contains(strings.ToUpper(name), "POSITION") && chance(t, 60, label+".vec3"):
		a.kinds = []elem{float3}
	default:
		a.kinds = allElems
	}
	v := drawData(t, label, n, !ok || name == "COLOR_0", a.kinds...)
	v.norm = a.norm && v.k.c != gltf.ComponentFloat
	return v
}

// ruin overwrites the data that was given to the library.
func (v vdata) ruin() {
	reflect.Copy(reflect.ValueOf(v.data), reflect.ValueOf(v.k.junk(len(v.els), reflect.TypeOf(v.data).Elem() == rgbaType(v.k))))
}

// ---------------------------------------------------------------- history model

type written struct {
	op       string
	acc      int // accessor, or -1
	view     int // buffer view
	img      int // image, or -1
	v        vdata
	target   gltf.Target
	lo, hi   []float64
	anyBound bool // bounds of empty positions are not specified
	raw      []byte
	name     string
	mime     string
}

// frame checks that a call only appended to the document: naccs accessors, nviews views, nimgs images.
func frame(before, doc *gltf.Document, naccs, nviews, nimgs int) string {
	if len(doc.Accessors) != len(before.Accessors)+naccs || len(doc.BufferViews) != len(before.BufferViews)+nviews || len(doc.Images) != len(before.Images)+nimgs {
		return fmt.Sprintf("%d accessors, %d views, %d images added; want %d, %d, %d", len(doc.Accessors)-len(before.Accessors),
			len(doc.BufferViews)-len(before.BufferViews), len(doc.Images)-len(before.Images), naccs, nviews, nimgs)
	}
	t := *doc
	t.Accessors, t.BufferViews, t.Images = before.Accessors, before.BufferViews, before.Images
	for i, a := range before.Accessors {
		if !reflect.DeepEqual(a, doc.Accessors[i]) {
			return fmt.Sprintf("accessor %d changed to %s", i, mustJSON(toGeneric(doc.Accessors[i])))
		}
	}
	for i, a := range before.BufferViews {
		if !reflect.DeepEqual(a, doc.BufferViews[i]) {
			return fmt.Sprintf("buffer view %d changed to %s", i, mustJSON(toGeneric(doc.BufferViews[i])))
		}
	}
	for i, a := range before.Images {
		if !reflect.DeepEqual(a, doc.Images[i]) {
			return fmt.Sprintf("image %d changed", i)
		}
	}
	t.Buffers = before.Buffers
	if len(doc.Buffers) != max(1, len(before.Buffers)) && (len(doc.Buffers) != 0 || naccs+nviews+nimgs > 0) {
		return fmt.Sprintf("%d buffers, there were %d", len(doc.Buffers), len(before.Buffers))
	}
	for i, b := range before.Buffers {
		x := *doc.Buffers[i]
		if i == len(before.Buffers)-1 {
			if len(x.Data) < len(b.Data) {
				return "the last buffer shrank"
			}
			x.Data = x.Data[:len(b.Data)]
			x.ByteLength = b.ByteLength
			if len(b.Data) == 0 {
				x.Data = b.Data
			}
		}
		if !reflect.DeepEqual(b, &x) {
			return fmt.Sprintf("buffer %d changed", i)
		}
	}
	if !reflect.DeepEqual(before, &t) {
		return "another part of the document changed"
	}
	return ""
}

// checkWritten verifies one entry against the document.
func checkWritten(doc *gltf.Document, w *written) string {
	for i, b := range doc.Buffers {
		if b.ByteLength != len(b.Data) {
			return fmt.Sprintf("buffer %d has byteLength %d and %d bytes", i, b.ByteLength, len(b.Data))
		}
	}
	if w.img >= 0 {
		img := doc.Images[w.img]
		if img.Name != w.name || img.MimeType != w.mime || img.URI != "" || img.BufferView == nil || *img.BufferView != w.view {
			return fmt.Sprintf("image is %q %q %q view %v, want %q %q view %d", img.Name, img.MimeType, img.URI, img.BufferView, w.name, w.mime, w.view)
		}
	}
	if w.view >= len(doc.BufferViews) {
		return fmt.Sprintf("no buffer view %d", w.view)
	}
	bv := doc.BufferViews[w.view]
	if bv.Target != w.target {
		return fmt.Sprintf("view target %v, want %v", bv.Target, w.target)
	}
	if bv.Buffer < 0 || bv.Buffer >= len(doc.Buffers) || bv.ByteOffset < 0 || bv.ByteLength < 0 || bv.ByteOffset+bv.ByteLength > len(doc.Buffers[bv.Buffer].Data) {
		return fmt.Sprintf("view [%d,+%d) of buffer %d is outside the buffer", bv.ByteOffset, bv.ByteLength, bv.Buffer)
	}
	var raw []byte
	var err error
	if p := call(func() { raw, err = modeler.ReadBufferView(doc, bv) }); p != "" || err != nil {
		return fmt.Sprintf("ReadBufferView: %v %s", err, p)
	}
	if len(raw) != bv.ByteLength {
		return fmt.Sprintf("ReadBufferView returned %d bytes of %d", len(raw), bv.ByteLength)
	}
	if w.raw != nil || w.img >= 0 {
		if !bytes.Equal(raw, w.raw) {
			return fmt.Sprintf("the view holds %x, want %x", trunc(raw), trunc(w.raw))
		}
		return ""
	}
	n := len(w.v.els)
	if w.acc < 0 {
		if len(raw) != n*w.v.k.size {
			return fmt.Sprintf("the view has %d bytes, want %d", len(raw), n*w.v.k.size)
		}
		return diffEls(w.v.k.get(raw, w.v.k.size, n), w.v.els)
	}
	if w.acc >= len(doc.Accessors) {
		return fmt.Sprintf("no accessor %d", w.acc)
	}
	a := doc.Accessors[w.acc]
	if a.BufferView == nil || *a.BufferView != w.view || a.ComponentType != w.v.k.c || a.Type != w.v.k.t || a.Count != n || a.Normalized != w.v.norm || a.Sparse != nil {
		return fmt.Sprintf("accessor is %s, want view %d %v count %d normalized %v", mustJSON(toGeneric(a)), w.view, w.v.k, n, w.v.norm)
	}
	if !w.anyBound && (!sameNums(a.Min, w.lo) || !sameNums(a.Max, w.hi)) {
		return fmt.Sprintf("bounds are %v %v, want %v %v", a.Min, a.Max, w.lo, w.hi)
	}
	var data any
	if p := call(func() { data, err = modeler.ReadAccessor(doc, a, nil) }); p != "" || err != nil {
		return fmt.Sprintf("ReadAccessor: %v %s", err, p)
	}
	if d := w.v.k.diff(data, w.v.els); d != "" {
		return d
	}
	if w.target == gltf.TargetArrayBuffer && n > 0 {
		// what any other reader of the specification sees
		st := bv.ByteStride
		if st == 0 {
			st = w.v.k.n * w.v.k.cs
			if w.v.k.n != w.v.k.rows {
				st = w.v.k.size
			}
		}
		if a.ByteOffset < 0 || a.ByteOffset+w.v.k.span(n, st) > len(raw) {
			return fmt.Sprintf("the accessor (offset %d, stride %d) is outside its view of %d bytes", a.ByteOffset, bv.ByteStride, len(raw))
		}
		if d := diffEls(w.v.k.get(raw[a.ByteOffset:], st, n), w.v.els); d != "" {
			return fmt.Sprintf("with byteStride %d: %s", bv.ByteStride, d)
		}
	}
	return checkTyped(doc, a, w)
}

func sameNums(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkTyped reads with the typed reader that corresponds to the call, when it returns the data unconverted.
func checkTyped(doc *gltf.Document, a *gltf.Accessor, w *written) string {
	var data any
	var err error
	p := call(func() {
		switch w.op {
		case "WriteIndices":
			var x []uint32
			x, err = modeler.ReadIndices(doc, a, nil)
			if w.v.k == uint1 {
				data = x
			}
		case "WriteNormal":
			data, err = modeler.ReadNormal(doc, a, nil)
		case "WriteTangent":
			data, err = modeler.ReadTangent(doc, a, nil)
		case "WritePosition":
			data, err = modeler.ReadPosition(doc, a, nil)
		case "WriteInverseBindMatrices":
			data, err = modeler.ReadInverseBindMatrices(doc, a, nil)
		case "WriteTextureCoord":
			var x [][2]float32
			x, err = modeler.ReadTextureCoord(doc, a, nil)
			if w.v.k == float2 {
				data = x
			}
		case "WriteWeights":
			var x [][4]float32
			x, err = modeler.ReadWeights(doc, a, nil)
			if w.v.k == float4 {
				data = x
			}
		case "WriteJoints":
			var x [][4]uint16
			x, err = modeler.ReadJoints(doc, a, nil)
			if w.v.k == ushrt4 {
				data = x
			}
		case "WriteColor":
			if w.v.k == ubyte4 {
				data, err = modeler.ReadColor(doc, a, nil)
			} else {
				var x [][4]uint16
				x, err = modeler.ReadColor64(doc, a, nil)
				if w.v.k == ushrt4 {
					data = x
				}
			}
		}
	})
	if p != "" || err != nil {
		return fmt.Sprintf("typed reader: %v %s", err, p)
	}
	if data != nil {
		if d := w.v.k.diff(data, w.v.els); d != "" {
			return "typed reader: " + d
		}
	}
	return ""
}

// startDoc draws the document that a history starts from.
func startDoc(rt *rapid.T) *gltf.Document {
	switch intn(rt, 0, 5, "start") {
	case 0:
		return gltf.NewDocument()
	case 5: // loaded, the stored data may be longer than the buffer
		n := intn(rt, 1, 9, "start.len")
		data := payload(rt, n+pick(rt, "start.extra", 0, 1, 2, 3, 4, 7), "start.data")
		m := newMemFS()
		uri := "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(data)
		if rapid.Bool().Draw(rt, "start.external") {
			uri = "start.bin"
			m.files[uri] = data
		}
		d := new(gltf.Document)
		js := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d,"uri":%q}]}`, n, uri)
		if err := gltf.NewDecoderFS(strings.NewReader(js), m).Decode(d); err != nil {
			rt.Fatalf("loading %s: %v", js, err)
		}
		return d
	case 1:
		return new(gltf.Document)
	case 2: // only bytes
		d := gltf.NewDocument()
		n := intn(rt, 1, 9, "start.len")
		data := payload(rt, n+8, "start.data")
		d.Buffers = []*gltf.Buffer{{ByteLength: n, Data: data[:n]}}
		return d
	default:
		g := newDocGen(rt)
		g.extPct, g.extraPct = 4, 4
		return g.doc(bufNoURI, bufEmbedded, bufExternal)
	}
}

type failReader struct{ b []byte }

func (r *failReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, errors.New("read failed")
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func TestC16Histories(t *testing.T) {
	Prop(t, Opt{Quick: 3000, Rule: "at least three calls that wrote data, on one document"}, func(rt *rapid.T, c *Case) {
		doc := startDoc(rt)
		pre := docSize(doc)
		c.LabelIf(pre > 1, "pre-populated document")
		m := newMemFS()
		var all []*written
		var log string
		var wrote, saves int
		small := func(label string) int {
			if chance(rt, 4, label+".more") {
				return drawCount(rt, label)
			}
			return pick(rt, label, 0, 1, 1, 2, 2, 3, 4, 5, 7, 33)
		}
		simple := func(op string, target gltf.Target, v vdata, f func() int) {
			before := cloneDoc(doc)
			var idx int
			if p := call(func() { idx = f() }); p != "" {
				rt.Fatalf("%s of %d %v: %s\nhistory:%s", op, len(v.els), v.k, p, log)
			}
			log += fmt.Sprintf(" %s(%d %v)=%d;", op, len(v.els), v.k, idx)
			if d := v.k.diff(v.data, v.els); d != "" {
				rt.Fatalf("%s changed the data it was given: %s\nhistory:%s", op, d, log)
			}
			if d := frame(before, doc, 1, 1, 0); d != "" {
				rt.Fatalf("%s: %s\nhistory:%s", op, d, log)
			}
			if idx != len(doc.Accessors)-1 {
				rt.Fatalf("%s returned index %d, the new accessor is %d", op, idx, len(doc.Accessors)-1)
			}
			v.ruin()
			w := &written{op: op, acc: idx, view: len(doc.BufferViews) - 1, img: -1, v: v, target: target}
			if op == "WritePosition" {
				w.lo, w.hi = bounds(v.els)
				w.anyBound = len(v.els) == 0
			}
			a := doc.Accessors[idx]
			if bv := doc.BufferViews[w.view]; (bv.ByteOffset+a.ByteOffset)%4 != 0 || a.BufferView == nil || *a.BufferView != w.view || bv.Buffer != len(doc.Buffers)-1 {
				rt.Fatalf("%s: accessor at offset %d of view at %d\nhistory:%s", op, a.ByteOffset, bv.ByteOffset, log)
			}
			if len(v.els) > 0 {
				wrote++
			}
			all = append(all, w)
		}
		// again sometimes gives a call the very data that a previous one was given.
		again := func(op string, v vdata, rgba bool) vdata {
			if !chance(rt, 15, "again") {
				return v
			}
			for i := len(all) - 1; i >= 0; i-- {
				if w := all[i]; w.op == op && w.acc >= 0 && len(w.v.els) > 0 {
					els := make([][]uint32, len(w.v.els))
					for j, el := range w.v.els {
						els[j] = append([]uint32{}, el...)
					}
					c.Label("same data as in a previous call")
					return vdata{k: w.v.k, els: els, data: w.v.k.slice(els, rgba && reflect.TypeOf(w.v.data).Elem() == rgbaType(w.v.k)), norm: w.v.norm}
				}
			}
			return v
		}
		steps := intn(rt, 1, 9, "steps")
		for s := 0; s < steps; s++ {
			switch op := intn(rt, 0, 15, "op"); op {
			case 0:
				v := again("WriteIndices", drawData(rt, "indices", small("n"), false, ushrt1, uint1), false)
				simple("WriteIndices", gltf.TargetElementArrayBuffer, v, func() int { return modeler.WriteIndices(doc, v.data) })
			case 1:
				v := again("WriteNormal", drawData(rt, "normal", small("n"), false, float3), false)
				simple("WriteNormal", gltf.TargetArrayBuffer, v, func() int { return modeler.WriteNormal(doc, v.data.([][3]float32)) })
			case 2:
				v := again("WriteTangent", drawData(rt, "tangent", small("n"), false, float4), false)
				simple("WriteTangent", gltf.TargetArrayBuffer, v, func() int { return modeler.WriteTangent(doc, v.data.([][4]float32)) })
			case 3:
				v := again("WriteTextureCoord", drawAttr(rt, "texcoord", "TEXCOORD_0", small("n")), false)
				simple("WriteTextureCoord", gltf.TargetArrayBuffer, v, func() int { return modeler.WriteTextureCoord(doc, v.data) })
			case 4:
				v := again("WriteWeights", drawAttr(rt, "weights", "WEIGHTS_0", small("n")), false)
				simple("WriteWeights", gltf.TargetArrayBuffer, v, func() int { return modeler.WriteWeights(doc, v.data) })
			case 5:
				v := again("WriteJoints", drawAttr(rt, "joints", "JOINTS_0", small("n")), false)
				simple("WriteJoints", gltf.TargetArrayBuffer, v, func() int { return modeler.WriteJoints(doc, v.data) })
			case 6:
				v := again("WritePosition", drawPositions(rt, "position", small("n")), false)
				simple("WritePosition", gltf.TargetArrayBuffer, v, func() int { return modeler.WritePosition(doc, v.data.([][3]float32)) })
			case 7:
				v := again("WriteColor", drawAttr(rt, "color", "COLOR_0", small("n")), true)
				simple("WriteColor", gltf.TargetArrayBuffer, v, func() int { return modeler.WriteColor(doc, v.data) })
			case 8:
				v := again("WriteInverseBindMatrices", drawData(rt, "ibm", small("n"), false, floatM), false)
				simple("WriteInverseBindMatrices", gltf.TargetArrayBuffer, v, func() int { return modeler.WriteInverseBindMatrices(doc, v.data.([][4][4]float32)) })
			case 9:
				v := again("WriteAccessor", drawData(rt, "accessor", small("n"), true, allElems...), true)
				target := pick(rt, "target", gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer)
				simple("WriteAccessor", target, v, func() int { return modeler.WriteAccessor(doc, target, v.data) })
			case 10:
				v := drawData(rt, "view", small("n"), true, allElems...)
				target := pick(rt, "target", gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer)
				before := cloneDoc(doc)
				var idx int
				if p := call(func() { idx = modeler.WriteBufferView(doc, target, v.data) }); p != "" {
					rt.Fatalf("WriteBufferView of %d %v: %s\nhistory:%s", len(v.els), v.k, p, log)
				}
				log += fmt.Sprintf(" WriteBufferView(%d %v)=%d;", len(v.els), v.k, idx)
				v.ruin()
				if d := frame(before, doc, 0, 1, 0); d != "" || idx != len(doc.BufferViews)-1 {
					rt.Fatalf("WriteBufferView returned %d: %s\nhistory:%s", idx, d, log)
				}
				wrote++
				all = append(all, &written{op: "WriteBufferView", acc: -1, view: idx, img: -1, v: v, target: target})
			case 11, 12:
				n := pick(rt, "image.len", 0, 1, 2, 3, 5, 8, 13, 100, 512, 600, intn(rt, 500, 9000, "image.long"))
				if n > 500 && chance(rt, 3, "image.large") {
					n = pick(rt, "image.len.large", 1<<15+1, 1<<16, 1<<16+3, 1<<18+1, 1<<20, 1<<20+1, 1<<21+7)
					c.Label("image of more than 32 KiB")
				}
				b := payload(rt, n, "image")
				name, mime := text(rt, "image.name"), pick(rt, "image.mime", "image/png", "image/jpeg", "")
				if chance(rt, 25, "image.again") { // the same image once more
					for _, w := range all {
						if w.img >= 0 {
							b, name = bytes.Clone(w.raw), w.name
							if chance(rt, 70, "image.again.mime") {
								mime = w.mime
							}
							c.Label("same image as in a previous call")
							break
						}
					}
				}
				want := bytes.Clone(b)
				var r io.Reader
				var fails bool
				skip := func(x io.Reader) { io.ReadFull(x, make([]byte, 3)) }
				switch intn(rt, 0, 11, "image.reader") {
				case 6: // partly consumed readers of all kinds
					x := bytes.NewReader(append([]byte("xyz"), b...))
					skip(x)
					r = x
				case 7:
					x := strings.NewReader("xyz" + string(b))
					skip(x)
					r = x
				case 8:
					x := bufio.NewReaderSize(bytes.NewReader(append([]byte("xyz"), b...)), 16)
					skip(x)
					r = x
				case 9:
					r = io.LimitReader(bytes.NewReader(append(bytes.Clone(b), "rest"...)), int64(len(b)))
				case 10:
					r = io.NewSectionReader(strings.NewReader("xyz"+string(b)+"rest"), 3, int64(len(b)))
				case 11:
					r = io.MultiReader(bytes.NewBuffer(b[:len(b)/2]), bytes.NewReader(b[len(b)/2:]))
				case 0:
					r = bytes.NewBuffer(b)
				case 1:
					x := bytes.NewBuffer(append([]byte("xyz"), b...))
					x.Next(3)
					r = x
				case 2:
					r = bytes.NewReader(b)
				case 3:
					r = iotest.OneByteReader(bytes.NewReader(b))
				case 4:
					r = iotest.DataErrReader(bytes.NewReader(b))
				default:
					fails = true
					r = &failReader{b}
				}
				before := cloneDoc(doc)
				var idx int
				var err error
				if p := call(func() { idx, err = modeler.WriteImage(doc, name, mime, r) }); p != "" {
					rt.Fatalf("WriteImage: %s\nhistory:%s", p, log)
				}
				log += fmt.Sprintf(" WriteImage(%d bytes, %T)=%d,%v;", len(b), r, idx, err)
				if fails {
					if err == nil {
						rt.Fatalf("WriteImage ignored the read error\nhistory:%s", log)
					}
					if d := frame(before, doc, 0, 0, 0); d != "" {
						rt.Fatalf("failed WriteImage: %s\nhistory:%s", d, log)
					}
					continue
				}
				for i := range b {
					b[i] = 0xEE
				}
				if d := frame(before, doc, 0, 1, 1); err != nil || d != "" || idx != len(doc.Images)-1 {
					rt.Fatalf("WriteImage returned %d, %v: %s\nhistory:%s", idx, err, d, log)
				}
				wrote++
				all = append(all, &written{op: "WriteImage", acc: -1, view: len(doc.BufferViews) - 1, img: idx, raw: want, name: name, mime: mime})
			case 13:
				if chance(rt, 30, "newbuffer") { // the user starts another buffer
					doc.Buffers = append(doc.Buffers, &gltf.Buffer{Name: "extra"})
					log += " new buffer;"
					continue
				}
				n := small("n")
				var vs []vdata
				var data []any
				for i, k := 0, intn(rt, 1, 3, "attrs"); i < k; i++ {
					v := drawData(rt, "interleaved", n, true, allElems...)
					vs, data = append(vs, v), append(data, v.data)
				}
				before := cloneDoc(doc)
				var idx []int
				var err error
				if p := call(func() { idx, err = modeler.WriteAccessorsInterleaved(doc, data...) }); p != "" || err != nil || len(idx) != len(vs) {
					rt.Fatalf("WriteAccessorsInterleaved: %v %v %s\nhistory:%s", idx, err, p, log)
				}
				log += fmt.Sprintf(" WriteAccessorsInterleaved(%d x %d)=%v;", n, len(vs), idx)
				if d := frame(before, doc, len(vs), 1, 0); d != "" {
					rt.Fatalf("WriteAccessorsInterleaved: %s\nhistory:%s", d, log)
				}
				for i, v := range vs {
					v.ruin()
					all = append(all, &written{op: "WriteAccessorsInterleaved", acc: idx[i], view: len(doc.BufferViews) - 1, img: -1, v: v, target: gltf.TargetArrayBuffer})
				}
				wrote++
			default:
				empty := false
				for _, b := range doc.Buffers {
					empty = empty || len(b.Data) == 0
				}
				if empty {
					continue // not a valid document yet
				}
				bin := rapid.Bool().Draw(rt, "glb")
				b, err := encode(doc, bin, m)
				if err != nil {
					rt.Fatalf("saving: %v\nhistory:%s", err, log)
				}
				d2, err := decode(b, m)
				if err != nil {
					rt.Fatalf("loading: %v\nhistory:%s", err, log)
				}
				doc = d2
				saves++
				log += fmt.Sprintf(" save/load(glb=%v);", bin)
			}
			for _, w := range all {
				if d := checkWritten(doc, w); d != "" {
					rt.Fatalf("%s (%d %v, accessor %d view %d): %s\nhistory:%s", w.op, len(w.v.els), w.v.k, w.acc, w.view, d, log)
				}
			}
		}
		c.Key(log, pre)
		c.NonTrivial(wrote >= 3)
		c.LabelIf(saves > 0, "saved and loaded")
		c.LabelIf(saves > 1, "saved and loaded several times")
		c.LabelIf(len(doc.Buffers) > 1, "several buffers")
		c.Sample("%d collections at the start:%s", pre, log)
	})
}

// ---------------------------------------------------------------- C17

func prefixDoc(rt *rapid.T) *gltf.Document {
	doc := startDoc(rt)
	if chance(rt, 40, "image first") {
		modeler.WriteImage(doc, "", "image/png", bytes.NewReader(payload(rt, intn(rt, 1, 7, "image.len"), "image")))
	}
	return doc
}

func TestC17Interleaved(t *testing.T) {
	Prop(t, Opt{Quick: 4000, Rule: "at least two slices of at least two elements, or a rejected call"}, func(rt *rapid.T, c *Case) {
		doc := prefixDoc(rt)
		n := drawCount(rt, "n")
		k := intn(rt, 1, 6, "attrs")
		bad := -1
		if k > 1 && chance(rt, 25, "bad") {
			bad = intn(rt, 1, k-1, "bad.at")
			if chance(rt, 30, "bad.first") {
				bad = 0
			}
		}
		var vs []vdata
		var data []any
		stride := 0
		desc := ""
		for i := 0; i < k; i++ {
			l := n
			if i == bad {
				l = n + pick(rt, "delta", 1, -1, 3, -n)
				if l < 0 || l == n {
					l = n + 2
				}
			}
			v := drawData(rt, "data", l, true, allElems...)
			vs, data = append(vs, v), append(data, v.data)
			stride += v.k.size
			desc += fmt.Sprintf(" %d %T", l, v.data)
		}
		onlyView := chance(rt, 25, "view")
		before := cloneDoc(doc)
		var idx []int
		var view int
		var err error
		p := call(func() {
			if onlyView {
				view, err = modeler.WriteBufferViewInterleaved(doc, data...)
			} else {
				idx, err = modeler.WriteAccessorsInterleaved(doc, data...)
			}
		})
		for i, v := range vs {
			if d := v.k.diff(v.data, v.els); d != "" {
				rt.Fatalf("the caller's slice %d changed: %s:%s", i, d, desc)
			}
			if reflect.TypeOf(data[i]) != reflect.TypeOf(v.data) || reflect.ValueOf(data[i]).Pointer() != reflect.ValueOf(v.data).Pointer() {
				rt.Fatalf("the caller's list of slices changed:%s", desc)
			}
		}
		c.Key(desc, n, onlyView, len(before.Buffers))
		c.NonTrivial(k >= 2 && n >= 2 || bad >= 0)
		c.LabelIf(bad >= 0, "different lengths")
		c.LabelIf(n == 0, "empty")
		c.LabelIf(stride%4 != 0, "stride not a multiple of 4")
		c.Sample("view only=%v:%s", onlyView, desc)
		if p != "" {
			rt.Fatalf("%s\n%s", p, desc)
		}
		if bad >= 0 {
			if err == nil {
				rt.Fatalf("slices of different lengths accepted:%s", desc)
			}
			if !reflect.DeepEqual(before, doc) {
				rt.Fatalf("rejected call changed the document:%s", desc)
			}
			return
		}
		if err != nil {
			rt.Fatalf("error %v for%s", err, desc)
		}
		naccs := k
		if onlyView {
			naccs = 0
		}
		if d := frame(before, doc, naccs, 1, 0); d != "" {
			rt.Fatalf("%s:%s", d, desc)
		}
		if !onlyView {
			view = len(doc.BufferViews) - 1
			if len(idx) != k {
				rt.Fatalf("%d indices for %d slices", len(idx), k)
			}
		}
		if view != len(doc.BufferViews)-1 {
			rt.Fatalf("returned view %d, the new one is %d", view, len(doc.BufferViews)-1)
		}
		bv := doc.BufferViews[view]
		if bv.ByteLength != n*stride || bv.Target != gltf.TargetArrayBuffer || (bv.ByteStride != stride && !(k == 1 && bv.ByteStride == 0)) {
			rt.Fatalf("view of %d bytes with stride %d target %v, want %d bytes with stride %d:%s", bv.ByteLength, bv.ByteStride, bv.Target, n*stride, stride, desc)
		}
		offset := 0
		for i, v := range vs {
			v.ruin()
			w := &written{op: "interleaved", acc: -1, view: view, img: -1, v: v, target: gltf.TargetArrayBuffer}
			if onlyView {
				raw, err := modeler.ReadBufferView(doc, bv)
				if err != nil {
					rt.Fatalf("ReadBufferView: %v", err)
				}
				if n > 0 {
					if d := diffEls(v.k.get(raw[offset:], stride, n), v.els); d != "" {
						rt.Fatalf("slice %d: %s:%s", i, d, desc)
					}
				}
				offset += v.k.size
				continue
			}
			w.acc = idx[i]
			if idx[i] != len(before.Accessors)+i {
				rt.Fatalf("indices %v don't follow the %d accessors that were there", idx, len(before.Accessors))
			}
			if d := checkWritten(doc, w); d != "" {
				rt.Fatalf("slice %d: %s:%s", i, d, desc)
			}
		}
	})
}

var primNames = []string{"POSITION", "NORMAL", "TANGENT", "TEXCOORD_0", "TEXCOORD_1", "WEIGHTS_0", "JOINTS_0", "COLOR_0", "_CUSTOM", "TEXCOORD_2", "COLOR_1", "_B",
	"_PREVIOUS_POSITION", "POSITION_1", "_POSITION", "position", "POSITION ", "WEIGHTS_1", "JOINTS_1", "_TEXCOORD_0", "color_0"}

// drawPrim draws attributes of n elements; some are empty.
func drawPrim(rt *rapid.T, n int) (attrs []modeler.PrimitiveAttribute, vs map[string]vdata) {
	vs = map[string]vdata{}
	perm := rapid.Permutation(primNames).Draw(rt, "names")
	for _, name := range perm[:pick(rt, "attrs", 0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 9, 14)] {
		if chance(rt, 15, name+".empty") {
			v := drawAttr(rt, name, name, 0)
			attrs = append(attrs, modeler.PrimitiveAttribute{Name: name, Data: pick(rt, name+".nil", v.data, nil, reflect.Zero(reflect.TypeOf(v.data)).Interface())})
			continue
		}
		v := drawAttr(rt, name, name, n)
		if n > 0 {
			vs[name] = v
		}
		attrs = append(attrs, modeler.PrimitiveAttribute{Name: name, Data: v.data})
	}
	return
}

func TestC17Attributes(t *testing.T) {
	Prop(t, Opt{Quick: 4000, Rule: "at least two non-empty attributes, or a rejected call"}, func(rt *rapid.T, c *Case) {
		doc := prefixDoc(rt)
		n := pick(rt, "n", 0, 1, 2, 3, 4, 5, 17, 64)
		if chance(rt, 5, "more") {
			n = drawCount(rt, "n")
		}
		attrs, vs := drawPrim(rt, n)
		desc := ""
		bad := ""
		if len(attrs) > 0 && n > 0 && chance(rt, 30, "bad") {
			i := intn(rt, 0, len(attrs)-1, "bad.at")
			name := attrs[i].Name
			if a, ok := attrKinds[name]; ok && rapid.Bool().Draw(rt, "bad.type") {
				k := drawElem(rt)
				allowed := false
				for _, x := range a.kinds {
					allowed = allowed || x == k
				}
				if !allowed {
					attrs[i].Data = drawData(rt, "bad", n, false, k).data
					bad = "type"
				}
			} else if _, nonEmpty := vs[name]; nonEmpty && len(vs) > 1 {
				attrs[i].Data = drawAttr(rt, "bad", name, n+intn(rt, 1, 2, "bad.more")).data
				bad = "length"
			}
		}
		for _, a := range attrs {
			l := 0
			if a.Data != nil {
				l = reflect.ValueOf(a.Data).Len()
			}
			desc += fmt.Sprintf(" %s=%d %T", a.Name, l, a.Data)
		}
		before := cloneDoc(doc)
		given := append([]modeler.PrimitiveAttribute{}, attrs...)
		args := attrs
		var got gltf.PrimitiveAttributes
		var err error
		p := call(func() { got, err = modeler.WritePrimitiveAttributes(doc, args...) })
		for i := range given {
			if args[i].Name != given[i].Name || reflect.TypeOf(args[i].Data) != reflect.TypeOf(given[i].Data) {
				rt.Fatalf("the caller's attribute %d (%s) became %s:%s", i, given[i].Name, args[i].Name, desc)
			}
		}
		for i, a := range given {
			if v, ok := vs[a.Name]; ok && bad == "" {
				if d := v.k.diff(args[i].Data, v.els); d != "" {
					rt.Fatalf("the caller's %s data changed: %s:%s", a.Name, d, desc)
				}
			}
		}
		attrs = given
		c.Key(desc, len(before.Buffers))
		c.NonTrivial(len(vs) >= 2 || bad != "")
		c.LabelIf(bad != "", "rejected "+bad)
		c.LabelIf(len(vs) < len(attrs), "with empty attributes")
		c.Sample("%s", desc)
		if p != "" {
			rt.Fatalf("%s:%s", p, desc)
		}
		if bad != "" {
			if err == nil {
				rt.Fatalf("wrong %s accepted:%s", bad, desc)
			}
			if !reflect.DeepEqual(before, doc) {
				rt.Fatalf("rejected call changed the document:%s", desc)
			}
			return
		}
		if err != nil {
			rt.Fatalf("error %v for%s", err, desc)
		}
		nviews := 1
		if len(vs) == 0 {
			nviews = 0
		}
		if d := frame(before, doc, len(vs), nviews, 0); d != "" {
			rt.Fatalf("%s:%s", d, desc)
		}
		if len(got) != len(vs) {
			rt.Fatalf("returned %v for%s", got, desc)
		}
		if got == nil {
			rt.Fatalf("returned a nil map for%s", desc)
		}
		stride := 0
		prev := len(before.Accessors) - 1
		for _, a := range attrs {
			v, ok := vs[a.Name]
			if !ok {
				if _, ok := got[a.Name]; ok {
					rt.Fatalf("returned %v for%s", got, desc)
				}
				continue
			}
			v.ruin()
			acc, ok := got[a.Name]
			if !ok || acc != prev+1 {
				rt.Fatalf("returned %v for%s", got, desc)
			}
			prev = acc
			stride += v.k.size
			w := &written{op: "attribute", acc: acc, view: len(doc.BufferViews) - 1, img: -1, v: v, target: gltf.TargetArrayBuffer}
			if a.Name == "POSITION" {
				w.lo, w.hi = bounds(v.els)
			}
			if d := checkWritten(doc, w); d != "" {
				rt.Fatalf("%s: %s:%s", a.Name, d, desc)
			}
		}
		if len(vs) > 0 {
			if bv := doc.BufferViews[len(doc.BufferViews)-1]; bv.ByteLength != n*stride || bv.ByteStride != stride && !(len(vs) == 1 && bv.ByteStride == 0) {
				rt.Fatalf("view of %d bytes with stride %d, want %d bytes with stride %d:%s", bv.ByteLength, bv.ByteStride, n*stride, stride, desc)
			}
		}
	})
}

// ---------------------------------------------------------------- C23

func TestC23Bounds(t *testing.T) {
	Prop(t, Opt{Quick: 3000, Rule: "at least one call writing two or more positions"}, func(rt *rapid.T, c *Case) {
		doc := prefixDoc(rt)
		first := len(doc.Accessors)
		type want struct{ lo, hi []float64 }
		wants := map[int]want{} // accessor to bounds
		log := ""
		for i, k := 0, intn(rt, 1, 4, "calls"); i < k; i++ {
			n := max(1, drawCount(rt, "n"))
			v := drawPositions(rt, "pos", n)
			lo, hi := bounds(v.els)
			positions := true
			switch intn(rt, 0, 4, "call") {
			case 0, 1:
				wants[modeler.WritePosition(doc, v.data.([][3]float32))] = want{lo, hi}
				log += fmt.Sprintf(" WritePosition(%d) %v..%v;", n, lo, hi)
			case 2, 3:
				attrs, vs := drawPrim(rt, n)
				if pos, ok := vs["POSITION"]; ok {
					lo, hi = bounds(pos.els)
				} else {
					for j := range attrs {
						if attrs[j].Name == "POSITION" { // an empty one
							attrs = append(attrs[:j:j], attrs[j+1:]...)
							break
						}
					}
					at := intn(rt, 0, len(attrs), "at")
					attrs = append(attrs[:at:at], append([]modeler.PrimitiveAttribute{{Name: "POSITION", Data: v.data}}, attrs[at:]...)...)
				}
				got, err := modeler.WritePrimitiveAttributes(doc, attrs...)
				if err != nil {
					rt.Fatalf("WritePrimitiveAttributes: %v", err)
				}
				wants[got["POSITION"]] = want{lo, hi}
				log += fmt.Sprintf(" WritePrimitiveAttributes(%d of %d) %v..%v;", len(attrs), n, lo, hi)
			default:
				positions = false
				if rapid.Bool().Draw(rt, "normal") {
					modeler.WriteNormal(doc, v.data.([][3]float32))
				} else if _, err := modeler.WriteAccessorsInterleaved(doc, v.data, drawData(rt, "other", n, true, allElems...).data); err != nil {
					rt.Fatalf("%v", err)
				}
				log += " other;"
			}
			v.ruin()
			c.NonTrivial(positions && n >= 2)
			if chance(rt, 20, "reload") && len(doc.Buffers) > 0 {
				m := newMemFS()
				b, err := encode(doc, rapid.Bool().Draw(rt, "glb"), m)
				if err != nil {
					rt.Fatalf("saving: %v\n%s", err, log)
				}
				if doc, err = decode(b, m); err != nil {
					rt.Fatalf("loading: %v\n%s", err, log)
				}
				log += " save/load;"
			}
			for j := first; j < len(doc.Accessors); j++ {
				a, w := doc.Accessors[j], wants[j]
				if !sameNums(a.Min, w.lo) || !sameNums(a.Max, w.hi) {
					rt.Fatalf("accessor %d has bounds %v %v, want %v %v\n%s", j, a.Min, a.Max, w.lo, w.hi, log)
				}
			}
		}
		c.Key(log)
		c.Sample("%s", log)
	})
}
