package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"testing"
	"unsafe"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	"pgregory.net/rapid"
)

// call runs f and turns a panic into text.
func call(f func()) (panicked string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

func drawStride(t *rapid.T, k elem) int {
	switch intn(t, 0, 5, "stride.k") {
	case 0, 1:
		return 0
	case 2:
		return k.size
	case 3:
		return up4(k.size) + 4*intn(t, 0, 4, "stride")
	case 4:
		return pick(t, "stride", 252, 255, 256, 300)
	default:
		return k.size + intn(t, 1, 9, "stride")
	}
}

// guarded is a slice of n bytes whose surroundings (including its capacity) can be checked.
func guarded(t *rapid.T, n int, label string) (b []byte, all []byte) {
	all = payload(t, n+64, label)
	return all[32 : 32+n], all
}

func TestC14Write(t *testing.T) {
	Prop(t, Opt{Quick: 6000, Rule: "at least two elements, with a stride, surplus buffer or padding inside the element"}, func(rt *rapid.T, c *Case) {
		k := drawElem(rt)
		rgba := rgbaType(k) != nil && rapid.Bool().Draw(rt, "rgba")
		n := drawCount(rt, "count")
		stride := drawStride(rt, k)
		e := stride
		if e == 0 {
			e = k.size
		}
		need := k.span(n, e)
		size := need
		switch intn(rt, 0, 3, "size.k") {
		case 1:
			size += intn(rt, 0, 40, "surplus")
		case 2:
			size += k.size - k.end
		case 3:
			if need > 0 {
				size = pick(rt, "short", need-1, need-1, need/2, 0, max(0, need-k.size), max(0, need-e))
			}
		}
		els := drawEls(rt, k, n, "data")
		data := k.slice(els, rgba)
		b, all := guarded(rt, size, "buffer")
		want := bytes.Clone(all)
		short := size < need
		if !short {
			k.put(want[32:], e, els)
		}
		c.Key(k.String(), n, stride, size, rgba, showEls(els))
		c.NonTrivial(n >= 2 && (stride != 0 || size > need || k.size != k.n*k.cs))
		c.Label(k.String())
		c.LabelIf(short, "buffer too short")
		c.LabelIf(stride > k.size, "strided")
		c.LabelIf(rgba, "image/color")
		c.Sample("binary.Write of %d %v elements, stride %d, into %d bytes (needs %d):%s", n, k, stride, size, need, showEls(els))
		var err error
		if p := call(func() { err = binary.Write(b, stride, data) }); p != "" {
			rt.Fatalf("Write of %d %v elements with stride %d into %d bytes: %s", n, k, stride, size, p)
		}
		if short != errors.Is(err, io.ErrShortBuffer) || !short && err != nil {
			rt.Fatalf("Write of %d %v elements with stride %d into %d bytes (needs %d) returned %v", n, k, stride, size, need, err)
		}
		if d := k.diff(data, els); d != "" {
			rt.Fatalf("Write changed its input: %s", d)
		}
		if i := firstDiff(all, want); i >= 0 {
			i -= 32
			rt.Fatalf("Write of %d %v elements with stride %d into %d bytes (err %v): byte %d is %#x, want %#x", n, k, stride, size, err, i, all[32+i], want[32+i])
		}
	})
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

func TestC14Read(t *testing.T) {
	Prop(t, Opt{Quick: 6000, Rule: "at least two elements, with a stride, surplus buffer or padding inside the element"}, func(rt *rapid.T, c *Case) {
		k := drawElem(rt)
		rgba := rgbaType(k) != nil && rapid.Bool().Draw(rt, "rgba")
		n := drawCount(rt, "count")
		stride := drawStride(rt, k)
		e := stride
		if e == 0 {
			e = k.size
		}
		need := k.span(n, e)
		size := need
		switch intn(rt, 0, 3, "size.k") {
		case 1:
			size += intn(rt, 0, 40, "surplus")
		case 2:
			size += k.size - k.end
		case 3:
			if need > 0 {
				size = pick(rt, "short", need-1, need-1, need/2, 0, max(0, need-k.size), max(0, need-e))
			}
		}
		b, all := guarded(rt, size, "buffer")
		orig := bytes.Clone(all)
		data := k.junk(n, rgba)
		want, _ := k.elements(k.junk(n, rgba))
		short := size < need
		if !short {
			want = k.get(b, e, n)
		}
		c.Key(k.String(), n, stride, size, rgba, trunc(b))
		c.NonTrivial(n >= 2 && (stride != 0 || size > need || k.size != k.n*k.cs))
		c.Label(k.String())
		c.LabelIf(short, "buffer too short")
		c.LabelIf(stride > k.size, "strided")
		c.Sample("binary.Read of %d %v elements, stride %d, from %d bytes (needs %d)", n, k, stride, size, need)
		var err error
		if p := call(func() { err = binary.Read(b, stride, data) }); p != "" {
			rt.Fatalf("Read of %d %v elements with stride %d from %d bytes: %s", n, k, stride, size, p)
		}
		if short != errors.Is(err, io.ErrShortBuffer) || !short && err != nil {
			rt.Fatalf("Read of %d %v elements with stride %d from %d bytes (needs %d) returned %v", n, k, stride, size, need, err)
		}
		if d := k.diff(data, want); d != "" {
			rt.Fatalf("Read of %d %v elements with stride %d from %d bytes (err %v): %s", n, k, stride, size, err, d)
		}
		if !bytes.Equal(all, orig) {
			rt.Fatalf("Read changed its input")
		}
	})
}

// Any stride, even a nonsensical one, gives a result or an error.
func TestC14AnyStride(t *testing.T) {
	Prop(t, Opt{Quick: 4000, Rule: "at least one element and a stride smaller than the element or larger than the buffer"}, func(rt *rapid.T, c *Case) {
		k := drawElem(rt)
		n := drawCount(rt, "count")
		stride := pick(rt, "stride", -1, 1, 2, 3, 5, -4, -252, k.size-1, math.MaxInt, math.MinInt, math.MaxInt/2, math.MaxInt/2+1, math.MaxInt/4+1, 1<<31, 1<<32, 1<<33, 1<<61, 1<<62, 1<<62+k.size, math.MaxInt-k.size+1, -1<<62)
		if n > 1 && chance(rt, 20, "wrap") { // (n-1)*stride overflows to something small
			stride = math.MaxInt/(n-1) + 1 + intn(rt, 0, 3, "wrap+")
		}
		size := intn(rt, 0, 200, "size")
		b, all := guarded(rt, size, "buffer")
		orig := bytes.Clone(all)
		els := drawEls(rt, k, n, "data")
		c.Key(k.String(), n, stride, size)
		c.NonTrivial(n > 0)
		c.Sample("%d %v elements, stride %d, %d bytes", n, k, stride, size)
		write := rapid.Bool().Draw(rt, "write")
		c.LabelIf(stride < 0, "negative stride")
		data := k.junk(n, false)
		before, _ := k.elements(data)
		if write {
			data = k.slice(els, false)
		}
		var err error
		p := call(func() {
			if write {
				err = binary.Write(b, stride, data)
			} else {
				err = binary.Read(b, stride, data)
			}
		})
		what := fmt.Sprintf("write=%v of %d %v elements with stride %d and %d bytes (err %v)", write, n, k, stride, size, err)
		if p != "" {
			rt.Fatalf("%s: %s", what, p)
		}
		if err != nil && !errors.Is(err, io.ErrShortBuffer) {
			rt.Fatalf("%s: unexpected error", what)
		}
		if n == 0 && err != nil {
			rt.Fatalf("%s: error without elements", what)
		}
		if n > 1 && (stride < 0 || stride > size) && err == nil {
			rt.Fatalf("%s: elements outside the buffer", what)
		}
		if !bytes.Equal(all[:32], orig[:32]) || !bytes.Equal(all[32+size:], orig[32+size:]) {
			rt.Fatalf("%s: wrote outside the buffer", what)
		}
		if (err != nil || !write) && !bytes.Equal(all, orig) {
			rt.Fatalf("%s: changed the buffer", what)
		}
		if err != nil && !write {
			if d := k.diff(data, before); d != "" {
				rt.Fatalf("%s: partial effects: %s", what, d)
			}
		}
	})
}

var codecs = map[gltf.ComponentType]any{gltf.ComponentByte: binary.Byte, gltf.ComponentUbyte: binary.Ubyte, gltf.ComponentShort: binary.Short,
	gltf.ComponentUshort: binary.Ushort, gltf.ComponentUint: binary.Uint, gltf.ComponentFloat: binary.Float}
var codecName = map[gltf.AccessorType]string{gltf.AccessorScalar: "Scalar", gltf.AccessorVec2: "Vec2", gltf.AccessorVec3: "Vec3", gltf.AccessorVec4: "Vec4",
	gltf.AccessorMat2: "Mat2", gltf.AccessorMat3: "Mat3", gltf.AccessorMat4: "Mat4"}

// The codecs of one element agree with the layout, for all kinds in every case.
func TestC14Codecs(t *testing.T) {
	Prop(t, Opt{Quick: 800, Rule: "every case exercises the get and put methods of all 42 kinds with random bit patterns"}, func(rt *rapid.T, c *Case) {
		c.NonTrivial(true)
		seed := rapid.Uint64().Draw(rt, "seed")
		c.Key(seed)
		c.Sample("all kinds, value seed %#x", seed)
		r := newRand(seed)
		for _, ct := range compList {
			for _, at := range shapeList {
				k := elemOf(ct, at)
				els := [][]uint32{make([]uint32, k.n)}
				for j := range els[0] {
					v := uint32(r.u64())
					if r.n(3) == 0 {
						v = bitPatterns[r.n(len(bitPatterns))]
					}
					els[0][j] = v & uint32(uint64(1)<<(8*k.cs)-1)
				}
				v := reflect.ValueOf(codecs[ct])
				all := make([]byte, 64+k.size)
				for i := range all {
					all[i] = byte(r.u64())
				}
				want := bytes.Clone(all)
				k.put(want[32:], k.size, els)
				b := all[32 : 32+k.size]
				arg := reflect.ValueOf(k.slice(els, false)).Index(0)
				if p := call(func() { v.MethodByName("Put" + codecName[at]).Call([]reflect.Value{reflect.ValueOf(b), arg}) }); p != "" {
					rt.Fatalf("%v put: %s", k, p)
				}
				if i := firstDiff(all, want); i >= 0 {
					rt.Fatalf("%v put: byte %d is %#x, want %#x", k, i-32, all[i], want[i])
				}
				var out []reflect.Value
				if p := call(func() { out = v.MethodByName(codecName[at]).Call([]reflect.Value{reflect.ValueOf(b)}) }); p != "" {
					rt.Fatalf("%v get: %s", k, p)
				}
				s := reflect.MakeSlice(reflect.SliceOf(k.elemType()), 1, 1)
				s.Index(0).Set(out[0])
				if d := k.diff(s.Interface(), els); d != "" {
					rt.Fatalf("%v get: %s", k, d)
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C15

func TestC15Tables(t *testing.T) {
	Each(t, "every pair of component and accessor codes in 0..300 and 0..255 (42 valid ones), with counts 0, 1 and 5", func(record func(c *Case)) {
		valid := 0
		for ci := 0; ci <= 300; ci++ {
			for ti := 0; ti <= 255; ti++ {
				if ci > 20 && ti > 20 && ci < 250 && ti < 240 {
					continue
				}
				ct, at := gltf.ComponentType(ci), gltf.AccessorType(ti)
				ok := compSize[ct] != 0 && shapeName[at] != ""
				c := new(Case)
				c.Key(ci, ti)
				c.NonTrivial(ok)
				if ok {
					valid++
					k := elemOf(ct, at)
					c.Label("valid pair")
					c.Sample("%v: Go type %v, element of %d bytes", k, k.elemType(), k.size)
					if got := gltf.SizeOfElement(ct, at); got != k.size {
						t.Fatalf("SizeOfElement(%v) = %d, want %d", k, got, k.size)
					}
					if got := ct.ByteSize(); got != k.cs {
						t.Fatalf("%v: ByteSize %d, want %d", k, got, k.cs)
					}
					if got := at.Components(); got != k.n {
						t.Fatalf("%v: Components %d, want %d", k, got, k.n)
					}
				} else {
					c.Label("invalid pair")
				}
				for _, n := range []int{0, 1, 5} {
					for _, backing := range [][]byte{nil, {}, make([]byte, 64), make([]byte, 1024)} {
						s, err := binary.MakeSlice(ct, at, n)
						s2, err2 := binary.MakeSliceBuffer(ct, at, n, backing)
						if !ok {
							if err == nil || err2 == nil {
								t.Fatalf("component %d accessor %d: MakeSlice error %v, MakeSliceBuffer error %v, want errors", ci, ti, err, err2)
							}
							continue
						}
						k := elemOf(ct, at)
						if err != nil || err2 != nil {
							t.Fatalf("%v: MakeSlice error %v, MakeSliceBuffer error %v", k, err, err2)
						}
						if d := k.diff(s, zeros(k, n)); d != "" {
							t.Fatalf("MakeSlice(%v, %d): %s", k, n, d)
						}
						for _, x := range []any{s, s2} {
							els, err := k.elements(x)
							if err != nil || len(els) != n {
								t.Fatalf("%v: made %d elements, want %d (%v)", k, len(els), n, err)
							}
							if c2, t2, n2 := binary.Type(x); c2 != ct || t2 != at || n2 != n {
								t.Fatalf("%v: Type of %T is %v %v %d", k, x, c2, t2, n2)
							}
						}
					}
				}
				record(c)
			}
		}
		for _, k := range []elem{elemOf(gltf.ComponentUbyte, gltf.AccessorVec4), elemOf(gltf.ComponentUshort, gltf.AccessorVec4)} {
			if c, a, n := binary.Type(k.junk(3, true)); c != k.c || a != k.t || n != 3 {
				t.Fatalf("Type of the image/color slice: %v %v %d", c, a, n)
			}
		}
		if valid != 42 {
			t.Fatalf("HARNESS-ERROR harness: %d valid pairs", valid)
		}
	})
}

func TestC15Buffer(t *testing.T) {
	Prop(t, Opt{Quick: 6000, Rule: "a non-empty backing buffer and at least one element"}, func(rt *rapid.T, c *Case) {
		k := drawElem(rt)
		mem := k.cs * k.n
		n := drawCount(rt, "count")
		ln := intn(rt, 0, 40, "len")
		if chance(rt, 60, "fit") {
			ln = max(0, pick(rt, "len", n*mem, n*mem-1, n*mem+1, mem, mem-1, n*mem/2, n*mem+mem, 2*n*mem))
		}
		cp := ln + pick(rt, "cap", 0, 0, 1, mem, 16, n*mem)
		all := payload(rt, cp+96, "content")
		off := 32 + pick(rt, "misalign", 0, 0, 0, 1, 2, 3, 5)
		buf := all[off : off+ln : off+cp]
		orig := bytes.Clone(all)
		c.Key(k.String(), n, ln, cp)
		c.NonTrivial(n > 0 && cp > 0)
		big := cp >= n*mem
		c.LabelIf(big && n > 0, "large enough")
		c.LabelIf(!big && cp > 0, "too small")
		c.LabelIf(cp == 0, "no buffer")
		c.Sample("%d %v elements (%d bytes in memory) from a buffer of length %d capacity %d", n, k, n*mem, ln, cp)
		var s any
		var err error
		what := fmt.Sprintf("MakeSliceBuffer(%v, %d, len %d cap %d)", k, n, ln, cp)
		if p := call(func() { s, err = binary.MakeSliceBuffer(k.c, k.t, n, buf) }); p != "" || err != nil {
			rt.Fatalf("%s: %v %s", what, err, p)
		}
		els, err := k.elements(s)
		if err != nil || len(els) != n {
			rt.Fatalf("%s: %d elements (%v)", what, len(els), err)
		}
		if ct, at, l := binary.Type(s); ct != k.c || at != k.t || l != n {
			rt.Fatalf("%s: Type says %v %v %d", what, ct, at, l)
		}
		if !bytes.Equal(all, orig) {
			rt.Fatalf("%s: changed the buffer", what)
		}
		v := reflect.ValueOf(s)
		shared := false
		if n > 0 {
			p, lo, hi := uintptr(v.UnsafePointer()), uintptr(unsafe.Pointer(&all[0])), uintptr(unsafe.Pointer(&all[len(all)-1]))
			shared = p >= lo && p <= hi
			if cp > 0 {
				want := uintptr(unsafe.Pointer(&buf[:1][0]))
				if big && p != want {
					rt.Fatalf("%s: the buffer is not the backing memory", what)
				}
				if shared && p != want {
					rt.Fatalf("%s: the result starts at offset %d of the buffer", what, int(p)-int(want))
				}
			}
			if shared && v.Cap()*mem > cp {
				rt.Fatalf("%s: the capacity of the result, %d elements, exceeds the buffer", what, v.Cap())
			}
		}
		// use all of the result, appending to it too
		fill := drawEls(rt, k, n, "fill")
		reflect.Copy(v, reflect.ValueOf(k.slice(fill, false)))
		if d := k.diff(s, fill); d != "" {
			rt.Fatalf("%s: %s", what, d)
		}
		_ = reflect.AppendSlice(v, reflect.ValueOf(k.junk(3, false)))
		if !bytes.Equal(all[:off], orig[:off]) || !bytes.Equal(all[off+cp:], orig[off+cp:]) {
			rt.Fatalf("%s: writing to the result changes memory outside the buffer", what)
		}
		if shared && n > 0 {
			if got := k.get2(buf[:cp], n); diffEls(got, fill) != "" {
				rt.Fatalf("%s: the buffer doesn't back the result: %s", what, diffEls(got, fill))
			}
		}
	})
}

// get2 loads n elements stored in memory (not file) order.
func (k elem) get2(b []byte, n int) [][]uint32 {
	els := zeros(k, n)
	for i := range els {
		for j := range els[i] {
			o := i*k.cs*k.n + k.memPos(j)*k.cs
			for x := 0; x < k.cs; x++ {
				els[i][j] |= uint32(b[o+x]) << (8 * x)
			}
		}
	}
	return els
}

func TestC15Invalid(t *testing.T) {
	Prop(t, Opt{Quick: 3000, Rule: "an invalid count or an invalid code"}, func(rt *rapid.T, c *Case) {
		ct, at := pick(rt, "component", compList...), pick(rt, "shape", shapeList...)
		n := intn(rt, 0, 3, "count")
		switch intn(rt, 0, 2, "what") {
		case 0:
			n = pick(rt, "count", -1, -2, math.MinInt, math.MinInt+1, math.MaxInt, math.MaxInt/2+1, math.MaxInt/4+1, math.MaxInt/16+1, 1<<62, 1<<61, 1<<60, 1<<58, -1<<32, 1<<55+1, -intn(rt, 1, 1000, "neg"))
			c.Label("count")
		case 1:
			ct = gltf.ComponentType(pick(rt, "code", 6, 7, 255, 256, 5120, 5126, 65535, intn(rt, 6, 65535, "any")))
			c.Label("component type")
		default:
			at = gltf.AccessorType(pick(rt, "code", 7, 8, 255, intn(rt, 7, 255, "any")))
			c.Label("accessor type")
		}
		var buf []byte
		if rapid.Bool().Draw(rt, "buf") {
			buf = make([]byte, intn(rt, 0, 100, "len"))
		}
		c.Key(ct, at, n, len(buf))
		c.NonTrivial(true)
		c.Sample("component code %d, accessor code %d, count %d, buffer of %d bytes", uint(ct), uint(at), n, len(buf))
		what := fmt.Sprintf("component %d accessor %d count %d buffer %d", ct, at, n, len(buf))
		var err, err2 error
		if p := call(func() { _, err = binary.MakeSlice(ct, at, n) }); p != "" || err == nil {
			rt.Fatalf("MakeSlice %s: error %v %s", what, err, p)
		}
		if p := call(func() { _, err2 = binary.MakeSliceBuffer(ct, at, n, buf) }); p != "" || err2 == nil {
			rt.Fatalf("MakeSliceBuffer %s: error %v %s", what, err2, p)
		}
	})
}
