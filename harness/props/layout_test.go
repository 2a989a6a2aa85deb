package props

import (
	"fmt"
	"image/color"
	"reflect"
	"strings"
	"unsafe"

	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"
)

// The reference model of accessor data. It is written from the glTF 2.0
// specification (section 3.6.2.4) and does not use the tables of the library.
//
// A value of an accessor is a list of elements; an element is the list of the
// bit patterns of its components in glTF order (column-major for matrices).

type elem struct {
	c    gltf.ComponentType
	t    gltf.AccessorType
	cs   int // bytes per component
	n    int // components
	rows int // components per column (n for scalars and vectors)
	size int // element size with its padding
	end  int // offset after the last component
}

var compSize = map[gltf.ComponentType]int{gltf.ComponentByte: 1, gltf.ComponentUbyte: 1, gltf.ComponentShort: 2, gltf.ComponentUshort: 2, gltf.ComponentUint: 4, gltf.ComponentFloat: 4}
var compType = map[gltf.ComponentType]reflect.Type{
	gltf.ComponentByte: reflect.TypeOf(int8(0)), gltf.ComponentUbyte: reflect.TypeOf(uint8(0)), gltf.ComponentShort: reflect.TypeOf(int16(0)),
	gltf.ComponentUshort: reflect.TypeOf(uint16(0)), gltf.ComponentUint: reflect.TypeOf(uint32(0)), gltf.ComponentFloat: reflect.TypeOf(float32(0))}

var compName = map[gltf.ComponentType]string{gltf.ComponentByte: "BYTE", gltf.ComponentUbyte: "UNSIGNED_BYTE", gltf.ComponentShort: "SHORT", gltf.ComponentUshort: "UNSIGNED_SHORT", gltf.ComponentUint: "UNSIGNED_INT", gltf.ComponentFloat: "FLOAT"}
var shapeName = map[gltf.AccessorType]string{gltf.AccessorScalar: "SCALAR", gltf.AccessorVec2: "VEC2", gltf.AccessorVec3: "VEC3", gltf.AccessorVec4: "VEC4", gltf.AccessorMat2: "MAT2", gltf.AccessorMat3: "MAT3", gltf.AccessorMat4: "MAT4"}

func up4(n int) int { return (n + 3) / 4 * 4 }

func elemOf(c gltf.ComponentType, t gltf.AccessorType) elem {
	k := elem{c: c, t: t, cs: compSize[c]}
	switch t {
	case gltf.AccessorScalar:
		k.n, k.rows = 1, 1
	case gltf.AccessorVec2:
		k.n, k.rows = 2, 2
	case gltf.AccessorVec3:
		k.n, k.rows = 3, 3
	case gltf.AccessorVec4:
		k.n, k.rows = 4, 4
	case gltf.AccessorMat2:
		k.n, k.rows = 4, 2
	case gltf.AccessorMat3:
		k.n, k.rows = 9, 3
	case gltf.AccessorMat4:
		k.n, k.rows = 16, 4
	}
	if k.n == 1 {
		k.size = k.cs
	} else {
		k.size = up4(k.rows*k.cs) * (k.n / k.rows)
	}
	k.end = k.offset(k.n-1) + k.cs
	return k
}

func (k elem) String() string { return compName[k.c] + " " + shapeName[k.t] }

// offset of component i in an element.
func (k elem) offset(i int) int {
	if k.n == k.rows {
		return i * k.cs
	}
	return i/k.rows*up4(k.rows*k.cs) + i%k.rows*k.cs
}

// span is the number of bytes that n elements placed every stride bytes reach.
func (k elem) span(n, stride int) int {
	if n == 0 {
		return 0
	}
	return (n-1)*stride + k.end
}

// put stores the elements in b.
func (k elem) put(b []byte, stride int, els [][]uint32) {
	for i, el := range els {
		for j, v := range el {
			o := i*stride + k.offset(j)
			for x := 0; x < k.cs; x++ {
				b[o+x] = byte(v >> (8 * x))
			}
		}
	}
}

// get loads n elements from b.
func (k elem) get(b []byte, stride, n int) [][]uint32 {
	els := make([][]uint32, n)
	for i := range els {
		els[i] = make([]uint32, k.n)
		for j := range els[i] {
			o := i*stride + k.offset(j)
			for x := 0; x < k.cs; x++ {
				els[i][j] |= uint32(b[o+x]) << (8 * x)
			}
		}
	}
	return els
}

// elemType is the Go type of an element: [row][column] for matrices.
func (k elem) elemType() reflect.Type {
	t := compType[k.c]
	switch {
	case k.n == 1:
		return t
	case k.n == k.rows:
		return reflect.ArrayOf(k.n, t)
	}
	return reflect.ArrayOf(k.rows, reflect.ArrayOf(k.n/k.rows, t))
}

// in-memory position of component i, in components.
func (k elem) memPos(i int) int {
	if k.n == k.rows {
		return i
	}
	cols := k.n / k.rows
	return i%k.rows*cols + i/k.rows
}

// slice builds the Go slice that holds the elements. rgba asks for the image/color types.
func (k elem) slice(els [][]uint32, rgba bool) any {
	tp := k.elemType()
	if rgba {
		tp = rgbaType(k)
	}
	s := reflect.MakeSlice(reflect.SliceOf(tp), len(els), len(els))
	for i, el := range els {
		p := s.Index(i).Addr().UnsafePointer()
		for j, v := range el {
			q := unsafe.Add(p, k.memPos(j)*k.cs)
			switch k.cs {
			case 1:
				*(*uint8)(q) = uint8(v)
			case 2:
				*(*uint16)(q) = uint16(v)
			default:
				*(*uint32)(q) = v
			}
		}
	}
	return s.Interface()
}

func rgbaType(k elem) reflect.Type {
	switch {
	case k.c == gltf.ComponentUbyte && k.t == gltf.AccessorVec4:
		return reflect.TypeOf(color.RGBA{})
	case k.c == gltf.ComponentUshort && k.t == gltf.AccessorVec4:
		return reflect.TypeOf(color.RGBA64{})
	}
	return nil
}

// elements is the inverse of slice; err describes a wrong Go type.
func (k elem) elements(data any) (els [][]uint32, err error) {
	s := reflect.ValueOf(data)
	if s.Kind() != reflect.Slice || s.Type().Elem() != k.elemType() && s.Type().Elem() != rgbaType(k) {
		return nil, fmt.Errorf("the data is a %T, want a slice of %v", data, k.elemType())
	}
	els = make([][]uint32, s.Len())
	for i := range els {
		els[i] = make([]uint32, k.n)
		p := s.Index(i).Addr().UnsafePointer()
		for j := range els[i] {
			q := unsafe.Add(p, k.memPos(j)*k.cs)
			switch k.cs {
			case 1:
				els[i][j] = uint32(*(*uint8)(q))
			case 2:
				els[i][j] = uint32(*(*uint16)(q))
			default:
				els[i][j] = *(*uint32)(q)
			}
		}
	}
	return els, nil
}

// diffElements is "" when data holds exactly the elements want.
func (k elem) diff(data any, want [][]uint32) string {
	got, err := k.elements(data)
	if err != nil {
		return err.Error()
	}
	return diffEls(got, want)
}

func diffEls(got, want [][]uint32) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d elements, want %d", len(got), len(want))
	}
	for i := range want {
		for j := range want[i] {
			if got[i][j] != want[i][j] {
				return fmt.Sprintf("element %d component %d (column-major) is %#x, want %#x", i, j, got[i][j], want[i][j])
			}
		}
	}
	return ""
}

// make allocates a destination of n elements full of junk.
func (k elem) junk(n int, rgba bool) any {
	els := make([][]uint32, n)
	for i := range els {
		els[i] = make([]uint32, k.n)
		for j := range els[i] {
			els[i][j] = 0xA5A5A5A5 >> (32 - 8*k.cs)
		}
	}
	return k.slice(els, rgba)
}

func zeros(k elem, n int) [][]uint32 {
	els := make([][]uint32, n)
	for i := range els {
		els[i] = make([]uint32, k.n)
	}
	return els
}

var compList = []gltf.ComponentType{gltf.ComponentFloat, gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint}
var shapeList = []gltf.AccessorType{gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4}

func drawElem(t *rapid.T) elem {
	return elemOf(pick(t, "component", compList...), pick(t, "shape", shapeList...))
}

var bitPatterns = []uint32{0, 1, 0xff, 0x80, 0x7f, 0xffff, 0x8000, 0x7fff, 0x100, 0xff00, 0xffffffff, 0x80000000, 0x7fffffff, 0x7f800000, 0xff800000, 0x7fc00001, 0x7f800001, 0x3f800000, 0x01020304, 0x00010000, 0xbf800000, 0x00000080}

// drawEls draws n elements of arbitrary bit patterns.
func drawEls(t *rapid.T, k elem, n int, label string) [][]uint32 {
	mask := uint32(1)<<(8*k.cs) - 1
	if k.cs == 4 {
		mask = 0xffffffff
	}
	els := make([][]uint32, n)
	r := newRand(rapid.Uint64().Draw(t, label))
	special := chance(t, 30, label+".special")
	for i := range els {
		els[i] = make([]uint32, k.n)
		for j := range els[i] {
			if special && r.n(2) == 0 {
				els[i][j] = bitPatterns[r.n(len(bitPatterns))] & mask
			} else {
				els[i][j] = uint32(r.u64()) & mask
			}
		}
	}
	return els
}

// drawCount draws an element count: mostly small, sometimes around internal buffer sizes.
func drawCount(t *rapid.T, label string) int {
	switch intn(t, 0, 11, label+".k") {
	case 9:
		return intn(t, 10, 70, label)
	case 10:
		return pick(t, label, 99, 100, 101, 127, 128, 129, 255, 256, 257)
	case 11:
		if chance(t, 4, label+".large") {
			return pick(t, label, 4097, 10000, 32769, 65535, 65536, 65537, 70001)
		}
		return pick(t, label, 300, 511, 512, 513, 1024, 1025)
	default:
		return intn(t, 0, 9, label)
	}
}

func showEls(els [][]uint32) string {
	var s strings.Builder
	for i, el := range els {
		if i == 3 {
			fmt.Fprintf(&s, " ...(%d)", len(els))
			break
		}
		fmt.Fprintf(&s, " %x", el)
	}
	return s.String()
}
