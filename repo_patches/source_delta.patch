From a7009b34fa945ce1c3146bf5a07a788cf2b747b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:02 +0000
Subject: [PATCH 01/26] fix: decoding a null buffer or image returns an error
 instead of panicking

---
 decoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder.go b/decoder.go
index 8ca826c..576e8de 100644
--- a/decoder.go
+++ b/decoder.go
@@ -63,6 +63,9 @@ func (d *Decoder) Decode(doc *Document) error {
 	}
 
 	for _, b := range doc.Buffers {
+		if b == nil {
+			return errors.New("gltf: Invalid null buffer")
+		}
 		if !b.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(b.URI); ok {
 				b.URI = uri
@@ -70,6 +73,9 @@ func (d *Decoder) Decode(doc *Document) error {
 		}
 	}
 	for _, im := range doc.Images {
+		if im == nil {
+			return errors.New("gltf: Invalid null image")
+		}
 		if !im.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(im.URI); ok {
 				im.URI = uri
-- 
2.43.0


From 53b287490e5482537175d7d8067368bdbc8d8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:03 +0000
Subject: [PATCH 02/26] fix: reject negative and oversized buffer.byteLength
 when decoding instead of panicking

---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 576e8de..dcb9081 100644
--- a/decoder.go
+++ b/decoder.go
@@ -182,7 +182,7 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if err != nil {
 		return err
 	}
-	if header.Type != glbChunkBIN || header.Length < uint32(buffer.ByteLength) {
+	if header.Type != glbChunkBIN || int64(header.Length) < int64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
 	buffer.Data = make([]byte, buffer.ByteLength)
@@ -191,8 +191,8 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-	if buffer.ByteLength == 0 {
-		return errors.New("gltf: Invalid buffer.byteLength value = 0")
+	if buffer.ByteLength <= 0 {
+		return fmt.Errorf("gltf: Invalid buffer.byteLength value = %d", buffer.ByteLength)
 	}
 	return nil
 }
-- 
2.43.0


From 8b4e4707522f3468bd385a1056345de3333cce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:04 +0000
Subject: [PATCH 03/26] fix: detect a GLB JSON chunk length that overflows the
 container length

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index dcb9081..a1ec8a5 100644
--- a/decoder.go
+++ b/decoder.go
@@ -135,7 +135,7 @@ func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 }
 
 func (d *Decoder) validateGLBHeader(header *glbHeader) error {
-	if header.JSONHeader.Type != glbChunkJSON || (header.JSONHeader.Length+uint32(binary.Size(header))) > header.Length {
+	if header.JSONHeader.Type != glbChunkJSON || (uint64(header.JSONHeader.Length)+uint64(binary.Size(header))) > uint64(header.Length) {
 		return errors.New("gltf: Invalid GLB JSON header")
 	}
 	return nil
-- 
2.43.0


From 9482d48a54dcf4a1f002249886fca0fe1985c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:07 +0000
Subject: [PATCH 04/26] fix: skip the rest of the GLB JSON chunk so the BIN
 chunk is found however the input is split into reads

---
 decoder.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/decoder.go b/decoder.go
index a1ec8a5..a4d968e 100644
--- a/decoder.go
+++ b/decoder.go
@@ -103,20 +103,17 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	var (
-		jd       *json.Decoder
-		isBinary bool
-	)
-	if glbHeader != nil {
-		jd = json.NewDecoder(&io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)})
-		isBinary = true
-	} else {
-		jd = json.NewDecoder(d.r)
-		isBinary = false
+	if glbHeader == nil {
+		return false, json.NewDecoder(d.r).Decode(doc)
 	}
-
-	err = jd.Decode(doc)
-	return isBinary, err
+	chunk := &io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)}
+	if err = json.NewDecoder(chunk).Decode(doc); err != nil {
+		return true, err
+	}
+	// The JSON decoder might stop reading before the end of the chunk,
+	// skip the remaining padding so the next read starts at the next chunk.
+	_, err = io.Copy(io.Discard, chunk)
+	return true, err
 }
 
 func (d *Decoder) readGLBHeader() (*glbHeader, error) {
-- 
2.43.0


From f0db2b66b18e51b1ce597660f6f374fa5bd7cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 05/26] fix: report every failed write when encoding a GLB

---
 encode.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index f8a29ad..a81bc4d 100644
--- a/encode.go
+++ b/encode.go
@@ -175,8 +175,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	e.w.Write(jsonText)
-	e.w.Write(headerPadding)
+	if _, err = e.w.Write(jsonText); err != nil {
+		return false, err
+	}
+	if _, err = e.w.Write(headerPadding); err != nil {
+		return false, err
+	}
 
 	if hasBinChunk {
 		binBuffer := doc.Buffers[0]
@@ -185,8 +189,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 			binPadding[i] = 0
 		}
 		binHeader := chunkHeader{Length: uint32(binPaddedLength), Type: glbChunkBIN}
-		binary.Write(e.w, binary.LittleEndian, &binHeader)
-		e.w.Write(binBuffer.Data)
+		if err = binary.Write(e.w, binary.LittleEndian, &binHeader); err != nil {
+			return false, err
+		}
+		if _, err = e.w.Write(binBuffer.Data); err != nil {
+			return false, err
+		}
 		_, err = e.w.Write(binPadding)
 	}
 
-- 
2.43.0


From 07e3aa0d8f3ceb4be0adab9be6697b4181349d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:30 +0000
Subject: [PATCH 06/26] fix: never read or write buffers with an absolute URI
 through the file system

---
 decoder.go | 21 +++++++++++++++++++--
 encode.go  |  2 +-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index a4d968e..35d5c8a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -158,7 +158,7 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 		buffer.Data, err = buffer.marshalData()
 	} else {
 		err = validateBufferURI(buffer.URI)
-		if err == nil && d.Fsys != nil {
+		if err == nil && d.Fsys != nil && !isAbsoluteURI(buffer.URI) {
 			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
 			if len(buffer.Data) > int(buffer.ByteLength) {
 				buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
@@ -195,7 +195,7 @@ func (d *Decoder) validateBuffer(buffer *Buffer) error {
 }
 
 func validateBufferURI(uri string) error {
-	if u, err := url.Parse(uri); err == nil && u.Scheme != "" {
+	if isAbsoluteURI(uri) {
 		return nil
 	}
 	if !filepath.IsLocal(uri) {
@@ -204,6 +204,23 @@ func validateBufferURI(uri string) error {
 	return nil
 }
 
+// isAbsoluteURI reports whether uri starts with a scheme.
+// Absolute URIs never reference a file relative to the document.
+func isAbsoluteURI(uri string) bool {
+	for i, c := range uri {
+		switch {
+		case 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z':
+		case '0' <= c && c <= '9' || c == '+' || c == '-' || c == '.':
+			if i == 0 {
+				return false
+			}
+		default:
+			return c == ':' && i > 0
+		}
+	}
+	return false
+}
+
 func sanitizeURI(uri string) (string, bool) {
 	uri = strings.Replace(uri, "\\", "/", -1)
 	uri = strings.Replace(uri, "/./", "/", -1)
diff --git a/encode.go b/encode.go
index a81bc4d..cc0fc2c 100644
--- a/encode.go
+++ b/encode.go
@@ -126,7 +126,7 @@ func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	if err := validateBufferURI(buffer.URI); err != nil {
 		return err
 	}
-	if e.Fsys == nil {
+	if e.Fsys == nil || isAbsoluteURI(buffer.URI) {
 		return nil
 	}
 	uri, ok := sanitizeURI(buffer.URI)
-- 
2.43.0


From 96cebbc0bc56562d4f721fd85c1e017455470c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 07/26] fix: validate the decoded buffer URI before writing the
 file it names

---
 encode.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/encode.go b/encode.go
index cc0fc2c..abceb9d 100644
--- a/encode.go
+++ b/encode.go
@@ -123,14 +123,16 @@ func (e *Encoder) Encode(doc *Document) error {
 }
 
 func (e *Encoder) encodeBuffer(buffer *Buffer) error {
-	if err := validateBufferURI(buffer.URI); err != nil {
-		return err
-	}
-	if e.Fsys == nil || isAbsoluteURI(buffer.URI) {
-		return nil
-	}
+	// Validate the URI that is used as file name, which might differ from
+	// buffer.URI if it contains escaped characters or backslashes.
 	uri, ok := sanitizeURI(buffer.URI)
 	if !ok {
+		uri = buffer.URI
+	}
+	if err := validateBufferURI(uri); err != nil {
+		return err
+	}
+	if e.Fsys == nil || isAbsoluteURI(uri) {
 		return nil
 	}
 	w, err := e.Fsys.Create(uri)
-- 
2.43.0


From 85b85516518074adca3e19ad602f8fc790a1f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:49 +0000
Subject: [PATCH 08/26] fix: resolve dot segments of relative URIs so every
 spelling names the same file

---
 decoder.go | 35 ++++++++++++++++++++++++-----------
 encode.go  |  2 +-
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/decoder.go b/decoder.go
index 35d5c8a..26dbeef 100644
--- a/decoder.go
+++ b/decoder.go
@@ -11,6 +11,7 @@ import (
 	"io/fs"
 	"net/url"
 	"os"
+	"path"
 	"path/filepath"
 	"strings"
 )
@@ -159,7 +160,7 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 	} else {
 		err = validateBufferURI(buffer.URI)
 		if err == nil && d.Fsys != nil && !isAbsoluteURI(buffer.URI) {
-			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
+			buffer.Data, err = fs.ReadFile(d.Fsys, bufferName(buffer.URI))
 			if len(buffer.Data) > int(buffer.ByteLength) {
 				buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
 			}
@@ -198,7 +199,7 @@ func validateBufferURI(uri string) error {
 	if isAbsoluteURI(uri) {
 		return nil
 	}
-	if !filepath.IsLocal(uri) {
+	if name := bufferName(uri); !fs.ValidPath(name) || !filepath.IsLocal(name) {
 		return fmt.Errorf("gltf: Invalid buffer.uri value '%s'", uri)
 	}
 	return nil
@@ -221,22 +222,34 @@ func isAbsoluteURI(uri string) bool {
 	return false
 }
 
+// bufferName returns the io/fs name of the file referenced by a sanitized relative URI.
+func bufferName(uri string) string {
+	return path.Clean(uri)
+}
+
+// sanitizeURI returns the decoded, slash-separated and cleaned form of a relative URI
+// and the normalized form of an absolute one.
 func sanitizeURI(uri string) (string, bool) {
 	uri = strings.Replace(uri, "\\", "/", -1)
-	uri = strings.Replace(uri, "/./", "/", -1)
-	uri = strings.TrimPrefix(uri, "./")
 	u, err := url.Parse(uri)
 	if err != nil {
 		return "", false
 	}
-	if u.Scheme == "" {
-		// URI should always be decoded before using it in a file path.
-		uri, err = url.PathUnescape(uri)
-		if err != nil {
-			return "", false
+	if u.Scheme != "" {
+		return u.String(), true
+	}
+	// URI should always be decoded before using it in a file path.
+	uri, err = url.PathUnescape(uri)
+	if err != nil {
+		return "", false
+	}
+	uri = strings.Replace(uri, "\\", "/", -1)
+	if uri != "" && u.Host == "" {
+		uri = path.Clean(uri)
+		if isAbsoluteURI(uri) {
+			// A decoded colon is part of the name, not a scheme separator.
+			uri = "./" + uri
 		}
-	} else {
-		uri = u.String()
 	}
 	return uri, true
 }
diff --git a/encode.go b/encode.go
index abceb9d..7b7dccd 100644
--- a/encode.go
+++ b/encode.go
@@ -135,7 +135,7 @@ func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	if e.Fsys == nil || isAbsoluteURI(uri) {
 		return nil
 	}
-	w, err := e.Fsys.Create(uri)
+	w, err := e.Fsys.Create(bufferName(uri))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7d10699da8b327445cc9c66ed6c9739277d93aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 09/26] fix: honour the stride and the length of int8 and uint8
 scalars in binary.Read and binary.Write

---
 binary/encode.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 01a4226..5b161bf 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -40,8 +40,8 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = color.RGBA64{R: c[0], G: c[1], B: c[2], A: c[3]}
 		}
 	case []int8:
-		for i, x := range b {
-			data[i] = int8(x)
+		for i := range data {
+			data[i] = Byte.Scalar(b[e*i:])
 		}
 	case [][2]int8:
 		for i := range data {
@@ -68,7 +68,7 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = Byte.Mat4(b[e*i:])
 		}
 	case []uint8:
-		if byteStride != 1 {
+		if byteStride == 1 {
 			copy(data, b)
 		} else {
 			for i := range data {
@@ -273,7 +273,13 @@ func Write(b []byte, stride int, data any) error {
 			Byte.PutMat4(b[e*i:], data[i])
 		}
 	case []uint8:
-		copy(b, data)
+		if e == 1 {
+			copy(b, data)
+		} else {
+			for i, x := range data {
+				b[e*i] = x
+			}
+		}
 	case [][2]uint8:
 		for i := range data {
 			Ubyte.PutVec2(b[e*i:], data[i])
-- 
2.43.0


From 8ea1de4c63bb4bbb24c206189020aac4d1cb3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 10/26] fix: MakeSliceBuffer supports unsigned int 3x3 matrices
 instead of panicking

---
 binary/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/slice.go b/binary/slice.go
index 7a1dd4f..3b37118 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -112,7 +112,7 @@ func castSlice(c gltf.ComponentType, t gltf.AccessorType, count int, v []byte) a
 		case gltf.AccessorMat2:
 			return reslice[[2][2]uint32](v, l, rem)
 		case gltf.AccessorMat3:
-
+			return reslice[[3][3]uint32](v, l, rem)
 		case gltf.AccessorMat4:
 			return reslice[[4][4]uint32](v, l, rem)
 		}
-- 
2.43.0


From facdc65184f80b09d112d670ec291cf97d426152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 11/26] fix: binary.Read and binary.Write return an error for
 negative and overflowing strides instead of panicking

---
 binary/encode.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 5b161bf..39efbde 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -21,11 +21,7 @@ func Read(b []byte, byteStride int, data any) error {
 		byteStride = size
 	}
 	e := int(byteStride)
-	high := int(n) * e
-	if byteStride != size {
-		high -= int(byteStride - size)
-	}
-	if len(b) < high {
+	if !fits(len(b), n, e, size) {
 		return io.ErrShortBuffer
 	}
 	switch data := data.(type) {
@@ -217,6 +213,17 @@ func Read(b []byte, byteStride int, data any) error {
 	return nil
 }
 
+// fits reports whether length bytes can hold n elements of the given size placed every stride bytes.
+func fits(length, n, stride, size int) bool {
+	if n == 0 {
+		return true
+	}
+	if stride < 0 || length < size {
+		return false
+	}
+	return stride == 0 || n-1 <= (length-size)/stride
+}
+
 // Write writes the binary representation of data into b.
 // If stride is diferent than zero data will be interleaved.
 //
@@ -232,7 +239,7 @@ func Write(b []byte, stride int, data any) error {
 	if stride == 0 {
 		e = sizeOfElement
 	}
-	if len(b) < e*(int(n)-1)+sizeOfElement {
+	if !fits(len(b), n, e, sizeOfElement) {
 		return io.ErrShortBuffer
 	}
 	switch data := data.(type) {
-- 
2.43.0


From 2162ef09b1c84ea75610d3fe20c5e076302dd79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 12/26] fix: MakeSlice and MakeSliceBuffer reject negative and
 overflowing counts instead of panicking

---
 binary/slice.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/binary/slice.go b/binary/slice.go
index 3b37118..fdfb688 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -3,6 +3,7 @@ package binary
 import (
 	"fmt"
 	"image/color"
+	"math"
 	"reflect"
 	"unsafe"
 
@@ -144,6 +145,9 @@ func MakeSliceBuffer(c gltf.ComponentType, t gltf.AccessorType, count int, buffe
 	if err := checkAccessorType(c, t); err != nil {
 		return nil, err
 	}
+	if err := checkCount(c, t, count); err != nil {
+		return nil, err
+	}
 	buffer = buffer[:cap(buffer)] // Extend the slice to its capacity.
 	if len(buffer) == 0 {
 		return MakeSlice(c, t, count)
@@ -158,6 +162,9 @@ func MakeSlice(c gltf.ComponentType, t gltf.AccessorType, count int) (any, error
 	if err := checkAccessorType(c, t); err != nil {
 		return nil, err
 	}
+	if err := checkCount(c, t, count); err != nil {
+		return nil, err
+	}
 	var tp reflect.Type
 	switch c {
 	case gltf.ComponentUbyte:
@@ -311,3 +318,15 @@ func checkAccessorType(c gltf.ComponentType, t gltf.AccessorType) error {
 	}
 	return nil
 }
+
+func checkCount(c gltf.ComponentType, t gltf.AccessorType, count int) error {
+	// Larger slices can't be allocated.
+	limit := uint64(1 << 46)
+	if limit > math.MaxInt {
+		limit = math.MaxInt
+	}
+	if count < 0 || uint64(count) > limit/uint64(c.ByteSize()*t.Components()) {
+		return fmt.Errorf("gltf: invalid element count %d", count)
+	}
+	return nil
+}
-- 
2.43.0


From 263b42927075e8655e1c581efd6556aaeb19f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:18 +0000
Subject: [PATCH 13/26] fix: accessors without buffer view read as zeros
 whatever the backing buffer contains

---
 modeler/read.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modeler/read.go b/modeler/read.go
index fc4d6f8..002bae9 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -33,7 +33,10 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 	if err != nil {
 		return nil, err
 	}
-	if acr.BufferView != nil {
+	if acr.BufferView == nil {
+		// The backing buffer might contain data from a previous read.
+		clearSlice(data)
+	} else {
 		buf, err := readBufferView(doc, *acr.BufferView)
 		if err != nil {
 			return nil, err
@@ -81,6 +84,15 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 	return data, nil
 }
 
+// clearSlice sets to zero all the elements of the slice data.
+func clearSlice(data any) {
+	s := reflect.ValueOf(data)
+	zero := reflect.Zero(s.Type().Elem())
+	for i := 0; i < s.Len(); i++ {
+		s.Index(i).Set(zero)
+	}
+}
+
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 	if len(doc.BufferViews) <= bufferViewIndex {
 		return nil, errors.New("gltf: bufferview index overflows")
-- 
2.43.0


From 60595196231f39af235e23dcb72d356f78bcadf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 14/26] fix: reading malformed documents with the modeler
 returns an error instead of panicking

---
 modeler/read.go | 87 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 75 insertions(+), 12 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index 002bae9..36a4dc8 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -29,6 +29,32 @@ var uint32Pool = sync.Pool{
 // ReadAccessor is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
+	var (
+		buf        []byte
+		byteStride int
+		err        error
+	)
+	if acr.BufferView != nil {
+		buf, err = readBufferView(doc, *acr.BufferView)
+		if err != nil {
+			return nil, err
+		}
+		byteStride = doc.BufferViews[*acr.BufferView].ByteStride
+		if acr.ByteOffset < 0 || byteStride < 0 {
+			return nil, errors.New("gltf: negative offset or stride")
+		}
+		if acr.ByteOffset > len(buf) {
+			return nil, io.ErrShortBuffer
+		}
+		buf = buf[acr.ByteOffset:]
+		if acr.Count > len(buf) {
+			// Don't allocate memory for elements that can't be there.
+			return nil, io.ErrShortBuffer
+		}
+	}
 	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
 	if err != nil {
 		return nil, err
@@ -37,12 +63,7 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		// The backing buffer might contain data from a previous read.
 		clearSlice(data)
 	} else {
-		buf, err := readBufferView(doc, *acr.BufferView)
-		if err != nil {
-			return nil, err
-		}
-		byteStride := doc.BufferViews[*acr.BufferView].ByteStride
-		err = binary.Read(buf[acr.ByteOffset:], byteStride, data)
+		err = binary.Read(buf, byteStride, data)
 		if err != nil {
 			return nil, err
 		}
@@ -78,6 +99,9 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		s := reflect.ValueOf(data)
 		vals := reflect.ValueOf(values)
 		for i := 0; i < int(acr.Sparse.Count); i++ {
+			if uint64(indices[i]) >= uint64(s.Len()) {
+				return nil, errors.New("gltf: sparse index overflows")
+			}
 			s.Index(int(indices[i])).Set(vals.Index(i))
 		}
 	}
@@ -94,7 +118,7 @@ func clearSlice(data any) {
 }
 
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
-	if len(doc.BufferViews) <= bufferViewIndex {
+	if bufferViewIndex < 0 || len(doc.BufferViews) <= bufferViewIndex {
 		return nil, errors.New("gltf: bufferview index overflows")
 	}
 	return ReadBufferView(doc, doc.BufferViews[bufferViewIndex])
@@ -106,16 +130,23 @@ func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 // It is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadBufferView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
-	if len(doc.Buffers) <= bv.Buffer {
+	if bv == nil {
+		return nil, errors.New("gltf: bufferview is nil")
+	}
+	if bv.Buffer < 0 || len(doc.Buffers) <= bv.Buffer {
 		return nil, errors.New("gltf: buffer index overflows")
 	}
+	if doc.Buffers[bv.Buffer] == nil {
+		return nil, errors.New("gltf: buffer is nil")
+	}
+	if bv.ByteOffset < 0 || bv.ByteLength < 0 {
+		return nil, errors.New("gltf: negative bufferview offset or length")
+	}
 	buf := doc.Buffers[bv.Buffer].Data
-
-	high := bv.ByteOffset + bv.ByteLength
-	if len(buf) < high {
+	if len(buf) < bv.ByteOffset || len(buf)-bv.ByteOffset < bv.ByteLength {
 		return nil, io.ErrShortBuffer
 	}
-	return buf[bv.ByteOffset:high], nil
+	return buf[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], nil
 }
 
 var bufPool = sync.Pool{
@@ -142,6 +173,9 @@ func makeBufferOf[T any](count int, buffer []T) []T {
 //
 // See ReadAccessor for more info.
 func ReadIndices(doc *gltf.Document, acr *gltf.Accessor, buffer []uint32) ([]uint32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint:
 	default:
@@ -176,6 +210,9 @@ func ReadIndices(doc *gltf.Document, acr *gltf.Accessor, buffer []uint32) ([]uin
 //
 // See ReadAccessor for more info.
 func ReadNormal(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) ([][3]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -197,6 +234,9 @@ func ReadNormal(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) ([]
 //
 // See ReadAccessor for more info.
 func ReadTangent(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([][4]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -220,6 +260,9 @@ func ReadTangent(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([
 //
 // See ReadAccessor for more info.
 func ReadTextureCoord(doc *gltf.Document, acr *gltf.Accessor, buffer [][2]float32) ([][2]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -260,6 +303,9 @@ func ReadTextureCoord(doc *gltf.Document, acr *gltf.Accessor, buffer [][2]float3
 //
 // See ReadAccessor for more info.
 func ReadWeights(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([][4]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -302,6 +348,9 @@ func ReadWeights(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([
 //
 // See ReadAccessor for more info.
 func ReadJoints(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([][4]uint16, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort:
 	default:
@@ -335,6 +384,9 @@ func ReadJoints(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([][
 //
 // See ReadAccessor for more info.
 func ReadPosition(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) ([][3]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -358,6 +410,9 @@ func ReadPosition(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) (
 //
 // See ReadAccessor for more info.
 func ReadColor(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint8) ([][4]uint8, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -409,6 +464,9 @@ func ReadColor(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint8) ([][4]
 //
 // See ReadAccessor for more info.
 func ReadColor64(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([][4]uint16, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -468,6 +526,9 @@ func ReadColor64(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([]
 //
 // See ReadAccessor for more info.
 func ReadInverseBindMatrices(doc *gltf.Document, acr *gltf.Accessor, buffer [][4][4]float32) ([][4][4]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -485,6 +546,8 @@ func ReadInverseBindMatrices(doc *gltf.Document, acr *gltf.Accessor, buffer [][4
 	return buffer, nil
 }
 
+var errNilAccessor = errors.New("gltf: accessor is nil")
+
 func errAccessorType(tp gltf.AccessorType) error {
 	return fmt.Errorf("gltf: accessor type %v not allowed", tp)
 }
-- 
2.43.0


From 9fd02e613f0c99c5e4b214a35d0aae68f5a4af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:33 +0000
Subject: [PATCH 15/26] fix: typed readers return no elements for an empty
 accessor whatever the destination holds

---
 modeler/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index 36a4dc8..857d4a0 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -159,10 +159,10 @@ var bufPool = sync.Pool{
 func makeBufferOf[T any](count int, buffer []T) []T {
 	if len(buffer) < count {
 		buffer = append(buffer, make([]T, count-len(buffer))...)
-	} else if count != 0 {
-		buffer = buffer[:count]
 	} else if buffer == nil {
 		buffer = make([]T, 0)
+	} else {
+		buffer = buffer[:count]
 	}
 	return buffer
 }
-- 
2.43.0


From 0ea0d29d8aaab8bce19398f5f542f4cba3802eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 16/26] fix: a rejected WriteAccessorsInterleaved leaves the
 document unchanged

---
 modeler/write.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/modeler/write.go b/modeler/write.go
index bbcfd6e..fed000d 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -214,6 +214,9 @@ func WriteAccessor(doc *gltf.Document, target gltf.Target, data any) int {
 // with the same order as data or an error if the data elements
 // don´t have all the same length.
 func WriteAccessorsInterleaved(doc *gltf.Document, data ...any) ([]int, error) {
+	if err := checkSameLength(data); err != nil {
+		return nil, err
+	}
 	ensurePadding(doc)
 	index, err := WriteBufferViewInterleaved(doc, data...)
 	if err != nil {
@@ -315,14 +318,12 @@ func WriteBufferView(doc *gltf.Document, target gltf.Target, data any) int {
 }
 
 func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int, error) {
-	var refLength, stride, size int
-	for i, d := range data {
+	if err := checkSameLength(data); err != nil {
+		return 0, err
+	}
+	var stride, size int
+	for _, d := range data {
 		c, a, l := binary.Type(d)
-		if i == 0 {
-			refLength = l
-		} else if refLength != l {
-			return 0, errors.New("gltf: interleaved data shall have the same number of elements in all chunks")
-		}
 		sizeOfElement := gltf.SizeOfElement(c, a)
 		size += l * sizeOfElement
 		if len(data) > 1 {
@@ -353,6 +354,20 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	return len(doc.BufferViews) - 1, nil
 }
 
+// checkSameLength returns an error if the slices in data don't have all the same length.
+func checkSameLength(data []any) error {
+	var refLength int
+	for i, d := range data {
+		_, _, l := binary.Type(d)
+		if i == 0 {
+			refLength = l
+		} else if refLength != l {
+			return errors.New("gltf: interleaved data shall have the same number of elements in all chunks")
+		}
+	}
+	return nil
+}
+
 func ensurePadding(doc *gltf.Document) {
 	buffer := lastBuffer(doc)
 	padding := getPadding(len(buffer.Data))
-- 
2.43.0


From 5d4e010df579364ac1eb956ae083e344775f1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 17/26] fix: writing empty interleaved attributes doesn't panic
 nor add an empty buffer view

---
 modeler/write.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modeler/write.go b/modeler/write.go
index fed000d..7401c89 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -283,6 +283,9 @@ func WritePrimitiveAttributes(doc *gltf.Document, attr ...PrimitiveAttribute) (g
 		data = append(data, a.Data)
 		props = append(props, attrProps{Name: a.Name, Normalized: normalized})
 	}
+	if len(data) == 0 {
+		return gltf.PrimitiveAttributes{}, nil
+	}
 	indices, err := WriteAccessorsInterleaved(doc, data...)
 	if err != nil {
 		return nil, err
@@ -338,6 +341,9 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	buffer.Data = append(buffer.Data, make([]byte, size)...)
 	dataOffset := offset
 	for _, d := range data {
+		if size == 0 {
+			break // There is nothing to write.
+		}
 		// Cannot return error as the buffer has enough size and the data type is controlled.
 		_ = binary.Write(buffer.Data[dataOffset:], stride, d)
 		c, a, _ := binary.Type(d)
-- 
2.43.0


From cca3d3dc4e31f78c3b28a2bdea3e99f5a12160e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 18/26] fix: encode KHR_lights_punctual according to its schema
 so loaded documents can be saved

---
 ext/lightspunctual/lightspunctual.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 6365db3..3024cdd 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -48,6 +48,13 @@ const (
 // LightIndex is the id of the light referenced by this node.
 type LightIndex int
 
+// MarshalJSON marshal the light index as the node extension object.
+func (i LightIndex) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Light int `json:"light"`
+	}{int(i)})
+}
+
 // Spot defines the spot cone.
 type Spot struct {
 	InnerConeAngle float64  `json:"innerConeAngle,omitempty"`
@@ -76,6 +83,13 @@ func (s *Spot) UnmarshalJSON(data []byte) error {
 // Lights defines a list of Lights.
 type Lights []*Light
 
+// MarshalJSON marshal the lights as the document extension object.
+func (l Lights) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Lights []*Light `json:"lights,omitempty"`
+	}{l})
+}
+
 // Light defines a directional, point, or spot light.
 // When a light's type is spot, the spot property on the light is required.
 type Light struct {
@@ -113,3 +127,13 @@ func (l *Light) UnmarshalJSON(data []byte) error {
 	}
 	return err
 }
+
+// MarshalJSON marshal the light with the correct default values.
+func (l Light) MarshalJSON() ([]byte, error) {
+	type alias Light
+	if l.Range != nil && math.IsInf(*l.Range, 1) {
+		// An infinite range is represented by its absence.
+		l.Range = nil
+	}
+	return json.Marshal(alias(l))
+}
-- 
2.43.0


From 7fe59372bb52cb849f92c13c76daea4d783204b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 19/26] fix: encode the specular-glossiness defaults without
 touching nested texture content

---
 ext/specular/specular.go | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/ext/specular/specular.go b/ext/specular/specular.go
index 6752474..ce19307 100644
--- a/ext/specular/specular.go
+++ b/ext/specular/specular.go
@@ -1,7 +1,6 @@
 package specular
 
 import (
-	"bytes"
 	"encoding/json"
 
 	"github.com/qmuntal/gltf"
@@ -46,28 +45,15 @@ func (p *PBRSpecularGlossiness) UnmarshalJSON(data []byte) error {
 // MarshalJSON marshal the pbr with the correct default values.
 func (p *PBRSpecularGlossiness) MarshalJSON() ([]byte, error) {
 	type alias PBRSpecularGlossiness
-	out, err := json.Marshal(&struct{ *alias }{alias: (*alias)(p)})
-	if err == nil {
-		if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
-			out = removeProperty([]byte(`"glossinessFactor":1`), out)
-		}
-		if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
-			out = removeProperty([]byte(`"diffuseFactor":[1,1,1,1]`), out)
-		}
-		if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
-			out = removeProperty([]byte(`"specularFactor":[1,1,1]`), out)
-		}
-		out = sanitizeJSON(out)
+	tmp := alias(*p)
+	if tmp.GlossinessFactor != nil && *tmp.GlossinessFactor == 1 {
+		tmp.GlossinessFactor = nil
 	}
-	return out, err
-}
-
-func removeProperty(str []byte, b []byte) []byte {
-	b = bytes.Replace(b, str, []byte(""), 1)
-	return bytes.Replace(b, []byte(`,,`), []byte(","), 1)
-}
-
-func sanitizeJSON(b []byte) []byte {
-	b = bytes.Replace(b, []byte(`{,`), []byte("{"), 1)
-	return bytes.Replace(b, []byte(`,}`), []byte("}"), 1)
+	if tmp.DiffuseFactor != nil && *tmp.DiffuseFactor == [4]float64{1, 1, 1, 1} {
+		tmp.DiffuseFactor = nil
+	}
+	if tmp.SpecularFactor != nil && *tmp.SpecularFactor == [3]float64{1, 1, 1} {
+		tmp.SpecularFactor = nil
+	}
+	return json.Marshal(&tmp)
 }
-- 
2.43.0


From cb171238d0db2fe529eaa0146cd088619b300ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 20/26] fix: report a read error that happens while the GLB
 header is peeked

---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 26dbeef..feaa5c5 100644
--- a/decoder.go
+++ b/decoder.go
@@ -120,9 +120,13 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 	var header glbHeader
 	chunk, err := d.r.Peek(binary.Size(header))
-	if err != nil {
+	if err == io.EOF {
+		// Too short to be a GLB.
 		return nil, nil
 	}
+	if err != nil {
+		return nil, err
+	}
 	r := bytes.NewReader(chunk)
 	binary.Read(r, binary.LittleEndian, &header)
 	if header.Magic != glbHeaderMagic {
-- 
2.43.0


From 23ebd88c8986007d629fb1da122ad1db23d54c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 21/26] fix: read and write elements whose last one isn't
 followed by its alignment padding

---
 binary/encode.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 39efbde..50d4772 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -21,7 +21,7 @@ func Read(b []byte, byteStride int, data any) error {
 		byteStride = size
 	}
 	e := int(byteStride)
-	if !fits(len(b), n, e, size) {
+	if !fits(len(b), n, e, size-trailingPadding(c, t)) {
 		return io.ErrShortBuffer
 	}
 	switch data := data.(type) {
@@ -224,6 +224,19 @@ func fits(length, n, stride, size int) bool {
 	return stride == 0 || n-1 <= (length-size)/stride
 }
 
+// trailingPadding returns the number of padding bytes at the end of an element,
+// which don't need to be present after the last one.
+func trailingPadding(c gltf.ComponentType, t gltf.AccessorType) int {
+	padding := gltf.SizeOfElement(c, t) - c.ByteSize()*t.Components()
+	switch t {
+	case gltf.AccessorMat2:
+		return padding / 2
+	case gltf.AccessorMat3:
+		return padding / 3
+	}
+	return padding
+}
+
 // Write writes the binary representation of data into b.
 // If stride is diferent than zero data will be interleaved.
 //
@@ -239,7 +252,7 @@ func Write(b []byte, stride int, data any) error {
 	if stride == 0 {
 		e = sizeOfElement
 	}
-	if !fits(len(b), n, e, sizeOfElement) {
+	if !fits(len(b), n, e, sizeOfElement-trailingPadding(c, t)) {
 		return io.ErrShortBuffer
 	}
 	switch data := data.(type) {
-- 
2.43.0


From c2c1d542c0a988e2581ecfb6613d1b324fb50b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 22/26] fix: save the current data of embedded buffers instead
 of the URI they were loaded with

---
 encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 7b7dccd..9953a0c 100644
--- a/encode.go
+++ b/encode.go
@@ -214,14 +214,15 @@ func (e *Encoder) marshalJSONDoc(doc *Document) ([]byte, error) {
 		CustomBuffers: make([]*Buffer, len(doc.Buffers)),
 		alias:         (*alias)(doc),
 	}
-	// Embed buffers without URI.
+	// Embed buffers without URI and refresh the embedded ones,
+	// as their data might have changed since they were embedded.
 	for i, buf := range doc.Buffers {
 		if i == 0 && e.AsBinary && buf.URI == "" {
 			// First buffer will be encoded in the binary chunk.
 			tmp.CustomBuffers[i] = buf
 			continue
 		}
-		if len(buf.Data) > 0 && buf.URI == "" && !buf.IsEmbeddedResource() {
+		if len(buf.Data) > 0 && (buf.URI == "" || buf.IsEmbeddedResource()) {
 			tmpBuf := &Buffer{
 				Extensions: buf.Extensions,
 				Extras:     buf.Extras,
-- 
2.43.0


From 0ee047343321d85cd2021b890984df5912ad3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:08 +0000
Subject: [PATCH 23/26] fix: load at most byteLength bytes of embedded buffers
 too

---
 decoder.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index feaa5c5..2fd620b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -165,13 +165,12 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 		err = validateBufferURI(buffer.URI)
 		if err == nil && d.Fsys != nil && !isAbsoluteURI(buffer.URI) {
 			buffer.Data, err = fs.ReadFile(d.Fsys, bufferName(buffer.URI))
-			if len(buffer.Data) > int(buffer.ByteLength) {
-				buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
-			}
 		}
 	}
 	if err != nil {
 		buffer.Data = nil
+	} else if len(buffer.Data) > int(buffer.ByteLength) {
+		buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
 	}
 	return err
 }
-- 
2.43.0


From b41bfdf6f771d5a1327c70989ef66b454a30d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:47 +0000
Subject: [PATCH 24/26] fix: empty interleaved accessors don't start beyond the
 end of their buffer view

---
 modeler/write.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modeler/write.go b/modeler/write.go
index 7401c89..f3aeac7 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -233,7 +233,9 @@ func WriteAccessorsInterleaved(doc *gltf.Document, data ...any) ([]int, error) {
 			Type:          t,
 			Count:         l,
 		})
-		byteOffset += gltf.SizeOfElement(c, t)
+		if l > 0 { // Otherwise the buffer view is empty.
+			byteOffset += gltf.SizeOfElement(c, t)
+		}
 		indices[i] = len(doc.Accessors) - 1
 	}
 	return indices, nil
-- 
2.43.0


From 2593a5b5fa612b614a64f84461efcac745f440c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:01 +0000
Subject: [PATCH 25/26] fix: refuse to encode a GLB whose binary chunk wouldn't
 have the declared length

---
 encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encode.go b/encode.go
index 9953a0c..0a372a3 100644
--- a/encode.go
+++ b/encode.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"errors"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
@@ -169,6 +170,9 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	hasBinChunk := len(doc.Buffers) > 0 && doc.Buffers[0].URI == ""
 	var binPaddedLength int
 	if hasBinChunk {
+		if b := doc.Buffers[0]; len(b.Data) != b.ByteLength {
+			return false, fmt.Errorf("gltf: buffer has %d bytes of data but its byteLength is %d", len(b.Data), b.ByteLength)
+		}
 		binPaddedLength = ((doc.Buffers[0].ByteLength + 3) / 4) * 4
 		header.Length += uint32(8 + binPaddedLength)
 	}
-- 
2.43.0


From 8774798a1a11a17a050b84afd274497c6f20489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:57 +0000
Subject: [PATCH 26/26] fix: don't allocate the declared length of a GLB binary
 chunk before its data arrives

---
 decoder.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 2fd620b..2f2b9b9 100644
--- a/decoder.go
+++ b/decoder.go
@@ -186,11 +186,31 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if header.Type != glbChunkBIN || int64(header.Length) < int64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
-	buffer.Data = make([]byte, buffer.ByteLength)
-	_, err = io.ReadFull(d.r, buffer.Data)
+	buffer.Data, err = readN(d.r, buffer.ByteLength)
 	return err
 }
 
+// readN reads exactly n bytes from r. The length might come from a malformed file,
+// so large slices are only allocated once enough data has been read.
+func readN(r io.Reader, n int) ([]byte, error) {
+	const chunk = 1 << 24
+	var data []byte
+	for len(data) < n {
+		have, want := len(data), n-len(data)
+		if want > have+chunk {
+			want = have + chunk
+		}
+		data = append(data, make([]byte, want)...)
+		if _, err := io.ReadFull(r, data[have:]); err != nil {
+			if err == io.EOF && have > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			return nil, err
+		}
+	}
+	return data, nil
+}
+
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
 	if buffer.ByteLength <= 0 {
 		return fmt.Errorf("gltf: Invalid buffer.byteLength value = %d", buffer.ByteLength)
-- 
2.43.0

