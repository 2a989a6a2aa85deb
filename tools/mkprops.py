#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "A document survives a JSON save and load unchanged",
  "Encoding any valid document as glTF JSON and decoding the output yields an equivalent document: every property of every object (indices, numbers, strings, array order, extras, extensions) and the bytes of every buffer that is embedded or has no URI are preserved, an unset optional property being equivalent to its glTF default. "
  "Setting a JSON prefix/indent of whitespace changes only the whitespace of the output.",
  ["inputs"], "every document the model types can express with finite numbers, valid UTF-8 strings, cameras with exactly one projection, and buffers whose byteLength equals len(Data); every whitespace prefix/indent",
  "The tests round-trip three hand-written documents; a lost or mis-tagged property shows only for the field/value combinations they do not contain.",
  ["gltf.go", "encode.go", "decoder.go", "const.go"],
  [("MarshalJSON/UnmarshalJSON with default elision", "encode.go"), ("json tags of the model", "gltf.go"), ("Encoder.marshalJSONDoc embeds URI-less buffers", "encode.go")],
  ["Encoder.Encode (AsBinary=false)", "Decoder.Decode"])

p("C02", "A document survives a GLB save and load unchanged",
  "Encoding any valid document as GLB and decoding the output yields an equivalent document with every buffer's bytes intact: the first buffer, when it has no URI, is carried by the binary chunk and read back with exactly byteLength bytes, and every other buffer without a URI is embedded. "
  "Saving the same document as GLB and as glTF JSON yields equivalent documents when loaded.",
  ["inputs"], "every valid document with any number of buffers of any length (all residues mod 4), with or without a binary chunk, with any JSON length residue",
  "Tests cover a handful of GLB files with one buffer size each; padding, multi-buffer and length-dependent paths are not quantified.",
  ["encode.go", "decoder.go"],
  [("Encoder.encodeBinary", "encode.go"), ("Decoder.decodeBinaryBuffer", "decoder.go")],
  ["Encoder.Encode (AsBinary=true)", "Decoder.Decode", "SaveBinary", "Open"])

p("C03", "Every GLB written is a conforming binary container",
  "Every successful binary encode emits exactly one well-formed GLB 2.0 container: magic 'glTF', version 2, a total length equal to the number of bytes written, a first chunk of type JSON holding the document padded with spaces, then a BIN chunk padded with zeros if and only if the first buffer has no URI, every chunk length being a multiple of four and the padding at most three bytes. "
  "The BIN chunk starts with the first buffer's bytes, and that buffer's JSON entry carries no uri.",
  ["inputs"], "every valid document, every residue of JSON length and buffer length mod 4, with/without binary chunk",
  "A decoder sharing the encoder's misconception accepts what it writes; only an independent container parser over all length residues settles it, and tests check one output length.",
  ["encode.go", "const.go"],
  [("glbHeader/chunkHeader layout and padding", "encode.go encodeBinary")],
  ["bytes written by Encoder.Encode"])

p("C04", "The JSON written and read uses the glTF 2.0 vocabulary",
  "The JSON emitted for any valid document uses exactly the glTF 2.0 property names, nesting, enumeration codes and value types for each property that is set, always writes the properties the specification requires, and omits or writes as their default the ones that are not set. "
  "Conversely any glTF 2.0 JSON text (any key order, whitespace, number spelling, defaults spelled out or omitted) decodes to the document it describes, unknown members being ignored.",
  ["inputs"], "every valid document, every equivalent JSON spelling of it",
  "Round-trip tests cannot see an error made symmetrically in encoder and decoder, and the tests hold a few sample texts only.",
  ["gltf.go", "encode.go", "const.go"],
  [("json tags", "gltf.go"), ("enum code tables", "const.go"), ("custom marshalers", "encode.go")],
  ["Encoder.Encode output", "Decoder.Decode result"])

p("C05", "Absent properties get glTF defaults, present values are kept",
  "Decoding an object gives each optional property that is absent its glTF default and each property that is present exactly the value written, including values such as 0, false or an empty string that look unset; encoding never drops a value that differs from the default. "
  "The ...OrDefault accessors return the stored value when set and the glTF default otherwise (an all-zero matrix, rotation or scale counts as unset), and never modify the object.",
  ["inputs"], "every subset of present properties of nodes, materials, PBR, normal/occlusion textures, accessors, samplers, primitives, animations, assets and every value",
  "Tests check one default and one non-default value per type; partial presence and boundary values (0, 0.5, 1) in combination are not covered.",
  ["encode.go", "gltf.go", "const.go"],
  [("UnmarshalJSON pre-filling of defaults", "encode.go"), ("OrDefault accessors", "gltf.go")],
  ["fields after Decode", "...OrDefault methods", "Encode output"])

p("C06", "Extensions and extras are preserved wherever they appear",
  "Extensions and extras on any glTF object survive decode and re-encode with JSON-equal content: an extension whose key is registered is handed to its registered function (receiving that extension's JSON) and stored as the value it returns, and one that is unregistered or whose function fails is kept as json.RawMessage. "
  "Registering a key again replaces the previous function for later decodes.",
  ["inputs", "histories"], "every extension-bearing object of the format, any number of extensions per object, any JSON payload, registered/failing/unregistered keys, any registration order",
  "Tests exercise one or two sites (asset/material); there are about 30 sites.",
  ["gltf.go", "encode.go"],
  [("Extensions.UnmarshalJSON", "encode.go"), ("RegisterExtension/queryExtension", "gltf.go")],
  ["Extensions maps after Decode", "Encode output"],
  [("extensions registry", "global map of factory functions guarded by a RWMutex", "gltf.go")])

p("C07", "Built-in extensions decode to spec and round-trip through files",
  "For KHR_lights_punctual, KHR_materials_pbrSpecularGlossiness, KHR_texture_transform and KHR_materials_unlit, decoding yields the typed value with the extension's documented defaults for absent properties and the written value for present ones, and encoding a document holding the typed value yields JSON that conforms to the extension's schema and decodes back to an equivalent value. "
  "In particular a document that was loaded with any of these extensions can always be saved and loaded again, whatever texts, nested texture extras or extensions it contains; a value that is not of the extension's type is kept as it is, as raw JSON, and saved unchanged.",
  ["inputs"], "every value of the four extension types, at document, node, material and texture-info level, including nested extras/extensions and every subset of defaults",
  "Unit tests decode or encode single values separately and never push a decoded extension back through a file.",
  ["ext/lightspunctual/lightspunctual.go", "ext/specular/specular.go", "ext/texturetransform/transform.go", "ext/unlit/unlit.go", "encode.go"],
  [("per-extension Unmarshal/MarshalJSON", "ext/*/*.go")],
  ["Unmarshal functions", "Encode/Decode of documents holding the extensions"])

p("C08", "Decoding depends only on the bytes, not on how they arrive",
  "The document and the error outcome of decoding a byte stream are the same however the reader splits the bytes across Read calls (one byte at a time, arbitrary chunks, data together with EOF). "
  "Whether the stream is GLB or JSON is decided by its content alone, JSON chunk padding of any length is skipped, and bytes after the binary chunk do not affect the result.",
  ["inputs", "schedules"], "every valid GLB/JSON stream and every partition of it into reads, sizes below and above internal buffering",
  "Tests decode from bytes.Buffer or files, which deliver everything in one read.",
  ["decoder.go"],
  [("bufio + json.Decoder over a limited reader", "decoder.go decodeDocument/readGLBHeader")],
  ["Decoder.Decode result for different readers"])

p("C09", "Decoding arbitrary input never panics and rejects broken files",
  "Decode and Open return (never panic or hang) on every input, and return an error for a stream that is truncated inside the JSON or inside the declared data of its binary chunk, a GLB whose first chunk is not JSON or whose JSON length does not fit in the declared total, a binary chunk of the wrong type or shorter than the buffer, a null buffer entry, a buffer with a non-positive byteLength, a buffer with no data source, an unknown accessor type, or a property of the format (the camera type, which is inferred, and anything inside extras and extensions aside) whose JSON value is neither null nor of the property's type. "
  "On error Open returns a nil document.",
  ["inputs"], "every byte string; in particular every truncation and mutation of valid GLB and JSON files, with extreme integers and nulls in every position",
  "Tests hold a dozen hand-written malformed inputs.",
  ["decoder.go", "encode.go", "const.go"],
  [("validateGLBHeader, validateBuffer, chunk checks", "decoder.go")],
  ["Decoder.Decode", "Open"])

p("C10", "External buffers are written and read back under the same name",
  "A buffer with data and a relative URI is written to the file system under the decoded, slash-separated, cleaned form of its URI with exactly its bytes, and opening the saved file reads those bytes back (truncated to byteLength when the file is longer), in both glTF and GLB form; percent-encoding, backslashes and dot segments in the URI all resolve to the same file. "
  "Buffers with an absolute URI (with a scheme) or without data are never read from or written to the file system, a missing file is an error, and without a file system external buffers are left without data and without error.",
  ["inputs"], "every relative URI (spaces, unicode, percent sequences, backslashes, dot segments, subdirectories), any data, several external buffers per document",
  "Tests use a few names such as 'a.bin' and one with %20.",
  ["decoder.go", "encode.go"],
  [("sanitizeURI", "decoder.go"), ("encodeBuffer/decodeBuffer", "encode.go, decoder.go"), ("dirFS", "encode.go")],
  ["CreateFS.Create / FS.Open calls", "Buffer.Data", "files in the target directory"])

p("C11", "No document makes load or save touch files outside its folder",
  "Whatever URIs a document contains, in whatever spelling (parent segments, absolute paths, backslashes, percent-encoded dots or slashes), loading never reads and saving never creates or modifies a file outside the directory of the named file, and the names passed to a custom file system are always local io/fs paths. "
  "A buffer with data whose URI escapes the directory makes saving fail with an error, and an escaping buffer URI makes loading fail.",
  ["inputs"], "every buffer/image URI string, in glTF and GLB form, on a real directory and on a custom file system",
  "Two fixed escaping URIs are tested; the space of spellings is unbounded and the check/use order matters.",
  ["decoder.go", "encode.go"],
  [("validateBufferURI", "decoder.go"), ("sanitizeURI", "decoder.go")],
  ["CreateFS.Create / FS.Open names", "contents of a scratch directory tree"])

p("C12", "An I/O failure at any point is reported",
  "If any write to the output, any creation, write or close of an external buffer file fails, even once, Encode (and Save/SaveBinary) return an error; if the input reader fails before the document and its binary chunk are complete, or an external buffer cannot be read, Decode (and Open) return an error. "
  "A nil error therefore means the complete output was accepted by the writer and every external buffer was written and closed.",
  ["fault_sequences", "inputs"], "every position of the failing write/read/create/close, transient and permanent, for every document, JSON and GLB",
  "Tests never inject write faults in the middle of a GLB.",
  ["encode.go", "decoder.go", "modeler/write.go"],
  [("error returns of encodeBinary, encodeBuffer, save, decodeBuffer", "encode.go, decoder.go")],
  ["error result of Encode/Save/Decode/Open under injected faults"])

p("C13", "Encoding is pure and deterministic",
  "Encode, Save and SaveBinary never modify the document they are given (including buffer URIs, data, extensions and nested objects), and encoding an unchanged document twice, by the same or different encoders with the same settings and in any order of formats, produces identical bytes and identical external files. "
  "A document that cannot be represented as JSON is rejected before anything is written to the output.",
  ["inputs", "histories"], "every document, every sequence of encodes in JSON/GLB form",
  "Tests never compare the document before and after, or two encodes.",
  ["encode.go"],
  [("marshalJSONDoc copies buffers before embedding", "encode.go")],
  ["deep comparison of the document", "output bytes"])

p("C14", "Binary element layout matches the glTF specification",
  "For each component type, accessor shape and stride, Write stores element i at i*stride (or packed at the element size when the stride is 0) in little-endian, column-major order with matrix columns starting at 4-byte boundaries, touches no byte outside the components it stores, and Read returns exactly the components stored at those places. "
  "A buffer too short for all elements yields io.ErrShortBuffer without partial effects and no input of supported type panics; the scalar/vector/matrix codecs agree with Read and Write.",
  ["inputs"], "all 6 component types x 7 shapes (plus color.RGBA and RGBA64), any count, any stride at least the element size, any surrounding buffer contents, any value bit pattern",
  "Tests use packed data of two or three elements for each type; strides, surplus buffer and gaps are barely exercised.",
  ["binary/encode.go", "binary/binary.go", "binary/unsafe.go"],
  [("Read/Write stride loops", "binary/encode.go"), ("Component getters/putters", "binary/binary.go, binary/unsafe.go")],
  ["binary.Read", "binary.Write", "binary.Ubyte/Byte/... methods"])

p("C15", "Type tables are consistent between slices and accessors",
  "For each valid component type and accessor type, MakeSlice and MakeSliceBuffer return a slice of exactly the requested length whose Go type is the one Type maps back to that same pair, invalid pairs are rejected with an error, and SizeOfElement equals component size times component count with every matrix column and every sub-4-byte vector padded as the library documents. "
  "MakeSliceBuffer uses the supplied buffer as backing memory when it is large enough and never returns memory beyond it or fewer or more elements than asked.",
  ["inputs"], "all component/accessor pairs including invalid codes, any count, any buffer length, capacity and contents",
  "Tests sample pairs; the matrix of 42 pairs x buffer-size regimes is not covered.",
  ["binary/slice.go", "gltf.go", "const.go"],
  [("castSlice/reslice", "binary/slice.go"), ("SizeOfElement", "gltf.go")],
  ["MakeSlice", "MakeSliceBuffer", "Type", "SizeOfElement"])

p("C16", "Everything written with the modeler reads back, whatever follows",
  "After any sequence of modeler write calls on a document, every accessor, buffer view and image produced by any of the calls reads back exactly the values given to that call, with the matching component type, shape, count, normalized flag, target and index, and still does after saving and loading in either format (once the buffers are not empty). "
  "Each call appends its entries and leaves all existing entries and bytes as they were, the last buffer's byteLength equals its data length, accessors start at 4-byte aligned offsets, and every view lies within its buffer.",
  ["histories", "inputs"], "every sequence of WriteIndices/Normal/Tangent/TextureCoord/Weights/Joints/Position/Color/InverseBindMatrices/Image/Accessor/BufferView calls with any data (including empty), on empty or pre-populated documents",
  "Each unit test performs one or two writes on one document and inspects it field by field.",
  ["modeler/write.go", "modeler/read.go", "binary/encode.go"],
  [("ensurePadding/writeBufferViews/lastBuffer", "modeler/write.go")],
  ["modeler.Write*/Read*", "gltf.Document fields"])

p("C17", "Interleaved attributes are laid out and read back correctly",
  "WriteAccessorsInterleaved and WritePrimitiveAttributes put equally long attribute slices of any supported types into one buffer view whose stride is the sum of the element sizes, and each returned accessor reads back exactly its own slice, in the order given and with the right type, count, normalized flag and (for POSITION) bounds. "
  "Slices of different lengths, or of types the attribute does not allow, are rejected with an error that leaves the document unchanged; WritePrimitiveAttributes skips empty attributes and returns exactly one entry per non-empty attribute.",
  ["inputs"], "any number and combination of supported slice types (including 8-bit scalars), any common length including 0, on any document state",
  "Tests interleave two or three fixed attribute sets.",
  ["modeler/write.go", "binary/encode.go"],
  [("writeBufferViews stride/offset computation", "modeler/write.go")],
  ["WriteAccessorsInterleaved", "WritePrimitiveAttributes", "WriteBufferViewInterleaved", "ReadAccessor"])

p("C18", "ReadAccessor returns what the specification says it denotes",
  "For every valid accessor, ReadAccessor returns exactly count elements equal to the buffer view's bytes at accessor offset plus i times the view's stride (packed when absent), or zeros when there is no buffer view, with each sparse value substituted at its index. "
  "The result does not depend on whether or which backing buffer is supplied, on that buffer's contents, or on earlier reads, and reading never modifies the document.",
  ["inputs", "histories"], "all component types and shapes, any stride, offsets, sparse index types and counts, presence or absence of the buffer view, any backing buffer length and contents, any history of earlier reads",
  "Tests have single hand-made interleaved and sparse examples and fresh buffers.",
  ["modeler/read.go", "binary/slice.go", "binary/encode.go"],
  [("ReadAccessor sparse/zero handling", "modeler/read.go"), ("sync.Pool scratch buffers", "modeler/read.go")],
  ["ReadAccessor", "ReadBufferView"],
  [("bufPool, uint32Pool", "scratch buffers shared by all reads", "modeler/read.go")])

p("C19", "Typed readers convert every allowed encoding and reject the rest",
  "ReadIndices, ReadNormal, ReadTangent, ReadTextureCoord, ReadWeights, ReadJoints, ReadPosition, ReadColor, ReadColor64 and ReadInverseBindMatrices return exactly count elements equal to the accessor's elements converted from each component type the function supports (widened integers, value/max for normalized ones, alpha filled with the maximum when missing, 8-bit colors scaled to 16 bits and back, float colors sRGB-encoded), and return an error for every other component type or shape. "
  "The result is the same whether the supplied destination slice is nil, shorter, longer or dirty, and whatever was read before.",
  ["inputs", "histories"], "all 6x7 type/shape pairs per reader, all values, any count, sparse and strided sources, any destination slice",
  "Tests cover one or two elements per encoding with mostly nil destinations.",
  ["modeler/read.go", "math.go"],
  [("typed Read* conversions, makeBufferOf", "modeler/read.go")],
  ["modeler.Read*"])

p("C20", "Reading malformed documents returns an error, never panics",
  "ReadAccessor, ReadBufferView and all typed readers return an error instead of panicking when the document is malformed in any way: indices that are negative or out of range, null entries, negative or overflowing counts, offsets, lengths and strides, views beyond their buffer, sparse data that does not fit, unsupported types. "
  "When they succeed the result has exactly count elements and was computed only from bytes inside the referenced buffer view.",
  ["inputs"], "every accessor/buffer view/buffer combination, with any integer in each field",
  "Tests contain three malformed documents; the documented guarantee quantifies over all.",
  ["modeler/read.go", "binary/slice.go", "binary/encode.go"],
  [("bounds checks of readBufferView/ReadBufferView/ReadAccessor", "modeler/read.go")],
  ["modeler.Read*"])

p("C21", "Normalization and color conversion follow the glTF formulas",
  "Integer normalization uses the glTF formulas f = c/255, c/65535, max(c/127,-1), max(c/32767,-1) and c = round(f*max) (ties away from zero), so converting any integer to float and back returns it (the most negative value maps to -1 and back to -max), and results are monotonic and within [-1,1] or [0,1]. "
  "The RGB(A) conversions apply the sRGB transfer function to color channels only, keep alpha linear, map 0 and 1 to the extreme codes exactly, are monotonic, and differ from the exact value by at most one code.",
  ["inputs"], "all 2^8 and 2^16 integer codes exhaustively; all floats in range",
  "Tests compare a handful of values per function.",
  ["math.go"],
  [("Normalize*/Denormalize*", "math.go")],
  ["gltf.Normalize*", "gltf.Denormalize*"])

p("C22", "Independent operations may run concurrently",
  "Concurrent reads of one document (typed readers, ReadAccessor, Encode), concurrent decoding of separate streams, modeler writes to separate documents and extension registration may run in any number of goroutines without data races, and each returns the same result as when run alone. "
  "Results already returned are never changed by later or concurrent operations.",
  ["schedules", "histories"], "any interleaving of read/encode on shared documents, decode/write on separate documents, and RegisterExtension",
  "There is no concurrent test in the repository.",
  ["modeler/read.go", "gltf.go", "encode.go"],
  [("sync.Pool scratch buffers", "modeler/read.go"), ("extMu", "gltf.go")],
  ["results of concurrent calls", "Go race detector"],
  [("bufPool, uint32Pool, extensions", "process-wide shared state", "modeler/read.go, gltf.go")])

p("C23", "POSITION accessors carry exact bounds",
  "WritePosition and the POSITION attribute of WritePrimitiveAttributes store as min and max the exact componentwise minimum and maximum of the finite positions written, for any non-empty data in any order, independent of other attributes and of what was written before. "
  "No other accessor receives bounds and later writes do not change them.",
  ["inputs", "histories"], "any non-empty list of finite positions: all-negative, all-positive, subnormal, huge, single element, extreme at any index",
  "Two fixed position lists are tested.",
  ["modeler/write.go"],
  [("minMaxFloat32", "modeler/write.go")],
  ["Accessor.Min/Max"])

p("C24", "Embedded resources carry exactly their bytes",
  "EmbeddedResource turns any buffer data into a standard base64 data URI that is recognised as embedded and decodes, through any load, to exactly those bytes; Image.MarshalData returns exactly the bytes of a base64 PNG or JPEG data URI and an empty result without error for any other image URI. "
  "Invalid base64 content is reported as an error, never as wrong or partial data.",
  ["inputs"], "any byte content of any length, any corruption of the base64 text",
  "Tests use a few short strings.",
  ["gltf.go", "decoder.go", "encode.go"],
  [("EmbeddedResource/marshalData/MarshalData", "gltf.go")],
  ["Buffer.URI/Data", "Image.MarshalData"])

p("C25", "Re-saving a loaded file changes nothing further",
  "For every file the decoder accepts and the encoder can represent, saving the loaded document and loading it again gives an equivalent document (same properties and buffer bytes), and saving that again produces byte-identical output, in both glTF and GLB form. "
  "Repeated load/save cycles therefore never lose or drift data.",
  ["inputs", "histories"], "real-world files and arbitrary structural mutations of them that still load; any number of load/save cycles alternating formats",
  "Tests load the sample files and compare with expected structs, but never re-save them.",
  ["decoder.go", "encode.go", "gltf.go"],
  [("decode/encode composition", "decoder.go, encode.go")],
  ["Decode . Encode . Decode"])

p("C26", "Enumerations map one-to-one to glTF codes and names",
  "Each enumeration constant (component type, accessor type, buffer target, primitive mode, alpha mode, mag/min filter, wrapping mode, interpolation, animation path) encodes to its glTF 2.0 code and that code decodes back to the same constant, its String is the specification's name, its zero value is the glTF default, and byte sizes and component counts are those of the specification. "
  "No two constants share a code, and an accessor type that the specification does not define is rejected when decoding.",
  ["inputs"], "all constants and all 16-bit codes exhaustively, arbitrary strings",
  "The tests check a subset of the tables.",
  ["const.go", "const_strings.go"],
  [("code tables", "const.go"), ("String methods", "const_strings.go")],
  ["MarshalJSON/UnmarshalJSON/String/ByteSize/Components"])

p("C27", "Declared sizes alone never make a load or a read allocate memory",
  "Decoding a file, encoding what was decoded, and reading buffer views and accessors that refer to a buffer view allocate an amount of memory that is bounded by a constant (64 MiB) plus a fixed multiple of the bytes actually present in the file, its external files and the document's buffers. "
  "Lengths, counts, offsets and strides that are only declared - buffer.byteLength, the chunk and total lengths of a GLB, bufferView.byteLength, accessor and sparse counts - do not raise it, whether the operation succeeds or returns an error. (An accessor without a buffer view denotes count zeros and is excluded.)",
  ["inputs"], "every file and document whose declared sizes exceed the data that is there, up to the largest integers; streams cut anywhere",
  "Tests declare sizes of a few bytes; no test looks at memory.",
  ["decoder.go", "modeler/read.go", "binary/slice.go", "encode.go"],
  [("readN, Peek of the GLB header, JSON chunk limit", "decoder.go"), ("count check before MakeSliceBuffer", "modeler/read.go")],
  ["bytes allocated (runtime.MemStats.TotalAlloc) by Decode, Encode, modeler.Read*"])

p("C28", "Every file a load or save opens is closed when it returns",
  "Every file that Decode or Encode opens or creates in the given file system, and every file that Open, Save and SaveBinary open or create on disk, is closed by the time the call returns, whether it succeeds or fails at any point (a failed create, open, read, write or close, a damaged or missing file, a document that cannot be written), and no file is read from or written to after it was closed. "
  "The reader or writer that the caller gave to NewDecoder or NewEncoder is never closed.",
  ["fault_sequences", "inputs"], "every document with external files and every point of failure",
  "Tests use in-memory files whose Close does nothing and never look at open files.",
  ["encode.go", "decoder.go"],
  [("encodeBuffer, save", "encode.go"), ("Open, decodeBuffer", "decoder.go")],
  ["fs.FS / CreateFS implementations, /proc/self/fd"])

p("C29", "Typed writers accept exactly what their attribute allows and readers read",
  "WriteIndices accepts []uint16 and []uint32; WriteTextureCoord, WriteWeights, WriteJoints, WriteColor, and WritePrimitiveAttributes for POSITION, TEXCOORD_0, TEXCOORD_1, WEIGHTS_0, JOINTS_0 and COLOR_0, accept every slice type that glTF allows for the attribute (for colors also color.RGBA and color.RGBA64) and refuse every other type - the functions by panicking, WritePrimitiveAttributes with an error - without changing the document. "
  "Whatever one of the typed writers accepts, the typed readers of that attribute read back from the returned accessor with the values that were written (normalized and widened as the reader documents), also after saving and loading.",
  ["inputs", "histories"], "all slice types and contents, any order of calls on one document",
  "Tests try one or two wrong types per writer and never look at the document afterwards; writers and readers are tested apart.",
  ["modeler/write.go", "modeler/read.go"],
  [("checkTextureCoord, checkWeights, checkJoints, checkColor, WriteIndices", "modeler/write.go"), ("component and type checks of the Read functions", "modeler/read.go")],
  ["modeler.Write*, modeler.Read*"])

p("C30", "Documents share no mutable state with each other or the package",
  "Each document that Decode, Open or NewDocument returns, or that the modeler fills, is independent: changing anything reachable from it in place, or appending to its slices, changes neither another part of the same document, nor any other document loaded or created before or after, nor a package default such as DefaultMatrix, nor the input. "
  "In particular loading the same file again gives an equal document however the earlier result was changed, NewDocument always gives the same content, and buffers that refer to the same file hold their own bytes.",
  ["histories", "inputs"], "any history of loads, creations and in-place changes",
  "Tests load each document once and never change it.",
  ["gltf.go", "decoder.go", "encode.go", "modeler/write.go", "ext"],
  [("UnmarshalJSON defaults", "encode.go, gltf.go"), ("NewDocument, Float, Index", "gltf.go"), ("buffer data", "decoder.go"), ("bounds slices", "modeler/write.go")],
  ["gltf.Open, Decoder.Decode, gltf.NewDocument, modeler.Write*"])

p("C31", "Reads use the memory they are given and touch nothing around it",
  "When ReadAccessor is given a backing buffer, or a typed reader (ReadIndices, ReadPosition, ReadColor and so on) a destination slice, and it is long enough for the result, the result is stored there: the returned slice starts at its first byte. "
  "Whether or not it is long enough, and whether the read succeeds or fails, nothing is written to the caller's memory outside of the elements of the result and never beyond the capacity of the slice, also when it is a window of a larger piece of memory; the returned slice, up to its capacity, lies within that slice or is new memory, so that appending to it changes nothing else. "
  "Results returned earlier change only if the memory they are stored in is handed over again.",
  ["inputs", "histories"], "every accessor, every window of the caller's memory, any sequence of reads",
  "Tests pass nil or a slice of exactly the right length and look only at the result.",
  ["modeler/read.go", "binary/slice.go"],
  [("makeBufferOf, ReadAccessor, bufPool", "modeler/read.go"), ("MakeSliceBuffer, castSlice, reslice", "binary/slice.go")],
  ["modeler.Read* with a window of a larger array"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
