#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run from anywhere)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusted: the Go toolchain, encoding/json, rapid, and the oracle named here. Nothing outside the generated space is covered."
T = {
    "C01": ("property-based round trip against an independent model of the document", "Random documents over every glTF object and property; the loaded document must denote the same JSON (independent vocabulary table) and hold the same buffer bytes; indentation compared byte by byte after removing white space."),
    "C02": ("property-based round trip and differential glTF vs GLB", "As C01 through the binary container, plus equality of what both forms load to."),
    "C03": ("property-based test against an independent strict GLB parser", "Every produced container is parsed by a parser written from the GLB specification; header, chunk order, lengths, padding bytes and BIN presence are checked."),
    "C04": ("property-based test against a vocabulary table; independent JSON writer for the decoder", "The encoder's output is checked member by member against a table of the glTF 2.0 schema; the decoder reads texts written by an independent writer in random spellings."),
    "C05": ("grammar-based generation from the schema with presence/absence of every property", "Every optional property independently absent, set, set to its default or to a value that looks unset; Go fields compared with the table's defaults; OrDefault accessors compared and checked for purity."),
    "C06": ("property-based round trip and stateful registration histories", "Extensions and extras at every object kind, registered, failing and unregistered; a model of the registry predicts each decoded value."),
    "C07": ("grammar-based round trip against the extensions' schemas", "Built-in extensions with every property present or absent, decoded, compared with the schema's defaults, saved, checked against the schema and loaded again; hand-built typed values likewise."),
    "C08": ("metamorphic test over reader chunkings", "One stream decoded whole and through readers that split it in random ways; equal documents and equal error-ness required; trailing bytes and JSON padding varied."),
    "C09": ("structure-aware fuzzing: byte and JSON-tree mutation, exhaustive truncation", "No panic, no hang, bounded memory on mutated streams; every strict prefix inside the needed bytes and every listed defect class must be rejected."),
    "C10": ("property-based round trip through recording and real file systems", "Random file names in random URI spellings; the names given to the file system, the bytes stored and the bytes loaded are compared with the model."),
    "C11": ("generation of hostile URIs against recording file systems and a scratch directory tree", "All names reaching the file system must be valid local io/fs names; on disk, nothing outside the document's directory in the scratch tree is read or changed."),
    "C12": ("fault enumeration over generated documents", "For each generated document every write, create, close, open and read point is failed in turn (all byte offsets for small outputs, sampled for large ones); the call must return an error."),
    "C13": ("property-based purity and determinism check with deep snapshots", "Deep copy before, structural comparison after; outputs of repeated encodes in random orders must be byte-identical; unrepresentable documents must write nothing."),
    "C14": ("property-based differential test against a byte-level reference codec", "Random bit patterns for all 42 encodings, arbitrary strides, counts, guard bytes and surplus; every byte of the buffer is predicted."),
    "C15": ("exhaustive table enumeration plus property-based buffer tests", "All component and accessor codes enumerated; random backing buffers, counts and capacities; memory identity and bounds checked."),
    "C16": ("stateful model-based testing of modeler write histories", "Random call sequences; every earlier result is re-read after the history, and after saving and loading; frame conditions on the document after each call."),
    "C17": ("property-based round trip of interleaved writes against the byte-level model", "Random slices of all types, random attribute sets incl. rejected ones; layout, stride, bounds and document frame checked."),
    "C18": ("property-based differential test against a reference accessor reader", "Accessors built byte by byte with stride, offsets, sparse parts or no view; read with every kind of backing buffer."),
    "C19": ("property-based differential test of each typed reader; exhaustive reader x encoding matrix", "Conversions computed independently in float64; all destinations; histories of reads; all unsupported encodings rejected. One known finding (ReadColor of 16-bit colors)."),
    "C20": ("structure-aware fuzzing of documents against a reference that decides validity", "Corrupted and arbitrary integers everywhere; the reference decides readable, malformed or unspecified; results must agree and only contain bytes of the view."),
    "C21": ("exhaustive enumeration of integer codes, property-based floats", "All 8/16-bit codes, random and adjacent floats; formulas evaluated in float64; truncation to the lower code is accepted for colors (documented by the existing tests)."),
    "C22": ("randomised concurrent histories under the race detector, differential against sequential runs", "Random operations on shared and private documents in 2-6 goroutines, with and without -race; results equal to the sequential ones, at return and at the end."),
    "C23": ("property-based test against exact bounds", "Random finite positions incl. negative zero, extremes and single points, before and after other writes."),
    "C24": ("property-based round trip against an independent base64 codec", "Random data and corrupted texts; an independent decoder classifies each text as valid, invalid or unspecified."),
    "C25": ("mutation of sample files and grammar-generated files through load/save cycles", "Structural edits of all sample files and generated files; equality of what successive loads denote and byte-identical second saves, formats alternating. One known finding (names that look percent-encoded)."),
    "C26": ("exhaustive enumeration of constants and 16-bit codes, property-based strings", "Codes, names, sizes and defaults compared with a table of the specification."),
    "C27": ("property-based test with an allocation bound as oracle", "Small files and documents whose declared lengths, counts, offsets and strides are 2^28 or more, cut anywhere; the bytes allocated by Decode, Encode and the readers stay below 64 MiB plus 2048 times the bytes present."),
    "C28": ("fault injection over generated documents with handle tracking", "A recording file system counts handles, closes and late uses under one fault at any operation; on disk the descriptors of the process below the scratch directory are listed after each call, with the collector off."),
    "C29": ("stateful property-based differential test of typed writers against typed readers", "Random slices of allowed, other supported and foreign types; refusals leave the document deeply equal; everything accepted is read by the attribute's readers and compared with independent conversions."),
    "C30": ("stateful property-based test with memory-disjointness and in-place mutation", "Histories of loads, new documents and modeler writes; all reachable memory (to capacity) must be disjoint, and after one document is overwritten everywhere the others, the defaults and later loads must be equal to their copies."),
    "C31": ("stateful property-based test with guarded memory windows", "Each read gets a random window of a larger array of noise, reused by later reads, also for damaged accessors; every byte outside of the result must keep its value, and the address and capacity of the returned slice are checked."),
}
checks = []
for pid, (tech, note) in T.items():
    checks.append(dict(property=pid, quick_cmd=f"python3 run.py {pid}", thorough_cmd=f"python3 run.py {pid}", evidence_file=f"evidence/{pid}.json",
                       technique=tech, level="fault_enumeration" if pid == "C12" else "exploration", level_note=note + TRUST))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: all checks use the exported API of the working tree through a replace directive. Findings: known_findings.txt. Design: DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
