#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

LIB = ["ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs", "ssbh_lib/src/strings.rs", "ssbh_lib/src/enums.rs",
       "ssbh_lib/src/vectors.rs"]
FMT = ["ssbh_lib/src/formats/%s.rs" % f for f in "adj anim hlpb matl mesh meshex modl nlst nrpd nufx shdr skel".split()]
WR = ["ssbh_write/src/lib.rs", "ssbh_write_derive/src/lib.rs"]
DATA = ["ssbh_data/src/lib.rs", "ssbh_data/src/mesh_data.rs", "ssbh_data/src/mesh_data/mesh_attributes.rs",
        "ssbh_data/src/mesh_data/vector_data.rs", "ssbh_data/src/anim_data.rs", "ssbh_data/src/anim_data/buffers.rs",
        "ssbh_data/src/anim_data/compression.rs", "ssbh_data/src/anim_data/bitutils.rs", "ssbh_data/src/matl_data.rs",
        "ssbh_data/src/skel_data.rs", "ssbh_data/src/modl_data.rs", "ssbh_data/src/hlpb_data.rs",
        "ssbh_data/src/adj_data.rs", "ssbh_data/src/meshex_data.rs", "ssbh_data/src/shdr_data.rs"]
CLI = ["ssbh_lib_json/src/main.rs", "ssbh_lib_json/src/lib.rs", "ssbh_data_json/src/main.rs"]

p("S01", "Loading does not depend on how the stream delivers its bytes",
  "For any file content, intact or damaged, and any of the readers (the any-type reader, each typed reader, the high-level data readers, and the pointer, array, string and enum building blocks), the outcome is the same however the caller's stream delivers the bytes: in one piece, in arbitrarily short reads, or with interrupted calls in between. The value is identical in every observable respect (including what it saves back to), and a load that fails with the whole content fails with any delivery of it.",
  ["schedules", "inputs", "fault_sequences"],
  "every content x every reader x every split of each read into short deliveries x every placement of EINTR",
  "All tests read from an in-memory cursor that always satisfies a read completely and is never interrupted; the number of ways a stream may split a file is exponential in its length.",
  LIB + FMT + DATA,
  [("binrw read_exact-based primitive reads", "ssbh_lib/src/lib.rs: read_le / BinRead impls"),
   ("byte buffer read via take + read_to_end", "ssbh_lib/src/arrays.rs: read_byte_buffer"),
   ("null-terminated string loop", "ssbh_lib/src/strings.rs: CString::read_options"),
   ("until_eof index buffer", "ssbh_lib/src/formats/adj.rs: Adj::index_buffer")],
  ["return value of read()", "bytes of write() of the returned value"])

p("S02", "A read fault never passes as data",
  "If from some point of a load on the stream's operations fail for good, or the content ends early, the load returns an error; and whatever operations fail, once or for good, it never panics and never returns a value other than the one the complete content holds (the trailing index list of an adjacency file, which has no stored length, is the one thing an early end may shorten, always to a prefix). Loading the same content again from a healthy stream then gives the full value.",
  ["fault_sequences", "crash_points", "inputs"],
  "every value of every format x every reader x each stream operation (read, seek, position query) failing, once or from then on, or the content ending there",
  "Tests feed complete, always-successful cursors; no test makes a reader fail, and the failure can hit any one of hundreds of operations per load.",
  LIB + FMT + DATA,
  [("? propagation through nested pointer/array reads", "ssbh_lib/src/lib.rs, ssbh_lib/src/arrays.rs: read_options"),
   ("short byte buffer detection", "ssbh_lib/src/arrays.rs: read_byte_buffer"),
   ("error conversion to the public error types", "ssbh_lib/src/lib.rs: ReadSsbhError; ssbh_data/src/lib.rs: SsbhData::read"),
   ("until_eof stops only on end of file", "ssbh_lib/src/formats/adj.rs")],
  ["return value of read()"])

p("S03", "Saved bytes do not depend on how the stream accepts them",
  "For every value that can be saved, the bytes in the destination are the same whether the destination accepts each write whole, accepts arbitrarily short pieces, or interrupts calls, and the same through the any-type writer, the typed writer and the write-to-path function. Saving succeeds under every such delivery exactly when it succeeds on a perfect destination.",
  ["schedules", "inputs", "fault_sequences"],
  "every value of every format and version x every split of each write into short acceptances x every placement of EINTR x both write paths (direct and buffered to a path)",
  "Tests write only to an in-memory cursor that accepts everything at once.",
  LIB + FMT + WR + DATA,
  [("write_all-based primitive writes", "ssbh_write/src/lib.rs: SsbhWrite impls"),
   ("data pointer arithmetic separate from stream accounting", "ssbh_lib/src/lib.rs: write_rel_ptr_aligned_specialized"),
   ("buffered single write to a path", "ssbh_lib/src/lib.rs: write_buffered"),
   ("back-patched file length", "ssbh_lib/src/formats/meshex.rs: MeshEx::ssbh_write")],
  ["destination bytes", "return value of write()"])

p("S04", "A write fault is always reported and leaves the value intact",
  "If any operation on the destination stream fails for good while saving - an error, no space left, a write accepting zero bytes, a failed seek - the save returns an error and never panics; whenever it returns success the destination holds the complete image. A failed save does not change the value: saving it again to a healthy destination gives exactly the bytes a first save would have given.",
  ["fault_sequences", "crash_points", "inputs"],
  "every value x every operation of the save failing (once or from then on), each error kind, and every capacity at which a full disk can appear",
  "No test makes a writer fail; each save is hundreds of seek and write calls, any of which can be the one that fails.",
  LIB + FMT + WR + DATA,
  [("? propagation in derived writers", "ssbh_write_derive/src/lib.rs"),
   ("? propagation in pointer/array writers", "ssbh_lib/src/lib.rs, ssbh_lib/src/arrays.rs"),
   ("conversion before any output", "ssbh_data/src/lib.rs: SsbhData::write")],
  ["return value of write()", "destination bytes", "value after the failed save"])

p("D01", "Raw files survive save, crash and reload without loss",
  "Any value of any file type and version representable in the low-level library, saved successfully and reloaded after the process closed, crashed or restarted any number of times, is equal to the original in every field and by its own equality, and saving the reloaded value produces byte for byte the same file. This also holds for user-defined types built from the provided pointer, array, string, enum and alignment building blocks and the derive macro.",
  ["inputs", "histories", "crash_points"],
  "every value of the ten SSBH types, MeshEx, Adj and derived composites (nesting, alignment, nulls, empties, sizes across internal batch limits) x histories of save, replace, crash, restart and reload on one store",
  "Unit tests check hand-written byte strings for a few small layouts; the nesting of pointers, alignments and lengths is unbounded.",
  LIB + FMT + WR,
  [("relative offset and alignment computation", "ssbh_lib/src/lib.rs: write_rel_ptr_aligned_specialized; ssbh_lib/src/arrays.rs: write_array_header"),
   ("derived struct/enum layout (size_in_bytes, align_after, pad_after)", "ssbh_write_derive/src/lib.rs"),
   ("tagged enum read/write", "ssbh_lib/src/enums.rs"),
   ("position restore after following a pointer", "ssbh_lib/src/lib.rs: RelPtr64/Ptr read_options"),
   ("batched element reads", "ssbh_lib/src/arrays.rs: read_elements")],
  ["from_file / read", "write_to_file / write"])

p("D02", "Models, skeletons, materials and the like survive save and reload",
  "Every mesh, skeleton, material, model, helper-bone, adjacency and extended-mesh value within the documented limits is saved, in any version the library documents as writable, and whatever is saved successfully reads back after any close, crash or restart - and again after any number of load-and-save generations - with the same content: names, order, topology, indices, flags and parameters exactly, vertex data exactly or within the precision of the component type that version stores (half float, or 8-bit for colours). Only what the library documents as recalculated or not stored by that version may differ.",
  ["inputs", "histories", "crash_points"],
  "every savable value x version (mesh 1.8, 1.9, 1.10; material 1.5, 1.6) x histories of save, edit, replace, crash and reload through files and streams",
  "Tests convert a few hand-picked values in memory; the space of attribute sets, influences, parameter mixes and their interactions across generations is unbounded.",
  [f for f in DATA if "anim" not in f and "shdr" not in f],
  [("vertex buffer layout, strides and offsets", "ssbh_data/src/mesh_data.rs, ssbh_data/src/mesh_data/mesh_attributes.rs"),
   ("component encoding", "ssbh_data/src/mesh_data/vector_data.rs"),
   ("rigging groups", "ssbh_data/src/mesh_data.rs: create_rigging_groups / read_rigging_data"),
   ("parameter grouping by type and back", "ssbh_data/src/matl_data.rs"),
   ("index buffer sections", "ssbh_data/src/adj_data.rs"),
   ("group/entry indices", "ssbh_data/src/meshex_data.rs")],
  ["SsbhData::write_to_file / from_file / read / write"])

p("D03", "Animations survive save and reload within the stored precision",
  "Every animation value within the documented limits is saved, in either writable version, and whatever is saved successfully reads back after any close, crash or restart - and again after any number of load-and-save generations - with the same groups, nodes, tracks, names, flags, transform flags and number of frames (a track whose frames are all equal may come back as a single frame), with uncompressed tracks, booleans and single-frame tracks exact and every compressed component (of finite values with a finite range) within a small fraction of that component's value range. Unit rotations come back as the same rotation, including the sign of the component that is not stored.",
  ["inputs", "histories", "crash_points"],
  "every track type x frame count x value distribution (constant, partly constant, wide and narrow ranges, special values) x scale options x version, over histories of save, edit, replace, crash and reload",
  "Tests cover a few fixed tracks; bit widths, per-component ranges, default fallbacks and the choice of encoding interact per track and the bit stream has no redundancy that would reveal a slip.",
  ["ssbh_data/src/anim_data.rs", "ssbh_data/src/anim_data/buffers.rs", "ssbh_data/src/anim_data/compression.rs", "ssbh_data/src/anim_data/bitutils.rs"],
  [("encoding choice", "ssbh_data/src/anim_data.rs: infer_optimal_compression_type"),
   ("bit packing", "ssbh_data/src/anim_data/bitutils.rs"),
   ("quantisation", "ssbh_data/src/anim_data/compression.rs"),
   ("track headers and defaults", "ssbh_data/src/anim_data/buffers.rs")],
  ["AnimData::write_to_file / from_file / read / write"])

p("D04", "What a reader accepts reloads unchanged after it is saved",
  "Whenever the low-level readers accept a file, including one another tool wrote or one damaged in storage, saving the loaded value reports an error or succeeds, and reloading that save gives an equal value; from then on the file is a fixed point: every further load-and-save generation reproduces it byte for byte. For the high-level readers, saving what they accepted either succeeds or returns an error, and what was saved can always be loaded again with the same structure.",
  ["inputs", "histories", "fault_sequences"],
  "every accepted content (valid images with flipped, torn, swapped, duplicated or zeroed bytes, or foreign layouts: shared, reordered or unaligned pointees) x generations",
  "Round-trip tests start from values the library made itself; accepted inputs with other layouts are never sampled, and a whole-archive comparison tool exists precisely because tests cannot cover this.",
  LIB + FMT + DATA,
  [("version and tag recovery on write", "ssbh_lib/src/lib.rs: Versioned, Version"),
   ("enum tags and nested pointers", "ssbh_lib/src/enums.rs"),
   ("count recomputation on write", "ssbh_lib/src/arrays.rs, ssbh_lib/src/formats/meshex.rs, ssbh_lib/src/formats/adj.rs"),
   ("conversion errors instead of silent loss", "ssbh_data/src/*.rs: TryFrom impls")],
  ["read -> write -> read"])

p("D05", "A value beyond the documented limits is refused, never written",
  "Saving a high-level value that the library documents as not storable - an unsupported mesh, material or animation version, attribute lists of different lengths, a vertex index at or beyond the vertex count, an index count that is not a multiple of three, a skin weight index beyond the version's limit, a repeated mesh name and subindex, a cycle of parent bones, a parent index or mesh object index too large for its field, a negative, undefined or too small final frame index - or a low-level extended mesh whose entry and entry-flag counts differ, returns an error wherever in the value the fault lies, whether it is saved to a stream or to a path, and however the destination behaves; it never panics, loops or writes over the last good file. The same value without the fault then saves and reads back as if the failed save had not happened.",
  ["inputs", "histories", "fault_sequences"],
  "every savable value x every documented limit x the place in the value where it is exceeded x stream and path destinations over an earlier good save",
  "Tests break each limit once, in a value of one element; where the check is made, in what order, and what is lost when it fails late depends on the rest of the value.",
  [f for f in DATA if "shdr" not in f] + ["ssbh_lib/src/formats/meshex.rs"],
  [("mesh validation", "ssbh_data/src/mesh_data.rs: validate_mesh_object_subindices, vertex_count, create_mesh_objects, create_vertex_weights_v10"),
   ("bone cycles", "ssbh_data/src/skel_data.rs: calculate_world_transform"),
   ("versions", "ssbh_data/src/*.rs: UnsupportedVersion"),
   ("final frame index", "ssbh_data/src/anim_data.rs: create_anim"),
   ("entry counts", "ssbh_lib/src/formats/meshex.rs: ssbh_write"),
   ("conversion before the file is touched", "ssbh_data/src/lib.rs: write_to_file")],
  ["SsbhData::write / write_to_file", "file content after the call"])

p("D06", "Files move between library versions unchanged",
  "A store outlives the library version that wrote it. A file saved by release 0.19.0 (the pinned version, with the defects reported in known_findings.txt repaired) loads in the current version with the same type, version, names, order, fields, flags and numbers (up to rounding), and a file saved by the current version loads the same in that release. The low-level image of a value is byte for byte the same in both, the stored form of a high-level value is the same up to rounding, and no value the release can save is refused by the current version. JSON of a value is the same in both and either reads what the other wrote. This holds for every file type and version, for user-defined types built from the building blocks and the derive macro, however often a store goes back and forth between the two versions and whatever crashes and restarts lie in between, and content laid out by other tools or damaged in storage that both accept reads the same in both.",
  ["histories", "inputs", "fault_sequences"],
  "every value and file type x every order of upgrade, downgrade, load, save, crash and restart between the two versions x layouts and damage of the files they exchange",
  "Tests read and write with one version: a change made alike to reader and writer (an enum constant, a field order, an alignment, a default, a name in JSON) passes every round trip, and a few fixed images pin only the fields they hold.",
  LIB + FMT + WR + DATA,
  [("field order, alignment and pointers", "ssbh_write/src/lib.rs, ssbh_write_derive/src/lib.rs"),
   ("enum constants, tags and versions", "ssbh_lib/src/formats/*.rs"),
   ("string, array and buffer encodings", "ssbh_lib/src/strings.rs, ssbh_lib/src/arrays.rs"),
   ("attribute and track encodings", "ssbh_data/src/mesh_data/*.rs, ssbh_data/src/anim_data/*.rs"),
   ("JSON names and forms", "serde attributes of ssbh_lib and ssbh_data")],
  ["read / write / from_file / write_to_file of both versions on one store", "serde_json of both versions"])

p("F01", "Writing to a path is complete or reported, and never leaves stale data",
  "When writing to a path returns success, the file holds exactly the complete image - nothing of a longer previous file remains - and reading the path returns the saved value, whatever short writes or interruptions the file system imposed; when opening, reading or writing the file fails for good, the call returns an error. When the value itself cannot be saved, the call returns an error and a previously existing file at that path is left as it was; reading a path never modifies it, and no other file is changed.",
  ["fault_sequences", "histories", "inputs"],
  "every value and format x prior file state x every sequence of results of the open, write, size, seek and close calls (short, EINTR, EIO, ENOSPC, EACCES) on the save or load",
  "Tests never touch files, let alone failing ones.",
  ["ssbh_lib/src/lib.rs", "ssbh_data/src/lib.rs"],
  [("truncating create, buffered image, single write_all", "ssbh_lib/src/lib.rs: write_to_file, write_buffered"),
   ("whole file read", "ssbh_lib/src/lib.rs: from_file"),
   ("conversion before the file is touched", "ssbh_data/src/lib.rs: write_to_file")],
  ["file system calls", "file content after the call", "return values"])

p("F02", "A save torn by a crash is never mistaken for a complete file",
  "If the process or machine dies at any point while a file is being written or replaced, then after restart loading that path either fails with an error or returns exactly the old or exactly the new value - never a third one, and never a panic; saving again then succeeds and reads back in full. (An adjacency file stores no length, so its trailing index list may come back as a prefix of the new one.)",
  ["crash_points", "histories", "inputs"],
  "every value and format x prior file state x every point (including inside a single write) at which the save can stop, with completed but unsynced operations surviving up to any point",
  "No test interrupts a save; each save has as many torn states as it has bytes.",
  ["ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs", "ssbh_data/src/lib.rs"] + FMT,
  [("bounds and end-of-file checks when following offsets", "ssbh_lib/src/arrays.rs, ssbh_lib/src/lib.rs"),
   ("single buffered write of the image", "ssbh_lib/src/lib.rs: write_buffered")],
  ["from_file after restart"])

p("R01", "Damaged content cannot crash, hang or exhaust the loader",
  "No content, however damaged or hostile, makes a low-level or high-level reader panic, abort, overflow its stack or loop: every load ends with a value or an error after work and memory in proportion to the content, apart from a fixed preallocation allowance, so that no single count, size or offset field can demand resources the bytes behind it do not back. The same goes for saving whatever such a load returned.",
  ["inputs", "fault_sequences"],
  "every byte string, reached by storage faults (bit flips, torn, lost, misplaced, duplicated or stale sectors, truncation) on valid images of every format and by raw values with hostile fields",
  "Tests parse well-formed bytes and a few hand-made bad offsets; the damage space is the set of all byte strings.",
  LIB + FMT + DATA,
  [("checked offset addition", "ssbh_lib/src/lib.rs: absolute_offset_checked"),
   ("bounded initial capacity", "ssbh_lib/src/arrays.rs: SSBH_ARRAY_MAX_INITIAL_CAPACITY, SSBH_BYTE_BUFFER_MAX_INITIAL_CAPACITY"),
   ("buffer accesses as checked reads", "ssbh_data/src/mesh_data.rs, ssbh_data/src/anim_data/buffers.rs, ssbh_data/src/shdr_data.rs, ssbh_data/src/adj_data.rs")],
  ["return value, panics, allocation sizes, step counts of read() and of write() of its result"])

p("R02", "A misdelivered or mislabelled file is rejected, never misread",
  "A typed reader given a file of another type - because a store returned the wrong file, or the type tag was damaged - returns an error, and the any-type reader returns the type the tag names or an error. Content whose magic, type tag or version is not one the library supports is rejected by every reader of that family, and a saved file always carries the magic, type tag and version of the value it was saved from.",
  ["inputs", "fault_sequences", "configurations"],
  "every value of every format and version x every typed reader x every substitution or damage of the signature, tag and version fields",
  "Tests never open one type as another; the tag x reader x version product is only reachable by generation.",
  ["ssbh_lib/src/lib.rs", "ssbh_data/src/lib.rs"] + FMT,
  [("magic and tag dispatch", "ssbh_lib/src/lib.rs: SsbhFile, Ssbh"),
   ("typed reader check", "ssbh_lib/src/lib.rs: ssbh_read_write_impl! / InvalidSsbhType"),
   ("version gating", "ssbh_lib/src/formats/*.rs: pre_assert; ssbh_lib/src/lib.rs: Version")],
  ["return value of read()", "header bytes of a save"])

p("N01", "Results depend only on the input, never on process state",
  "Loading given bytes and saving a given value produce the same value, the same bytes or the same error in every process, whatever that process loaded or saved before - including calls that failed - whatever its hash seeds, memory layout, clock and standard streams, and however often the call is repeated.",
  ["histories", "configurations", "schedules"],
  "every sequence of prior successful and failing operations x every hash seed x every operation of both libraries",
  "Tests run each operation once from a fresh state in a process with one random hash seed, and compare nothing across runs.",
  DATA + LIB,
  [("no shared mutable state", "ssbh_lib, ssbh_data: no statics or caches"),
   ("sorted rigging groups, order-independent use of hash maps", "ssbh_data/src/mesh_data.rs: create_rigging_groups, calculate_max_influences"),
   ("track grouping", "ssbh_data/src/anim_data/buffers.rs: read_groups_v12")],
  ["value and bytes digests across processes"])

p("N02", "Concurrent callers do not affect each other",
  "When several threads load and save at the same time - different values or the same shared value, on different streams - each call returns exactly what it would have returned alone, whatever the interleaving, and every call completes within a bounded number of its own steps once it is allowed to run, even when another call fails or its stream stalls for ever.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of the calls at basic-block, allocation and stream-operation granularity x faults and stalls on some of the streams",
  "All tests are single-threaded; interleavings are not controlled or compared.",
  LIB + DATA,
  [("no shared mutable state or locks", "ssbh_lib, ssbh_data: no statics or caches"),
   ("values are only borrowed for saving", "ssbh_lib/src/lib.rs: write(&self); ssbh_data/src/lib.rs: SsbhData::write(&self)")],
  ["per-call result and bytes", "progress of each thread"])

p("J01", "Binary to JSON to binary restores the file",
  "Converting a file to JSON with a command line tool and the JSON back restores it: for the low-level tool byte for byte, for the high-level tool exactly what loading and saving the file with the library gives, for every file saved by the library whose strings are text and whose floats are finite. This holds when output names are given or derived, when the output already exists, and whatever clock steps, short transfers and interruptions the tools meet.",
  ["inputs", "histories", "fault_sequences"],
  "every value of every supported type and version x explicit or derived output path x previous output present or not x short reads/writes, EINTR and clock jumps at every system call",
  "The tools have no tests of their own conversions; JSON field coverage and type guessing across twelve types are only reachable by generation.",
  CLI + FMT + DATA,
  [("type guess by trying each deserialiser", "ssbh_lib_json/src/main.rs: read_json_write_data; ssbh_data_json/src/main.rs: main"),
   ("serde representations, hex byte buffers", "ssbh_lib/src/arrays.rs, ssbh_lib/src/strings.rs"),
   ("extension dispatch", "ssbh_lib_json/src/main.rs: main, ssbh_data_json/src/main.rs: main")],
  ["files after the tools ended"])

p("J02", "A conversion tool never fails silently or harms its input",
  "Whatever file operation fails, at whatever point a conversion tool is killed, and whatever damaged or unconvertible content it is given, the tool leaves its input file unchanged and creates no file other than its output; and whenever it exits successfully without reporting an error, the output exists and is complete and correct. A run after the fault is gone, or after the crash, converts correctly.",
  ["fault_sequences", "crash_points", "inputs"],
  "every conversion x every system call failing (once or from then on) or being the last one before a crash x damaged inputs",
  "No test runs the tools, let alone on a failing disk.",
  CLI,
  [("error reporting", "ssbh_lib_json/src/main.rs, ssbh_data_json/src/main.rs: expect/unwrap/eprintln"),
   ("output created only after the input was converted", "ssbh_lib_json/src/main.rs: write_json, write_data")],
  ["exit status and stderr", "files after the tool ended"])

# -- properties that matter but have no schedule, clock, fault or history in them (not claimed)
p("X01", "Skeleton world transforms compose parent transforms and detect cycles",
  "The world transform of a bone is the product of its ancestors' transforms in order, and any parent cycle is reported as an error instead of looping.",
  ["inputs"], "every skeleton, including cyclic parent links", "Tests use a few fixed skeletons.",
  ["ssbh_data/src/skel_data.rs"], [("parent walk with cycle check", "ssbh_data/src/skel_data.rs: calculate_world_transform")])
p("X02", "Bounding volumes enclose every vertex",
  "The bounding sphere, axis-aligned box and oriented box stored with a mesh enclose all its vertices.",
  ["inputs"], "every set of vertex positions", "Tests use a few point sets.",
  ["ssbh_data/src/mesh_data.rs"], [("bounding calculation", "ssbh_data/src/mesh_data.rs: calculate_bounding_info")])
p("X03", "Vector transforms and normal/tangent generation follow their definition",
  "Transforming points and vectors applies the matrix with and without translation respectively, and generated normals, tangents and binormals are consistent with positions, texture coordinates and topology.",
  ["inputs"], "every matrix, vertex list and topology", "Tests use fixed small meshes.",
  ["ssbh_data/src/mesh_data.rs", "ssbh_data/src/mesh_data/vector_data.rs"], [("geometry helpers", "ssbh_data/src/mesh_data.rs: transform_points, transform_vectors, calculate_smooth_normals")])
p("X04", "Generated adjacency lists match the mesh topology",
  "The adjacency generated for a mesh lists, for each vertex, the other two vertices of every incident triangle, padded with -1 to the fixed width.",
  ["inputs"], "every triangle list", "Tests use a few triangles.",
  ["ssbh_data/src/adj_data.rs"], [("adjacency generation", "ssbh_data/src/adj_data.rs: triangle_adjacency")])
p("X05", "Saved images follow the documented offset and alignment rules",
  "Pointees are laid out after their containers in declaration order at the documented alignment, and empty arrays and null pointers store a zero offset.",
  ["inputs"], "every value", "Tests compare a few fixed layouts.",
  ["ssbh_offsets.md", "ssbh_lib/src/lib.rs", "ssbh_lib/src/arrays.rs"], [("offset computation", "ssbh_lib/src/lib.rs: write_rel_ptr_aligned_specialized")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
