"""Which modules of the generated crate decide which property, and what that decides (DESIGN.md and MANIFEST.json are generated from this)."""
LIB = ["vio", "vf", "vbits"]
FL = LIB + ["fl"]
IO = ["unaligned_rw", "read_extension"]
FILE = FL + IO + ["tmf_importer", "tmf", "tmf_exporter", "mesh", "api", "theorems"]
CODEC = ["vertices", "uv", "normals", "tangents", "custom_data"]
# what differs in feature set b below the file level
LOW_B = FL + ["unaligned_rw", "utilis", "normals"]
MODULES = {
    "C01": {"a": LIB + ["unaligned_rw"], "b": LIB + ["unaligned_rw"]},
    "C02": {"a": FILE + ["vertices", "custom_data"], "b": LIB + ["unaligned_rw"]},
    "C03": {"a": FILE + CODEC},
    "C04": {"a": FILE + ["vertices"], "b": LIB + ["unaligned_rw"]},
    "C05": {"a": FILE + ["uv", "custom_data"], "b": LIB + ["unaligned_rw"]},
    "C06": {"a": FILE + ["uv", "normals", "tangents"], "b": LOW_B},
    "C07": {"a": FILE + CODEC, "b": LOW_B},
    "C08": {"a": FL + ["mesh", "utilis", "verify"], "b": FL + ["mesh", "utilis", "verify"]},
    "C09": {"a": FL + ["mesh", "utilis"], "b": FL + ["mesh", "utilis"]},
    "C10": {"a": FL + ["mesh", "utilis", "unify_data", "unify"], "b": FL + ["mesh", "utilis", "unify_data", "unify"]},
    "C13": {"a": FILE + ["vertices", "custom_data"]},
    "C14": {"a": FILE + CODEC},
    "C15": {"a": FILE + CODEC},
    "C16": {"a": FL + ["mesh", "utilis", "normals"], "b": FL + ["mesh", "utilis", "normals"]},
    "C17": {"a": FILE + CODEC + ["utilis"], "b": LOW_B},
}
# functions of those modules that the property does not rest on (a failure there is reported by the properties that do)
TRI = r"vertices::(save_triangles|read_triangles)"
VERT = r"vertices::(save_tmf_vertices|read_tmf_vertices|calc_prec)"
WRITE = r"(save_|write_|::encode|_to_encoding|UnalignedWriter|opt_|merge_segments|MeshSegIter|shortest_edge|find_best|calc_spilt|CustomData::write|::optimize)"
EXCEPT = {
    "C02": [VERT],
    "C04": [TRI],
    "C07": [WRITE],
    "C13": [VERT],
}
# level; proved: what the contracts establish; bounded: what only the bounded stand-in covers
NOTES = {
    "C01": {"level": "proof",
        "proved": "UnalignedWriter and UnalignedReader (src/unaligned_rw.rs): the writer's ghost bit sequence is exactly the concatenation of the low bits of all values written, in order, for every width 0..=64; flush/drop emit it as bytes padded with zeros; the reader returns the next bits of the bytes it was given and reports an error exactly when they run out; a write followed by a read of the same widths gives back the same values.",
        "bounded": "-"},
    "C02": {"level": "proof",
        "proved": 'save_triangles / read_triangles and their helpers (src/vertices.rs), custom index and integer segments (src/custom_data.rs): the bytes are a function of the indices, and reading them gives the identical sequence back, for every length and every 32-bit value. End to end (theorems.vx): write_tmf returning Ok means that the sink got exactly file_bytes of encoded segments whose parts, put together, are the mesh; read_tmf returning Ok means that the bytes are such a file; the format is unambiguous (theorem_file_det); theorem_roundtrip puts both together, and save_and_load is a program that saves, loads and proves the result from the two contracts. It gives: all four index arrays are equal, and custom index and integer arrays are equal.',
        "bounded": '-',
        "theorems": ['vertices::theorem_tri_roundtrip', 'custom_data::theorem_custom_roundtrip', 'theorems::theorem_roundtrip']},
    "C03": {"level": "proof",
        "proved": 'opt_tris and opt_vertices (concatenation of the pieces), merge_segments (with DecodedSegment::merge, SharedSegmentKind): the parts of the segments after merging put together the same mesh as before, MeshSegIter yields every array of the mesh exactly once; reading applies every segment in file order to its own array only. End to end (theorems.vx): write_tmf returning Ok means that the sink got exactly file_bytes of encoded segments whose parts, put together, are the mesh; read_tmf returning Ok means that the bytes are such a file; the format is unambiguous (theorem_file_det); theorem_roundtrip puts both together, and save_and_load is a program that saves, loads and proves the result from the two contracts. It gives, for however many segments: every array present before is present afterwards and no other, with its own elements, their number and their order; custom segments in order of addition. opt_vertices is verified too: its pieces concatenate to its input, it terminates, and its assertion cannot fail (assumed: division, log2 and ceil are monotone).',
        "bounded": '-',
        "theorems": ['theorems::theorem_file', 'theorems::theorem_roundtrip', 'tmf_importer::theorem_file_det']},
    "C04": {"level": "proof",
        "proved": 'save_tmf_vertices / read_tmf_vertices (src/vertices.rs), calc_shortest_edge: number and order of points kept; every coordinate within one step plus 40*2^-24 of the largest coordinate of the original; decoded coordinates leave the box by at most 20*2^-24 of it; the step is at most 2*precision*edge*(1+5e-6)+1e-30 or the 63-bit limit, where edge is the shortest non-zero edge that calc_shortest_edge found. End to end (theorems.vx): write_tmf returning Ok means that the sink got exactly file_bytes of encoded segments whose parts, put together, are the mesh; read_tmf returning Ok means that the bytes are such a file; the format is unambiguous (theorem_file_det); theorem_roundtrip puts both together, and save_and_load is a program that saves, loads and proves the result from the two contracts. It gives verts_back for every axis and every box that contains the mesh. Ranges: extent <= FMAX/2, |coordinate| <= FMAX/4; the statement about the step needs precision in 1e-5..1e5 and edge >= 1e-25 of the extent.',
        "bounded": '-',
        "theorems": ['vertices::theorem_vx_roundtrip', 'vertices::theorem_vx_step', 'theorems::theorem_roundtrip']},
    "C05": {"level": "proof",
        "proved": 'save_uvs / read_uvs (src/uv.rs), custom float and colour segments: number kept, each component in 0..1 (each finite custom float) within one step plus rounding of the original, nothing wraps around; number of bits from the precision asked for. End to end (theorems.vx): write_tmf returning Ok means that the sink got exactly file_bytes of encoded segments whose parts, put together, are the mesh; read_tmf returning Ok means that the bytes are such a file; the format is unambiguous (theorem_file_det); theorem_roundtrip puts both together, and save_and_load is a program that saves, loads and proves the result from the two contracts. It gives uv_back for every UV and cd_same for every custom segment.',
        "bounded": '-',
        "theorems": ['uv::theorem_uv_roundtrip', 'custom_data::theorem_custom_roundtrip', 'theorems::theorem_roundtrip']},
    "C06": {"level": "proof",
        "proved": 'save_normal_array / read_normal_array, save_tangents / read_tangents and the encoding of one normal in both trigonometry configurations: number and order kept, handedness kept exactly, sign of every component (z and x exactly, y up to 2e-6), |z| within 1/(2^b-1), angle around the z axis within 1/(2^b-1) of a right angle plus 2e-5, squared length 1 within 2e-5, no NaN; number of bits from the requested angle. End to end (theorems.vx): write_tmf returning Ok means that the sink got exactly file_bytes of encoded segments whose parts, put together, are the mesh; read_tmf returning Ok means that the bytes are such a file; the format is unambiguous (theorem_file_det); theorem_roundtrip puts both together, and save_and_load is a program that saves, loads and proves the result from the two contracts. It gives n_back for every normal and tangent and the handedness. Assumed: asin and sin_cos are within 1e-6, the fast sine within 4e-4.',
        "bounded": '-',
        "theorems": ['normals::theorem_norm_roundtrip', 'tangents::theorem_tan_roundtrip', 'theorems::theorem_roundtrip']},
    "C07": {"level": "proof",
        "proved": 'read_tmf, read_tmf_one and their asynchronous forms and every function of this crate that they call are verified without any precondition on the bytes: no panic, no overflow, no index out of bounds, no unreachable code, no uninitialised element is read (MaybeUninit has a contract that says which elements were written); lengths above MAX_SEG_SIZE and bit widths that cannot exist give an error (postconditions of the segment readers). All loops and recursions terminate.',
        "bounded": '-',
        "theorems": ['tmf_importer::theorem_file_det']},
    "C08": {"level": "proof",
        "proved": "TMFMesh::verify and everything it calls (src/verify.rs, utilis::magnitude): Ok implies valid (every index array has its data array and stays inside it, UVs in 0..1, normals finite with squared length within 0.99799..1.00201); meshes that satisfy the same with squared length in 0.99803..1.00199 and fewer than 2^32 elements per array give Ok; a lemma derives that the expanded buffers exist. The check takes &self, so it cannot change the mesh (no interior mutability in TMFMesh).",
        "bounded": "-"},
    "C09": {"level": "proof",
        "proved": "TMFMesh::reorder_data and utilis::optimize_triangle_indices: for indices in bounds the new pair expands to the identical sequence, equal indices stay equal, elements are numbered in order of first use, every element is used; tangents and custom data unchanged (frame).",
        "bounded": "-"},
    "C10": {"level": "proof",
        "proved": "TMFMesh::unify_index_data and everything it calls (src/unify_data.rs: unfiy_data_common, merge_data_2/3/4, is_merge_needed, smart_merge_data_2/3/4), for every subset of attributes, every number of indices up to 2^32-1 and index arrays of equal length in bounds: theorem_shared (all attributes with data and indices have one identical index array), theorem_same_buffers (every expanded buffer is what it was; attributes without data or indices and custom data are left as they were; every number below the number of elements is used), numbers (numbered in order of first appearance of the combination), theorem_unify_det (there is only one such result, so it does not depend on the hash map's order), theorem_unify_twice (idempotent). No panic, no overflow, no index out of bounds.",
        "bounded": "-",
        "theorems": ["unify_data::theorem_numbers", "unify::theorem_shared", "unify::theorem_same_buffers", "unify::theorem_unify_det", "unify::theorem_unify_twice"]},
    "C11": {"level": "other", "proved": "", "bounded": "all of it so far."},
    "C12": {"level": "other", "proved": "", "bounded": "all of it so far."},
    "C13": {"level": "proof",
        "proved": 'add_custom_data (Ok iff 1..=255 bytes, right error, mesh unchanged on error), lookup_custom_data (first entry under exactly that name), CustomDataSegment::new/encode/read. End to end (theorems.vx): write_tmf returning Ok means that the sink got exactly file_bytes of encoded segments whose parts, put together, are the mesh; read_tmf returning Ok means that the bytes are such a file; the format is unambiguous (theorem_file_det); theorem_roundtrip puts both together, and save_and_load is a program that saves, loads and proves the result from the two contracts. It gives: custom segments come back in the same number and order, with the same name, name length, kind and number of elements, so that lookup_custom_data, which is a function of these, finds the same entry.',
        "bounded": '-',
        "theorems": ['custom_data::theorem_custom_roundtrip', 'theorems::theorem_roundtrip']},
    "C14": {"level": "proof",
        "proved": 'End to end (theorems.vx): write_tmf returning Ok means that the sink got exactly file_bytes of encoded segments whose parts, put together, are the mesh; read_tmf returning Ok means that the bytes are such a file; the format is unambiguous (theorem_file_det); theorem_roundtrip puts both together, and save_and_load is a program that saves, loads and proves the result from the two contracts. It gives: the same number of meshes in the same order under the same names with the same arrays. theorem_prefix: no strict prefix of a file is a file, and read_tmf returns Ok only for files. theorem_unknown_seg, theorem_skipped: segments of unknown type change nothing. file_at covers both header layouts (2-byte kinds and 8-byte lengths up to version 0.1). NotTMFFile and NewerVersionRequired, NoMeshes and TooManyMeshes are postconditions of read_tmf and read_tmf_one.',
        "bounded": '-',
        "theorems": ['theorems::theorem_file', 'theorems::theorem_prefix', 'theorems::theorem_unknown_seg', 'theorems::theorem_skipped', 'theorems::theorem_roundtrip', 'tmf_importer::theorem_file_det']},
    "C15": {"level": "other",
        "proved": "TMF: write_tmf returning Ok means that the sink accepted all bytes of the file, a sink that fails at any point makes it return Err without a panic (the sink's contract allows failure at any call); a reader that fails gives Err, and the result is described by the bytes alone, not by how they arrive. Assumed: write_all and read_exact do what std documents for short and interrupted transfers.",
        "bounded": 'OBJ writing (obj/export.rs is not under contract); equality of float results for differently chunked readers.',
        "theorems": ['theorems::theorem_file']},
    "C16": {"level": "proof",
        "proved": "all set_*, get_*, append_*, get_*_buffer, normalize and empty of TMFMesh: value returned, new contents, frame over every other array; normalize: every normal with squared length in 0.01..1e6 becomes a finite vector of length one in the same direction, zero stays zero.",
        "bounded": "-"},
    "C17": {"level": "proof",
        "proved": 'write_tmf has no panic, overflow or failing obligation for any mesh whose vertex indices are inside its vertex array (which verify guarantees, and which holds for meshes without triangles), for any coordinates including NaN and infinities, any index count and every precision setting (bits <= 63, which all constructors guarantee), and returns Err on an infallible sink only if a name is longer than 65535 bytes or the mesh cannot be represented (more than 65535 segments or a segment of more than MAX_SEG_SIZE bytes: oversize). theorem_loads: the file that was written is one that read_tmf accepts, for arrays of at most MAX_SEG_SIZE elements and up to 2^32-1 meshes. opt_vertices terminates without a panic (assumed: division, log2 and ceil are monotone; the depth of its recursion, about 765 ln n, fits the stack).',
        "bounded": '-',
        "theorems": ['theorems::theorem_loads']},
    "C18": {"level": "other", "proved": "", "bounded": "all of it so far."},
}
for n in NOTES.values():
    n["explanation"] = ("Proved by contracts: " + n["proved"] if n["proved"] else "Nothing proved yet.") + (" Bounded only: " + n["bounded"] if n["bounded"] != "-" else "")
    n["assumptions"] = ["floats behave as stated in contracts/lib_float.vx", "std functions behave as their assumed contracts say (coverage.trusted_base)",
                        "the extraction rewrites (coverage.rewrites) keep the meaning"]
