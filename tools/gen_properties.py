#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so the JSON stays consistent).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
H=None
p("C01","Bit-packed streams read back exactly what was written",
 "Writing any sequence of values with any bit widths from 0 to 64 and then reading the same widths back, one at a time or through the pair, triple and single-bit readers, yields the same values (reduced to their width), however the underlying reader chops its bytes. The bytes produced are exactly the most-significant-bit-first concatenation of the values, zero-padded to a whole byte. Reading past the end of the data gives an error, never invented bits.",
 ["inputs","histories"],"all sequences of (width, value) pairs, all mixes of read calls, all splittings of the byte source into read() chunks",
 "The unit tests use a handful of fixed widths (3, 4, 8, 12, then 1..63 once, aligned from zero) with slice readers; they never reach most (bit offset, width) combinations, the paired reads at width 32 or above, or short reads.",
 ["src/unaligned_rw.rs"],[("UnalignedWriter::write_unaligned / Drop","src/unaligned_rw.rs"),("UnalignedReader::read_unaligned, read2, read3, read_pair, read_bit","src/unaligned_rw.rs")],
 ["tmf::unaligned_rw::UnalignedWriter","tmf::unaligned_rw::UnalignedReader"],
 [("pending bits","bits accepted but not yet in the byte sink / bits fetched but not yet consumed","UnalignedWriter.next_byte/written, UnalignedReader.current_byte/bits_read")])
p("C02","Index arrays survive saving and loading exactly",
 "Every index stored in a mesh (vertex, normal, UV and tangent triangles, and custom index and integer data) is read back from a saved file with exactly the same value, in the same position, with the same array length. This holds for every array length and every 32-bit index value, whatever maximum the caller declared for custom data.",
 ["inputs"],"all index arrays of any length with any 32-bit values",
 "Round-trip tests use one mesh (Suzanne, indices below a few thousand) and 0..1000; large values, precision boundaries (2^k-1, 2^k), odd lengths, non-zero minima and the 32-bit edge are not reached.",
 ["src/vertices.rs","src/tmf_importer.rs","src/tmf.rs","src/custom_data.rs"],[("calc_prec","src/vertices.rs"),("save_triangles/read_triangles","src/vertices.rs"),("read_default_triangles","src/tmf_importer.rs")],
 ["TMFMesh::write_tmf","TMFMesh::read_tmf","TMFMesh::get_*_triangles","CustomData::as_index/as_intiger"],None,H)
p("C03","Splitting and merging of segments loses nothing",
 "However the writer splits a mesh's arrays into several segments or shares one segment between several identical index arrays, reading the file back gives every attribute its own complete array: same elements, same order, same count, with no attribute gaining, losing or swapping data. Custom data segments come back in the order in which they were added.",
 ["inputs"],"all meshes within the format's limits whose vertex indices, if vertices are present, are in range; in particular index and vertex arrays whose local ranges make splitting profitable and meshes with equal index arrays",
 "Existing tests split one monotone array and compare one mesh's index arrays; they do not reach recursive splits, splits near the ends, descending arrays, shared segments combining different attributes, or several custom segments.",
 ["src/tmf_exporter.rs","src/tmf.rs","src/lib.rs"],[("opt_tris, opt_vertices","src/tmf_exporter.rs"),("merge_segments","src/tmf_exporter.rs"),("DecodedSegment::merge/optimize/apply","src/tmf.rs")],
 ["TMFMesh::write_tmf","TMFMesh::read_tmf"],None,H)
p("C04","Vertex positions come back within one quantisation step",
 "Every vertex coordinate read back from a saved mesh differs from the original by at most one quantisation step of its axis (plus floating-point rounding), and that step is at most twice the requested fraction of the shortest edge or the limit of the number format. Vertices keep their count and order, and no decoded coordinate leaves the bounding box of the saved vertices by more than rounding.",
 ["inputs","configurations"],"all arrays of finite vertices whose extent does not overflow, all positive precisions, any mesh shape including flat, single-point and degenerate ones",
 "The test saves a random cube-shaped cloud in [-1,1]^3 where every axis has almost the same range, so mix-ups between axes, tiny or huge extents, high precisions and the box edges never show.",
 ["src/vertices.rs","src/tmf_exporter.rs"],[("save_tmf_vertices","src/vertices.rs"),("read_tmf_vertices","src/vertices.rs"),("calc_shortest_edge","src/tmf_exporter.rs")],
 ["TMFMesh::write_tmf","TMFMesh::read_tmf","TMFMesh::get_vertices"],None,H)
p("C05","UVs, custom floats and colours come back within their precision",
 "Every UV coordinate or colour channel in the range 0 to 1, and every finite custom float, read back from a saved file differs from the original by at most one quantisation step (1/(2^bits-1) of the value range, plus floating-point rounding), where the number of bits is at least what the requested precision calls for. Counts, order and the assignment of channels are preserved, and no in-range value ever wraps around.",
 ["inputs","configurations"],"all values in range and all positive precisions, including ones finer than the float format can resolve",
 "Tests check a tolerance of 0.01 on random UVs at one precision and ten hand-picked floats; the end points 0 and 1, one-bit and very high precisions and empty or constant arrays are not covered.",
 ["src/uv.rs","src/custom_data.rs"],[("save_uvs/read_uvs","src/uv.rs"),("CustomData::write / CustomDataSegment::read","src/custom_data.rs")],
 ["TMFMesh::get_uvs","CustomData::as_float","CustomData::as_color_rgba"],None,H)
p("C06","Normals and tangents keep sign, order, handedness and direction",
 "Every normal or tangent accepted by the integrity check and saved at b bits is read back with no NaN, with the sign of every component that is not quantised to zero, with its tangent handedness, and with its |z| and its angle around the z axis each within one step (1/(2^b-1) of the unit range and of a right angle, plus rounding) of the original. Counts and order are preserved, and the decoded vector has length one up to the accuracy of the trigonometric functions used.",
 ["inputs","configurations"],"all unit vectors within the integrity check's tolerance, all precisions from 1 bit up, both trigonometry configurations",
 "Tests sample random directions at 13 and 14 bits and look at a cosine with loose tolerance; axis-aligned normals under fast_trig, lengths slightly above one and other precisions are not tested.",
 ["src/normals.rs","src/tangents.rs","src/utilis.rs"],[("normal_to_encoding/normal_from_encoding","src/normals.rs"),("save_tangents/read_tangents","src/tangents.rs")],
 ["TMFMesh::get_normals","TMFMesh::get_tangents"],None,H)
p("C07","Reading untrusted bytes never panics",
 "Reading any byte sequence as a TMF file ends with a list of meshes or with an error; it never panics, overflows, indexes out of bounds or exposes uninitialised memory (running out of memory aside). Declared lengths above the documented segment limit and bit widths that cannot exist are refused with an error.",
 ["inputs"],"all byte sequences of any length, including mutated valid files and headers of older format versions",
 "No test feeds malformed input at all; the repository's fuzz target is not part of the suite and cannot enumerate the input space.",
 ["src/tmf_importer.rs","src/tmf.rs","src/vertices.rs","src/uv.rs","src/normals.rs","src/tangents.rs","src/custom_data.rs","src/read_extension.rs"],
 [("decoders of every segment type","src/*.rs"),("MAX_SEG_SIZE and precision checks","src/*.rs")],
 ["TMFMesh::read_tmf","TMFMesh::read_tmf_one"],None,H)
p("C08","A mesh that passes the integrity check is safe to use",
 "If the integrity check accepts a mesh, then every vertex, normal and UV index is inside its array (so the expanded buffers exist whenever both arrays do), no index array lacks its data array, every normal has length one within the tolerance, and every UV lies in the range 0 to 1. A mesh that meets all of these conditions is accepted, and the check never changes the mesh.",
 ["inputs"],"all meshes, including NaN values, empty arrays and indices equal to the array length",
 "Tests only verify well-formed meshes; the rejecting side and the boundary cases (index equal to length, UV out of range, NaN) are never exercised.",
 ["src/verify.rs","src/lib.rs"],[("verify_tmf_mesh, indices_inside_array","src/verify.rs"),("get_*_buffer","src/lib.rs")],
 ["TMFMesh::verify","TMFMesh::get_vertex_buffer","TMFMesh::get_normal_buffer","TMFMesh::get_uv_buffer"],None,H)
p("C09","Reordering data never changes the model",
 "Reordering a mesh leaves every expanded buffer (vertices, normals and UVs looked up through their indices) exactly as it was, keeps the number of indices, leaves tangents and custom data untouched, and afterwards every element of a reordered array is used and elements appear in the order in which the indices first mention them.",
 ["inputs"],"all meshes whose indices are in bounds, with repeated, unused and shared elements",
 "The unit test remaps one five-element array; nothing is checked for other index patterns or for several attributes at once.",
 ["src/utilis.rs","src/lib.rs"],[("optimize_triangle_indices","src/utilis.rs"),("TMFMesh::reorder_data","src/lib.rs")],
 ["TMFMesh::reorder_data","TMFMesh::get_*_buffer"],None,H)
p("C10","Unifying index arrays preserves the model",
 "After unifying, all present attributes that have both data and indices share one identical index array, and every expanded buffer (vertices, normals, UVs, tangents) is exactly what it was before. The new elements are numbered in order of first appearance, so the result is the same on every run, and attributes without data or indices and custom data are left as they were.",
 ["inputs","configurations"],"all meshes with equal-length index arrays in bounds, any subset of attributes present",
 "The test only checks that two index arrays of one mesh become equal, not that the model stays the same, and never uses tangents, missing attributes or already-unified meshes; the combination map is a randomly seeded hash map.",
 ["src/unify_data.rs","src/lib.rs"],[("unfiy_data_common, merge_data_2/3/4","src/unify_data.rs"),("smart_merge_data_2/3/4, is_merge_needed","src/unify_data.rs"),("TMFMesh::unify_index_data","src/lib.rs")],
 ["TMFMesh::unify_index_data"],None,H)
p("C11","Imported OBJ faces keep their corners",
 "Importing an OBJ file yields, for every object and every face, triangles whose corners carry exactly the vertex, UV and normal that the face's indices refer to, in file order and grouped under the right object name. Removing unused leading data never changes what an index refers to, and a polygon with n corners becomes n-2 triangles which use only its own corners and every side of it exactly once. No text makes the import panic: malformed coordinates, faces with fewer than three corners and, without the triangulation feature, polygons give an error.",
 ["inputs","configurations"],"all OBJ texts made of v, vn, vt, f, o and ignored lines, with in-range indices, corners written as v/vt/vn or v//vn and names without spaces or slashes (for panics: any text); with and without the triangulation feature",
 "Tests load four fixed files and only run the integrity check; corner-by-corner correspondence, pruning with several objects and polygon faces are unchecked.",
 ["src/obj.rs","src/model_importer.rs","src/triangulation.rs","src/utilis.rs"],[("load_face, push_face, triangulate","src/obj.rs, src/model_importer.rs, src/triangulation.rs"),("fast_prune","src/utilis.rs"),("next_mesh, finish","src/model_importer.rs")],
 ["TMFMesh::read_from_obj"],None,H)
p("C12","Exported OBJ files refer to the right data",
 "In an OBJ file written from any list of meshes with consistent arrays, every face corner's vertex, UV and normal numbers refer to the lines that hold exactly that corner's data, also when earlier meshes in the list have different numbers of vertices, UVs and normals, lack some of them, or have no faces at all. Coordinates are written so that they parse back to the identical numbers, objects keep their order and names, and inconsistent index arrays give an error.",
 ["inputs"],"all lists of meshes whose index counts are multiples of three and whose index arrays have their data arrays, all subsets of attributes, finite values",
 "Tests write files but never parse them back; multi-mesh offsets with differing counts or point clouds are not checked.",
 ["src/obj.rs"],[("save_obj, write_obj","src/obj.rs")],["TMFMesh::write_obj","TMFMesh::write_obj_one"],None,H)
p("C13","Custom data is found under its name, before and after saving",
 "Custom data can be added exactly when its name is 1 to 255 bytes long, otherwise the matching error is returned and the mesh is unchanged. Looking a name up returns the first data added under exactly that name and nothing for any other name, and after saving and loading the mesh the same lookups succeed with the same kind of data and the same number of elements.",
 ["inputs","histories"],"all names (any length, any UTF-8) and all sequences of additions and lookups",
 "Tests use one short ASCII name per mesh; name limits, prefixes, duplicates, several segments and multi-byte names are not reached.",
 ["src/custom_data.rs","src/lib.rs"],[("CustomDataSegment::new/encode/read","src/custom_data.rs"),("lookup_custom_data","src/lib.rs")],
 ["TMFMesh::add_custom_data","TMFMesh::lookup_custom_data"],None,H)
p("C14","Files keep meshes, names and segments apart",
 "Saving any list of named meshes and loading the file gives the same number of meshes in the same order with the same names and the same set of arrays present. Segments of unknown type are skipped without disturbing anything else, files of the older layout (version 0.1 headers) are understood, wrong magic bytes and files requiring a newer version are refused with their own errors, and every strict prefix of a valid file is refused. Functions for exactly one mesh report zero or several meshes with their own errors.",
 ["inputs"],"all lists of meshes and names that fit the format's limits, all cut points, all header versions, all segment types",
 "Tests write one mesh at a time; multi-mesh files, unknown segments, old headers, version gates and truncation are untested.",
 ["src/tmf_exporter.rs","src/tmf_importer.rs","src/tmf.rs","src/lib.rs","src/read_extension.rs"],[("write_tmf_header/read_tmf_header","src/tmf_exporter.rs, src/tmf_importer.rs"),("EncodedSegment::write/read","src/tmf.rs"),("SectionType codes","src/tmf.rs"),("write_mesh_name/read_string","src/tmf_exporter.rs, src/tmf_importer.rs")],
 ["TMFMesh::write_tmf","TMFMesh::read_tmf","TMFMesh::read_tmf_one"],None,H)
p("C15","I/O failures are reported and chunking does not matter",
 "If saving to TMF or OBJ returns success, every byte of the file was accepted by the writer, no matter how the writer splits or interrupts its work; if the writer fails at any point, saving returns an I/O error and does not panic. If the reader fails at any point, loading returns an error, and a reader that delivers the same bytes in any chunks gives the same result.",
 ["fault_sequences","inputs"],"all positions at which the sink or source can fail, all patterns of short reads and writes",
 "All tests use in-memory vectors or real files that never fail and never return short counts.",
 ["src/tmf_exporter.rs","src/tmf.rs","src/obj.rs","src/read_extension.rs","src/unaligned_rw.rs"],[("? propagation, write_all/read_exact","src/*.rs"),("final flush","src/obj.rs, src/unaligned_rw.rs")],
 ["TMFMesh::write_tmf","TMFMesh::write_obj","TMFMesh::read_tmf"],None,H)
p("C16","Mesh accessors read and write only their own array",
 "Setting an array returns exactly what was there before and makes the getter return exactly the new data; appending adds exactly the given elements at the end (or creates the array); an expanded buffer is the list of elements its indices select and is absent exactly when an array is missing or an index is out of bounds. No such call changes any other array of the mesh or its custom data.",
 ["histories","inputs"],"all sequences of set, get, append, normalise and buffer calls on any mesh",
 "Each accessor has one doc example on one attribute; mix-ups between attributes, repeated appends and interaction with other arrays are not covered.",
 ["src/lib.rs"],[("set_*, get_*, append_*, get_*_buffer, normalize","src/lib.rs")],["TMFMesh"],None,H)
p("C17","Every valid mesh can be saved",
 "Saving any mesh that passes the integrity check, or has no triangles at all, succeeds without panicking for every precision setting, whatever its shape: empty arrays, a single point, degenerate or zero-length triangles, index counts that are no multiple of three, huge or tiny coordinates. The resulting file loads again without error.",
 ["inputs","configurations"],"all meshes accepted by the integrity check (finite values) and all positive precision settings",
 "Only well-shaped models are saved in tests; none of the degenerate shapes or extreme precisions is.",
 ["src/tmf_exporter.rs","src/vertices.rs","src/uv.rs","src/normals.rs","src/tangents.rs","src/custom_data.rs"],[("calc_shortest_edge, opt_tris, find_best_vertex_spilt, range_to_vertex_bit_count","src/tmf_exporter.rs"),("quantisers","src/vertices.rs, src/uv.rs, src/normals.rs, src/custom_data.rs")],
 ["TMFMesh::write_tmf","TMFMesh::read_tmf"],None,H)
p("C18","Results do not depend on runtime or scheduling",
 "Loading the same bytes gives the same meshes with the synchronous and the asynchronous functions, with and without the multi-threaded runtime, and in whatever order the segment decoding tasks finish. Saving the same mesh twice gives identical bytes.",
 ["schedules","configurations"],"all task completion orders, both runtimes",
 "Tests run one load at a time and never compare results between configurations or under delayed tasks.",
 ["src/tmf_importer.rs","src/tmf_exporter.rs","src/lib.rs"],[("join_all and in-order application of decoded segments","src/tmf_importer.rs"),("join_all of encoded segments","src/tmf_exporter.rs")],
 ["TMFMesh::read_tmf","TMFMesh::read_tmf_async","TMFMesh::write_tmf"],None,H)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
