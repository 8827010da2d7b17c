#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "src/"
p("C01", "Erased storage is viewed or taken as a type only when that is its exact type",
  "Every safe operation that lets a caller read, iterate, write, push, fill, resize, copy out or take back type-erased elements as a type the caller names succeeds only if that type is exactly the type the elements were stored with. For any other type it reports the mismatch in the documented way (None, false, or an untouched container) without exposing or altering any stored element, and for the exact type it does not report a mismatch.",
  ["programs", "inputs"], "every stored type x every requested type x every safe typed entry point of vectors, slices, owned values and value references",
  "Types are an open world: tests instantiate a handful of pairs (u8/i16/i32/f32/Rc), and a guard that compares sizes, or is missing on one of ~40 entry points, passes all of them.",
  [S+"vec_copy.rs", S+"vec_dyn.rs", S+"slice_copy.rs", S+"slice.rs", S+"value.rs", S+"copy_value.rs", S+"bytes.rs"],
  [("type check before reinterpretation", "vec_copy.rs check/check_ref/check_mut, slice_copy.rs check, copy_value.rs impl_value_base! is/downcast_with"),
   ("unchecked typed views", "vec_copy.rs as_slice_as_unchecked/get_unchecked_ref, vec_void.rs into_vec_unchecked/apply_unchecked, bytes.rs from_bytes")],
  ["return value (Some/None) of the typed accessors", "the type at which stored bytes are dereferenced"],
  [("elem.type_id", "identity of the stored element type", "elem.rs ElemInfo")])
p("C02", "Moves, copies and swaps between erased objects need identical element types",
  "An operation that appends, pushes, copies, clones, assigns or swaps elements from one type-erased object into another takes effect only when both hold exactly the same element type. Otherwise it is refused as documented and both operands keep all of their elements unchanged.",
  ["programs", "inputs"], "every pair of element types x every operation with two erased operands",
  "The tests only ever mix one or two types of different size; same-size different-type pairs, or a refused operation that has already moved something, are never exercised.",
  [S+"vec_copy.rs", S+"vec_dyn.rs", S+"vec_void.rs", S+"slice_copy.rs", S+"slice.rs", S+"value.rs", S+"copy_value.rs"],
  [("type-id comparison of the two operands", "vec_copy.rs append/push, vec_dyn.rs append/push/push_cloned, value.rs swap/assign/clone_from_other, copy_value.rs copy/swap, slice.rs clone_from_other, slice_copy.rs copy_from")],
  ["refusal (None/Err/panic) on mismatch", "length and bytes of both operands afterwards"])
p("C03", "Safe positional access never leaves the live elements, in any build profile",
  "For every position or range passed to a safe indexing, slicing, splitting, chunking or swapping operation, the element or run of elements handed out or modified lies entirely inside the live elements of the object. A position outside is answered by a panic or by a documented None before any memory is touched, also in release builds and also when scaling the position to bytes overflows.",
  ["inputs", "configurations"], "all positions 0..=usize::MAX and all range kinds x all lengths and element sizes x debug and release builds",
  "Tests run in debug builds with small in-range indices; debug assertions hide missing release checks and overflow needs indices near usize::MAX/size.",
  [S+"vec_copy.rs", S+"vec_dyn.rs", S+"slice_copy.rs", S+"slice.rs", S+"lib.rs", S+"index_slice.rs", S+"vec_void.rs"],
  [("bounds assertion", "slice_copy.rs get/get_as, vec_copy.rs get_ref_as/get_mut_as, lib.rs ElementBytes::index_byte_slice"),
   ("byte scaling of indices", "lib.rs index_byte_range, index_slice.rs ScaleRange")],
  ["the byte range of every reference formed into an erased buffer"],
  [("len", "number of live elements", "vec_void.rs VecVoid / byte length of slice views")])
p("C04", "Position i always denotes exactly the i-th stored element, whole and unshifted",
  "Through every view (vectors, slices, subslices of any range kind, halves of a split, chunks, iterators, value references) position i denotes exactly the bytes of the i-th element of that run, never a part of one or a mixture of two. Pushing adds exactly one whole element at the end, truncating and rotating move whole elements by the requested count, swapping exchanges exactly the two named elements, and reported lengths count elements.",
  ["inputs", "programs"], "all element sizes and alignments (including size greater than alignment) x all positions, range kinds, counts and lengths",
  "Tests mostly use elements whose size equals their alignment and ranges of a single kind, where several wrong scalings coincide with the right one.",
  [S+"lib.rs", S+"index_slice.rs", S+"slice_copy.rs", S+"slice.rs", S+"vec_void.rs", S+"vec_copy.rs", S+"vec_dyn.rs", S+"elem.rs"],
  [("element to byte arithmetic", "lib.rs index_byte_range/byte_chunks/swap, elem.rs num_bytes, index_slice.rs ScaleRange"),
   ("alignment-chunk vector arithmetic", "vec_void.rs aligned_vec_unchecked/from_vec_override and its callers (n * size)")],
  ["byte range of each element handed out", "len()/element_size() after each operation"])
p("C05", "Every stored value is dropped exactly once",
  "Each value moved into an erased container or erased value is destroyed exactly once: by the operation that removes or overwrites it, or when its owner goes away, or by whoever it was handed back to. This includes values in operations that are refused (wrong type, does not fit): nothing is leaked and nothing is destroyed twice, and conversions between owners never leave two owners of one value.",
  ["histories", "programs"], "every sequence of safe operations on owning containers and values, every element type with a destructor",
  "Tests check reference counts after a few hand-picked sequences; a lost or duplicated drop on a refusal path, a shrink, a conversion or an overwrite stays invisible.",
  [S+"vec_dyn.rs", S+"value.rs", S+"slice.rs", S+"vec_copy.rs", S+"vec_void.rs", S+"traits.rs", S+"bytes.rs"],
  [("element destruction through the drop function", "vec_dyn.rs Drop/clear/resize, value.rs Drop"),
   ("drop inhibition on ownership transfer", "ManuallyDrop in value.rs into_raw_parts/downcast/upcast, vec_dyn.rs into_vec/into_raw_parts/upcast, copy_value.rs GetBytes*"),
   ("initialise without dropping / overwrite with dropping", "traits.rs clone_into_raw_bytes / clone_from_bytes")],
  ["calls of the element destructor", "ownership of element bytes at every exit of an operation"])
p("C06", "A panic in a user-supplied drop, clone or closure never corrupts a container",
  "If a user-supplied destructor, clone or comparison panics while the library is working on a container or value, then after unwinding no element is destroyed twice, no uninitialised or already destroyed element is reachable, and the container can still be used and dropped. Leaking elements is acceptable in that case.",
  ["fault_sequences", "histories"], "every operation that calls user code x a panic at every one of those calls (also panics raised by bad arguments or capacity overflow mid-operation)",
  "No test contains a panicking destructor or clone; the unwind edges are never executed.",
  [S+"vec_dyn.rs", S+"vec_void.rs", S+"value.rs", S+"slice.rs", S+"vec_copy.rs"],
  [("length bookkeeping around user calls", "vec_dyn.rs clear/resize/push_cloned, vec_void.rs resize_with"),
   ("temporarily taken storage", "vec_void.rs apply_aligned_unchecked/apply_unchecked")],
  ["state of the container on every unwind edge leaving an operation"])
p("C07", "Memory is released and resized only with the layout it was allocated with",
  "Whenever erased storage is freed, grown, shrunk or handed back as typed storage, the size and alignment used are those it was allocated with, for every element type. Storage is freed exactly once and never while still owned by another object.",
  ["programs", "histories", "configurations"], "all element sizes and alignments x every construct/convert/destroy path",
  "The default allocator ignores small layout mismatches, so wrong-layout frees pass every test; only a handful of element layouts is tried.",
  [S+"vec_void.rs", S+"elem.rs", S+"bytes.rs", S+"copy_value.rs", S+"value.rs", S+"vec_copy.rs", S+"vec_dyn.rs"],
  [("storage rebuilt as a vector of aligned chunks before release", "vec_void.rs Drop/aligned_vec_unchecked, elem.rs eval_align!"),
   ("boxed bytes released by alignment", "copy_value.rs DropAsAligned, bytes.rs box_from_box_bytes")],
  ["layout (size, alignment) of each deallocation and reallocation"])
p("C08", "The functions stored for a type perform exactly their operation on that type",
  "The table of functions kept next to erased data always belongs to the type of that data, and each entry performs exactly the operation it stands for (drop, clone, clone over an existing value, clone into raw memory, compare, hash, format) on values of that type, consistently with the type's own implementation. Converting a table to a more general one keeps, for each remaining operation, the same function.",
  ["programs"], "all element types x all built-in tables, forwarding tables and conversions",
  "Tests exercise some tables on types whose implementations coincide; an entry that clones without dropping, drops twice or forwards to a sibling entry is not observed for other types.",
  [S+"traits.rs", S+"vtable.rs", S+"value.rs", "dync-derive/src/lib.rs", S+"copy_value.rs"],
  [("per-operation adapter functions", "traits.rs DropBytes/CloneBytes/PartialEqBytes/HashBytes/DebugBytes"),
   ("table construction and accessors", "traits.rs *VTable and Has*, value.rs (DropFn, V) forwarding, dync-derive build_vtable/Has* generation")],
  ["the function invoked by each erased operation"])
p("C09", "Type identity, element size, alignment and function table always travel together",
  "Every erased object carries a type identity, element size, alignment and function table that describe the bytes it holds. Whenever one erased object is built from another (slicing, iterating, cloning, upcasting, converting, creating an empty container of the same type) all four come from the object the bytes, or the type, were taken from.",
  ["programs", "histories"], "every construction of an erased object from another, all element types",
  "A wrong alignment or size is only noticed for types where the two differ and only after further operations; the tests do not chain conversions.",
  [S+"vec_copy.rs", S+"vec_dyn.rs", S+"slice_copy.rs", S+"slice.rs", S+"value.rs", S+"copy_value.rs", S+"meta.rs", S+"elem.rs", S+"lib.rs"],
  [("construction of erased objects from parts", "from_raw_parts callers in vec_dyn.rs, vec_copy.rs, slice.rs, slice_copy.rs, value.rs; meta.rs conversions")],
  ["the four descriptors of each object returned by the API"])
p("C10", "Erased equality and hashing agree with the element types' own",
  "Two erased objects compare equal only if they have the same element type, the same number of elements and pairwise equal elements according to that type, and objects with equal type, length and elements compare equal; hashing feeds exactly the elements that equality looks at. Total equality is claimed only for element types that provide it.",
  ["inputs", "programs"], "all pairs of erased objects, including different types and different lengths",
  "Tests compare objects of equal type and length only.",
  [S+"value.rs", S+"copy_value.rs", S+"slice.rs", S+"vec_dyn.rs"],
  [("type check followed by the element comparison function", "value.rs PartialEq for Value and impl_value_ref_traits!"),
   ("element-wise comparison", "slice.rs and vec_dyn.rs PartialEq/Hash")],
  ["result of == and the data fed to a hasher"])
p("C11", "Erased objects cross threads only when their element type may",
  "An owning erased object can be sent to, or shared with, another thread only if its elements' function table vouches for the same capability of the element type; a shared view may be sent only if the elements may be shared. No erased object or view is sendable or shareable merely because its representation is plain bytes.",
  ["programs", "schedules"], "all element types and tables x all erased owners, views and iterators",
  "Auto-trait membership is decided at compile time for all types; the existing tests never name Send or Sync.",
  [S+"vec_dyn.rs", S+"vec_copy.rs", S+"value.rs", S+"copy_value.rs", S+"slice.rs", S+"slice_copy.rs", S+"traits.rs"],
  [("conditional unsafe impls of Send and Sync", "vec_dyn.rs, value.rs, slice.rs"), ("capability markers", "traits.rs HasSend/HasSync")],
  ["whether Send/Sync obligations hold for instantiations"])
p("C12", "Views cannot outlive or alias what they borrow from",
  "No reference, slice, iterator or value reference obtained through safe operations can outlive the object it was taken from, and none of them carries a lifetime the caller can choose freely. Mutable access is handed out only from exclusive access, so two live views never allow writing to the same element or writing while another reads.",
  ["programs"], "all safe programs that obtain views",
  "It is a property of signatures and trait impls over all client programs; one witness exists in the test-suite and only for one constructor.",
  [S+"slice_copy.rs", S+"slice.rs", S+"vec_copy.rs", S+"vec_dyn.rs", S+"value.rs", S+"copy_value.rs", S+"lib.rs", S+"meta.rs", S+"bytes.rs"],
  [("lifetime-carrying signatures", "all public fns returning views in slice_copy.rs, slice.rs, value.rs, copy_value.rs, vec_copy.rs, vec_dyn.rs"),
   ("splitting into disjoint halves", "slice_copy.rs/slice.rs split_at, lib.rs ElementBytesMut")],
  ["whether client programs that outlive or alias a borrow type-check"])
p("C13", "Safe code cannot forge erased objects or rewrite their bytes arbitrarily",
  "Without writing unsafe code, a user cannot assemble an erased object out of bytes, descriptors and tables that do not belong together, cannot obtain write access to the raw bytes of stored elements, and cannot put elements with destructors into a container that duplicates them bytewise.",
  ["programs"], "all safe client programs",
  "It is a statement about what the public surface makes expressible; no test can enumerate client programs.",
  [S+"lib.rs", S+"meta.rs", S+"slice_copy.rs", S+"slice.rs", S+"vec_copy.rs", S+"vec_dyn.rs", S+"value.rs", S+"copy_value.rs", S+"elem.rs", S+"bytes.rs", S+"vec_void.rs"],
  [("unsafe raw-parts constructors and private fields", "from_raw_parts/into_raw_parts everywhere, pub(crate) fields"),
   ("Copy-only constructors of copying containers", "CopyElem bounds in vec_copy.rs and slice_copy.rs")],
  ["public safe signatures, field visibilities and bounds"])
p("C14", "Every supported alignment is handled by storage of exactly that alignment",
  "For every power-of-two alignment a type can have (up to the documented limit), each storage operation works on chunks whose size and alignment equal the element's alignment, and performs the same operation as for every other alignment. An unsupported alignment is rejected by a panic rather than treated as another one.",
  ["inputs", "configurations"], "all alignments 1 .. 2^29 x all storage operations that dispatch on alignment",
  "Tests use alignments 1 to 16; the large-alignment arms are never executed.",
  [S+"elem.rs", S+"vec_void.rs", S+"copy_value.rs", S+"vec_copy.rs", S+"value.rs"],
  [("alignment dispatch and aligned chunk types", "elem.rs T0..T29, eval_align!"), ("users of the dispatch", "vec_void.rs, copy_value.rs DropAsAligned")],
  ["the chunk type used for each alignment"])
p("C15", "Numeric conversion reads elements as their true type and covers all listed types",
  "The numeric helpers treat the elements of an erased container as numeric type N exactly when N is the stored type, for every numeric type they support, and otherwise report that no conversion is possible (or display nothing). They convert every element, in order, and never reinterpret the bits of one numeric type as another.",
  ["programs", "inputs"], "all stored element types x the numeric helpers, with the numeric feature enabled",
  "The tests convert from two or three source types; one wrong arm (for example i64 elements read as u64) survives.",
  [S+"macros.rs", S+"vec_copy.rs", S+"vec_dyn.rs"],
  [("dispatch on the stored numeric type", "macros.rs call_numeric_buffer_fn!, cast_into_vec and Display in vec_copy.rs, cast_into_vec in vec_dyn.rs")],
  ["the type at which elements are read in each dispatch arm"])
p("C16", "Zero-sized element types are rejected before any erased object of them exists",
  "No erased vector or slice with zero-sized elements can be produced by safe operations: attempts are rejected by a panic before an object is returned. Hence element counts derived from byte lengths are always well defined.",
  ["programs"], "all zero-sized element types x every constructor of erased vectors and slices",
  "One constructor is tested with a zero-sized type; others (from slices, from references, with capacity) are not.",
  [S+"vec_copy.rs", S+"vec_dyn.rs", S+"slice_copy.rs", S+"slice.rs", S+"vec_void.rs"],
  [("size assertion", "vec_copy.rs from_vec_non_copy and the other constructors")],
  ["panic at construction"])
p("C17", "Cloning an owning erased object clones each element with the type's own clone",
  "A clone of an owning erased container or value holds, in the same order and number, one clone of each element made by the element type's own clone, shares no storage with the original, and leaves the original untouched. Bytewise duplication of elements is used only for containers restricted to types for which that is a valid copy.",
  ["programs", "inputs"], "all element types, all containers and lengths",
  "Tests clone reference-counted integers and compare them; a clone that skips an element or duplicates bytes is seen only if that element is then dropped or compared.",
  [S+"vec_dyn.rs", S+"vec_copy.rs", S+"vec_void.rs", S+"value.rs", S+"traits.rs"],
  [("allocate a bytewise image, then clone every element over it without dropping", "vec_dyn.rs Clone"), ("value cloning", "value.rs clone_value/clone_small_value")],
  ["number and arguments of element clone calls in each clone operation"])
p("C18", "Contents survive round trips through erased containers unchanged",
  "Converting a typed vector into an erased container and back yields equal elements in the same order, and sequences of pushes, appends, rotations and truncations yield the same sequence as on a typed vector.",
  ["inputs", "histories"], "all element values and operation sequences",
  "Tests sample short sequences of small integers.",
  [S+"vec_copy.rs", S+"vec_dyn.rs", S+"vec_void.rs"],
  [("bytewise storage", "vec_void.rs")], ["element values"])
p("C19", "The derive macro exposes exactly the declared capabilities",
  "For a user trait with a list of supported supertraits, the generated function table supports exactly the listed capabilities, each backed by the implementation for the concrete type; capabilities not listed are not available, and conversions to the tables of base traits preserve the functions of the remaining capabilities.",
  ["programs"], "all subsets and orders of supported supertraits, including inherited user traits",
  "The tests derive tables for two or three fixed supertrait lists.",
  ["dync-derive/src/lib.rs", S+"traits.rs"],
  [("table generation", "dync-derive/src/lib.rs construct_vtable, Trait enum and Has* impl generation, From conversions to base tables")],
  ["which Has* capabilities the generated table implements and what they return"])
p("C20", "Growth of erased vectors is amortised like that of typed vectors",
  "Pushing n elements one at a time costs O(n) element moves overall, and converting between typed and erased vectors does not copy non-empty storage.",
  ["histories"], "all push sequences", "No test measures allocation counts.",
  [S+"vec_void.rs", S+"vec_copy.rs"], [("delegation to the standard vector", "vec_void.rs apply_aligned_unchecked")], ["allocation counts"])
p("C21", "Formatting an erased object shows its elements as their own formatting does",
  "The debug or display text of an erased container or value is the text the element type itself would produce for the same elements, in order.",
  ["inputs"], "all element values", "Tests compare two fixed strings.",
  [S+"vec_copy.rs", S+"vec_dyn.rs", S+"slice.rs", S+"value.rs"], [("Debug and Display implementations", "vec_copy.rs, vec_dyn.rs, slice.rs, value.rs")], ["formatted text"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
