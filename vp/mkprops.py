#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

p("C01", "An untyped vector of Copy elements behaves like the Vec it stands for",
  "For every Copy element type and every sequence of typed operations (construction, push, reserve, resize, clear, fill, append, rotation, truncation, iteration, element and slice access, conversion back), a vector of Copy elements holds exactly the elements, in the order and number, that a Vec of that type would hold after the same operations. Reads never change it, and converting it back to a Vec of its element type returns exactly those elements.",
  ["inputs", "histories"], "every element type (size, alignment, padding), every initial length, every value and every operation sequence",
  "The tests push a few u8..u128 and small structs at fixed lengths; they do not vary size against alignment, capacity or the operation order.",
  ["src/vec_copy.rs", "src/vec_void.rs", "src/elem.rs"],
  [("reinterpretation of the storage as a vector of alignment-sized chunks", "src/vec_void.rs apply_aligned_unchecked / elem.rs"),
   ("element size stored apart from length and capacity", "src/vec_void.rs VecVoid")],
  ["as_slice_as", "into_vec", "iter_as"])
p("C02", "An untyped vector of owned elements behaves like the Vec it stands for",
  "For every element type with drop glue or heap ownership and every sequence of operations (construction, typed and untyped push, resize, clear, fill, append, clone, rotation, iteration, element replacement, conversion back), the dynamic vector holds exactly the elements that a Vec of that type would hold after the same operations. Every element can be read, modified and moved out intact.",
  ["inputs", "histories"], "every element type, every initial length, every operation sequence",
  "Tests use Rc<u8>/Box/String at length 3 and single operations, so interactions of operations and of element layouts are not exercised.",
  ["src/vec_dyn.rs", "src/vec_void.rs", "src/value.rs"],
  [("chunked moves of untyped values", "src/vec_dyn.rs push/append/extend"), ("vtable functions applied element by element", "src/traits.rs, src/vec_dyn.rs clone/drop")],
  ["as_slice_as", "into_vec"])
p("C03", "Operations naming the wrong element type are refused and change nothing",
  "Every operation that names or carries an element type refuses when that type is not exactly the container's or value's element type, including when size and alignment agree: it returns nothing, an error or panics as documented, and never exposes stored bytes as another type. A refused operation leaves the container and the other operand with their contents, and every value handed over is either given back or dropped once.",
  ["inputs", "configurations"], "every pair of distinct element types, every operation and every length",
  "Tests check a handful of mismatches on push/downcast with types of different size; same-layout types and every entry point are not tried.",
  ["src/vec_copy.rs", "src/vec_dyn.rs", "src/slice.rs", "src/slice_copy.rs", "src/value.rs", "src/copy_value.rs", "src/bytes.rs"],
  [("type id comparison before every typed access", "check_ref / check_mut / downcast / is"), ("size comparison for untyped copies", "src/copy_value.rs, src/vec_copy.rs push")],
  ["Option returned", "contents after refusal"])
p("C04", "Every element is dropped exactly once and nothing leaks",
  "Over any history of operations on dynamic vectors and values (push, pop-like conversion, clear, resize, append, clone, assign, swap, failed conversions, dropping containers and iterators), every value ever created is dropped exactly once, never before it leaves the container, and never read after its drop. When all containers are gone, all heap memory they used has been released.",
  ["histories", "inputs"], "every operation history and every element count",
  "Tests count with Rc strong counts on one or two paths; double drops and leaks on failing, empty or partial paths cannot be enumerated by samples.",
  ["src/vec_dyn.rs", "src/vec_void.rs", "src/value.rs", "src/slice.rs"],
  [("drop function in the vtable called per element", "src/vec_dyn.rs Drop/clear"), ("ManuallyDrop/forget when ownership moves", "src/value.rs, src/vec_dyn.rs")],
  ["number of live values", "allocator balance"])
p("C05", "Storage is allocated, grown and freed with the element's layout",
  "For every element size and alignment, each heap block behind a container or boxed value is sized and aligned for its elements, and is grown and released with the alignment and size it was allocated with. A reported capacity is a whole number of elements that can be filled without moving the storage, and conversion from and to a typed Vec reuses the allocation.",
  ["configurations", "inputs"], "every size and alignment of element type and every capacity history",
  "The global allocator silently accepts wrong layouts on the small types that tests use; valgrind does not see alignment; over-aligned types are sampled thinly.",
  ["src/elem.rs", "src/vec_void.rs", "src/value.rs", "src/vec_copy.rs", "src/vec_dyn.rs"],
  [("alignment dispatch table", "src/elem.rs"), ("chunk size = alignment reinterpretation", "src/vec_void.rs")],
  ["layout seen by the allocator", "capacity()", "address stability"])
p("C06", "A clone is equal to and independent of its original",
  "Cloning any container, slice copy or value yields the same element type, number and values. Afterwards any change to or drop of one side is invisible to the other, and cloning into existing storage (from a slice or vector of the same type) replaces exactly the target's elements and nothing else.",
  ["inputs", "histories"], "every element type, length (of source and target) and subsequent mutation",
  "Tests clone one vector and compare it; they do not mutate either side, do not vary lengths of source and target, and do not cover element types whose clones own memory.",
  ["src/vec_dyn.rs", "src/vec_copy.rs", "src/vec_void.rs", "src/slice.rs", "src/slice_copy.rs", "src/value.rs"],
  [("clone function in the vtable per element", "src/vec_dyn.rs Clone"), ("clone_from reusing the allocation", "src/vec_void.rs")])
p("C07", "Out-of-bounds access panics or yields nothing, never touches memory",
  "For every container or slice, every index and every range, an access outside the current length panics or returns nothing as documented, in optimised builds too, where index arithmetic wraps silently. No in-bounds access panics.",
  ["inputs"], "every 64-bit index, every pair of range bounds, every element size and length",
  "Only an index near 2^64 divided by the element size wraps to a valid offset; tests sample small indices in debug builds.",
  ["src/index_slice.rs", "src/slice.rs", "src/slice_copy.rs", "src/vec_copy.rs", "src/vec_dyn.rs"],
  [("index scaled by the element size", "src/index_slice.rs ScaleRange"), ("asserts in get_as and friends", "src/vec_copy.rs, src/vec_dyn.rs, src/slice.rs")])
p("C08", "Untyped insertion and transfer move whole elements byte for byte",
  "Pushing, extending, collecting, appending and copying through untyped values or untyped slices adds exactly the given elements, complete in every byte and in order, for every element size and alignment. The source is left unchanged where it is only read, and left empty and usable where it is drained; the byte views show exactly the stored elements.",
  ["inputs", "configurations"], "every element size/alignment relation, every source and target length",
  "Tests push through untyped values only for types whose size equals their alignment or is a small multiple of it.",
  ["src/vec_copy.rs", "src/vec_dyn.rs", "src/slice.rs", "src/slice_copy.rs", "src/bytes.rs", "src/copy_value.rs"],
  [("copies of alignment-sized chunks", "src/vec_copy.rs push, src/vec_dyn.rs push"), ("byte access", "src/bytes.rs")])
p("C09", "Slice views address exactly the elements they name",
  "A slice, subslice (for every kind of range), split, chunk, iterator item or element view of a container addresses exactly the elements a typed slice operation with the same arguments would, so reads through it return them and writes, swaps, rotations and copies through it change those elements and no others. Iterators yield every element once, in order, with matching length.",
  ["inputs"], "every range kind and bounds, split point, chunk size, rotation distance, length and element size",
  "The tests take one or two subslices of u8/u16 data; range kinds times element sizes times positions are far more than they sample.",
  ["src/slice.rs", "src/slice_copy.rs", "src/index_slice.rs", "src/vec_copy.rs", "src/vec_dyn.rs"],
  [("ranges scaled to bytes or chunks", "src/index_slice.rs"), ("chunk iterators over element-sized pieces", "src/slice.rs, src/slice_copy.rs")])
p("C10", "Dynamic equality and hashing agree with the element type's own",
  "Two dynamic vectors, slices or values compare equal exactly when their element types are the same and their sequences of elements compare equal under the element type's own equality. Feeding a dynamic value or container to a hasher is determined by its elements in order, so equal ones hash equally and each element is hashed with its own hash function.",
  ["inputs"], "every pair of contents and lengths, for element types whose equality is not byte equality",
  "Tests compare two equal and two different three-element vectors; lengths, prefixes, byte-different but equal elements are not enumerated.",
  ["src/vec_dyn.rs", "src/slice.rs", "src/value.rs", "src/traits.rs"],
  [("eq/hash functions in the vtable", "src/traits.rs"), ("element-wise comparison", "src/vec_dyn.rs, src/slice.rs PartialEq/Hash")])
p("C11", "Boxed, inline and borrowed dynamic values keep their value",
  "A value wrapped as an owned (boxed or inline) or borrowed dynamic value can be taken back as its own type with exactly the content it had, whatever was done to other values meanwhile. Swapping exchanges, and assigning or cloning-from replaces, exactly the two values named, when and only when their types agree; a type that does not fit an inline value is refused.",
  ["inputs", "histories"], "every value type, size, alignment and operation",
  "Tests wrap single integers and strings; sizes at the inline limit, over-alignment and owned contents under swap/assign are not covered.",
  ["src/value.rs", "src/copy_value.rs"],
  [("byte storage plus type id, size and alignment", "src/value.rs"), ("chunk-wise swap and copy", "src/value.rs, src/copy_value.rs")])
p("C12", "Changing the vtable never changes the elements",
  "Upcasting a container, slice or value to a smaller or user-derived set of behaviours, making it a trait object and back, or creating an empty container from another's type keeps element type, contents and behaviour: every behaviour reached through the new table is the element type's own. Converting back to a set of behaviours it was not built with is refused.",
  ["inputs", "programs"], "every element type, every supported conversion path",
  "Tests upcast once from a fixed vtable; behaviour after a chain of conversions, for several element types with distinct implementations, is not checked.",
  ["src/vtable.rs", "src/meta.rs", "src/traits.rs", "src/lib.rs", "src/value.rs", "src/slice.rs", "src/vec_dyn.rs", "dync-derive/src/lib.rs"],
  [("From conversions between tuple vtables", "dync-derive/src/lib.rs, src/traits.rs"), ("vtable references", "src/vtable.rs, src/meta.rs")])
p("C13", "Numeric conversion converts each number or yields zero",
  "Converting an untyped vector of numbers to a Vec of another number type converts every element in order to the value the numeric cast defines, and to zero where the target cannot represent it. A vector of anything else yields no elements, or nothing, as documented, and the source is unchanged.",
  ["inputs"], "every source and target number type and every value, including the limits",
  "Tests convert a few small numbers; the limits, negative to unsigned and float to integer are where a wrong conversion hides.",
  ["src/vec_copy.rs", "src/vec_dyn.rs", "src/macros.rs"],
  [("dispatch over number types", "src/macros.rs call_numeric_buffer_fn"), ("cast per element", "src/vec_copy.rs, src/vec_dyn.rs cast_into_vec")])
p("C14", "Taking apart and reassembling is the identity",
  "Splitting a vector, slice, value or vtable reference into its raw parts and putting those parts back yields the same element type, length, contents and behaviour, with ownership neither duplicated nor lost. The parts report the size, alignment, type and number of elements actually stored.",
  ["inputs", "configurations"], "every element type, length, capacity and vtable form",
  "Tests round-trip one integer vector; ownership and layout facts of the parts are not observed.",
  ["src/vec_copy.rs", "src/vec_dyn.rs", "src/slice.rs", "src/slice_copy.rs", "src/value.rs", "src/vec_void.rs", "src/vtable.rs", "src/meta.rs"],
  [("into_raw_parts / from_raw_parts", "src/*.rs"), ("clone/clone_from of untyped storage", "src/vec_void.rs")])
p("C15", "Formatting shows exactly the elements, through their own formatting",
  "Formatting a dynamic vector, slice or value for debugging, or an untyped vector for display, calls the element type's own formatting once per element, in order, and shows nothing else of the contents. Formatting never changes the container, and a formatting error is passed on.",
  ["inputs"], "every element type, length and element value",
  "Tests format one three-element vector.",
  ["src/vec_dyn.rs", "src/vec_copy.rs", "src/slice.rs", "src/value.rs", "src/traits.rs"],
  [("fmt function in the vtable", "src/traits.rs"), ("debug list over elements", "src/vec_dyn.rs, src/slice.rs")])
p("C16", "A panic in user code never duplicates or exposes invalid elements",
  "If a clone, drop, comparison or callback of the element type panics in the middle of an operation, unwinding and later use of the surviving containers drop no element twice and read no uninitialised or freed element, and the process is not aborted. A panic by which dync itself refuses an operation (wrong type, bad index or range) leaves every container usable with all the elements it had.",
  ["fault_sequences", "histories"], "every operation and every point at which user code can panic",
  "Tests contain no panicking element types.",
  ["src/vec_dyn.rs", "src/vec_void.rs", "src/slice.rs", "src/value.rs"],
  [("order of length updates and moves", "src/vec_dyn.rs, src/vec_void.rs")])
p("C17", "Borrowed views cannot outlive or alias their source, nor cross threads unsoundly",
  "Every program that would use a view after its source moved or died, hold two mutable views of one element, or send elements that are not thread safe to another thread through a container is rejected by the compiler.",
  ["programs"], "every client program",
  "Tests are programs that compile.",
  ["src/slice.rs", "src/slice_copy.rs", "src/value.rs", "src/copy_value.rs", "src/traits.rs"],
  [("lifetime parameters and variance of views", "src/slice.rs, src/value.rs"), ("Send/Sync bounds", "src/traits.rs, src/vec_dyn.rs")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
