#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16".split()
TODO = []
KANI = "bounded symbolic execution of the compiled code (Kani/CBMC, SAT)"
IR = "bounded symbolic execution of the compiled LLVM IR, unwinding included (Z3)"
TECH = {c: KANI + "; " + what + ": " + IR for c, what in dict(C01="histories and long vectors", C02="histories and long vectors", C04="histories and long vectors",
    C03="long containers", C05="more sizes and alignments", C06="long containers", C07="long containers", C08="long containers", C09="long slices",
    C10="long containers", C11="values of more layouts", C12="every set of behaviours", C13="long vectors", C14="long vectors and slices", C15="lists and values through core::fmt").items()}
TECH["C16"] = IR
NOTE = {
 "C01": "Bounded: 11 element types, up to 4 initial elements (up to 20 in the long harnesses), every operation once, selected pairs, and histories of three (thorough: four) operations; all element bytes symbolic. One operation from every length to 10 (thorough: 20), 17, 33 and 129.",
 "C02": "Bounded: 5 element types, up to 3 initial elements (up to 17 in the long harnesses), histories of three (thorough: four) operations; values symbolic. One operation from every length to 10 (thorough: 20), 17, 33 and 60.",
 "C03": "Bounded: the listed type pairs, up to 2 elements; every typed entry point. Untyped to 5 (thorough: 9) and 33 elements, one pair of types of each layout.",
 "C04": "Bounded: up to 3 elements, histories of three (thorough: four) operations over two vectors, or a vector and values; counts every value and every heap block. One operation from every length to 10 (thorough: 20), 17, 33 and 60. Containers of owned elements of 25 sizes to 1025 bytes and 15 other types of alignments to 4 KiB.",
 "C05": "Bounded: every power-of-two alignment to 64 KiB and several size/alignment relations, up to 4 elements; layouts checked by an allocator model. All operations on 29 sizes from 1 to 1025 bytes, and on 19 types of alignments to 8 KiB, to 9 elements.",
 "C06": "Bounded: up to 3 elements; six kinds of later change, every way to clone; values symbolic. Lengths to 10 (thorough: 20), 17 and 60.",
 "C07": "Indices and range bounds over all 64-bit values, including those whose scaled offset wraps; up to 2 elements; element moves after the bounds check are stubbed in the must-panic harnesses. Lengths to 5 (thorough: 9) and 33 with eight indices beyond.",
 "C08": "Bounded: up to 2 elements a side, every way to push, extend, append, copy and view bytes; all element bytes symbolic. Every pair of lengths to 4 (thorough: 7), 17 and 65; iterators with every kind of size hint.",
 "C09": "Bounded: up to 5 elements; every range kind with symbolic bounds; 4 view types. Every range of slices to 4 (thorough: 7) elements, and 36 of one of 33.",
 "C11": "Bounded: owned, boxed, inline and borrowed values and pairs of them, over element types of several layouts; histories of one operation from every start; values symbolic. Owned, boxed, inline and borrowed values of 25 sizes to 1025 bytes and 15 other types of alignments to 4 KiB.",
 "C12": "Bounded: two elements; chains of up to two conversions over flat, inherited and tuple tables, trait objects and back, empty containers from every source; values symbolic. The must-panic harnesses cover returning to a wrong table. 54 derived tables (every set of the five behaviours, in several orders, with marker traits) and a chain of seven inherited ones, each behaviour before and after conversion, counting the calls of the type's own functions.",
 "C13": "Every pair of the ten numeric types over all values of the source type (floats by bit pattern, NaN included), up to 3 elements; non-numeric types; the dispatch macro in all its forms. Integers at every length to 3 (thorough: 6), 17, 64 and 129.",
 "C14": "Bounded: up to 3 elements; vectors, slices, values, tables and metadata; element contents symbolic. Every length to 5 (thorough: 10), 17, 60 and 129, with and without spare capacity.",
 "C15": "Bounded: up to 3 elements, each symbolic (two visible forms or a failure), writers failing at a symbolic point; integers and floats shown from a set of three per type. With every flag, the alternate one included, for lists and values (IR); the standard library's formatting code is executed.",
 "C16": "Bounded: up to 3 elements (thorough: 5), one panic at any call of user code in an operation and one in any later use; every operation that calls user code, and dync's own refusals.",
 "C10": "Bounded: up to 3 elements a side; values symbolic, including non-reflexive equality and NaN. Lengths to 5 (thorough: 9), 17 and 60, differing in at most one place or in length.",
}
m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=[], not_applicable=[])
for c in DONE:
    m["checks"].append(dict(property=c, quick_cmd="python3 check.py " + c, thorough_cmd="python3 check.py %s thorough" % c,
        technique=TECH.get(c, KANI), level="model_checking", level_note=NOTE[c]))
for c in TODO:
    m["not_applicable"].append(dict(property=c, reason="harness not built yet"))
m["not_applicable"].append(dict(property="C17", reason="Statement about programs the type checker rejects; there is no execution to encode."))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
