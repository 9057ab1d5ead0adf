#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/tools/claims.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = dict(
    bounds=[
        "Key types: the finite list of shapes in harness/src/shapes.rs used by the module of the property (unit enums of 1 to 9 variants, explicit discriminants, bit-packed enums, bool, (), options up to depth two, and enums that mix unit, bool, option, unit-struct and nested-enum variants).",
        "Within a shape: every key, every content of the container (each key independently absent, present, or inserted and removed again), every value of the value type (u8 unless said otherwise), every choice of operation and of callback answer.",
        "Loops of the code under test are unrolled as far as the unwind number of the harness, and an unwinding assertion shows that no execution needs more.",
    ],
    outside=[
        "Key shapes not in the list: the derive macro generates code per type, and the claim is about the generated code of the listed shapes only.",
        "Sizes beyond those listed, value types other than those used, and longer histories than stated.",
        "Unwinding: the encoding treats a panic as a failure of the check, not as control flow (C22).",
    ],
    assumptions=[
        "Kani 0.68 (rustc nightly MIR to GOTO), CBMC and CaDiCaL are sound for the fragment used.",
        "The nightly compiler bundled with Kani and the stable one users have give the code the same meaning; witnesses are replayed on the stable dev and release builds.",
        "Memory allocation does not fail.",
    ],
)
D = {}
def c(pid, what, bounds=(), outside=(), assumptions=()):
    D[pid] = dict(what=what, bounds=list(bounds), outside=list(outside), assumptions=list(assumptions))

c("C01", "one arbitrary point operation from an arbitrary content, compared with a reference dictionary on every key, and histories from the empty map",
  ["Histories: one operation from every reachable content; in addition up to 4 (thorough: up to 8) arbitrary operations, including clear, entries and retain, from the empty map."])
c("C02", "length and emptiness against the number of present keys from an arbitrary content and after arbitrary operations")
c("C03", "iter, iter_mut, keys, values, values_mut and into_iter of an arbitrary content, against the declaration-order reference, step by step to the end")
c("C04", "an arbitrary interleaving of front and back steps, with size hints, and clones taken after an arbitrary step",
  ["Interleavings: every sequence of as many front or back steps as there are keys, plus two more; clones after zero or one step."])
c("C05", "retain with an arbitrary answer and an arbitrary modification per key; repeated retain and insert; clear")
c("C06", "an arbitrary use of an arbitrary key's entry from an arbitrary content, and histories of them", ["Histories of up to 3 (thorough: 6) entry uses from the empty map."])
c("C07", "one arbitrary set operation from an arbitrary content, and histories", ["Histories of 4 (thorough: 8) arbitrary operations from the empty set."])
c("C08", "set length and emptiness against membership")
c("C09", "set iteration, by reference and by value, from both ends in any interleaving, with size hints and clones")
c("C10", "set retain with an arbitrary answer per element, repeated, and clear")
c("C11", "intersections of two arbitrary sets: stepwise, by fold after an arbitrary step, clones, swapped operands, operands unchanged")
c("C12", "equality, inequality, clone, copy and hashing of two arbitrary maps and of two arbitrary sets", ["Hashing: the hasher records the fed bytes, or folds them, and two equal containers with different histories must feed the same."])
c("C13", "partial_cmp, cmp, the comparison operators, max, min and clamp of two arbitrary containers against the lexicographic comparison of their position sequences, with an incomparable value")
c("C14", "bit-packed sets against reference sets and against raw values of all widths; from_raw of every raw value", ["Packed widths 1 to 128 variants (all of 1, 2, 3, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128 for point operations; small widths for whole-set comparison)."])
c("C15", "serialization against a recording serializer that fails at an arbitrary call, deserialization from an arbitrary stream of entries with an arbitrary failure", ["Streams of up to 4 entries; formats: the serde data model itself (a recording serializer and a scripted deserializer in the harness), no particular text format."],
  ["serde's own code for the primitive types is executed, not specified."])
c("C16", "collecting an arbitrary sequence, with repetitions and an arbitrary size hint, against inserting it item by item", ["Sequences of up to 4 items."])
c("C17", "values that record their drops: operations, entries, iterators abandoned at any point, clones; CBMC's own checks for pointers, bounds, overflow and uninitialised reads hold throughout", ["Up to 12 values per run."],
  ["Aliasing-model (Stacked Borrows) violations that change no observable memory state are not modelled by CBMC."])
c("C18", "option buckets over an arbitrary optional slot, with plain values and with values that own resources")
c("C19", "map, set, entry, iteration, retain, equality and serde of keys with hash-stored parts (u8, u32, i16, char, &'static str, nested) over the hash table's contract",
  ["At most 4 hash-stored entries at a time; payload values are symbolic over their whole type (char: every scalar value; str: a fixed pool of strings)."],
  ["The hashbrown crate itself (a dependency): the harness replaces it with a small table that honours its documented contract, in the worst case for the caller (arbitrary order of slots by removal). The native replay uses the real one."],
  ["hashbrown honours its documented contract."])
c("C20", "Debug output of arbitrary maps, sets and partly consumed intersections, compared piece by piece with the expected text", [], ["Alternate ({:#?}) formatting beyond the harnesses named pretty."])
NOTE = "Holds for every value within the stated bounds of the listed key shapes (a solver verdict, with unwinding assertions), {what}. Trusts Kani, CBMC and the SAT solver; counterexamples are only reported once the native build or Miri reproduces them."
NA = [
    dict(property="C21", reason="The property quantifies over Rust programs given to the derive macro (token streams inside the compiler's proc-macro bridge, syn and quote). That code runs in the compiler process, depends on the proc_macro bridge and on recursive parsing over unbounded token trees, and cannot be executed symbolically by Kani or CBMC within reach; the code the macro generates is what the other properties encode."),
    dict(property="C22", reason="Kani and CBMC model a panic as an abort: there is no unwinding and no running of destructors after a panic in the encoding, so what a container looks like after a caught panic cannot be expressed as a solver query over the real code."),
]

if __name__ == "__main__":
    d = dict(common=COMMON)
    for k, v in D.items():
        d[k] = v
    with open(os.path.join(V, "tools", "claims.json"), "w") as f:
        json.dump(d, f, indent=1); f.write("\n")
    m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=NA,
             notes="No hooks in /repo: the harness reaches everything through the public API. Repairs of genuine defects are listed in known_findings.txt.")
    for k, v in D.items():
        m["checks"].append(dict(property=k, quick_cmd=f"python3 tools/check.py {k} --tier quick", thorough_cmd=f"python3 tools/check.py {k} --tier thorough",
            evidence_file=f"evidence/{k}.json", technique="bounded symbolic model checking (Kani/CBMC, SAT) of the compiled Rust code", level="model_checking", level_note=NOTE.format(what=v["what"])))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
