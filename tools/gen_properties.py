#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays consistent)."""
import json, os
M = "src/map.rs"; S = "src/set.rs"; ME = "src/map/entry.rs"; MS = "src/map/storage.rs"; SS = "src/set/storage.rs"
U = "fixed-map-derive/src/unit_variants.rs"; A = "fixed-map-derive/src/any_variants.rs"
MB = "src/map/storage/boolean.rs"; MO = "src/map/storage/option.rs"; M1 = "src/map/storage/singleton.rs"; MH = "src/map/storage/hashbrown.rs"
SB = "src/set/storage/boolean.rs"; SO = "src/set/storage/option.rs"; S1 = "src/set/storage/singleton.rs"; SH = "src/set/storage/hashbrown.rs"
MAPF = [M, MS, MB, MO, M1, MH, U, A]; SETF = [S, SS, SB, SO, S1, SH, U, A]
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})

p("C01", "Map point operations behave like a dictionary",
  "For every key type the library can store, a map behaves like a mathematical dictionary: insert returns the value it replaced (nothing if the key was absent), remove returns and forgets the stored value, and get, mutable get and contains_key report exactly the value last stored under that key. An operation on one key never changes what is stored under any other key. This holds after every history of operations.",
  ["inputs", "histories"], "every key type shape, every content of the map, every sequence of insert / remove / get / get_mut / clear / retain / entry operations, every key and value",
  "The tests and doc examples touch a handful of keys with constant values and never compare all other keys after an operation; the storage code is generated per key type, so an aliasing between two variants or a wrong previous value shows only for particular key/content pairs.",
  MAPF, [("delegation to per-key storage", M), ("array storage of unit variants", U), ("one field per variant, nested storage", A), ("two-slot storage for bool", MB), ("payload storage plus extra slot for optional keys", MO), ("single slot", M1)])
p("C02", "Map size reporting is exact",
  "A map's length always equals the number of distinct keys it currently holds, and it reports itself empty exactly when that number is zero. A fresh or cleared map has length zero, and a map filled with every value of a finite key type has as many entries as the key type has values.",
  ["inputs", "histories"], "every key type shape and every subset of keys present, reached by any history",
  "Examples check length after one or two insertions; a sub-storage left out of the sum, or counted when it is not empty, only shows for particular subsets.",
  MAPF, [("sum over fields", A), ("sum over slots", U), ("per-key len/is_empty", MB + ", " + MO + ", " + M1)])
p("C03", "Map iteration visits each entry exactly once, in declaration order",
  "Iterating a map by shared reference, mutable reference or value, and listing its keys or its values, all visit exactly the present entries, each once, with the key it was stored under and its current value. For keys without hash-stored parts the visiting order is fixed: variants in declaration order, true before false, present payloads before the absent option. Values written through mutable iteration, and only those, are what later lookups see.",
  ["inputs", "histories"], "every key type shape, every content, every value written through a mutable iterator",
  "Tests iterate a few fixed contents; a duplicated, skipped or mislabelled entry depends on which neighbouring variants are present.",
  MAPF, [("generated iterators with start/end cursors", A), ("array iterators", U), ("bool iterators", MB), ("option iterators", MO), ("singleton iterators", M1)])
p("C04", "Map iterators can be driven from both ends in any interleaving",
  "Taking items from the front and the back of any double-ended map iterator in any interleaving yields every entry exactly once, with front items in forward order and back items in backward order, and then nothing for ever after. Its size hint always brackets the number of items still to come, and a cloned iterator continues independently with the same remaining items.",
  ["inputs", "schedules"], "every double-ended iterator kind, every content, every interleaving of front and back calls, every point at which the iterator is cloned",
  "Doc examples call rev() on whole iterators; mixed front/back consumption meeting in the middle of a nested variant is never run.",
  MAPF, [("start/end cursors of generated iterators", A), ("array iterators", U), ("two-slot iterators", MB)])
p("C05", "Map retain and clear keep exactly what they should",
  "Filtering a map calls the predicate exactly once for each present entry, with its key and current value, keeps exactly the entries for which it answered true, and keeps value modifications the predicate made to kept entries. Absent keys are never visited or created. Clearing leaves the map empty.",
  ["inputs", "histories"], "every key type shape, every content, every predicate outcome per entry, every value the predicate writes",
  "Tests filter one or two contents with a constant predicate; a visit to an absent key or a wrongly kept entry depends on the content.",
  MAPF, [("generated retain", A), ("array retain", U), ("retain of builtin keys", MB + ", " + MO + ", " + M1)])
p("C06", "Entry API is equivalent to lookup followed by insert or remove",
  "Asking for a key's entry yields an occupied entry exactly when the key is present and a vacant one otherwise; the entry reports that key. Reading, replacing, removing, inserting through it, or-insert (plain, lazily, keyed, default) and and-modify have exactly the effect and results of the corresponding dictionary operations, call their closures only when needed and at most once, and touch no other key; just obtaining and dropping an entry changes nothing.",
  ["inputs", "histories"], "every key type shape, every content, key, value and entry operation",
  "The entry tests use one composite key and constant values; vacant and occupied paths exist separately in every storage kind.",
  [ME, "src/option_bucket.rs"] + MAPF, [("entry enum and adaptors", ME), ("generated composite entries", A), ("slot buckets", "src/option_bucket.rs"), ("entries of builtin keys", MB + ", " + MO + ", " + M1)])
p("C07", "Set point operations behave like a mathematical set",
  "For every key type a set behaves like a mathematical set: insert answers true exactly when the element was absent, remove answers true exactly when it was present, and contains answers true exactly for elements inserted and not removed since. An operation on one element never changes the membership of another, after every history of operations.",
  ["inputs", "histories"], "every key type shape including bit-packed ones up to 128 variants, every content, every sequence of operations",
  "Tests cover a few elements and mostly ignore the boolean results; bit-packed and two-flag storages have wrong results only for particular combinations.",
  SETF, [("flag array and bit masks", U), ("field per variant", A), ("two-bit storage for bool", SB), ("payload set plus flag", SO), ("single flag", S1)])
p("C08", "Set size reporting is exact",
  "A set's length always equals the number of elements for which contains answers true, and it reports itself empty exactly when that number is zero.",
  ["inputs", "histories"], "every key type shape and every subset of elements, reached by any history",
  "Examples check length after one or two insertions; emptiness is a conjunction over parts, wrong only for particular subsets.",
  SETF, [("count over flags or bits", U), ("sum over fields", A), ("payload plus flag", SO), ("bits for bool", SB)])
p("C09", "Set iteration visits each element exactly once, from either end",
  "Iterating a set by reference or by value visits exactly its elements, each once, in the fixed order of the key type (variants in declaration order, true before false, payloads before the absent option). Where iteration is double-ended, any interleaving of front and back calls yields every element exactly once in the matching orders and then nothing for ever after; size hints bracket the remaining count and a cloned iterator continues independently.",
  ["inputs", "schedules"], "every key type shape, every content, every interleaving of front and back calls and cloning point",
  "Tests iterate a few fixed contents forwards.",
  SETF, [("array of optional variants, flattened", U), ("generated cursor iterators", A), ("iterators of builtin keys", SB + ", " + SO + ", " + S1)])
p("C10", "Set retain and clear keep exactly what they should",
  "Filtering a set calls the predicate exactly once per element it contains, keeps exactly the elements for which it answered true, and never visits or creates an absent element. Clearing leaves the set empty.",
  ["inputs", "histories"], "every key type shape, every content, every predicate outcome per element",
  "One doc example per storage with constant predicates; resurrection of an absent element needs the absent element and an always-true predicate.",
  SETF, [("generated retain", A), ("flag and bit retain", U), ("retain of builtin keys", SB + ", " + SO + ", " + S1)])
p("C11", "Intersection yields exactly the common elements",
  "The intersection of two sets yields every element contained in both, once, in iteration order, and nothing else; consuming it step by step, by folding, or through a clone made at any point gives the same elements, its size hint brackets what remains, and swapping the operands does not change the result. Neither operand is modified.",
  ["inputs"], "every key type shape, every pair of contents, every split between stepping and folding",
  "One doc example with three variants.",
  ["src/set/intersection.rs", S], [("filtering iterator with fold", "src/set/intersection.rs"), ("constructor", S)])
p("C12", "Equality, cloning, copying and hashing follow the contents",
  "Two maps are equal exactly when they hold the same keys with equal values, two sets exactly when they hold the same elements, however they were built. A clone or copy is equal to its original and afterwards independent of it. Equal containers feed identical data to a hasher.",
  ["inputs", "histories"], "every key type shape, every pair of contents and histories reaching them",
  "Examples compare two or three literals; stale data of removed entries can only leak into comparisons after particular histories.",
  MAPF + SETF, [("derived and generated comparisons", U + ", " + A), ("forwarding impls", M + ", " + S), ("builtin storages", MB + ", " + MO + ", " + M1 + ", " + SB + ", " + SO + ", " + S1)])
p("C13", "Container ordering is lexicographic in declaration order",
  "Where containers are ordered, a map compares as the sequence of its (key position, value) pairs and a set as the sequence of its element positions, in declaration order and irrespective of explicit discriminants or of bit packing. Total and partial order agree with each other and with equality, values that cannot be compared make the maps incomparable exactly when the lexicographic comparison reaches them, and max, min, clamp and the comparison operators are consistent with the order.",
  ["inputs"], "every orderable key type shape (up to several variants, with custom discriminants, bit-packed or not), every pair and triple of contents, every value including incomparable ones",
  "The documentation states the order with a few literal examples for one storage flavour.",
  ["src/macro_support.rs", "src/key.rs", M, S, U], [("comparison helpers over slots and flags", "src/macro_support.rs"), ("generated ordering impls", U), ("forwarding incl. max/min/clamp", M + ", " + S)])
p("C14", "Bit-packed sets behave like plain sets and survive raw round trips",
  "A set over a bit-packed key answers every operation exactly as the same set over an ordinary key would. Its raw form has exactly the bits of the elements it contains, by declaration position, and rebuilding from that raw value gives an equal set; rebuilding from any raw value at all gives a set whose length, emptiness, equality, membership and iteration agree with each other.",
  ["inputs", "histories"], "every variant count at and around each word-size boundary up to 128, every content, every operation, every raw value",
  "Tests use three variants and one raw value; shift widths and masks differ at every word size.",
  [U, "src/raw.rs", S], [("bit masks and word size selection", U), ("raw access", "src/raw.rs, " + S)])
p("C15", "Serialization round-trips and reports faithfully",
  "Serializing a map or set presents exactly its entries once each, in iteration order, with the exact length announced; an error from the serializer stops it and is returned. Deserializing a stream of entries in any order, with repetitions, gives the container obtained by inserting them one by one (the last value of a repeated key wins), and the first error of the stream is returned.",
  ["inputs", "fault_sequences"], "every content, every input stream up to the bound, every position at which serializer or deserializer fails",
  "No test in the repository exercises the serde implementations with more than the happy path.",
  [M, S], [("map impls", M), ("set impls", S)])
p("C16", "Collecting equals inserting one by one",
  "Building a map from an iterator of pairs, or a set from an iterator or an array, gives the same container as inserting the items one after the other into an empty one: the last value of a repeated key wins, and every item is consumed.",
  ["inputs"], "every sequence of keys and values up to the bound, with repetitions",
  "One doc example with a fixed three-element list.",
  [M, S], [("collecting into a map", M), ("collecting into a set, arrays", S)])
p("C17", "Every value is handed back or dropped exactly once, without undefined behaviour",
  "Every value put into a map is either handed back to the caller or dropped, exactly once: when replaced, removed, filtered out, cleared, taken by a consuming iterator stopped at any point from either end, removed through an entry, or dropped with the map. No operation leaks a value, drops it twice or reads freed, uninitialised or out-of-range memory, overflows or panics.",
  ["inputs", "histories"], "every key type shape, every content, every operation, every point at which a consuming iterator is abandoned",
  "Tests use plain integers, whose double drop or leak is invisible, and cannot observe undefined behaviour.",
  ["src/option_bucket.rs", ME] + MAPF, [("unchecked access and raw writes in slot buckets", "src/option_bucket.rs"), ("take/replace in storages", U + ", " + A + ", " + MO + ", " + MB)])
p("C18", "Option buckets give exact views of an optional slot",
  "Viewing an optional slot yields an occupied view exactly when it holds a value and a vacant one otherwise. Reading, replacing, mutating, consuming and taking through the occupied view, and inserting through the vacant one, have exactly the effect and result on the slot that matching on it by hand would have, including for values that own resources.",
  ["inputs"], "every slot content and every sequence of operations permitted by the view",
  "Unit tests use one constant value per method; the views rely on unchecked accesses whose failure is silent undefined behaviour.",
  ["src/option_bucket.rs"], [("occupied view", "src/option_bucket.rs"), ("vacant view", "src/option_bucket.rs")])
p("C19", "Keys with dynamic parts behave like dictionaries and sets too",
  "Key types with hash-stored parts (numbers, characters, static strings), alone or mixed with other variants, obey the same dictionary and set laws: point operations, sizes, complete duplicate-free iteration, filtering, entries, equality by contents. Distinct payloads never collide and equal payloads never split, whichever variant carries them.",
  ["inputs", "histories"], "every payload value of the checked integer types, every content within the bound, every operation; the hash table itself is taken to honour its contract",
  "Doc examples use one or two literal payloads per type.",
  [MH, SH, A, "src/key.rs"], [("adapters onto the hash table", MH + ", " + SH), ("dynamic key types", "src/key.rs"), ("composite storage", A)])
p("C20", "Debug output shows exactly the contents",
  "Formatting a map or set for debugging succeeds and shows exactly its entries, each once, in iteration order; formatting an intersection shows exactly the elements it would still yield and does not consume them.",
  ["inputs"], "every key type shape and content within the bound",
  "One or two doc examples print a literal container.",
  [M, S, "src/set/intersection.rs"], [("debug impls", M + ", " + S + ", src/set/intersection.rs")])
p("C21", "Unsupported key definitions are rejected at compile time",
  "Deriving the key trait for a definition the library does not support (a struct, a variant with several or named fields, an unknown attribute option, a bit-packed enum with more than 128 variants) is rejected at compile time with a diagnostic that names the problem, and every supported definition compiles.",
  ["programs"], "every type definition the macro can be applied to",
  "No compile-fail tests exist in the repository.",
  ["fixed-map-derive/src/lib.rs", "fixed-map-derive/src/attrs.rs", "fixed-map-derive/src/context.rs", U, A], [("error collection", "fixed-map-derive/src/context.rs"), ("attribute parsing", "fixed-map-derive/src/attrs.rs")])
p("C22", "A panicking callback leaves containers valid",
  "If a predicate, or-insert closure, value clone or value drop supplied by the caller panics, the container it was working on is still valid: it can be read and dropped, each value is dropped at most once, and no memory is corrupted.",
  ["fault_sequences"], "every callback invocation at which a panic can start",
  "No test unwinds through a container operation.",
  MAPF + SETF + ["src/option_bucket.rs", ME], [("retain with partial updates", U + ", " + A), ("bucket replacement", "src/option_bucket.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
