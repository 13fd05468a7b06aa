#!/usr/bin/env python3
"""Writes properties.jsonl. One P(...) per property."""
import json, os
ALL = []
H = "lib/h/ce/"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=[H + f if f.endswith(".h") and "/" not in f else f for f in files],
             mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    ALL.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


P("C01", "Integer text is exact for every value of every integer type",
  "The text of an integer is its shortest decimal form (a '-' for negative values, no leading zeros or signs), for every value of each signed and unsigned 8, 16, 32 and 64 bit type, including the extremes. The returned end is exactly past the last digit and nothing at or past it, or before the start, is written.",
  ["inputs"], "every value of every integer type", "tests convert one or two numbers; digit-pair tables, carries and the most negative values need every magnitude",
  ["lib/to_text.cpp", "ce.h"], [("digit extraction by magic multiplication", "lib/to_text.cpp"), ("type dispatch", "ce.h to_text(char[], T const&)")])
P("C02", "Float and double text reads back to the same value, as short as possible",
  "Text of any finite float or double parses back to exactly the same value of that type, and is never longer than the shortest scientific notation that does. Infinities and not-a-number read back as themselves, and nothing is written outside the returned text.",
  ["inputs"], "every float and double bit pattern", "no existing test converts a floating point value",
  ["lib/to_text.cpp", "ce.h"], [("shortest round trip conversion", "lib/to_text.cpp to_text(char[], double) / (float)")])
P("C03", "Text of composite values is built from the texts of their parts",
  "Text of booleans, characters, strings, pointers, enums, vectors and (nested) arrays is the fixed form of each: the parts' own texts in order, bracketed and separated for vectors and arrays. Text of several values is the concatenation of their texts, and the returned end is exactly past the last character.",
  ["inputs"], "every value of 64 composite types, nested, with random contents", "tests cover a handful of literal values of few types",
  ["ce.h", "lib/to_text.cpp"], [("to_text overload set", "ce.h"), ("to_text_n / array recursion", "ce.h")])
P("C04", "Strings formed in place hold the whole text and never overflow their storage",
  "Forming a null terminated string from any combination of values gives exactly the concatenated text of the values (strings of unbounded length are cut at 1024 characters) followed by a terminator. The storage reserved for a combination of types is always enough, whatever the values.",
  ["inputs"], "every pair out of 38 types (among them null and unterminated strings and arrays of strings) and random triples, with the widest values of each", "tests form strings of one or two fixed values; the storage bound is a per type maximum that only the widest values reach",
  ["ce.h"], [("measure<T>", "ce.h"), ("as_string", "ce.h"), ("to_text_m", "ce.h")])
P("C05", "Structured log records pair each expression's source text with its value",
  "A structured log record carries, in order, the level and then one pair per argument: the argument's source text (outer spaces trimmed; commas inside parentheses, brackets, braces, strings and character literals do not split) and the text of its value. A message record carries the level and the concatenated text of all its values.",
  ["programs", "inputs"], "every list of 1 to 12 argument expressions, and 24 log statements with every value of their arguments", "tests log one or two fixed statements",
  ["ce.h"], [("names: splitting of the stringised arguments", "ce.h struct names"), ("call_log_hook", "ce.h"), ("CE_LOG / CE_LOG_MSG", "ce.h")])
P("C06", "Default log and error output writes one complete line per record to stderr",
  "The default log hook writes each record as a single line to standard error: the level's letter and then every key and value in order, quoted, whatever their number, and the default error hook reports likewise and asks for a break. Nothing is written to standard output and no record is lost or cut, even when writes are interrupted or take only a part.",
  ["inputs", "histories"], "every record of 0 to 7 pairs of arbitrary text, in sequences", "tests never look at the output of the default hooks",
  ["lib/os_posix.cpp", "lib/os.cpp"], [("default hooks", "lib/os.cpp"), ("debug_out", "lib/os_posix.cpp")])
P("C07", "Checks report exactly the failures, once, with the failing expression and values",
  "A checking statement evaluates its condition (once) exactly when its kind says so, yields the documented truth value, and calls the error hook exactly when the condition fails, with the file, line, source text of the condition and the texts of the extra values in order. The hook's answer decides whether execution breaks. With reports compiled out only the condition is evaluated, for its truth value, and nothing is reported.",
  ["inputs", "configurations"], "22 checking statements with every truth value, argument values and hook answer, with assertions on and off", "tests only use checks that pass",
  ["ce.h"], [("CE_ASSERT / CE_VERIFY / CE_FAIL family", "ce.h"), ("call_error_hook", "ce.h")])
P("C08", "CRC-32 equals the bitwise definition for any data, polynomial and split",
  "The 32 bit checksum of any byte, 32 bit word or 64 bit word sequence under any polynomial equals the bit at a time reflected CRC of its little endian bytes. Feeding data in consecutive pieces, each starting from the previous result, gives the checksum of the whole, and the checksum of text is that of its characters.",
  ["inputs"], "every data, polynomial out of a set, start value and split into pieces", "tests check a few fixed strings",
  ["ce.h"], [("slicing tables", "ce.h detail::crc32::table"), ("crc loops", "ce.h crc32")])
P("C09", "FNV-1a hashes equal the byte definition for every element type",
  "The 32 and 64 bit FNV-1a hash of an array of any integer type equals hashing its elements' little endian bytes one by one, from any start value. Hashing in pieces equals hashing the whole, and the hash of text is that of its characters.",
  ["inputs"], "arrays of every integer type, lengths, start values and splits", "tests compare a couple of constants",
  ["ce.h"], [("fnv1a", "ce.h")])
P("C10", "Random generators produce the published streams from any state and seed",
  "From any state, the three random generators produce exactly the published xoroshiro64**, xoroshiro128++ and PCG32 (XSH-RR) sequences and next states, also when 32 or 64 bit results are requested. Seeding from bytes is a fixed function of all the bytes: the same bytes always give the same stream.",
  ["inputs", "histories"], "every state, seed data of any length, and call history", "tests draw a few numbers from default states",
  ["ce.h"], [("xoroshiro64ss / xoroshiro128pp", "ce.h"), ("pcg32 read / step / seed", "ce.h")])
P("C11", "Bounded random draws stay in range and the unbiased form is exactly unbiased",
  "A bounded draw is always below its bound and takes its value by scaling a raw draw. The unbiased form accepts exactly the same number of raw draws for every result, skips only raw draws it must reject, and advances the generator by the draws it consumed.",
  ["inputs"], "every bound 1..2^32-1 and raw draw stream", "bias of the order of n / 2^32 cannot be seen in samples; only counting raw draws at the bucket edges shows it",
  ["ce.h"], [("next_ranged", "ce.h"), ("next_unbiased", "ce.h")])
P("C12", "Base64 decoding inverts encoding at the exact reported size",
  "Decoding the base64 text of any bytes returns those bytes, with or without padding and whatever follows the text, and the reported size is the number of bytes encoded. Decoding a prefix reads no more text than that prefix needs and writes nothing past it.",
  ["inputs"], "every byte string, padding, terminator and prefix", "tests decode one fixed text",
  ["ce.h"], [("base64::size / decode", "ce.h")])
P("C13", "LZ decompression of any valid stream restores the described bytes exactly",
  "Decompressing any valid stream of literals and back references (distance up to 4096, length 3 to 18, overlapping allowed) gives exactly the described bytes, and the reported size is their number. No byte outside the source and destination is touched.",
  ["inputs"], "every token sequence", "tests decode one or two constant streams",
  ["lziii.h"], [("lziii::size / decode", "lziii.h")])
P("C14", "Fixed capacity list behaves as a sequence and balances object lifetimes",
  "Over any history of pushes, pops, removals (ordered or not), copies, assignments, resizes and clears, the fixed capacity list holds exactly the items a plain sequence would, and operations that do not fit are rejected without effect. Every item constructed is destroyed exactly once and no item is used before construction or after destruction.",
  ["histories"], "every operation history over several capacities and item types", "no test exercises the container beyond trivial use",
  ["ce.h"], [("bulk", "ce.h"), ("construct_at / destroy_at / assign_items", "ce.h")])
P("C15", "Priority queue returns items smallest first and never loses one",
  "Over any history of insertions and removals the bounded priority queue always yields the smallest item it holds, accepts an item exactly when it is not full, and neither loses nor duplicates items. The underlying heap steps keep the heap order of any array they are applied to.",
  ["histories"], "every insertion / removal history for several capacities and item types", "no test covers the queue",
  ["ce.h"], [("heap_raise / heap_lower", "ce.h"), ("min_priority_queue", "ce.h")])
P("C16", "Fixed size bit set updates exactly the addressed bits",
  "Over any history of single bit and whole set operations, each bit reads as last written and no other bit, and no memory outside the set, changes.",
  ["histories"], "every history for many set sizes (multiples of the word size or not)", "no test covers bit sets",
  ["ce.h"], [("bitset", "ce.h")])
P("C17", "Span slicing keeps to the original range and failed mappings are empty",
  "Skipping from the front or trimming from the back of a span by any count, however large, leaves exactly the remaining items of the original (or none), never items outside it. Mapping a file that cannot be mapped reports failure and gives an empty span.",
  ["inputs", "histories"], "every chain of slices with any 64 bit counts; arbitrary unmappable paths", "tests never slice past the end",
  ["ce.h", "lib/os_posix.cpp"], [("skip / trim", "ce.h"), ("map_span", "lib/os_posix.cpp")])
P("C18", "Pooled queues never share a node and use the whole pool",
  "Any number of queues sharing one pool each behave as an independent queue (insertion at either end, removal from the head) over any history: items come back in order, unchanged, exactly once. Allocation fails exactly when every node is in use, and released nodes can be used again.",
  ["histories"], "every operation history over several pool sizes, index types and numbers of queues", "tests run one short fixed sequence",
  ["pool.h"], [("pool free list", "pool.h"), ("queue links", "pool.h")])
P("C19", "Dictionary maps each key to its own slot until capacity, with stable handles",
  "Over any history of binds, rebinds, writes and lookups, a key is found exactly when bound, with the value last given to it, whatever the key (0 included), and handles stay valid. A bind fails exactly when the dictionary is full and then changes nothing; values' lifetimes balance.",
  ["histories"], "every history for several capacities, with colliding keys", "the test binds a few distinct keys",
  ["dictionary.h"], [("probing", "dictionary.h")])
P("C20", "Sorting yields a sorted permutation within O(n log n) steps for any input",
  "Sorting any array with any strict weak order leaves a sorted permutation of its items and touches nothing outside the range. The number of comparisons stays within a constant factor of n log n, even against an adversary that chooses the order while the sort runs.",
  ["inputs"], "arrays of any length and pattern (sorted, reversed, few values, organ pipe, adversarial), several item types", "tests sort one random array",
  ["sort.h"], [("intro_sort", "sort.h"), ("insertion / heap sort", "sort.h"), ("partition, median of three", "sort.h")])
P("C21", "Binary searches return the exact lower and upper bounds",
  "On any sorted range, duplicates included, the lower bound is the first position not less than the key and the upper bound the first position greater than it, for keys inside and outside the range of values. The z-order search does the same in z-order.",
  ["inputs"], "sorted arrays with duplicates, keys present, absent, and outside", "tests search few fixed arrays",
  ["sort.h", "zorder.h"], [("lower_bound / upper_bound", "sort.h"), ("z_lower_bound", "zorder.h")])
P("C22", "Z-order codes interleave coordinates reversibly and box tests are exact",
  "The z-order code of a pair of signed 32 bit coordinates interleaves their bits, so both coordinates can be recovered and each axis keeps its order. Testing whether a code lies in the box of two codes gives exactly the coordinate-wise answer.",
  ["inputs"], "every coordinate pair and box", "tests check a few codes",
  ["zorder.h"], [("z encode", "zorder.h"), ("box test", "zorder.h")])
P("C23", "A z-order range query misses no stored point of the box",
  "A range query over stored points sorted in z-order returns every stored point inside the box, in ascending z-order, each stored entry at most once, and never anything that is not stored. Extra points it may return (to be filtered by the caller) lie in the box's z-code range rounded up to the query's granularity.",
  ["inputs"], "every set of points (clustered, duplicated, at range ends) and box", "tests run one query on one point set",
  ["zorder.h"], [("z_query range splitting", "zorder.h")])
P("C24", "Vector arithmetic is component wise and widening products are exact",
  "Vector operators act on each component alone; square, dot and cross products of 32 bit components are computed exactly in 64 bits. Comparisons are true exactly when the components say so.",
  ["inputs"], "every component value for vectors of 2 and 3 components", "tests check few values",
  ["ce.h", "math.h"], [("vec operators", "ce.h"), ("sqrx / dotx / crossx", "ce.h")])
P("C25", "Product comparisons and distance range tests are exact for all 32/64 bit values",
  "Comparing products of 64 bit integers, and testing whether a point lies within a distance of a point, line edge or capsule, gives the mathematically exact answer for all supported coordinates, without overflow or rounding.",
  ["inputs"], "every coordinate and radius, concentrated at equality and near overflow", "boundary cases decide within one unit in 2^128; tests use small numbers",
  ["math.h"], [("128 bit compare", "math.h ab_less_cd"), ("in_range_rr*", "math.h")])
P("C26", "Point in triangle tie breaking gives each point to exactly one triangle",
  "The directed inside test of two vectors is antisymmetric even for collinear vectors, so in any planar mesh of non-degenerate triangles each point, including those on edges and vertices, is inside exactly one triangle of the mesh when it is inside its outline and none otherwise.",
  ["inputs"], "every vector pair, and random meshes probed at vertices, edges, faces and outside", "needs points exactly on shared edges and vertices of arbitrary meshes; tests use few points",
  ["math.h"], [("inside: simulation of simplicity", "math.h")])
P("C27", "Point in polygon is the winding number for every point off the outline",
  "For any closed polygon, self crossing or not, and any point not on its outline, the point in polygon count equals the winding number around the point, for integer coordinates of any size that fit.",
  ["inputs"], "random polygons (level edges, vertices at the same height, repeated points) and points", "tests use one simple polygon",
  ["ce.h"], [("in_polygon_xy", "ce.h")])
P("C28", "Integer square root and hypotenuse are correctly rounded, normals are unit",
  "The integer square root and hypotenuse are the true value rounded to the nearest integer over their whole range and never decrease. The normal of any non-zero vector points the same way with unit length, to float precision of the estimate (1/2048).",
  ["inputs"], "every value; concentrated at squares and half way points", "tests check a few roots",
  ["math.h"], [("isqrt / hypot", "math.h"), ("normal", "math.h")])
P("C29", "Fixed point rotation and polar conversion are accurate to two units",
  "Rotating by a fixed point angle, sines and cosines scaled by a radius, and conversion to polar form are within two units of the exact result (angles within three units plus the quantisation of the input) for all radii up to 2^30 and all angles, and agree between their forms. Whole turns change nothing, and degrees convert exactly.",
  ["inputs"], "every radius, angle and vector", "tests look at a few angles; errors hide near octant boundaries and for small radii",
  ["math.h"], [("cordic rotation / vectoring", "math.h"), ("degrees_to_angle", "math.h")])
P("C30", "Scaling by a ratio and line intersection are accurate to three units",
  "Scaling a vector by a ratio of two integers is within three units of the exact rational result wherever that fits (exact for 32 bit ratios), and returns the vector for a zero divisor. The intersection of two lines is within three units of the exact point, and parallel lines are reported exactly.",
  ["inputs"], "every ratio of 62 bit integers and line pair with a representable result", "needs large divisors and cancelling products",
  ["math.h"], [("muldiv", "math.h"), ("intersect", "math.h")])

P("C31", "Triangulating points gives the Delaunay triangulation of the accepted points",
  "After any series of point insertions the mesh is a valid triangulation of the whole square whose vertices are exactly the corners and the accepted points (rounded down to the grid), and it is Delaunay: no vertex lies strictly inside the circle through a face's corners. A point is accepted exactly when it is inside the square and the mesh has room, or it is already there; a rejected point changes nothing. Search hints never change the outcome.",
  ["inputs", "histories"], "every series of points, on five grids and capacities, with clustered, collinear, cocircular and duplicate points, and every hint", "tests insert a few points; degenerate positions, full meshes and bad hints need search",
  ["cdt.h"], [("point location walk", "cdt.h locate"), ("insertion and edge flips", "cdt.h insert_point"), ("incircle / orientation", "cdt.h")])
P("C32", "Constrained edges are kept for good and join their ends in a valid mesh",
  "Whatever points and constrained edges are inserted, the mesh stays a valid triangulation, no vertex is ever lost, and every constrained edge stays one (possibly split at vertices on it). An insertion that reports success leaves both ends in the mesh joined by constrained edges; a segment along existing edges, or crossing a single unconstrained one, is made exactly and only fails when the mesh is full. Insertions always finish.",
  ["inputs", "histories"], "every series of points and segments, crossing or not, on five grids and capacities", "tests insert one outline; crossings, full meshes and collinear vertices need search",
  ["cdt.h"], [("edge insertion", "cdt.h insert_edge"), ("constrained flags", "cdt.h")])
P("C33", "Locating a point finds the one face that holds it, whatever the hint",
  "For any mesh, with or without constrained edges, locating a point gives the one face it is inside of, with points on edges and vertices given to exactly one of the faces around them, and nothing for points outside the square. The answer does not depend on the hint and the search always ends.",
  ["inputs", "histories"], "every mesh and point (at vertices, on edges, off the grid, outside) and hint", "tests never look at located faces of degenerate points",
  ["cdt.h", "math.h"], [("walk", "cdt.h locate"), ("tie breaking", "math.h inside")])
P("C34", "Filling marks exactly the region bounded by constrained edges",
  "Filling from a face with a value gives that value to exactly the faces reached from it without crossing a constrained edge or a face that has the value already, and changes nothing else of the mesh. Points and edges inserted later keep the value of the region they are in.",
  ["inputs", "histories"], "every mesh, series of fills and later insertions", "no test fills anything",
  ["cdt.h"], [("fill", "cdt.h fill"), ("face data on split", "cdt.h insert")])
P("C35", "Character classes, enum views, colour views and rotation are exact",
  "The character classes (decimal, hexadecimal, base64, alphabetic, upper, lower) hold for exactly the ASCII characters they name, whatever the character's sign. Viewing an enum as a number or a colour as an array gives the same bits in the same place, and rotating by any count is a rotation.",
  ["inputs"], "all 256 characters, every enum value of 8 underlying types, colours, rotations", "tests look at a few characters",
  ["ce.h"], [("ascii", "ce.h"), ("as_cast", "ce.h"), ("rgba", "ce.h"), ("CE_ROTL32", "ce.h")])
P("C36", "Atomic operations act as plain operations that return the value before",
  "On one thread an atomic of any supported type (booleans, integers, enums, pointers, floating point, small structures) acts as a plain variable: loads give the last value stored, exchange and arithmetic return the value before them, and a compare exchange stores exactly when the values are equal and otherwise hands out the current value. A new atomic is zero or its initial value, and nothing around it changes.",
  ["inputs", "histories"], "every history of operations on atomics of every supported type", "tests run a few operations on one type",
  ["atomic.h", "atomic_std.h"], [("operations", "atomic_std.h")])
P("C37", "Concurrent atomic operations lose no update and order other memory",
  "Updates made at once by several threads are each counted exactly once, whichever of fetch-add, fetch-sub, exchange or compare exchange is used, and each old value is seen exactly once. A thread that reads a stored value also sees everything written before that store, and of two threads that each store and then read the other's variable at least one sees the other's store.",
  ["inputs", "schedules"], "generated scenarios of 2 to 4 threads, run free on several cores and under a race detector", "tests are single threaded",
  ["atomic.h", "atomic_std.h"], [("memory order of each operation", "atomic_std.h")])
P("C38", "Mutexes give exclusive or shared access exactly as asked",
  "At any moment a mutex is held by one thread, or a shared mutex by one writer or any number of readers: a try succeeds exactly when it may at that moment, a waiting thread is let in once the lock is free for it and not before, and a try never waits. A thread that gets the lock sees what earlier holders wrote. Locks are independent of each other and need no particular memory before construction.",
  ["inputs", "schedules", "histories"], "every history of try / acquire / release by 2 or 3 threads on two locks, and free running contention", "tests never contend for a mutex",
  ["mutex.h", "lib/mutex_std.cpp"], [("thread_mutex / thread_shared_mutex", "lib/mutex_std.cpp")])
P("C39", "A clock counts exactly the elapsed ticks however it is polled",
  "A clock of any rational rate counts exactly the whole ticks that fit in the time since its reset, for any frequency of the time source, with no drift however often or seldom it is polled; polling for new ticks hands out each tick once. The time source may wrap around.",
  ["inputs", "histories"], "every polling history for many rates and source frequencies, over spans far beyond a test's run time", "tests would need days of real time to see drift; no test covers clocks",
  ["clock.h"], [("tick accumulation", "clock.h")])
P("C40", "Timestamps are monotonic nanoseconds and sleeping waits the whole time",
  "A timestamp is the system's monotonic clock in nanoseconds (0 if the clock cannot be read) and the reported frequency is its unit. Sleeping for any number of nanoseconds asks the system for exactly that time, in valid requests, even when signals interrupt the sleep.",
  ["inputs", "faults"], "every time and sleep duration up to 2^64 ns, failures to read the clock, and signals at any point of a sleep", "tests cannot set the clock or wait for long sleeps",
  ["lib/os_posix.cpp"], [("monotonic_timestamp / sleep_ns", "lib/os_posix.cpp")])
P("C41", "Names of enum items and types are the source names, and map back",
  "The name of an enum value is exactly the name of the item with that value as written in the program, whatever scope (named, nested or unnamed namespaces, classes, templates) and underlying type the enum has, and is marked unknown for values without an item. Turning an item's name back into the enum gives the item, and any other text gives the failure value. Type names are as in the source.",
  ["programs", "inputs"], "generated programs with enums of every kind, all their items, and values and texts that are not items", "tests name items of one or two enums",
  ["nameof.h"], [("parsing of the compiler's function names", "nameof.h"), ("as_enum", "nameof.h")])
P("C42", "Visiting a described type sees each bound member once, by name, in order",
  "Passing a value of a type described to the visitor interface calls the visitor for every bound member once, in the order given, with its name exactly as written and the member itself, entering and leaving classes, arrays and lists around their parts with the right sizes. Writing through a visitor never changes the value, and reading back what was written restores it.",
  ["programs", "inputs"], "generated programs with nested described types (arrays, lists, vectors, base classes, partial and reordered members) and random values", "tests visit one fixed type",
  ["io.h"], [("CE_IO_BIND / CE_IO_AS", "io.h"), ("names_t", "io.h"), ("item / items", "io.h")])

P("C43", "Type lists, traits, sequences and aggregate access follow their definitions",
  "For any list of types the list operations (count, first, rest, n-th, conditional, all the same, contains) and the type traits (removing references, qualifiers, pointers; being a pointer or enum; underlying type; best way to pass) agree with the standard library's definitions. An integer sequence of any length counts up from zero in its type, counting an array's items or a macro's arguments gives their number, and the n-th member of any aggregate of up to four members is that member's value.",
  ["programs", "inputs"], "generated programs with random types (qualified, pointers, references, arrays, functions, enums, classes), lengths and aggregates", "no test uses most of these; the sequences are built by doubling, which only goes wrong at some lengths",
  ["ce.h"], [("items / types / select / are_same / has", "ce.h"), ("remove_* / is_ptr / best_pass_by_value_t", "ce.h"), ("sequence", "ce.h detail::sequence"), ("get of aggregates", "ce.h detail::crack")])
P("C44", "Values computed by the compiler equal the same computation at run time",
  "Checksums, hashes, embedded base64 and compressed data, character classes, vector products and degree conversion can be evaluated as constants for any arguments, without undefined behaviour. The constants equal both the definition and what the same call gives at run time.",
  ["programs", "inputs"], "generated programs with random arguments for every constant function; the compiler itself rejects out of range accesses, overflow and uninitialised reads", "tests evaluate few constants; the compiler's evaluation is a strict check of every step that no run of the program makes",
  ["ce.h", "lziii.h", "math.h"], [("constexpr functions", "ce.h, math.h, lziii.h"), ("base64::decoder / lziii::decoder", "ce.h, lziii.h")])

P("C45", "Logs and checks do exactly as configured wherever a statement may stand",
  "A log statement that is on makes one record with its level, the source text of each value as its name, and the value's text; one that is off evaluates and reports nothing. A check evaluates its condition once and yields its documented truth value in every configuration, and evaluates its values, reports and breaks only for a failure with reports on. None of this depends on where the statement stands (branches, loops, operators, lambdas, templates, initialisers) or on how its arguments are written.",
  ["programs", "configurations"], "generated programs with random statements, places, argument expressions (nested commas, strings, quotes, templates, side effects) and hook answers, in eight configurations", "tests log a few fixed values in one configuration",
  ["ce.h"], [("CE_LOG / CE_LOG_MSG", "ce.h"), ("CE_ASSERT / CE_VERIFY / CE_REJECT / CE_ERROR", "ce.h"), ("splitting of the argument text", "ce.h")])
P("C46", "Any headers, in any order and any number of units, build one working program",
  "A program may include any of the library's headers, in any order, before or after standard headers, in any number of its source files, each compiled with its own options: it compiles, links without duplicate or missing definitions, and every part used gives its documented results. Names of variables, functions, types and namespaces the program itself declares at global scope, before or after the headers, never disturb the library nor are disturbed by it (except the library's own namespace name, its CE_ macros and names of the standard library).",
  ["programs", "configurations"], "generated programs of 1 to 3 source files with random headers, orders, standard headers, own global names, options and uses of every part of the library", "the tests build one fixed set of files, each with its own fixed includes",
  ["ce.h", "io.h", "math.h", "cdt.h", "atomic.h", "mutex.h", "zorder.h", "pool.h", "lib/os_posix.cpp"], [("include guards, includes and inline definitions of every header", "lib/h/ce/*.h"), ("out of line definitions", "lib/*.cpp")])
P("C47", "Helper macros pick, join, quote, switch and count their arguments as written",
  "For any arguments (tokens with balanced parentheses, strings and characters, also empty ones) the helper macros select the n-th argument, apply a macro to each, join, quote, group, pass on or drop them and switch between two of them by a condition, giving exactly the tokens written and evaluating nothing. Counting an array or arguments gives a constant of their exact number, the place of a line is its file and number, a compile time assertion is rejected exactly when its condition is false, and a folded expression runs once per item in order. The platform switches and the sizes and signs of the basic types agree with the compiler's own.",
  ["programs", "inputs"], "generated programs with random tokens, conditions, arrays, packs and places for every helper macro; thousands of generated compile time conditions, of which exactly the false ones have to be rejected", "tests use a few of the macros, each with one fixed argument",
  ["ce.h"], [("CE_PP_*", "ce.h"), ("CE_COUNTOF / CE_COUNTOF_ARGS / CE_REF", "ce.h"), ("CE_FILELINE / CE_STATIC_ASSERT / CE_FOLD_LEFT_COMMA", "ce.h"), ("CE_API_* / CE_CPU_*", "ce.h")])

P("C48", "On Windows, files, mappings, sleeping, memory and locks use the system correctly",
  "On Windows, opening, mapping or closing a file named by any valid UTF-8 text acts on exactly the file of that name, read only and shareable with other readers; a mapping holds the file's exact bytes and size until it is removed, any failing step gives an empty mapping and reports failure, and no system handle stays open. Sleeping takes at least the time asked for and never for ever, memory comes zeroed and writable, time and frequency are the system counter's and debug text arrives unchanged. Locks admit and refuse exclusive and shared holders as on other systems.",
  ["inputs", "sequences", "faults"], "histories on a small Windows inside the check, with files, handles, mappings, views, locks, a sleeping clock and a fault at any call, under which the real Windows sources run", "no test runs the Windows side on this system, and none anywhere injects a failing call",
  ["os_win32.cpp", "mutex_win32.cpp", "os.h", "mutex.h"], [("file_open / file_close / file_map / file_unmap", "lib/os_win32.cpp"), ("sleep_ns / time_ticks / virtual_alloc / debug_out", "lib/os_win32.cpp"), ("mutex_* ", "lib/mutex_win32.cpp")])
P("C49", "Atomics built for Microsoft's compiler are atomics too",
  "With the Microsoft compiler's intrinsics every atomic of every size behaves on one thread exactly like a plain variable of its type, each operation returning the value it had before. With several threads no addition, subtraction or exchange is lost or doubled, no value is torn, and what a thread wrote before publishing is seen by whoever reads the publication.",
  ["histories", "schedules"], "random histories of operations on atomics of every width and kind against a plain variable, and scenarios with several threads, with the intrinsics of that compiler replaced by equivalent ones of this one", "no test builds this side; order and width slips show only in particular operations",
  ["atomic_msvc_x86.h", "atomic.h"], [("atomic<T> on intrinsics", "lib/h/ce/atomic_msvc_x86.h")])


if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith("props_") and f.endswith(".py"):
            exec(open(os.path.join(here, f)).read())
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in sorted(ALL, key=lambda p: p["id"]):
            f.write(json.dumps(p) + "\n")
    print(len(ALL))
