"""One entry per property: harness source, runs as (config, quick cases, thorough cases), optional libFuzzer runs per process."""
PROPS = {
    "C01": dict(src="c01_int_text.cpp", runs=[("rel", 16200, 50000), ("dbg", 3000000, 20000000)], fuzz=4000000, fuzz_len=64,
                rule="a case is one integer of one of the ten integer types, or a block of consecutive values of an enumeration; non-trivial: more than one digit",
                exhaustive="all 8, 16 and 32 bit values; every 8-digit chunk in each position of a 64 bit value (with random other chunks)"),
    "C02": dict(src="c02_float_text.cpp", runs=[("rel", 10000000, 400000000), ("dbg", 800000, 20000000)], fuzz=2000000, fuzz_len=64,
                rule="a case is one float or double bit pattern; non-trivial: text longer than 3 characters"),
    "C03": dict(src="c03_value_text.cpp", runs=[("dbg", 10000000, 100000000), ("rel", 10000000, 100000000)], fuzz=600000, fuzz_len=1024,
                rule="a case is one value (or list of values) of one of 64 types with random contents; non-trivial: more than 2 characters of text"),
    "C04": dict(src="c04_as_string.cpp", runs=[("dbg", 2000000, 60000000), ("rel", 2000000, 60000000)], fuzz=400000, fuzz_len=2048,
                rule="a case is one as_string of 1 to 3 random values out of 34 types (all 1156 pairs); non-trivial: more than 1 character of text"),
    "C05": dict(src="c05_log.cpp", runs=[("dbg", 2500000, 60000000), ("rel", 2500000, 60000000)], fuzz=600000, fuzz_len=2048,
                rule="a case is a generated argument list of 1 to 12 expressions, or one of 24 log statements run with random values; non-trivial: more text than the separators"),
    "C06": dict(src="c06_stderr.cpp", runs=[("dbg", 300000, 6000000), ("rel", 300000, 6000000)], fuzz=100000, fuzz_len=2048,
                rule="a case is one record of 0 to 7 random key/value pairs sent to the default log or error hook with stderr captured; non-trivial: at least 2 pairs"),
    "C07": dict(src="c07_assert.cpp", extra=["c07_assert_off.cpp"], runs=[("dbg", 2000000, 40000000), ("rel", 2000000, 40000000)], fuzz=0,
                rule="a case is one of 22 checking statements with random truth, values and hook answer; every case is non-trivial"),
    "C08": dict(src="c08_crc32.cpp", runs=[('dbg', 3000000, 120000000), ('rel', 12000000, 600000000)], fuzz=1000000, fuzz_len=512,
                rule='a case is random data in random pieces of 8, 32 and 64 bit elements under one of several polynomials; non-trivial: at least one byte'),
    "C09": dict(src="c09_fnv1a.cpp", runs=[('dbg', 3000000, 120000000), ('rel', 12000000, 600000000)], fuzz=1000000, fuzz_len=512,
                rule='a case is an array of one integer type with random values, start value and split; non-trivial: at least one element'),
    "C10": dict(src="c10_rng.cpp", runs=[('dbg', 8000000, 320000000), ('rel', 32000000, 1600000000)], fuzz=1000000, fuzz_len=256,
                rule='a case is one generator seeded or set to a random state and stepped 1 to 64 times; every case is non-trivial'),
    "C11": dict(src="c11_ranged.cpp", runs=[('dbg', 2000000, 80000000), ('rel', 8000000, 320000000)], fuzz=500000, fuzz_len=256,
                rule='a case is one bound with scripted raw draws, or two results of it whose accepting raw draws are counted; non-trivial: bound above 1'),
    "C12": dict(src="c12_base64.cpp", runs=[('dbg', 3000000, 120000000), ('rel', 12000000, 600000000)], fuzz=1000000, fuzz_len=512,
                rule='a case is random bytes with random padding, terminator and decoded prefix; non-trivial: at least one byte'),
    "C13": dict(src="c13_lziii.cpp", runs=[('dbg', 500000, 20000000), ('rel', 2000000, 80000000)], fuzz=500000, fuzz_len=4096,
                rule='a case is a random token stream of up to 1600 (now and then 13000) tokens; non-trivial: at least one back reference'),
    "C14": dict(src="c14_bulk.cpp", runs=[('dbg', 3000000, 120000000), ('rel', 12000000, 600000000)], fuzz=1000000, fuzz_len=1024,
                rule='a case is an operation history on one capacity and item type; non-trivial: the list shrinks or is copied'),
    "C15": dict(src="c15_heap.cpp", runs=[('dbg', 500000, 20000000), ('rel', 2000000, 80000000)], fuzz=1000000, fuzz_len=1024,
                rule='a case is an insertion / removal history, or a series of heap steps on an array; non-trivial: more than one removal or item'),
    "C16": dict(src="c16_bitset.cpp", runs=[('dbg', 4000000, 160000000), ('rel', 16000000, 800000000)], fuzz=1000000, fuzz_len=1024,
                rule='a case is an operation history on one set size; non-trivial: more than one single bit operation'),
    "C17": dict(src="c17_span.cpp", runs=[('dbg', 8000000, 320000000), ('rel', 32000000, 1600000000)], fuzz=1000000, fuzz_len=256,
                rule='a case is a chain of skips and trims, or an attempt to map a path; non-trivial: at least one non-zero cut, or a map'),
    "C18": dict(src="c18_pool.cpp", runs=[('dbg', 1500000, 60000000), ('rel', 6000000, 240000000)], fuzz=1000000, fuzz_len=1024,
                rule='a case is an operation history of 4 queues sharing one pool; non-trivial: nodes are reused and more than 2 were in use'),
    "C19": dict(src="c19_dictionary.cpp", runs=[('dbg', 1500000, 60000000), ('rel', 6000000, 240000000)], fuzz=1000000, fuzz_len=1024,
                rule='a case is a bind / write / lookup history on one capacity, value and key type; non-trivial: more than one key or a rebind'),
    "C20": dict(src="c20_sort.cpp", runs=[('dbg', 500000, 20000000), ('rel', 2000000, 80000000)], fuzz=500000, fuzz_len=2048,
                rule='a case is one array of one pattern and item type sorted by one of the sorts, or an adversarial order; non-trivial: more than 2 items'),
    "C21": dict(src="c21_bounds.cpp", runs=[('dbg', 1000000, 40000000), ('rel', 2000000, 200000000)], fuzz=1000000, fuzz_len=512,
                rule='a case is one sorted array searched for 8 keys; non-trivial: more than 1 item'),
    "C22": dict(src="c22_zcode.cpp", runs=[('dbg', 12000000, 240000000), ('rel', 60000000, 1200000000)], fuzz=2000000, fuzz_len=64,
                rule='a case is one point and one box; non-trivial: neither is degenerate'),
    "C23": dict(src="c23_zquery.cpp", runs=[('dbg', 500000, 20000000), ('rel', 1000000, 40000000)], fuzz=1000000, fuzz_len=1024,
                rule='a case is one point set and one box query; non-trivial: some but not all points are inside'),
    "C24": dict(src="c24_vec.cpp", runs=[('dbg', 12000000, 240000000), ('rel', 60000000, 1200000000)], fuzz=2000000, fuzz_len=128,
                rule='a case is one pair of vectors of one type under all operators, or all products; non-trivial: the first is not zero'),
    "C25": dict(src="c25_range.cpp", runs=[('dbg', 16000000, 320000000), ('rel', 80000000, 1600000000), ('ms', 16000000, 320000000)], fuzz=2000000, fuzz_len=128,
                rule='a case is one product comparison or range test; non-trivial: no factor (and neither point distance nor edge length) is zero'),
    "C26": dict(src="c26_inside.cpp", runs=[('dbg', 1500000, 60000000), ('rel', 6000000, 240000000)], fuzz=1000000, fuzz_len=512,
                rule='a case is one vector pair, or one mesh probed at 24 points; non-trivial: collinear vectors, the two directions differ, or a point on an edge of a mesh of several triangles'),
    "C27": dict(src="c27_polygon.cpp", runs=[('dbg', 1000000, 40000000), ('rel', 4000000, 150000000)], fuzz=1000000, fuzz_len=512,
                rule='a case is one polygon probed at 10 points; non-trivial: at least one point with non-zero winding'),
    "C28": dict(src="c28_root.cpp", runs=[('dbg', 20000000, 800000000), ('rel', 80000000, 3000000000)], fuzz=2000000, fuzz_len=64,
                rule='a case is one root, hypotenuse or normal; non-trivial: value above 1, or more than one non-zero component'),
    "C29": dict(src="c29_cordic.cpp", runs=[('dbg', 10000000, 400000000), ('rel', 40000000, 1500000000)], fuzz=2000000, fuzz_len=64,
                rule='a case is one conversion of one vector and angle; non-trivial: no zero component (radius, degrees)'),
    "C30": dict(src="c30_intersect.cpp", runs=[('dbg', 4000000, 80000000), ('rel', 16000000, 300000000)], fuzz=2000000, fuzz_len=128,
                rule='a case is one ratio or line pair; non-trivial: factor not zero, lines not parallel'),
    "C31": dict(src="c31_cdt_points.cpp", runs=[('dbg', 200000, 4000000), ('rel', 1000000, 25000000)], fuzz=300000, fuzz_len=4096,
                rule='a case is one series of points inserted into an empty mesh (5 grids and capacities); non-trivial: at least 3 points besides the corners'),
    "C32": dict(src="c32_cdt_edges.cpp", runs=[('dbg', 100000, 3000000), ('rel', 400000, 15000000)], fuzz=200000, fuzz_len=2048,
                rule='a case is one series of points and constrained edges inserted into a mesh; non-trivial: an edge was made and there are at least 5 points besides the corners'),
    "C33": dict(src="c33_cdt_locate.cpp", runs=[('dbg', 300000, 8000000), ('rel', 1500000, 40000000)], fuzz=300000, fuzz_len=2048,
                rule='a case is one mesh with 20 to 60 points located in it; non-trivial: more than 2 faces and a point found'),
    "C34": dict(src="c34_cdt_fill.cpp", runs=[('dbg', 100000, 3000000), ('rel', 400000, 15000000)], fuzz=200000, fuzz_len=2048,
                rule='a case is one mesh with 1 to 6 fills, and insertions after them; non-trivial: more than 2 faces'),
    "C35": dict(src="c35_ascii.cpp", runs=[('dbg', 10000000, 200000000), ('rel', 50000000, 1000000000)], fuzz=1000000, fuzz_len=64,
                rule='a case is one character under all classes, one enum value, one colour or one rotation; every case is non-trivial', exhaustive="all 256 characters"),
    "C36": dict(src="c36_atomic.cpp", runs=[('dbg', 5000000, 150000000), ('rel', 20000000, 600000000)], fuzz=500000, fuzz_len=1024,
                rule='a case is one operation history on one atomic of one type; see the harness for non-trivial (a compare exchange or arithmetic took place)'),
    "C37": dict(src="c37_threads.cpp", runs=[('rel', 100000, 2500000), ('tsan', 60000, 1500000)], fuzz=0, cflags={"tsan": ["-DTSAN_RUN"]}, workers=3,
                rule='a case is 2 to 4 threads running one scenario (counting, messages, locks, stores and loads) on fresh atomics; non-trivial: by scenario, threads really met'),
    "C38": dict(src="c38_mutex.cpp", runs=[('rel', 15000, 1000000), ('tsan', 20000, 600000)], fuzz=0, cflags={"tsan": ["-DTSAN_RUN"]}, workers=4,
                rule='a case is a history of lock steps by 2 or 3 threads told what to do one step at a time, or a free running scenario; non-trivial: a step had to wait or failed'),
    "C39": dict(src="c39_clock.cpp", runs=[('dbg', 8000000, 200000000), ('rel', 40000000, 1000000000)], fuzz=500000, fuzz_len=1024,
                rule='a case is one clock rate, time source frequency and polling history; non-trivial: several polls with ticks'),
    "C40": dict(src="c40_time.cpp", runs=[('dbg', 5000000, 100000000), ('rel', 20000000, 500000000)], fuzz=0,
                rule='a case is a series of timestamps or sleeps with the system calls replaced by recording stand-ins, or (rarely) a real sleep; non-trivial: more than one timestamp, or time to sleep'),
    "C48": dict(src="c48_win32.cpp", runs=[('dbg', 1500000, 40000000), ('rel', 2000000, 60000000)], fuzz=100000, fuzz_len=1024, flags=["-I" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness", "win32")],
                rule='a case is a set of files and a history of opening, closing, mapping, failing system calls, memory, time and debug text, or a sleep, or a history of lock steps, on a small Windows inside the check; non-trivial: something was mapped, slept or waited for'),
    "C49": dict(src="c49_msvc_atomic.cpp", runs=[('dbg', 2000000, 40000000), ('rel', 8000000, 100000000)], fuzz=0, flags=["-Wno-c++11-narrowing"], workers=4,
                rule='a case is a history of operations on one atomic of one type on one thread, or (one in 400) several threads counting, exchanging and publishing; non-trivial: more than one operation'),
    "C41": dict(module="c41", rule="a case is one generated enum (scope, kind, type, items) with all its item names, unknown values and unknown texts; non-trivial: more than one item"),
    "C42": dict(module="c42", rule="a case is one generated set of types described to io, visited with random values; non-trivial: more than one bound member"),
    "C43": dict(module="c43", rule="a case is one generated list of types, integer sequence, aggregate, argument list and array; non-trivial: more than one type or a sequence of more than 2"),
    "C44": dict(module="c44", rule="a case is one computation (checksum, hash, decoding, vector operation) with random arguments, by the compiler and at run time; non-trivial: more than one item of data"),
    "C45": dict(module="c45", rule="a case is one generated set of variables and 1 to 4 log or check statements in random places, built in one of eight configurations; non-trivial: a statement with values or a compound condition"),
    "C46": dict(module="c46", rule="a case is one generated program of 1 to 3 units, each with its own headers in random order, own names and uses of the library; non-trivial: more than one unit or header"),
    "C47": dict(module="c47", rule="a case is one generated set of macro arguments (tokens with parentheses, strings and commas inside), conditions, arrays and places, or one condition to hold at compile time; non-trivial: an argument with parentheses or a string"),
}
NOT_APPLICABLE = {}
TECHNIQUE = "property-based testing: generated inputs against a reference model, with shrinking"
STATEFUL = "stateful property-based testing: generated histories against a model, with shrinking"
for k in ("C05", "C06", "C14", "C15", "C16", "C17", "C18", "C19", "C31", "C32", "C34", "C36", "C38", "C39", "C48", "C49"):
    PROPS[k]["technique"] = STATEFUL
PROPS["C37"]["technique"] = "property-based testing: generated concurrent scenarios against invariants of the whole history, also under the thread sanitizer"
for k in ("C41", "C42", "C43", "C44", "C45", "C46", "C47"):
    PROPS[k]["technique"] = "property-based testing: generated programs, compiled and run against expectations of the generator, with shrinking"
for k, p in PROPS.items():
    # the repository's own debug build is unoptimised: a share of the cases runs that way
    if p.get("runs") and not any(r[0] == "o0" for r in p["runs"]):
        base = [r for r in p["runs"] if r[0] == "dbg"] or [r for r in p["runs"] if r[0] == "rel"]
        p["runs"].append(("o0", base[0][1] // 4, base[0][2] // 10))
    p.setdefault("technique", TECHNIQUE)
    p.setdefault("note", "Held on every generated case (counts, labels and samples in the evidence); no proof. Trusts the reference in the harness, clang 18 and, in the debug build, the address sanitizer. " + ("Exhaustive: " + p["exhaustive"] + "." if p.get("exhaustive") else ""))
