"""C46: any headers, in any order, in any number of units, build into one program that works."""
import json, math, os, random, re, subprocess, zlib
import common
NAME = "C46"
PRELUDE = '#include "ce/ce.h"\n'
HEADERS = ["ce", "atomic", "cdt", "clock", "dictionary", "io", "lziii", "math", "mutex", "nameof", "pool", "sort", "zorder"]
STD = ["cmath", "math.h", "cstring", "cstdint", "cstdlib", "stdio.h", "algorithm", "vector", "string", "utility", "new", "atomic", "mutex", "shared_mutex", "type_traits", "limits", "array", "map", "thread", "functional", "memory", "cassert", "time.h", "signal.h", "complex", "random", "chrono", "emmintrin.h"]
# names a user's own program may have in the global namespace
OWN = ["struct span { int own; };", "struct list { int own; };", "template<class T> struct vec2 { int own; };", "struct vec3 { int own; };", "struct clock_ { int own; };", "struct pool { int own; };", "struct dictionary { int own; };",
       "namespace math { static int own; }", "namespace os { static int own; }", "namespace detail { static int own; }", "namespace hash { static int own; }", "struct names { int own; };", "struct items { int own; };", "struct types { int own; };",
       "struct bitset { int own; };", "struct rgba { int own; };", "template<class T> struct atomic { int own; };", "struct io { int own; };", "struct cdt { int own; };", "enum angle { own_angle };", "struct sequence { int own; };", "struct tuple { int own; };",
       "struct pair { int own; };", "struct box { int own; };", "static int get(int v) { return v; }", "static int select_(int v) { return v; }", "static char* to_text(int) { return nullptr; }", "static int size, data, value, next, step, initial, N, T, U;", "struct edge { int own; }; struct face { int own; };",
       "static int min(int a, int b) { return a < b ? a : b; } static int max(int a, int b) { return a < b ? b : a; }", "struct file_t { int own; };", "struct any { int own; };", "static int cross(int v) { return v; } static int dot(int v) { return v; } static int normal(int v) { return v; }", "struct measure { int own; };", "static int log_level, error_level;"]
# names the library uses inside its namespace and the standard headers above do not use globally: free for any program
NAMES = (
    'ARGC Addend As COND COUNT Comperand Destination Exchange Fd Fn From IO IndexT Is KIND Ks LEVEL LINE LVL Location More NAMES Ns Ordered Prime T0 T1 T2 T3 TEST TYPE Target Ts Us Value WHAT a1 a2 a_c0 a_c1 a_c2 a_e0 a_e1 a_e2 a_fi '
    'a_p0 a_p1 a_p2 aa aabc ab ab_less_cd abhi ablo acquire_mutex acquire_mutex_shared ae alloc_index alu_t angle ano any append append_n append_tail are_same are_same_v arg_t argc args argv arrity_check arrity_count arrity_test as '
    'as_atom as_cast as_data as_enum as_string ascii assign_items atan2_2pi atom atom_t atomic atomic_as_cast atomic_compare_exchange atomic_exchange atomic_fetch_add atomic_fetch_and atomic_fetch_or atomic_fetch_sub atomic_fetch_xor '
    'atomic_int_t atomic_load atomic_mem_t atomic_store atomic_val_t ax axby ay aybx b1 b2 b_c0 b_c1 b_c2 b_e0 b_e1 b_e2 b_fi b_p0 b_p1 b_p2 back balance ball_hits_edge ball_hits_ray base64 basis bb bbca bc be begin '
    'best_pass_by_value_t bind bit_t bitset bno box bulk bx by c0 c1 c2 c_arctan c_faces_per_vert c_limit c_nodes_per_face c_nodes_per_vert c_pi ca call_error_hook call_log_hook can_cpu_sub can_cpu_xor can_flip capacity car_t cc ccab '
    'cdhi cdlo cdr_t cdt clear close_file collinear compare_exchange_strong compare_exchange_weak cond_t condition const_array_ref_t const_text constrain_edge constrained construct_at construct_copy construct_mutex copy cordic cordic_n '
    'core cos_2pi count count_leading_t countof_args_helper countof_helper crack crc crc32 crc32_t crc32_table crc32c crc32c_t crossx cs current current_ts cx cy d0 data data_t dd debug_out dec decode decoded_size decoder '
    'degrees_to_angle dequeue destroy_at destroy_mutex detail dictionary dki do_flip dotx dp dst dst_data dst_size dt dx dy dz e0 e1 e2 ea eb edge edge_data edge_id_t edge_vert_a edge_vert_b edge_vert_o edge_view edges ei elapsed '
    'elapsed_ts emmintrin empty en enable_same_t enable_t encoded_size end ends_raw enqueue enter_array enter_class error_hook es escape exchange expected f_eq face face_data face_id_t face_view faces fd fetch_add fetch_and fetch_or '
    'fetch_sub fetch_xor fi file file_t fill fill_ex find flip fn fnv1a fnv1a32 fnv1a64 fract free_index frequency from fs get get_size good has has_arrity has_fetch_add has_strings has_v hash head heap heap_lower heap_raise heap_sort '
    'hi hi_n hi_x hi_y hint identity_t in in1 in2 in_number in_polygon in_polygon_xy in_range_rr in_range_rr_edge in_range_rr_line in_range_rr_ray in_range_rr_segment in_raw incircle index_t info initial insert_edge insert_head '
    'insert_point insert_point_at_node insertion_sort inside int128_t intersect intersect_edges intrinsic intro intro_sort io io_self is_alpha is_arrity is_base10 is_base16 is_base64 is_constructible_with is_cpu is_edge is_empty '
    'is_enum is_face is_fpu is_i128 is_i16 is_i32 is_i64 is_i8 is_known is_lower is_m128 is_m16 is_m32 is_m64 is_m8 is_mem is_ptr is_same is_same_v is_trivially_pass_by_value is_unqualified_ptr is_upper isqrt item items items_v '
    'iterator ji jo keys kind kinds ks last last_word leave_array leave_class level limit list lo lo_n lo_x lo_y load locate locate_insertion_node lock locks lower lower_bound lziii m0 m1 m2 m2w32 m3 m4 make_span map_span mat math '
    'measure median memory_order_relaxed mesh mi min_priority_queue mn mo monotonic_frequency monotonic_timestamp more msvc muldiv mutex name name_item name_t name_type name_void nameof nameof_detail nameof_enum names names_t new_tag '
    'next next64 next_edge next_ranged next_unbiased nil node noinline normal ns on opaque_data open_file optimize os os_handle out p0 p1 p2 pair partition path pcg32_64_t pn polar_ang polar_mag polynomial pool pp pr primary prime ps '
    'ptr_t public_atomic px py q0 q1 qn queue_t quote qx qy raw refine reflection release_mutex release_mutex_shared remove_at remove_const remove_const_t remove_cv remove_cv_t remove_cvref remove_cvref_t remove_head remove_pointer '
    'remove_pointer_t remove_reference remove_reference_t remove_volatile remove_volatile_t reset residual resize result rgba room rotate rotl rotl32 rq rr same scope_lock scope_spin_lock select_t sequence sequence_t set shared_mutex '
    'sin_2pi size skip skip_item skip_kind skip_type sleep_ns source span spans spin split_constraint sqrx src src_data src_size state static_assert_helper step steps store swap table tail test test_arrity test_can_sub '
    'test_can_user_sub test_can_user_xor test_can_xor test_lo text thread_mutex thread_mutex_sizeof thread_shared_mutex thread_shared_mutex_sizeof tick timestamp to_cartesian to_polar to_text to_text_m to_text_mi to_text_mn to_text_n '
    'to_text_p to_text_s trim try_acquire_mutex try_acquire_mutex_shared try_flip ts tuple type type_t types u0 u1 u2 ue uf un underlying_type_t unknown unmap_span uno upper_bound us ux uy v0 v1 v2 validate_face value values ve vec '
    'vec0 vec1 vec2 vec3 vec4 vector vert_data view virtual_alloc vs w0 what whole word x0 x8 xdiv xmul xn xoroshiro128pp xoroshiro64ss xx xy z0 z_encode z_expand z_inside z_lower_bound z_query z_split zn zn_x zn_y ').split()
KINDS = ["crc", "text", "list", "queue", "bits", "fnv", "base64", "logs", "random", "span", "rect", "less", "vec", "sort", "search", "z", "zq", "dict", "lz", "pool", "name", "visit", "clock", "atomic", "mutex", "cdt", "polygon"]
NEEDS = dict(crc="ce", text="ce", list="ce", queue="ce", bits="ce", fnv="ce", base64="ce", logs="ce", random="ce", span="ce", rect="math", less="math", vec="ce", sort="sort", search="sort", z="zorder", zq="zorder", dict="dictionary", lz="lziii", pool="pool", name="nameof", visit="io", clock="clock", atomic="atomic", mutex="mutex", cdt="cdt", polygon="math")


def lz(rng, n):
    toks, out = [], b""
    while len(out) < n:
        if len(out) > 3 and rng.random() < 0.5:
            ln, back = rng.randrange(3, 19), 1 + rng.randrange(len(out))
            o = 4096 - back
            toks.append([o & 255, (o >> 8) | (ln - 3) << 4])
            for _ in range(ln):
                out += out[-back:-back + 1] if back > 1 else out[-1:]
        else:
            b = rng.randrange(256)
            toks.append([b])
            out += bytes([b])
    s = []
    for i in range(0, len(toks), 8):
        p = toks[i:i + 8]
        s.append(sum(1 << k for k, t in enumerate(p) if len(t) == 1))
        for t in p:
            s += t
    return s, list(out)


def spread(v):
    return sum(((v >> i) & 1) << 2 * i for i in range(32))


def zcode(x, y):
    return spread((x & 0xffffffff) ^ 0x80000000) | spread((y & 0xffffffff) ^ 0x80000000) << 1


def csv(v, suffix=""):
    return ", ".join("%d%s" % (x, suffix) for x in v)


def snippet(kind, seed, tag):
    """(declarations at namespace scope, statements with CHECK(...))"""
    r = random.Random("%s %d" % (kind, seed))
    i32 = lambda b=31: r.randrange(-(1 << b), 1 << b)
    if kind == "crc":
        t = "".join(r.choice("abcxyz 019") for _ in range(r.randrange(1, 20)))
        return "", 'CHECK(ce::uint32_t(ce::crc32(ce::crc32_t<0xedb88320u>(0), %d, reinterpret_cast<ce::uint8_t const*>("%s"))) == %du);' % (len(t), t, py_crc(t.encode()))
    if kind == "fnv":
        t = "".join(r.choice("abcxyz 019") for _ in range(r.randrange(0, 20)))
        h = 0x811c9dc5
        for c in t.encode():
            h = (h ^ c) * 0x01000193 & 0xffffffff
        return "", 'CHECK(ce::hash::fnv1a("%s") == %du);' % (t, h)
    if kind == "text":
        a, b = i32(30), r.getrandbits(64)
        return "", 'auto s = ce::as_string{ %d, " ", %dull, true, ce::vec2<int>{ 1, %d } }; CHECK(same_text(s.as, "%d %d#<T>[1, %d]"));' % (a, b, a, a, b, a)
    if kind == "list":
        v = [r.randrange(100) for _ in range(r.randrange(1, 8))]
        return "", "ce::list<int, 8> l; CHECK(l.size == 0); int v[]{ %s }; for (int x : v) l.append(x); CHECK(l.size == %d); for (int i = 0; i < %d; ++i) CHECK(l[i] == v[i]); ce::list<int, 8> m = l; m.size = m.size; CHECK(m[0] == %d);" % (csv(v), len(v), len(v), v[0])
    if kind == "queue":
        v = [r.randrange(100) for _ in range(r.randrange(1, 8))]
        return "", "ce::min_priority_queue<8, int> q; q.size = 0; int v[]{ %s }, w[]{ %s }; for (int x : v) CHECK(q.enqueue(x)); for (int x : w) { CHECK(q.head() == x); CHECK(q.dequeue() == x); } CHECK(q.empty());" % (csv(v), csv(sorted(v)))
    if kind == "bits":
        return "", "CHECK(ce::ascii::is_base16('f') && !ce::ascii::is_base16('g')); CHECK(CE_ROTL32(0x80000001u, 1) == 3);"
    if kind == "base64":
        import base64
        d = [r.randrange(256) for _ in range(r.randrange(1, 12))]
        t = base64.b64encode(bytes(d)).decode().rstrip("=")
        return "", 'ce::uint8_t o[%d], w[]{ %s }; CHECK(ce::base64::size("%s") == %d); ce::base64::decode(%d, o, "%s"); CHECK(!__builtin_memcmp(o, w, %d));' % (len(d), csv(d), t, len(d), len(d), t, len(d))
    if kind == "logs":
        return "", "int a = %d; CE_LOG(info, a, \"x\"); CE_LOG_MSG(note, \"a is \", a); CE_ASSERT(a == %d, a); CHECK(CE_VERIFY(a != 1 << 30)); CHECK(!CE_REJECT(a == 1 << 30, a));" % ((i32(29),) * 2 if False else (7, 7))
    if kind == "random":
        return "", "ce::xoroshiro64ss g{ }, h{ }; ce::uint8_t s[]{ %s }; seed(g, sizeof s, s); seed(h, sizeof s, s); for (int i = 0; i < 9; ++i) CHECK(next32(g) == next32(h)); CHECK(ce::read(ce::step(ce::pcg32_64_t(%d))) == ce::read(ce::step(ce::pcg32_64_t(%d))));" % (csv([r.randrange(256) for _ in range(8)]), 5, 5)
    if kind == "span":
        n = r.randrange(1, 9)
        return "", "int v[%d]{ 1 }; ce::span<int> s{ %d, v }; CHECK(s.size == %d && s.data[0] == 1);" % (n, n, n)
    if kind == "rect":
        x, y = r.randrange(1 << 20), r.randrange(1 << 20)
        n = r.getrandbits(31)
        return "", "CHECK(ce::math::hypot(%d, %d) == %d); CHECK(ce::math::isqrt(%du) == %d);" % (x, y, rnd_sqrt(x * x + y * y), n, rnd_sqrt(n))
    if kind == "less":
        a, b, c, d = [r.randrange(-(1 << 63), 1 << 63) for _ in range(4)]
        f = lambda v: "(%dll - 1)" % (v + 1)
        return "", "CHECK(ce::math::ab_less_cd(%s, %s, %s, %s) == %s);" % (f(a), f(b), f(c), f(d), "true" if a * b < c * d else "false")
    if kind == "vec":
        a, b, c, d = [r.randrange(-9999, 9999) for _ in range(4)]
        return "", "ce::vec2<int> a{ %d, %d }, b{ %d, %d }; auto c = a + b; CHECK(c.x == %d && c.y == %d); CHECK(ce::math::crossx(a, b) == %d);" % (a, b, c, d, a + c, b + d, a * d - b * c)
    if kind == "sort":
        v = [r.randrange(1000) for _ in range(r.randrange(1, 300))]
        s = sorted(v)
        return "", "int v[]{ %s }; ce::intro_sort<%d>(v, v + %d); int w[]{ %s }; CHECK(!__builtin_memcmp(v, w, sizeof v));" % (csv(v), r.choice([2, 4, 16]), len(v), csv(s))
    if kind == "search":
        v = sorted(r.randrange(50) for _ in range(r.randrange(2, 40)))
        return "", "int v[]{ %s }; ce::insertion_sort(v, v + %d); CHECK(v[0] == %d && v[%d] == %d);" % (csv(r.sample(v, len(v))), len(v), v[0], len(v) - 1, v[-1])
    if kind == "z":
        x, y = i32(), i32()
        return "", "CHECK(ce::z_encode(int(%du), int(%du)) == %dull);" % (x & 0xffffffff, y & 0xffffffff, zcode(x, y))
    if kind == "zq":
        p = [(i32(20), i32(20)) for _ in range(r.randrange(1, 9))]
        z = sorted(zcode(*q) for q in p)
        return "", "ce::uint64_t v[]{ %s }; CHECK(ce::z_lower_bound(v, v + %d, v[0]) == v); CHECK(ce::z_inside(ce::z_encode(-(1 << 30), -(1 << 30)), ce::z_encode(1 << 30, 1 << 30), v[0]));" % (csv(z, "ull"), len(z))
    if kind == "dict":
        k = r.sample(range(1, 1000), r.randrange(1, 9))
        return "", "static ce::dictionary<16, int, int> d; d.size = 0; d.heap = 0; int k[]{ %s }; for (int x : k) d.bind(x, x * 3); for (int x : k) CHECK(d[x] == x * 3); CHECK(d.find(1001) == decltype(d)::ptr_t::nil);" % csv(k)
    if kind == "lz":
        s, o = lz(r, r.randrange(1, 60))
        return "", "static ce::uint8_t const s[]{ %s }, w[]{ %s }; ce::uint8_t o[%d]; CHECK(ce::lziii::size(%d, s) == %d); ce::lziii::decode(%d, o, s); CHECK(!__builtin_memcmp(o, w, %d));" % (csv(s), csv(o), len(o), len(s), len(o), len(o), len(o))
    if kind == "pool":
        v = [r.randrange(99) for _ in range(r.randrange(1, 7))]
        return "", "using P = ce::pool<8, int>; static P p; p.reset(); P::queue_t q{ }; int v[]{ %s }; for (int x : v) p.append_tail(q, x); for (int x : v) { CHECK(!p.is_empty(q) && p.head(q) == x); p.remove_head(q); } CHECK(p.is_empty(q));" % csv(v)
    if kind == "name":
        return "enum class color%s { red, dark_green, blue = 200 };" % tag, 'CHECK(same_text(ce::nameof(color%s::dark_green), "dark_green")); CHECK(same_text(ce::nameof(color%s(7)), "???")); CHECK(ce::as_enum<color%s>("blue") == color%s::blue);' % ((tag,) * 4)
    if kind == "visit":
        return ("struct body%s { int alpha; ce::vec2<int> beta; }; CE_IO_AS(ce::vec2<int>, int[2]); CE_IO_BIND(body%s, alpha, beta);\n"
                "struct seen%s : ce::io<seen%s> { int sum = 0, names = 0; void enter_class() { } void leave_class() { } void enter_array(ce::size_t&, bool) { } void leave_array(ce::size_t&, bool) { } void name(char const*) { ++names; } template<class T> void atom(T& v) { sum += int(v); } template<class T> seen%s(char const n[], T& v) { item(n, v); } };" % ((tag,) * 5),
                'body%s b{ 3, { 40, 500 } }; seen%s v("b", b); CHECK(v.sum == 543 && v.names == 3);' % (tag, tag))
    if kind == "clock":
        return "", "ce::clock<1000> c; c.reset(); auto t = c.current(); CHECK(c.current() >= t && t < 100000); CHECK(ce::os::monotonic_frequency() == 1000000000);"
    if kind == "atomic":
        a, b = r.randrange(999), r.randrange(999)
        return "", "static ce::atomic<int> a; ce::atomic_store(a, %d); CHECK(ce::atomic_fetch_add(a, %d) == %d); CHECK(ce::atomic_exchange(a, 1) == %d); CHECK(ce::atomic_load(a) == 1);" % (a, b, a, a + b)
    if kind == "mutex":
        return "", "static ce::thread_mutex m; ce::construct_mutex(m); CHECK(ce::try_acquire_mutex(m)); ce::release_mutex(m); ce::acquire_mutex(m); ce::release_mutex(m); ce::destroy_mutex(m); static ce::thread_shared_mutex s; ce::construct_mutex(s); ce::acquire_mutex_shared(s); CHECK(ce::try_acquire_mutex_shared(s)); ce::release_mutex_shared(s); ce::release_mutex_shared(s); ce::destroy_mutex(s);"
    if kind == "cdt":
        p = r.sample([(x, y) for x in range(-4, 5) for y in range(-4, 5)], r.randrange(1, 6))
        return "", "static ce::cdt<10, 256> m; m.reset(); int v[][2]{ %s }; for (auto& p : v) CHECK(m.insert_point(ce::vec2<ce::int32_t>{ p[0], p[1] }, 0)); int n = 0; for (auto f : m.faces()) (void)f, ++n; CHECK(n > 0);" % ", ".join("{ %d, %d }" % q for q in p)
    if kind == "polygon":
        x = r.choice([-5, 5, 15])
        return "", "CHECK(ce::math::muldiv(ce::vec2<int>{ %d, 30 }, 2, 1).x == %d);" % (x, 2 * x)
    raise Exception(kind)


# objects that units with different options share: type, header, operation by (rng, model) -> statement
SHARED = {
    "pool": ("ce::pool<12, int>", "pool"), "queue": ("ce::pool<12, int>::queue_t", "pool"), "dictionary": ("ce::dictionary<16, int, int>", "dictionary"), "list": ("ce::list<int, 12>", "ce"), "heap": ("ce::min_priority_queue<12, int>", "ce"),
    "random": ("ce::xoroshiro64ss", "ce"), "atomic": ("ce::atomic<int>", "atomic"), "mutex": ("ce::thread_mutex", "mutex"), "smutex": ("ce::thread_shared_mutex", "mutex"), "mesh": ("ce::cdt<10, 128>", "cdt"), "clock": ("ce::clock<1000>", "clock"), "bits": ("ce::bitset<70>", "ce"), "string": ("ce::as_string<int, char>", "ce")}


def rotl(v, k):
    return (v << k | v >> (32 - k)) & 0xffffffff


def history(kind, r):
    """a random history of one shared object: statements with checks, the first one initialises it"""
    s, n = [], r.randrange(2, 12)
    if kind == "pool":
        m = []
        s.append("sh_pool.reset(); sh_queue = { };")
        for _ in range(n):
            if len(m) < 10 and (not m or r.random() < 0.6):
                v = r.randrange(1000)
                m.append(v)
                s.append("CHECK(sh_pool.append_tail(sh_queue, %d));" % v)
            else:
                s.append("CHECK(!sh_pool.is_empty(sh_queue) && sh_pool.head(sh_queue) == %d); sh_pool.remove_head(sh_queue); CHECK(sh_pool.is_empty(sh_queue) == %s);" % (m.pop(0), "false" if m else "true"))
    elif kind == "dictionary":
        m = {}
        s.append("sh_dictionary.size = 0; sh_dictionary.heap = 0;")
        for _ in range(n):
            k = r.randrange(20)
            if len(m) < 12 and r.random() < 0.6:
                m[k] = r.randrange(1000)
                s.append("sh_dictionary.bind(%d, %d);" % (k, m[k])) if k not in list(m)[:-1] else s.append("sh_dictionary[%d] = %d;" % (k, m[k]))
            elif k in m:
                s.append("CHECK(sh_dictionary[%d] == %d);" % (k, m[k]))
            else:
                s.append("CHECK(sh_dictionary.find(%d) == decltype(sh_dictionary)::ptr_t::nil);" % k)
    elif kind == "list":
        m = []
        s.append("sh_list.size = 0;")
        for _ in range(n):
            m.append(r.randrange(1000))
            s.append("sh_list.append(%d); CHECK(sh_list.size == %d && sh_list[%d] == %d);" % (m[-1], len(m), 0, m[0]))
    elif kind == "heap":
        m = []
        s.append("sh_heap.size = 0;")
        for _ in range(n):
            if len(m) < 12 and (not m or r.random() < 0.6):
                m.append(r.randrange(100))
                s.append("CHECK(sh_heap.enqueue(%d));" % m[-1])
            else:
                m.sort()
                s.append("CHECK(sh_heap.dequeue() == %d);" % m.pop(0))
    elif kind == "random":
        a, b = r.randrange(1, 1 << 32), r.randrange(1 << 32)
        s.append("sh_random = { %du, %du };" % (a, b))
        for _ in range(n):
            v = rotl(a * 0x9e3779bb & 0xffffffff, 5) * 5 & 0xffffffff
            b ^= a
            a, b = rotl(a, 26) ^ b ^ (b << 9 & 0xffffffff), rotl(b, 13)
            s.append("CHECK(next(sh_random) == %du);" % v)
    elif kind == "atomic":
        v = 0
        s.append("ce::atomic_store(sh_atomic, 0);")
        for _ in range(n):
            d = r.randrange(100)
            s.append("CHECK(ce::atomic_fetch_add(sh_atomic, %d) == %d);" % (d, v))
            v += d
    elif kind == "mutex":
        s.append("ce::construct_mutex(sh_mutex);")
        for _ in range(n):
            s += ["ce::acquire_mutex(sh_mutex);", "ce::release_mutex(sh_mutex);"]
        s += ["CHECK(ce::try_acquire_mutex(sh_mutex)); ce::release_mutex(sh_mutex);", "ce::destroy_mutex(sh_mutex);"]
    elif kind == "smutex":
        s.append("ce::construct_mutex(sh_smutex);")
        for _ in range(n):
            s += r.choice([["ce::acquire_mutex(sh_smutex);", "ce::release_mutex(sh_smutex);"], ["ce::acquire_mutex_shared(sh_smutex);", "CHECK(ce::try_acquire_mutex_shared(sh_smutex));", "ce::release_mutex_shared(sh_smutex);", "ce::release_mutex_shared(sh_smutex);"]])
        s += ["CHECK(ce::try_acquire_mutex(sh_smutex)); ce::release_mutex(sh_smutex);", "ce::destroy_mutex(sh_smutex);"]
    elif kind == "mesh":
        s.append("sh_mesh.reset();")
        for k, (x, y) in enumerate(r.sample([(x, y) for x in range(-990000, 1000000, 70000) for y in range(-990000, 1000000, 70000)], n)):
            # a point inside the square makes two more faces
            s.append("CHECK(sh_mesh.insert_point(ce::vec2<ce::int32_t>{ %d, %d }, 0)); int n = 0; for (auto f : sh_mesh.faces()) (void)f, ++n; CHECK(n == %d);" % (x, y, 2 * k + 4))
    elif kind == "clock":
        s.append("sh_clock.reset();")
        for _ in range(n):
            s.append("auto t = sh_clock.current(); CHECK(t < 100000 && sh_clock.current() >= t);")
    elif kind == "bits":
        m = set()
        s.append("sh_bits.reset();")
        for _ in range(n):
            k = r.randrange(70)
            s.append("CHECK(sh_bits[%d] == %s); sh_bits.set(%d); CHECK(sh_bits[%d]);" % (k, "true" if k in m else "false", k, k))
            m.add(k)
    elif kind == "string":
        s.append("sh_string = ce::as_string<int, char>{ 5, 'x' };")
        t = "5x"
        for _ in range(n):
            v = r.randrange(-1 << 31, 1 << 31)
            s.append('CHECK(same_text(sh_string.as, "%s")); sh_string = ce::as_string<int, char>{ int(%dll), \'y\' };' % (t, v))
            t = "%dy" % v
    return s


def shares(d):
    """[(kind, header, [(unit, statement)])]"""
    out = []
    for k, seed in d.get("shared", []):
        r = random.Random("%s %d" % (k, seed))
        u = len(d["units"])
        out.append((k, SHARED[k][1], [(r.randrange(u), x) for x in history(k, r)]))
    return out


def py_crc(b):
    return zlib.crc32(b)


def rnd_sqrt(n):
    s = math.isqrt(n)
    return s + (n - s * s > s)


def generate(rng, n):
    units = []
    for _ in range(rng.choice([1, 2, 2, 2, 3])):
        hs = rng.sample(HEADERS, rng.choice([1, 1, 2, 3, 5, len(HEADERS)]))
        inc = ["ce/%s.h" % h for h in hs]
        if rng.random() < 0.3:
            inc.append(rng.choice(inc))
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            inc.insert(rng.randrange(len(inc) + 1), rng.choice(STD))
        ks = [k for k in KINDS if NEEDS[k] in hs or NEEDS[k] == "ce"]
        own = [[o, rng.random() < 0.5] for o in rng.sample(OWN, rng.choice([0, 0, 2, 6, len(OWN)]))]
        if rng.random() < 0.6:
            used = " ".join(o for o, _ in own)
            names = [] if rng.random() < 0.7 else EXTRA
            for x in sorted(set(rng.sample(NAMES, rng.choice([1, 3, 10, 40])) + names)):
                if not re.search(r"\b%s\b" % x, used):
                    own.append([rng.choice(["static int %s;", "struct %s { int own; };", "static int %s(int v) { return v; }", "namespace %s { static int own; }", "enum class %s { own };", "using %s = int;"]) % x, rng.random() < 0.6])
        spec = [k for k in ks if NEEDS[k] != "ce"]
        some = sorted(set(rng.sample(ks, min(len(ks), rng.choice([1, 3, 6]))) + (rng.sample(spec, min(len(spec), rng.choice([1, 4, 9]))))))
        units.append(dict(inc=inc, own=own, use=[[k, rng.randrange(1 << 20)] for k in some], flags=rng.choice(["-O0", "-O0", "-O1", "-O2 -DNDEBUG", "-O0 -DDEBUG -fno-exceptions -fno-rtti"])))
    shared = [[k, rng.randrange(1 << 20)] for k in sorted(rng.sample([k for k in SHARED if k != "queue"], rng.choice([0, 1, 2, 4, 12])))] if len(units) > 1 else []
    return dict(units=units, hooks=rng.random() < 0.3, shared=shared)


HOOKS = '''#pragma once
extern int hook_calls;
#define CE_USER_LOG_HOOK(LEVEL, ARGC, ...) (++::hook_calls, (void)(LEVEL), (void)(ARGC), (void)(__VA_ARGS__))
#define CE_USER_ERROR_HOOK(LEVEL, ARGC, ...) (++::hook_calls, (void)(LEVEL), (void)(ARGC), (void)(__VA_ARGS__), false)
'''


def unit(d, i):
    u = d["units"][i]
    out = ["// unit %d: %s" % (i, u["flags"])]
    sh = shares(d)
    names = [n for k, _, _ in sh for n in ([k, "queue"] if k == "pool" else [k])]
    if any(k == "random" for k, _, _ in sh):
        # finding next by its argument is the language's rule: a variable of that name in the program hides it from the program
        u = dict(u, own=[o for o in u["own"] if not re.search(r"\bnext\b", o[0])])
    early = [o for o, e in u["own"] if e]
    out += early
    out += ["#include %s" % ('"%s"' % x if "/" in x else "<%s>" % x) for x in u["inc"] + ["ce/%s.h" % h for _, h, _ in sh if "ce/%s.h" % h not in u["inc"]]]
    out += ["// the user's own names"] + [o for o, e in u["own"] if not e]
    out += ["extern void failed(int unit, char const* kind, int line, char const* what);", "static bool same_text(char const* a, char const* b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }",
            "#define CHECK(...) ((__VA_ARGS__) ? (void)0 : failed(%d, kind, __LINE__, #__VA_ARGS__))" % i]
    own = [len(n) % len(d["units"]) == i for n in names]
    out += ["%s%s sh_%s%s;" % ("" if o else "extern ", SHARED[n][0], n, "{ 0, '0' }" if o and n == "string" else "") for o, n in zip(own, names)]
    out += ["extern unsigned long sizes[%d][%d]; static int measured = (%s 0);" % (len(d["units"]), len(names), " ".join("sizes[%d][%d] = sizeof sh_%s," % (i, j, n) for j, n in enumerate(names)))] if names else []
    for k, _, steps in sh:
        out += ["void share_%s_%d() { char const* kind = \"%s\"; (void)kind; %s }" % (k, j, "shared " + k, x) for j, (w, x) in enumerate(steps) if w == i]
    calls = []
    for k, (kind, seed) in enumerate(u["use"]):
        decl, body = snippet(kind, seed, "%d_%d" % (i, k))
        if decl:
            out.append(decl)
        out.append("static void use%d() { char const* kind = \"%s\"; %s }" % (k, kind, body))
        calls.append("use%d();" % k)
    out.append("int unit%d() { (void)&same_text; %s return %d; }" % (i, " ".join(calls), len(calls)))
    return "\n".join(out) + "\n"


def main_text(d):
    n = len(d["units"])
    sh = shares(d)
    order, left = [], [list(range(len(x))) for _, _, x in sh]
    r = random.Random(n)
    while any(left):
        k = r.choice([i for i, l in enumerate(left) if l])
        order.append("share_%s_%d" % (sh[k][0], left[k].pop(0)))
    names = [n for k, _, _ in sh for n in ([k, "queue"] if k == "pool" else [k])]
    more = "%s\nstatic int shared() { %s %s return %d; }\n" % (" ".join("void %s();" % o for o in order), "".join('if (sizes[%d][%d] != sizes[0][%d]) failed(%d, "sizes", 0, "sh_%s"); ' % (i, j, j, i, m) for i in range(n) for j, m in enumerate(names)), " ".join(o + "();" for o in order), len(order))
    if names:
        more = "unsigned long sizes[%d][%d];\n" % (n, len(names)) + more
    return ("#include <cstdio>\nint hook_calls = 0;\nstatic int failures = 0;\nvoid failed(int unit, char const* kind, int line, char const* what) { if (!failures++) printf(\"FAIL %%s in unit %%d: %%s\\n\", kind, unit, what); }\n%s\n%s\nint main() { int n = 0; %s n += shared(); printf(\"USED %%d\\n\", n); return failures != 0; }\n" %
            ("\n".join("int unit%d();" % i for i in range(n)), more, " ".join("n += unit%d();" % i for i in range(n))))


def text(d):
    return "\n".join("// ---- unit%d.cpp\n%s" % (i, unit(d, i)) for i in range(len(d["units"]))) + "// ---- main.cpp\n" + main_text(d)


def whole(mod, cases, rounds, seed):
    return "".join(text(d) for _, d in cases)


class Builder(common.Builder):
    def hook_flags(self, d):
        return ['-DCE_USER_INCLUDE="c46_hooks.h"', "-I" + self.build] if d["hooks"] else []

    def library(self, hooks):
        key = "hooks" if hooks else "plain"
        if key not in self.libs:
            objs, d = [], os.path.join(self.repo, "lib")
            for f in sorted(os.listdir(d)):
                if f.endswith(".cpp"):
                    o = os.path.join(self.build, "lib-%s-%s.o" % (key, f))
                    r = self.ctx["sh"]([self.ctx["cxx"]] + self.flags("o0") + self.hook_flags(dict(hooks=hooks)) + ["-c", os.path.join(d, f), "-o", o])
                    if r.returncode:
                        raise common.Base("the library does not compile: " + r.stdout[-2000:])
                    objs.append(o)
            self.libs[key] = objs
        return self.libs[key]

    def run(self, cases, mode, rounds, seed):
        fails, evals = [], 0
        for n, d in cases:
            self.k += 1
            base = os.path.join(self.build, "q%d_%d_%d" % (self.k, n, random.randrange(1 << 40)))
            msg, e = self.one(base, d)
            evals += e
            if msg:
                fails.append((n, msg))
                break
        return fails, evals

    def one(self, base, d):
        made = []
        try:
            objs = []
            for i in range(len(d["units"]) + 1):
                src = "%s_%d.cpp" % (base, i)
                open(src, "w").write(unit(d, i) if i < len(d["units"]) else main_text(d))
                obj = src[:-4] + ".o"
                made += [src, obj]
                fl = d["units"][i]["flags"].split() if i < len(d["units"]) else []
                r = self.ctx["sh"]([self.ctx["cxx"], "-std=c++17", "-Wno-enum-constexpr-conversion", "-w", "-ferror-limit=3", "-I" + os.path.join(self.repo, "lib/h")] + fl + self.hook_flags(d) + ["-c", src, "-o", obj])
                if r.returncode:
                    return "does not compile: unit %d: %s" % (i, common.first_error(r.stdout)), 0
                objs.append(obj)
            made.append(base)
            r = self.ctx["sh"]([self.ctx["cxx"]] + objs + self.library(d["hooks"]) + ["-o", base, "-lpthread"])
            if r.returncode:
                return "does not link: " + next((re.sub(r"/\S*/", "", l) for l in r.stdout.split("\n") if "multiple" in l or "undefined" in l), r.stdout)[:300], 0
            try:
                p = subprocess.run([base], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.ctx["env"], timeout=60)
            except subprocess.TimeoutExpired:
                return "the program ended with timeout", 0
            out = p.stdout.decode(errors="replace")
            m = re.search(r"FAIL (.*)", out)
            if m:
                return m.group(1), 0
            u = re.search(r"USED (\d+)", out)
            if p.returncode or not u:
                return "the program ended with %d" % p.returncode, 0
            return None, int(u.group(1))
        finally:
            for f in made:
                if os.path.exists(f):
                    os.unlink(f)


BUILDER = Builder


def reduce(d):
    us = d["units"]
    for i in range(len(us)):
        if len(us) > 1:
            yield dict(d, units=us[:i] + us[i + 1:])
    for i, u in enumerate(us):
        def put(**k):
            return dict(d, units=us[:i] + [dict(u, **k)] + us[i + 1:])
        if len(u["use"]) > 1:
            yield put(use=u["use"][:len(u["use"]) // 2])
            yield put(use=u["use"][len(u["use"]) // 2:])
        for j in range(len(u["use"])):
            yield put(use=u["use"][:j] + u["use"][j + 1:])
        if u["own"]:
            yield put(own=[])
        for j in range(len(u["own"])):
            yield put(own=u["own"][:j] + u["own"][j + 1:])
        need = {"ce/%s.h" % NEEDS[k] for k, _ in u["use"]} - {"ce/ce.h"}
        for j in range(len(u["inc"])):
            x = u["inc"][:j] + u["inc"][j + 1:]
            if any("/" in y for y in x) and need <= set(x):
                yield put(inc=x)
        if u["flags"] != "-O0":
            yield put(flags="-O0")
    for j in range(len(d.get("shared", []))):
        yield dict(d, shared=d["shared"][:j] + d["shared"][j + 1:])
    if d["hooks"]:
        yield dict(d, hooks=False)


def describe(d):
    return "%d units: %s%s" % (len(d["units"]), " | ".join("%s uses %s (%s, %d own names)" % (" ".join(u["inc"]), " ".join(k for k, _ in u["use"]), u["flags"], len(u["own"])) for u in d["units"]), (", user hooks" if d["hooks"] else "") + (", shared " + " ".join(k for k, _ in d["shared"]) if d.get("shared") else ""))


def nontrivial(d):
    return len(d["units"]) > 1 or len(d["units"][0]["inc"]) > 1


def labels(d):
    return sorted(set(["%d units" % len(d["units"])] + [k for u in d["units"] for k, _ in u["use"]] + (["user hooks"] if d["hooks"] else []) + ["shared " + k for k, _ in d.get("shared", [])]))


EXTRA = []


def extra_names(ctx):
    """identifiers of the headers as they are now which are not in NAMES and which the standard headers leave free"""
    d, ids = os.path.join(ctx["repo"], "lib/h/ce"), set()
    for f in sorted(os.listdir(d)):
        t = open(os.path.join(d, f), errors="replace").read()
        t = re.sub(r"/\*.*?\*/|//[^\n]*|\"(\\.|[^\"\\\n])*\"", " ", t, flags=re.S)
        ids |= set(re.findall(r"\b[A-Za-z]\w+\b", t))
    known = set(NAMES) | set(re.findall(r"\w+", " ".join(OWN)))
    ids = [i for i in sorted(ids) if i not in known and not i.startswith("CE_") and i not in ("ce", "next32", "seed")]
    std = "".join("#include <%s>\n" % h for h in STD + ["unistd.h", "sys/time.h", "sys/types.h"])
    src = os.path.join(ctx["build"], "names.cpp")
    for early in (True, False):
        for form in ("static int %s;", "struct %s { int own; };", "namespace %s { }"):
            # a name that is refused, or that breaks what follows, is not free; names refused are found by their lines
            for _ in range(40):
                own = [form % i for i in ids]
                with open(src, "w") as f:
                    f.write("\n".join(own) + "\n" + std if early else std + "\n".join(own) + "\n")
                r = ctx["sh"]([ctx["cxx"], "-std=c++17", "-w", "-ferror-limit=0", "-fsyntax-only", src])
                if not r.returncode:
                    break
                first = 0 if early else len(STD) + 3
                bad = {int(x) - 1 - first for x in re.findall(r"names\.cpp:(\d+):", r.stdout)}
                words = set(re.findall(r"'(\w+)'", r.stdout))
                left = [i for k, i in enumerate(ids) if k not in bad and i not in words]
                if len(left) == len(ids):
                    return []
                ids = left
            else:
                return []
    return ids


def run(ctx):
    import sys
    mod = sys.modules[__name__]
    with open(os.path.join(ctx["build"], "c46_hooks.h"), "w") as f:
        f.write(HOOKS)
    if ctx.get("replay"):
        return common.replay(ctx, mod, ctx["replay"])
    EXTRA[:] = extra_names(ctx)
    if len(EXTRA) > 60:
        EXTRA[:] = random.Random(ctx["seed"]).sample(EXTRA, 60)
    th = ctx["tier"] == "thorough"
    return common.run(ctx, mod, 4500 if th else 300, 3, ["o0"], 1)
