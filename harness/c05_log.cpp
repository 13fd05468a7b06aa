// C05: structured log records carry the source text of each expression and the text of its value, in order.
#define CE_USER_INCLUDE "log_hooks.h"
#include "gen_values.h"
#include "capture.h"
void cap_log(int level, int argc, char const* argv[][2]) { capture(level, argc, argv, false); }
bool cap_error(int level, int argc, char const* argv[][2]) { capture(level, argc, argv, true); return false; }

// ---- generated argument lists, split into names
static string space(Src& s) { string r; for (u64 n = s.chance(1, 3) ? s.below(4) : 0; n > 0; --n) r += s.pick({ ' ', ' ', '\t', '\n' }); return r; }
static string ident(Src& s) { static char const* const w[] = { "a", "x1", "value", "_", "ns::name", "p->q", "caf\xc3\xa9", "\xc3\xa9t\xc3\xa9", "this", "a.b.c", "*p", "!ok", "-n", "~0u", "&obj" }; return w[s.below(15)]; }
static string literal(Src& s)
{
    char q = s.flip() ? '"' : '\'';
    if (s.chance(1, 6))
    {   // a raw string: anything but its own end
        string d, body; for (u64 n = s.chance(1, 2) ? 0 : s.below(4); n > 0; --n) d += s.pick({ 'x', '_', 'q', '1' });
        string end = ")" + d + "\"";
        for (u64 n = s.below(7); n > 0; --n) { static char const* const w[] = { ",", "\"", "'", "\\", "(", ")", ")\"", ")x\"", "a", " ", "[", "}", "\n", "R\"(" }; string m = body + w[s.below(14)]; if ((m + end).find(end) == m.size()) body = m; }
        s.label("raw string");
        return string(s.pick({ "R", "LR", "uR", "UR", "u8R" })) + "\"" + d + "(" + body + end;
    }
    string r(s.chance(1, 3) ? s.pick({ "L", "u", "U", "u8" }) : "");
    r += q;
    for (u64 n = s.below(6); n > 0; --n)
    {
        static char const* const w[] = { ",", "a", " ", "(", ")", "[", "}", "\\\\", "\\n", "{", "\xc3\xa9", "," };
        switch (s.below(4)) { case 0: r += string("\\") + q; break; case 1: r += q == '"' ? '\'' : '"'; break; default: r += w[s.below(12)]; }
    }
    return r + q;
}
static string expr(Src& s, int depth)
{
    switch (depth > 3 ? s.below(3) : s.below(9))
    {
    case 0: case 1: return ident(s);
    case 2: return literal(s);
    case 3: case 4: { string r = s.flip() ? ident(s) : ""; char o = s.pick({ '(', '[', '{' }), c = o == '(' ? ')' : o == '[' ? ']' : '}'; r += o; u64 n = s.below(4); for (u64 i = 0; i < n; ++i) r += (i ? "," : "") + space(s) + expr(s, depth + 1) + space(s); return r + c; }
    case 5: { string r = expr(s, depth + 1); r += space(s); r += s.pick({ "+", "-", "*", "/", "%", "<", "==", "&&", "||", "<<", "?" }); r += space(s); r += expr(s, depth + 1); return r; }
    case 6: return "sizeof " + ident(s);
    case 7: return std::to_string(s.integer(32)) + s.pick({ "", "u", "ull", ".5f", "'000", "'0'1u", "e1'0", ".5'5f" });
    default: return "(" + expr(s, depth + 1) + ")";
    }
}
template<size_t COUNT> static void split(Src& s)
{
    std::vector<string> want; string src;
    for (size_t i = 0; i < COUNT; ++i)
    {
        string e = expr(s, 0);
        if (src.size() + e.size() > 900) e = "z";
        src += space(s) + e + space(s) + (i + 1 < COUNT ? "," : "");
        want.push_back(e);
    }
    if (src.size() > 1000) s.discard();
    static ce::names<1024, COUNT>* mem = static_cast<ce::names<1024, COUNT>*>(malloc(sizeof(ce::names<1024, COUNT>)));
    // an exact size copy of the source, so that reading past its end is seen
    std::vector<char> exact(src.c_str(), src.c_str() + src.size() + 1);
    auto& n = *new (static_cast<void*>(mem)) ce::names<1024, COUNT>(exact.data());
    s.note("names of \"%s\":", src.c_str());
    for (size_t i = 0; i < COUNT; ++i)
    {
        s.note(" <%s>", n.data[i]);
        PBT_CHECK(s, want[i] == n.data[i], "name %zu of \"%s\" is <%s>, expected <%s>", i, src.c_str(), n.data[i], want[i].c_str());
    }
    s.nontrivial(src.size() > 2 * COUNT); s.label(fmt("split %zu", COUNT).c_str());
}

// ---- real log statements with random values
struct want_t { int level; std::vector<std::pair<string, string>> kv; };
static void expect(Src& s, want_t const& w)
{
    PBT_CHECK(s, records.size() == 1, "%zu records for one statement", records.size());
    auto& r = records[0];
    s.note("%s", show(r).c_str());
    PBT_CHECK(s, r.level == w.level, "level %d, expected %d", r.level, w.level);
    PBT_CHECK(s, r.terminated && r.argc == int(w.kv.size()), "argc %d, expected %zu, terminated %d", r.argc, w.kv.size(), r.terminated);
    for (size_t i = 0; i < w.kv.size(); ++i)
        PBT_CHECK(s, r.kv[i] == w.kv[i], "item %zu is {%s = %s}, expected {%s = %s}", i, r.kv[i].first.c_str(), r.kv[i].second.c_str(), w.kv[i].first.c_str(), w.kv[i].second.c_str());
    records.clear();
}
#define LOG1(LVL, N, ...) do { CE_LOG(LVL, __VA_ARGS__); expect(s, { N, { { "$", #LVL }, WANT } }); } while (0)

static int \u00e9t(int v) { return v; }
static void statements(Src& s)
{
    records.clear();
    int i = int(s.sinteger(32)); unsigned long long u = s.integer(64); double d = double(s.sinteger(30)) / 64; char const* t = strs[s.below(7)]; if (s.chance(1, 6)) t = nullptr; char c = char(33 + s.below(90)); bool b = s.flip();
    int arr[3]{ i, 1, -i / 2 - 1 }; ce::vec2<int> v{ i, 7 }; plain e = p2; int* p = s.flip() ? &i : nullptr; custom cu{ i };
    struct { int x; char y[6]; } o{ i ^ 5, "yy" }; u64 calls = 0; auto next = [&calls](int k) { ++calls; return k * 2; };
    s.nontrivial();
    #define KV(K, V) { K, ref::any(V) }
    switch (s.below(27))
    {
    case 23: CE_LOG(info, 1'000, i, 0x1'Fu + 1, ',', 1'0.5); return expect(s, { 4, { { "$", "info" }, { "1'000", "1000" }, KV("i", i), { "0x1'Fu + 1", "32" }, { "','", "," }, KV("1'0.5", 10.5) } });
    case 24: CE_LOG(info, R"(5" disk)", i, R"x(a)" , )x", u); return expect(s, { 4, { { "$", "info" }, { "R\"(5\" disk)\"", "5\" disk" }, KV("i", i), { "R\"x(a)\" , )x\"", "a)\" , " }, KV("u", u) } });
    case 25: { int R = i, uR = 3; CE_LOG(info, R, uR, "x", u8"a,", u); return expect(s, { 4, { { "$", "info" }, KV("R", i), KV("uR", 3), { "\"x\"", "x" }, { "u8\"a,\"", "a," }, KV("u", u) } }); }
    case 0: CE_LOG(fatal, i); return expect(s, { 0, { { "$", "fatal" }, KV("i", i) } });
    case 1: CE_LOG(fail, i, u); return expect(s, { 0, { { "$", "fail" }, KV("i", i), KV("u", u) } });
    case 2: CE_LOG(error, d, t); return expect(s, { 1, { { "$", "error" }, KV("d", d), { "t", t ? t : "#<nil>" } } });
    case 3: CE_LOG(warn, c , b ,i); return expect(s, { 2, { { "$", "warn" }, KV("c", c), KV("b", b), KV("i", i) } });
    case 4: CE_LOG(note, arr, v); return expect(s, { 3, { { "$", "note" }, KV("arr", arr), KV("v", v) } });
    case 5: CE_LOG(info, e, p); return expect(s, { 4, { { "$", "info" }, KV("e", e), KV("p", p) } });
    case 6: CE_LOG(debug, cu, o.x, o.y, arr[1]); return expect(s, { 5, { { "$", "debug" }, KV("cu", cu), KV("o.x", o.x), { "o.y", "yy" }, KV("arr[1]", arr[1]) } });
    case 7: CE_LOG(spam, next(i / 4), ce::vec2<int>{ 1, 2 }, (i, 5), std::min({ 3, 9 })); PBT_CHECK(s, calls == 1, "argument evaluated %d times", int(calls));
        return expect(s, { 6, { { "$", "spam" }, KV("next(i / 4)", (i / 4) * 2), { "ce::vec2<int>{ 1, 2 }", "[1, 2]" }, { "(i, 5)", "5" }, { "std::min({ 3, 9 })", "3" } } });
    case 8: CE_LOG(more, i + 0ll); return expect(s, { 7, { { "$", "more" }, KV("i + 0ll", i + 0ll) } });
    case 9: CE_LOG(anything, i); return expect(s, { 7, { { "$", "anything" }, KV("i", i) } });
    case 10: CE_LOG(info); return expect(s, { 4, { { "$", "info" } } });
    case 11: CE_LOG(info, "a, b", ',', i, ")\"("); return expect(s, { 4, { { "$", "info" }, { "\"a, b\"", "a, b" }, { "','", "," }, KV("i", i), { "\")\\\"(\"", ")\"(" } } });
    case 12: CE_LOG_MSG(info, "The answer is ", i, "!"); return expect(s, { 4, { { "$", "info" }, { "$msg", "The answer is " + ref::any(i) + "!" } } });
    case 13: CE_LOG_MSG(error, t, u, c, d); return expect(s, { 1, { { "$", "error" }, { "$msg", string(t ? t : "#<nil>") + ref::any(u) + string(1, c) + ref::any(d) } } });
    case 14: CE_LOG_MSG(fatal, "only text"); return expect(s, { 0, { { "$", "fatal" }, { "$msg", "only text" } } });
    case 15: CE_LOG_MSG(warn, b, arr, v); return expect(s, { 2, { { "$", "warn" }, { "$msg", ref::any(b) + ref::any(arr) + ref::any(v) } } });
    case 16: { int caf\u00e9 = i; CE_LOG(note, caf\u00e9, \u00e9t(caf\u00e9)); return expect(s, { 3, { { "$", "note" }, KV("caf\xc3\xa9", i), KV("\xc3\xa9t(caf\xc3\xa9)", i) } }); }
    case 17: { // any of ten levels in a row: order of records
        CE_LOG(info, i); CE_LOG(warn, u); CE_LOG_MSG(spam, i, u);
        PBT_CHECK(s, records.size() == 3 && records[0].level == 4 && records[1].level == 2 && records[2].level == 6, "records out of order");
        PBT_CHECK(s, records[0].kv[1].second == ref::any(i) && records[1].kv[1].second == ref::any(u) && records[2].kv[1].second == ref::any(i) + ref::any(u), "wrong values"); return; }
    case 18: CE_LOG(info, i, u, d, t, c, b, arr, v, e, p); return expect(s, { 4, { { "$", "info" }, KV("i", i), KV("u", u), KV("d", d), { "t", t ? t : "#<nil>" }, KV("c", c), KV("b", b), KV("arr", arr), KV("v", v), KV("e", e), KV("p", p) } });
    case 19: CE_LOG(info, i ? i : 1, i == 2 || (b && i), arr[(i, 0)]); return expect(s, { 4, { { "$", "info" }, KV("i ? i : 1", i ? i : 1), KV("i == 2 || (b && i)", i == 2 || (b && i)), KV("arr[(i, 0)]", arr[0]) } });
    case 20: // run time keys straight through the hook entry
    { char const* keys[] = { "k0", "k,1", "" }; ce::call_log_hook(int(s.sinteger(8)), keys, i, t, u); auto lv = records.at(0).level; return expect(s, { lv, { KV("k0", i), { "k,1", t ? t : "#<nil>" }, KV("", u) } }); }
#undef CE_LOG_LEVEL
#define CE_LOG_LEVEL 0
    case 21: { CE_LOG(info, next(i / 4)); CE_LOG_MSG(info, next(i / 4), "x"); PBT_CHECK(s, records.empty() && calls == 0, "a disabled log statement produced %zu records and %d evaluations", records.size(), int(calls)); return; }
#undef CE_LOG_LEVEL
#define CE_LOG_LEVEL 1
    case 22: CE_LOG(info, (std::pair<int, int>{ i / 4, 2 }.first), sizeof(int[2 + 1])); return expect(s, { 4, { { "$", "info" }, KV("(std::pair<int, int>{ i / 4, 2 }.first)", i / 4), KV("sizeof(int[2 + 1])", sizeof(int[3])) } });
    default: CE_LOG(info, '"', "'", '\'', "\\", i); return expect(s, { 4, { { "$", "info" }, { "'\"'", "\"" }, { "\"'\"", "'" }, { "'\\''", "'" }, { "\"\\\\\"", "\\" }, KV("i", i) } });
    }
}
void prop(Src& s)
{
    if (s.chance(1, 3)) { statements(s); s.label("statement"); return; }
    switch (s.below(8)) { case 0: return split<1>(s); case 1: return split<2>(s); case 2: return split<3>(s); case 3: return split<4>(s); case 4: return split<5>(s); case 5: return split<6>(s); case 6: return split<8>(s); default: return split<12>(s); }
}
PBT_MAIN(prop)
