// C07: CE_ASSERT / CE_VERIFY / CE_REJECT / CE_ERROR truth values and reports.
#define CE_USER_INCLUDE "log_hooks.h"
#include "gen_values.h"
#include "capture.h"
#include "c07_assert.h"
void cap_log(int level, int argc, char const* argv[][2]) { capture(level, argc, argv, false); }
bool cap_error(int level, int argc, char const* argv[][2]) { capture(level, argc, argv, true); return error_returns; }
static volatile sig_atomic_t breaks;
static void on_trap(int) { breaks = breaks + 1; }

static void expect(Src& s, bool reported, bool brk, char const* kind, char const* what, int line, char const* more, std::vector<string> const& vals)
{
    PBT_CHECK(s, records.size() == (reported ? 2u : 0u), "%s: %zu records", kind, records.size());
    PBT_CHECK(s, breaks == (brk ? 1 : 0), "%s: stopped %d times, expected %d", kind, int(breaks), brk);
    if (!reported) return;
    PBT_CHECK(s, !records[0].from_error && records[1].from_error, "%s: the log record comes before the error hook", kind);
    for (auto& r : records)
    {
        s.note("%s", show(r).c_str());
        PBT_CHECK(s, r.level == 0 && r.terminated && r.argc == int(2 + vals.size()), "%s: level %d argc %d (%zu values)", kind, r.level, r.argc, vals.size());
        string file = string(__FILE__) + "(" + std::to_string(line) + ")";
        PBT_CHECK(s, r.kv[0].first == kind && r.kv[0].second == file, "%s: reported as %s at %s, expected %s", kind, r.kv[0].first.c_str(), r.kv[0].second.c_str(), file.c_str());
        PBT_CHECK(s, r.kv[1].first == what && r.kv[1].second == more, "%s: reported test <%s> arguments <%s>", kind, r.kv[1].first.c_str(), r.kv[1].second.c_str());
        for (size_t i = 0; i < vals.size(); ++i) PBT_CHECK(s, r.kv[2 + i].first == "..." && r.kv[2 + i].second == vals[i], "%s: value %zu reported as <%s>, expected <%s>", kind, i, r.kv[2 + i].second.c_str(), vals[i].c_str());
    }
}
void prop(Src& s)
{
    signal(SIGTRAP, on_trap);
    records.clear(); breaks = 0;
    bool test = s.flip(); error_returns = s.flip();
    int x = int(s.sinteger(32)); unsigned long long u = s.integer(64); char const* t = strs[s.below(7)]; if (s.chance(1, 6)) t = nullptr; string const tt = t ? t : "#<nil>"; double d = double(s.sinteger(20)) / 8; ce::vec2<int> v{ x, 1 }; plain e = p1; int* p = &x; bool b = s.flip(); custom cu{ x };
    int calls = 0, side = 0; auto eval = [&] { ++calls; return test; }; auto arg = [&] { ++side; return x; };
    bool r = false; int line = 0; bool E = error_returns;
    s.nontrivial(); s.note("test %d, hook returns %d: ", test, E);
    u64 k = s.below(22);
    s.label(fmt("%s statement %d", test ? "true" : "false", int(k)).c_str());
    switch (k)
    {
    case 0: line = __LINE__; CE_ASSERT(eval()); expect(s, !test, !test && E, "CE_ASSERT", "eval()", line, "", { }); break;
    case 1: line = __LINE__; CE_ASSERT(eval(), x, t); expect(s, !test, !test && E, "CE_ASSERT", "eval()", line, "x, t", { any(x), tt }); break;
    case 2: line = __LINE__; CE_ASSERT(test == true, u, d, b); calls = 1; expect(s, !test, !test && E, "CE_ASSERT", "test == true", line, "u, d, b", { any(u), any(d), any(b) }); break;
    case 3: line = __LINE__; r = CE_VERIFY(eval()); PBT_CHECK(s, r == test, "CE_VERIFY(%d) is %d", test, r); expect(s, !test, !test && E, "CE_VERIFY", "eval()", line, "", { }); break;
    case 4: line = __LINE__; r = CE_VERIFY(eval(), v, e, x); PBT_CHECK(s, r == test, "CE_VERIFY(%d) is %d", test, r); expect(s, !test, !test && E, "CE_VERIFY", "eval()", line, "v, e, x", { any(v), any(e), any(x) }); break;
    case 5: line = __LINE__; if (CE_VERIFY(eval(), x)) r = true; else r = false; PBT_CHECK(s, r == test, "if (CE_VERIFY(%d)) took the wrong branch", test); expect(s, !test, !test && E, "CE_VERIFY", "eval()", line, "x", { any(x) }); break;
    case 6: line = __LINE__; r = CE_REJECT(eval()); PBT_CHECK(s, r == test, "CE_REJECT(%d) is %d", test, r); expect(s, test, test && E, "CE_REJECT", "eval()", line, "", { }); break;
    case 7: line = __LINE__; r = CE_REJECT(eval(), x, u); PBT_CHECK(s, r == test, "CE_REJECT(%d) is %d", test, r); expect(s, test, test && E, "CE_REJECT", "eval()", line, "x, u", { any(x), any(u) }); break;
    case 8: line = __LINE__; if (CE_REJECT(eval(), "why", t)) r = true; else r = false; PBT_CHECK(s, r == test, "if (CE_REJECT(%d)) took the wrong branch", test); expect(s, test, test && E, "CE_REJECT", "eval()", line, "\"why\", t", { "why", tt }); break;
    case 9: line = __LINE__; r = !CE_VERIFY(eval(), x); PBT_CHECK(s, r == !test, "!CE_VERIFY(%d) is %d", test, r); expect(s, !test, !test && E, "CE_VERIFY", "eval()", line, "x", { any(x) }); break;
    case 10: line = __LINE__; r = !CE_REJECT(eval(), x); PBT_CHECK(s, r == !test, "!CE_REJECT(%d) is %d", test, r); expect(s, test, test && E, "CE_REJECT", "eval()", line, "x", { any(x) }); break;
    case 11: line = __LINE__; CE_ERROR(); calls = 1; expect(s, true, true, "CE_ERROR", "", line, "", { }); break;
    case 12: line = __LINE__; CE_ERROR(x, t, u); calls = 1; expect(s, true, true, "CE_ERROR", "", line, "x, t, u", { any(x), tt, any(u) }); break;
    case 13: { int r1 = off::run(int(s.below(3)), test, x, calls); PBT_CHECK(s, r1 == 2 || r1 == int(test), "with reports off the value is %d for %d", r1, test); expect(s, false, false, "off", "", 0, "", { }); break; }
    case 14: line = __LINE__; r = CE_VERIFY(eval(), arg()); PBT_CHECK(s, side == (test ? 0 : 1), "the values of a check that %s were evaluated %d times", test ? "holds" : "fails", side); expect(s, !test, !test && E, "CE_VERIFY", "eval()", line, "arg()", { any(x) }); break;
    case 15: line = __LINE__; CE_ASSERT(bool{ eval() && p != nullptr }, p, cu); expect(s, !test, !test && E, "CE_ASSERT", "bool{ eval() && p != nullptr }", line, "p, cu", { any(p), any(cu) }); break;
    case 16: { auto f = [&]() -> int { if (!CE_VERIFY(eval(), x)) return 1; if (CE_REJECT(!test, u)) return 2; return 3; }; int z = f(); PBT_CHECK(s, z == (test ? 3 : 1), "guarded function returned %d", z); PBT_CHECK(s, records.size() == (test ? 0u : 2u), "%zu records", records.size()); break; }
    case 17: { // several checks in a row, each reports on its own
        bool t1 = s.flip(), t2 = s.flip(); r = CE_VERIFY(eval(), 1) & CE_VERIFY(t1, 2) & !CE_REJECT(t2, 3); size_t n = size_t(!test) + !t1 + t2;
        PBT_CHECK(s, r == (test && t1 && !t2) && records.size() == 2 * n && breaks == (E ? int(n) : 0), "%zu records, %d stops for %zu failing checks", records.size(), int(breaks), n); break; }
    case 18: { char c = char('a' + s.below(26)); signed char sc = (signed char)s.sinteger(8); line = __LINE__; CE_ASSERT(eval(), c, sc, 1.5f, "lit, with (comma"); expect(s, !test, !test && E, "CE_ASSERT", "eval()", line, "c, sc, 1.5f, \"lit, with (comma\"", { any(c), any(sc), "1.5", "lit, with (comma" }); break; }
    case 19: line = __LINE__; r = CE_VERIFY(eval(), x, u, t, d, v, e, b, 'q'); PBT_CHECK(s, r == test, "value"); expect(s, !test, !test && E, "CE_VERIFY", "eval()", line, "x, u, t, d, v, e, b, 'q'", { any(x), any(u), tt, any(d), any(v), any(e), any(b), "q" }); break;
    case 20: { r = CE_VERIFY(eval()) && CE_VERIFY(b, x); bool w = test && b; PBT_CHECK(s, r == w && records.size() == (w ? 0u : 2u), "chained checks: value %d, %zu records", r, records.size()); break; }
    default: { r = CE_REJECT(eval()) || CE_REJECT(b, x); bool w = test || b; PBT_CHECK(s, r == w && records.size() == (w ? 2u : 0u), "chained rejects: value %d, %zu records", r, records.size()); break; }
    }
    PBT_CHECK(s, calls == 1, "the test was evaluated %d times", calls);
}
PBT_MAIN(prop)
