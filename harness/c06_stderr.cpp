// C06: default log and failure reports on stderr.
#include "gen_values.h"
#include <sys/mman.h>
#include <sys/syscall.h>
// both outputs of the process go to memory; writes can be cut short or be interrupted by signals
static int mem[2] = { -1, -1 }, saved[2]; static bool capture; static u64 faults, shorts; static std::vector<u32> plan;
extern "C" ssize_t write(int fd, void const* p, size_t n)
{
    if (capture && (fd == 1 || fd == 2) && n && !plan.empty())
    {
        u32 k = plan.back(); plan.pop_back();
        if (k == 0) { ++faults; errno = EINTR; return -1; }
        if (k != ~0u) { ++shorts; n = 1 + size_t(u64(n) * k >> 32); }
    }
    return syscall(SYS_write, fd, p, n);
}
static void begin(Src& s)
{
    fflush(stdout); for (int i = 0; i < 2; ++i) { if (mem[i] < 0) mem[i] = memfd_create("out", 0); if (ftruncate(mem[i], 0)) { } lseek(mem[i], 0, SEEK_SET); saved[i] = dup(i + 1); dup2(mem[i], i + 1); }
    plan.clear(); faults = shorts = 0; if (s.chance(1, 3)) for (u64 j = 1 + s.skewed(40); j > 0; --j) plan.push_back(s.chance(1, 3) ? 0 : s.chance(1, 3) ? ~0u : u32(s.below(~0u)) | 1);
    capture = true;
}
static string finish(Src& s)
{
    fflush(stdout); capture = false; string r[2];
    for (int i = 0; i < 2; ++i) { dup2(saved[i], i + 1); close(saved[i]); off_t n = lseek(mem[i], 0, SEEK_END); r[i].assign(size_t(n), 0); if (pread(mem[i], &r[i][0], size_t(n), 0) != n) r[i] = "?"; }
    PBT_CHECK(s, r[0].empty(), "standard output got '%s'", r[0].c_str()); if (faults) s.label("interrupted writes"); if (shorts) s.label("short writes"); return r[1];
}
static string text(Src& s) { string r; size_t n = s.chance(1, 30) ? s.skewed(20000) : s.below(20); static char const* const w[] = { "a", "\"", ",", " }", "\n", "{ ", "\\", "\xc3\xa9", "x", "0", ": " }; while (r.size() < n) r += w[s.below(11)]; return r; }
void prop(Src& s)
{
    int level = int(s.pick<i64>({ 0, 1, 2, 3, 4, 5, 6, 7, -1, -128, 8, 127, 1000000 }));
    char L = "FEWNIDSM"[level < 0 ? 0 : level > 7 ? 7 : level];
    if (s.chance(1, 4))
    {
        char const* keys[] = { "$", "k", "v2" }; int i = int(s.sinteger(32)); char const* t = strs[s.below(7)];
        begin(s); ce::call_log_hook(level, keys, t, i, ce::vec2<int>{ i, 3 }); string got = finish(s);
        string want = string(1, L) + ": { \"$\": \"" + t + "\", \"k\": \"" + ref::any(i) + "\", \"v2\": \"" + ref::any(ce::vec2<int>{ i, 3 }) + "\" }\n";
        PBT_CHECK(s, got == want, "printed '%s', expected '%s'", got.c_str(), want.c_str()); s.label("hook"); s.nontrivial(); s.note("%s", got.c_str()); return;
    }
    bool err = s.chance(1, 3);
    int n = int(s.chance(1, 4) ? s.below(40) : s.below(8));
    std::vector<string> st; for (int i = 0; i < 2 * n; ++i) st.push_back(text(s));
    std::vector<std::array<char const*, 2>> av; bool nulls = s.chance(1, 8);
    for (int i = 0; i < n; ++i) av.push_back({ st[size_t(2 * i)].c_str(), st[size_t(2 * i + 1)].c_str() });
    if (nulls && n) av[s.below(u64(n))][s.below(2)] = nullptr;
    av.push_back({ nullptr, nullptr });
    auto argv = reinterpret_cast<char const* (*)[2]>(av.data());
    auto str = [&](int i, int k) { return string(av[size_t(i)][size_t(k)] ? av[size_t(i)][size_t(k)] : ""); };
    string want, got; 
    if (!err)
    {
        begin(s); ce::os::log(level, n, argv); got = finish(s);
        want = string(1, L) + ": {";
        for (int i = 0; i < n; ++i) want += (i ? ", \"" : " \"") + str(i, 0) + "\": \"" + str(i, 1) + "\"";
        want += " }\n"; s.label("log");
    }
    else
    {
        bool none = s.chance(1, 10);
        begin(s); bool r = ce::os::error(level, n, none ? nullptr : argv); got = finish(s);
        want = "******** FAILED ********\n";
        if (!none && n > 1)
        {
            want += str(0, 1) + ": " + str(0, 0) + ": " + str(1, 0) + ": (" + str(1, 1) + ") = (";
            for (int i = 2; i < n; ++i) want += (i > 2 ? ", " : "") + str(i, 1);
            want += ")\n";
        }
        PBT_CHECK(s, r == (level == 0), "error() of level %d returned %d", level, r); s.label("error");
    }
    s.note("level %d: %.600s", level, got.c_str());
    PBT_CHECK(s, got == want, "level %d printed '%s', expected '%s'", level, got.c_str(), want.c_str());
    s.nontrivial(n > 1);
}
PBT_MAIN(prop)
