// pbt.h - a small property-based testing engine (choice-sequence style).
//
// A property is   void prop(pbt::Src& s)   that draws every random choice from `s`, runs the code
// under test, and calls PBT_CHECK / s.fail() when the oracle disagrees. Each draw is recorded on a
// "tape" of bounded integers in shared memory, so that
//   * a failing case (exception, crash, sanitizer report, non-termination) is a replayable tape,
//   * shrinking is generic: delete / zero / minimise tape entries, re-running each candidate in a fork,
//   * libFuzzer can drive the same property (bytes -> tape), see PBT_FUZZ.
// Simplest value of every draw is 0 / the lower bound, so shrinking moves towards simple cases.
//
// The run is a pure function of (code, seed, case count): case i uses an RNG seeded by (seed, i).
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt
{
    using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
    using i32 = int32_t; using i64 = int64_t; using i128 = __int128; using u128 = unsigned __int128;

    constexpr size_t TAPE_CAP = 1u << 20;
    constexpr size_t LABEL_CAP = 160;

    struct Failure { std::string msg; std::vector<u64> alt; };
    struct Discard { };

    inline std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
    inline std::string fmt(char const* f, ...)
    {
        va_list ap; va_start(ap, f);
        char buf[4096];
        int n = vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        return std::string(buf, n < 0 ? 0 : std::min<size_t>(size_t(n), sizeof buf - 1));
    }

    inline u64 mix(u64 z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    struct Rng
    {
        u64 s[4];
        explicit Rng(u64 seed) { for (auto& x : s) x = seed = mix(seed); }
        static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
        u64 next()
        {
            u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
            s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
            return r;
        }
    };

    struct Label { char name[56]; u64 count; };

    struct Shared // one per worker, mmap'd MAP_SHARED
    {
        volatile u64 case_idx;     // case being run (for hang detection)
        volatile u64 progress;     // bumped when a case starts
        volatile u32 tape_len;
        volatile int failed;       // 1: Failure thrown
        volatile int done;
        u64 cases, evals, nontrivial, distinct, discards;
        u64 sample_idx[6]; u64 nsamples;
        Label labels[LABEL_CAP];
        char msg[8192];
        u32 alt_len; u64 alt[4096];
        char notes[1 << 16]; u32 notes_len;
        u64 tape[TAPE_CAP];
    };

    struct Global // one for the run
    {
        volatile int stop;
        static constexpr u64 bits = 1ull << 28;
        u8 seen[bits / 8];
    };

    struct Src
    {
        Shared* sh = nullptr;
        Rng rng{ 0 };
        bool replay = false;
        std::vector<u64> const* tape = nullptr;
        size_t pos = 0;
        u8 const* fz = nullptr; size_t fz_size = 0; bool fuzz = false;
        bool verbose = false;
        u64 digest = 0;
        bool is_nontrivial = false;
        u64 extra_evals = 0, extra_distinct = 0;
        u64 index = 0;
        bool thorough = false;

        u64 below(u64 n) // uniform in [0, n); n == 0: all 64 bits
        {
            u64 v;
            if (fuzz)
            {
                int nb = 8;
                if (n) { nb = 0; for (u64 t = n - 1; t; t >>= 8) ++nb; }
                v = 0;
                for (int i = 0; i < nb; ++i) { v = v << 8 | (fz_size ? (--fz_size, *fz++) : 0); }
                if (n) v %= n;
            }
            else if (replay)
            {
                v = pos < tape->size() ? (*tape)[pos] : 0;
                if (n && v >= n) v %= n;
            }
            else
            {
                v = rng.next();
                if (n) v = u64((u128(v) * n) >> 64);
            }
            ++pos;
            u32 l = sh->tape_len;
            if (l >= TAPE_CAP) throw Discard{ };
            sh->tape[l] = v; sh->tape_len = l + 1;
            digest = (digest ^ v) * 0x9e3779b97f4a7c15ull; digest ^= digest >> 29;
            return v;
        }
        // a value the run fixes, but a replay can override
        u64 constant(u64 v)
        {
            if (replay) v = pos < tape->size() ? (*tape)[pos] : 0;
            ++pos;
            u32 l = sh->tape_len;
            if (l >= TAPE_CAP) throw Discard{ };
            sh->tape[l] = v; sh->tape_len = l + 1;
            digest = (digest ^ v) * 0x9e3779b97f4a7c15ull; digest ^= digest >> 29;
            return v;
        }
        // enumeration: case i visits item i % n of a finite space (random when fuzzing), still recorded on the tape
        u64 sweep(u64 n)
        {
            if (fuzz || replay) return below(n);
            u64 v = index % n;
            ++pos;
            u32 l = sh->tape_len;
            if (l >= TAPE_CAP) throw Discard{ };
            sh->tape[l] = v; sh->tape_len = l + 1;
            digest = (digest ^ v) * 0x9e3779b97f4a7c15ull; digest ^= digest >> 29;
            return v;
        }
        u64 bits(int k) { return k >= 64 ? below(0) : below(1ull << k); }
        i64 range(i64 lo, i64 hi) { return i64(u64(lo) + below(u64(hi) - u64(lo) + 1)); }
        bool chance(u64 num, u64 den) { return below(den) >= den - num; } // 0 -> false
        bool flip() { return below(2) != 0; }
        template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
        template<class V> auto const& of(V const& v) { return v[below(v.size())]; }
        // weighted choice, returns the index
        size_t weighted(std::initializer_list<unsigned> w)
        {
            u64 t = 0; for (auto x : w) t += x;
            u64 r = below(t); size_t i = 0;
            for (auto x : w) { if (r < x) return i; r -= x; ++i; }
            return 0;
        }
        // size in [0, max], log-skewed so that small and large both occur
        size_t skewed(size_t max)
        {
            int b = 0; while ((max >> b) != 0) ++b;
            int k = int(below(u64(b) + 1));
            if (k == 0) return 0;
            u64 hi = std::min<u64>(max, (1ull << k) - 1), lo = 1ull << (k - 1);
            if (lo > hi) lo = hi;
            return size_t(lo + below(hi - lo + 1));
        }
        // an unsigned integer of `w` bits: small values, powers of two +- small, boundaries, uniform bit length
        u64 integer(int w)
        {
            u64 mask = w >= 64 ? ~0ull : (1ull << w) - 1;
            switch (below(6))
            {
            case 0: return below(17) & mask;
            case 1: return bits(int(below(u64(w) + 1))) & mask;
            case 2: { u64 p = 1ull << below(u64(w)); return (p + below(9) - 4) & mask; }
            case 3: return (mask - below(17)) & mask;
            case 4: return ((1ull << (w - 1)) + below(33) - 16) & mask;
            default: return bits(w);
            }
        }
        i64 sinteger(int w) // signed two's complement of w bits
        {
            u64 v = integer(w);
            if (w < 64 && (v >> (w - 1) & 1)) v |= ~((1ull << w) - 1);
            return i64(v);
        }
        // signed integer in [-lim, lim] with structure
        i64 coord(i64 lim)
        {
            switch (below(6))
            {
            case 0: return range(-std::min<i64>(lim, 3), std::min<i64>(lim, 3));
            case 1: { int b = 0; while ((lim >> b) != 0) ++b; i64 m = std::min<i64>(lim, (1ll << below(u64(b) + 1)) - 1); return range(-m, m); }
            case 2: { i64 k = i64(below(4)); return flip() ? lim - k : -lim + k; }
            default: return range(-lim, lim);
            }
        }
        std::vector<u8> bytes(size_t n) { std::vector<u8> r(n); for (auto& b : r) b = u8(below(256)); return r; }

        void nontrivial(bool b = true) { is_nontrivial |= b; }
        void count(u64 n) { extra_evals += n; }
        void count_distinct(u64 n) { extra_distinct += n; } // disjoint by construction
        void discard() { throw Discard{ }; }
        void label(char const* name, u64 n = 1)
        {
            for (size_t i = 0; i < LABEL_CAP; ++i)
            {
                auto& l = sh->labels[i];
                if (l.name[0] == 0) { strncpy(l.name, name, sizeof l.name - 1); l.count = n; return; }
                if (strncmp(l.name, name, sizeof l.name - 1) == 0) { l.count += n; return; }
            }
        }
        void note(char const* f, ...) __attribute__((format(printf, 2, 3)))
        {
            if (!verbose) return;
            va_list ap; va_start(ap, f);
            char* b = sh->notes + sh->notes_len; size_t room = sizeof sh->notes - sh->notes_len;
            int n = vsnprintf(b, room, f, ap);
            va_end(ap);
            if (n > 0) sh->notes_len += u32(std::min<size_t>(size_t(n), room - 1));
        }
        [[noreturn]] void fail(std::string const& m, std::vector<u64> alt = { }) { throw Failure{ m, std::move(alt) }; }
    };

#define PBT_CHECK(S, COND, ...) do { if (!(COND)) (S).fail(std::string(#COND " -- ") + ::pbt::fmt(__VA_ARGS__)); } while (0)

    struct Options
    {
        u64 seed = 1, cases = 1000; unsigned workers = 8; bool thorough = false;
        std::string out, replay, replay_out = "replay.txt", name = "P", config = "cfg";
        unsigned cpu_limit = 20;       // CPU seconds one case may take before it counts as non-terminating
        unsigned wall_limit = 0;       // 0: wall-clock blocking is not a failure
        unsigned shrink_ms = 40000;
    };

    using Prop = void (*)(Src&);
    using Init = void (*)();

    inline std::string json_escape(std::string const& s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') r += '\\', r += char(c);
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c >= 127) r += fmt("\\u%04x", c);
            else r += char(c);
        }
        return r;
    }

    template<class T> T* shared_alloc()
    {
        void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
        return static_cast<T*>(p);
    }

    // 0 pass, 1 failed, 2 discarded
    inline int run_case(Prop prop, Src& s)
    {
        try { prop(s); return 0; }
        catch (Discard&) { return 2; }
        catch (Failure& f)
        {
            strncpy(s.sh->msg, f.msg.c_str(), sizeof s.sh->msg - 1);
            s.sh->alt_len = u32(std::min<size_t>(f.alt.size(), 4096));
            for (u32 i = 0; i < s.sh->alt_len; ++i) s.sh->alt[i] = f.alt[i];
            return 1;
        }
    }

    inline double cpu_of(pid_t pid)
    {
        clockid_t c; timespec t;
        if (clock_getcpuclockid(pid, &c) != 0 || clock_gettime(c, &t) != 0) return 0;
        return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
    }
    inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

    struct Verdict { int status; /*0 pass 1 fail 2 discard*/ std::string msg; std::vector<u64> tape; std::string notes; };

    inline void quiet_stderr(char const* path)
    {
        int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
    }

    // run one tape in a fork
    inline Verdict run_tape(Prop prop, Options const& o, Shared* sh, std::vector<u64> const& tape, bool verbose, unsigned cpu_limit, char const* errlog)
    {
        sh->tape_len = 0; sh->msg[0] = 0; sh->alt_len = 0; sh->notes_len = 0; sh->notes[0] = 0; sh->failed = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            quiet_stderr(errlog);
            rlimit rl{ cpu_limit, cpu_limit + 1 }; setrlimit(RLIMIT_CPU, &rl);
            rlimit rc{ 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
            Src s; s.sh = sh; s.replay = true; s.tape = &tape; s.verbose = verbose; s.thorough = o.thorough;
            int r = run_case(prop, s);
            _exit(r == 0 ? 0 : r == 1 ? 10 : 11);
        }
        int st = 0;
        double t0 = now();
        unsigned wl = o.wall_limit ? o.wall_limit : std::max(300u, cpu_limit * 10);
        bool killed = false;
        useconds_t nap = 200;
        while (waitpid(pid, &st, WNOHANG) == 0)
        {
            if (now() - t0 > wl) { kill(pid, SIGKILL); killed = true; waitpid(pid, &st, 0); break; }
            usleep(nap); if (nap < 5000) nap = nap * 3 / 2;
        }
        Verdict v; v.tape.assign(sh->tape, sh->tape + sh->tape_len); v.notes.assign(sh->notes, sh->notes_len);
        if (killed) { v.status = o.wall_limit ? 1 : 2; v.msg = fmt("blocked for %u s of wall time", wl); }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) v.status = 0;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { v.status = 1; v.msg = sh->msg; if (sh->alt_len) v.tape.assign(sh->alt, sh->alt + sh->alt_len); }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) v.status = 2;
        else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU)) { v.status = 1; v.msg = fmt("did not terminate within %u CPU seconds", cpu_limit); }
        else if (WIFSIGNALED(st)) { v.status = 1; v.msg = fmt("crashed with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
        else { v.status = 1; v.msg = fmt("abnormal exit %d (sanitizer report or abort)", WEXITSTATUS(st)); }
        return v;
    }

    inline std::vector<u64> shrink(Prop prop, Options const& o, Shared* sh, std::vector<u64> best, bool hang, u64& tried)
    {
        double deadline = now() + o.shrink_ms / 1000.0;
        unsigned lim = hang ? 2 : std::min(o.cpu_limit, 5u);
        if (hang) deadline = now() + 30;
        auto attempt = [&](std::vector<u64> const& c) -> bool {
            if (now() > deadline) return false;
            ++tried;
            auto v = run_tape(prop, o, sh, c, false, lim, "/dev/null");
            if (v.status != 1) return false;
            // simpler = shorter, or lexicographically smaller
            auto& n = v.tape;
            if (n.size() < best.size() || (n.size() == best.size() && n < best)) { best = n; return true; }
            if (c.size() < best.size() || (c.size() == best.size() && c < best)) { best = c; return true; }
            return false;
        };
        bool progress = true;
        while (progress && now() < deadline)
        {
            progress = false;
            // delete chunks
            for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2)
            {
                for (size_t i = best.size(); i-- > 0 && now() < deadline;)
                {
                    if (i + k > best.size()) continue;
                    auto c = best; c.erase(c.begin() + long(i), c.begin() + long(i + k));
                    if (attempt(c)) { progress = true; i = std::min(i + 1, best.size()); }
                    else if (k > 8 && i >= k) i -= k - 1;
                }
                if (k == 1) break;
            }
            // delete one entry and decrement an earlier one (counts followed by items)
            for (size_t i = 0; i < best.size() && best.size() < 200 && now() < deadline; ++i)
                if (best[i] > 0 && best[i] < 100000)
                    for (size_t k = 1; k <= 4 && i + k < best.size(); ++k)
                        for (size_t j = i + 1; j + k <= best.size() && now() < deadline; ++j)
                        {
                            auto c = best; c[i] -= 1; c.erase(c.begin() + long(j), c.begin() + long(j + k));
                            if (attempt(c)) { progress = true; if (i >= best.size() || best[i] == 0) break; }
                        }
            // zero chunks
            for (size_t k = 8; k >= 1; k /= 2)
                for (size_t i = 0; i + k <= best.size() && now() < deadline; ++i)
                {
                    auto c = best; bool any = false;
                    for (size_t j = 0; j < k; ++j) any |= c[i + j] != 0, c[i + j] = 0;
                    if (any && attempt(c)) progress = true;
                }
            // minimise values
            for (size_t i = 0; i < best.size() && now() < deadline; ++i)
            {
                u64 lo = 0;
                while (i < best.size() && best[i] > lo && now() < deadline)
                {
                    u64 hi = best[i], mid = lo + (hi - lo) / 2;
                    auto c = best; c[i] = mid;
                    if (attempt(c)) { progress = true; if (i < best.size() && best[i] >= hi) break; }
                    else lo = mid + 1;
                }
            }
        }
        return best;
    }

    inline void write_replay(Options const& o, std::vector<u64> const& tape, std::string const& msg, std::string const& notes, std::string const& err, int reproduced, int of)
    {
        FILE* f = fopen(o.replay_out.c_str(), "w");
        if (!f) return;
        fprintf(f, "property %s\nconfig %s\nseed %llu\ntape", o.name.c_str(), o.config.c_str(), (unsigned long long)o.seed);
        for (auto v : tape) fprintf(f, " %llu", (unsigned long long)v);
        fprintf(f, "\nreproduced %d of %d\nfailure %s\n--- case\n%s\n--- stderr tail\n%s\n", reproduced, of, msg.c_str(), notes.c_str(), err.c_str());
        fclose(f);
    }

    inline std::string tail_of(char const* path, size_t n)
    {
        std::string r; FILE* f = fopen(path, "r"); if (!f) return r;
        fseek(f, 0, SEEK_END); long sz = ftell(f); long st = sz > long(n) ? sz - long(n) : 0; fseek(f, st, SEEK_SET);
        r.resize(size_t(sz - st)); r.resize(fread(&r[0], 1, r.size(), f)); fclose(f);
        return r;
    }

    inline std::string read_tape_file(std::string const& path, std::vector<u64>& tape)
    {
        FILE* f = fopen(path.c_str(), "r"); if (!f) return "cannot open";
        char* line = nullptr; size_t cap = 0; bool got = false;
        while (getline(&line, &cap, f) > 0)
            if (!got && strncmp(line, "tape", 4) == 0)
            {
                got = true;
                for (char* p = line + 4;;) { char* e; u64 v = strtoull(p, &e, 10); if (e == p) break; tape.push_back(v); p = e; }
            }
        free(line); fclose(f);
        return got ? "" : "no tape line";
    }

    inline int finish_failure(Prop prop, Options const& o, Shared* scratch, std::vector<u64> tape, std::string msg, bool hang)
    {
        std::string errlog = o.replay_out + ".err";
        // confirm first, then shrink, then replay the shrunk case
        int ok0 = 0; 
        for (int i = 0; i < 3; ++i) { auto v = run_tape(prop, o, scratch, tape, false, o.cpu_limit, "/dev/null"); ok0 += v.status == 1; if (hang) break; }
        u64 tried = 0;
        auto best = tape;
        if (ok0 > 0) best = shrink(prop, o, scratch, tape, hang, tried);
        int ok = 0; Verdict last{ };
        int reps = hang ? 2 : 3;
        for (int i = 0; i < reps; ++i) { auto v = run_tape(prop, o, scratch, best, true, o.cpu_limit, errlog.c_str()); if (v.status == 1) ++ok, last = v; }
        if (ok == 0 && ok0 > 0)
        {
            best = tape; last = { };
            for (int i = 0; i < 10; ++i) { auto v = run_tape(prop, o, scratch, best, true, o.cpu_limit, errlog.c_str()); if (v.status == 1) ++ok, last = v; }
            reps = 10;
        }
        if (ok > 0) msg = last.msg;
        write_replay(o, best, msg, last.notes, tail_of(errlog.c_str(), 6000), ok, reps);
        unlink(errlog.c_str());
        printf("FAILURE config=%s reproduced=%d/%d shrunk %zu->%zu entries in %llu attempts\n  %s\n", o.config.c_str(), ok, reps, tape.size(), best.size(), (unsigned long long)tried, msg.c_str());
        if (!last.notes.empty()) printf("  case: %.2000s\n", last.notes.c_str());
        return ok;
    }

    inline int engine_main(int argc, char** argv, Prop prop, Init init = nullptr)
    {
        Options o;
        std::string shrink_tape;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--workers") o.workers = unsigned(atoi(val().c_str()));
            else if (a == "--out") o.out = val();
            else if (a == "--replay") o.replay = val();
            else if (a == "--shrink") shrink_tape = val();
            else if (a == "--replay-out") o.replay_out = val();
            else if (a == "--name") o.name = val();
            else if (a == "--config") o.config = val();
            else if (a == "--thorough") o.thorough = true;
            else if (a == "--cpu-limit") o.cpu_limit = unsigned(atoi(val().c_str()));
            else if (a == "--wall-limit") o.wall_limit = unsigned(atoi(val().c_str()));
        }
        setvbuf(stdout, nullptr, _IOLBF, 0);
        rlimit rs; getrlimit(RLIMIT_STACK, &rs); rs.rlim_cur = 8u << 20; setrlimit(RLIMIT_STACK, &rs);
        if (init) init();
        Shared* scratch = shared_alloc<Shared>();

        if (!o.replay.empty() || !shrink_tape.empty())
        {
            std::vector<u64> tape;
            auto e = read_tape_file(o.replay.empty() ? shrink_tape : o.replay, tape);
            if (!e.empty()) { fprintf(stderr, "%s\n", e.c_str()); return 3; }
            if (!shrink_tape.empty())
            {
                auto v = run_tape(prop, o, scratch, tape, false, o.cpu_limit, "/dev/null");
                if (v.status != 1) return 0;
                return finish_failure(prop, o, scratch, tape, v.msg, v.msg.find("terminate") != std::string::npos) ? 1 : 0;
            }
            std::string errlog = o.replay_out + ".err";
            auto v = run_tape(prop, o, scratch, tape, true, o.cpu_limit, errlog.c_str());
            printf("replay: %s %s\ncase: %s\n%s\n", v.status == 1 ? "FAILED" : v.status == 0 ? "passed" : "discarded", v.msg.c_str(), v.notes.c_str(), tail_of(errlog.c_str(), 4000).c_str());
            unlink(errlog.c_str());
            return v.status == 1 ? 1 : 0;
        }

        auto* g = shared_alloc<Global>();
        if (o.workers < 1) o.workers = 1;
        std::vector<Shared*> shs(o.workers);
        std::vector<pid_t> pids(o.workers);
        double t0 = now();
        for (unsigned w = 0; w < o.workers; ++w) shs[w] = shared_alloc<Shared>();
        fflush(stdout);
        for (unsigned w = 0; w < o.workers; ++w)
        {
            pid_t pid = fork();
            if (pid == 0)
            {
                quiet_stderr("/dev/null");
                rlimit rc{ 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
                Shared* sh = shs[w];
                for (u64 idx = w; idx < o.cases && !g->stop; idx += o.workers)
                {
                    sh->case_idx = idx; sh->tape_len = 0; sh->progress = sh->progress + 1;
                    Src s; s.sh = sh; s.rng = Rng(mix(o.seed) ^ mix(idx * 2 + 1)); s.index = idx; s.thorough = o.thorough;
                    int r = run_case(prop, s);
                    if (r == 1) { sh->failed = 1; g->stop = 1; _exit(10); }
                    if (r == 2) { ++sh->discards; continue; }
                    ++sh->cases; sh->evals += 1 + s.extra_evals; sh->distinct += s.extra_distinct;
                    if (s.is_nontrivial)
                    {
                        ++sh->nontrivial;
                        u64 h = mix(s.digest) & (Global::bits - 1);
                        u8 m = u8(1u << (h & 7));
                        if (!(__atomic_fetch_or(&g->seen[h >> 3], m, __ATOMIC_RELAXED) & m)) ++sh->distinct;
                        if (sh->nsamples < 6 && (sh->nsamples < 2 || mix(idx) % 97 == 0)) sh->sample_idx[sh->nsamples++] = idx;
                    }
                }
                sh->done = 1;
                _exit(0);
            }
            pids[w] = pid;
        }

        int failed_worker = -1; std::string fmsg; bool hang = false; std::string inconclusive;
        std::vector<u64> last_prog(o.workers, 0); std::vector<double> cpu0(o.workers, 0), wall0(o.workers, now());
        unsigned live = o.workers;
        while (live > 0)
        {
            bool any = false;
            for (unsigned w = 0; w < o.workers; ++w)
            {
                if (pids[w] == 0) continue;
                int st;
                if (waitpid(pids[w], &st, WNOHANG) == pids[w])
                {
                    any = true; pids[w] = 0; --live;
                    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
                    if (bad && failed_worker < 0)
                    {
                        failed_worker = int(w); g->stop = 1;
                        if (shs[w]->failed) fmsg = shs[w]->msg;
                        else if (WIFSIGNALED(st)) fmsg = fmt("crashed with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                        else fmsg = fmt("abnormal exit %d (sanitizer report or abort)", WEXITSTATUS(st));
                    }
                    continue;
                }
                u64 p = shs[w]->progress;
                if (p != last_prog[w]) { last_prog[w] = p; cpu0[w] = cpu_of(pids[w]); wall0[w] = now(); }
                else
                {
                    bool cpu_hang = cpu_of(pids[w]) - cpu0[w] > o.cpu_limit;
                    double wall = now() - wall0[w];
                    bool wall_hang = wall > (o.wall_limit ? o.wall_limit : 400);
                    if (cpu_hang || wall_hang || (failed_worker >= 0 && wall > 10))
                    {
                        kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0; --live; any = true;
                        if (failed_worker < 0)
                        {
                            if (cpu_hang || o.wall_limit) { failed_worker = int(w); hang = true; g->stop = 1; fmsg = cpu_hang ? fmt("did not terminate within %u CPU seconds", o.cpu_limit) : fmt("blocked for %u s of wall time", o.wall_limit); }
                            else inconclusive = "a worker made no progress without using CPU";
                        }
                    }
                }
            }
            if (!any) usleep(5000);
        }
        double wall = now() - t0;

        int violated = 0;
        if (failed_worker >= 0)
        {
            Shared* sh = shs[size_t(failed_worker)];
            std::vector<u64> tape(sh->tape, sh->tape + sh->tape_len);
            if (sh->failed && sh->alt_len) tape.assign(sh->alt, sh->alt + sh->alt_len);
            int rep = finish_failure(prop, o, scratch, tape, fmsg, hang);
            violated = rep > 0 ? 1 : 2; // 2: seen once, never reproduced
        }

        u64 cases = 0, evals = 0, nontriv = 0, distinct = 0, discards = 0;
        std::vector<std::pair<std::string, u64>> labels;
        for (auto* sh : shs)
        {
            cases += sh->cases; evals += sh->evals; nontriv += sh->nontrivial; distinct += sh->distinct; discards += sh->discards;
            for (auto& l : sh->labels)
            {
                if (!l.name[0]) break;
                auto it = std::find_if(labels.begin(), labels.end(), [&](auto& x) { return x.first == l.name; });
                if (it == labels.end()) labels.push_back({ l.name, l.count }); else it->second += l.count;
            }
        }
        std::sort(labels.begin(), labels.end());
        std::vector<std::string> samples;
        for (unsigned w = 0; w < o.workers && samples.size() < 4 && !violated; w += 1)
            for (u64 k = shs[w]->nsamples; k-- > 0 && samples.size() < 4;)
            {
                // regenerate this case verbosely in a fork
                scratch->notes_len = 0; scratch->notes[0] = 0; scratch->tape_len = 0;
                u64 idx = shs[w]->sample_idx[k];
                fflush(stdout);
                pid_t pid = fork();
                if (pid == 0)
                {
                    quiet_stderr("/dev/null");
                    Src s; s.sh = scratch; s.rng = Rng(mix(o.seed) ^ mix(idx * 2 + 1)); s.index = idx; s.verbose = true; s.thorough = o.thorough;
                    run_case(prop, s); _exit(0);
                }
                int st; waitpid(pid, &st, 0);
                if (scratch->notes_len) { std::string n(scratch->notes, scratch->notes_len); if (n.size() > 900) n = n.substr(0, 900) + "..."; samples.push_back(n); }
                break;
            }
        printf("config=%s cases=%llu evals=%llu nontrivial=%llu distinct=%llu discards=%llu wall=%.1fs\n", o.config.c_str(), (unsigned long long)cases, (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)distinct, (unsigned long long)discards, wall);
        if (!o.out.empty())
        {
            FILE* f = fopen(o.out.c_str(), "w");
            if (f)
            {
                fprintf(f, "{\"config\":\"%s\",\"violated\":%d,\"message\":\"%s\",\"inconclusive\":\"%s\",\"cases\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"discards\":%llu,\"wall\":%.3f,\"labels\":{",
                    o.config.c_str(), violated, json_escape(fmsg).c_str(), json_escape(inconclusive).c_str(), (unsigned long long)cases, (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)distinct, (unsigned long long)discards, wall);
                for (size_t i = 0; i < labels.size(); ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", json_escape(labels[i].first).c_str(), (unsigned long long)labels[i].second);
                fprintf(f, "},\"samples\":[");
                for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", json_escape(samples[i]).c_str());
                fprintf(f, "]}\n");
                fclose(f);
            }
        }
        return violated ? 1 : 0;
    }
}

// each harness ends with PBT_MAIN(prop) or PBT_MAIN_INIT(prop, init)
#if defined(PBT_FUZZ)
#define PBT_MAIN_INIT(PROP, INIT) \
    extern "C" int LLVMFuzzerTestOneInput(uint8_t const* data, size_t size) { \
        static pbt::Shared* sh = [] { void (*i)() = INIT; if (i) i(); return pbt::shared_alloc<pbt::Shared>(); }(); \
        sh->tape_len = 0; sh->alt_len = 0; pbt::Src s; s.sh = sh; s.fuzz = true; s.fz = data; s.fz_size = size; \
        /* the tape is written before the case runs into trouble, so that a crash can be shrunk by the engine */ \
        static char const* tf = getenv("PBT_TAPE"); \
        static struct Dump { Dump(pbt::Shared* p) { sp() = p; } static pbt::Shared*& sp() { static pbt::Shared* x; return x; } \
            static void go() { auto* p = sp(); FILE* f = tf_() ? fopen(tf_(), "w") : nullptr; if (!f) return; fprintf(f, "tape"); \
                if (p->alt_len) for (uint32_t i = 0; i < p->alt_len; ++i) fprintf(f, " %llu", (unsigned long long)p->alt[i]); \
                else for (uint32_t i = 0; i < p->tape_len; ++i) fprintf(f, " %llu", (unsigned long long)p->tape[i]); \
                fprintf(f, "\n"); fclose(f); } \
            static char const* tf_() { return getenv("PBT_TAPE"); } } dump{ sh }; (void)tf; \
        struct H { static void on(int sig) { Dump::go(); signal(sig, SIG_DFL); raise(sig); } }; \
        static bool once = [] { __sanitizer_set_death_callback(&Dump::go); signal(SIGTRAP, &H::on); return true; }(); (void)once; \
        if (pbt::run_case(PROP, s) == 1) { Dump::go(); fprintf(stderr, "PBT failure: %s\n", sh->msg); abort(); } \
        return 0; }
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#else
#define PBT_MAIN_INIT(PROP, INIT) int main(int argc, char** argv) { return pbt::engine_main(argc, argv, PROP, INIT); }
#endif
#define PBT_MAIN(PROP) PBT_MAIN_INIT(PROP, nullptr)
