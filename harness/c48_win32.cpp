// C48: the library's Windows side, built from its own sources on top of a small Windows inside this check: files, handles, mappings, views, sleeping, memory, locks and debug text behave as documented for that system, any call can be made to fail, and a model knows what the library has to give.
#include "pbt.h"
#include <map>
#include <memory>
#include <string>
using namespace pbt;
#define _WIN32 1
#define ce ce_win
#include <windows.h>
#include "ce/ce.h"
#include "ce/mutex.h"
#include "os_win32.cpp"
#include "mutex_win32.cpp"
#include "os.cpp"
#undef ce
namespace L = ce_win;

namespace sys // the system
{
    struct Blocked { }; struct Misuse { std::string what; };
    struct file { u64 size = 0; std::vector<u8> data; int state = 0; bool big = false; }; // state: 1 others read it, 2 others write to it, 3 it is read only
    struct object { int kind; std::shared_ptr<file> f; u64 size; bool live; DWORD access; }; // kind: 1 a file, 2 a mapping
    struct view { void* p; u64 size, room; bool mapped; };
    std::map<std::u16string, std::shared_ptr<file>> files; std::vector<object> objects; std::vector<view> views; std::vector<std::pair<void*, size_t>> memory, scratch;
    int fail_in = -1; bool failed = false; u64 counter = 0, frequency = 0; u128 slept = 0; u64 sleeps = 0; std::string text; DWORD last = 0; u64 changed = 0, bad_close = 0;
    bool fails() { if (fail_in < 0 || fail_in-- != 0) return false; failed = true; last = 1450; return true; }
    HANDLE add(object o) { for (size_t i = 0; i < objects.size(); ++i) if (!objects[i].live) { objects[i] = o; return reinterpret_cast<HANDLE>(i * 4 + 4); } objects.push_back(o); return reinterpret_cast<HANDLE>(objects.size() * 4); } // handles are used again
    object* find(HANDLE h, int kind) { auto n = reinterpret_cast<u64>(h); if (n == 0 || n % 4 != 0 || n / 4 > objects.size()) return nullptr; auto& o = objects[n / 4 - 1]; return o.live && (kind == 0 || o.kind == kind) ? &o : nullptr; }
    size_t live(int kind) { size_t n = 0; for (auto& o : objects) n += o.live && o.kind == kind; return n; }
    void free_scratch() { for (auto& x : scratch) free(x.first); scratch.clear(); }
    void reset() { free_scratch(); for (auto& v : views) v.mapped ? (void)munmap(v.p, v.room) : free(v.p); views.clear(); for (auto& m : memory) munmap(m.first, m.second); memory.clear(); files.clear(); objects.clear(); fail_in = -1; failed = false; slept = 0; sleeps = 0; text.clear(); changed = bad_close = 0; }
}
using sys::Misuse;
extern "C"
{
    void* _alloca(size_t n) { void* p = malloc(n ? n : 1); memset(p, 0xcd, n); sys::scratch.push_back({ p, n }); return p; }
    HANDLE CreateFileW(LPCWSTR path, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD disposition, DWORD flags, HANDLE)
    {
        if (sys::fails()) return INVALID_HANDLE_VALUE; auto w = reinterpret_cast<char16_t const*>(path); std::u16string name; while (*w) name += *w++;
        auto i = sys::files.find(name); bool there = i != sys::files.end();
        if (disposition < 1 || disposition > 5 || (disposition == CREATE_NEW && there) || (!there && (disposition == OPEN_EXISTING || disposition == TRUNCATE_EXISTING))) { sys::last = there ? 80 : 2; return INVALID_HANDLE_VALUE; }
        if (name.empty()) return INVALID_HANDLE_VALUE; bool write = (access & (GENERIC_WRITE | GENERIC_ALL)) != 0;
        if (!there) { ++sys::changed; i = sys::files.emplace(name, std::make_shared<sys::file>()).first; } auto& f = *i->second;
        if (f.state == 2 || (f.state == 1 && (write || !(share & FILE_SHARE_READ))) || (f.state == 3 && write)) { sys::last = 32; return INVALID_HANDLE_VALUE; }
        for (auto& o : sys::objects) if (o.live && o.kind == 1 && o.f.get() == &f && !(share & FILE_SHARE_READ)) { sys::last = 32; return INVALID_HANDLE_VALUE; }
        if (there && (disposition == CREATE_ALWAYS || disposition == TRUNCATE_EXISTING)) { ++sys::changed; f.size = 0; f.data.clear(); } if (flags & FILE_FLAG_DELETE_ON_CLOSE) ++sys::changed;
        return sys::add({ 1, i->second, f.size, true, access });
    }
    BOOL CloseHandle(HANDLE h) { auto o = sys::find(h, 0); if (!o) { sys::last = 6; ++sys::bad_close; return FALSE; } o->live = false; o->f.reset(); return TRUE; }
    BOOL GetFileSizeEx(HANDLE h, PLARGE_INTEGER n) { auto o = sys::find(h, 1); if (!o || sys::fails()) return FALSE; n->QuadPart = LONGLONG(o->f->size); return TRUE; }
    DWORD GetFileSize(HANDLE h, LPDWORD hi) { auto o = sys::find(h, 1); if (!o || sys::fails()) return ~0u; if (hi) *hi = DWORD(o->f->size >> 32); return DWORD(o->f->size); }
    HANDLE CreateFileMappingW(HANDLE h, LPSECURITY_ATTRIBUTES, DWORD protect, DWORD hi, DWORD lo, LPCWSTR)
    {
        auto o = sys::find(h, 1); if (!o || sys::fails()) return nullptr; u64 n = u64(hi) << 32 | lo; auto f = o->f; if (n == 0) n = f->size;
        if (f->size == 0 || n > f->size || !(o->access & (GENERIC_READ | GENERIC_ALL))) { sys::last = 1006; return nullptr; }
        if (protect != PAGE_READONLY && protect != PAGE_WRITECOPY) { sys::last = 5; return nullptr; } // it is not open for writing or running
        return sys::add({ 2, f, n, true, protect });
    }
    LPVOID MapViewOfFile(HANDLE h, DWORD access, DWORD hi, DWORD lo, SIZE_T n)
    {
        auto o = sys::find(h, 2); if (!o || sys::fails()) return nullptr; u64 at = u64(hi) << 32 | lo; if (at % 65536 != 0 || at > o->size) return nullptr; if (n == 0) n = o->size - at; if (n > o->size - at || (access & FILE_MAP_WRITE)) { sys::last = 5; return nullptr; }
        sys::view v{ nullptr, n, n, o->f->big }; if (v.mapped) { v.room = (n + 4095) & ~4095ull; v.p = mmap(nullptr, v.room, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (v.p == MAP_FAILED) return nullptr; } else { v.p = malloc(n); memcpy(v.p, o->f->data.data() + at, n); }
        sys::views.push_back(v); return v.p;
    }
    BOOL UnmapViewOfFile(LPCVOID p) { for (auto i = sys::views.begin(); i != sys::views.end(); ++i) if (i->p == p) { i->mapped ? (void)munmap(i->p, i->room) : free(i->p); sys::views.erase(i); return TRUE; } sys::last = 487; return FALSE; }
    LPVOID VirtualAlloc(LPVOID at, SIZE_T n, DWORD type, DWORD protect)
    {
        if (n == 0 || at != nullptr || sys::fails()) return nullptr; if (!(type & (MEM_COMMIT | MEM_RESERVE)) || (type & MEM_RESET)) return nullptr; size_t room = (n + 4095) & ~size_t(4095);
        int q = !(type & MEM_COMMIT) ? PROT_NONE : protect == PAGE_READWRITE || protect == PAGE_EXECUTE_READWRITE ? PROT_READ | PROT_WRITE : protect == PAGE_READONLY || protect == PAGE_EXECUTE_READ ? PROT_READ : PROT_NONE;
        void* p = mmap(nullptr, room, q, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return nullptr; sys::memory.push_back({ p, room }); return p;
    }
    BOOL QueryPerformanceCounter(PLARGE_INTEGER n) { n->QuadPart = LONGLONG(sys::counter); return TRUE; }
    BOOL QueryPerformanceFrequency(PLARGE_INTEGER n) { n->QuadPart = LONGLONG(sys::frequency); return TRUE; }
    ULONGLONG GetTickCount64() { return sys::frequency ? ULONGLONG(u128(sys::counter) * 1000 / sys::frequency) : 0; }
    DWORD SleepEx(DWORD ms, BOOL alertable) { if (ms == INFINITE) throw sys::Blocked{ }; ++sys::sleeps; if (alertable) { sys::slept += ms / 2; return WAIT_IO_COMPLETION; } sys::slept += ms; return 0; }
    void Sleep(DWORD ms) { SleepEx(ms, FALSE); }
    void OutputDebugStringA(LPCSTR s) { sys::text += s; }
    DWORD GetLastError() { return sys::last; }
    void SetLastError(DWORD e) { sys::last = e; }
    // a lock word: 0 free, 1 held, 2 * n + 2: shared by n
    void InitializeSRWLock(PSRWLOCK q) { q->Ptr = nullptr; }
    static u64& word(PSRWLOCK q) { return reinterpret_cast<u64&>(q->Ptr); }
    BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK q) { return word(q) == 0 ? word(q) = 1, TRUE : FALSE; }
    BOOLEAN TryAcquireSRWLockShared(PSRWLOCK q) { return word(q) % 2 == 0 ? word(q) += word(q) ? 2 : 4, TRUE : FALSE; }
    void AcquireSRWLockExclusive(PSRWLOCK q) { if (!TryAcquireSRWLockExclusive(q)) throw sys::Blocked{ }; }
    void AcquireSRWLockShared(PSRWLOCK q) { if (!TryAcquireSRWLockShared(q)) throw sys::Blocked{ }; }
    void ReleaseSRWLockExclusive(PSRWLOCK q) { if (word(q) != 1) throw Misuse{ "a lock that is not held is released" }; word(q) = 0; }
    void ReleaseSRWLockShared(PSRWLOCK q) { if (word(q) % 2 != 0 || word(q) == 0) throw Misuse{ "a lock that is not shared is released as if it was" }; word(q) = word(q) == 4 ? 0 : word(q) - 2; }
}

static void put8(std::string& s, u32 c) { if (c < 0x80) s += char(c); else if (c < 0x800) s += char(0xc0 | c >> 6), s += char(0x80 | (c & 63)); else if (c < 0x10000) s += char(0xe0 | c >> 12), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63)); else s += char(0xf0 | c >> 18), s += char(0x80 | (c >> 12 & 63)), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63)); }
static void put16(std::u16string& s, u32 c) { if (c < 0x10000) s += char16_t(c); else s += char16_t(0xd7c0 + (c >> 10)), s += char16_t(0xdc00 + (c & 0x3ff)); }
static u32 point(Src& s)
{
    u32 c; switch (s.below(6)) { case 0: c = u32(s.range('a', 'e')); break; case 1: c = 1 + u32(s.below(0x7f)); break; case 2: c = 0x80 + u32(s.below(0x780)); break; case 3: c = 0x800 + u32(s.below(0xf800)); break; case 4: c = 0x10000 + u32(s.below(0x100000)); break; default: c = s.pick<u32>({ 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1ffff, 0x20000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fc00, 0x10ffff }); }
    return c >= 0xd800 && c < 0xe000 ? c - 0x800 : c;
}
struct path { std::string as8; std::u16string as16; };
static path make_path(std::vector<u32> const& cs) { path p; for (u32 c : cs) put8(p.as8, c), put16(p.as16, c); return p; }
static void os_history(Src& s)
{
    sys::reset(); std::vector<std::vector<u32>> names; size_t kinds = 0, maps = 0, refused = 0;
    // some files; names differ in as little as one bit of one character
    for (size_t n = 1 + s.below(4), i = 0; i < n; ++i)
    {
        std::vector<u32> cs; if (i > 0 && s.flip()) { cs = s.of(names); cs[s.below(cs.size())] ^= 1u << s.below(20); for (auto& c : cs) if (c == 0 || c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) c = 'x'; } else for (size_t k = 1 + s.skewed(s.chance(1, 50) ? 3000 : 24); k > 0; --k) cs.push_back(point(s)); names.push_back(cs);
        auto f = std::make_shared<sys::file>(); f->state = int(s.weighted({ 6, 2, 1, 2 })); if (s.chance(1, 12)) { f->big = true; f->size = s.flip() ? 0x100000000ull * (1 + s.below(3)) + s.below(5) : 0x7ffffff0ull + s.below(0x100000020ull); } else { f->size = s.skewed(s.chance(1, 40) ? 200000 : 300); f->data.resize(f->size); u64 r = s.bits(16); for (auto& b : f->data) b = u8((r = mix(r)) >> 8); }
        auto p = make_path(cs); s.note(" file %zu: \"%s\" %llu bytes%s", i, p.as8.substr(0, 40).c_str(), (unsigned long long)f->size, f->state == 1 ? " read by others" : f->state == 2 ? " written by others" : f->state == 3 ? " read only" : ""); sys::files[p.as16] = f;
    }
    auto const all = sys::files; std::map<sys::file*, std::vector<u8>> before; for (auto& x : all) before[x.second.get()] = x.second->data;
    auto some_path = [&] { if (s.chance(1, 6)) { std::vector<u32> cs; for (size_t k = s.below(6); k > 0; --k) cs.push_back(point(s)); return make_path(cs); } auto cs = s.of(names); if (s.chance(1, 8)) { if (s.flip()) cs.pop_back(); else cs[s.below(cs.size())] = point(s); } return make_path(cs); };
    struct open_t { L::os::file_t h; std::shared_ptr<sys::file> f; }; std::vector<open_t> opened; struct map_t { L::span<uint8_t const> v; std::shared_ptr<sys::file> f; }; std::vector<map_t> mapped;
    auto holds = [&](L::span<uint8_t const> v, sys::file& f, char const* how) { PBT_CHECK(s, v.size == f.size, "%s: %zu bytes of a file of %llu", how, size_t(v.size), (unsigned long long)f.size); PBT_CHECK(s, v.data != nullptr, "%s", how); if (!f.big) PBT_CHECK(s, memcmp(v.data, f.data.data(), f.size) == 0, "%s: other bytes than the file's", how); };
    auto fault = [&] { sys::failed = false; sys::fail_in = s.chance(1, 6) ? int(s.below(4)) : -1; };
    try
    {
        for (size_t len = 1 + s.skewed(20); len > 0; --len)
        {
            sys::free_scratch(); u64 bad = sys::bad_close; size_t files0 = sys::live(1), views0 = sys::views.size();
            switch (s.below(8))
            {
            case 0: case 1: // open
            {
                auto p = some_path(); std::unique_ptr<char[]> text(new char[p.as8.size() + 1]); memcpy(text.get(), p.as8.c_str(), p.as8.size() + 1); auto i = all.find(p.as16); bool can = i != all.end() && i->second->state != 2; fault(); L::os::file_t h{ reinterpret_cast<void*>(s.flip() ? 4 : 0) }; s.note(" open %s", p.as8.substr(0, 40).c_str());
                bool r = L::os::open_file(h, text.get()); if (sys::failed) can = false; PBT_CHECK(s, r == can, "opening \"%s\" gave %d", p.as8.substr(0, 60).c_str(), r); PBT_CHECK(s, sys::live(1) == files0 + r, "%zu more files are open", sys::live(1) - files0); if (!can) { ++refused; fault(); PBT_CHECK(s, !L::os::close_file(h), "a file that was not opened was closed"); PBT_CHECK(s, sys::live(1) == files0, "another file was closed"); } else { PBT_CHECK(s, sys::find(h.os_handle, 1) && sys::find(h.os_handle, 1)->f == i->second, "another file was opened"); opened.push_back({ h, i->second }); } kinds |= 1; break;
            }
            case 2: // close
                if (!opened.empty()) { size_t i = s.below(opened.size()); auto o = opened[i]; opened.erase(opened.begin() + long(i)); s.note(" close"); PBT_CHECK(s, L::os::close_file(o.h), "closing an open file failed"); PBT_CHECK(s, sys::live(1) == files0 - 1, "it is still open"); bool other = s.flip(); HANDLE h = nullptr; if (other) h = sys::add({ 1, o.f, o.f->size, true, GENERIC_READ }); PBT_CHECK(s, !L::os::close_file(o.h), "it was closed twice"); PBT_CHECK(s, sys::live(1) == files0 - 1 + other, "another file was closed"); if (other) CloseHandle(h); kinds |= 2; } break;
            case 3: case 4: // map
            {
                bool by_name = s.flip() || opened.empty(); L::span<uint8_t const> v{ s.below(9), reinterpret_cast<uint8_t const*>(s.flip() ? 4096 : 0) }; bool r; std::shared_ptr<sys::file> f; fault(); int typed = int(s.below(4)); u64 unit = 1;
                auto go = [&](auto&& what) { using W = decltype(what); switch (typed) { case 1: { auto t = L::os::map_span<uint32_t>(static_cast<W>(what)); v = { t.size, reinterpret_cast<uint8_t const*>(t.data) }; unit = 4; return t.data != nullptr; } case 2: { auto t = L::os::map_span<u64>(static_cast<W>(what)); v = { t.size, reinterpret_cast<uint8_t const*>(t.data) }; unit = 8; return t.data != nullptr; } default: return L::os::map_span(v, what); } };
                if (by_name) { auto p = some_path(); auto i = all.find(p.as16); if (i != all.end() && i->second->state != 2 && i->second->size != 0) f = i->second; std::unique_ptr<char[]> text(new char[p.as8.size() + 1]); memcpy(text.get(), p.as8.c_str(), p.as8.size() + 1); s.note(" map %s", p.as8.substr(0, 40).c_str()); char const* c = text.get(); r = go(c); PBT_CHECK(s, bool(sys::bad_close != bad) <= !f || sys::failed, "a handle that is not open was closed"); }
                else { auto& o = s.of(opened); f = o.f->size ? o.f : nullptr; s.note(" map open file"); L::os::file_t h = o.h; r = go(h); PBT_CHECK(s, sys::bad_close == bad, "a handle that is not open was closed"); }
                if (sys::failed) f = nullptr; sys::fail_in = -1; PBT_CHECK(s, r == bool(f), "mapping %s gave %d", by_name ? "by name" : "an open file", r); PBT_CHECK(s, sys::live(1) == files0, "a file is left open or was closed"); PBT_CHECK(s, sys::live(2) == 0, "a mapping is left open"); PBT_CHECK(s, sys::views.size() == views0 + r, "%zu views more than before", sys::views.size() - views0);
                if (r) { if (unit > 1) { PBT_CHECK(s, v.size == f->size / unit, "%zu items of %llu bytes", size_t(v.size), (unsigned long long)f->size); v.size = f->size; } holds(v, *f, "mapped"); mapped.push_back({ v, f }); ++maps; } else { PBT_CHECK(s, v.size == 0 && v.data == nullptr, "a failed mapping is not empty"); ++refused; } kinds |= 4; break;
            }
            case 5: // unmap
                if (!mapped.empty()) { size_t i = s.below(mapped.size()); auto m = mapped[i]; holds(m.v, *m.f, "before it is removed"); mapped.erase(mapped.begin() + long(i)); s.note(" unmap"); PBT_CHECK(s, L::os::unmap_span(m.v), "removing a mapping failed"); PBT_CHECK(s, m.v.size == 0 && m.v.data == nullptr, "the removed mapping is not empty"); PBT_CHECK(s, sys::views.size() == views0 - 1, "it is still there"); PBT_CHECK(s, !L::os::unmap_span(m.v), "it was removed twice"); PBT_CHECK(s, sys::views.size() == views0 - 1, "another one was removed"); kinds |= 8; } break;
            case 6: // memory
            {
                size_t n = s.chance(1, 10) ? 0x100000000ull + s.below(9) : s.skewed(100000); fault(); s.note(" memory %zu", n); u8* p = L::os::virtual_alloc(n); bool can = n != 0 && !sys::failed; sys::fail_in = -1; PBT_CHECK(s, (p != nullptr) == can, "%zu bytes: %p", n, (void*)p); if (p) { size_t const at[]{ 0, n / 2, n - 1, size_t(s.below(n)) }; for (auto i : at) PBT_CHECK(s, p[i] == 0, "memory is not zeroed"); for (auto i : at) p[i] = 7; for (auto i : at) PBT_CHECK(s, p[i] == 7, "memory does not keep what is written"); } kinds |= 16; break;
            }
            default: // time, debug text
            {
                sys::counter = s.integer(63); sys::frequency = s.integer(63); u64 c = L::os::monotonic_timestamp(), f = L::os::monotonic_frequency(); PBT_CHECK(s, c == sys::counter && f == sys::frequency, "%llu %llu", (unsigned long long)c, (unsigned long long)f);
                std::string t; for (size_t k = s.skewed(s.chance(1, 40) ? 70000 : 30); k > 0; --k) t += char(1 + s.below(255)); sys::text.clear(); L::os::debug_out(t.c_str()); PBT_CHECK(s, sys::text == t, "debug text of %zu bytes came as %zu", t.size(), sys::text.size()); kinds |= 32;
            }
            }
        }
        PBT_CHECK(s, sys::live(1) == opened.size(), "%zu files are open, %zu expected", sys::live(1), opened.size()); for (auto& m : mapped) { holds(m.v, *m.f, "at the end"); PBT_CHECK(s, L::os::unmap_span(m.v), "removing a mapping failed"); } for (auto& o : opened) PBT_CHECK(s, L::os::close_file(o.h), "closing failed");
        PBT_CHECK(s, sys::live(1) == 0 && sys::live(2) == 0 && sys::views.empty(), "something is left open"); PBT_CHECK(s, sys::changed == 0 && sys::files.size() == all.size(), "a file was made or changed"); for (auto& x : all) PBT_CHECK(s, x.second->data == before[x.second.get()], "a file was changed");
    }
    catch (Misuse& m) { s.fail(m.what); } catch (sys::Blocked&) { s.fail("it waits for ever"); }
    if (kinds & 1) s.label("opened files"); if (maps) s.label("mapped files"); if (refused) s.label("refused or failed"); if (kinds & 16) s.label("memory"); s.nontrivial(maps > 0);
}
static void sleeping(Src& s)
{
    sys::slept = 0; sys::sleeps = 0; u64 ns = s.flip() ? s.integer(64) : s.below(20) * 1000000 + s.integer(20); s.note("sleep %llu ns", (unsigned long long)ns);
    try { L::os::sleep_ns(ns); } catch (sys::Blocked&) { s.fail(fmt("sleeping %llu ns never ends", (unsigned long long)ns)); }
    u128 got = sys::slept * 1000000; PBT_CHECK(s, got >= ns, "%llu ns asked for, %llu ms slept", (unsigned long long)ns, (unsigned long long)sys::slept); PBT_CHECK(s, got < u128(ns) + 2000000, "%llu ns asked for, %llu ms slept", (unsigned long long)ns, (unsigned long long)sys::slept); PBT_CHECK(s, sys::sleeps > 0, "the thread never gives up its turn"); s.nontrivial(ns != 0); s.label("sleep");
}
template<class M> static void locks(Src& s)
{
    constexpr bool sh = std::is_same_v<M, L::thread_shared_mutex>; struct { u8 g0[16]; M m[2]; u8 g1[16]; } b; memset(&b, s.pick({ 0, 0xa5, 0xff }), sizeof b); memset(b.g0, 0x31, 16); memset(b.g1, 0x31, 16); int owner[2]{ }, readers[2]{ }; size_t waits = 0, tries = 0; s.note(sh ? "shared:" : "plain:");
    try
    {
        for (auto& m : b.m) L::construct_mutex(m);
        for (size_t k = 2 + s.skewed(40); k > 0; --k)
        {
            int w = int(s.below(2)); auto& m = b.m[w]; bool free = !owner[w] && !readers[w]; int o = int(s.below(sh ? 6 : 3)); s.note(" %d:%d", o, w);
            auto waiting = [&](auto f, bool can) { bool blocked = false; try { f(); } catch (sys::Blocked&) { blocked = true; ++waits; } PBT_CHECK(s, blocked == !can, "%s a lock that is %s", blocked ? "waits for" : "gets", can ? "free" : "held"); };
            switch (o)
            {
            case 0: { bool r = L::try_acquire_mutex(m); ++tries; PBT_CHECK(s, r == free, "try gave %d", r); if (r) owner[w] = 1; break; }
            case 1: waiting([&] { L::acquire_mutex(m); }, free); if (free) owner[w] = 1; break;
            case 2: if (owner[w]) L::release_mutex(m), owner[w] = 0; break;
            default: if constexpr (sh) switch (o)
            {
            case 3: { bool r = L::try_acquire_mutex_shared(m); ++tries; PBT_CHECK(s, r == !owner[w], "shared try gave %d", r); if (r) ++readers[w]; break; }
            case 4: waiting([&] { L::acquire_mutex_shared(m); }, !owner[w]); if (!owner[w]) ++readers[w]; break;
            default: if (readers[w]) L::release_mutex_shared(m), --readers[w]; break;
            }
            }
            if (s.chance(1, 20) && !owner[w] && !readers[w]) { L::destroy_mutex(m); L::construct_mutex(m); }
        }
        for (int w = 0; w < 2; ++w) { if (owner[w]) L::release_mutex(b.m[w]); if constexpr (sh) for (; readers[w]; --readers[w]) L::release_mutex_shared(b.m[w]); L::destroy_mutex(b.m[w]); }
        for (int i = 0; i < 16; ++i) PBT_CHECK(s, b.g0[i] == 0x31 && b.g1[i] == 0x31, "the lock wrote outside itself");
    }
    catch (Misuse& m) { s.fail(m.what); } catch (sys::Blocked&) { s.fail("it waits for ever"); }
    s.nontrivial(waits > 0); s.label(sh ? "shared locks" : "locks");
}
void prop(Src& s) { switch (s.weighted({ 6, 2, 1, 2 })) { case 0: return os_history(s); case 1: return sleeping(s); case 2: return locks<L::thread_mutex>(s); default: return locks<L::thread_shared_mutex>(s); } }
PBT_MAIN(prop)
