// What calls cost: P25 (memory, and what happens when there is none left), P26 (time).
#include "calls.hpp"
#include <cstdlib>
#include <new>
#include <time.h>
#if WANT(25)
#include <sanitizer/allocator_interface.h>
#endif

using namespace model;

struct Held {
    std::vector<char> a; std::vector<char16_t> b; std::vector<char32_t> d; std::vector<wchar_t> w; Text t;
    Held(const Vec& text, bool raw)
    {
        Vec v8, v16;
        if (raw) for (uint32_t x : text) { a.push_back((char)x); b.push_back((char16_t)x); }
        else
        {
            Vec c = cleanCps(text, 0x7fffffff);
            for (uint32_t x : encUtf8(c)) a.push_back((char)x);
            for (uint32_t& x : c) if (x > 0x10ffff) x %= 0x110000;
            for (uint32_t x : encUtf16(cleanCps(c, 0x10ffff))) b.push_back((char16_t)x);
        }
        for (uint32_t x : text) { d.push_back(x); w.push_back((wchar_t)x); }
        t.n8 = a.size(); t.n16 = b.size(); t.n32 = d.size();
        a.push_back(0); b.push_back(0); d.push_back(0); w.push_back(0);
        t.c8 = a.data(); t.c16 = b.data(); t.c32 = d.data(); t.cw = w.data();
    }
    Held(const Held&) = delete;
};
static std::string hex(const std::string& s) { Vec v; for (char ch : s) v.push_back((unsigned char)ch); return show(v); }

//////////////////////////////////////////////////////////////// P25 memory

#if WANT(25)
static long g_live, g_asked, g_failAt = -1;
static bool g_armed;
// what the code under test asks of malloc and its like is refused in the same way
extern "C" void* __real_malloc(size_t n);
extern "C" void* __real_calloc(size_t n, size_t m);
extern "C" void* __real_realloc(void* p, size_t n);
static bool refused() { return g_armed && g_asked++ == g_failAt; }
extern "C" void* __wrap_malloc(size_t n) { return refused() ? nullptr : __real_malloc(n); }
extern "C" void* __wrap_calloc(size_t n, size_t m) { return refused() ? nullptr : __real_calloc(n, m); }
extern "C" void* __wrap_realloc(void* p, size_t n) { return refused() ? nullptr : __real_realloc(p, n); }
static void* get(size_t n)
{
    if (refused()) throw std::bad_alloc();
    void* p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++g_live;
    return p;
}
static void drop(void* p) { if (p) { --g_live; free(p); } }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }

enum How { GAVE, BAD_ALLOC, OTHER };
// the call, with the failAt-th request for memory refused (-1: none); what it gives goes to r
static How tryCall(int fn, const Text& t, int64_t arg, long failAt, std::string& r, long& asked)
{
    How h = GAVE;
    g_asked = 0; g_failAt = failAt; g_armed = true;
    try { r = kFns[fn](t, arg); g_armed = false; }
    catch (const std::bad_alloc&) { g_armed = false; h = BAD_ALLOC; }
    catch (...) { g_armed = false; h = OTHER; }
    asked = g_asked;
    return h;
}
template <class S, class F> static void inPlace(Obs& o, const S& text, F f, const char* what)
{
    S want = text; f(want);
    for (long k = 0; k < 40; ++k)
    {
        long before = g_live;
        bool threw = false;
        {
            S victim = text;
            g_asked = 0; g_failAt = k; g_armed = true;
            try { f(victim); g_armed = false; }
            catch (const std::bad_alloc&) { g_armed = false; threw = true; }
            catch (...) { g_armed = false; failf("%s throws something else than bad_alloc when memory runs out", what); }
            REQUIRE(victim == want || (threw && victim == text), "%s leaves %s when memory runs out on %s", what, show(V(victim)).c_str(), show(V(text)).c_str());
        }
        REQUIRE(g_live == before, "%s keeps %ld blocks of memory", what, g_live - before);
        if (!threw) break;
        o.cls("in-place trimming without memory");
    }
}
// p0: function, p1: argument, p2: raw; s0: text
static void p25(const Case& c, Obs& o)
{
    int fn = (int)((uint64_t)c.P(0) % kNFns); int64_t arg = std::max<int64_t>(c.P(1), 0);
    Vec text = cut(c.S(0)); if (text.size() > 3000) text.resize(3000);
    Held h(text, c.P(2) & 1);
    std::string want, r; long asked = 0, n = 0;
    for (int i = 0; i < 2; ++i) REQUIRE(tryCall(fn, h.t, arg, -1, want, n) == GAVE, "function %d throws on %s", fn, show(text).c_str());
    r.reserve(want.size() + 64);
    // three more times: what is in use afterwards must not grow
    { std::string s; long k; tryCall(fn, h.t, arg, -1, s, k); }
    long before = g_live; size_t bytes = __sanitizer_get_current_allocated_bytes();
    { std::string s; long k; tryCall(fn, h.t, arg, -1, s, k); REQUIRE(s == want, "function %d gives %s, then %s", fn, hex(want).c_str(), hex(s).c_str()); }
    { std::string s; long k; tryCall(fn, h.t, arg, -1, s, k); }
    REQUIRE(g_live == before, "function %d (argument %lld) on %s keeps %ld blocks of memory", fn, (long long)arg, show(text).c_str(), g_live - before);
    REQUIRE(__sanitizer_get_current_allocated_bytes() <= bytes, "function %d (argument %lld) on %s keeps %zu bytes of memory", fn, (long long)arg, show(text).c_str(), __sanitizer_get_current_allocated_bytes() - bytes);
    o.nt(n > 0); o.cls(n ? "call that needs memory" : "call that needs none");
    long step = n > 48 ? n / 24 : 1;
    for (long k = 0; k < n; k += (k < 24 ? 1 : step))
    {
        How how; long was = g_live; bytes = __sanitizer_get_current_allocated_bytes();
        {
            std::string got;
            how = tryCall(fn, h.t, arg, k, got, asked);
            REQUIRE(how != OTHER, "function %d (argument %lld) on %s throws something else than bad_alloc when its request %ld for memory is refused", fn, (long long)arg, show(text).c_str(), k);
            REQUIRE(how == BAD_ALLOC || got == want, "function %d (argument %lld) on %s gives %s when its request %ld for memory is refused, otherwise %s", fn, (long long)arg, show(text).c_str(), hex(got).c_str(), k, hex(want).c_str());
        }
        REQUIRE(g_live == was, "function %d (argument %lld) on %s keeps %ld blocks when its request %ld for memory is refused", fn, (long long)arg, show(text).c_str(), g_live - was, k);
        REQUIRE(__sanitizer_get_current_allocated_bytes() <= bytes, "function %d (argument %lld) on %s keeps %zu bytes when its request %ld for memory is refused", fn, (long long)arg, show(text).c_str(), __sanitizer_get_current_allocated_bytes() - bytes, k);
        o.cls("memory refused");
    }
    std::string again;
    REQUIRE(tryCall(fn, h.t, arg, -1, again, asked) == GAVE && again == want, "function %d (argument %lld) on %s gives %s after memory ran out, before %s", fn, (long long)arg, show(text).c_str(), hex(again).c_str(), hex(want).c_str());
    switch (arg % 5)
    {
    case 0: inPlace(o, h.t.s8(), [](std::string& s) { trimWhiteSpace(s); }, "trimWhiteSpace(UTF-8)"); break;
    case 1: inPlace(o, h.t.s16(), [](std::u16string& s) { trimWhiteSpace(s); }, "trimWhiteSpace(UTF-16)"); break;
    case 2: inPlace(o, h.t.s32(), [](std::u32string& s) { trimWhiteSpace(s); }, "trimWhiteSpace(UCS-4)"); break;
    case 3: inPlace(o, h.t.s8(), [](std::string& s) { trim(s); }, "trim"); break;
    default: inPlace(o, h.t.s8(), [](std::string& s) { trimAscii7WhiteSpace(s); }, "trimAscii7WhiteSpace");
    }
}
static Prop* mk25()
{
    Prop* p = new Prop; p->id = "P25"; p->rule = "the call requests memory, so that at least one request was refused";
    Kind k; k.name = "memory"; k.widths = { 4 }; k.params = 3; k.check = p25;
    k.gen = [](Rng& r) {
        Case c; c.p = { (int64_t)r.below(kNFns), (int64_t)(r.chance(1, 2) ? r.below(70) : r.below(100000)), (int64_t)r.chance(1, 4) };
        Vec v = r.chance(1, 12) ? gen::longText(r, gen::maxFor(r)) : gen::text(r, gen::maxFor(r));
        if (r.chance(1, 3)) { v.insert(v.begin(), 1 + r.below(20), ' '); v.push_back(0x3000); }
        if (r.chance(1, 6) && !v.empty()) v[r.below((uint32_t)v.size())] = 0xd800 + r.below(0x800);
        c.s.push_back(v); return c; };
    k.enumSize = [](int level) { return (uint64_t)kNFns * 8 * (level ? 60 : 6); };
    k.enumAt = [](uint64_t i, int) {
        Case c; int fn = (int)(i % kNFns); uint64_t q = i / kNFns, t = q % 8; q /= 8;
        Vec v;
        static const int lens[] = { 40, 5, 300, 20, 90, 16 };
        for (int j = 0; j < lens[q % 6]; ++j) v.push_back(t == 0 ? 'a' : t == 1 ? ' ' : t == 2 ? 0x1f600 : t == 3 ? 0x20ac : t == 4 ? (j % 3 ? 'I' : 0x130) : t == 5 ? (j % 4 ? 'x' : '!') : t == 6 ? 0xe9 : 0x41 + j % 26);
        if (t == 1 || t == 3) v[v.size() / 2] = 'z';
        if (t == 7) v.back() = 0xdc00;
        c.p = { fn, (int64_t)(q * 11 + t * 3 + 1), (int64_t)(t == 6) }; c.s.push_back(v); return c; };
    p->kinds.push_back(k);
    return p;
}
static Register r25(mk25());
#endif

//////////////////////////////////////////////////////////////// P26 time

#if WANT(26)
// bytes in use through operator new, and the most there were
#include <malloc.h>
static size_t g_now, g_peak;
static void* grab(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    g_now += malloc_usable_size(p); if (g_now > g_peak) g_peak = g_now;
    return p;
}
static void giveBack(void* p) { if (p) { g_now -= malloc_usable_size(p); free(p); } }
void* operator new(size_t n) { return grab(n); }
void* operator new[](size_t n) { return grab(n); }
void operator delete(void* p) noexcept { giveBack(p); }
void operator delete[](void* p) noexcept { giveBack(p); }
void operator delete(void* p, size_t) noexcept { giveBack(p); }
void operator delete[](void* p, size_t) noexcept { giveBack(p); }
static double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const int kPatterns = 19;
static Vec pattern(int which, size_t n, int64_t arg, bool& raw)
{
    Vec v(n, 'a'); raw = false;
    switch (which)
    {
    case 0: break;
    case 1: std::fill(v.begin(), v.end(), ' '); v[n - 1] = 'x'; break;
    case 2: std::fill(v.begin(), v.end(), ' '); v[0] = 'x'; break;
    case 3: std::fill(v.begin(), v.end(), 0x1f600); break;
    case 4: for (size_t i = 0; i < n; ++i) v[i] = i & 1 ? 'I' : 0x130; break;
    case 5: std::fill(v.begin(), v.end(), 0x3000); v[n / 2] = 'x'; break;
    case 6: raw = true; v[n - 1] = 0x80; break;
    case 7: { raw = true; static const uint32_t s[] = { 0xed, 0xa0, 0x81, 0xed, 0xb0, 0x80 }; for (size_t i = 0; i < n; ++i) v[i] = s[i % 6]; break; }
    case 8: std::fill(v.begin(), v.end(), 1); break;
    case 9: raw = true; std::fill(v.begin(), v.end(), 0xe9); break;
    case 10: for (size_t i = 0; i < n; ++i) v[i] = i % 3 ? 0x4e00 : 'a'; break;
    case 11: raw = true; for (size_t i = 0; i < n; ++i) v[i] = i & 1 ? 0xdc00 : 0xd800; break;
    case 12: for (size_t i = 0; i < n; ++i) v[i] = 0x10ffff - (i & 0xff); break;
    case 13: std::fill(v.begin(), v.end(), 0x7fffffff); break;
    case 14: for (size_t i = 0; i < n; ++i) v[i] = i % 3 ? 0x3ffffff : 0xe9; break;
    case 15: std::fill(v.begin(), v.end(), '\t'); v[n / 2] = 'x'; break;
    case 16: std::fill(v.begin(), v.end(), 0x40 + arg % 0x40); v[n / 2] = '!'; break;          // what trimSet trims
    case 17: for (size_t i = 0; i < n; ++i) v[i] = i & 1 ? 0x20 + arg % 0x60 : 0x3042; break;   // what split splits at
    default: { static const uint32_t some[] = { 'A', 0xc9, 0x416, 0x20ac, 0x10400, ' ', 'z', 0x1f600, '\n', 0xff21, 0x3000, '9' }; uint32_t x = 12345; for (size_t i = 0; i < n; ++i) { x = x * 1664525 + 1013904223; v[i] = some[(x >> 20) % 12]; } }
    }
    return v;
}
static double timed(int fn, const Text& t, int64_t arg, int reps)
{
    double best = 1e9;
    for (int i = 0; i < reps; ++i) { double a = cpu(); volatile size_t n = kFns[fn](t, arg).size(); (void)n; double d = cpu() - a; if (d < best) best = d; if (d > 1) break; }
    return best;
}
// p0: function, p1: argument, p2: pattern, p3: log4 of the largest length over 1024
static void p26(const Case& c, Obs& o)
{
    int fn = (int)((uint64_t)c.P(0) % kNFns); int64_t arg = std::max<int64_t>(c.P(1), 0);
    int pat = (int)((uint64_t)c.P(2) % kPatterns), steps = (int)std::min<int64_t>(std::max<int64_t>(c.P(3), 1), 6);
    o.nt();
    double before = 0; size_t memoryBefore = 0;
    for (int k = 0; k <= steps; ++k)
    {
        size_t n = (size_t)1024 << (2 * k);
        bool raw; Vec v = pattern(pat, n, arg, raw); Held h(v, raw);
        size_t base = g_peak = g_now;
        double t = timed(fn, h.t, arg, 2);
        size_t memory = g_peak - base;
        REQUIRE(!k || memory < (4u << 20) || memory < 9 * memoryBefore, "function %d (argument %lld, text pattern %d) needs %zu bytes for %zu characters, %zu for a quarter of them",
            fn, (long long)arg, pat, memory, n, memoryBefore);
        memoryBefore = memory;
        // four times the text may take four times as long, not sixteen times
        if (k && t > 0.04 && t > 10 * before)
        {
            bool r2; Vec v2 = pattern(pat, n / 4, arg, r2); Held h2(v2, r2);
            double a = 1e9, b = 1e9;
            for (int q = 0; q < 5; ++q) { a = std::min(a, timed(fn, h2.t, arg, 5)); b = std::min(b, timed(fn, h.t, arg, 2)); if (b < 0.03 || b < 9 * a) break; }
            REQUIRE(b < 0.03 || b < 9 * a, "function %d (argument %lld, text pattern %d) takes %.1f times as long for four times the text: %.3f s for %zu characters, %.3f s for %zu",
                fn, (long long)arg, pat, b / a, a, n / 4, b, n);
        }
        if (t > 0.04) o.cls("takes more than 40 ms");
        before = t;
        if (t > 2) break;
    }
}
static Prop* mk26()
{
    Prop* p = new Prop; p->id = "P26"; p->rule = "always: each case measures one call on texts of growing length";
    Kind k; k.name = "cost"; k.params = 4; k.check = p26; k.weight = 1;
    k.gen = [](Rng& r) { Case c; c.p = { (int64_t)r.below(kNFns), (int64_t)(r.chance(1, 2) ? r.below(70) : r.below(100000)), (int64_t)r.below(kPatterns), 4 }; return c; };
    k.enumSize = [](int level) { return (uint64_t)kNFns * kPatterns * (level ? 12 : 2); };
    k.enumAt = [](uint64_t i, int level) {
        static const int args[] = { 65, 0, 3, 22, 1, 2, 4, 5, 40, 51, 17, 33 };
        Case c; c.p = { (int64_t)(i % kNFns), args[i / kNFns / kPatterns % 12], (int64_t)(i / kNFns % kPatterns), level ? 5 : 4 }; return c; };
    p->kinds.push_back(k);
    return p;
}
static Register r26(mk26());
#endif
