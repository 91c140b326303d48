// Independence of calls from earlier and concurrent calls: P21.
// The process that runs the checks never calls the library itself: every sequence, every
// group of threads and every call that serves as the reference runs in a fresh child.
#include "calls.hpp"
#include <clocale>
#include <malloc.h>
#include <atomic>
#include <thread>
#include <unordered_map>
#include <cstdlib>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define UNDER_TSAN 1
#endif
#endif
#ifndef UNDER_TSAN
#define UNDER_TSAN 0
#endif

using namespace model;

//////////////////////////////////////////////////////////////// one call of a case

struct Call { int fn; int64_t arg; bool raw; int slot; const Vec* text; };
static const int kSlots = 3;
static const size_t kSlotUnits = 4096;

static Call callOf(const Case& c, int64_t x)
{
    static const Vec none;
    uint64_t u = (uint64_t)x;
    Call k;
    k.fn = (int)(u % kNFns); u /= kNFns;
    k.raw = u & 1; u >>= 1;
    k.slot = (int)(u % kSlots); u /= kSlots;
    k.text = c.s.empty() ? &none : &c.s[u % 16 % c.s.size()]; u /= 16;
    k.arg = (int64_t)(u % 100000);
    return k;
}
static int64_t pack(int fn, bool raw, int slot, int text, int64_t arg) { return (((arg * 16 + text) * kSlots + slot) * 2 + raw) * kNFns + fn; }

struct Units { Vec v8, v16, v32; };
static Units unitsOf(const Call& k)
{
    Units u;
    Vec t = *k.text;
    if (t.size() > 1000) t.resize(1000);
    u.v32 = t;
    if (k.raw) { for (uint32_t x : t) { u.v8.push_back(x & 0xff); u.v16.push_back(x & 0xffff); } }
    else { Vec c = cleanCps(t, 0x7fffffff); u.v8 = encUtf8(c); for (uint32_t& x : c) if (x > 0x10ffff) x %= 0x110000; c = cleanCps(c, 0x10ffff); u.v16 = encUtf16(c); }
    return u;
}
// texts are placed at addresses that stay the same from call to call
static char g8[kSlots][kSlotUnits * 2];
static char16_t g16[kSlots][kSlotUnits];
static char32_t g32[kSlots][kSlotUnits];
static wchar_t gw[kSlots][kSlotUnits];
static Text place(const Units& u, int slot)
{
    Text t; t.n8 = u.v8.size(); t.n16 = u.v16.size(); t.n32 = u.v32.size();
    for (size_t i = 0; i < t.n8; ++i) g8[slot][i] = (char)u.v8[i];
    for (size_t i = 0; i < t.n16; ++i) g16[slot][i] = (char16_t)u.v16[i];
    for (size_t i = 0; i < t.n32; ++i) { g32[slot][i] = u.v32[i]; gw[slot][i] = (wchar_t)u.v32[i]; }
    g8[slot][t.n8] = 0; g16[slot][t.n16] = 0; g32[slot][t.n32] = 0; gw[slot][t.n32] = 0;
    t.c8 = g8[slot]; t.c16 = g16[slot]; t.c32 = g32[slot]; t.cw = gw[slot];
    return t;
}
static std::string doCall(const Call& k) { return kFns[k.fn](place(unitsOf(k), k.slot), k.arg); }

// run f in a child and return what it wrote; status says how it ended
template <class F> static std::string inChild(F f, int& status)
{
    int fd[2];
    if (pipe(fd)) throw std::runtime_error("pipe");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (pid == 0)
    {
        close(fd[0]);
        alarm(100);
        std::string r;
        try { r = f(); } catch (const std::exception& e) { r = std::string("threw ") + e.what(); } catch (...) { r = "threw"; }
        for (size_t at = 0; at < r.size(); ) { ssize_t w = write(fd[1], r.data() + at, r.size() - at); if (w <= 0) break; at += w; }
        _exit(0);
    }
    close(fd[1]);
    std::string r; char b[65536]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
    close(fd[0]);
    waitpid(pid, &status, 0);
    return r;
}
static std::string frame(const std::string& s) { uint32_t n = (uint32_t)s.size(); return std::string((const char*)&n, 4) + s; }
static std::vector<std::string> unframe(const std::string& s)
{
    std::vector<std::string> r;
    for (size_t i = 0; i + 4 <= s.size(); ) { uint32_t n; memcpy(&n, &s[i], 4); i += 4; if (i + n > s.size()) break; r.push_back(s.substr(i, n)); i += n; }
    return r;
}

static std::string keyOf(const Call& k)
{
    std::string r = std::to_string(k.fn) + "," + std::to_string(k.arg) + "," + std::to_string(k.raw) + ",";
    r.append((const char*)k.text->data(), k.text->size() * 4);
    return r;
}
// what the call gives on its own
static const std::string& alone(const Call& k)
{
    static std::unordered_map<std::string, std::string> memo;
    std::string key = keyOf(k);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    int st = 0;
    std::string r = inChild([&] { return doCall(k); }, st);
    if (st) r = "child ended with status " + std::to_string(st);
    if (memo.size() > 200000) memo.clear();
    return memo[key] = r;
}
static std::string hex(const std::string& s) { Vec v; for (char ch : s) v.push_back((unsigned char)ch); return show(v); }
static std::string describe(const Call& k)
{
    return "function " + std::to_string(k.fn) + (k.raw ? " raw" : "") + " argument " + std::to_string(k.arg) + " text " + show(*k.text);
}

//////////////////////////////////////////////////////////////// histories

static void compare(const std::vector<Call>& calls, const std::vector<std::string>& got, int st)
{
    for (size_t i = 0; i < got.size() && i < calls.size(); ++i)
    {
        const std::string& want = alone(calls[i]);
        REQUIRE(got[i] == want, "call %zu of the history (%s) gives %s, on its own %s", i, describe(calls[i]).c_str(), hex(got[i]).c_str(), hex(want).c_str());
    }
    REQUIRE(st == 0 && got.size() == calls.size(), "the history ended with status %d after %zu of %zu calls", st, got.size(), calls.size());
}
// s: texts, p: calls
static void seq(const Case& c, Obs& o)
{
    std::vector<Call> calls;
    for (int64_t x : c.p) calls.push_back(callOf(c, x < 0 ? -(x + 1) : x));
    std::vector<bool> fns(kNFns); int distinct = 0;
    for (const Call& k : calls) if (!fns[k.fn]) { fns[k.fn] = true; ++distinct; }
    o.nt(calls.size() >= 2 && distinct >= 2);
    if (calls.size() >= 2) o.cls("sequence of two or more calls");
    for (const Call& k : calls) if (k.fn >= 0) { if (k.raw) o.cls("call on raw units"); else o.cls("call on encoded text"); }
    int st = 0;
    auto got = unframe(inChild([&] { std::string r; for (const Call& k : calls) r += frame(doCall(k)); return r; }, st));
    compare(calls, got, st);
}
static int64_t genCall(Rng& r, int texts)
{
    return pack(r.below(kNFns), r.chance(1, 3), r.below(kSlots), r.below(texts), r.chance(1, 2) ? r.below(70) : r.below(100000));
}
static Vec genText(Rng& r)
{
    switch (r.below(8))
    {
    case 0: return gen::u8(r);
    case 1: return gen::u16(r);
    case 2: { Vec v = gen::text(r, 0x7f); return v; }
    case 3: { Vec v; int n = 1 + r.below(6); while (n--) v.push_back(r.chance(1, 2) ? 'I' + r.below(2) * 32 : 0x100 + r.below(0x100)); return v; }
    case 4: { Vec v = gen::text(r, 0x10ffff); v.insert(v.begin(), ' '); v.push_back(0x3000); return v; }
    default: return gen::text(r, gen::maxFor(r));
    }
}
static Case genSeq(Rng& r)
{
    Case c;
    int texts = 1 + r.below(5);
    for (int i = 0; i < texts; ++i)
    {
        Vec v = genText(r);
        if (i && r.chance(1, 2)) { v = c.s[r.below(i)]; if (!v.empty()) { if (r.chance(1, 2)) v[r.below((uint32_t)v.size())] = gen::cp(r, 0x10ffff); else v.resize(r.below((uint32_t)v.size())); } }
        if (v.size() > 200) v.resize(200);
        c.s.push_back(v);
    }
    int n = 2 + r.below(r.chance(1, 4) ? 30 : 8);
    // histories use few functions, so that the same one meets different arguments
    std::vector<int> fns; int nf = 1 + r.below(4); while (nf--) fns.push_back(r.below(kNFns));
    bool few = r.chance(2, 3);
    while (n--)
    {
        int64_t x = genCall(r, texts);
        if (few) { Call k = callOf(c, x); x = pack(r.pick(fns), k.raw, k.slot, r.below(texts), k.arg); }
        c.p.push_back(x);
    }
    return c;
}
// p0: seed, p1: how many calls, p2: pool size: a long history of a pool of calls
static Case expand(const Case& c, int& n, int& poolSize)
{
    Rng r((uint64_t)c.P(0) * 31 + 7);
    n = (int)std::min<int64_t>(std::max<int64_t>(c.P(1), 1), 200000);
    poolSize = (int)std::min<int64_t>(std::max<int64_t>(c.P(2), 1), 400);
    Case e;
    for (int i = 0; i < 16; ++i) { Vec v = genText(r); if (v.size() > 60) v.resize(60); e.s.push_back(v); }
    for (int i = 0; i < poolSize; ++i) e.p.push_back(genCall(r, 16));
    return e;
}
static void longRun(const Case& c, Obs& o)
{
    int n, pool; Case e = expand(c, n, pool);
    o.nt(n >= 2 && pool >= 2); o.cls("long history");
    std::vector<Call> calls; for (int64_t x : e.p) calls.push_back(callOf(e, x));
    int st = 0;
    // the child reports only the first results that differ, by position
    std::vector<std::string> want; for (const Call& k : calls) want.push_back(alone(k));
    std::string r = inChild([&] {
        Rng q((uint64_t)c.P(0) + 99);
        for (int i = 0; i < n; ++i)
        {
            int j = q.below((uint32_t)calls.size());
            std::string g = doCall(calls[j]);
            if (g != want[j]) return "call " + std::to_string(i) + " (" + describe(calls[j]) + ") gives " + hex(g) + ", on its own " + hex(want[j]);
        }
        return std::string("ok"); }, st);
    REQUIRE(r == "ok" && st == 0, "long history: %s, status %d", r.c_str(), st);
}

//////////////////////////////////////////////////////////////// look-alike texts, wear, order

// a text of n characters, and the same text with one place changed, so that most of it (its
// length in units, its beginning, its end) stays the same
static Vec cousinBase(int n, int style)
{
    static const Vec styles[] = { { 'a', 'B', 'c', 'I', ' ', 'z' }, { 0xe9, 0x20ac, 'Q', 0x130, 0x3b1, 0xa0 }, { 'x', 0x1f600, 0x4e00, 'K', 0x10400, 0x2003 } };
    Vec v; for (int i = 0; i < n; ++i) v.push_back(styles[style % 3][(i * 5 + i / 6) % 6]);
    return v;
}
static Vec cousin(Vec v, size_t at, int tweak)
{
    if (v.empty()) return v;
    at = std::min(at, v.size() - 1);
    uint32_t& x = v[at];
    switch (tweak)
    {
    case 0: x = x == 'Z' ? 'z' : 'Z'; break;
    case 1: x = ' '; break;
    case 2: x = 1; break;
    case 3: x ^= 0x20; break;
    case 4: x = x > 0xffff ? x + 0x100 : 0x1f601; break;
    case 5: x = 0xdc00; break;                      // raw: a lone surrogate, a stray byte
    case 6: x = 0x80; break;
    case 7: x = 0x378; break;                       // not assigned
    case 8: x = x > 0xffff ? 0x110000 : 0xe000; break;
    default: if (at + 1 < v.size()) std::swap(v[at], v[at + 1]); else v.pop_back();
    }
    return v;
}
// p0: function, p1: characters, p2: argument, p3: style, p4: raw
static void cousins(const Case& c, Obs& o)
{
    int n = (int)std::min<int64_t>(std::max<int64_t>(c.P(1), 1), 400), style = (int)(c.P(3) & 3);
    bool raw = c.P(4) & 1;
    o.nt(n > 1); o.cls("look-alike texts");
    std::vector<Vec> texts;
    Vec base = cousinBase(n, style);
    std::vector<size_t> places{ 0, (size_t)n / 2, (size_t)n - 1 };
    for (size_t q : { 4, 8, 16, 32, 64, 128 }) if ((int)q + 1 < n) places.push_back(q);
    for (size_t at : places) for (int t = 0; t < 10; ++t) texts.push_back(cousin(base, at, t));
    std::vector<Call> calls;
    auto add = [&](const Vec& v) { Call k; k.fn = (int)((uint64_t)c.P(0) % kNFns); k.arg = std::max<int64_t>(c.P(2), 0); k.raw = raw; k.slot = 0; k.text = &v; calls.push_back(k); };
    for (const Vec& v : texts) { add(base); add(v); }
    for (size_t i = texts.size(); i-- > 0; ) add(texts[i]);
    int st = 0;
    auto got = unframe(inChild([&] { std::string r; for (const Call& k : calls) r += frame(doCall(k)); return r; }, st));
    compare(calls, got, st);
}
// p0: function, p1: thousands of calls, p2: argument, p3: text: the same call, again and again
static void wear(const Case& c, Obs& o)
{
    static const Vec texts[] = { { 'a', 0x130, 0x20ac, 0x1f600, 'I' }, { ' ', 'I', 0xe9, 0x3a3, 0x1f600, ' ' }, { 'k', 'I' } };
    long n = (long)std::min<int64_t>(std::max<int64_t>(c.P(1), 1), 20000) * 1000;
    Call k; k.fn = (int)((uint64_t)c.P(0) % kNFns); k.arg = std::max<int64_t>(c.P(2), 0); k.raw = false; k.slot = 0; k.text = &texts[(uint64_t)c.P(3) % 3];
    o.nt(true); o.cls("the same call many times");
    std::string want = alone(k);
    int st = 0;
    std::string r = inChild([&] {
        Text t = place(unitsOf(k), 0);
        for (long i = 0; i < n; ++i)
        {
            std::string g = kFns[k.fn](t, k.arg);
            if (g != want) return "call " + std::to_string(i) + " gives " + hex(g) + ", on its own " + hex(want);
        }
        return std::string("ok"); }, st);
    REQUIRE(r == "ok" && st == 0, "the same call %ld times (%s): %s, status %d", n, describe(k).c_str(), r.c_str(), st);
}
// another locale, other environment variables, other contents of unused memory
static void __attribute__((noinline)) dirtyStack(int x) { volatile char b[60000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)x; }
static void otherSurroundings(int which)
{
    for (const char* v : { "LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE" }) setenv(v, which ? "tr_TR.UTF-8" : "de_DE.ISO-8859-1", 1);
    for (const char* v : { "HOME", "TMPDIR", "USER", "TZ", "PWD" }) unsetenv(v);
    setlocale(LC_ALL, "C.UTF-8");
#if !UNDER_TSAN
    mallopt(M_PERTURB, which ? 0x5a : 0xff);
#endif
    errno = ERANGE;
    std::srand(12345);
    dirtyStack(which ? 0xa5 : 0xff);
}
// p0: seed, p1: how many, p2: function (negative: any): the same calls, in fresh processes and
// different orders, give the same results
static void orders(const Case& c, Obs& o)
{
    Rng r((uint64_t)c.P(0) * 77 + 3);
    int n = (int)std::min<int64_t>(std::max<int64_t>(c.P(1), 1), 20000);
    o.nt(n >= 2); o.cls("the same calls in different orders");
    std::vector<Vec> texts(n); std::vector<Call> calls(n);
    int fns[3]; for (int& f : fns) f = c.P(2) >= 0 ? (int)((uint64_t)c.P(2) % kNFns) : (int)r.below(kNFns);
    uint32_t x = gen::cp(r, 0x10ffff); int64_t arg = r.below(70); int len = r.chance(1, 3) ? 1 + r.below(30) : 1 + r.below(2);
    for (int i = 0; i < n; ++i)
    {
        // single characters related to one another, or short texts of them
        for (int j = 0; j < len; ++j)
        {
            switch (r.below(6))
            {
            case 0: x = gen::cp(r, 0x10ffff); break;
            case 1: x += 1u << r.below(20); break;
            case 2: x ^= 1u << r.below(20); break;
            case 3: x = 1 + r.below(0x24f); break;
            case 4: x = (x & 0xff) | r.below(0x110) << 8; break;
            default: x = (x & 0xffff) | r.below(17) << 16;
            }
            texts[i].push_back(x % 0x110000);
        }
        calls[i].fn = fns[r.below(3)]; calls[i].arg = r.chance(1, 4) ? r.below(70) : arg; calls[i].raw = r.chance(1, 8); calls[i].slot = r.below(kSlots); calls[i].text = &texts[i];
    }
    auto runIn = [&](int how) {
        int st = 0;
        std::string s = inChild([&] {
            std::vector<std::string> out(n); Rng q((uint64_t)c.P(0) + 5);
            std::vector<int> at(n); for (int i = 0; i < n; ++i) at[i] = how == 1 ? n - 1 - i : i;
            if (how == 2) for (int i = n - 1; i > 0; --i) std::swap(at[i], at[q.below(i + 1)]);
            if (how == 3) otherSurroundings((int)(c.P(0) & 1));
            for (int i : at) out[i] = doCall(calls[i]);
            std::string r; for (auto& e : out) r += frame(e); return r; }, st);
        REQUIRE(st == 0, "%d calls in order %d ended with status %d", n, how, st);
        return unframe(s);
    };
    auto a = runIn(0);
    for (int how = 1; how < 4; ++how)
    {
        auto b = runIn(how);
        for (int i = 0; i < n; ++i) REQUIRE(a[i] == b[i], "call %d of %d (%s) gives %s in one order and %s in another%s", i, n, describe(calls[i]).c_str(), hex(a[i]).c_str(), hex(b[i]).c_str(), how == 3 ? " environment" : "");
    }
}

//////////////////////////////////////////////////////////////// threads

struct Held { std::vector<char> a; std::vector<char16_t> b; std::vector<char32_t> d; std::vector<wchar_t> w; Text t; };
static void hold(Held& h, const Units& u)
{
    for (uint32_t x : u.v8) h.a.push_back((char)x);
    for (uint32_t x : u.v16) h.b.push_back((char16_t)x);
    for (uint32_t x : u.v32) { h.d.push_back(x); h.w.push_back((wchar_t)x); }
    h.t.n8 = h.a.size(); h.t.n16 = h.b.size(); h.t.n32 = h.d.size();
    h.a.push_back(0); h.b.push_back(0); h.d.push_back(0); h.w.push_back(0);
    h.t.c8 = h.a.data(); h.t.c16 = h.b.data(); h.t.c32 = h.d.data(); h.t.cw = h.w.data();
}
// p0: threads, p1: rounds, p2..: calls; the threads share texts and calls
static void threads(const Case& c, Obs& o)
{
    int nt = (int)(2 + (uint64_t)c.P(0) % 5), rounds = (int)(1 + (uint64_t)c.P(1) % 6);
    std::vector<Call> calls;
    for (size_t i = 2; i < c.p.size(); ++i) calls.push_back(callOf(c, c.p[i] < 0 ? -(c.p[i] + 1) : c.p[i]));
    o.nt(!calls.empty()); o.cls(UNDER_TSAN ? "threads, races watched" : "threads");
    if (calls.empty()) return;
    std::vector<std::string> want;
    for (const Call& k : calls) want.push_back(alone(k));
    std::vector<Held> held(calls.size());
    for (size_t i = 0; i < calls.size(); ++i) hold(held[i], unitsOf(calls[i]));
    int tries = getenv("REPLAYING") ? 12 : 1;
    for (int q = 0; q < tries; ++q)
    {
        int st = 0;
        std::string r = inChild([&] {
            // under the race detector each thread also runs in turn, so that no window is needed
            for (int i = 0; i < 64; ++i) (void)shared(i);
            std::atomic<int> ready(0), bad(-1);
            std::vector<std::thread> ts;
            for (int k = 0; k < nt; ++k) ts.emplace_back([&, k] {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
                for (int q2 = 0; q2 < rounds; ++q2)
                    for (size_t j = 0; j < calls.size(); ++j)
                    {
                        size_t i = (k & 1) ? calls.size() - 1 - j : (j + k) % calls.size();
                        if (kFns[calls[i].fn](held[i].t, calls[i].arg) != want[i]) bad.store((int)i, std::memory_order_relaxed);
                    }
            });
            for (auto& t : ts) t.join();
            int b = bad.load();
            return b < 0 ? std::string("ok") : "call " + std::to_string(b) + " (" + describe(calls[b]) + ") gave another result than on its own";
        }, st);
        REQUIRE(st == 0, "threads calling %zu functions at once: %s", calls.size(),
            WIFEXITED(st) && WEXITSTATUS(st) == 66 ? "data race reported" : WIFSIGNALED(st) ? "crash" : "abnormal end");
        REQUIRE(r == "ok", "threads: %s", r.c_str());
    }
}
static Case genThreads(Rng& r)
{
    Case c;
    c.p.push_back(r.below(5)); c.p.push_back(r.below(6));
    int texts = 1 + r.below(4);
    for (int i = 0; i < texts; ++i) { Vec v = genText(r); if (v.size() > 60) v.resize(60); c.s.push_back(v); }
    int n = 1 + r.below(12);
    while (n--) c.p.push_back(genCall(r, texts));
    return c;
}

static Kind threadsKind(int weight)
{
    Kind t; t.name = "threads"; t.weight = weight; t.gen = genThreads; t.check = threads;
    // every function, called by several threads at once in a fresh process
    t.enumSize = [](int level) { return (uint64_t)kNFns * (level ? 12 : 3); };
    t.enumAt = [](uint64_t i, int) {
        static const Vec texts[] = { { ' ', 'a', 'I', 0x130, 0x20ac, 0x1f600, 0x3000 }, { 'x', 0xc3, 0xa9, 'I', 0x80, 0x9f }, { 'p', 'l', 'a', 'i', 'n' } };
        Case c; c.p = { 2, 2 };
        int fn = (int)(i % kNFns); uint64_t q = i / kNFns;
        c.s.push_back(texts[q % 3]); c.s.push_back(texts[(q + 1) % 3]);
        c.p.push_back(pack(fn, q % 3 == 1, 0, 0, (int64_t)(q * 7 + 2))); c.p.push_back(pack(fn, false, 0, 1, (int64_t)(q * 13 + 1)));
        return c;
    };
    return t;
}
static const char* const kRule = "at least two calls of at least two different functions, or several threads";

// thousands of calls
static const std::vector<int64_t>& newCounts()
{
    static const std::vector<int64_t>* r = [] {
        std::vector<int64_t>* v = new std::vector<int64_t>;
        for (uint32_t x : gen::novel()) if (x > 60000 && x < 5000000 && v->size() < 3) v->push_back(x / 1000 + 2);
        for (uint32_t x : gen::novel()) if (x > 16 && x < 22 && v->size() < 3) v->push_back(((int64_t)1 << x) / 1000 + 2);     // a shift
        return v; }();
    return *r;
}
static Prop* mk21()
{
    Prop* p = new Prop; p->id = "P21"; p->rule = kRule;
    Kind s; s.name = "history"; s.weight = 60; s.gen = genSeq; s.check = seq;
    // every ordered pair of functions, on the same addresses, with texts of different nature
    s.enumSize = [](int level) { return (uint64_t)kNFns * kNFns * (level ? 6 : 1); };
    s.enumAt = [](uint64_t i, int) {
        static const Vec texts[] = { { 'A', 0xc9, 0x130, 0x1f600, ' ' }, { 'b', 'I', 0x20ac, 0xd800, 'z' }, { 0xc3, 0x89, 0xe2, 0x82, 0xac }, { 'p', 'l', 'a', 'i', 'N' } };
        Case c; uint64_t q = i / ((uint64_t)kNFns * kNFns), a = i % kNFns, b = i / kNFns % kNFns;
        size_t x = (size_t)((q + a + b) % 4), y = (size_t)((x + 1 + q % 3) % 4);
        c.s.push_back(texts[x]); c.s.push_back(texts[y]);
        int64_t arg = (int64_t)(2 + q * 5);
        c.p = { pack((int)a, x == 2, 0, 0, arg), pack((int)b, y == 2, 0, 1, arg + 1), pack((int)a, y == 2, 0, 1, arg + 2), pack((int)b, x == 2, 0, 0, arg) };
        return c;
    };
    p->kinds.push_back(s);
    Kind l; l.name = "long"; l.weight = 1; l.params = 3; l.check = longRun;
    l.gen = [](Rng& r) { Case c; c.p = { (int64_t)r.below(1000000), (int64_t)(500 + r.below(r.chance(1, 5) ? 20000 : 3000)), (int64_t)(2 + r.below(60)) }; return c; };
    p->kinds.push_back(l);
    p->kinds.push_back(threadsKind(6));
    Kind k; k.name = "lookalike"; k.weight = 1; k.params = 5; k.check = cousins;
    k.gen = [](Rng& r) { Case c; c.p = { (int64_t)r.below(kNFns), (int64_t)(1 + r.below(r.chance(1, 4) ? 300 : 70)), (int64_t)r.below(70), (int64_t)r.below(3), (int64_t)r.below(2) }; return c; };
    k.enumSize = [](int level) { return (uint64_t)kNFns * (level ? 60 : 4); };
    k.enumAt = [](uint64_t i, int) {
        static const int lengths[] = { 40, 20, 150, 9, 3, 70, 33, 18, 280, 65 };
        uint64_t q = i / kNFns; Case c; c.p = { (int64_t)(i % kNFns), lengths[q / 2 % 10], (int64_t)(i * 7 % 70), (int64_t)((q / 20 + q + i) % 3), (int64_t)(q % 2) }; return c; };
    p->kinds.push_back(k);
    Kind w; w.name = "wear"; w.weight = 0; w.params = 4; w.check = wear;
    w.gen = [](Rng& r) { Case c; c.p = { (int64_t)r.below(kNFns), 70, (int64_t)r.below(70), (int64_t)r.below(3) }; return c; };
    // also as often as a number that is new in the sources, if there is one
    w.enumSize = [](int level) { return (uint64_t)kNFns * ((level ? 3 : 1) + newCounts().size()); };
    w.enumAt = [](uint64_t i, int level) {
        uint64_t q = i / kNFns, own = level ? 3 : 1;
        Case c; c.p = { (int64_t)(i % kNFns), q >= own ? newCounts()[q - own] : level ? 1100 : 67, (int64_t)(q + i % 5), (int64_t)q }; return c; };
    p->kinds.push_back(w);
    Kind d; d.name = "orders"; d.weight = 1; d.params = 3; d.check = orders;
    d.gen = [](Rng& r) { Case c; c.p = { (int64_t)r.below(10000000), (int64_t)(2 + r.below(r.chance(1, 3) ? 3000 : 300)), r.chance(1, 2) ? (int64_t)-1 : (int64_t)r.below(kNFns) }; return c; };
    d.enumSize = [](int level) { return (uint64_t)kNFns * (level ? 20 : 1); };
    d.enumAt = [](uint64_t i, int) { Case c; c.p = { (int64_t)(i + 1), 3000, (int64_t)(i % kNFns) }; return c; };
    p->kinds.push_back(d);
    return p;
}
static Prop* mk21T()
{
    Prop* p = new Prop; p->id = "P21T"; p->rule = kRule;
    p->kinds.push_back(threadsKind(1));
    return p;
}
static Register r21(UNDER_TSAN ? mk21T() : mk21());
