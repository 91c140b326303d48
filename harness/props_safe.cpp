// Memory safety and robustness of every entry point: P13.
#include "lib.hpp"
#include "internal/string_decode_utf8.hxx"
#include "string_splitjoin.hxx"
#include "string_trim.hxx"
#include <sys/mman.h>
#include <unistd.h>

using namespace model;

static volatile size_t g_sink;
template <class T> static void use(const T& x) { g_sink += x.size(); }
static void use(bool b) { g_sink += b; }
static void use(unsigned u) { g_sink += u; }

// a copy that ends exactly at an inaccessible page
template <class C> struct Guarded {
    char* map; size_t len; C* p;
    explicit Guarded(const Vec& v, bool terminated)
    {
        size_t page = 4096, bytes = (v.size() + terminated) * sizeof(C);
        len = ((bytes + page - 1) / page + 1) * page;
        map = (char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (map == (char*)MAP_FAILED) throw std::runtime_error("mmap");
        p = (C*)(map + len - page - bytes);
        for (size_t i = 0; i < v.size(); ++i) p[i] = (C)v[i];
        if (terminated) p[v.size()] = 0;
        mprotect(map, len - page, PROT_READ);       // the library must not write either
        mprotect(map + len - page, page, PROT_NONE);
    }
    ~Guarded() { munmap(map, len); }
    Guarded(const Guarded&) = delete;
};

static EncodingCheckPredicate predFor(int64_t x)
{
    EncodingCheckPredicate p;
    if (x & 1) p = p.andIf((EncodingType)condType(x >> 1));
    if (x & 2) p = p.andIfNot((EncodingType)condType(x >> 3));
    return p;
}
static RangeType targetFor(int64_t x) { int k = (int)(((x % 8) + 8) % 8); return k < 6 ? (RangeType)k : badTarget(x / 8); }

// everything that takes 8-bit text
static void all8(const char* p, const std::string& s, const char* lang, int64_t x, bool trims)
{
    EncodingCheckPredicate pr = predFor(x); RangeType t = targetFor(x);
    use(ansak::isUtf8(p)); use(ansak::isUtf8(s)); use(ansak::isUtf8(p, t)); use(ansak::isUtf8(s, t)); use(ansak::isUtf8(p, t, pr)); use(ansak::isUtf8(s, t, pr)); use(ansak::isUtf8(p, pr)); use(ansak::isUtf8(s, pr));
    for (int k = 0; k < 6; ++k) use(ansak::isUtf8(p, (RangeType)k));
    use(toUcs2(p)); use(toUcs2(s)); use(toUtf16(p)); use(toUtf16(s)); use(toUcs4(p)); use(toUcs4(s)); use(toWstring(p)); use(toWstring(s)); use(isWstring(p)); use(isWstring(s));
    use(unicodeLength(p)); use(unicodeLength(s)); use(toLower(s)); use(toLower(s, lang));
    use(toUtf8(p, kSrcCP1252)); use(toUtf8(p, kSrcCP1250)); use(toUtf8(p, kSrcUnicode)); use(toUtf8(p, (SourceEncoding)x));
    if (p)
        for (const char* q = p; *q; )
        {
            const char* from = q;
            char32_t c = internal::decodeUtf8(q);
            if (!q) break;
            if (!c) { REQUIRE(*q == 0, "decodeUtf8 failed without nulling the position or reaching the end"); break; }
            REQUIRE(q >= from, "decodeUtf8 moved backwards");
            ++q;
        }
    auto parts = ansak::split(s, (char)x); use(parts); use(ansak::join(parts, (char)(x >> 1)));
    if (trims)
    {
        std::string a = s; trim(a); use(a); a = s; trim(a, std::string(" \x80\xff") + (char)x); use(a); a = s; trimAscii7WhiteSpace(a); use(a);
        a = s; trimWhiteSpace(a); use(a);
    }
}
static void all16(const char16_t* p, const std::u16string& s, const char* lang, int64_t x, bool trims)
{
    EncodingCheckPredicate pr = predFor(x); RangeType t = targetFor(x);
    use(ansak::isUtf16(p)); use(ansak::isUtf16(s)); use(ansak::isUtf16(p, t)); use(ansak::isUtf16(s, t)); use(ansak::isUtf16(p, t, pr)); use(ansak::isUtf16(s, t, pr)); use(ansak::isUtf16(p, pr)); use(ansak::isUtf16(s, pr));
    use(ansak::isUcs2(p)); use(ansak::isUcs2(s)); use(ansak::isUcs2(p, t)); use(ansak::isUcs2(s, t)); use(ansak::isUcs2(p, t, pr)); use(ansak::isUcs2(s, t, pr)); use(ansak::isUcs2(p, pr)); use(ansak::isUcs2(s, pr));
    use(toUtf8(p)); use(toUtf8(s)); use(toUcs4(p)); use(toUcs4(s)); use(toWstring(p)); use(toWstring(s)); use(isWstring(p)); use(isWstring(s));
    use(unicodeLength(p)); use(unicodeLength(s)); use(toLower(s)); use(toLower(s, lang));
    auto parts = ansak::split(s, (char16_t)x); use(parts); use(ansak::join(parts, (char16_t)(x >> 1)));
    if (trims) { std::u16string a = s; trim(a); use(a); a = s; trim(a, std::u16string(u" \x3000") + (char16_t)x); use(a); a = s; trimWhiteSpace(a); use(a); }
}
static void all32(const char32_t* p, const std::u32string& s, const wchar_t* q, const wstr& w, const char* lang, int64_t x, bool trims)
{
    EncodingCheckPredicate pr = predFor(x); RangeType t = targetFor(x);
    use(ansak::isUcs4(p)); use(ansak::isUcs4(s)); use(ansak::isUcs4(p, t)); use(ansak::isUcs4(s, t)); use(ansak::isUcs4(p, t, pr)); use(ansak::isUcs4(s, t, pr)); use(ansak::isUcs4(p, pr)); use(ansak::isUcs4(s, pr));
    use(toUtf8(p)); use(toUtf8(s)); use(toUcs2(p)); use(toUcs2(s)); use(toUtf16(p)); use(toUtf16(s)); use(toWstring(p)); use(toWstring(s)); use(isWstring(p)); use(isWstring(s));
    use(unicodeLength(p)); use(unicodeLength(s)); use(toLower(s)); use(toLower(s, lang));
    use(ansak::isUtf8(q)); use(ansak::isUtf8(w)); use(ansak::isUtf16(q)); use(ansak::isUtf16(w)); use(ansak::isUcs2(q)); use(ansak::isUcs2(w)); use(ansak::isUcs4(q)); use(ansak::isUcs4(w));
    use(toUtf8(q)); use(toUtf8(w)); use(toUtf16(q)); use(toUtf16(w)); use(toUcs2(q)); use(toUcs2(w)); use(toUcs4(q)); use(toUcs4(w));
    auto parts = ansak::split(s, (char32_t)x); use(parts); use(ansak::join(parts, (char32_t)(x >> 1)));
    if (trims) { std::u32string a = s; trim(a); use(a); a = s; trim(a, std::u32string(U" \x3000") + (char32_t)x); use(a); a = s; trimWhiteSpace(a); use(a); wstr b = w; trim(b); use(b); }
}
// p0 selects, s0 language, s1 text
static void run8(const Case& c, Obs& o)
{
    const Vec& full = c.S(1); Vec v = cut(full); int64_t x = c.P(0);
    for (uint32_t u : full) o.nt(u >= 0x80 || u == 0);
    o.cls(stateName(decUtf8(v)));
    Z8 lang(cut(c.S(0))); const char* l = c.P(1) % 3 ? (const char*)lang : nullptr;
    Z8 z(v); std::string s = s8(full);
    all8(z, s, l, x, full.size() < 20000);
    REQUIRE(z.same(v) && s == s8(full), "an argument was modified");
    if (!full.empty())
    {
        Z8 e(full, false); unsigned n = (unsigned)full.size();
        use(ansak::isUtf8((const char*)e, n)); use(ansak::isUtf8((const char*)e, n, predFor(x))); use(unicodeLength((const char*)e, n));
    }
    if (c.P(1) & 4)
    {
        o.cls("ends at an unmapped page");
        Guarded<char> g(v, true), gl(cut(c.S(0)), true); all8(g.p, s, gl.p, x, false);
        if (!full.empty()) { Guarded<char> e(full, false); unsigned n = (unsigned)full.size(); use(ansak::isUtf8(e.p, n)); use(ansak::isUtf8(e.p, n, predFor(x))); use(unicodeLength(e.p, n)); }
    }
}
static void run16(const Case& c, Obs& o)
{
    const Vec& full = c.S(1); Vec v = cut(full); int64_t x = c.P(0);
    for (uint32_t u : full) o.nt(u >= 0x80 || u == 0);
    o.cls(stateName(decUtf16(v)));
    Z8 lang(cut(c.S(0))); const char* l = c.P(1) % 3 ? (const char*)lang : nullptr;
    Z16 z(v); std::u16string s = s16(full);
    all16(z, s, l, x, full.size() < 20000);
    REQUIRE(z.same(v) && s == s16(full), "an argument was modified");
    if (!full.empty()) { Z16 e(full, false); use(unicodeLength((const char16_t*)e, (unsigned)full.size())); }
    if (c.P(1) & 4)
    {
        o.cls("ends at an unmapped page");
        Guarded<char16_t> g(v, true); Guarded<char> gl(cut(c.S(0)), true); all16(g.p, s, gl.p, x, false);
        if (!full.empty()) { Guarded<char16_t> e(full, false); use(unicodeLength(e.p, (unsigned)full.size())); }
    }
}
static void run32(const Case& c, Obs& o)
{
    const Vec& full = c.S(1); Vec v = cut(full); int64_t x = c.P(0);
    for (uint32_t u : full) o.nt(u >= 0x80 || u == 0);
    Z8 lang(cut(c.S(0))); const char* l = c.P(1) % 3 ? (const char*)lang : nullptr;
    Z32 z(v); std::u32string s = s32(full); ZW zw(v); wstr w = sw(full);
    all32(z, s, zw, w, l, x, full.size() < 20000);
    REQUIRE(z.same(v) && zw.same(v) && s == s32(full) && w == sw(full), "an argument was modified");
    if (!full.empty()) { Z32 e(full, false); use(unicodeLength((const char32_t*)e, (unsigned)full.size())); }
    if (c.P(1) & 4)
    {
        o.cls("ends at an unmapped page");
        Guarded<char32_t> g(v, true); Guarded<wchar_t> gw(v, true); Guarded<char> gl(cut(c.S(0)), true); all32(g.p, s, gw.p, w, gl.p, x, false);
        if (!full.empty()) { Guarded<char32_t> e(full, false); use(unicodeLength(e.p, (unsigned)full.size())); }
    }
}
#define NONE(e) REQUIRE((e).empty(), "%s is not empty", #e)
#define YESN(e) REQUIRE((e), "%s is false", #e)
static void runNull(const Case& c, Obs& o)
{
    o.nt(); o.cls("null pointers");
    int64_t x = c.P(0);
    EncodingCheckPredicate pr = predFor(x);
    const char* n8 = nullptr; const char16_t* n16 = nullptr; const char32_t* n32 = nullptr; const wchar_t* nw = nullptr;
    unsigned len = (unsigned)c.P(1) & 0xffff;
    all8(nullptr, std::string(), nullptr, x, true);
    all16(nullptr, std::u16string(), nullptr, x, true);
    all32(nullptr, std::u32string(), nullptr, wstr(), nullptr, x, true);
    for (int t = 0; t < 6; ++t)
    {
        RangeType k = (RangeType)t;
        YESN(ansak::isUtf8(n8, k, pr)); YESN(ansak::isUtf16(n16, k, pr)); YESN(ansak::isUcs2(n16, k, pr)); YESN(ansak::isUcs4(n32, k, pr));
        YESN(ansak::isUtf8(n8, k)); YESN(ansak::isUtf16(n16, k)); YESN(ansak::isUcs2(n16, k)); YESN(ansak::isUcs4(n32, k));
    }
    YESN(ansak::isUtf8(n8, len)); YESN(ansak::isUtf8(n8, len, pr));
    YESN(ansak::isUtf8(nw)); YESN(ansak::isUtf16(nw)); YESN(ansak::isUcs2(nw)); YESN(ansak::isUcs4(nw));
    YESN(isWstring(n8)); YESN(isWstring(n16)); YESN(isWstring(n32));
    NONE(toUcs2(n8)); NONE(toUtf16(n8)); NONE(toUcs4(n8)); NONE(toWstring(n8)); NONE(toUtf8(n16)); NONE(toUcs4(n16)); NONE(toWstring(n16));
    NONE(toUtf8(n32)); NONE(toUcs2(n32)); NONE(toUtf16(n32)); NONE(toWstring(n32)); NONE(toUtf8(nw)); NONE(toUtf16(nw)); NONE(toUcs2(nw)); NONE(toUcs4(nw));
    for (int k = -1; k < 5; ++k) NONE(toUtf8(n8, (SourceEncoding)k));
    REQUIRE(unicodeLength(n8) == 0 && unicodeLength(n16) == 0 && unicodeLength(n32) == 0 && unicodeLength(n8, len) == 0 && unicodeLength(n16, len) == 0 && unicodeLength(n32, len) == 0, "unicodeLength of null is not 0");
    REQUIRE(V(toLower(std::string("Ab"), nullptr)) == Vec({ 'a', 'b' }), "toLower with null language");
}
static Vec genLang(Rng& r)
{
    static const char* const ls[] = { "", "t", "tr", "tur", "az", "aze", "k", "kk", "kaz", "en", "tr-TR", "azerbaijani" };
    Vec v; for (const char* p = ls[r.below(12)]; *p; ++p) v.push_back((unsigned char)*p);
    if (r.chance(1, 5)) v.push_back(1 + r.below(255));
    if (!gen::novelStrings().empty() && r.chance(1, 4)) { v = r.pick(gen::novelStrings()); for (uint32_t& x : v) x &= 0xff; }
    if (r.chance(1, 12)) { size_t n = 4 + r.below(r.chance(1, 3) ? 400 : 40); while (v.size() < n) v.push_back(r.chance(1, 8) ? '-' : 'a' + r.below(26)); }
    return v;
}
template <Vec (*G)(Rng&)> static Case genAny(Rng& r)
{
    Case c; c.p = { (int64_t)r.below(30000), (int64_t)r.below(8) };
    Vec v = G(r);
    if (r.chance(1, 5)) v.insert(v.begin() + r.below((uint32_t)v.size() + 1), 0);
    c.s = { genLang(r), v };
    return c;
}
// very long texts: recursion, quadratic growth, 16-bit counters
static void runHuge(const Case& c, Obs& o)
{
    size_t n = (size_t)c.P(0) & 0x3fffff;
    const Vec& unit = c.S(0);
    if (unit.empty()) return;
    o.nt(n > 65536); o.cls("very long");
    Vec cps; cps.reserve(n); for (size_t i = 0; i < n; ++i) { uint32_t x = unit[i % unit.size()]; if (!x || isSurrogate(x) || x > 0x10ffff) x = 'h'; cps.push_back(x); }
    Vec v8 = encUtf8(cps), v16 = encUtf16(cps);
    std::string a = s8(v8); std::u16string b = s16(v16); std::u32string q = s32(cps);
    YESN(ansak::isUtf8(a)); YESN(ansak::isUtf16(b)); YESN(ansak::isUcs4(q)); YESN(ansak::isUtf8(a.data(), (unsigned)a.size()) || a.empty());
    REQUIRE(unicodeLength(a) == n && unicodeLength(b) == n && unicodeLength(q) == n, "a text of %zu characters counts %u, %u, %u", n, unicodeLength(a), unicodeLength(b), unicodeLength(q));
    if (n) REQUIRE(unicodeLength(a.data(), (unsigned)a.size()) == n && unicodeLength(b.data(), (unsigned)b.size()) == n && unicodeLength(q.data(), (unsigned)n) == n, "a length-terminated text of %zu characters is miscounted", n);
    REQUIRE(toUtf16(a) == b && toUcs4(a) == q && toUtf8(b) == a && toUcs4(b) == q && toUtf8(q) == a && toUtf16(q) == b, "conversion of a text of %zu characters is wrong", n);
    REQUIRE(toLower(q).size() == n && unicodeLength(toLower(a)) == n && unicodeLength(toLower(b)) == n, "lower-casing a text of %zu characters changes its length", n);
    REQUIRE(ansak::join(ansak::split(b, u'h'), u'h') == b, "split and join of a text of %zu characters is wrong", n);
    use(toUtf8(a.c_str(), kSrcCP1252)); use(toUtf8(a.c_str(), kSrcCP1250));
    REQUIRE(toUtf8(a.c_str(), kSrcUnicode) == a, "a Unicode source of %zu bytes is not returned unchanged", a.size());
    std::string t = a; trimWhiteSpace(t); use(t);
}
static Prop* mk13()
{
    Prop* p = new Prop; p->id = "P13";
    p->rule = "the text holds a unit above 7F or an embedded null, or null pointers are passed, or the text is longer than 65536 characters";
    struct { const char* n; int w; Case (*g)(Rng&); void (*f)(const Case&, Obs&); int weight; double costly; } ks[] = {
        { "utf8", 1, genAny<gen::u8>, run8, 14, 1 }, { "utf16", 2, genAny<gen::u16>, run16, 10, 1 }, { "ucs4", 4, genAny<gen::u32>, run32, 10, 1 },
        { "utf8-long", 1, genAny<gen::u8Long>, run8, 1, 20 }, { "utf16-long", 2, genAny<gen::u16Long>, run16, 1, 20 }, { "ucs4-long", 4, genAny<gen::u32Long>, run32, 1, 20 } };
    for (auto& q : ks)
    {
        Kind k; k.name = q.n; k.widths = { 1, q.w }; k.params = 2; k.weight = q.weight; k.gen = q.g; k.check = q.f; k.costly = q.costly;
        p->kinds.push_back(k);
    }
    p->kinds[0].enumSize = [](int level) { return gen::enumU8(level) / (level ? 1 : 24); };
    p->kinds[0].enumAt = [](uint64_t i, int level) { Case c; c.p = { (int64_t)(i % 30011), (int64_t)(i % 17 == 0 ? 4 + i % 4 : i % 4) }; c.s = { Vec{ 't', 'r' }, gen::enumU8At(level ? i : i * 24 + i % 24, level) }; return c; };
    p->kinds[1].enumSize = [](int level) { return gen::enumU16(level) / (level ? 1 : 24); };
    p->kinds[1].enumAt = [](uint64_t i, int level) { Case c; c.p = { (int64_t)(i % 30011), (int64_t)(i % 17 == 0 ? 4 + i % 4 : i % 4) }; c.s = { Vec{ 'k', 'a', 'z' }, gen::enumU16At(level ? i : i * 24 + i % 24, level) }; return c; };
    p->kinds[2].enumSize = [](int level) { return gen::enumU32(level) / (level ? 1 : 12); };
    p->kinds[2].enumAt = [](uint64_t i, int level) { Case c; c.p = { (int64_t)(i % 30011), (int64_t)(i % 17 == 0 ? 4 + i % 4 : i % 4) }; c.s = { Vec{ 'a', 'z' }, gen::enumU32At(level ? i : i * 12 + i % 12, level) }; return c; };
    Kind n; n.name = "null"; n.params = 2; n.widths = { 1 }; n.weight = 2; n.check = runNull;
    n.gen = [](Rng& r) { Case c; c.p = { (int64_t)r.below(30000), (int64_t)r.below(65536) }; c.s.push_back(Vec()); return c; };
    n.enumSize = [](int) { return (uint64_t)64; };
    n.enumAt = [](uint64_t i, int) { Case c; c.p = { (int64_t)i * 7, (int64_t)i }; c.s.push_back(Vec()); return c; };
    p->kinds.push_back(n);
    Kind h; h.name = "huge"; h.params = 1; h.widths = { 4 }; h.weight = 0; h.costly = 1000; h.check = runHuge;
    h.enumSize = [](int level) { return (uint64_t)(level ? 160 : 16); };
    h.enumAt = [](uint64_t i, int level) {
        Case c; static const uint32_t sizes[] = { 65535, 65536, 65537, 131072, 262145, 1048576, 100000, 2000003 };
        uint64_t k = i / 2 % (level ? 8 : 5);
        c.p = { (int64_t)sizes[k] + (int64_t)(i / 16) };
        static const Vec units[] = { { 'a' }, { 'h', 0xe9 }, { 0x1f600, 'I' }, { 0x20ac, ' ' } };
        c.s.push_back(units[(i + i / 8) % 4]);
        return c;
    };
    p->kinds.push_back(h);
    return p;
}
static Register r13(mk13());
