// Predicates, character classes, lower-casing: P07-P10. Built once per Unicode version.
#include "lib.hpp"
#include <algorithm>
#include <set>

using namespace model;

static const char* const kTargetName[] = { "kAscii", "kUtf8", "kUcs2", "kUtf16", "kUcs4", "kUnicode" };
static const char* const kClassName[] = { "none", "assigned", "private", "control", "white space" };

//////////////////////////////////////////////////////////////// predicates from parameters

// each parameter is one condition: x % 2 wanted or not, x / 2 the type (valid and not)
static std::vector<Cond> conds(const Case& c, size_t from)
{
    std::vector<Cond> r;
    for (size_t i = from; i < c.p.size(); ++i)
    {
        int64_t x = c.p[i];
        if (x == 0) continue;
        r.push_back(Cond{ (x & 1) != 0, condType(x >> 1) });
    }
    return r;
}
static bool validType(int t) { return t >= 1 && t <= 4; }
static EncodingCheckPredicate build(const std::vector<Cond>& cs, int how)
{
    if (cs.empty()) return EncodingCheckPredicate();
    EncodingCheckPredicate p;
    size_t i = 0;
    if (how & 1)
    {
        EncodingType t = (EncodingType)cs[0].type;
        p = how & 2 ? (cs[0].want ? EncodingCheckPredicate::checkIf(t) : EncodingCheckPredicate::checkIfNot(t)) : (cs[0].want ? validIf(t) : validIfNot(t));
        i = 1;
    }
    for (; i < cs.size(); ++i)
    {
        EncodingType t = (EncodingType)cs[i].type;
        p = cs[i].want ? p.andIf(t) : p.andIfNot(t);
    }
    return p;
}
// extending a predicate in place narrows it
static EncodingCheckPredicate buildInPlace(const std::vector<Cond>& cs)
{
    EncodingCheckPredicate p;
    for (const Cond& c : cs) { if (c.want) p.andIf((EncodingType)c.type); else p.andIfNot((EncodingType)c.type); }
    return p;
}
static bool satisfies(const Ucd& u, const std::vector<Cond>& cs, uint32_t c)
{
    for (const Cond& k : cs) if (validType(k.type) && inClass(u, k.type, c) != k.want) return false;
    return true;
}
static bool allSatisfy(const Ucd& u, const std::vector<Cond>& cs, const Vec& v)
{
    for (uint32_t c : v) if (!satisfies(u, cs, c)) return false;
    return true;
}
static bool contradictory(const std::vector<Cond>& cs)
{
    for (const Cond& a : cs) for (const Cond& b : cs) if (validType(a.type) && a.type == b.type && a.want != b.want) return true;
    return false;
}
static std::string showConds(const std::vector<Cond>& cs)
{
    std::string r = "{";
    for (const Cond& c : cs) { r += c.want ? " if " : " ifNot "; r += std::to_string(c.type); }
    return r + " }";
}
static int64_t genCond(Rng& r) { return 1 + (int64_t)r.below(r.chance(1, 5) ? 21 : 9); }

//////////////////////////////////////////////////////////////// P07

static Tri both(Tri a, bool b) { return !b ? NO : a; }
#define AGREE(e, want) do { bool g_ = (e); if (want != EITHER) REQUIRE(g_ == (want == YES), "%s is %d for %s, predicate %s, target %s (Unicode %d)", #e, g_, show(v).c_str(), showConds(cs).c_str(), kTargetName[t], ucdVersion()); } while (0)

static void check8(const Vec& v, const std::vector<Cond>& cs, const EncodingCheckPredicate& pr, const Ucd& u)
{
    Decoded d = decUtf8(v); Z8 z(v); const char* p = z; std::string s = t8(v);
    bool all = allSatisfy(u, cs, d.cps);
    for (int t = 0; t < NTARGETS; ++t)
    {
        Tri w = both(model::isUtf8(d, t), all);
        AGREE(ansak::isUtf8(p, (RangeType)t, pr), w); AGREE(ansak::isUtf8(s, (RangeType)t, pr), w);
    }
    int t = UTF8; Tri w = both(model::isUtf8(d, t), all);
    AGREE(ansak::isUtf8(p, pr), w); AGREE(ansak::isUtf8(s, pr), w);
    if (!v.empty()) { Z8 e(v, false); AGREE(ansak::isUtf8((const char*)e, (unsigned)v.size(), pr), w); }
}
static void check16(const Vec& v, const std::vector<Cond>& cs, const EncodingCheckPredicate& pr, const Ucd& u)
{
    Decoded d = decUtf16(v); Z16 z(v); const char16_t* p = z; std::u16string s = t16(v);
    bool all = allSatisfy(u, cs, d.cps), all2 = allSatisfy(u, cs, v);
    for (int t = 0; t < NTARGETS; ++t)
    {
        Tri w = model::isUtf16(d, t) && all ? YES : NO, w2 = model::isUcs2(v, t) && all2 ? YES : NO;
        AGREE(ansak::isUtf16(p, (RangeType)t, pr), w); AGREE(ansak::isUtf16(s, (RangeType)t, pr), w);
        AGREE(ansak::isUcs2(p, (RangeType)t, pr), w2); AGREE(ansak::isUcs2(s, (RangeType)t, pr), w2);
    }
    int t = UTF16; Tri w = model::isUtf16(d, t) && all ? YES : NO;
    AGREE(ansak::isUtf16(p, pr), w); AGREE(ansak::isUtf16(s, pr), w);
    t = UCS2; w = model::isUcs2(v, t) && all2 ? YES : NO;
    AGREE(ansak::isUcs2(p, pr), w); AGREE(ansak::isUcs2(s, pr), w);
}
static void check32(const Vec& v, const std::vector<Cond>& cs, const EncodingCheckPredicate& pr, const Ucd& u)
{
    Z32 z(v); const char32_t* p = z; std::u32string s = t32(v);
    bool all = allSatisfy(u, cs, v);
    for (int t = 0; t < NTARGETS; ++t)
    {
        Tri w = model::isUcs4(v, t) && all ? YES : NO;
        AGREE(ansak::isUcs4(p, (RangeType)t, pr), w); AGREE(ansak::isUcs4(s, (RangeType)t, pr), w);
    }
    int t = UCS4; Tri w = model::isUcs4(v, t) && all ? YES : NO;
    AGREE(ansak::isUcs4(p, pr), w); AGREE(ansak::isUcs4(s, pr), w);
}
static void note(Obs& o, const std::vector<Cond>& cs, bool any)
{
    size_t n = 0; for (const Cond& c : cs) if (validType(c.type)) ++n;
    o.nt(n > 0 && any);
    o.cls(n == 0 ? "empty predicate" : n == 1 ? "one condition" : "several conditions");
    if (contradictory(cs)) o.cls("contradictory predicate");
}
// p0: how the predicate is put together; p1..: conditions; s0: characters
static void p07text(const Case& c, Obs& o)
{
    const Ucd& u = ucd(ucdVersion());
    Vec cps = cleanCps(cut(c.S(0)), 0x7fffffff);
    auto cs = conds(c, 1);
    EncodingCheckPredicate pr = build(cs, (int)c.P(0) & 3);
    note(o, cs, !cps.empty());
    if (!cs.empty()) o.cls(allSatisfy(u, cs, cps) ? "satisfied by all" : "not satisfied by all");
    check8(encUtf8(cps), cs, pr, u);
    if (allFit(cps, UTF16))
    {
        check16(encUtf16(cps), cs, pr, u);
        // halves written out in UTF-8
        Vec h; bool any = false;
        for (uint32_t x : cps) { if (x >= 0x10000) { Vec q; putUtf16(q, x); putUtf8(h, q[0], 3); putUtf8(h, q[1], 3); any = true; } else putUtf8(h, x); }
        if (any) check8(h, cs, pr, u);
    }
    check32(cps, cs, pr, u);
}
static void p07raw(const Case& c, Obs& o)
{
    const Ucd& u = ucd(ucdVersion());
    Vec v = cut(c.S(0));
    auto cs = conds(c, 2);
    EncodingCheckPredicate pr = build(cs, (int)c.P(0) & 3);
    note(o, cs, !v.empty());
    switch (c.P(1) % 3)
    {
    case 0: { Vec b; for (uint32_t x : v) b.push_back((x & 0xff) ? x & 0xff : 1); check8(b, cs, pr, u); break; }
    case 1: { Vec b; for (uint32_t x : v) b.push_back((x & 0xffff) ? x & 0xffff : 1); check16(b, cs, pr, u); break; }
    default: check32(v, cs, pr, u);
    }
}
// the algebra of predicates: order, repetition, empty and invalid conditions, equality, in place
static void p07algebra(const Case& c, Obs& o)
{
    const Ucd& u = ucd(ucdVersion());
    auto cs = conds(c, 1);
    note(o, cs, true);
    EncodingCheckPredicate a = build(cs, (int)c.P(0) & 3), b = buildInPlace(cs);
    std::vector<Cond> mixed = cs;
    std::reverse(mixed.begin(), mixed.end());
    for (const Cond& k : cs) { mixed.push_back(k); mixed.push_back(Cond{ !k.want, 0 }); mixed.push_back(Cond{ k.want, 77 }); }
    EncodingCheckPredicate m = build(mixed, (int)(c.P(0) >> 2) & 3);
    bool contra = contradictory(cs);
    if (!contra)
    {
        REQUIRE(a == b && b == a && !(a != b), "predicates %s built in two ways are not equal", showConds(cs).c_str());
        REQUIRE(a == m && !(a != m), "predicate %s is not equal to %s", showConds(cs).c_str(), showConds(mixed).c_str());
        bool none = true; for (const Cond& k : cs) none = none && !validType(k.type);
        REQUIRE((a == EncodingCheckPredicate()) == none, "predicate %s compares wrongly to the empty one", showConds(cs).c_str());
        // one more condition makes it another predicate
        for (int t = 1; t <= 4; ++t)
        {
            bool used = false; for (const Cond& k : cs) used = used || k.type == t;
            if (used) continue;
            EncodingCheckPredicate x = a, y = a; x.andIf((EncodingType)t); y.andIfNot((EncodingType)t);
            REQUIRE(x != a && y != a && x != y, "predicate %s with a condition on %d added compares equal to another", showConds(cs).c_str(), t);
        }
    }
    EncodingCheckPredicate copy = a;
    for (uint32_t x : c.S(0))
    {
        bool w = satisfies(u, cs, x);
        REQUIRE(a((char32_t)x) == w && b((char32_t)x) == w && m((char32_t)x) == w && copy((char32_t)x) == w, "predicate %s on char32_t %x is not %d (Unicode %d)", showConds(cs).c_str(), x, w, ucdVersion());
        uint32_t x16 = x & 0xffff; w = satisfies(u, cs, x16);
        REQUIRE(a((char16_t)x16) == w && b((char16_t)x16) == w && m((char16_t)x16) == w, "predicate %s on char16_t %x is not %d (Unicode %d)", showConds(cs).c_str(), x16, w, ucdVersion());
        uint32_t x8 = x & 0xff; w = satisfies(u, cs, x8);
        REQUIRE(a((char)x8) == w && b((char)x8) == w && m((char)x8) == w, "predicate %s on char %x is not %d (Unicode %d)", showConds(cs).c_str(), x8, w, ucdVersion());
    }
}
static Vec gen16or8or32(Rng& r, int w) { return w == 0 ? gen::u8(r) : w == 1 ? gen::u16(r) : gen::u32(r); }
#if WANT(7)
static Prop* mk07()
{
    Prop* p = new Prop; p->id = "P07";
    p->rule = "the predicate has at least one valid condition and the text is not empty";
    Kind k; k.name = "text"; k.widths = { 4 }; k.params = 4; k.weight = 20; k.check = p07text;
    k.gen = [](Rng& r) {
        Case c; c.p.push_back(r.below(4));
        int n = r.below(4); while (n--) c.p.push_back(genCond(r));
        c.s.push_back(gen::text(r, r.chance(1, 6) ? 0x7fffffff : r.chance(1, 3) ? 0xffff : 0x10ffff));
        // texts that satisfy the predicate but for one character
        if (r.chance(1, 2))
        {
            auto cs = conds(c, 1); const Ucd& u = ucd(ucdVersion()); Vec t;
            for (uint32_t x : c.s[0]) { for (int tries = 0; tries < 6 && !satisfies(u, cs, x); ++tries) x = gen::cp(r, 0x10ffff); t.push_back(x); }
            if (!t.empty() && r.chance(1, 2)) t[r.below((uint32_t)t.size())] = gen::cp(r, 0x10ffff);
            c.s[0] = t;
        }
        return c;
    };
    // characters at the edges of the classes, before and after others, with each single condition
    k.enumSize = [](int level) { return (uint64_t)assignedEdges().size() * (level ? 8 * 3 : 1); };
    k.enumAt = [](uint64_t i, int level) {
        Case c; const Vec& E = assignedEdges(); uint32_t x = E[i % E.size()]; uint64_t q = level ? i / E.size() : i;
        c.p = { (int64_t)(i & 3), (int64_t)(2 + q % 8) };
        uint64_t w = level ? q / 8 : i % 3;
        c.s.push_back(w == 0 ? Vec{ x } : w == 1 ? Vec{ 'a', x } : Vec{ 0x1f600, x, 'b' });
        return c;
    };
    p->kinds.push_back(k);
    Kind w; w.name = "raw"; w.widths = { 4 }; w.params = 4; w.weight = 8; w.check = p07raw;
    w.gen = [](Rng& r) { Case c; int q = r.below(3); c.p = { (int64_t)r.below(4), (int64_t)q }; int n = 1 + r.below(2); while (n--) c.p.push_back(genCond(r)); c.s.push_back(gen16or8or32(r, q)); return c; };
    p->kinds.push_back(w);
    Kind l = k; l.name = "text-long"; l.weight = 1; l.costly = 20;
    // long texts all of whose characters satisfy the predicate, but perhaps the last or the first
    l.enumSize = [](int level) { return gen::enumLen(level) / (level ? 1 : 12); };
    l.enumAt = [](uint64_t i, int level) {
        Case c; Vec t = gen::enumLenAt(level ? i : i * 12 + i % 12, level, 0x10ffff);
        if (t.size() > 70000) t.resize(70000);
        c.p = { (int64_t)(i & 3), i & 1 ? 3 : 6 };     // assigned; not control
        if (!t.empty() && i % 3 == 1) t.back() = 0x378; else if (!t.empty() && i % 3 == 2) t[t.size() / 2] = 0x85;
        c.s.push_back(t);
        return c;
    };
    l.gen = [](Rng& r) { Case c; c.p = { (int64_t)r.below(4), genCond(r) }; c.s.push_back(gen::longText(r, 0x10ffff)); if (c.s[0].size() > 5000) c.s[0].resize(5000); return c; };
    p->kinds.push_back(l);
    Kind a; a.name = "algebra"; a.widths = { 4 }; a.params = 5; a.weight = 10; a.check = p07algebra;
    a.gen = [](Rng& r) { Case c; c.p.push_back(r.below(16)); bool many = r.chance(1, 16); int64_t x = genCond(r), y = r.chance(1, 2) ? x : genCond(r); int n = r.below(many ? 300 : 7); while (n--) c.p.push_back(!many ? genCond(r) : r.chance(1, 2) ? x : y); Vec v; for (int i = 0; i < 6; ++i) v.push_back(gen::cp(r, 0xffffffff)); v.push_back(r.below(0x20)); v.push_back(0xd800 + r.below(0x800)); c.s.push_back(v); return c; };
    // every list of up to three conditions
    a.enumSize = [](int) { return (uint64_t)11 * 11 * 11; };
    a.enumAt = [](uint64_t i, int) {
        Case c; c.p = { (int64_t)(i % 16), (int64_t)(i % 11), (int64_t)(i / 11 % 11), (int64_t)(i / 121 % 11) };
        c.s.push_back(Vec{ 0, 9, 0x1f, ' ', 'a', 0x7f, 0x85, 0x9f, 0xa0, 0x378, 0x1680, 0x2028, 0x3000, 0xd800, 0xe000, 0xf8ff, 0xffff, 0x10000, 0x1f600, 0xe0fff, 0xf0000, 0xffffd, 0xffffe, 0x10fffd, 0x10ffff, 0x110000, 0x80000041, 0xffffffff });
        return c;
    };
    p->kinds.push_back(a);
    return p;
}
static Register r07(mk07());
#endif

//////////////////////////////////////////////////////////////// P08

static void p08one(uint32_t x, Obs& o)
{
    const Ucd& u = ucd(ucdVersion());
    static EncodingCheckPredicate is[5], isNot[5];
    static bool once = false;
    if (!once) { once = true; for (int k = 1; k <= 4; ++k) { is[k] = validIf((EncodingType)k); isNot[k] = validIfNot((EncodingType)k); } }
    for (int k = 1; k <= 4; ++k)
    {
        bool w = inClass(u, k, x);
        REQUIRE(is[k]((char32_t)x) == w && isNot[k]((char32_t)x) == !w, "char32_t %x is reported %s: %d (Unicode %d)", x, kClassName[k], !w, ucdVersion());
        if (w) o.cls(kClassName[k]);
        if (x < 0x10000) REQUIRE(is[k]((char16_t)x) == w && isNot[k]((char16_t)x) == !w, "char16_t %x is reported %s: %d (Unicode %d)", x, kClassName[k], !w, ucdVersion());
        if (x < 0x100) REQUIRE(is[k]((char)x) == w && isNot[k]((char)x) == !w, "char %x is reported %s: %d (Unicode %d)", x, kClassName[k], !w, ucdVersion());
    }
    if (x > 0x10ffff) o.cls("above 10FFFF");
}
static void p08(const Case& c, Obs& o)
{
    for (uint32_t x : c.S(0)) { p08one(x, o); o.nt(x >= 0x80); }
    std::string v = getUnicodeVersionSupported();
    REQUIRE(v == std::to_string(ucdVersion()) + ".0.0", "version %s is reported by a build for Unicode %d", v.c_str(), ucdVersion());
}
#if WANT(8)
static Prop* mk08()
{
    Prop* p = new Prop; p->id = "P08";
    p->rule = "the values classified include one above 7F";
    Kind k; k.name = "value"; k.widths = { 4 }; k.params = 0; k.weight = 1; k.check = p08;
    // 64 values to a case; quick: everything to 11FFFF, then 16 values around each multiple of 0x10000; thorough: all of 2^32
    k.enumSize = [](int level) { return level ? (uint64_t)1 << 24 : (uint64_t)0x120000 / 64 + 65536 / 4; };
    k.enumAt = [](uint64_t i, int level) {
        Case c; Vec v;
        if (level) { for (uint32_t j = 0; j < 256; ++j) v.push_back((uint32_t)(i * 256) + j); }
        else if (i < 0x120000 / 64) { for (uint32_t j = 0; j < 64; ++j) v.push_back((uint32_t)i * 64 + j); }
        else { i -= 0x120000 / 64; for (uint32_t q = 0; q < 4; ++q) for (uint32_t j = 0; j < 16; ++j) v.push_back((uint32_t)((i * 4 + q) << 16) + j - 8); }
        c.s.push_back(v);
        return c;
    };
    k.gen = [](Rng& r) {
        Case c; Vec v;
        for (int i = 0; i < 24; ++i)
        {
            uint32_t x = r.chance(1, 2) ? gen::cp(r, 0xffffffff) : r.pick(assignedEdges());
            if (r.chance(1, 3)) x |= r.below(0x800) << 21;      // the same low bits, out of range
            if (r.chance(1, 8)) x ^= 1u << r.below(32);
            v.push_back(x);
        }
        c.s.push_back(v);
        return c;
    };
    p->kinds.push_back(k);
    return p;
}
static Register r08(mk08());
#endif

//////////////////////////////////////////////////////////////// lower-casing and its listed findings

static std::string lowerKey(uint32_t x, uint32_t got)
{
    char b[64]; snprintf(b, sizeof b, "P09 unicode=%d toLower(%X)=%X", ucdVersion(), x, got);
    return b;
}
// what a single character becomes; where a listed finding applies, what it is listed to become
static uint32_t lowerOf(Obs& o, uint32_t x, bool turkic)
{
    uint32_t w = lower(ucd(ucdVersion()), x, turkic);
    static std::map<uint32_t, uint32_t> listed;     // filled as met
    static std::set<uint32_t> clean;
    if (x < 0x80 || clean.count(x)) return w;
    auto it = listed.find(x);
    if (it != listed.end()) return it->second;
    uint32_t g = V(toLower(std::u32string(1, (char32_t)x)))[0];
    if (g != w && knownFinding(o, lowerKey(x, g))) { listed[x] = g; return g; }
    if (clean.size() < 100000) clean.insert(x);
    return w;
}

//////////////////////////////////////////////////////////////// P09

static void p09one(uint32_t x, Obs& o)
{
    const Ucd& u = ucd(ucdVersion());
    std::u32string s(1, (char32_t)x);
    static const char* const turk[] = { "tr", "az", "kk", "tt", "tur", "aze", "azj", "azb", "kaz", "tat" };
    std::u32string a = toLower(s), b = toLower(s, turk[x % 10]), e = toLower(s, x & 1 ? "en" : "de");
    REQUIRE(a.size() == 1 && b.size() == 1 && e.size() == 1, "toLower(%x) gives %zu characters (Unicode %d)", x, a.size(), ucdVersion());
    uint32_t w = lower(u, x, false), wt = lower(u, x, true);
    if ((uint32_t)a[0] != w)
    {
        if (knownFinding(o, lowerKey(x, (uint32_t)a[0])))
        {
            o.cls("listed finding");
            REQUIRE(b == a && e == a, "toLower(%x) differs by language (Unicode %d)", x, ucdVersion());
            return;
        }
        failf("toLower(%x) is %x, expected %x (Unicode %d)", x, (uint32_t)a[0], w, ucdVersion());
    }
    REQUIRE((uint32_t)e[0] == w, "toLower(%x, other language) is %x, expected %x (Unicode %d)", x, (uint32_t)e[0], w, ucdVersion());
    REQUIRE((uint32_t)b[0] == wt, "toLower(%x, Turkic) is %x, expected %x (Unicode %d)", x, (uint32_t)b[0], wt, ucdVersion());
    if (w != x) o.cls("has a lower-case form"); else o.cls("unchanged");
    if (x > 0x10ffff) o.cls("above 10FFFF");
}
static void p09(const Case& c, Obs& o) { for (uint32_t x : c.S(0)) { if (!x) continue; p09one(x, o); o.nt(x >= 0x41); } }
#if WANT(9)
static Prop* mk09()
{
    Prop* p = new Prop; p->id = "P09";
    p->rule = "the characters lower-cased include one at or above 41";
    Kind k; k.name = "value"; k.widths = { 4 }; k.params = 0; k.weight = 1; k.check = p09;
    k.enumSize = [](int level) { return level ? (uint64_t)0x110000 / 64 + 65536 : (uint64_t)0x110000 / 64 + 8192; };
    k.enumAt = [](uint64_t i, int level) {
        Case c; Vec v;
        if (i < 0x110000 / 64) for (uint32_t j = 0; j < 64; ++j) v.push_back((uint32_t)i * 64 + j);
        else
        {
            // out of range: the low bits of cased letters under other high bits
            i -= 0x110000 / 64; const Vec& L = casedLetters();
            uint64_t step = level ? 1 : 8;
            for (uint32_t j = 0; j < 32; ++j) v.push_back(L[(size_t)((i * 37 + j * 101) % L.size())] | (uint32_t)(((i * step) & 0x7ff) << 21) | 0x200000u);
            for (uint32_t j = 0; j < 8; ++j) v.push_back((uint32_t)((i * step) << 16) + j * 0x2011 + 0x41 > 0x10ffff ? (uint32_t)((i * step) << 16) + j * 0x2011 + 0x41 : 0x110041);
        }
        c.s.push_back(v);
        return c;
    };
    k.gen = [](Rng& r) {
        Case c; Vec v;
        for (int i = 0; i < 16; ++i)
        {
            uint32_t x = r.chance(1, 2) ? r.pick(casedLetters()) : gen::cp(r, 0xffffffff);
            if (r.chance(1, 3)) x ^= 1u << r.below(32);
            v.push_back(x);
        }
        c.s.push_back(v);
        return c;
    };
    p->kinds.push_back(k);
    return p;
}
static Register r09(mk09());
#endif

//////////////////////////////////////////////////////////////// P10

struct Lang {
    bool null; Vec bytes; std::unique_ptr<Z8> z; bool turkic;
    Lang(bool n, const Vec& b) : null(n), bytes(cut(b)), z(new Z8(bytes)), turkic(!n && isTurkic(s8(bytes))) {}
    const char* p() const { return null ? nullptr : (const char*)*z; }
};
static Vec lowered(Obs& o, const Vec& cps, bool turkic) { Vec r; for (uint32_t x : cps) r.push_back(lowerOf(o, x, turkic)); return r; }
static void eq(const char* what, const Vec& src, const Lang& l, const Vec& got, const Vec& want)
{
    REQUIRE(got == want, "%s of %s in language %s gives %s, expected %s (Unicode %d)", what, show(src).c_str(), l.null ? "null" : show(l.bytes).c_str(), show(got).c_str(), show(want).c_str(), ucdVersion());
}
static void p10text(const Case& c, Obs& o)
{
    Vec cps = cleanCps(cut(c.S(0)), 0xffffffff);
    Lang l(c.P(0) % 4 == 0, c.S(1));
    Vec want = lowered(o, cps, l.turkic);
    o.nt(want != cps);
    o.cls(l.null ? "no language" : l.turkic ? "Turkic language" : "other language");
    if (cps.size() >= 256) o.cls("256 characters or more");
    std::u32string s4 = s32(cps), r4 = toLower(s4, l.p());
    eq("toLower(UCS-4)", cps, l, V(r4), want);
    eq("toLower(UCS-4) again", cps, l, V(toLower(r4, l.p())), want);
    if (allFit(cps, UTF8))
    {
        Vec v = encUtf8(cps); std::string s = t8(v), r = toLower(s, l.p());
        eq("toLower(UTF-8)", v, l, V(r), encUtf8(want));
        eq("toLower(UTF-8) again", v, l, V(toLower(r, l.p())), encUtf8(want));
        if (l.null) eq("toLower(UTF-8) without language", v, l, V(toLower(s)), encUtf8(want));
    }
    if (allFit(cps, UTF16))
    {
        Vec v = encUtf16(cps); std::u16string s = t16(v), r = toLower(s, l.p());
        eq("toLower(UTF-16)", v, l, V(r), encUtf16(want));
        eq("toLower(UTF-16) again", v, l, V(toLower(r, l.p())), encUtf16(want));
        if (l.null) eq("toLower(UTF-16) without language", v, l, V(toLower(s)), encUtf16(want));
    }
    if (l.null) eq("toLower(UCS-4) without language", cps, l, V(toLower(s4)), want);
    if (cps.size() < 64 && c.P(0) % 8 < 5)      // a UCS-4 string is as long as its size says: a null is a character like any other
    {
        Vec v = cps, w = want; size_t at = cps.empty() ? 0 : (size_t)(c.P(0) / 8) % (cps.size() + 1);
        v.insert(v.begin() + at, 0); w.insert(w.begin() + at, 0);
        eq("toLower(UCS-4)", v, l, V(toLower(s32(v), l.p())), w);
        o.cls("with a null");
    }
}
static void p10lang(const Case& c, Obs& o)
{
    Lang l(false, c.S(0));
    o.nt(!l.bytes.empty());
    o.cls(l.turkic ? "Turkic code" : "other code");
    static const Vec t = { 'I', 0x130, 'i', 0x131, 'A', 'I' };
    Vec want = lowered(o, t, l.turkic);
    eq("toLower(UCS-4)", t, l, V(toLower(s32(t), l.p())), want);
    eq("toLower(UTF-8)", t, l, V(toLower(s8(encUtf8(t)), l.p())), encUtf8(want));
    eq("toLower(UTF-16)", t, l, V(toLower(s16(t), l.p())), want);
}
static void p10raw(const Case& c, Obs& o)
{
    Lang l(c.P(0) % 3 == 0, c.P(0) % 3 == 1 ? Vec{ 't', 'r' } : Vec{ 'e', 'n' });
    if (c.P(1) & 1)
    {
        Vec v; for (uint32_t x : cut(c.S(0))) v.push_back((x & 0xff) ? x & 0xff : 1);
        Decoded d = decUtf8(v);
        o.cls(stateName(d)); o.nt(d.state != CLEAN);
        Vec got = V(toLower(t8(v), l.p()));
        if (d.state == BROKEN) { eq("toLower(UTF-8)", v, l, got, Vec()); return; }
        eq("toLower(UTF-8)", v, l, got, encUtf8(lowered(o, d.cps, l.turkic)));
    }
    else
    {
        Vec v; for (uint32_t x : cut(c.S(0))) v.push_back((x & 0xffff) ? x & 0xffff : 1);
        Decoded d = decUtf16(v);
        o.cls(stateName(d)); o.nt(d.state != CLEAN);
        Vec got = V(toLower(t16(v), l.p()));
        eq("toLower(UTF-16)", v, l, got, d.state == BROKEN ? Vec() : encUtf16(lowered(o, d.cps, l.turkic)));
    }
}
static const std::vector<std::string>& codes()
{
    static const std::vector<std::string> c = { "az", "aze", "azj", "azb", "kk", "kaz", "tt", "tat", "tr", "tur", "en", "de", "ru", "aza", "tu", "ka", "tra", "TR", "tr-TR", "tr_TR", "az-Latn", "crh", "uz", "lt" };
    return c;
}
static Vec genLang(Rng& r)
{
    Vec v = V(codes()[r.below((uint32_t)codes().size())]);
    if (!gen::novelStrings().empty() && r.chance(1, 4)) { v = r.pick(gen::novelStrings()); for (uint32_t& x : v) x &= 0xff; }
    if (v.empty()) v.push_back('t');
    if (r.chance(1, 3))
        switch (r.below(5))
        {
        case 0: v.push_back(1 + r.below(255)); break;
        case 1: v[r.below((uint32_t)v.size())] ^= 1u << r.below(8); break;
        case 2: v.pop_back(); break;
        case 3: { Vec w = V(codes()[r.below((uint32_t)codes().size())]); v.insert(v.end(), w.begin(), w.end()); break; }
        default: v.insert(v.begin(), 1 + r.below(255)); break;
        }
    if (r.chance(1, 12)) { size_t n = 4 + r.below(r.chance(1, 3) ? 400 : 40); while (v.size() < n) v.push_back(r.chance(1, 8) ? '-' : 'a' + r.below(26)); }
    return v;
}
#if WANT(10)
static Prop* mk10()
{
    Prop* p = new Prop; p->id = "P10";
    p->rule = "lower-casing changes the text, the text is malformed or cut short, or the language code is not empty";
    Kind k; k.name = "text"; k.widths = { 1, 4 }; k.params = 1; k.weight = 20;
    // string 0 is the language for the fuzzer's sake (the last string takes the rest of its input)
    k.check = [](const Case& c, Obs& o) { Case d = c; d.s = { c.S(1), c.S(0) }; p10text(d, o); };
    k.gen = [](Rng& r) {
        Case c; c.p.push_back(r.below(4));
        Vec t = gen::text(r, r.chance(1, 8) ? 0xffffffff : r.chance(1, 5) ? 0x7f : 0x10ffff);
        for (uint32_t& x : t) if (r.chance(1, 3)) x = r.chance(1, 5) ? 'I' : r.pick(casedLetters());
        c.s = { genLang(r), t };
        return c;
    };
    k.enumSize = [](int level) { return (uint64_t)casedLetters().size() * 2 + gen::enumLen(0) / (level ? 1 : 7); };
    k.enumAt = [](uint64_t i, int level) {
        Case c; const Vec& L = casedLetters();
        c.p.push_back((int64_t)(i & 1));
        if (i < L.size() * 2) c.s = { Vec{ 't', 'r' }, Vec{ 'x', L[i / 2], 0x1f600, 'I', L[(i * 7) % L.size()] } };
        else c.s = { Vec{ 'k', 'k' }, gen::enumLenAt((i - L.size() * 2) * (level ? 1 : 7), 0, 0x10ffff) };
        return c;
    };
    p->kinds.push_back(k);
    Kind l; l.name = "language"; l.widths = { 1 }; l.params = 0; l.weight = 6; l.check = p10lang;
    l.gen = [](Rng& r) { Case c; c.s.push_back(genLang(r)); return c; };
    // every code of up to three letters, and every one-byte change or one-byte extension of the ten codes
    l.enumSize = [](int) { return (uint64_t)27 * 27 * 27 + 10 * 4 * 256 + 10 * 256; };
    l.enumAt = [](uint64_t i, int) {
        Case c; Vec v;
        if (i < 27 * 27 * 27) { for (int j = 0; j < 3; ++j) { uint32_t x = i % 27; i /= 27; if (x) v.push_back('a' + x - 1); } }
        else
        {
            i -= 27 * 27 * 27; uint32_t b = i % 256; i /= 256;
            if (i < 40) { v = V(codes()[i / 4]); if (i % 4 < v.size()) { v[i % 4] = b; v = cut(v); } else if (b) v.push_back(b); }
            else { v = V(codes()[i - 40]); if (b) v.insert(v.begin(), b); }
        }
        c.s.push_back(v);
        return c;
    };
    p->kinds.push_back(l);
    Kind w; w.name = "raw"; w.widths = { 2 }; w.params = 2; w.weight = 6; w.check = p10raw;
    w.gen = [](Rng& r) { Case c; int b = r.below(2); c.p = { (int64_t)r.below(3), (int64_t)b }; c.s.push_back(b ? gen::u8(r) : gen::u16(r)); return c; };
    p->kinds.push_back(w);
    Kind g = k; g.name = "text-long"; g.weight = 1; g.costly = 20; g.enumSize = nullptr; g.enumAt = nullptr;
    g.gen = [](Rng& r) { Case c; c.p.push_back(r.below(4)); Vec t = gen::longText(r, 0x10ffff); if (t.size() > 9000) t.resize(9000); t[r.below((uint32_t)t.size())] = r.pick(casedLetters()); c.s = { genLang(r), t }; return c; };
    p->kinds.push_back(g);
    return p;
}
static Register r10(mk10());
#endif
