// Validation, conversion, counting, decoding: P01-P06, P11, P12, P20.
#include "lib.hpp"
#include "internal/string_decode_utf8.hxx"

using namespace model;

static const char* const kTargetName[] = { "kAscii", "kUtf8", "kUcs2", "kUtf16", "kUcs4", "kUnicode" };

static const char* const kValidated[] = { "validated for kAscii", "validated for kUtf8", "validated for kUcs2", "validated for kUtf16", "validated for kUcs4", "validated for kUnicode" };

static Vec lenText8(uint64_t i, int level) { return encUtf8(gen::enumLenAt(i, level, 0x10ffff)); }
static Vec lenText16(uint64_t i, int level) { return encUtf16(gen::enumLenAt(i, level, 0x10ffff)); }
static Vec lenText32(uint64_t i, int level) { return gen::enumLenAt(i, level, 0x10ffff); }

static void sizes(Obs& o, const Vec& v)
{
    if (v.size() >= 256) o.cls("256 units or more");
}

// generators every encoding property shares: enumerated small strings, random, long, all lengths
static void add8(Prop* p, int params, uint64_t stride, const std::function<void(const Case&, Obs&)>& f)
{
    Kind k = strKind("utf8", 1, 10, gen::u8, params, f); enumWith(k, gen::enumU8, gen::enumU8At, stride); p->kinds.push_back(k);
    Kind l = strKind("utf8-long", 1, 0, gen::u8Long, params, f); l.weight = 1; l.costly = 20; p->kinds.push_back(l);
    Kind n = strKind("utf8-length", 1, 0, gen::u8Long, params, f); n.gen = nullptr; enumWith(n, gen::enumLen, lenText8); p->kinds.push_back(n);
}
static void add16(Prop* p, int params, uint64_t stride, const std::function<void(const Case&, Obs&)>& f)
{
    Kind k = strKind("utf16", 2, 10, gen::u16, params, f); enumWith(k, gen::enumU16, gen::enumU16At, stride); p->kinds.push_back(k);
    Kind l = strKind("utf16-long", 2, 0, gen::u16Long, params, f); l.weight = 1; l.costly = 20; p->kinds.push_back(l);
    Kind n = strKind("utf16-length", 2, 0, gen::u16Long, params, f); n.gen = nullptr; enumWith(n, gen::enumLen, lenText16); p->kinds.push_back(n);
}
static void add32(Prop* p, int params, uint64_t stride, const std::function<void(const Case&, Obs&)>& f)
{
    Kind k = strKind("ucs4", 4, 10, gen::u32, params, f); enumWith(k, gen::enumU32, gen::enumU32At, stride); p->kinds.push_back(k);
    Kind l = strKind("ucs4-long", 4, 0, gen::u32Long, params, f); l.weight = 1; l.costly = 20; p->kinds.push_back(l);
    Kind n = strKind("ucs4-length", 4, 0, gen::u32Long, params, f); n.gen = nullptr; enumWith(n, gen::enumLen, lenText32); p->kinds.push_back(n);
}

//////////////////////////////////////////////////////////////// P01 validation implies conversion

static void same(const char* what, const Vec& src, const Vec& got, const Vec& want)
{
    REQUIRE(got == want, "%s of %s gives %s, expected %s", what, show(src).c_str(), show(got).c_str(), show(want).c_str());
}

// after validation said yes: the conversion must hold exactly the complete characters
static void mustConvert(const char* what, const Vec& src, const Decoded& d, const Vec& got, const Vec& want)
{
    if (d.state == BROKEN)
    {
        REQUIRE(!got.empty() || src.empty(), "%s is empty for %s, which passed validation", what, show(src).c_str());
        return;
    }
    same(what, src, got, want);
}

static void p01u8(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z8 z(v);
    Decoded d = decUtf8(v);
    o.cls(stateName(d)); sizes(o, v);
    EncodingCheckPredicate pred = c.P(0) % 3 == 0 ? validIf(kIsAssigned) : c.P(0) % 3 == 1 ? validIfNot(kIsControl) : EncodingCheckPredicate();
    for (int t = 0; t < NTARGETS; ++t)
    {
        bool ok = isUtf8((const char*)z, (RangeType)t) || isUtf8(t8(v), (RangeType)t, pred);
        if (!ok) continue;
        if (!d.cps.empty()) o.nt();
        o.cls(kValidated[t]);
        uint32_t m = targetMax(t);
        bool fit16 = m <= 0x10ffff || allFit(d.cps, UTF16);
        mustConvert("toUcs4", v, d, V(toUcs4((const char*)z)), d.cps);
        mustConvert("toUtf8(toUcs4)", v, d, V(toUtf8(toUcs4(t8(v)))), encUtf8(d.cps));
        if (fit16)
        {
            mustConvert("toUtf16", v, d, V(toUtf16((const char*)z)), encUtf16(d.cps));
            mustConvert("toUtf16", v, d, V(toUtf16(t8(v))), encUtf16(d.cps));
        }
        if (m <= 0xffff) mustConvert("toUcs2", v, d, V(toUcs2((const char*)z)), d.cps);
    }
    if (isWstring((const char*)z)) mustConvert("toWstring", v, d, V(toWstring((const char*)z)), d.cps);
    if (!v.empty())
    {
        Z8 e(v, false);
        if (isUtf8((const char*)e, (unsigned int)v.size())) mustConvert("toUcs4", v, d, V(toUcs4((const char*)z)), d.cps);
    }
}

static void p01u16(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z16 z(v);
    Decoded d = decUtf16(v);
    o.cls(stateName(d)); sizes(o, v);
    for (int t = 0; t < NTARGETS; ++t)
    {
        bool ok = isUtf16((const char16_t*)z, (RangeType)t), ok2 = isUcs2((const char16_t*)z, (RangeType)t);
        if (!ok && !ok2) continue;
        if (!d.cps.empty()) o.nt();
        o.cls(kValidated[t]);
        mustConvert("toUtf8", v, d, V(toUtf8((const char16_t*)z)), encUtf8(d.cps));
        mustConvert("toUcs4", v, d, V(toUcs4((const char16_t*)z)), d.cps);
        mustConvert("toUtf8", v, d, V(toUtf8(t16(v))), encUtf8(d.cps));
        mustConvert("toUcs4", v, d, V(toUcs4(t16(v))), d.cps);
        mustConvert("toUtf16(toUtf8)", v, d, V(toUtf16(toUtf8(t16(v)))), encUtf16(d.cps));
        if (t == UCS2 || ok2)
        {
            mustConvert("toUcs2(toUtf8)", v, d, V(toUcs2(toUtf8((const char16_t*)z))), d.cps);
            mustConvert("toUcs2(toUcs4)", v, d, V(toUcs2(toUcs4((const char16_t*)z))), d.cps);
        }
    }
    if (isWstring((const char16_t*)z)) mustConvert("toWstring", v, d, V(toWstring((const char16_t*)z)), d.cps);
}

static void p01u32(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z32 z(v);
    Decoded d; d.cps = v;
    for (uint32_t x : v) if (isSurrogate(x)) { d.state = BROKEN; break; }
    o.cls(stateName(d)); sizes(o, v);
    for (int t = 0; t < NTARGETS; ++t)
    {
        if (!isUcs4((const char32_t*)z, (RangeType)t)) continue;
        if (!v.empty()) o.nt();
        o.cls(kValidated[t]);
        uint32_t m = targetMax(t);
        if (m <= 0x7fffffff)
        {
            mustConvert("toUtf8", v, d, V(toUtf8((const char32_t*)z)), encUtf8(d.cps));
            mustConvert("toUtf8", v, d, V(toUtf8(t32(v))), encUtf8(d.cps));
            mustConvert("toUcs4(toUtf8)", v, d, V(toUcs4(toUtf8(t32(v)))), d.cps);
        }
        if (m <= 0x10ffff)
        {
            mustConvert("toUtf16", v, d, V(toUtf16((const char32_t*)z)), encUtf16(d.cps));
            mustConvert("toUtf16", v, d, V(toUtf16(t32(v))), encUtf16(d.cps));
        }
        if (m <= 0xffff)
        {
            mustConvert("toUcs2", v, d, V(toUcs2((const char32_t*)z)), d.cps);
            mustConvert("toUcs2", v, d, V(toUcs2(t32(v))), d.cps);
        }
    }
    if (isWstring((const char32_t*)z)) mustConvert("toWstring", v, d, V(toWstring((const char32_t*)z)), d.cps);
    wstr w = tw(v);
    if (isUtf8(w)) mustConvert("toUtf8(wide)", v, d, V(toUtf8(w)), encUtf8(d.cps));
    if (isUtf16(w)) mustConvert("toUtf16(wide)", v, d, V(toUtf16(w)), encUtf16(d.cps));
    if (isUcs2(w)) mustConvert("toUcs2(wide)", v, d, V(toUcs2(w)), d.cps);
    if (isUcs4(w)) mustConvert("toUcs4(wide)", v, d, V(toUcs4(w)), d.cps);
}

#if WANT(1)
static Prop* mk01()
{
    Prop* p = new Prop; p->id = "P01";
    p->rule = "the string has at least one complete character and passed validation for at least one target (so a conversion was compared)";
    add8(p, 1, 6, p01u8); add16(p, 1, 12, p01u16); add32(p, 1, 3, p01u32);
    return p;
}
static Register r01(mk01());
#endif

//////////////////////////////////////////////////////////////// P02 UTF-8 validation

static void p02(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z8 z(v); std::string obj = t8(v);
    Decoded d = decUtf8(v);
    o.cls(stateName(d)); sizes(o, v);
    bool high = false; for (uint32_t b : v) high = high || b >= 0x80;
    o.nt(high);
    bool pairs = d.state == CLEAN && encUtf8(d.cps) != v;
    if (pairs) o.cls("surrogate pair in UTF-8");
    for (int t = 0; t < NTARGETS; ++t)
    {
        Tri want = model::isUtf8(d, t);
        bool got = ansak::isUtf8((const char*)z, (RangeType)t);
        if (want != EITHER)
            REQUIRE(got == (want == YES), "isUtf8(%s, %s) is %d", show(v).c_str(), kTargetName[t], got);
        bool got2 = ansak::isUtf8(obj, (RangeType)t);
        if (want != EITHER)
            REQUIRE(got2 == (want == YES), "isUtf8(string %s, %s) is %d", show(v).c_str(), kTargetName[t], got2);
        if (want == YES) o.cls("accepted"); else if (want == NO) o.cls("rejected");
    }
    Tri want = model::isUtf8(d, UTF8);
    if (want != EITHER)
    {
        REQUIRE(ansak::isUtf8((const char*)z) == (want == YES), "isUtf8(%s) without target is wrong", show(v).c_str());
        REQUIRE(ansak::isUtf8(obj) == (want == YES), "isUtf8(string %s) without target is wrong", show(v).c_str());
    }
    for (int k = 0; k < 3; ++k)
    {
        RangeType bad = badTarget(c.P(0) + 5 * k);
        REQUIRE(!ansak::isUtf8((const char*)z, bad), "isUtf8(%s, target %d) is true", show(v).c_str(), (int)bad);
        REQUIRE(!ansak::isUtf8(obj, bad), "isUtf8(string %s, target %d) is true", show(v).c_str(), (int)bad);
    }
    if (c.P(0) % 64 == 0)
        for (int t = 0; t < NTARGETS; ++t)
            REQUIRE(ansak::isUtf8((const char*)nullptr, (RangeType)t) && ansak::isUtf8(std::string(), (RangeType)t), "null or empty text is rejected for target %s", kTargetName[t]);
}
#if WANT(2)
static Prop* mk02()
{
    Prop* p = new Prop; p->id = "P02";
    p->rule = "the string contains at least one byte above 7F";
    add8(p, 1, 1, p02);
    return p;
}
static Register r02(mk02());
#endif

//////////////////////////////////////////////////////////////// P03 UTF-16, UCS-2, UCS-4 validation

static void p03u16(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z16 z(v); std::u16string obj = t16(v);
    Decoded d = decUtf16(v);
    o.cls(stateName(d)); sizes(o, v);
    for (uint32_t u : v) o.nt(u >= 0x80);
    for (int t = 0; t < NTARGETS; ++t)
    {
        bool w = model::isUtf16(d, t), w2 = model::isUcs2(v, t);
        bool g = ansak::isUtf16((const char16_t*)z, (RangeType)t), g2 = ansak::isUcs2((const char16_t*)z, (RangeType)t);
        REQUIRE(g == w, "isUtf16(%s, %s) is %d", show(v).c_str(), kTargetName[t], g);
        REQUIRE(g2 == w2, "isUcs2(%s, %s) is %d", show(v).c_str(), kTargetName[t], g2);
        REQUIRE(ansak::isUtf16(obj, (RangeType)t) == w, "isUtf16(string %s, %s) is %d", show(v).c_str(), kTargetName[t], !w);
        REQUIRE(ansak::isUcs2(obj, (RangeType)t) == w2, "isUcs2(string %s, %s) is %d", show(v).c_str(), kTargetName[t], !w2);
        o.cls(w ? "accepted" : "rejected");
    }
    REQUIRE(ansak::isUtf16((const char16_t*)z) == model::isUtf16(d, UTF16), "isUtf16(%s) without target is wrong", show(v).c_str());
    REQUIRE(ansak::isUcs2((const char16_t*)z) == model::isUcs2(v, UCS2), "isUcs2(%s) without target is wrong", show(v).c_str());
    for (int k = 0; k < 2; ++k)
    {
        RangeType bad = badTarget(c.P(0) + 5 * k);
        REQUIRE(!ansak::isUtf16((const char16_t*)z, bad), "isUtf16(%s, target %d) is true", show(v).c_str(), (int)bad);
        REQUIRE(!ansak::isUcs2((const char16_t*)z, bad), "isUcs2(%s, target %d) is true", show(v).c_str(), (int)bad);
    }
    if (c.P(0) % 64 == 0)
        for (int t = 0; t < NTARGETS; ++t)
            REQUIRE(ansak::isUtf16((const char16_t*)nullptr, (RangeType)t) && ansak::isUcs2((const char16_t*)nullptr, (RangeType)t) &&
                    ansak::isUtf16(std::u16string(), (RangeType)t) && ansak::isUcs2(std::u16string(), (RangeType)t),
                    "null or empty 16-bit text is rejected for target %s", kTargetName[t]);
}
static void p03u32(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z32 z(v); std::u32string obj = t32(v);
    sizes(o, v);
    for (uint32_t u : v) o.nt(u >= 0x80);
    for (int t = 0; t < NTARGETS; ++t)
    {
        bool w = model::isUcs4(v, t), g = ansak::isUcs4((const char32_t*)z, (RangeType)t);
        REQUIRE(g == w, "isUcs4(%s, %s) is %d", show(v).c_str(), kTargetName[t], g);
        REQUIRE(ansak::isUcs4(obj, (RangeType)t) == w, "isUcs4(string %s, %s) is %d", show(v).c_str(), kTargetName[t], !w);
        o.cls(w ? "accepted" : "rejected");
    }
    REQUIRE(ansak::isUcs4((const char32_t*)z) == model::isUcs4(v, UCS4), "isUcs4(%s) without target is wrong", show(v).c_str());
    for (int k = 0; k < 2; ++k)
    {
        RangeType bad = badTarget(c.P(0) + 5 * k);
        REQUIRE(!ansak::isUcs4((const char32_t*)z, bad), "isUcs4(%s, target %d) is true", show(v).c_str(), (int)bad);
    }
    if (c.P(0) % 64 == 0)
        for (int t = 0; t < NTARGETS; ++t)
            REQUIRE(ansak::isUcs4((const char32_t*)nullptr, (RangeType)t) && ansak::isUcs4(std::u32string(), (RangeType)t), "null or empty UCS-4 text is rejected for target %s", kTargetName[t]);
}
#if WANT(3)
static Prop* mk03()
{
    Prop* p = new Prop; p->id = "P03";
    p->rule = "the string contains at least one unit above 7F";
    add16(p, 1, 1, p03u16); add32(p, 1, 1, p03u32);
    return p;
}
static Register r03(mk03());
#endif

//////////////////////////////////////////////////////////////// P04 conversions

// judges one conversion result against the model
static void conv(const char* what, const Vec& src, const Decoded& d, int target, const Vec& got, const Vec& encoded)
{
    if (d.state == BROKEN || !allFit(d.cps, target))
    {
        REQUIRE(got.empty(), "%s of %s gives %s, expected nothing", what, show(src).c_str(), show(got).c_str());
        return;
    }
    same(what, src, got, encoded);
}

static void p04u8(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z8 z(v); std::string obj = t8(v);
    Decoded d = decUtf8(v);
    o.cls(stateName(d)); sizes(o, v);
    for (uint32_t b : v) o.nt(b >= 0x80);
    if (d.state == CLEAN) { o.cls(allFit(d.cps, UTF16) ? "fits UTF-16" : "does not fit UTF-16"); o.cls(allFit(d.cps, UCS2) ? "fits UCS-2" : "does not fit UCS-2"); }
    conv("toUcs4", v, d, UCS4, V(toUcs4((const char*)z)), d.cps);
    conv("toUtf16", v, d, UTF16, V(toUtf16((const char*)z)), encUtf16(d.cps));
    conv("toUcs2", v, d, UCS2, V(toUcs2((const char*)z)), d.cps);
    if (c.P(0) % 4 == 0)
    {
        conv("toUcs4(string)", v, d, UCS4, V(toUcs4(obj)), d.cps);
        conv("toUtf16(string)", v, d, UTF16, V(toUtf16(obj)), encUtf16(d.cps));
        conv("toUcs2(string)", v, d, UCS2, V(toUcs2(obj)), d.cps);
    }
}
static void p04u16(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z16 z(v); std::u16string obj = t16(v);
    Decoded d = decUtf16(v);
    o.cls(stateName(d)); sizes(o, v);
    for (uint32_t b : v) o.nt(b >= 0x80);
    conv("toUtf8", v, d, UTF8, V(toUtf8((const char16_t*)z)), encUtf8(d.cps));
    conv("toUcs4", v, d, UCS4, V(toUcs4((const char16_t*)z)), d.cps);
    if (c.P(0) % 4 == 0)
    {
        conv("toUtf8(string)", v, d, UTF8, V(toUtf8(obj)), encUtf8(d.cps));
        conv("toUcs4(string)", v, d, UCS4, V(toUcs4(obj)), d.cps);
    }
}
static void p04u32(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z32 z(v); std::u32string obj = t32(v);
    Decoded d; d.cps = v;
    for (uint32_t b : v) { o.nt(b >= 0x80); if (isSurrogate(b)) d.state = BROKEN; }
    o.cls(stateName(d)); sizes(o, v);
    Vec e8, e16;
    if (d.state == CLEAN && allFit(v, UTF8)) e8 = encUtf8(v);
    if (d.state == CLEAN && allFit(v, UTF16)) e16 = encUtf16(v);
    conv("toUtf8", v, d, UTF8, V(toUtf8((const char32_t*)z)), e8);
    conv("toUtf16", v, d, UTF16, V(toUtf16((const char32_t*)z)), e16);
    conv("toUcs2", v, d, UCS2, V(toUcs2((const char32_t*)z)), v);
    if (c.P(0) % 4 == 0)
    {
        conv("toUtf8(string)", v, d, UTF8, V(toUtf8(obj)), e8);
        conv("toUtf16(string)", v, d, UTF16, V(toUtf16(obj)), e16);
        conv("toUcs2(string)", v, d, UCS2, V(toUcs2(obj)), v);
    }
}
// every character in every encoding (surrogates included, as three bytes / a lone unit)
static void p04cp(const Case& c, Obs& o)
{
    const Vec& s = c.S(0);
    Vec cps = cleanCps(cut(s), 0x7fffffff);
    o.nt(!cps.empty());
    Case d; d.p.push_back(0); d.s.push_back(encUtf8(cps));
    p04u8(d, o);
    if (allFit(cps, UTF16)) { d.s[0] = encUtf16(cps); p04u16(d, o); }
    d.s[0] = cps; p04u32(d, o);
}
#if WANT(4)
static Prop* mk04()
{
    Prop* p = new Prop; p->id = "P04";
    p->rule = "the source contains at least one unit above 7F";
    add8(p, 1, 2, p04u8); add16(p, 1, 2, p04u16); add32(p, 1, 1, p04u32);
    Kind k; k.name = "character"; k.widths = { 4 }; k.params = 0; k.weight = 4;
    k.gen = [](Rng& r) { Case c; c.s.push_back(gen::text(r, 0x7fffffff)); return c; };
    k.check = p04cp;
    k.enumSize = [](int) { return gen::enumCp(); };
    k.enumAt = [](uint64_t i, int) { Case c; c.s.push_back(Vec{ gen::enumCpAt(i) }); return c; };
    p->kinds.push_back(k);
    return p;
}
static Register r04(mk04());
#endif

//////////////////////////////////////////////////////////////// P05 chains

enum { E8, E16, E2, E32, EW, NENC };
static const char* const kEncName[] = { "UTF-8", "UTF-16", "UCS-2", "UCS-4", "wide" };
static bool holds(int e, const Vec& cps)
{
    return allFit(cps, e == E8 ? UTF8 : e == E16 || e == EW ? UTF16 : e == E2 ? UCS2 : UCS4);
}
static Vec encode(int e, const Vec& cps)
{
    if (e == E8) return encUtf8(cps);
    if (e == E16) return encUtf16(cps);
    return cps;
}
struct Text {
    int enc;
    std::string a; std::u16string b; std::u32string q; wstr w;
    Vec units() const { return enc == E8 ? V(a) : enc == E16 || enc == E2 ? V(b) : enc == E32 ? V(q) : V(w); }
};
static bool step(Text& t, int to, bool ptr)
{
    Text n; n.enc = to;
    switch (t.enc)
    {
    case E8:
        if (to == E16) n.b = ptr ? toUtf16(t.a.c_str()) : toUtf16(t.a);
        else if (to == E2) n.b = ptr ? toUcs2(t.a.c_str()) : toUcs2(t.a);
        else if (to == E32) n.q = ptr ? toUcs4(t.a.c_str()) : toUcs4(t.a);
        else if (to == EW) n.w = ptr ? toWstring(t.a.c_str()) : toWstring(t.a);
        else return false;
        break;
    case E16: case E2:
        if (to == E8) n.a = ptr ? toUtf8(t.b.c_str()) : toUtf8(t.b);
        else if (to == E32) n.q = ptr ? toUcs4(t.b.c_str()) : toUcs4(t.b);
        else if (to == EW) n.w = ptr ? toWstring(t.b.c_str()) : toWstring(t.b);
        else return false;
        break;
    case E32:
        if (to == E8) n.a = ptr ? toUtf8(t.q.c_str()) : toUtf8(t.q);
        else if (to == E16) n.b = ptr ? toUtf16(t.q.c_str()) : toUtf16(t.q);
        else if (to == E2) n.b = ptr ? toUcs2(t.q.c_str()) : toUcs2(t.q);
        else if (to == EW) n.w = ptr ? toWstring(t.q.c_str()) : toWstring(t.q);
        else return false;
        break;
    case EW:
        if (to == E8) n.a = ptr ? toUtf8(t.w.c_str()) : toUtf8(t.w);
        else if (to == E16) n.b = ptr ? toUtf16(t.w.c_str()) : toUtf16(t.w);
        else if (to == E2) n.b = ptr ? toUcs2(t.w.c_str()) : toUcs2(t.w);
        else if (to == E32) n.q = ptr ? toUcs4(t.w.c_str()) : toUcs4(t.w);
        else return false;
        break;
    }
    t = n;
    return true;
}
static void p05(const Case& c, Obs& o)
{
    Vec cps = cleanCps(cut(c.S(0)), 0xffffffff);
    Text t; t.enc = (int)(((c.P(0) % NENC) + NENC) % NENC);
    if (!holds(t.enc, cps)) t.enc = E32;
    int start = t.enc;
    Vec first = encode(start, cps);
    if (start == E8) t.a = s8(first); else if (start == E16 || start == E2) t.b = s16(first); else if (start == E32) t.q = s32(first); else t.w = sw(first);
    bool uni = allFit(cps, UNICODE);
    std::string path = kEncName[start];
    size_t steps = 0, n = c.p.size() > 1 ? c.p.size() - 1 : 0;
    for (size_t i = 0; i <= n + 1; ++i)
    {
        // what is at hand must hold the text and be accepted as what it is
        Vec want = encode(t.enc, cps), got = t.units();
        REQUIRE(got == want, "%s: %s instead of %s", path.c_str(), show(got).c_str(), show(want).c_str());
        bool ok = t.enc == E8 ? ansak::isUtf8(t.a) : t.enc == E16 ? ansak::isUtf16(t.b) : t.enc == E2 ? ansak::isUcs2(t.b) : t.enc == E32 ? ansak::isUcs4(t.q) : ansak::isUcs4(t.w);
        REQUIRE(ok, "%s: %s is not accepted as %s", path.c_str(), show(got).c_str(), kEncName[t.enc]);
        if (uni && t.enc != EW)
        {
            unsigned len = t.enc == E8 ? unicodeLength(t.a) : t.enc == E32 ? unicodeLength(t.q) : unicodeLength(t.b);
            REQUIRE(len == cps.size(), "%s: %s counts %u characters, not %zu", path.c_str(), show(got).c_str(), len, cps.size());
        }
        if (i == n + 1) break;
        int to = start;
        bool ptr = false;
        if (i < n) { int64_t x = c.p[i + 1]; to = (int)(((x % NENC) + NENC) % NENC); ptr = (x / NENC) & 1; }
        if (!holds(to, cps) || to == t.enc) continue;
        if (!step(t, to, ptr))
        {
            if (i < n) continue;
            if (!step(t, E32, false) || !step(t, to, false)) continue;      // no direct way back
        }
        path += std::string(" > ") + kEncName[to];
        ++steps;
    }
    o.nt(steps >= 2 && !cps.empty());
    o.cls(("starts as " + std::string(kEncName[start])).c_str());
    o.cls(uni ? (allFit(cps, UCS2) ? "all in UCS-2" : "some above FFFF") : "some above 10FFFF");
    sizes(o, cps);
}
static Case genChain(Rng& r, Vec text)
{
    Case c;
    c.p.push_back(r.below(NENC));
    size_t n = 1 + r.below(7);
    while (n--) c.p.push_back(r.below(2 * NENC));
    c.s.push_back(text);
    return c;
}
#if WANT(5)
static Prop* mk05()
{
    Prop* p = new Prop; p->id = "P05";
    p->rule = "non-empty text taken through at least two conversions";
    Kind k; k.name = "chain"; k.widths = { 4 }; k.params = 6; k.weight = 20;
    k.gen = [](Rng& r) { return genChain(r, gen::text(r, gen::maxFor(r))); };
    k.check = p05;
    // every character along a path through every encoding that holds it
    k.enumSize = [](int level) { return gen::enumCp() * (level ? 4 : 1); };
    k.enumAt = [](uint64_t i, int level) {
        Case c; uint32_t x = gen::enumCpAt(level ? i / 4 : i); uint64_t v = level ? i % 4 : x % 4;
        static const int path[4][7] = { { E8, E16, E32, E2, E8, EW, E32 }, { E16, EW, E8, E32, E16, E8, E2 }, { E32, E8, E2, EW, E16, E32, E8 }, { EW, E2, E32, E16, E8, E32, EW } };
        for (int j = 0; j < 7; ++j) c.p.push_back(path[v][j] + (j && ((x >> j) & 1) ? NENC : 0));
        c.s.push_back(Vec{ x });
        return c;
    };
    p->kinds.push_back(k);
    Kind l = k; l.name = "chain-long"; l.weight = 1; l.costly = 20; l.enumSize = nullptr; l.enumAt = nullptr;
    l.gen = [](Rng& r) { return genChain(r, gen::longText(r, gen::maxFor(r))); };
    p->kinds.push_back(l);
    Kind n = k; n.name = "chain-length"; n.gen = nullptr;
    n.enumSize = [](int level) { return gen::enumLen(level); };
    n.enumAt = [](uint64_t i, int level) { Case c; c.p = { (int64_t)(i % NENC), E32, E8, EW, E16, E8 }; c.s.push_back(gen::enumLenAt(i, level, i % 2 ? 0x10ffff : 0xffff)); return c; };
    p->kinds.push_back(n);
    return p;
}
static Register r05(mk05());
#endif

//////////////////////////////////////////////////////////////// P06 dangerous forms

static std::vector<EncodingCheckPredicate> somePreds()
{
    return { EncodingCheckPredicate(), validIf(kIsAssigned), validIfNot(kIsControl), validIfNot(kIsPrivate).andIfNot(kIsWhitespace) };
}
#define EMPTY(e) do { auto r_ = (e); REQUIRE(r_.empty(), "%s of %s gives %s, expected nothing", #e, show(v).c_str(), show(V(r_)).c_str()); } while (0)
#define REFUSED(e) REQUIRE(!(e), "%s accepts %s", #e, show(v).c_str())

extern void trimWs(std::string&);
static std::string trimmed(std::string s) { trimWs(s); return s; }

static void refuse8(const Vec& v, int64_t sel)
{
    Z8 z(v); const char* p = z; std::string s = t8(v);
    auto pr = somePreds();
    for (int t = 0; t < NTARGETS; ++t)
    {
        REFUSED(ansak::isUtf8(p, (RangeType)t)); REFUSED(ansak::isUtf8(s, (RangeType)t));
        REFUSED(ansak::isUtf8(p, (RangeType)t, pr[(sel + t) & 3])); REFUSED(ansak::isUtf8(s, (RangeType)t, pr[(sel + t + 1) & 3]));
    }
    Z8 e(v, false); unsigned n = (unsigned)v.size();
    REFUSED(ansak::isUtf8((const char*)e, n)); REFUSED(ansak::isUtf8((const char*)e, n, pr[sel & 3]));
    REFUSED(isWstring(p)); REFUSED(isWstring(s));
    EMPTY(toUcs2(p)); EMPTY(toUcs2(s)); EMPTY(toUtf16(p)); EMPTY(toUtf16(s)); EMPTY(toUcs4(p)); EMPTY(toUcs4(s)); EMPTY(toWstring(p)); EMPTY(toWstring(s));
    EMPTY(toLower(s)); EMPTY(toLower(s, "tr"));
    REFUSED(unicodeLength(p)); REFUSED(unicodeLength(s)); REFUSED(unicodeLength((const char*)e, n));
}
static void refuse16(const Vec& v, int64_t sel)
{
    Z16 z(v); const char16_t* p = z; std::u16string s = t16(v);
    auto pr = somePreds();
    for (int t = 0; t < NTARGETS; ++t)
    {
        REFUSED(ansak::isUtf16(p, (RangeType)t)); REFUSED(ansak::isUtf16(s, (RangeType)t)); REFUSED(ansak::isUtf16(p, (RangeType)t, pr[(sel + t) & 3]));
        REFUSED(ansak::isUcs2(p, (RangeType)t)); REFUSED(ansak::isUcs2(s, (RangeType)t)); REFUSED(ansak::isUcs2(s, (RangeType)t, pr[(sel + t) & 3]));
    }
    Z16 e(v, false);
    REFUSED(isWstring(p)); REFUSED(isWstring(s));
    EMPTY(toUtf8(p)); EMPTY(toUtf8(s)); EMPTY(toUcs4(p)); EMPTY(toUcs4(s)); EMPTY(toWstring(p)); EMPTY(toWstring(s));
    EMPTY(toLower(s)); EMPTY(toLower(s, "az"));
    REFUSED(unicodeLength(p)); REFUSED(unicodeLength(s)); REFUSED(unicodeLength((const char16_t*)e, (unsigned)v.size()));
}
static void refuse32(const Vec& v, int64_t sel)
{
    Z32 z(v); const char32_t* p = z; std::u32string s = t32(v); ZW zw(v); const wchar_t* q = zw; wstr w = tw(v);
    auto pr = somePreds();
    for (int t = 0; t < NTARGETS; ++t)
    {
        REFUSED(ansak::isUcs4(p, (RangeType)t)); REFUSED(ansak::isUcs4(s, (RangeType)t)); REFUSED(ansak::isUcs4(p, (RangeType)t, pr[(sel + t) & 3]));
    }
    REFUSED(ansak::isUtf8(q)); REFUSED(ansak::isUtf8(w)); REFUSED(ansak::isUtf16(q)); REFUSED(ansak::isUtf16(w)); REFUSED(ansak::isUcs2(q)); REFUSED(ansak::isUcs2(w)); REFUSED(ansak::isUcs4(q)); REFUSED(ansak::isUcs4(w));
    REFUSED(isWstring(p)); REFUSED(isWstring(s));
    EMPTY(toUtf8(p)); EMPTY(toUtf8(s)); EMPTY(toUcs2(p)); EMPTY(toUcs2(s)); EMPTY(toUtf16(p)); EMPTY(toUtf16(s)); EMPTY(toWstring(p)); EMPTY(toWstring(s));
    EMPTY(toUtf8(q)); EMPTY(toUtf8(w)); EMPTY(toUcs2(q)); EMPTY(toUcs2(w)); EMPTY(toUtf16(q)); EMPTY(toUtf16(w)); EMPTY(toUcs4(q)); EMPTY(toUcs4(w));
    Z32 e(v, false);
    REFUSED(unicodeLength(p)); REFUSED(unicodeLength(s)); REFUSED(unicodeLength((const char32_t*)e, (unsigned)v.size()));
}

// p0: form, p1: value selector; s0 text before, s1 text after
static void p06bad(const Case& c, Obs& o)
{
    Vec pre = cleanCps(cut(c.S(0)), 0x10ffff), post = cleanCps(cut(c.S(1)), 0x10ffff);
    int form = (int)(((c.P(0) % 8) + 8) % 8);
    uint32_t x = (uint32_t)c.P(1);
    o.nt();
    Vec after = post; if (after.empty()) after.push_back('z');
    switch (form)
    {
    case 0: case 1:     // overlong
    {
        int n = 2 + (int)(x % 5);
        uint32_t lim = utf8Min(n);      // any value below this is overlong in n bytes
        uint32_t val = (uint32_t)((uint64_t)(x / 5) * 2654435761u % lim);
        if (form == 1) val = lim - 1 - (x / 5) % 3;
        if (n == 3 && isSurrogate(val)) val = 0x7ff;
        Vec v = encUtf8(pre); putUtf8(v, val, n); Vec e = encUtf8(post); v.insert(v.end(), e.begin(), e.end());
        if (hasNull(v)) return;
        o.cls("overlong UTF-8");
        refuse8(v, x);
        EMPTY(trimmed(s8(v)));
        break;
    }
    case 2:     // lone half in UTF-8
    {
        uint32_t h = 0xd800 + x % 0x800;
        Vec v = encUtf8(pre); putUtf8(v, h, 3); Vec e = encUtf8(isLow(h) ? post : after); v.insert(v.end(), e.begin(), e.end());
        o.cls(isLow(h) ? "lone low half in UTF-8" : "lone high half in UTF-8");
        refuse8(v, x);
        EMPTY(trimmed(s8(v)));
        break;
    }
    case 3:     // halves in the wrong order, or two of the same
    {
        uint32_t h = 0xd800 + x % 0x800, l = isHigh(h) ? 0xd800 + (x >> 3) % 0x400 : 0xd800 + (x >> 3) % 0x400;
        Vec v = encUtf8(pre); putUtf8(v, h, 3); putUtf8(v, l, 3); Vec e = encUtf8(after); v.insert(v.end(), e.begin(), e.end());
        o.cls("mispaired halves in UTF-8");
        refuse8(v, x);
        Vec u = encUtf16(pre); u.push_back(h); u.push_back(l); e = encUtf16(after); u.insert(u.end(), e.begin(), e.end());
        refuse16(u, x);
        break;
    }
    case 4:
    {
        uint32_t h = 0xd800 + x % 0x800;
        Vec v = encUtf16(pre); v.push_back(h); Vec e = encUtf16(isLow(h) ? post : after); v.insert(v.end(), e.begin(), e.end());
        o.cls("lone half in UTF-16");
        refuse16(v, x);
        break;
    }
    case 6:     // a high half, then three bytes that are almost a low half
    {
        static const uint32_t second[] = { 0xb0, 0x80, 0x90, 0xa0, 0xaf, 0xbf, 0xc0, 0x70 }, third[] = { 0x80, 0xbf, 0x41, 0xed };
        Vec v = encUtf8(pre); putUtf8(v, 0xd800 + (x * 2654435761u >> 7) % 0x400, 3);
        Vec n{ x % 256, second[x / 256 % 8], third[x / 2048 % 4] };
        if (n[0] == 0 || n[0] == 0xed) n[0] = 0xfd;
        v.insert(v.end(), n.begin(), n.end()); Vec e = encUtf8(after); v.insert(v.end(), e.begin(), e.end());
        o.cls("high half in UTF-8 and an almost low half");
        refuse8(v, x);
        EMPTY(trimmed(s8(v)));
        break;
    }
    case 7:     // a pair whose halves are written in more bytes than three
    {
        int n = 3 + (int)(x % 4), m = 3 + (int)(x / 4 % 4);
        if (n == 3 && m == 3) m = 4;
        Vec v = encUtf8(pre); putUtf8(v, 0xd800 + (x / 16) % 0x400, n); putUtf8(v, 0xdc00 + (x * 2654435761u >> 9) % 0x400, m);
        Vec e = encUtf8(after); v.insert(v.end(), e.begin(), e.end());
        o.cls("overlong halves in UTF-8");
        refuse8(v, x);
        EMPTY(trimmed(s8(v)));
        break;
    }
    default:
    {
        Vec v = pre; v.push_back(0xd800 + x % 0x800); v.insert(v.end(), post.begin(), post.end());
        o.cls("surrogate in UCS-4 or wide text");
        refuse32(v, x);
    }
    }
}

#define CLEAN8(e) do { Vec r_ = V(e); Decoded d_ = decUtf8(r_); REQUIRE(d_.state == CLEAN && encUtf8(d_.cps) == r_, "%s of %s returns %s, which is not well formed", #e, show(v).c_str(), show(r_).c_str()); } while (0)
#define CLEAN16(e) do { Vec r_ = V(e); Decoded d_ = decUtf16(r_); REQUIRE(d_.state == CLEAN, "%s of %s returns %s, which is not well formed", #e, show(v).c_str(), show(r_).c_str()); } while (0)
#define CLEAN32(e) do { Vec r_ = V(e); for (uint32_t x_ : r_) REQUIRE(!isSurrogate(x_), "%s of %s returns %s, which is not well formed", #e, show(v).c_str(), show(r_).c_str()); } while (0)


static void p06out8(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z8 z(v); const char* p = z; std::string s = t8(v);
    Decoded d = decUtf8(v);
    o.cls(stateName(d)); for (uint32_t b : v) o.nt(b >= 0x80);
    CLEAN16(toUtf16(p)); CLEAN32(V(toUcs2(p)).empty() ? std::u32string() : s32(V(toUcs2(p)))); CLEAN32(toUcs4(p)); CLEAN32(toWstring(p));
    CLEAN8(toLower(s)); CLEAN8(toLower(s, "tr")); CLEAN8(trimmed(s));
    CLEAN8(toUtf8(p, kSrcCP1252)); CLEAN8(toUtf8(p, kSrcCP1250)); CLEAN8(toUtf8(p, (SourceEncoding)(3 + (c.P(0) & 7))));
}
static void p06out16(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z16 z(v); const char16_t* p = z; std::u16string s = t16(v);
    o.cls(stateName(decUtf16(v))); for (uint32_t b : v) o.nt(b >= 0x80);
    CLEAN8(toUtf8(p)); CLEAN32(toUcs4(p)); CLEAN32(toWstring(p)); CLEAN16(toLower(s)); CLEAN16(toLower(s, "kaz"));
}
static void p06out32(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z32 z(v); const char32_t* p = z; wstr w = tw(v);
    for (uint32_t b : v) o.nt(b >= 0x80);
    CLEAN8(toUtf8(p)); CLEAN16(toUtf16(p)); CLEAN32(s32(V(toUcs2(p)))); CLEAN32(toWstring(p));
    CLEAN8(toUtf8(w)); CLEAN16(toUtf16(w)); CLEAN32(s32(V(toUcs2(w)))); CLEAN32(toUcs4(w));
}
#if WANT(6)
static Prop* mk06()
{
    Prop* p = new Prop; p->id = "P06";
    p->rule = "the text contains a refused form (first kind) or any unit above 7F (output kinds)";
    Kind k; k.name = "refused"; k.widths = { 4, 4 }; k.params = 2; k.weight = 20;
    k.gen = [](Rng& r) {
        Case c; c.p = { (int64_t)r.below(8), (int64_t)r.below(1u << 30) };
        c.s.push_back(gen::text(r, 0x10ffff)); c.s.push_back(r.chance(1, 4) ? Vec() : gen::text(r, 0x10ffff));
        if (r.chance(1, 40)) c.s[0] = gen::longText(r, 0x10ffff);
        return c;
    };
    k.check = p06bad;
    // every lone half and a range of overlong values, alone and between short texts
    k.enumSize = [](int level) { return (uint64_t)8 * (level ? 60000 : 10000) * 3; };
    k.enumAt = [](uint64_t i, int) {
        Case c; c.p = { (int64_t)(i % 8), (int64_t)(i / 24) };
        static const Vec a[3] = { {}, { 'a' }, { 0x1f600, 'b' } }, b[3] = { {}, { 0x4e00 }, { ' ', 'z' } };
        uint64_t q = (i / 8) % 3; c.s = { a[q], b[q] };
        return c;
    };
    p->kinds.push_back(k);
    Kind e = strKind("utf8-out", 1, 6, gen::u8, 1, p06out8); enumWith(e, gen::enumU8, gen::enumU8At, 16); p->kinds.push_back(e);
    Kind f = strKind("utf16-out", 2, 6, gen::u16, 1, p06out16); enumWith(f, gen::enumU16, gen::enumU16At, 16); p->kinds.push_back(f);
    Kind g = strKind("ucs4-out", 4, 6, gen::u32, 1, p06out32); enumWith(g, gen::enumU32, gen::enumU32At, 4); p->kinds.push_back(g);
    Kind e1 = strKind("utf8-out-long", 1, 1, gen::u8Long, 1, p06out8); e1.costly = 20; p->kinds.push_back(e1);
    Kind f1 = strKind("utf16-out-long", 2, 1, gen::u16Long, 1, p06out16); f1.costly = 20; p->kinds.push_back(f1);
    Kind g1 = strKind("ucs4-out-long", 4, 1, gen::u32Long, 1, p06out32); g1.costly = 20; p->kinds.push_back(g1);
    return p;
}
static Register r06(mk06());
#endif

//////////////////////////////////////////////////////////////// P11 counts

static void count(const char* what, const Vec& v, unsigned got, size_t want) { REQUIRE(got == want, "%s of %s is %u, expected %zu", what, show(v).c_str(), got, want); }

static void p11u8(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z8 z(v); const char* p = z; std::string s = t8(v);
    Decoded d = decUtf8(v);
    o.cls(stateName(d)); sizes(o, v); for (uint32_t b : v) o.nt(b >= 0x80);
    bool fit = allFit(d.cps, UNICODE);
    size_t n = d.cps.size();
    Z8 e(v, false);
    unsigned got = unicodeLength(p), gotS = unicodeLength(s), gotL = v.empty() ? 0 : unicodeLength((const char*)e, (unsigned)v.size());
    if (d.state == BROKEN || !fit) { count("unicodeLength", v, got, 0); count("unicodeLength(string)", v, gotS, 0); count("unicodeLength(length)", v, gotL, 0); return; }
    if (d.state == CLEAN)
    {
        count("unicodeLength", v, got, n); count("unicodeLength(string)", v, gotS, n); count("unicodeLength(length)", v, gotL, n);
        count("size of toUcs4", v, (unsigned)toUcs4(p).size(), n);
        count("unicodeLength(toUtf16)", v, unicodeLength(toUtf16(p)), n);
        count("unicodeLength(toUcs4)", v, unicodeLength(toUcs4(p)), n);
        return;
    }
    size_t less = n ? n - 1 : 0;
    count("unicodeLength", v, got, less);
    count("unicodeLength(string)", v, gotS, less);
    count("unicodeLength(length)", v, gotL, n);
}
static void p11u16(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z16 z(v); const char16_t* p = z; std::u16string s = t16(v);
    Decoded d = decUtf16(v);
    o.cls(stateName(d)); sizes(o, v); for (uint32_t b : v) o.nt(b >= 0x80);
    size_t n = d.cps.size();
    Z16 e(v, false);
    unsigned got = unicodeLength(p), gotS = unicodeLength(s), gotL = v.empty() ? 0 : unicodeLength((const char16_t*)e, (unsigned)v.size());
    size_t want = d.state == BROKEN ? 0 : d.state == CLEAN ? n : n ? n - 1 : 0;
    count("unicodeLength", v, got, want); count("unicodeLength(string)", v, gotS, want);
    count("unicodeLength(length)", v, gotL, d.state == BROKEN ? 0 : n);
    if (d.state == CLEAN)
    {
        count("size of toUcs4", v, (unsigned)toUcs4(p).size(), n);
        count("unicodeLength(toUtf8)", v, unicodeLength(toUtf8(p)), n);
    }
}
static void p11u32(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z32 z(v); const char32_t* p = z; std::u32string s = t32(v);
    bool bad = false; for (uint32_t b : v) { o.nt(b >= 0x80); bad = bad || isSurrogate(b); }
    o.cls(bad ? "malformed" : "well-formed"); sizes(o, v);
    size_t n = bad ? 0 : v.size();
    Z32 e(v, false);
    count("unicodeLength", v, unicodeLength(p), n); count("unicodeLength(string)", v, unicodeLength(s), n);
    if (!v.empty()) count("unicodeLength(length)", v, unicodeLength((const char32_t*)e, (unsigned)v.size()), n);
}
#if WANT(11)
static Prop* mk11()
{
    Prop* p = new Prop; p->id = "P11";
    p->rule = "the text contains at least one unit above 7F";
    add8(p, 1, 3, p11u8); add16(p, 1, 2, p11u16); add32(p, 1, 2, p11u32);
    return p;
}
static Register r11(mk11());
#endif

//////////////////////////////////////////////////////////////// P12 length-terminated

// p0: which predicate; s0 the given units, s1 what follows them in memory
template <class C> struct Placed {
    std::unique_ptr<C[]> b; size_t off;
    Placed(const Vec& v, const Vec& follow, size_t before) : b(new C[before + v.size() + follow.size() + 1]), off(before)
    {
        size_t n = 0;
        for (size_t i = 0; i < before; ++i) b[n++] = (C)0xed;
        for (uint32_t x : v) b[n++] = (C)x;
        for (uint32_t x : follow) b[n++] = (C)x;
        b[n] = 0;
    }
    const C* p() const { return b.get() + off; }
};
static void p12u8(const Case& c, Obs& o)
{
    const Vec& v = c.S(0); const Vec& f = c.S(1);
    if (v.empty()) return;
    Z8 exact(v, false);
    Placed<char> placed(v, f, (size_t)(c.P(1) & 3));
    unsigned n = (unsigned)v.size();
    auto preds = somePreds();
    const EncodingCheckPredicate& pr = preds[c.P(0) & 3];
    bool a = ansak::isUtf8((const char*)exact, n), b = ansak::isUtf8(placed.p(), n);
    bool ap = ansak::isUtf8((const char*)exact, n, pr), bp = ansak::isUtf8(placed.p(), n, pr);
    unsigned la = unicodeLength((const char*)exact, n), lb = unicodeLength(placed.p(), n);
    REQUIRE(a == b && ap == bp, "length-terminated isUtf8(%s) depends on the bytes after: %s", show(v).c_str(), show(f).c_str());
    REQUIRE(la == lb, "length-terminated unicodeLength(%s) depends on the bytes after (%s): %u or %u", show(v).c_str(), show(f).c_str(), la, lb);
    for (uint32_t x : v) o.nt(x >= 0x80 || x == 0);
    if (hasNull(v))
    {
        bool first = v[0] == 0;
        o.cls(first ? "null first" : "null inside");
        REQUIRE(a == first && ap == first, "length-terminated isUtf8 of %s is %d", show(v).c_str(), a);
        REQUIRE(la == 0, "length-terminated unicodeLength of %s is %u", show(v).c_str(), la);
        return;
    }
    Decoded d = decUtf8(v);
    o.cls(stateName(d)); sizes(o, v);
    if (!f.empty()) o.cls("followed by other bytes");
    Z8 z(v);
    bool t = ansak::isUtf8((const char*)z, kUtf8), tp = ansak::isUtf8((const char*)z, kUtf8, pr);
    REQUIRE(a == t, "length-terminated isUtf8(%s) is %d, null-terminated %d", show(v).c_str(), a, t);
    REQUIRE(ap == tp, "length-terminated isUtf8(%s, pred) is %d, null-terminated %d", show(v).c_str(), ap, tp);
    bool good = d.state != BROKEN && allFit(d.cps, UNICODE);
    size_t want = good ? d.cps.size() : 0;
    count("length-terminated unicodeLength", v, la, want);
}
static void p12u16(const Case& c, Obs& o)
{
    const Vec& v = c.S(0); const Vec& f = c.S(1);
    if (v.empty()) return;
    Z16 exact(v, false);
    Placed<char16_t> placed(v, f, (size_t)(c.P(1) & 3));
    unsigned n = (unsigned)v.size();
    unsigned la = unicodeLength((const char16_t*)exact, n), lb = unicodeLength(placed.p(), n);
    REQUIRE(la == lb, "length-terminated unicodeLength(%s) depends on what follows (%s): %u or %u", show(v).c_str(), show(f).c_str(), la, lb);
    for (uint32_t x : v) o.nt(x >= 0x80 || x == 0);
    if (hasNull(v)) { o.cls("null inside"); REQUIRE(la == 0, "length-terminated unicodeLength of %s is %u", show(v).c_str(), la); return; }
    Decoded d = decUtf16(v);
    o.cls(stateName(d)); sizes(o, v);
    if (!f.empty()) o.cls("followed by other units");
    count("length-terminated unicodeLength", v, la, d.state == BROKEN ? 0 : d.cps.size());
}
static void p12u32(const Case& c, Obs& o)
{
    const Vec& v = c.S(0); const Vec& f = c.S(1);
    if (v.empty()) return;
    Z32 exact(v, false);
    Placed<char32_t> placed(v, f, (size_t)(c.P(1) & 3));
    unsigned n = (unsigned)v.size();
    unsigned la = unicodeLength((const char32_t*)exact, n), lb = unicodeLength(placed.p(), n);
    REQUIRE(la == lb, "length-terminated unicodeLength(%s) depends on what follows (%s): %u or %u", show(v).c_str(), show(f).c_str(), la, lb);
    for (uint32_t x : v) o.nt(x >= 0x80 || x == 0);
    if (hasNull(v)) { o.cls("null inside"); REQUIRE(la == 0, "length-terminated unicodeLength of %s is %u", show(v).c_str(), la); return; }
    bool bad = false; for (uint32_t x : v) bad = bad || isSurrogate(x);
    o.cls(bad ? "malformed" : "well-formed"); sizes(o, v);
    count("length-terminated unicodeLength", v, la, bad ? 0 : n);
}
// splits a generated text into given units and what follows, so that characters straddle the end
template <Vec (*G)(Rng&)> static Case genCutAt(Rng& r)
{
    Case c; c.p = { (int64_t)r.below(4), (int64_t)r.below(4) };
    Vec v = G(r); if (v.empty()) v.push_back('a');
    size_t at = r.chance(1, 4) ? v.size() : 1 + r.below((uint32_t)v.size());
    Vec a(v.begin(), v.begin() + at), b(v.begin() + at, v.end());
    if (b.empty() && r.chance(1, 2)) b = G(r);
    if (r.chance(1, 12)) a[r.below((uint32_t)a.size())] = 0;
    c.s = { a, b };
    return c;
}
template <uint64_t (*N)(int), Vec (*AT)(uint64_t, int)> static void enumCut(Kind& k, uint64_t stride)
{
    k.enumSize = [stride](int level) { return (level ? N(level) : N(level) / stride) * 2; };
    k.enumAt = [stride](uint64_t i, int level) {
        Case c; c.p = { (int64_t)(i & 3), (int64_t)((i >> 2) & 3) };
        Vec v = AT(level ? i / 2 : i / 2 * stride, level);
        if (v.empty()) v.push_back('a');
        size_t at = i & 1 ? v.size() : v.size() > 1 ? 1 + (i / 2) % (v.size() - 1) : 1;
        c.s = { Vec(v.begin(), v.begin() + at), Vec(v.begin() + at, v.end()) };
        return c;
    };
}
static uint64_t enumLenAny(int level) { return gen::enumLen(level); }
#if WANT(12)
static Prop* mk12()
{
    Prop* p = new Prop; p->id = "P12";
    p->rule = "the given bytes contain a unit above 7F or a null";
    Kind k; k.name = "utf8"; k.widths = { 1, 1 }; k.params = 2; k.weight = 20; k.gen = genCutAt<gen::u8>; k.check = p12u8; enumCut<gen::enumU8, gen::enumU8At>(k, 3);
    Kind l; l.name = "utf16"; l.widths = { 2, 2 }; l.params = 2; l.weight = 8; l.gen = genCutAt<gen::u16>; l.check = p12u16; enumCut<gen::enumU16, gen::enumU16At>(l, 4);
    Kind m; m.name = "ucs4"; m.widths = { 4, 4 }; m.params = 2; m.weight = 8; m.gen = genCutAt<gen::u32>; m.check = p12u32; enumCut<gen::enumU32, gen::enumU32At>(m, 4);
    p->kinds = { k, l, m };
    Kind kl = k; kl.name = "utf8-long"; kl.weight = 1; kl.costly = 20; kl.gen = genCutAt<gen::u8Long>; enumCut<enumLenAny, lenText8>(kl, 1);
    Kind ll = l; ll.name = "utf16-long"; ll.weight = 1; ll.costly = 20; ll.gen = genCutAt<gen::u16Long>; enumCut<enumLenAny, lenText16>(ll, 1);
    Kind ml = m; ml.name = "ucs4-long"; ml.weight = 1; ml.costly = 20; ml.gen = genCutAt<gen::u32Long>; enumCut<enumLenAny, lenText32>(ml, 1);
    p->kinds.push_back(kl); p->kinds.push_back(ll); p->kinds.push_back(ml);
    return p;
}
static Register r12(mk12());
#endif

//////////////////////////////////////////////////////////////// P20 decodeUtf8

static void p20(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z8 z(v); const char* base = z;
    Decoded d = decUtf8(v);
    o.cls(stateName(d)); sizes(o, v); for (uint32_t b : v) o.nt(b >= 0x80);
    const char* p = base;
    size_t pos = 0, k = 0;
    while (pos < v.size())
    {
        const char* from = p;
        char32_t got = internal::decodeUtf8(p);
        if (k < d.cps.size())
        {
            REQUIRE(p != nullptr, "decoding %s at %zu: position nulled, expected %x", show(v).c_str(), pos, d.cps[k]);
            REQUIRE(got == d.cps[k], "decoding %s at %zu gives %x, expected %x", show(v).c_str(), pos, (uint32_t)got, d.cps[k]);
            // where the character ends: one more than the decoder's own notion of the prefix
            size_t last = (size_t)(p - base);
            Vec head(v.begin() + pos, v.begin() + std::min(last + 1, v.size()));
            Decoded one = decUtf8(head);
            REQUIRE(last < v.size() && one.state == CLEAN && one.cps.size() == 1, "decoding %s at %zu leaves the position at %zu", show(v).c_str(), pos, last);
            pos = last + 1; p = base + pos; ++k;
            continue;
        }
        REQUIRE(got == 0, "decoding %s at %zu gives %x, expected failure", show(v).c_str(), pos, (uint32_t)got);
        if (d.state == BROKEN) REQUIRE(p == nullptr, "decoding %s at %zu: position %zd not nulled", show(v).c_str(), pos, p - base);
        else
        {
            REQUIRE(p == base + v.size(), "decoding %s at %zu: position not left on the terminator", show(v).c_str(), pos);
        }
        (void)from;
        return;
    }
    REQUIRE(k == d.cps.size(), "decoding %s visits %zu characters, expected %zu", show(v).c_str(), k, d.cps.size());
}
#if WANT(20)
static Prop* mk20()
{
    Prop* p = new Prop; p->id = "P20";
    p->rule = "the string contains at least one byte above 7F";
    add8(p, 0, 1, p20);
    Kind k; k.name = "character"; k.widths = { 4 }; k.weight = 4;
    k.check = [](const Case& c, Obs& o) { Case d; d.s.push_back(encUtf8(cleanCps(cut(c.S(0)), 0x7fffffff))); p20(d, o); };
    k.gen = [](Rng& r) { Case c; c.s.push_back(gen::text(r, 0x7fffffff)); return c; };
    k.enumSize = [](int) { return gen::enumCp(); };
    k.enumAt = [](uint64_t i, int) { Case c; c.s.push_back(Vec{ gen::enumCpAt(i) }); return c; };
    p->kinds.push_back(k);
    return p;
}
static Register r20(mk20());
#endif
