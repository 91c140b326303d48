// 16-bit wide characters: P23. This file alone is compiled with -fshort-wchar.
#include "shortwchar.hpp"
#include "lib.hpp"
template class std::basic_string<wchar_t>;       // not the C++ library's instance for 32-bit units
static_assert(sizeof(wchar_t) == 2, "compile with -fshort-wchar");

using namespace model;

static void same(const char* what, const Vec& src, const Vec& got, const Vec& want)
{
    REQUIRE(got == want, "%s of %s gives %s, expected %s", what, show(src).c_str(), show(got).c_str(), show(want).c_str());
}
static void sameOr(const char* what, const Vec& src, const Vec& got, const Vec& want, const Vec& orElse)
{
    REQUIRE(got == want || got == orElse, "%s of %s gives %s, expected %s", what, show(src).c_str(), show(got).c_str(), show(want).c_str());
}
#define IS(e, want) do { bool g_ = (e), w_ = (want); REQUIRE(g_ == w_, "%s is %d for %s", #e, g_, show(v).c_str()); } while (0)

// 16-bit units, as wide text and as UTF-16
static void units(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); ZW z(v); const wchar_t* p = z; wstr w = tw(v); Z16 z16(v); const char16_t* q = z16; std::u16string s = t16(v);
    Decoded d = decUtf16(v); o.cls(stateName(d)); for (uint32_t x : v) o.nt(x >= 0x80);
    bool good = d.state != BROKEN, sur = false;
    for (uint32_t x : v) sur = sur || isSurrogate(x);
    IS(ansak::isUtf8(p), good); IS(ansak::isUtf8(w), good); IS(ansak::isUtf16(p), good); IS(ansak::isUtf16(w), good);
    IS(ansak::isUcs4(p), good); IS(ansak::isUcs4(w), good); IS(ansak::isUcs2(p), !sur); IS(ansak::isUcs2(w), !sur);
    IS(isWstring(q), good); IS(isWstring(s), good);
    Vec cps = good ? d.cps : Vec(), whole = encUtf16(cps), e8 = encUtf8(cps);
    same("toUtf8(wide)", v, V(toUtf8(p)), e8); same("toUtf8(wide string)", v, V(toUtf8(w)), e8);
    same("toUcs4(wide)", v, V(toUcs4(p)), cps); same("toUcs4(wide string)", v, V(toUcs4(w)), cps);
    same("toUcs2(wide)", v, V(toUcs2(p)), sur ? Vec() : v); same("toUcs2(wide string)", v, V(toUcs2(w)), sur ? Vec() : v);
    // text cut short in its last pair: with or without the half
    const Vec& asIs = d.state == TAIL ? v : whole;
    sameOr("toUtf16(wide)", v, V(toUtf16(p)), whole, asIs); sameOr("toUtf16(wide string)", v, V(toUtf16(w)), whole, asIs);
    sameOr("toWstring(UTF-16)", v, V(toWstring(q)), whole, asIs); sameOr("toWstring(UTF-16 string)", v, V(toWstring(s)), whole, asIs);
    REQUIRE(z.same(v) && z16.same(v), "an argument was modified");
}
static void narrow(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z8 z(v); const char* p = z; std::string s = t8(v);
    Decoded d = decUtf8(v); o.cls(stateName(d)); for (uint32_t x : v) o.nt(x >= 0x80);
    Tri w = model::isUtf8(d, UTF16);
    if (w != EITHER) { IS(isWstring(p), w == YES); IS(isWstring(s), w == YES); }
    Vec u16 = V(toUtf16(p));
    same("toWstring(UTF-8)", v, V(toWstring(p)), u16); same("toWstring(UTF-8 string)", v, V(toWstring(s)), u16);
    if (d.state == BROKEN || !allFit(d.cps, UTF16)) same("toWstring(UTF-8)", v, V(toWstring(p)), Vec());
    else if (d.state == CLEAN) same("toWstring(UTF-8)", v, V(toWstring(p)), encUtf16(d.cps));
}
static void ucs4(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z32 z(v); const char32_t* p = z; std::u32string s = t32(v);
    bool good = model::isUcs4(v, UTF16); for (uint32_t x : v) o.nt(x >= 0x80);
    o.cls(good ? "valid UCS-4" : "invalid UCS-4");
    IS(isWstring(p), good); IS(isWstring(s), good);
    Vec want = good ? encUtf16(v) : Vec();
    same("toWstring(UCS-4)", v, V(toWstring(p)), want); same("toWstring(UCS-4 string)", v, V(toWstring(s)), want);
}
static void nulls(const Case&, Obs& o)
{
    o.nt(); o.cls("null pointers");
    const wchar_t* w = nullptr; const char* a = nullptr; const char16_t* b = nullptr; const char32_t* d = nullptr;
    REQUIRE(toUtf8(w).empty() && toUtf16(w).empty() && toUcs2(w).empty() && toUcs4(w).empty(), "a null wide pointer converts to something");
    REQUIRE(toWstring(a).empty() && toWstring(b).empty() && toWstring(d).empty(), "a null pointer converts to wide text");
    REQUIRE(ansak::isUtf8(w) && ansak::isUtf16(w) && ansak::isUcs2(w) && ansak::isUcs4(w) && isWstring(a) && isWstring(b) && isWstring(d), "a null pointer is not acceptable text");
}
static Prop* mk23()
{
    Prop* p = new Prop; p->id = "P23";
    p->rule = "the text contains at least one unit above 7F";
    Kind w = strKind("wide", 2, 12, gen::u16, 0, units); enumWith(w, gen::enumU16, gen::enumU16At, 1); p->kinds.push_back(w);
    Kind b = strKind("utf8", 1, 8, gen::u8, 0, narrow); enumWith(b, gen::enumU8, gen::enumU8At, 6); p->kinds.push_back(b);
    Kind u = strKind("ucs4", 4, 8, gen::u32, 0, ucs4); enumWith(u, gen::enumU32, gen::enumU32At, 2); p->kinds.push_back(u);
    Kind wl = strKind("wide-long", 2, 1, gen::u16Long, 0, units); wl.costly = 20; p->kinds.push_back(wl);
    Kind bl = strKind("utf8-long", 1, 1, gen::u8Long, 0, narrow); bl.costly = 20; p->kinds.push_back(bl);
    Kind ul = strKind("ucs4-long", 4, 1, gen::u32Long, 0, ucs4); ul.costly = 20; p->kinds.push_back(ul);
    Kind n; n.name = "wide-length"; n.widths = { 4 }; n.weight = 0;
    n.check = [](const Case& c, Obs& o) { Case d = c; d.s[0] = encUtf16(cleanCps(c.S(0), 0x10ffff)); units(d, o); };
    n.enumSize = [](int level) { return gen::enumLen(level); };
    n.enumAt = [](uint64_t i, int level) { Case c; c.s.push_back(gen::enumLenAt(i, level, 0x10ffff)); return c; };
    p->kinds.push_back(n);
    Kind z; z.name = "null"; z.weight = 0; z.check = nulls; z.enumSize = [](int) { return (uint64_t)1; }; z.enumAt = [](uint64_t, int) { return Case(); };
    p->kinds.push_back(z);
    return p;
}
static Register r23(mk23());
