// The functions the header offers to Windows programs: P24. Compiled with -fshort-wchar and WIN32,
// once with _UNICODE (TCHAR is wchar_t) and once with _MBCS (TCHAR is char).
#include "shortwchar.hpp"
#include "lib.hpp"
template class std::basic_string<wchar_t>;
static_assert(sizeof(wchar_t) == 2, "compile with -fshort-wchar");

using namespace model;

static void same(const char* what, const Vec& src, const Vec& got, const Vec& want)
{
    REQUIRE(got == want, "%s of %s gives %s, expected %s", what, show(src).c_str(), show(got).c_str(), show(want).c_str());
}
static void sameOr(const char* what, const Vec& src, const Vec& got, const Vec& want, const Vec& orElse)
{
    REQUIRE(got == want || got == orElse, "%s of %s gives %s, expected %s", what, show(src).c_str(), show(got).c_str(), show(want).c_str());
}
#define IS(e, want) do { bool g_ = (e), w_ = (want); REQUIRE(g_ == w_, "%s is %d for %s", #e, g_, show(v).c_str()); } while (0)
static bool ascii(const Vec& v) { for (uint32_t x : v) if (x > 0x7f) return false; return true; }

// toTstring of a pointer and of an object agree; its result for text that decodes to these characters.
// With wide TCHARs any Unicode text converts, with narrow ones ASCII does.
#if defined(_MBCS)
static Vec tchars(const Vec& cps, bool good) { return good && ascii(cps) ? cps : Vec(); }
#else
static Vec tchars(const Vec& cps, bool good) { return good && allFit(cps, UTF16) ? encUtf16(cps) : Vec(); }
#endif
// what isTstring has to say: with narrow TCHARs it is only held to accept what toTstring converts
template <class P, class O> void isT(const Vec& v, const P& p, const O& s, Tri want)
{
    bool a = isTstring(p), b = isTstring(s);
    REQUIRE(a == b, "isTstring differs for a pointer and an object of %s", show(v).c_str());
#if defined(_MBCS)
    if (want == YES && !toTstring(p).empty()) IS(isTstring(p), true);
    if (want == NO) IS(isTstring(p), false);
#else
    if (want != EITHER) IS(isTstring(p), want == YES);
#endif
}

static void narrow(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z8 z(v); const char* p = z; std::string s = t8(v);
    Decoded d = decUtf8(v); o.cls(stateName(d)); for (uint32_t x : v) o.nt(x >= 0x80);
    struct { int t; bool a, b; } q[] = { { UTF16, ansak::isUtf16(p), ansak::isUtf16(s) }, { UCS2, ansak::isUcs2(p), ansak::isUcs2(s) }, { UCS4, ansak::isUcs4(p), ansak::isUcs4(s) } };
    for (auto& e : q)
    {
        Tri w = model::isUtf8(d, e.t);
        REQUIRE(e.a == e.b && (w == EITHER || e.a == (w == YES)), "narrow text %s: pointer form %d, object form %d for target %d", show(v).c_str(), e.a, e.b, e.t);
    }
    Tri w8 = model::isUtf8(d, UTF8);
    Vec got = V(ansak::toUtf8(p));
    if (w8 == YES) { if (d.state == CLEAN) same("toUtf8(char)", v, got, v); else sameOr("toUtf8(char)", v, got, v, encUtf8(d.cps)); }
    else if (w8 == NO) same("toUtf8(char)", v, got, Vec());
    else REQUIRE(got.empty() || got == v || got == encUtf8(d.cps), "toUtf8 of %s gives %s", show(v).c_str(), show(got).c_str());
    same("toUtf8(string)", v, V(ansak::toUtf8(s)), got);
    isT(v, p, s, model::isUtf8(d, UTF16));
    Vec t = V(toTstring(p));
    same("toTstring(string)", v, V(toTstring(s)), t);
    if (d.state == CLEAN) same("toTstring(char)", v, t, tchars(d.cps, true));
    else if (d.state == BROKEN) same("toTstring(char)", v, t, Vec());
    else REQUIRE(t.empty() || t == tchars(d.cps, true) || t == v, "toTstring of %s gives %s", show(v).c_str(), show(t).c_str());
}
static void units(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z16 z(v); const char16_t* p = z; std::u16string s = t16(v);
    Decoded d = decUtf16(v); o.cls(stateName(d)); for (uint32_t x : v) o.nt(x >= 0x80);
    isT(v, p, s, d.state == BROKEN ? NO : d.state == CLEAN ? YES : EITHER);
    Vec t = V(toTstring(p));
    same("toTstring(UTF-16 string)", v, V(toTstring(s)), t);
    if (d.state == CLEAN) same("toTstring(UTF-16)", v, t, tchars(d.cps, true));
    else if (d.state == BROKEN) same("toTstring(UTF-16)", v, t, Vec());
    else REQUIRE(t.empty() || t == tchars(d.cps, true) || t == v, "toTstring of %s gives %s", show(v).c_str(), show(t).c_str());
}
static void ucs4(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z32 z(v); const char32_t* p = z; std::u32string s = t32(v);
    bool good = model::isUcs4(v, UTF16); for (uint32_t x : v) o.nt(x >= 0x80);
    o.cls(good ? "valid UCS-4" : "invalid UCS-4");
    isT(v, p, s, good ? YES : NO);
    Vec want = tchars(v, good);
    same("toTstring(UCS-4)", v, V(toTstring(p)), want); same("toTstring(UCS-4 string)", v, V(toTstring(s)), want);
}
static void nulls(const Case&, Obs& o)
{
    o.nt(); o.cls("null pointers");
    const char* a = nullptr; const char16_t* b = nullptr; const char32_t* d = nullptr;
    REQUIRE(toTstring(a).empty() && toTstring(b).empty() && toTstring(d).empty() && ansak::toUtf8(a).empty(), "a null pointer converts to something");
    REQUIRE(isTstring(a) && isTstring(b) && isTstring(d) && ansak::isUtf16(a) && ansak::isUcs2(a) && ansak::isUcs4(a), "a null pointer is not acceptable text");
}
static Prop* mk24()
{
    Prop* p = new Prop; p->id = "P24";
    p->rule = "the text contains at least one unit above 7F";
    Kind z; z.name = "null"; z.weight = 0; z.check = nulls; z.enumSize = [](int) { return (uint64_t)1; }; z.enumAt = [](uint64_t, int) { return Case(); };
    p->kinds.push_back(z);
    Kind b = strKind("utf8", 1, 8, gen::u8, 0, narrow); enumWith(b, gen::enumU8, gen::enumU8At, 8); p->kinds.push_back(b);
    Kind w = strKind("utf16", 2, 8, gen::u16, 0, units); enumWith(w, gen::enumU16, gen::enumU16At, 4); p->kinds.push_back(w);
    Kind u = strKind("ucs4", 4, 8, gen::u32, 0, ucs4); enumWith(u, gen::enumU32, gen::enumU32At, 4); p->kinds.push_back(u);
    Kind wl = strKind("utf16-long", 2, 1, gen::u16Long, 0, units); wl.costly = 20; p->kinds.push_back(wl);
    Kind bl = strKind("utf8-long", 1, 1, gen::u8Long, 0, narrow); bl.costly = 20; p->kinds.push_back(bl);
    Kind ul = strKind("ucs4-long", 4, 1, gen::u32Long, 0, ucs4); ul.costly = 20; p->kinds.push_back(ul);
    return p;
}
static Register r24(mk24());
