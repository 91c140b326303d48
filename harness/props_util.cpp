// Wide strings, split/join, trimming, code pages, overloads: P14-P19.
#include "lib.hpp"
#include "string_splitjoin.hxx"
#include "string_trim.hxx"
#include <algorithm>
#include <set>

using namespace model;

static void same(const char* what, const Vec& src, const Vec& got, const Vec& want)
{
    REQUIRE(got == want, "%s of %s gives %s, expected %s", what, show(src).c_str(), show(got).c_str(), show(want).c_str());
}
#define IS(e, want) do { bool g_ = (e), w_ = (want); REQUIRE(g_ == w_, "%s is %d for %s", #e, g_, show(v).c_str()); } while (0)

//////////////////////////////////////////////////////////////// P14 32-bit wide strings

static void p14w(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); ZW z(v); const wchar_t* p = z; wstr w = tw(v); Z32 z4(v); const char32_t* q = z4; std::u32string s4 = t32(v);
    bool good = model::isUcs4(v, UTF16), good2 = model::isUcs4(v, UCS2);
    for (uint32_t x : v) o.nt(x >= 0x80);
    o.cls(good2 ? "within FFFF" : good ? "within 10FFFF" : "not acceptable");
    IS(ansak::isUtf8(p), good); IS(ansak::isUtf8(w), good); IS(ansak::isUtf16(p), good); IS(ansak::isUtf16(w), good);
    IS(ansak::isUcs4(p), good); IS(ansak::isUcs4(w), good); IS(ansak::isUcs2(p), good2); IS(ansak::isUcs2(w), good2);
    IS(isWstring(q), good); IS(isWstring(s4), good);
    bool sur = false; for (uint32_t x : v) sur = sur || isSurrogate(x);
    Vec e8 = !sur && allFit(v, UTF8) ? encUtf8(v) : Vec(), e16 = good ? encUtf16(v) : Vec();
    same("toUtf8(wide)", v, V(toUtf8(p)), e8); same("toUtf8(wide string)", v, V(toUtf8(w)), e8); same("toUtf8(UCS-4)", v, V(toUtf8(q)), e8);
    same("toUtf16(wide)", v, V(toUtf16(p)), e16); same("toUtf16(wide string)", v, V(toUtf16(w)), e16);
    same("toUcs2(wide)", v, V(toUcs2(p)), good2 ? v : Vec()); same("toUcs2(wide string)", v, V(toUcs2(w)), good2 ? v : Vec());
    same("toUcs4(wide)", v, V(toUcs4(p)), good ? v : Vec()); same("toUcs4(wide string)", v, V(toUcs4(w)), good ? v : Vec());
    same("toWstring(UCS-4)", v, V(toWstring(q)), good ? v : Vec()); same("toWstring(UCS-4 string)", v, V(toWstring(s4)), good ? v : Vec());
}
static void p14u8(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z8 z(v); const char* p = z; std::string s = t8(v);
    Decoded d = decUtf8(v); o.cls(stateName(d)); for (uint32_t x : v) o.nt(x >= 0x80);
    Tri w = model::isUtf8(d, UTF16);
    if (w != EITHER) { IS(isWstring(p), w == YES); IS(isWstring(s), w == YES); }
    Vec ucs4 = V(toUcs4(p));
    same("toWstring(UTF-8)", v, V(toWstring(p)), ucs4); same("toWstring(UTF-8 string)", v, V(toWstring(s)), ucs4);
    if (d.state == BROKEN) same("toWstring(UTF-8)", v, V(toWstring(p)), Vec());
    else if (d.state == CLEAN) same("toWstring(UTF-8)", v, V(toWstring(p)), d.cps);
}
static void p14u16(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z16 z(v); const char16_t* p = z; std::u16string s = t16(v);
    Decoded d = decUtf16(v); o.cls(stateName(d)); for (uint32_t x : v) o.nt(x >= 0x80);
    bool w = model::isUtf16(d, UTF16);
    IS(isWstring(p), w); IS(isWstring(s), w);
    Vec want = d.state == BROKEN ? Vec() : d.cps;
    same("toWstring(UTF-16)", v, V(toWstring(p)), want); same("toWstring(UTF-16 string)", v, V(toWstring(s)), want);
}
#if WANT(14)
static Prop* mk14()
{
    Prop* p = new Prop; p->id = "P14";
    p->rule = "the text contains at least one unit above 7F";
    Kind w = strKind("wide", 4, 10, gen::u32, 0, p14w); enumWith(w, gen::enumU32, gen::enumU32At, 1); p->kinds.push_back(w);
    Kind b = strKind("utf8", 1, 8, gen::u8, 0, p14u8); enumWith(b, gen::enumU8, gen::enumU8At, 6); p->kinds.push_back(b);
    Kind u = strKind("utf16", 2, 8, gen::u16, 0, p14u16); enumWith(u, gen::enumU16, gen::enumU16At, 6); p->kinds.push_back(u);
    Kind wl = strKind("wide-long", 4, 1, gen::u32Long, 0, p14w); wl.costly = 20; p->kinds.push_back(wl);
    Kind bl = strKind("utf8-long", 1, 1, gen::u8Long, 0, p14u8); bl.costly = 20; p->kinds.push_back(bl);
    Kind ul = strKind("utf16-long", 2, 1, gen::u16Long, 0, p14u16); ul.costly = 20; p->kinds.push_back(ul);
    Kind n; n.name = "wide-length"; n.widths = { 4 }; n.check = p14w; n.weight = 0;
    n.enumSize = [](int level) { return gen::enumLen(level); };
    n.enumAt = [](uint64_t i, int level) { Case c; c.s.push_back(gen::enumLenAt(i, level, 0x10ffff)); return c; };
    p->kinds.push_back(n);
    return p;
}
static Register r14(mk14());
#endif

//////////////////////////////////////////////////////////////// P15 split and join

static uint32_t mask(int type) { return type == 0 || type == 4 ? 0xff : type == 1 ? 0xffff : 0xffffffff; }

static std::vector<Vec> splitModel(const Vec& v, uint32_t d)
{
    std::vector<Vec> r;
    if (v.empty()) return r;
    r.push_back(Vec());
    for (uint32_t x : v) if (x == d) r.push_back(Vec()); else r.back().push_back(x);
    return r;
}
static std::string showAll(const std::vector<Vec>& v)
{
    std::string r; for (size_t i = 0; i < v.size() && i < 12; ++i) r += show(v[i]);
    return std::to_string(v.size()) + ":" + r;
}
template <class C> static void splitJoin(const Vec& v, uint32_t delim, const std::vector<Vec>& pieces)
{
    std::basic_string<C> s = S<C>(v);
    const std::basic_string<C> before = s;
    std::vector<std::basic_string<C>> parts = ansak::split(s, (C)delim);
    std::vector<Vec> got, want = splitModel(v, delim);
    for (auto& q : parts) got.push_back(V(q));
    REQUIRE(got == want, "split of %s by %x (width %zu) gives %s, expected %s", show(v).c_str(), delim, sizeof(C), showAll(got).c_str(), showAll(want).c_str());
    REQUIRE(s == before, "split changed its argument");
    same("join of split", v, V(ansak::join(parts, (C)delim)), v);
    // join of arbitrary pieces
    std::vector<std::basic_string<C>> in; Vec joined; bool free = true;
    for (size_t i = 0; i < pieces.size(); ++i)
    {
        if (i) joined.push_back(delim);
        joined.insert(joined.end(), pieces[i].begin(), pieces[i].end());
        for (uint32_t x : pieces[i]) free = free && x != delim;
        in.push_back(S<C>(pieces[i]));
    }
    const auto inBefore = in;
    Vec j = V(ansak::join(in, (C)delim));
    REQUIRE(j == joined, "join of %s with %x (width %zu) gives %s, expected %s", showAll(pieces).c_str(), delim, sizeof(C), show(j).c_str(), show(joined).c_str());
    REQUIRE(in == inBefore, "join changed its argument");
    if (free && !joined.empty())
    {
        std::vector<Vec> back; for (auto& q : ansak::split(S<C>(joined), (C)delim)) back.push_back(V(q));
        REQUIRE(back == pieces, "split of join of %s with %x gives %s", showAll(pieces).c_str(), delim, showAll(back).c_str());
    }
}
// p0: character type, p1: delimiter; s0: text; s1: pieces, separated by units p2
static void p15(const Case& c, Obs& o)
{
    int type = (int)(((c.P(0) % 6) + 6) % 6);
    uint32_t m = mask(type), delim = (uint32_t)c.P(1) & m, sep = (uint32_t)c.P(2) & m;
    Vec v; for (uint32_t x : c.S(0)) v.push_back(x & m);
    std::vector<Vec> pieces; Vec cur;
    Vec raw; for (uint32_t x : c.S(1)) raw.push_back(x & m);
    if (!raw.empty()) { pieces.push_back(Vec()); for (uint32_t x : raw) if (x == sep) pieces.push_back(Vec()); else pieces.back().push_back(x); }
    size_t n = 0; for (uint32_t x : v) n += x == delim;
    o.nt(n > 0);
    o.cls(n == 0 ? "no delimiter" : n == 1 ? "one delimiter" : "several delimiters");
    if (!v.empty() && n) { if (v.front() == delim) o.cls("delimiter first"); if (v.back() == delim) o.cls("delimiter last"); }
    if (delim == 0) o.cls("null delimiter");
    if (pieces.size() > 1) o.cls("several pieces joined");
    switch (type)
    {
    case 0: splitJoin<char>(v, delim, pieces); break;
    case 1: splitJoin<char16_t>(v, delim, pieces); break;
    case 2: splitJoin<char32_t>(v, delim, pieces); break;
    case 3: splitJoin<wchar_t>(v, delim, pieces); break;
    case 4: splitJoin<unsigned char>(v, delim, pieces); break;
    default: splitJoin<int>(v, delim, pieces); break;
    }
}
static Case gen15(Rng& r, bool big)
{
    Case c;
    int type = r.below(6); uint32_t m = mask(type);
    static const Vec ds = { ',', ' ', 0, '\n', 0x80, 0xff, 0xd800, 0xffff, 0x10000, 0x1f600, 0x7fffffff, 0x80000000, 0xffffffff, ':', '/' };
    uint32_t d = (r.chance(2, 3) ? r.pick(ds) : r.chance(1, 2) ? gen::cp(r, 0xffffffff) : (uint32_t)r.next()) & m, sep = r.chance(1, 3) ? d : r.pick(ds) & m;
    c.p = { type, (int64_t)d, (int64_t)sep };
    for (int k = 0; k < 2; ++k)
    {
        size_t n = big ? 500 + r.below(r.chance(1, 10) ? 70000 : 8000) : gen::length(r);
        if (big && !gen::novel().empty() && r.chance(1, 3)) { uint32_t L = r.pick(gen::novel()); if (L < 150000) n = L + r.below(L + 3); }
        uint32_t a = (uint32_t)r.next() & m, den = 1 + r.below(8);
        Vec v;
        for (size_t i = 0; i < n; ++i) v.push_back(r.chance(1, den) ? (k ? sep : d) : r.chance(1, 2) ? a : r.chance(1, 4) ? (d ^ (1u << r.below(32))) & m : (uint32_t)r.next() & m);
        c.s.push_back(v);
    }
    return c;
}
#if WANT(15)
static Prop* mk15()
{
    Prop* p = new Prop; p->id = "P15";
    p->rule = "the text contains the delimiter at least once";
    Kind k; k.name = "split-join"; k.widths = { 4, 4 }; k.params = 3; k.weight = 20; k.check = p15;
    k.gen = [](Rng& r) { return gen15(r, false); };
    // every text of up to 6 units over {delimiter, a, null}, for each type and three delimiters
    k.enumSize = [](int level) { return (uint64_t)(level ? 9841 : 1093) * 18; };
    k.enumAt = [](uint64_t i, int) {
        Case c; static const int64_t ds[3] = { ',', 0, 0xff };
        uint32_t d = (uint32_t)ds[i / 6 % 3];
        c.p = { (int64_t)(i % 6), (int64_t)d, (int64_t)';' }; i /= 18;
        Vec v, w; uint64_t n = 0, pw = 1;
        while (i >= pw) { i -= pw; pw *= 3; ++n; }
        const uint32_t al[3] = { d, 'a', d ? 0u : 1u }, bl[3] = { ';', 'b', d };
        for (uint64_t j = 0; j < n; ++j) { v.push_back(al[i % 3]); w.push_back(bl[i % 3]); i /= 3; }
        c.s = { v, w };
        return c;
    };
    p->kinds.push_back(k);
    Kind l = k; l.name = "split-join-long"; l.weight = 1; l.costly = 20;
    // texts of every length: all delimiters, none, one at an end, every other
    l.enumSize = [](int level) { return gen::enumLen(level) / 2; };
    l.enumAt = [](uint64_t i, int level) {
        Case c; size_t n = gen::enumLenAt(i * 2, level, 0x7f).size(); if (n > 70000) n = 70000 + n % 7;
        uint32_t d = i & 1 ? ',' : 0x3b; c.p = { (int64_t)(i % 6), (int64_t)d, (int64_t)'|' };
        Vec v(n, 'a' + (uint32_t)(i % 7)), w(n, 'k');
        switch (i % 3) { case 0: std::fill(v.begin(), v.end(), d); std::fill(w.begin(), w.end(), '|'); break; case 1: if (n) { v.back() = d; w[n / 2] = '|'; } break; default: for (size_t j = 0; j < n; j += 2) { v[j] = d; w[j] = '|'; } }
        c.s = { v, w };
        return c;
    };
    l.gen = [](Rng& r) { return gen15(r, true); };
    p->kinds.push_back(l);
    return p;
}
static Register r15(mk15());
#endif

//////////////////////////////////////////////////////////////// P16 trim

static Vec trimModel(const Vec& v, const std::set<uint32_t>& sp)
{
    size_t a = 0, b = v.size();
    while (a < b && sp.count(v[a])) ++a;
    while (b > a && sp.count(v[b - 1])) --b;
    return Vec(v.begin() + a, v.begin() + b);
}
template <class C> static void trimAll(const Vec& v, const Vec& spaces)
{
    std::basic_string<C> s = S<C>(v), sp = S<C>(spaces);
    const auto spBefore = sp;
    std::set<uint32_t> set(spaces.begin(), spaces.end());
    Vec want = trimModel(v, set);
    ansak::trim(s, sp);
    REQUIRE(V(s) == want, "trim of %s by %s (width %zu) gives %s, expected %s", show(v).c_str(), show(spaces).c_str(), sizeof(C), show(V(s)).c_str(), show(want).c_str());
    ansak::trim(s, sp);
    REQUIRE(V(s) == want, "trimming %s twice by %s gives %s", show(v).c_str(), show(spaces).c_str(), show(V(s)).c_str());
    REQUIRE(sp == spBefore, "trim changed its set");
    s = S<C>(v);
    want = trimModel(v, { ' ' });
    ansak::trim(s);
    REQUIRE(V(s) == want, "trim of %s (width %zu) gives %s, expected %s", show(v).c_str(), sizeof(C), show(V(s)).c_str(), show(want).c_str());
    ansak::trim(s);
    REQUIRE(V(s) == want, "trimming %s twice gives %s", show(v).c_str(), show(V(s)).c_str());
}
static void p16(const Case& c, Obs& o)
{
    int type = (int)(((c.P(0) % 6) + 6) % 6);
    uint32_t m = mask(type);
    Vec v, sp; for (uint32_t x : c.S(1)) v.push_back(x & m);
    for (uint32_t x : c.S(0)) sp.push_back(x & m);
    std::set<uint32_t> set(sp.begin(), sp.end());
    Vec w = trimModel(v, set);
    o.nt(w != v || trimModel(v, { ' ' }) != v);
    o.cls(w == v ? "nothing to trim" : w.empty() ? "all trimmed" : set.count(v.front()) && set.count(v.back()) ? "trimmed at both ends" : "trimmed at one end");
    for (size_t i = 0; i < w.size(); ++i) if (set.count(w[i])) { o.cls("trim characters inside"); break; }
    switch (type)
    {
    case 0:
    {
        trimAll<char>(v, sp);
        std::string s = s8(v); Vec want = trimModel(v, { 9, 0xa, 0xd, 0x20 });
        trimAscii7WhiteSpace(s);
        same("trimAscii7WhiteSpace", v, V(s), want);
        trimAscii7WhiteSpace(s);
        same("trimAscii7WhiteSpace twice", v, V(s), want);
        break;
    }
    case 1: trimAll<char16_t>(v, sp); break;
    case 2: trimAll<char32_t>(v, sp); break;
    case 3: trimAll<wchar_t>(v, sp); break;
    case 4: trimAll<unsigned char>(v, sp); break;
    default: trimAll<int>(v, sp); break;
    }
}
static Case gen16(Rng& r, bool big)
{
    Case c; int type = r.chance(1, 3) ? 0 : r.below(6); uint32_t m = mask(type);
    c.p = { type };
    static const Vec usual = { ' ', 9, 0xa, 0xb, 0xc, 0xd, 0x85, 0xa0, 0, 0x1f, 0x21, 0x3000, 0x2003, 0xff, 0x120, 0x10020, 0x80000020 };
    Vec sp; int n = r.chance(1, 12) ? r.below(300) : r.below(6); while (n--) sp.push_back((r.chance(3, 4) ? r.pick(usual) : r.chance(1, 2) ? gen::cp(r, 0xffffffff) : (uint32_t)r.next()) & m);
    if (r.chance(1, 4)) sp = Vec{ 9, 0xa, 0xd, 0x20 };
    Vec v; auto run = [&](size_t k) { while (k--) v.push_back(!sp.empty() && r.chance(2, 3) ? r.pick(sp) : r.pick(usual) & m); };
    uint32_t most = 3000; if (big && !gen::novel().empty() && r.chance(1, 3)) { uint32_t L = r.pick(gen::novel()); if (L < 20000) most = 2 * L + 2; }
    run(r.below(big ? most : 5));
    size_t k = big ? r.below(most) : r.below(8); while (k--) { if (r.chance(1, 3)) run(1); v.push_back(r.chance(1, 2) ? 'a' + r.below(26) : (uint32_t)r.next() & m); }
    run(r.below(big ? most : 5));
    c.s = { sp, v };
    return c;
}
#if WANT(16)
static Prop* mk16()
{
    Prop* p = new Prop; p->id = "P16";
    p->rule = "there is something to trim";
    Kind k; k.name = "trim"; k.widths = { 4, 4 }; k.params = 1; k.weight = 20; k.check = p16;
    k.gen = [](Rng& r) { return gen16(r, false); };
    // every single unit of each width on either side of others, every text of up to 7 units over {space, tab, a}
    k.enumSize = [](int level) { return (uint64_t)65536 * 6 / (level ? 1 : 3) + 3280 * 6; };
    k.enumAt = [](uint64_t i, int level) {
        Case c;
        uint64_t n1 = (uint64_t)65536 * 6 / (level ? 1 : 3);
        if (i < n1)
        {
            if (!level) i = i * 3 + i % 3 > 65536 * 6 - 1 ? i : i * 3 + i % 3;
            uint32_t x = (uint32_t)(i / 6); c.p = { (int64_t)(i % 6) };
            c.s = { i & 64 ? Vec{ x } : Vec{ ' ', x ^ 1 }, i & 32 ? Vec{ x, ' ', 'b', x, ' ' } : Vec{ x, 'b', x } };
            return c;
        }
        i -= n1;
        c.p = { (int64_t)(i % 6) }; i /= 6;
        Vec v; uint64_t n = 0, pw = 1; while (i >= pw) { i -= pw; pw *= 3; ++n; }
        const uint32_t al[3] = { ' ', 9, 'a' };
        for (uint64_t j = 0; j < n; ++j) { v.push_back(al[i % 3]); i /= 3; }
        c.s = { Vec{ 9, ' ' }, v };
        return c;
    };
    p->kinds.push_back(k);
    Kind l = k; l.name = "trim-long"; l.weight = 1; l.costly = 20;
    // every number of trim characters before, in and after the rest
    l.enumSize = [](int level) { return (uint64_t)(level ? 2500 : 540) * 6; };
    l.enumAt = [](uint64_t i, int) {
        Case c; c.p = { (int64_t)(i % 6) }; size_t n = (size_t)(i / 6);
        Vec v; uint32_t s = i & 1 ? ' ' : 9;
        switch (n % 3) { case 0: v.assign(n, s); v.push_back('x'); break; case 1: v.assign(n, 'x'); v.push_back(s); break; default: v.assign(n, s); }
        if (i % 5 == 0) { v.push_back('y'); v.insert(v.end(), n, s); }
        c.s = { Vec{ 9, ' ' }, v };
        return c;
    };
    l.gen = [](Rng& r) { return gen16(r, true); };
    p->kinds.push_back(l);
    return p;
}
static Register r16(mk16());
#endif

//////////////////////////////////////////////////////////////// P17 Unicode white space

static Vec wsModel(const Vec& v)
{
    size_t a = 0, b = v.size();
    while (a < b && isTrimSpace(v[a])) ++a;
    while (b > a && isTrimSpace(v[b - 1])) --b;
    return Vec(v.begin() + a, v.begin() + b);
}
static void p17text(const Case& c, Obs& o)
{
    Vec cps = cleanCps(cut(c.S(0)), 0xffffffff), want = wsModel(cps);
    o.nt(want != cps);
    o.cls(want == cps ? "nothing to trim" : want.empty() ? "all white space" : "trimmed");
    for (size_t i = 0; i < want.size(); ++i) if (isTrimSpace(want[i])) { o.cls("white space inside"); break; }
    std::u32string s = s32(cps); trimWhiteSpace(s); same("trimWhiteSpace(UCS-4)", cps, V(s), want);
    trimWhiteSpace(s); same("trimWhiteSpace(UCS-4) twice", cps, V(s), want);
    if (allFit(cps, UTF16))
    {
        Vec v = encUtf16(cps); std::u16string t = s16(v); trimWhiteSpace(t); same("trimWhiteSpace(UTF-16)", v, V(t), encUtf16(want));
        trimWhiteSpace(t); same("trimWhiteSpace(UTF-16) twice", v, V(t), encUtf16(want));
        v = encUtf8(cps); std::string u = s8(v); trimWhiteSpace(u); same("trimWhiteSpace(UTF-8)", v, V(u), encUtf8(want));
        trimWhiteSpace(u); same("trimWhiteSpace(UTF-8) twice", v, V(u), encUtf8(want));
    }
    else if (allFit(cps, UTF8)) { Vec v = encUtf8(cps); std::string u = s8(v); trimWhiteSpace(u); same("trimWhiteSpace(UTF-8)", v, V(u), Vec()); o.cls("above 10FFFF"); }
}
static void p17raw8(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Decoded d = decUtf8(v);
    o.cls(stateName(d)); for (uint32_t x : v) o.nt(x >= 0x80);
    std::string u = s8(v); trimWhiteSpace(u);
    if (d.state == BROKEN || !allFit(d.cps, UTF16)) { same("trimWhiteSpace(UTF-8)", v, V(u), Vec()); return; }
    same("trimWhiteSpace(UTF-8)", v, V(u), encUtf8(wsModel(d.cps)));
}
static void p17raw16(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)), w = wsModel(v);
    o.nt(w != v);
    std::u16string t = s16(v); trimWhiteSpace(t); same("trimWhiteSpace(UTF-16)", v, V(t), w);
}
static Vec genWs(Rng& r, bool big)
{
    static const Vec ws = { 9, 0xa, 0xd, 0x20, 0xa0, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200a, 0x202f, 0x205f, 0x3000 };
    static const Vec near = { 8, 0xb, 0xc, 0xe, 0x1f, 0x21, 0x85, 0x9f, 0xa1, 0x1680, 0x180e, 0x1fff, 0x200b, 0x2028, 0x2029, 0x202e, 0x2030, 0x205e, 0x2060, 0x2fff, 0x3001, 0xfeff, 0x10020, 0x12003, 0x13000, 0x10202f, 0x20000020 };
    Vec v; auto run = [&](size_t k) { while (k--) v.push_back(r.pick(ws)); };
    uint32_t max = r.chance(1, 10) ? 0xffffffff : r.chance(1, 3) ? 0xffff : 0x10ffff;
    run(r.below(big ? 600 : 5));
    size_t k = r.below(big ? 3000 : 7); while (k--) { if (r.chance(1, 3)) run(1); uint32_t x = r.chance(1, 3) ? r.pick(near) : gen::cp(r, max); v.push_back(x <= max ? x : 'n'); }
    run(r.below(big ? 600 : 5));
    return v;
}
#if WANT(17)
static Prop* mk17()
{
    Prop* p = new Prop; p->id = "P17";
    p->rule = "there is white space to trim, or (raw UTF-8) a byte above 7F";
    Kind k; k.name = "text"; k.widths = { 4 }; k.params = 0; k.weight = 20; k.check = p17text;
    k.gen = [](Rng& r) { Case c; c.s.push_back(genWs(r, false)); return c; };
    k.enumSize = [](int) { return gen::enumCp(); };      // every character at both ends
    k.enumAt = [](uint64_t i, int) { uint32_t x = gen::enumCpAt(i); Case c; c.s.push_back(i & 1 ? Vec{ x, 'm', x } : Vec{ 0x2003, x, ' ', x, 0xa0 }); return c; };
    p->kinds.push_back(k);
    Kind b = strKind("utf8", 1, 6, gen::u8, 0, p17raw8); enumWith(b, gen::enumU8, gen::enumU8At, 12); p->kinds.push_back(b);
    Kind u = strKind("utf16", 2, 6, gen::u16, 0, p17raw16); enumWith(u, gen::enumU16, gen::enumU16At, 12); p->kinds.push_back(u);
    Kind l = k; l.name = "text-long"; l.weight = 1; l.costly = 20; l.gen = [](Rng& r) { Case c; c.s.push_back(genWs(r, true)); return c; };
    l.enumSize = [](int level) { return gen::enumLen(level) / 2; };
    l.enumAt = [](uint64_t i, int level) { Case c; Vec v = gen::enumLenAt(i * 2 + i % 2, level, 0x10ffff); if (v.size() > 20000) v.resize(20000); if (i % 4 == 1) v.assign(v.size() < 3000 ? v.size() : 3000, 0x2003); v.insert(v.begin(), i % 3, ' '); v.insert(v.end(), i % 5, 0x3000); c.s.push_back(v); return c; };
    p->kinds.push_back(l);
    return p;
}
static Register r17(mk17());
#endif

//////////////////////////////////////////////////////////////// P18 code pages

static void p18(const Case& c, Obs& o)
{
    Vec v = cut(c.S(0)); Z8 z(v); const char* p = z;
    for (uint32_t x : v) o.nt(x >= 0x80);
    for (int k = 0; k < 2; ++k)
    {
        const uint16_t* t = k ? cp1250 : cp1252;
        Vec cps; bool ok = true;
        for (uint32_t x : v) { if (!t[x]) ok = false; cps.push_back(t[x]); }
        o.cls(ok ? "all bytes defined" : "undefined byte");
        same(k ? "toUtf8(CP1250)" : "toUtf8(CP1252)", v, V(toUtf8(p, k ? kSrcCP1250 : kSrcCP1252)), ok ? encUtf8(cps) : Vec());
    }
    same("toUtf8(Unicode source)", v, V(toUtf8(p, kSrcUnicode)), v);
    static const int odd[] = { -1, 3, 4, 5, 99, 1250, 1252, 256, 65537, 2147483647, -2147483647 - 1 };
    int e = odd[((c.P(0) % 11) + 11) % 11];
    same("toUtf8(unknown source)", v, V(toUtf8(p, (SourceEncoding)e)), Vec());
    REQUIRE(z.same(v), "toUtf8 changed its source");
    if (c.P(0) % 32 == 0) for (int k = -1; k < 4; ++k) REQUIRE(toUtf8((const char*)nullptr, (SourceEncoding)k).empty(), "toUtf8(null, %d) is not empty", k);
}
#if WANT(18)
// something that looks like another encoding, or that the sources mention, at either end or within
static void sprinkle18(Rng& r, Vec& v)
{
    Vec w;
    switch (r.below(8))
    {
    case 0: w = { 0xef, 0xbb, 0xbf }; break;
    case 1: w = { 0xff, 0xfe }; break;
    case 2: w = encUtf8(gen::text(r, 0x10ffff)); if (w.size() > 24) w.resize(24); break;
    case 3: { int n = 1 + r.below(3); while (n--) w.push_back((gen::novel().empty() ? r.pick(gen::literals()) : r.pick(gen::novel())) & 0xff); break; }
    case 4: if (!gen::novelStrings().empty()) { w = r.pick(gen::novelStrings()); for (uint32_t& x : w) x &= 0xff; } break;
    default: return;
    }
    for (uint32_t& x : w) if (!x) x = 'n';
    size_t at = r.chance(1, 2) ? 0 : r.chance(1, 2) ? v.size() : r.below((uint32_t)v.size() + 1);
    v.insert(v.begin() + at, w.begin(), w.end());
}
static Prop* mk18()
{
    Prop* p = new Prop; p->id = "P18";
    p->rule = "the text contains at least one byte above 7F";
    Kind k; k.name = "bytes"; k.widths = { 1 }; k.params = 1; k.weight = 10; k.check = p18;
    k.gen = [](Rng& r) {
        Case c; c.p.push_back(r.below(64)); Vec v; size_t n = gen::length(r);
        int mode = r.below(4); uint32_t only = 1 + r.below(255);
        while (n--) { uint32_t x = mode == 0 ? 1 + r.below(255) : mode == 1 ? 0x80 + r.below(0x80) : mode == 2 ? (r.chance(1, 8) ? 0x80 + r.below(0x20) : ' ' + r.below(95)) : only;
                      if (r.chance(9, 10)) while (!cp1252[x] || !cp1250[x]) x = 1 + r.below(255);
                      v.push_back(x); }
        sprinkle18(r, v);
        c.s.push_back(v); return c;
    };
    k.enumSize = [](int level) { return (uint64_t)255 + 255 * 255 + (level ? 255ull * 255 * 255 : 0); };
    k.enumAt = [](uint64_t i, int) {
        Case c; c.p.push_back((int64_t)(i % 61));
        if (i < 255) c.s.push_back(Vec{ (uint32_t)i + 1 });
        else { i -= 255; if (i < 255 * 255) c.s.push_back(Vec{ (uint32_t)(i % 255) + 1, (uint32_t)(i / 255) + 1 });
               else { i -= 255 * 255; c.s.push_back(Vec{ (uint32_t)(i % 255) + 1, (uint32_t)(i / 255 % 255) + 1, (uint32_t)(i / 65025) + 1 }); } }
        return c;
    };
    p->kinds.push_back(k);
    Kind l = k; l.name = "bytes-long"; l.weight = 1; l.costly = 10; 
    l.gen = [](Rng& r) { Case c; c.p.push_back(r.below(64)); Vec v; size_t n = 200 + r.below(r.chance(1, 8) ? 70000 : 5000); uint32_t x = 0xa0 + r.below(0x60); while (n--) v.push_back(r.chance(1, 4) ? 0xa0 + r.below(0x60) : x);
                         if (r.chance(1, 3)) v[r.below((uint32_t)v.size())] = 0x80 + r.below(0x20); c.s.push_back(v); return c; };
    l.enumSize = [](int level) { return (uint64_t)(level ? 4200 : 1100) + gen::enumLen(level) / 6; };
    l.enumAt = [](uint64_t i, int level) { Case c; c.p.push_back(1); uint64_t q = level ? 4200 : 1100; if (i >= q) i = gen::enumLenAt((i - q) * 6, level, 0x7f).size(); Vec v(i); for (size_t j = 0; j < i; ++j) v[j] = j % 3 ? 'e' : 0xe9; c.s.push_back(v); return c; };
    p->kinds.push_back(l);
    return p;
}
static Register r18(mk18());
#endif

//////////////////////////////////////////////////////////////// P19 objects and pointers

#define SAMEV(a, b) do { auto x_ = (a); auto y_ = (b); REQUIRE(x_ == y_, "%s and %s differ for %s: %s and %s", #a, #b, show(v).c_str(), show(V(x_)).c_str(), show(V(y_)).c_str()); } while (0)
#define SAMEB(a, b) do { auto x_ = (a); auto y_ = (b); REQUIRE(x_ == y_, "%s and %s differ for %s: %u and %u", #a, #b, show(v).c_str(), (unsigned)x_, (unsigned)y_); } while (0)

static EncodingCheckPredicate predFrom(int64_t x)
{
    EncodingCheckPredicate p;
    for (int i = 0; i < 2; ++i) { int k = (int)(x % 9); x /= 9; if (k == 0) continue; if (k & 1) p = p.andIf((EncodingType)((k + 1) / 2)); else p = p.andIfNot((EncodingType)(k / 2)); }
    return p;
}
static void p19u8(const Case& c, Obs& o)
{
    const Vec& v = c.S(0); Vec t = cut(v); Z8 z(t); const char* p = z; std::string s = s8(v); const std::string before = s;
    o.nt(!t.empty()); o.cls(hasNull(v) ? "embedded null" : "no embedded null");
    EncodingCheckPredicate pr = predFrom(c.P(0)), none;
    for (int k = 0; k < 6; ++k)
    {
        SAMEB(ansak::isUtf8(s, (RangeType)k), ansak::isUtf8(p, (RangeType)k)); SAMEB(ansak::isUtf8(s, (RangeType)k, pr), ansak::isUtf8(p, (RangeType)k, pr));
        SAMEB(ansak::isUtf8(s, (RangeType)k), ansak::isUtf8(s, (RangeType)k, none)); SAMEB(ansak::isUtf8(p, (RangeType)k), ansak::isUtf8(p, (RangeType)k, none));
    }
    SAMEB(ansak::isUtf8(s), ansak::isUtf8(p, kUtf8, none)); SAMEB(ansak::isUtf8(p), ansak::isUtf8(p, kUtf8, none));
    SAMEB(ansak::isUtf8(s, pr), ansak::isUtf8(p, kUtf8, pr)); SAMEB(ansak::isUtf8(p, pr), ansak::isUtf8(p, kUtf8, pr));
    if (!t.empty()) { Z8 e(t, false); SAMEB(ansak::isUtf8((const char*)e, (unsigned)t.size()), ansak::isUtf8((const char*)e, (unsigned)t.size(), none)); }
    SAMEV(toUcs2(s), toUcs2(p)); SAMEV(toUtf16(s), toUtf16(p)); SAMEV(toUcs4(s), toUcs4(p)); SAMEV(toWstring(s), toWstring(p));
    SAMEB(isWstring(s), isWstring(p));
    SAMEB(unicodeLength(s), unicodeLength(p)); SAMEB(unicodeLength(p), unicodeLength(p, 0u));
    SAMEV(toLower(s), toLower(std::string(p))); SAMEV(toLower(s, "tr"), toLower(std::string(p), "tr")); SAMEV(toLower(s), toLower(s, nullptr));
    REQUIRE(s == before && z.same(t) && z.p[t.size()] == 0, "an argument was modified: %s", show(v).c_str());
}
static void p19u16(const Case& c, Obs& o)
{
    const Vec& v = c.S(0); Vec t = cut(v); Z16 z(t); const char16_t* p = z; std::u16string s = s16(v); const std::u16string before = s;
    o.nt(!t.empty()); o.cls(hasNull(v) ? "embedded null" : "no embedded null");
    EncodingCheckPredicate pr = predFrom(c.P(0)), none;
    for (int k = 0; k < 6; ++k)
    {
        SAMEB(ansak::isUtf16(s, (RangeType)k), ansak::isUtf16(p, (RangeType)k)); SAMEB(ansak::isUtf16(s, (RangeType)k, pr), ansak::isUtf16(p, (RangeType)k, pr));
        SAMEB(ansak::isUcs2(s, (RangeType)k), ansak::isUcs2(p, (RangeType)k)); SAMEB(ansak::isUcs2(s, (RangeType)k, pr), ansak::isUcs2(p, (RangeType)k, pr));
        SAMEB(ansak::isUtf16(p, (RangeType)k), ansak::isUtf16(p, (RangeType)k, none)); SAMEB(ansak::isUcs2(p, (RangeType)k), ansak::isUcs2(p, (RangeType)k, none));
    }
    SAMEB(ansak::isUtf16(s), ansak::isUtf16(p, kUtf16, none)); SAMEB(ansak::isUtf16(p), ansak::isUtf16(p, kUtf16, none));
    SAMEB(ansak::isUtf16(s, pr), ansak::isUtf16(p, kUtf16, pr)); SAMEB(ansak::isUtf16(p, pr), ansak::isUtf16(p, kUtf16, pr));
    SAMEB(ansak::isUcs2(s), ansak::isUcs2(p, kUcs2, none)); SAMEB(ansak::isUcs2(p), ansak::isUcs2(p, kUcs2, none));
    SAMEB(ansak::isUcs2(s, pr), ansak::isUcs2(p, kUcs2, pr)); SAMEB(ansak::isUcs2(p, pr), ansak::isUcs2(p, kUcs2, pr));
    SAMEV(toUtf8(s), toUtf8(p)); SAMEV(toUcs4(s), toUcs4(p)); SAMEV(toWstring(s), toWstring(p)); SAMEB(isWstring(s), isWstring(p));
    SAMEB(unicodeLength(s), unicodeLength(p)); SAMEB(unicodeLength(p), unicodeLength(p, 0u));
    SAMEV(toLower(s), toLower(std::u16string(p))); SAMEV(toLower(s, "azj"), toLower(std::u16string(p), "azj")); SAMEV(toLower(s), toLower(s, nullptr));
    REQUIRE(s == before && z.same(t) && z.p[t.size()] == 0, "an argument was modified: %s", show(v).c_str());
}
static void p19u32(const Case& c, Obs& o)
{
    const Vec& v = c.S(0); Vec t = cut(v); Z32 z(t); const char32_t* p = z; std::u32string s = s32(v); const std::u32string before = s;
    ZW zw(t); const wchar_t* q = zw; wstr w = sw(v); const wstr beforeW = w;
    o.nt(!t.empty()); o.cls(hasNull(v) ? "embedded null" : "no embedded null");
    EncodingCheckPredicate pr = predFrom(c.P(0)), none;
    for (int k = 0; k < 6; ++k)
    {
        SAMEB(ansak::isUcs4(s, (RangeType)k), ansak::isUcs4(p, (RangeType)k)); SAMEB(ansak::isUcs4(s, (RangeType)k, pr), ansak::isUcs4(p, (RangeType)k, pr));
        SAMEB(ansak::isUcs4(p, (RangeType)k), ansak::isUcs4(p, (RangeType)k, none));
    }
    SAMEB(ansak::isUcs4(s), ansak::isUcs4(p, kUcs4, none)); SAMEB(ansak::isUcs4(p), ansak::isUcs4(p, kUcs4, none));
    SAMEB(ansak::isUcs4(s, pr), ansak::isUcs4(p, kUcs4, pr)); SAMEB(ansak::isUcs4(p, pr), ansak::isUcs4(p, kUcs4, pr));
    SAMEV(toUtf8(s), toUtf8(p)); SAMEV(toUcs2(s), toUcs2(p)); SAMEV(toUtf16(s), toUtf16(p)); SAMEV(toWstring(s), toWstring(p)); SAMEB(isWstring(s), isWstring(p));
    SAMEB(unicodeLength(s), unicodeLength(p)); SAMEB(unicodeLength(p), unicodeLength(p, 0u));
    SAMEV(toLower(s), toLower(s, nullptr));
    SAMEB(ansak::isUtf8(w), ansak::isUtf8(q)); SAMEB(ansak::isUtf16(w), ansak::isUtf16(q)); SAMEB(ansak::isUcs2(w), ansak::isUcs2(q)); SAMEB(ansak::isUcs4(w), ansak::isUcs4(q));
    SAMEV(toUtf8(w), toUtf8(q)); SAMEV(toUtf16(w), toUtf16(q)); SAMEV(toUcs2(w), toUcs2(q)); SAMEV(toUcs4(w), toUcs4(q));
    REQUIRE(s == before && w == beforeW && z.same(t) && zw.same(t), "an argument was modified: %s", show(v).c_str());
}
template <Vec (*G)(Rng&)> static Case gen19(Rng& r)
{
    Case c; c.p.push_back(r.below(81)); Vec v = G(r);
    if (r.chance(1, 3)) v.insert(v.begin() + r.below((uint32_t)v.size() + 1), 0);
    if (r.chance(1, 20)) { v.push_back(0); v.push_back('x'); }
    c.s.push_back(v);
    return c;
}
#if WANT(19)
static Prop* mk19()
{
    Prop* p = new Prop; p->id = "P19";
    p->rule = "the text before any null is not empty";
    struct { const char* n; int w; Case (*g)(Rng&); void (*f)(const Case&, Obs&); int weight; double costly; } ks[] = {
        { "utf8", 1, gen19<gen::u8>, p19u8, 10, 1 }, { "utf16", 2, gen19<gen::u16>, p19u16, 10, 1 }, { "ucs4", 4, gen19<gen::u32>, p19u32, 10, 1 },
        { "utf8-long", 1, gen19<gen::u8Long>, p19u8, 1, 20 }, { "utf16-long", 2, gen19<gen::u16Long>, p19u16, 1, 20 }, { "ucs4-long", 4, gen19<gen::u32Long>, p19u32, 1, 20 } };
    for (auto& q : ks)
    {
        Kind k; k.name = q.n; k.widths = { q.w }; k.params = 1; k.weight = q.weight; k.gen = q.g; k.check = q.f; k.costly = q.costly;
        p->kinds.push_back(k);
    }
    enumWith(p->kinds[0], gen::enumU8, gen::enumU8At, 24);
    enumWith(p->kinds[1], gen::enumU16, gen::enumU16At, 24);
    enumWith(p->kinds[2], gen::enumU32, gen::enumU32At, 12);
    // every length, for both forms
    p->kinds[3].enumSize = p->kinds[4].enumSize = p->kinds[5].enumSize = [](int level) { return gen::enumLen(level) / 2; };
    p->kinds[3].enumAt = [](uint64_t i, int level) { Case c; c.p.push_back((int64_t)i % 81); c.s.push_back(encUtf8(gen::enumLenAt(i * 2 + i % 2, level, 0x10ffff))); return c; };
    p->kinds[4].enumAt = [](uint64_t i, int level) { Case c; c.p.push_back((int64_t)i % 81); c.s.push_back(encUtf16(gen::enumLenAt(i * 2 + i % 2, level, 0x10ffff))); return c; };
    p->kinds[5].enumAt = [](uint64_t i, int level) { Case c; c.p.push_back((int64_t)i % 81); c.s.push_back(gen::enumLenAt(i * 2 + i % 2, level, 0x10ffff)); return c; };
    return p;
}
static Register r19(mk19());
#endif
