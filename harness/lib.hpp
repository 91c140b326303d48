// Bridging between cases (vectors of units) and the library's types.
#pragma once
#include "engine.hpp"
#include "gen.hpp"
#include "model.hpp"
#include "string.hxx"
#include <memory>
#include <type_traits>

using namespace ansak;

typedef std::basic_string<wchar_t> wstr;

// a heap copy of exactly the given units (and a terminator), so that any stray access is seen;
// in half of the cases not at the start of the block, so that it has any alignment a text may have
template <class C> struct Z {
    size_t n, off;
    std::unique_ptr<C[]> b;
    C* p;
    explicit Z(const Vec& v, bool terminated = true) : n(v.size()), off(shift(v)), b(new C[off + n + (terminated ? 1 : 0)]), p(b.get() + off)
    {
        for (size_t i = 0; i < off; ++i) b[i] = (C)(i & 1 ? 0xd83d : 0xe2);
        for (size_t i = 0; i < n; ++i) p[i] = (C)v[i];
        if (terminated) p[n] = 0;
    }
    operator const C*() const { return p; }
    bool same(const Vec& v) const { for (size_t i = 0; i < n; ++i) if (p[i] != (C)v[i]) return false; return true; }
    static size_t shift(const Vec& v)
    {
        uint32_t h = 99 + (uint32_t)v.size() * 7;
        for (size_t i = 0; i < v.size() && i < 16; ++i) h = (h ^ v[i]) * 16777619u;
        h ^= h >> 13;
        return h & 1 ? 0 : (h >> 1) & 7;
    }
};
typedef Z<char> Z8;
typedef Z<char16_t> Z16;
typedef Z<char32_t> Z32;
typedef Z<wchar_t> ZW;

template <class C> std::basic_string<C> S(const Vec& v)
{
    std::basic_string<C> s(v.size(), C());
    for (size_t i = 0; i < v.size(); ++i) s[i] = (C)v[i];
    return s;
}
inline std::string s8(const Vec& v) { return S<char>(v); }
inline std::u16string s16(const Vec& v) { return S<char16_t>(v); }
inline std::u32string s32(const Vec& v) { return S<char32_t>(v); }
inline wstr sw(const Vec& v) { return S<wchar_t>(v); }

// the same as text objects: one in four goes on with a null and more, which is not part of the text
template <class C> std::basic_string<C> T(const Vec& v)
{
    std::basic_string<C> s = S<C>(v);
    uint32_t h = 2166136261u + (uint32_t)v.size();
    for (size_t i = 0; i < v.size() && i < 64; ++i) h = (h ^ v[i]) * 16777619u;
    h ^= h >> 15;
    if ((h & 3) == 0)
    {
        static const uint32_t junk[] = { 'x', 0xdc00, 0x80, 0xd800, 'I', 0xff, 0, 0xe9 };
        s.push_back(C());
        for (uint32_t k = 0; k < ((h >> 3) & 3); ++k) s.push_back((C)junk[(h >> (6 + 3 * k)) & 7]);
    }
    return s;
}
inline std::string t8(const Vec& v) { return T<char>(v); }
inline std::u16string t16(const Vec& v) { return T<char16_t>(v); }
inline std::u32string t32(const Vec& v) { return T<char32_t>(v); }
inline wstr tw(const Vec& v) { return T<wchar_t>(v); }

template <class C> Vec V(const std::basic_string<C>& s)
{
    Vec v(s.size());
    for (size_t i = 0; i < s.size(); ++i) v[i] = (uint32_t)(typename std::make_unsigned<C>::type)s[i];
    return v;
}
inline Vec V(const std::string& s) { Vec v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = (unsigned char)s[i]; return v; }
inline Vec V(const std::u16string& s) { return Vec(s.begin(), s.end()); }
inline Vec V(const std::u32string& s) { return Vec(s.begin(), s.end()); }
#if WCHAR_MAX < 0x10000
inline Vec V(const wstr& s) { Vec v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = (uint16_t)s[i]; return v; }
#else
inline Vec V(const wstr& s) { Vec v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = (uint32_t)s[i]; return v; }
#endif

inline Vec cut(const Vec& v) { Vec r; for (uint32_t c : v) { if (!c) break; r.push_back(c); } return r; }
inline bool hasNull(const Vec& v) { for (uint32_t c : v) if (!c) return true; return false; }

// code points a case may hold: no nulls, no surrogates, within max
inline Vec cleanCps(const Vec& v, uint32_t max)
{
    Vec r;
    for (uint32_t c : v)
    {
        if (c > max) c = max == 0x10ffff ? c % 0x110000 : max == 0xffffffff ? c : c & max;
        if (!c || model::isSurrogate(c)) c = 'q';
        r.push_back(c);
    }
    return r;
}

// a predicate made of conditions (op, type) packed in two parameters each; -1 ends the list
struct Cond { bool want; int type; };
inline int condType(int64_t x)
{
    static const int odd[] = { -1, 5, 6, 99, -2147483647 - 1, 2147483647 };
    int k = (int)(((x % 11) + 11) % 11);
    return k < 5 ? k : odd[k - 5];
}

inline RangeType badTarget(int64_t x)
{
    static const int odd[] = { -1, 6, 7, 8, 16, 31, 32, 63, 64, 100, 255, 256, 65536, -6, -100, 2147483647, -2147483647 - 1 };
    return (RangeType)odd[((x % 17) + 17) % 17];
}

namespace gen {
// long strings with at most one or two oddities
inline Vec u8Long(Rng& r)
{
    Vec v = model::encUtf8(longText(r, r.chance(1, 4) ? 0x7fffffff : r.chance(1, 3) ? 0x7f : 0x10ffff));
    if (v.size() > 70000) v.resize(70000);
    if (r.chance(1, 2)) mutate8(r, v);
    for (uint32_t& b : v) if (!b) b = 1;
    return v;
}
inline Vec u16Long(Rng& r)
{
    Vec v = model::encUtf16(longText(r, r.chance(1, 3) ? 0x7f : 0x10ffff));
    if (v.size() > 70000) v.resize(70000);
    switch (r.below(6))
    {
    case 0: v.push_back(0xd800 + r.below(0x400)); break;
    case 1: v[r.below((uint32_t)v.size())] = 0xd800 + r.below(0x400); break;
    case 2: v[r.below((uint32_t)v.size())] = 0xdc00 + r.below(0x400); break;
    default: break;
    }
    return v;
}
inline Vec u32Long(Rng& r)
{
    Vec v = longText(r, maxFor(r));
    switch (r.below(6))
    {
    case 0: v[r.below((uint32_t)v.size())] = 0xd800 + r.below(0x800); break;
    case 1: v[r.below((uint32_t)v.size())] = 0x110000 + r.below(0x7fffffff); break;
    default: break;
    }
    return v;
}
}

// kinds made of one string drawn from a generator
inline Kind strKind(const char* name, int width, int weight, Vec (*g)(Rng&), int params, std::function<void(const Case&, Obs&)> check)
{
    Kind k;
    k.name = name; k.widths = { width }; k.params = params; k.weight = weight;
    k.gen = [g, params](Rng& r) { Case c; c.s.push_back(g(r)); for (int i = 0; i < params; ++i) c.p.push_back(r.below(4096)); return c; };
    k.check = check;
    return k;
}
// an enumerator over single strings, every stride-th one at the quick level
inline void enumWith(Kind& k, uint64_t (*size)(int), Vec (*at)(uint64_t, int), uint64_t stride = 1)
{
    k.enumSize = [size, stride](int level) { return level ? size(level) : (size(level) + stride - 1) / stride; };
    k.enumAt = [at, stride](uint64_t i, int level) { Case c; c.p.push_back((int64_t)(i % 4093)); c.s.push_back(at(level ? i : i * stride, level)); return c; };
}

// describes where a decoded text stands, for the class distribution
inline const char* stateName(const model::Decoded& d)
{
    return d.state == model::CLEAN ? "well-formed" : d.state == model::TAIL ? "cut short at the end" : "malformed";
}
