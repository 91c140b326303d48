#include "gen.hpp"
#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <sstream>

namespace gen {

using namespace model;

struct Dict { Vec all, novel; std::vector<Vec> strings; };
static const Dict& dict()
{
    static const Dict d = [] {
        Dict r;
        if (const char* f = getenv("LITERALS"))
        {
            std::ifstream in(f); std::string line, w;
            while (std::getline(in, line))
            {
                std::istringstream ls(line); ls >> w;
                uint32_t x; Vec v; while (ls >> std::hex >> x) v.push_back(x);
                if (v.empty()) continue;
                if (w == "s") { r.strings.push_back(v); continue; }
                r.all.push_back(v[0]);
                if (w == "n") r.novel.push_back(v[0]);
            }
        }
        return r;
    }();
    return d;
}
const Vec& literals() { return dict().all; }
const Vec& novel() { return dict().novel; }
const std::vector<Vec>& novelStrings() { return dict().strings; }
static const Vec& novelLens()
{
    static const Vec v = [] {
        Vec r;
        auto add = [&r](uint32_t x) { if (x > 530 && r.size() < 240) r.push_back(x); };
        for (uint32_t L : novel())
        {
            if (L >= 3 && L <= 300000) for (uint32_t x : { L - 1, L, L + 1, L / 2, L / 2 + 1, L / 3, L / 3 + 1, L / 4, L / 4 + 1, 2 * L + 1 }) add(x);
            else if (L > 300000 && L <= 2200000) for (uint32_t x : { L - 1, L, L + 1 }) add(x);
            if (L >= 10 && L <= 20) for (uint32_t x : { (1u << L) - 1, 1u << L, (1u << L) + 1 }) add(x);    // a shift count
        }
        return r;
    }();
    return v;
}
size_t novelLengths() { return novelLens().size(); }

const Vec& boundaryCps()
{
    static const Vec v = [] {
        Vec b;
        for (uint32_t c : { 0x1u, 0x7fu, 0x80u, 0xa0u, 0xffu, 0x100u, 0x7ffu, 0x800u, 0xfffu, 0x1000u, 0x2000u, 0x3000u, 0xcfffu, 0xd000u, 0xd7ffu, 0xe000u,
                            0xf8ffu, 0xf900u, 0xfdd0u, 0xfeffu, 0xfffdu, 0xfffeu, 0xffffu, 0x10000u, 0x103ffu, 0x10400u, 0x1ffffu, 0x20000u, 0x3ffffu, 0x40000u, 0xeffffu, 0xf0000u,
                            0xffffdu, 0xfffffu, 0x100000u, 0x10fffdu, 0x10ffffu, 0x110000u, 0x13ffffu, 0x140000u, 0x1fffffu, 0x200000u, 0x3fffffu,
                            0xffffffu, 0x1000000u, 0x3ffffffu, 0x4000000u, 0x3fffffffu, 0x40000000u, 0x7ffffffeu, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu })
            b.push_back(c);
        for (int k = 1; k < 32; ++k) { b.push_back(1u << k); b.push_back((1u << k) - 1); b.push_back((1u << k) + 1); }
        for (uint32_t c : novel()) b.push_back(c);
        std::sort(b.begin(), b.end());
        b.erase(std::unique(b.begin(), b.end()), b.end());
        b.erase(std::remove_if(b.begin(), b.end(), [](uint32_t c) { return c == 0 || isSurrogate(c); }), b.end());
        return b;
    }();
    return v;
}

uint32_t cp(Rng& r, uint32_t max)
{
    static const Vec spaces = { 9, 0xa, 0xb, 0xc, 0xd, 0x20, 0x85, 0xa0, 0x1680, 0x180e, 0x2000, 0x2004, 0x200a, 0x200b, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x3000, 0xfeff };
    for (;;)
    {
        uint32_t c;
        if (!novel().empty() && r.chance(1, 6)) { c = r.pick(novel()); if (r.chance(1, 4)) c += r.below(3) - 1; }
        else if (!literals().empty() && r.chance(1, 16)) { c = r.pick(literals()); if (r.chance(1, 4)) c += r.below(3) - 1; }
        else switch (r.below(12))
        {
        case 0: case 1: c = 'A' + r.below(58); break;
        case 2: c = 1 + r.below(0x7f); break;
        case 3: case 4: c = r.pick(boundaryCps()); break;
        case 5: c = r.pick(casedLetters()); break;
        case 6: c = r.pick(assignedEdges()); break;
        case 7: c = r.pick(spaces); break;
        case 8: c = r.pick(boundaryCps()) + r.below(5) - 2; break;
        case 9: c = r.below(0x10000); break;
        case 10: c = r.below(0x110000); break;
        default: c = (uint32_t)(r.next() >> (32 + r.below(32))); break;
        }
        if (c != 0 && !isSurrogate(c) && c <= max) return c;
        if (r.chance(1, 8)) { c = 1 + r.below(max == 0xffffffff ? max : max); if (!isSurrogate(c)) return c; }
    }
}

size_t length(Rng& r)
{
    if (!novel().empty() && r.chance(1, 12)) { size_t n = r.pick(novel()); if (n < 2000) return n + r.below(3); }
    switch (r.below(20))
    {
    case 0: return 0;
    case 1: case 2: case 3: case 4: case 5: case 6: return 1 + r.below(3);
    case 7: case 8: case 9: case 10: case 11: case 12: case 13: return 1 + r.below(12);
    case 14: case 15: case 16: return 1 + r.below(40);
    case 17: return 1 + r.below(130);
    case 18: { size_t b = (size_t)1 << (3 + r.below(6)); return b - 2 + r.below(5); }
    default: return r.chance(1, 4) ? 1 + r.below(700) : 1 + r.below(64);
    }
}

uint32_t maxFor(Rng& r)
{
    switch (r.below(10))
    {
    case 0: return 0x7f;
    case 1: case 2: return 0xffff;
    case 3: case 4: case 5: case 6: return 0x10ffff;
    case 7: case 8: return 0x7fffffff;
    default: return 0xffffffff;
    }
}

Vec text(Rng& r, uint32_t max)
{
    Vec v;
    size_t n = length(r);
    v.reserve(n);
    switch (r.below(4))
    {
    case 0:     // runs of one kind, with an odd one
    {
        uint32_t c = cp(r, max);
        v.assign(n, c);
        if (n) v[r.below((uint32_t)n)] = cp(r, max);
        break;
    }
    case 1:     // few distinct characters
    {
        uint32_t a[3] = { cp(r, max), cp(r, max), cp(r, max) };
        for (size_t i = 0; i < n; ++i) v.push_back(a[r.below(3)]);
        break;
    }
    default:
        for (size_t i = 0; i < n; ++i) v.push_back(cp(r, max));
    }
    return v;
}

Vec longText(Rng& r, uint32_t max)
{
    static const uint32_t lens[] = { 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 100, 500, 1000, 2000, 5000,
                                     10000, 8192, 16384, 32767, 32768, 65535, 65536, 65537 };
    size_t n = lens[r.below(r.chance(1, 6) ? 26 : 18)] + r.below(3) - 1;
    if (!novel().empty() && r.chance(1, 3)) { size_t k = r.pick(novel()); if (k >= 2 && k < 200000) n = k + r.below(3) - 1; }
    Vec v(n, cp(r, max));
    uint32_t c2 = cp(r, max);
    if (r.chance(1, 2)) for (size_t i = 0; i < n; i += 2) v[i] = c2;
    v[r.chance(1, 3) ? n - 1 : r.below((uint32_t)n)] = cp(r, max);
    return v;
}

static void fragment8(Rng& r, Vec& out)     // a (usually malformed) piece of UTF-8
{
    static const Vec odd = { 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe2, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff };
    switch (r.below(9))
    {
    case 0:     // overlong
    {
        uint32_t c = cp(r, 0x3ffffff);
        int n = utf8Len(c) + 1 + r.below(2);
        if (r.chance(1, 4)) c = utf8Min(n > 6 ? 6 : n) - 1;
        putUtf8(out, c, n > 6 ? 6 : n);
        break;
    }
    case 1: putUtf8(out, 0xd800 + r.below(0x800), 3); break;                        // lone half
    case 2: putUtf8(out, 0xd800 + r.below(0x400), 3); putUtf8(out, 0xdc00 + r.below(0x400), 3); break;   // CESU pair: valid
    case 3: putUtf8(out, 0xdc00 + r.below(0x400), 3); putUtf8(out, 0xd800 + r.below(0x400), 3); break;   // reversed
    case 4: out.push_back(r.pick(odd)); break;
    case 5: { Vec t; putUtf8(t, cp(r, 0x7fffffff)); t.resize(1 + r.below((uint32_t)t.size())); out.insert(out.end(), t.begin(), t.end()); break; }  // cut short
    case 6: { Vec t; putUtf8(t, 0xd800 + r.below(0x400), 3); putUtf8(t, r.chance(1, 4) ? cp(r, 0xffff) : 0xdc00 + r.below(0x400), 3); t.resize(1 + r.below((uint32_t)t.size())); out.insert(out.end(), t.begin(), t.end()); break; }
    case 7: { int n = 1 + r.below(6); while (n--) out.push_back(r.pick(odd)); break; }
    default: putUtf8(out, 0x110000 + r.below(0x7fffffff - 0x110000)); break;
    }
}

void mutate8(Rng& r, Vec& v)
{
    int n = 1 + r.below(3);
    while (n--)
    {
        size_t at = v.empty() ? 0 : r.below((uint32_t)v.size() + 1);
        switch (r.below(6))
        {
        case 0: case 1: { Vec f; fragment8(r, f); v.insert(v.begin() + at, f.begin(), f.end()); break; }
        case 2: if (!v.empty()) v.erase(v.begin() + r.below((uint32_t)v.size())); break;
        case 3: if (!v.empty()) v[r.below((uint32_t)v.size())] = 1 + r.below(255); break;
        case 4: if (!v.empty()) v.resize(1 + r.below((uint32_t)v.size())); break;
        default: { Vec f; fragment8(r, f); v.insert(v.end(), f.begin(), f.end()); break; }
        }
    }
}

Vec u8(Rng& r)
{
    uint32_t max = maxFor(r) & 0x7fffffff;
    if (max == 0x7fffffff && r.chance(1, 2)) max = 0x10ffff;
    Vec v;
    switch (r.below(10))
    {
    case 0: { size_t n = 1 + r.below(8); while (n--) fragment8(r, v); break; }
    case 1: case 2: case 3: { v = encUtf8(text(r, max)); break; }
    case 4: { Vec t = text(r, max); for (uint32_t c : t) { if (c >= 0x10000 && c <= 0x10ffff && r.chance(1, 2)) { Vec h; putUtf16(h, c); putUtf8(v, h[0], 3); putUtf8(v, h[1], 3); } else putUtf8(v, c); } break; }
    case 5: { v = encUtf8(text(r, max)); fragment8(r, v); break; }
    default: { v = encUtf8(text(r, max)); mutate8(r, v); break; }
    }
    for (uint32_t& b : v) if (b == 0) b = 1;
    return v;
}

Vec u16(Rng& r)
{
    Vec v = encUtf16(text(r, r.chance(1, 5) ? 0x7f : r.chance(1, 3) ? 0xffff : 0x10ffff));
    int n = r.chance(2, 5) ? 0 : 1 + r.below(3);
    while (n--)
    {
        size_t at = v.empty() ? 0 : r.below((uint32_t)v.size() + 1);
        switch (r.below(6))
        {
        case 0: v.insert(v.begin() + at, 0xd800 + r.below(0x400)); break;
        case 1: v.insert(v.begin() + at, 0xdc00 + r.below(0x400)); break;
        case 2: if (!v.empty()) v.erase(v.begin() + r.below((uint32_t)v.size())); break;
        case 3: v.push_back(r.chance(3, 4) ? 0xd800 + r.below(0x400) : 0xdc00 + r.below(0x400)); break;
        case 4: if (!v.empty()) v[r.below((uint32_t)v.size())] = 1 + r.below(0xffff); break;
        default: { Vec f; int k = 1 + r.below(4); while (k--) f.push_back(0xd7fe + r.below(0x804)); v.insert(v.begin() + at, f.begin(), f.end()); }
        }
    }
    return v;
}

Vec u32(Rng& r)
{
    Vec v = text(r, maxFor(r));
    int n = r.chance(1, 2) ? 0 : 1 + r.below(2);
    while (n--)
    {
        size_t at = v.empty() ? 0 : r.below((uint32_t)v.size() + 1);
        switch (r.below(4))
        {
        case 0: v.insert(v.begin() + at, 0xd800 + r.below(0x800)); break;
        case 1: v.insert(v.begin() + at, 0x110000 + r.below(0xffffffffu - 0x110000)); break;
        case 2: if (!v.empty()) v[r.below((uint32_t)v.size())] = (uint32_t)r.next() | 1; break;
        default: { uint32_t c = r.pick(boundaryCps()); v.insert(v.begin() + at, c); }
        }
    }
    return v;
}

//////////////////////////////////////////////////////////////// enumerators

// representatives of every class of byte the decoder can distinguish
static const Vec& repBytes()
{
    static const Vec v = { 0x41, 0x7f, 0x80, 0x83, 0x84, 0x87, 0x88, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef,
                           0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xf9, 0xfb, 0xfc, 0xfd, 0xfe, 0xff };
    return v;
}
static const Vec& repTail()
{
    static const Vec v = { 0x41, 0x80, 0x8f, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc3, 0xe0, 0xed, 0xef, 0xf4 };
    return v;
}
static const Vec& repTail2()
{
    static const Vec v = { 0x41, 0x80, 0xaf, 0xb0, 0xbf, 0xed };
    return v;
}

// sequences of every shape, each with every value in the place of each of its bytes
struct Spoilt { Vec v; size_t at; };
static const std::vector<Spoilt>& spoilt()
{
    static const std::vector<Spoilt> all = [] {
        static const Vec shapes[] = {
            { 0xc2, 0x80 }, { 0xdf, 0xbf }, { 0xe0, 0xa0, 0x80 }, { 0xe1, 0x80, 0xbf }, { 0xec, 0xbf, 0x80 }, { 0xed, 0x9f, 0xbf }, { 0xee, 0x80, 0x80 }, { 0xef, 0xbf, 0xbf },
            { 0xf0, 0x90, 0x80, 0x80 }, { 0xf1, 0x80, 0xbf, 0x95 }, { 0xf3, 0xbf, 0xbf, 0xbf }, { 0xf4, 0x8f, 0xbf, 0xbf }, { 0xf4, 0x90, 0x80, 0x80 }, { 0xf7, 0xbf, 0xbf, 0xbf },
            { 0xf8, 0x88, 0x80, 0x80, 0x80 }, { 0xfa, 0x95, 0xaa, 0x95, 0xaa }, { 0xfb, 0xbf, 0xbf, 0xbf, 0xbf },
            { 0xfc, 0x84, 0x80, 0x80, 0x80, 0x80 }, { 0xfc, 0x95, 0xaa, 0x95, 0xaa, 0x95 }, { 0xfd, 0xbf, 0xbf, 0xbf, 0xbf, 0xbf },
            { 0xed, 0xa0, 0x80, 0xed, 0xb0, 0x80 }, { 0xed, 0xa5, 0x95, 0xed, 0xb5, 0x95 }, { 0xed, 0xaf, 0xbf, 0xed, 0xbf, 0xbf } };
        std::vector<Spoilt> r;
        for (const Vec& v : shapes) for (size_t k = 0; k < v.size(); ++k) r.push_back({ v, k });
        return r;
    }();
    return all;
}

// blocks: spoilt sequences, alone and between characters; 1 byte; 2 bytes; (level 1) 3 bytes, all; lead class x byte x rep; rep^4; lead x tail^4, lead x tail2^5 (+ 1 tail)
uint64_t enumU8(int level)
{
    uint64_t R = repBytes().size(), T = repTail().size(), T2 = repTail2().size();
    uint64_t n = spoilt().size() * 255 * 2 + 255 + 255 * 255;
    n += level ? 255ull * 255 * 255 : R * 255 * R;
    n += R * R * T * T;
    n += R * T * T * T2 * T2;
    n += R * T * T2 * T2 * T2 * T2;
    n += R * T2 * T2 * T2 * T2 * T2 * T2;
    return n;
}

Vec enumU8At(uint64_t i, int level)
{
    const Vec& R = repBytes(); const Vec& T = repTail(); const Vec& T2 = repTail2();
    auto take = [&](uint64_t n) { uint64_t x = i % n; i /= n; return (size_t)x; };
    uint64_t n0 = spoilt().size() * 255 * 2;
    if (i < n0)
    {
        // every value is met early, whatever part of the enumeration is used
        const Spoilt& s = spoilt()[take(spoilt().size())]; uint32_t b = take(255); bool alone = i == 0;
        Vec v = s.v; v[s.at] = b + 1;
        if (!alone) { v.insert(v.begin(), 'a'); v.push_back(0xc3); v.push_back(0xa9); }
        return v;
    }
    i -= n0;
    if (i < 255) return Vec{ (uint32_t)i + 1 };
    i -= 255;
    if (i < 255 * 255) { uint32_t a = take(255), b = take(255); return Vec{ a + 1, b + 1 }; }
    i -= 255 * 255;
    uint64_t n3 = level ? 255ull * 255 * 255 : (uint64_t)R.size() * 255 * R.size();
    if (i < n3)
    {
        if (level) { uint32_t a = take(255), b = take(255), c = take(255); return Vec{ a + 1, b + 1, c + 1 }; }
        size_t a = take(R.size()); uint32_t b = take(255); size_t c = take(R.size());
        return Vec{ R[a], b + 1, R[c] };
    }
    i -= n3;
    uint64_t n4 = (uint64_t)R.size() * R.size() * T.size() * T.size();
    if (i < n4) { size_t a = take(R.size()), b = take(R.size()), c = take(T.size()), d = take(T.size()); return Vec{ R[a], R[b], T[c], T[d] }; }
    i -= n4;
    uint64_t n5 = (uint64_t)R.size() * T.size() * T.size() * T2.size() * T2.size();
    if (i < n5) { size_t a = take(R.size()), b = take(T.size()), c = take(T.size()), d = take(T2.size()), e = take(T2.size()); return Vec{ R[a], T[b], T[c], T2[d], T2[e] }; }
    i -= n5;
    uint64_t n6 = (uint64_t)R.size() * T.size() * T2.size() * T2.size() * T2.size() * T2.size();
    if (i < n6)
    {
        Vec v{ R[take(R.size())], T[take(T.size())] };
        for (int k = 0; k < 4; ++k) v.push_back(T2[take(T2.size())]);
        return v;
    }
    i -= n6;
    Vec v{ R[take(R.size())] };
    for (int k = 0; k < 6; ++k) v.push_back(T2[take(T2.size())]);
    return v;
}

static const Vec& rep16()
{
    static const Vec v = { 1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xda55, 0xdbff, 0xdc00, 0xdc01, 0xde55, 0xdfff, 0xe000, 0xf8ff, 0xfffe, 0xffff };
    return v;
}

uint64_t enumU16(int level)
{
    uint64_t R = rep16().size();
    uint64_t n = 65535 + 65535 * R + R * 65535 + R * R * R + R * R * R * R;
    if (level) n += 1024 * 1024;        // every pair
    return n;
}

Vec enumU16At(uint64_t i, int)
{
    const Vec& R = rep16();
    auto take = [&](uint64_t n) { uint64_t x = i % n; i /= n; return (size_t)x; };
    if (i < 65535) return Vec{ (uint32_t)i + 1 };
    i -= 65535;
    if (i < 65535 * R.size()) { uint32_t a = take(65535); size_t b = take(R.size()); return Vec{ a + 1, R[b] }; }
    i -= 65535 * R.size();
    if (i < 65535 * R.size()) { uint32_t a = take(65535); size_t b = take(R.size()); return Vec{ R[b], a + 1 }; }
    i -= 65535 * R.size();
    uint64_t n3 = (uint64_t)R.size() * R.size() * R.size();
    if (i < n3) { Vec v; for (int k = 0; k < 3; ++k) v.push_back(R[take(R.size())]); return v; }
    i -= n3;
    if (i < n3 * R.size()) { Vec v; for (int k = 0; k < 4; ++k) v.push_back(R[take(R.size())]); return v; }
    i -= n3 * R.size();
    uint32_t h = take(1024), l = take(1024);
    return Vec{ 0xd800 + h, 0xdc00 + l };
}

uint64_t enumCp() { return 0x110000 - 1 + boundaryCps().size() * 5; }
uint32_t enumCpAt(uint64_t i)
{
    if (i < 0x110000 - 1) return (uint32_t)i + 1;
    i -= 0x110000 - 1;
    uint32_t c = boundaryCps()[i / 5] + (uint32_t)(i % 5) - 2;
    return c ? c : 1;
}

uint64_t enumU32(int) { return enumCp() + boundaryCps().size() * boundaryCps().size(); }
Vec enumU32At(uint64_t i, int)
{
    if (i < enumCp()) return Vec{ enumCpAt(i) };
    i -= enumCp();
    const Vec& B = boundaryCps();
    return Vec{ B[i % B.size()], B[i / B.size()] };
}

// text lengths 0..N of a few character mixes
static const uint32_t kMix[][2] = { { 'a', 'a' }, { 'I', 0x130 }, { 0xe9, 'z' }, { 0x20ac, 0x4e00 }, { 0x1f600, 'x' }, { 0x10ffff, 0xffff } };
static const uint32_t kTens[] = { 600, 700, 800, 900, 1000, 1200, 1500, 2000, 2500, 3000, 4000, 5000, 6000, 8000, 10000, 20000, 50000, 100000 };
uint64_t enumLen(int level) { return ((level ? 2100 : 530) + (level ? 60 : 30) + 18 * 3 + novelLens().size()) * 6; }
Vec enumLenAt(uint64_t i, int level, uint32_t max)
{
    uint64_t base = level ? 2100 : 530, pow = level ? 60 : 30;
    uint64_t n = i / 6;
    const uint32_t* m = kMix[i % 6];
    if (n >= base + pow + 54) n = novelLens()[n - base - pow - 54];
    else if (n >= base + pow) { uint64_t k = n - base - pow; n = kTens[k / 3] + k % 3 - 1; }
    else if (n >= base)
    {
        uint64_t k = n - base;      // 2^10-1, 2^10, 2^10+1, ...
        n = ((uint64_t)1 << (10 + (k / 3) % (level ? 9 : 8))) + k % 3 - 1;
    }
    Vec v(n);
    for (size_t j = 0; j < n; ++j) v[j] = (j % 3 == 1) ? m[1] : m[0];
    for (uint32_t& c : v) if (c > max) c = 'q';
    return v;
}

}
