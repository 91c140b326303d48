// Reference model: what the library is documented to do, written independently of it.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace model {

typedef std::vector<uint32_t> Vec;

enum Target { ASCII, UTF8, UCS2, UTF16, UCS4, UNICODE, NTARGETS };
enum Tri { NO = 0, YES = 1, EITHER = 2 };

inline uint32_t targetMax(int t)
{
    static const uint32_t m[NTARGETS] = { 0x7f, 0x7fffffff, 0xffff, 0x10ffff, 0xffffffff, 0x10ffff };
    return m[t];
}
inline bool isSurrogate(uint32_t c) { return c >= 0xd800 && c <= 0xdfff; }
inline bool isHigh(uint32_t c) { return c >= 0xd800 && c <= 0xdbff; }
inline bool isLow(uint32_t c) { return c >= 0xdc00 && c <= 0xdfff; }
inline bool fits(uint32_t c, int t) { return !isSurrogate(c) && c <= targetMax(t); }
inline bool allFit(const Vec& v, int t) { for (uint32_t c : v) if (!fits(c, t)) return false; return true; }

enum State { CLEAN, TAIL, BROKEN };

struct Decoded {
    Vec cps;                // complete characters (those before the defect when BROKEN)
    State state = CLEAN;
    size_t at = 0;          // where the tail or the defect starts
    Vec tail;               // the incomplete units
};

// minimum value of an n-byte sequence
inline uint32_t utf8Min(int n) { static const uint32_t m[7] = { 0, 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000 }; return m[n]; }
inline int utf8Len(uint32_t c)
{
    return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
}
inline int utf8Lead(uint32_t b)     // length announced by a first byte, 0 if it is none
{
    if (b < 0x80) return 1;
    if (b < 0xc0) return 0;
    int n = 0;
    while (n < 7 && (b & (0x80u >> n))) ++n;
    return n <= 6 ? n : 0;
}
inline bool isCont(uint32_t b) { return b >= 0x80 && b <= 0xbf; }

// encode c in n bytes (n >= utf8Len(c) gives overlong forms)
inline void putUtf8(Vec& out, uint32_t c, int n)
{
    if (n == 1) { out.push_back(c); return; }
    uint32_t marks[7] = { 0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc };
    out.push_back(marks[n] | (c >> (6 * (n - 1))));
    for (int k = n - 2; k >= 0; --k) out.push_back(0x80 | ((c >> (6 * k)) & 0x3f));
}
inline void putUtf8(Vec& out, uint32_t c) { putUtf8(out, c, utf8Len(c)); }
inline Vec encUtf8(const Vec& cps) { Vec o; for (uint32_t c : cps) putUtf8(o, c); return o; }
inline void putUtf16(Vec& out, uint32_t c)
{
    if (c < 0x10000) out.push_back(c);
    else { out.push_back(0xd7c0 + (c >> 10)); out.push_back(0xdc00 | (c & 0x3ff)); }
}
inline Vec encUtf16(const Vec& cps) { Vec o; for (uint32_t c : cps) putUtf16(o, c); return o; }

// one sequence at b[i]; returns 1 and sets used/cp, 0 if broken, -1 if cut short by the end
inline int oneUtf8(const Vec& b, size_t i, size_t end, uint32_t& cp, size_t& used)
{
    int n = utf8Lead(b[i]);
    if (n == 0) return 0;
    if (n == 1) { cp = b[i]; used = 1; return 1; }
    uint32_t v = b[i] & (0x7fu >> n);
    for (int k = 1; k < n; ++k)
    {
        if (i + k >= end) return -1;
        if (!isCont(b[i + k])) return 0;
        if (k == 1 && b[i] == 0xed && b[i + 1] >= 0xb0) return 0;   // low half out of order
        v = (v << 6) | (b[i + k] & 0x3f);
    }
    if (v < utf8Min(n)) return 0;
    cp = v; used = n;
    return 1;
}

inline Decoded decUtf8(const Vec& b)
{
    Decoded d;
    size_t end = b.size();
    for (size_t i = 0; i < end; )
    {
        uint32_t c = 0, c2 = 0; size_t used = 0, used2 = 0;
        int r = oneUtf8(b, i, end, c, used);
        if (r == 1 && isHigh(c))
        {
            // the other half has to follow, in three bytes of its own
            size_t j = i + 3;
            r = 1;
            for (int k = 0; k < 3 && r == 1; ++k)
            {
                if (j + k >= end) r = -1;
                else if (k == 0 ? (b[j] < 0xe0 || b[j] > 0xef) : !isCont(b[j + k])) r = 0;
            }
            if (r == 1)
            {
                c2 = ((b[j] & 0xf) << 12) | ((b[j + 1] & 0x3f) << 6) | (b[j + 2] & 0x3f);
                used2 = 3;
                if (!isLow(c2)) r = 0;
                else c = 0x10000 + ((c - 0xd800) << 10) + (c2 - 0xdc00);
            }
        }
        if (r == 1) { d.cps.push_back(c); i += used + used2; continue; }
        d.at = i;
        d.state = r == 0 ? BROKEN : TAIL;
        if (r == -1) d.tail.assign(b.begin() + i, b.end());
        break;
    }
    return d;
}

// could the incomplete UTF-8 sequence still become a character that fits target t?
inline bool utf8Completable(const Vec& tail, int t)
{
    int n = utf8Lead(tail[0]);
    uint32_t lo = tail[0] & (0x7fu >> n), hi = lo;
    bool half = false;
    for (int k = 1; k < n; ++k)
    {
        bool have = (size_t)k < tail.size();
        lo = (lo << 6) | (have ? tail[k] & 0x3f : 0);
        hi = (hi << 6) | (have ? tail[k] & 0x3f : 0x3f);
    }
    if (lo < utf8Min(n)) lo = utf8Min(n);
    if (lo > hi) return false;
    half = n == 3 && lo >= 0xd800 && hi <= 0xdbff;
    if (half)
    {
        // a pair is pending: bytes 3.. (if any) must be ED B0..BF
        if (tail.size() > 3 && tail[3] != 0xed) return false;
        if (tail.size() > 4 && tail[4] < 0xb0) return false;
        return targetMax(t) >= 0x10000;
    }
    // some character in [lo,hi] that is no surrogate (or is the first of a pair)
    if (lo > targetMax(t)) return false;
    if (n == 3 && lo >= 0xd800 && hi <= 0xdfff) return false;
    return true;
}

// an incomplete last sequence is judged by its first byte: whether a character it begins could fit
inline Tri utf8TailVerdict(const Vec& tail, int t)
{
    if (t == ASCII) return NO;
    return tail[0] <= 0xc1 || utf8Completable(Vec(1, tail[0]), t) ? YES : NO;
}

inline Tri isUtf8(const Decoded& d, int t)
{
    if (d.state == BROKEN || !allFit(d.cps, t)) return NO;
    return d.state == CLEAN ? YES : utf8TailVerdict(d.tail, t);
}

inline Decoded decUtf16(const Vec& u)
{
    Decoded d;
    for (size_t i = 0; i < u.size(); ++i)
    {
        uint32_t c = u[i];
        if (!isSurrogate(c)) { d.cps.push_back(c); continue; }
        if (isHigh(c) && i + 1 == u.size()) { d.state = TAIL; d.at = i; d.tail.push_back(c); return d; }
        if (isLow(c) || !isLow(u[i + 1])) { d.state = BROKEN; d.at = i; return d; }
        d.cps.push_back(0x10000 + ((c & 0x3ff) << 10) + (u[++i] & 0x3ff));
    }
    return d;
}
inline bool isUtf16(const Decoded& d, int t)
{
    if (d.state == BROKEN || !allFit(d.cps, t)) return false;
    return d.state == CLEAN || targetMax(t) >= 0x10000;
}
inline bool isUcs2(const Vec& u, int t) { return allFit(u, t); }
inline bool isUcs4(const Vec& u, int t) { return allFit(u, t); }

// Unicode Character Database
struct Ucd {
    int version;
    std::vector<uint8_t> assigned;      // per code point
    std::vector<uint32_t> lower;        // per code point
};
const Ucd& ucd(int version);
const Vec& casedLetters();              // every code point with a lower-case mapping in any version
const Vec& assignedEdges();             // first/last of each assigned range and its neighbours, any version

inline bool isPrivate(uint32_t c)
{
    return (c >= 0xe000 && c <= 0xf8ff) || (c >= 0xf0000 && c <= 0xffffd) || (c >= 0x100000 && c <= 0x10fffd);
}
inline bool isControl(uint32_t c) { return c < 0x20 || (c >= 0x7f && c < 0xa0); }
inline bool isSpace(uint32_t c)
{
    return (c >= 9 && c <= 0xd) || c == 0x20 || c == 0x85 || c == 0xa0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200a) ||
           c == 0x2028 || c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000;
}
inline bool isTrimSpace(uint32_t c)
{
    return c == 9 || c == 0xa || c == 0xd || c == 0x20 || c == 0xa0 || (c >= 0x2000 && c <= 0x200a) || c == 0x202f ||
           c == 0x205f || c == 0x3000;
}
inline bool inClass(const Ucd& u, int cls, uint32_t c)      // 1 assigned 2 private 3 control 4 whitespace
{
    switch (cls)
    {
    case 1: return c < 0x110000 && u.assigned[c];
    case 2: return isPrivate(c);
    case 3: return isControl(c);
    case 4: return isSpace(c);
    }
    return true;
}
inline uint32_t lower(const Ucd& u, uint32_t c, bool turkic)
{
    if (turkic && c == 'I') return 0x131;
    return c < 0x110000 ? u.lower[c] : c;
}
bool isTurkic(const std::string& lang);

extern const uint16_t cp1252[256];      // 0 (beyond index 0) is undefined
extern const uint16_t cp1250[256];

}
