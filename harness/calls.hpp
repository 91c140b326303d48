// Every library function as one call on a text and an argument, giving a printable result.
#pragma once
#include "lib.hpp"
#include "internal/string_decode_utf8.hxx"
#include "string_splitjoin.hxx"
#include "string_trim.hxx"

struct Text {               // one text in all its forms, at given addresses
    const char* c8; const char16_t* c16; const char32_t* c32; const wchar_t* cw;
    size_t n8, n16, n32;
    std::string s8() const { return std::string(c8, n8); }
    std::u16string s16() const { return std::u16string(c16, n16); }
    std::u32string s32() const { return std::u32string(c32, n32); }
    wstr sw() const { return wstr(cw, n32); }
};
template <class T> static void putAny(std::string& r, const T& s) { r += std::to_string(s.size()); r += ':'; r.append((const char*)s.data(), s.size() * sizeof(s[0])); }
static std::string R(bool b) { return b ? "T" : "F"; }
static std::string R(unsigned u) { return std::to_string(u); }
template <class C> static std::string R(const std::basic_string<C>& s) { std::string r; putAny(r, s); return r; }
template <class C> static std::string R(const std::vector<std::basic_string<C>>& v) { std::string r; for (auto& s : v) { putAny(r, s); r += '/'; } return r; }

static const char* const kLangs[] = { nullptr, "", "tr", "tr_TR", "en", "az", "az_AZ", "crh", "tt", "ba", "de", "TR", "t", "trx", "tur", "kaz", "aze", "kk" };
static const char* lang(int64_t a) { return kLangs[(size_t)a % (sizeof kLangs / sizeof *kLangs)]; }
static RangeType target(int64_t a) { int k = (int)(a % 7); return k < 6 ? (RangeType)k : badTarget(a / 7); }
static EncodingCheckPredicate pred(int64_t a)
{
    EncodingCheckPredicate p;
    if (a & 1) p = p.andIf((EncodingType)(1 + (a >> 2) % 4));
    if (a & 2) p = p.andIfNot((EncodingType)(1 + (a >> 4) % 4));
    return p;
}
// predicates that live as long as the process, and are used by all
static const EncodingCheckPredicate& shared(int64_t a)
{
    static EncodingCheckPredicate* const p = [] { EncodingCheckPredicate* q = new EncodingCheckPredicate[64]; for (int i = 0; i < 64; ++i) q[i] = pred(i); return q; }();
    return p[a & 63];
}

typedef std::string (*Fn)(const Text& t, int64_t a);
#define FN(e) [](const Text& t, int64_t a) -> std::string { (void)t; (void)a; return R(e); }
static std::string decodeAll(const Text& t, int64_t)
{
    std::string r;
    for (const char* q = t.c8; q && *q; )
    {
        char32_t c = internal::decodeUtf8(q);
        r += std::to_string((uint32_t)c); r += ' '; r += q ? std::to_string(q - t.c8) : "null"; r += ';';
        if (!q || !c) break;
        ++q;
    }
    return r;
}
template <class F> static std::string trimmed(F f, int which, const Text& t)
{
    switch (which)
    {
    case 0: { std::string s = t.s8(); f(s); return R(s); }
    case 1: { std::u16string s = t.s16(); f(s); return R(s); }
    default: { std::u32string s = t.s32(); f(s); return R(s); }
    }
}
static std::string callPred(const EncodingCheckPredicate& p, const Text& t)
{
    std::string r;
    for (size_t i = 0; i < t.n8 && i < 40; ++i) r += R(p(t.c8[i]));
    for (size_t i = 0; i < t.n16 && i < 40; ++i) r += R(p(t.c16[i]));
    for (size_t i = 0; i < t.n32 && i < 40; ++i) r += R(p(t.c32[i]));
    return r;
}
static std::string copyExtend(const Text& t, int64_t a)
{
    EncodingCheckPredicate p = pred(a), q = p;
    q.andIf((EncodingType)(1 + a % 4)); q.andIfNot((EncodingType)(1 + a / 4 % 4));
    return callPred(p, t) + R(p == q) + callPred(q, t) + R(p == pred(a));
}
struct TrimAll { template <class S> void operator()(S& s) { trim(s); } };
struct TrimWs { template <class S> void operator()(S& s) { trimWhiteSpace(s); } };
template <class C> static std::basic_string<C> trimSet(std::basic_string<C> s, int64_t a)
{ std::basic_string<C> set; set.push_back((C)' '); set.push_back((C)(0x40 + a % 0x40)); trim(s, set); return s; }

static const Fn kFns[] = {
    FN(ansak::isUtf8(t.c8)), FN(ansak::isUtf8(t.c8, target(a))), FN(ansak::isUtf8(t.s8(), target(a))), FN(ansak::isUtf8(t.c8, target(a), pred(a))),
    FN(ansak::isUtf8(t.c8, shared(a))), FN(t.n8 ? ansak::isUtf8(t.c8, (unsigned)t.n8) : false), FN(t.n8 ? ansak::isUtf8(t.c8, (unsigned)t.n8, shared(a)) : false), FN(ansak::isUtf8(t.s8(), pred(a))),
    FN(ansak::isUtf16(t.c16)), FN(ansak::isUtf16(t.c16, target(a))), FN(ansak::isUtf16(t.s16(), target(a), pred(a))), FN(ansak::isUtf16(t.c16, shared(a))),
    FN(ansak::isUcs2(t.c16)), FN(ansak::isUcs2(t.c16, target(a))), FN(ansak::isUcs2(t.s16(), target(a), pred(a))), FN(ansak::isUcs2(t.c16, shared(a))),
    FN(ansak::isUcs4(t.c32)), FN(ansak::isUcs4(t.c32, target(a))), FN(ansak::isUcs4(t.s32(), target(a), pred(a))), FN(ansak::isUcs4(t.c32, shared(a))),
    FN(toUcs2(t.c8)), FN(toUcs2(t.s8())), FN(toUtf16(t.c8)), FN(toUtf16(t.s8())), FN(toUcs4(t.c8)), FN(toUcs4(t.s8())),
    FN(toUtf8(t.c16)), FN(toUtf8(t.s16())), FN(toUcs4(t.c16)), FN(toUcs4(t.s16())),
    FN(toUtf8(t.c32)), FN(toUtf8(t.s32())), FN(toUcs2(t.c32)), FN(toUcs2(t.s32())), FN(toUtf16(t.c32)), FN(toUtf16(t.s32())),
    FN(toWstring(t.c8)), FN(toWstring(t.c16)), FN(toWstring(t.s32())), FN(isWstring(t.s8())), FN(isWstring(t.c16)), FN(isWstring(t.c32)),
    FN(ansak::isUtf8(t.cw)), FN(ansak::isUtf16(t.sw())), FN(ansak::isUcs2(t.cw)), FN(ansak::isUcs4(t.sw())), FN(toUtf8(t.cw)), FN(toUtf16(t.sw())), FN(toUcs2(t.cw)), FN(toUcs4(t.sw())),
    FN(unicodeLength(t.c8)), FN(unicodeLength(t.s16())), FN(unicodeLength(t.c32)),
    FN(t.n8 ? unicodeLength(t.c8, (unsigned)t.n8) : 0u), FN(t.n16 ? unicodeLength(t.c16, (unsigned)t.n16) : 0u), FN(t.n32 ? unicodeLength(t.c32, (unsigned)t.n32) : 0u),
    FN(toLower(t.s8())), FN(toLower(t.s16())), FN(toLower(t.s32())), FN(toLower(t.s8(), lang(a))), FN(toLower(t.s16(), lang(a))), FN(toLower(t.s32(), lang(a))), FN(toLower(t.s8(), lang(a / 16))),
    FN(toUtf8(t.c8, kSrcCP1252)), FN(toUtf8(t.c8, kSrcCP1250)), FN(toUtf8(t.c8, (SourceEncoding)(a % 4))), FN(toUtf8(t.c8, (a & 1) ? kSrcCP1252 : kSrcCP1250)),
    FN(getUnicodeVersionSupported()),
    decodeAll, copyExtend,
    [](const Text& t, int64_t a) { return callPred(shared(a), t); },
    [](const Text& t, int64_t a) { return R(ansak::split(t.s8(), (char)(0x20 + a % 0x60))); },
    [](const Text& t, int64_t a) { return R(ansak::split(t.s16(), (char16_t)(0x20 + a % 0x60))); },
    [](const Text& t, int64_t a) { auto v = ansak::split(t.s32(), (char32_t)(0x20 + a % 0x60)); return R(v) + R(ansak::join(v, (char32_t)(0x20 + a / 2 % 0x60))); },
    [](const Text& t, int64_t a) { std::vector<std::string> v{ t.s8(), "x", t.s8() }; return R(ansak::join(v, (char)(0x20 + a % 0x60))); },
    [](const Text& t, int64_t a) { return trimmed(TrimAll(), (int)(a % 3), t); },
    [](const Text& t, int64_t a) { return trimmed(TrimWs(), (int)(a % 3), t); },
    FN(trimSet(t.s8(), a)), FN(trimSet(t.s16(), a)), FN(trimSet(t.s32(), a)),
    [](const Text& t, int64_t a) { auto v = ansak::split(t.s16(), (char16_t)(0x20 + a % 0x60)); return R(v) + R(ansak::join(v, (char16_t)(0x20 + a / 2 % 0x60))); },
    [](const Text& t, int64_t a) { auto v = ansak::split(t.s8(), (char)(0x20 + a % 0x60)); return R(v) + R(ansak::join(v, (char)(0x20 + a / 2 % 0x60))); },
    [](const Text& t, int64_t) { std::string s = t.s8(); trimAscii7WhiteSpace(s); return R(s); },
};
static const int kNFns = sizeof kFns / sizeof *kFns;

