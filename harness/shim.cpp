// One build of the library and of a program that uses it, as a shared object: P27 loads several of
// them, built with different compilers and options, and compares what they answer.
#include "calls.hpp"

// what calls.hpp does not have: characters above 7F as delimiters and trim characters, split and
// joined, single bytes against all classes
static std::string bytesClassified(const Text& t, int64_t)
{
    std::string r;
    for (int e = 0; e < 6; ++e)
    {
        EncodingCheckPredicate p = validIf((EncodingType)e), n = validIfNot((EncodingType)e);
        for (size_t i = 0; i < t.n8 && i < 70; ++i) { r += R(p(t.c8[i])); r += R(n(t.c8[i])); }
    }
    return r;
}
template <class C> static std::string highDelimiter(const std::basic_string<C>& s, int64_t a)
{
    C d = s.empty() || a % 3 == 0 ? (C)(0x80 + a % 0x80) : s[(size_t)(a % (int64_t)s.size())];
    auto v = ansak::split(s, d);
    std::basic_string<C> set(1, d), x = s; set.push_back((C)' ');
    trim(x, set);
    return R(v) + R(ansak::join(v, (C)(0xff - a % 0x40))) + R(x);
}
static const Fn kMore[] = {
    bytesClassified,
    [](const Text& t, int64_t a) { return highDelimiter(t.s8(), a); },
    [](const Text& t, int64_t a) { return highDelimiter(t.s16(), a); },
    [](const Text& t, int64_t a) { return highDelimiter(t.s32(), a); },
    [](const Text& t, int64_t a) { return highDelimiter(std::basic_string<wchar_t>(t.sw()), a); },
    [](const Text& t, int64_t) { std::string r; for (int e = -1; e < 5; ++e) { r += R(toUtf8(t.c8, (SourceEncoding)e)); } return r; },
    [](const Text& t, int64_t) { std::string s = t.s8(); trim(s); return R(s); },
    [](const Text& t, int64_t) { std::string s = t.s8(); trimWhiteSpace(s); return R(s); },
    [](const Text& t, int64_t a) {
        EncodingCheckPredicate p = a & 1 ? validIf((EncodingType)(a / 2 % 5)) : validIfNot((EncodingType)(a / 2 % 5));
        return R(ansak::isUtf8(t.c8, p)) + R(ansak::isUtf16(t.c16, p)) + R(ansak::isUcs2(t.c16, p)) + R(ansak::isUcs4(t.c32, p)); },
    [](const Text& t, int64_t) { return R(isWstring(t.c8)) + R(isWstring(t.s16())) + R(isWstring(t.s32())) + R(toWstring(t.s8())) + R(toWstring(t.s16())) + R(toWstring(t.c32)); },
    [](const Text& t, int64_t) { return R(ansak::isUtf8(t.sw())) + R(ansak::isUtf16(t.cw)) + R(ansak::isUcs2(t.sw())) + R(ansak::isUcs4(t.cw)) + R(toUtf8(t.sw())) + R(toUtf16(t.cw)) + R(toUcs2(t.sw())) + R(toUcs4(t.cw)); },
    [](const Text& t, int64_t) { return R(unicodeLength(t.s8())) + R(unicodeLength(t.c16)) + R(unicodeLength(t.s32())); },
};
static const int kNMore = sizeof kMore / sizeof *kMore;

extern "C" __attribute__((visibility("default"))) int variantCalls() { return kNFns + kNMore; }
extern "C" __attribute__((visibility("default"))) void variantCall(int fn, const char* c8, size_t n8, const char16_t* c16, size_t n16, const char32_t* c32, size_t n32, int64_t arg, void (*sink)(void*, const char*, size_t), void* to)
{
    Text t; t.c8 = c8; t.c16 = c16; t.c32 = c32; t.cw = (const wchar_t*)(const void*)c32; t.n8 = n8; t.n16 = n16; t.n32 = n32;
    try { std::string r = (fn < kNFns ? kFns[fn] : kMore[fn - kNFns])(t, arg); sink(to, r.data(), r.size()); }
    catch (...) { sink(to, "an exception", 12); }
}
