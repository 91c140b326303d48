// For files compiled with -fshort-wchar: the C library's wide functions are for 32-bit wide
// characters, so the few that std::wstring needs are here.
#pragma once
#include <cstddef>
extern "C" {
size_t wcslen(const wchar_t* s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) noexcept { if (d < s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else while (n--) d[n] = s[n]; return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) noexcept { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
}
