// Reference bodies (assumed contracts) of libc string functions, used by the verifier in place of the external
// function of the same name; natively the real ones run.
#pragma once
#ifndef V_NATIVE
#include <cstddef>
extern "C" {
__attribute__((used)) inline std::size_t __vm_strlen(const char * s) { std::size_t n = 0; while (s[n]) ++n; return n; }
__attribute__((used)) inline char * __vm_strcpy(char * d, const char * s) { std::size_t n = 0; while ((d[n] = s[n])) ++n; return d; }
__attribute__((used)) inline char * __vm_strncpy(char * d, const char * s, std::size_t m) { std::size_t n = 0; for (; n < m && s[n]; ++n) d[n] = s[n]; for (; n < m; ++n) d[n] = 0; return d; }
__attribute__((used)) inline int __vm_strcmp(const char * a, const char * b) { std::size_t n = 0; while (a[n] && a[n] == b[n]) ++n; return int((unsigned char)a[n]) - int((unsigned char)b[n]); }
__attribute__((used)) inline char * __vm_strchr(const char * s, int c) { for (;; ++s) { if (*s == char(c)) return const_cast<char *>(s); if (!*s) return nullptr; } }
// the "C" locale: an ASCII byte is one wide character (other bytes are outside this contract)
__attribute__((used)) inline std::size_t __vm_mbstowcs(wchar_t * d, const char * s, std::size_t m) { std::size_t n = 0; for (; (!d || n < m) && s[n]; ++n) { if ((unsigned char)s[n] > 127) return std::size_t(-1); if (d) d[n] = wchar_t(s[n]); } if (d && n < m) d[n] = 0; return n; }
__attribute__((used)) inline wchar_t * __vm_wmemset(wchar_t * d, wchar_t c, std::size_t n) { for (std::size_t i = 0; i < n; ++i) d[i] = c; return d; }
__attribute__((used)) inline wchar_t * __vm_wmemcpy(wchar_t * d, const wchar_t * s, std::size_t n) { for (std::size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
__attribute__((used)) inline void * __vm_memchr(const void * v, int c, std::size_t n) { const char * s = (const char *)v; for (std::size_t i = 0; i < n; ++i) if (s[i] == char(c)) return (void *)(s + i); return nullptr; }
}
#endif
