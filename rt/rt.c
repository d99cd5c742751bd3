// Out-of-line C library functions, as plain loops, linked into every harness module before encoding.
typedef unsigned long size_t; typedef int wchar;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t wcslen(const wchar* s) { size_t n = 0; while (s[n]) ++n; return n; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
wchar* wmemchr(const wchar* s, wchar c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return (wchar*)(s + i); return 0; }
wchar* wmemcpy(wchar* d, const wchar* s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar* wmemset(wchar* d, wchar c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
