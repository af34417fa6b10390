// Definitions of the C library functions whose data flow matters, so that the passes see through them
// (see also --prepare in tools/oblcheck.cpp). Use with -fno-builtin-strlen -fno-builtin-memcmp.
#pragma once
#include <stddef.h>
extern "C" {
size_t strlen(const char* s) noexcept { size_t n = 0; while(s[n]) ++n; return n; }
int memcmp(const void* a, const void* b, size_t n) noexcept
{
    const unsigned char* x = (const unsigned char*)a; const unsigned char* y = (const unsigned char*)b;
    for(; n; --n, ++x, ++y) if(*x != *y) return *x < *y ? -1 : 1;
    return 0;
}
void cstr_large(void*, const void*, size_t) noexcept;     // unknown effect
// eight bytes at a time, then the rest
__attribute__((used)) void cstr_memcpy(void* d, const void* s, size_t n) noexcept
{
    char* x = (char*)d; const char* y = (const char*)s;
    for(; n >= 8; n -= 8, x += 8, y += 8) *(unsigned long long*)x = *(const unsigned long long*)y;
    for(size_t i = 0; i < n; ++i) x[i] = y[i];
}
__attribute__((used)) void cstr_memmove(void* d, const void* s, size_t n) noexcept
{
    char t[64];
    if(n > sizeof(t)) return cstr_large(d, s, n);
    cstr_memcpy(t, s, n);
    cstr_memcpy(d, t, n);
}
__attribute__((used)) void cstr_memset(void* d, unsigned char c, size_t n) noexcept
{
    for(size_t i = 0; i < n; ++i) ((unsigned char*)d)[i] = c;
}
}
