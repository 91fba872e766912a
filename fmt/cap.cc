// C09: strings between guard pages, read-only while the call runs, overwritten right after it.
#include "fmt.h"
#include <sys/mman.h>
#include <vector>
#include <string>
#include <cstring>
static char *region; static const size_t PG = 4096;
static void prot(bool writable) { mprotect(region + PG, PG, writable ? PROT_READ | PROT_WRITE : PROT_READ); }
// Places n characters at the end (or the start) of the readable page; nothing around it can be read.
template<class C> static C *place(size_t n, bool term, bool atEnd, int salt = 0) {
    prot(true); memset(region + PG, '!', PG);
    size_t tot = (n + (term ? 1 : 0)) * sizeof(C); C *p = (C *)(atEnd ? region + 2 * PG - tot : region + PG);
    for (size_t i = 0; i < n; ++i) p[i] = 'a' + (i + salt) % 26; if (term) p[n] = 0;
    if (!atEnd && !term) { /* the end guard does not protect here: put other characters behind it */ }
    prot(false); return p;
}
static void spoil() { prot(true); memset(region + PG, '#', PG); }
#define G1(C, F, PREC) do { for (int e_ = 0; e_ < 2; ++e_) for (int n_ = 0; n_ <= 10; ++n_) for (int t_ = 0; t_ < 2; ++t_) { if (!t_ && !((PREC) >= 0 && (PREC) <= n_)) continue; C *s = place<C>(n_, t_, e_, n_); T(F, s); spoil(); } } while (0)
#define GD(C, F) do { for (int p_ : {0, 1, 3, 8, 10, -1, -7}) for (int e_ = 0; e_ < 2; ++e_) for (int n_ = 0; n_ <= 10; ++n_) for (int t_ = 0; t_ < 2; ++t_) { if (!t_ && !(p_ >= 0 && p_ <= n_)) continue; C *s = place<C>(n_, t_, e_, n_); T(F, p_, s); spoil(); } } while (0)
#define GW(C, F) do { for (int w_ : {0, 6, -6}) for (int p_ : {0, 2, 9, -1}) for (int e_ = 0; e_ < 2; ++e_) for (int n_ = 0; n_ <= 10; ++n_) for (int t_ = 0; t_ < 2; ++t_) { if (!t_ && !(p_ >= 0 && p_ <= n_)) continue; C *s = place<C>(n_, t_, e_, n_); T(F, w_, p_, s); spoil(); } } while (0)
// two strings from one unterminated array, other arguments around them
#define G2(C, F, P1, P2) do { for (int e_ = 0; e_ < 2; ++e_) for (int n_ = 0; n_ <= 10; ++n_) for (int t_ = 0; t_ < 2; ++t_) { if (!t_ && !((P1) <= n_ && (P2) <= n_)) continue; C *s = place<C>(n_, t_, e_, n_); T(F, 7, s, 1.5, s); spoil(); } } while (0)
#define GALL(C, L) do { G1(C, "%" L "s", -1); G1(C, "%.0" L "s", 0); G1(C, "%." L "s", 0); G1(C, "%.1" L "s", 1); G1(C, "%.3" L "s", 3); G1(C, "%.10" L "s", 10); G1(C, "%5.3" L "s|", 3); G1(C, "%-12.7" L "s|", 7); G1(C, "%12" L "s", -1); \
    GD(C, "%.*" L "s"); GD(C, "%5.*" L "s|"); GD(C, "%-8.*" L "s|"); GW(C, "%*.*" L "s"); GW(C, "%-*.*" L "s|"); G2(C, "%d %.3" L "s %f %.5" L "s", 3, 5); G2(C, "%d %.5" L "s %f %.1" L "s", 5, 1); \
    do { for (int p_ : {0, 2, 6}) for (int q_ : {0, 3, 9}) for (int n_ = 0; n_ <= 10; ++n_) for (int t_ = 0; t_ < 2; ++t_) { if (!t_ && (p_ > n_ || q_ > n_)) continue; C *s = place<C>(n_, t_, true, 3); T("%.*" L "s|%.*" L "s", p_, s, q_, s); spoil(); s = place<C>(n_, t_, true, 3); T("%.*d %.*" L "s %d %.2f", 9, 5, p_, s, 3, 2.5); spoil(); if (t_) { s = place<C>(n_, t_, true, 3); T("%.*" L "s|%" L "s|%.*f", p_, s, s, q_, 0.5); spoil(); } } } while (0); } while (0)
void statements() {
    region = (char *)mmap(nullptr, 3 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    GALL(char, ""); GALL(unsigned char, ""); GALL(wchar_t, "l");
    // a pointer printed as a pointer: nothing behind it is read
    for (int e = 0; e < 2; ++e) for (int n = 0; n <= 10; ++n) { char *s = place<char>(n, false, e); T("%p", s); T("%d %p %.2s|", 5, s + n, n >= 2 ? s : "ab"); T("%20p %s", (const char *)s + n, "x"); spoil(); unsigned char *u = place<unsigned char>(n, false, e); T("%p %c", u, 'x'); spoil(); wchar_t *w = place<wchar_t>(n, false, e); T("%p|%.*ls", w, n, w); T("%-20p|", w + n); spoil(); T("%p %p", region, region + 3 * PG); }
    // plain values are copied as well
    { int a = 1; long b = 2; double c = 3; char d = 'd'; const void *e = &a; long double f = 4; for (int k = 0; k < 20; ++k) { T("%d %ld %f %c %p %Lf", a, b, c, d, e, f); a = -a * 3; b *= -70000; c = c * 1e5 + 1; d++; e = (char *)e + k; f /= 3; } }
    // long strings, reused buffer
    { std::string s; for (int n = 1; n < 4000; n = n * 3 / 2 + 1) { s.assign(n, 'a' + n % 26); T("%s", s.c_str()); T("%.5s|%s", s.c_str(), s.c_str()); s.assign(n, '#'); } }
}
