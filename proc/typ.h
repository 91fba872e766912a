// C16: what each logged message must deliver: text and typed arguments.
#pragma once
#define EXPOSE_PRIVATES
#ifdef PREPROCESSOR_NANOLOG
#include "NanoLog.h"
#else
#include "NanoLogCpp17.h"
#endif
#include "Log.h"
#ifdef PREPROCESSOR_NANOLOG
#include "GeneratedCode.h"
#endif
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <map>
#include <string>
#include <vector>
using namespace NanoLog::LogLevels; using namespace NanoLogInternal;
static const char *S[] = {"", "x", "two words", "q\"uote", "0123456789012345678901234567890123456789", "tab\there", "z"};
struct Val { char kind; std::string s; };   // kind decides the type of get<>
struct Item { int n; std::string fmt; int line; std::vector<Val> v; uint32_t id = -1; };
static std::vector<Item> items;
static void begin(int n, const char *f, int) { Item i; i.n = n; i.fmt = f; items.push_back(i); }
static void line(int l) { items.back().line = l; }
template<typename T> static std::string show(T v) { char b[64]; if (std::is_floating_point<T>::value) snprintf(b, 64, "%a", (double)v); else if (std::is_signed<T>::value) snprintf(b, 64, "%lld", (long long)v); else snprintf(b, 64, "%llu", (unsigned long long)v); return b; }
template<typename T> static std::string show(T *v) { char b[64]; snprintf(b, 64, "%p", (void *)v); return b; }
static std::string show(const char *s) { return s; }
#define A(NM, C, T) static void a_##NM(T v) { items.back().v.push_back({C, show(v)}); }
A(int, 'i', int) A(cstr, 's', const char *) A(long, 'l', long) A(double, 'd', double) A(uint, 'u', unsigned) A(ptr, 'p', const void *) A(ll, 'L', long long) A(ull, 'U', unsigned long long) A(chr, 'c', int) A(size, 'z', size_t) A(imax, 'j', intmax_t) A(hd, 'h', short) A(hhu, 'b', unsigned char) A(td, 't', ptrdiff_t) A(hhd, 'B', signed char) A(flt, 'f', double)
