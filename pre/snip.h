// Environment of the enumerated snippets. The same source is built twice: by the
// preprocessor pipeline (NS=pp) and, as the reference, directly by the compiler,
// which replaces each NANO_LOG token itself (NS=ref).
#pragma once
#include <cstdio>
#include <cstring>
#include <climits>
#include <cinttypes>
#include <cstdarg>
#include <string>
#include <vector>
#include <algorithm>
#include "NanoLog.h"
using namespace NanoLog::LogLevels;
struct Rec { int sev; std::string file; int line; std::string text; bool operator==(const Rec &o) const { return sev == o.sev && file == o.file && line == o.line && text == o.text; } };
extern std::vector<Rec> refRecs;
extern std::vector<std::string> trace;
struct RefAt { const char *f; int l;
    void operator()(NanoLog::LogLevel s, const char *fmt, ...) const { char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); refRecs.push_back({(int)s, f, l, b}); } };
#ifdef REF
#define NANO_LOG RefAt{__FILE__, __LINE__}
#define NLVAR nlvar_
#define NS ref
#else
#define NLVAR NANO_LOG
#define NS pp
#endif
inline int T(int x) { trace.push_back("T" + std::to_string(x)); return x; }
inline int T(const char *s) { trace.push_back(std::string("S") + s); return 1; }
inline int fn(int a, int b) { return a * 10 + b; }
inline const char *str(const char *s, int n) { return s + n; }
template <int A, int B> int tmpl() { return A * 100 + B; }
struct S2 { int a, b; };
struct SS { const char *a, *b; };
inline void xNANO_LOG(int i) { T(1000 + i); }
inline void NNANO_LOG(int i) { T(2000 + i); }
inline void _NANO_LOG(int i) { T(3000 + i); }
inline void NANO_LOGX(int i) { T(4000 + i); }
inline void NANO_NANO_LOG(int i) { T(5000 + i); }
inline void NANO_LOG_(int i) { T(6000 + i); }
inline void N9NANO_LOG(int i) { T(7000 + i); }
inline void NANO_LO(int i) { T(8000 + i); }
inline void NANO_NNANO_LOG(int i) { T(9000 + i); }
#define SEVM WARNING
#define FMTM "macro %d"
#define M2(a, b) fn((a), (b))
#define LOGM(...) NANO_LOG(NOTICE, __VA_ARGS__)
#define STRM "quo\"te"
