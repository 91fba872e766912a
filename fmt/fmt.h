// Enumerated NANO_LOG statements: every statement is evaluated with snprintf and with NANO_LOG; afterwards the log of this process is decoded and compared.
#pragma once
#ifdef PREPROCESSOR_NANOLOG
#include "NanoLog.h"
#else
#include "NanoLogCpp17.h"
#endif
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <limits.h>
#include <float.h>
#include <wchar.h>
#include <math.h>
#include <stddef.h>
#include <sys/types.h>
using namespace NanoLog::LogLevels;
void rec(const char *file, int line, const char *fmt, int n);
extern char xbuf[131072];
#define T(F, ...) do { rec(__FILE__, __LINE__, F, snprintf(xbuf, sizeof xbuf, F, ##__VA_ARGS__)); NANO_LOG(NOTICE, F, ##__VA_ARGS__); } while (0)
#define T1(A, F) do { for (unsigned i_ = 0; i_ < sizeof A / sizeof *A; ++i_) T(F, A[i_]); } while (0)
#define TW(A, F) do { for (unsigned i_ = 0; i_ < sizeof A / sizeof *A; ++i_) for (unsigned w_ = 0; w_ < 4; ++w_) T(F, vw[w_], A[i_]); } while (0)
#define TP(A, F) do { for (unsigned i_ = 0; i_ < sizeof A / sizeof *A; ++i_) for (unsigned p_ = 0; p_ < 4; ++p_) T(F, vp[p_], A[i_]); } while (0)
#define TWP(A, F) do { for (unsigned i_ = 0; i_ < sizeof A / sizeof *A; ++i_) for (unsigned w_ = 0; w_ < 4; ++w_) for (unsigned p_ = 0; p_ < 4; ++p_) T(F, vw[w_], vp[p_], A[i_]); } while (0)
static int vw[] = {0, 3, 14, -9}; static int vp[] = {0, 2, 11, -4};
static signed char v_sc[] = {0, 5, -1, SCHAR_MIN, SCHAR_MAX};
static unsigned char v_uc[] = {0, 9, 128, 255};
static short v_sh[] = {0, 7, -1, -256, SHRT_MIN, SHRT_MAX};
static unsigned short v_us[] = {0, 255, 256, USHRT_MAX};
static int v_i[] = {0, 1, -1, 42, 255, 256, -65536, -16777216, -16777215, INT_MAX, INT_MIN};
static unsigned v_u[] = {0, 1, 255, 65536, 0x80000000u, UINT_MAX};
static long v_l[] = {0, 1, -1, INT_MIN, -(1L << 40), -(1L << 56), -(1L << 56) + 1, LONG_MAX, LONG_MIN};
static unsigned long v_ul[] = {0, 1, UINT_MAX, 1UL << 32, 1UL << 56, ULONG_MAX};
static long long v_ll[] = {0, -1, 1LL << 33, -(1LL << 56) - 1, LLONG_MAX, LLONG_MIN};
static unsigned long long v_ull[] = {0, 3, 1ULL << 63, ULLONG_MAX};
static intmax_t v_j[] = {0, -1, INTMAX_MIN, INTMAX_MAX}; static uintmax_t v_uj[] = {0, 1, UINTMAX_MAX};
static size_t v_z[] = {0, 77, SIZE_MAX}; static ssize_t v_sz[] = {0, 77, -1, -300, SSIZE_MAX};
static ptrdiff_t v_t[] = {0, 12, -1, PTRDIFF_MIN, PTRDIFF_MAX};
static double v_d[] = {0.0, -0.0, 1.0, -1.5, 0.1, 123456.789, 1e-7, 1e300, 5e-324, HUGE_VAL, -HUGE_VAL};
static float v_f[] = {0.0f, -2.25f, 3.1415927f, 1e30f};
static long double v_ld[] = {0.0L, -1.25L, 0.1L, 1e4000L, 3.6e-4951L};
static const void *v_p[] = {nullptr, (void *)0x1, (void *)0x7fff12345678, (void *)~0UL};
static char v_c[] = {'a', ' ', '%', '\\', '\n', (char)0xe9};
static int v_ci[] = {'Z', '0', 255};
static wint_t v_lc[] = {L'a', L'%'};
static const char *v_s[] = {"", "a", "hello", "with space and %d %% \\ \"", "0123456789012345678901234567890123456789", "\n\ttab", "\xc3\xa9\xc3\xa8\xc3\xa0"};
static const wchar_t *v_ls[] = {L"", L"w", L"wide string", L"0123456789012345678901234567890123456789"};
static bool v_b[] = {false, true};
