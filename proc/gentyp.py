#!/usr/bin/env python3
# gentyp.py OUT.cc [thorough]: statements with every number of arguments 0..N and every rotation of the argument kinds, so that each kind meets each position.
import sys
K = [  # name, conversion, C++ type read back, expression for value number v, va_arg type
 ("int", "%d", "int", "(int)({v} * 7919 - 40000)", "int"), ("cstr", "%s", "const char *", "S[{v} % 7]", "const char *"), ("long", "%ld", "long", "(long){v} * 1000000007L - 5", "long"),
 ("double", "%.17g", "double", "{v} * 0.37 - 3", "double"), ("uint", "%u", "unsigned", "(unsigned){v} * 4000000u", "unsigned"), ("ptr", "%p", "const void *", "(const void *)(0x10000ul + {v})", "const void *"),
 ("ll", "%lld", "long long", "-(long long){v} * 3000000000LL", "long long"), ("ull", "%llx", "unsigned long long", "~(unsigned long long){v}", "unsigned long long"), ("chr", "%c", "int", "(int)('a' + {v} % 26)", "int"),
 ("size", "%zu", "size_t", "(size_t){v} << ({v} % 50)", "size_t"), ("imax", "%jd", "intmax_t", "(intmax_t)-{v} * 77", "intmax_t"), ("hd", "%hd", "short", "(short)({v} * 300 - 9000)", "int"), ("hhu", "%hhu", "unsigned char", "(unsigned char)({v} * 11)", "int"), ("td", "%td", "ptrdiff_t", "(ptrdiff_t)(5 - {v})", "ptrdiff_t"),
 ("hhd", "%hhd", "signed char", "(signed char)({v} * 13 - 90)", "int"), ("flt", "%.9f", "double", "(float)({v} / 8.0)", "double"),
]
out, thorough = sys.argv[1], len(sys.argv) > 2 and sys.argv[2] == "thorough"
ns = list(range(0, 26 if thorough else 23)); rots = range(len(K)) if thorough else range(0, len(K), 2)
o = ['#include "typ.h"', "static void logAll() {"]; n = 0
for c in ns:
    for r in (rots if c else [0]):
        ks = [K[(r + i) % len(K)] for i in range(c)]; v0 = (c * 31 + r * 7) % 97; vals = [k[3].replace("{v}", str(v0 + i * 3)) for i, k in enumerate(ks)]
        fmt = f"m{n}" + "".join(" " + k[1] for k in ks)
        o.append(f'  begin({n}, "{fmt}", __LINE__); ' + " ".join(f"a_{k[0]}({v});" for k, v in zip(ks, vals))); o.append("  NANO_LOG(NOTICE, \"" + fmt + '"' + "".join(", " + v for v in vals) + "); line(__LINE__);"); n += 1
o += ["}", f"static const int COUNT = {n};", '#include "typmain.h"']
open(out, "w").write("\n".join(o) + "\n")
