#include <cstdarg>
#include <cstdio>
#include <string>
std::string mcfmt(const char *f, ...) { va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
