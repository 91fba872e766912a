// Uninstrumented copy of the decoder, used by oracles. Built into libdec.so together with /repo's Log.cc.
#include "Log.h"
#include "GeneratedCode.h"
#include <string>
#include <cstring>
#include <cstdio>
#include <cstdlib>
using namespace NanoLogInternal;
// mode 0 unordered, 1 ordered, 2 iterator.  returns 0 ok, 1 could not open; *out malloc'ed
extern "C" __attribute__((visibility("default"))) int dec_decode(const char *path, int mode, char **out, size_t *n, long *count) {
    static Log::Decoder *d = nullptr;
    d = new Log::Decoder();
    FILE *f = open_memstream(out, n);
    int rc = 0; long c = 0;
    if (!d->open(path)) rc = 1;
    else if (mode == 0) c = d->decompressUnordered(f);
    else if (mode == 1) c = d->decompressTo(f);
    else { Log::LogMessage m; while (d->getNextLogStatement(m, f)) c++; }
    fclose(f);
    if (count) *count = c;
    return rc;
}
