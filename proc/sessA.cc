#include "sess.h"
static void body(int s) { M(NOTICE, "A plain"); M(WARNING, "A session %d of %s", s, "program A"); M(ERROR, "A %d %5.2f %s|%c", -s, s / 3.0, "x", 'k'); }
static void more(int s) { M(WARNING, "A more warnings %d", s); M(NOTICE, "A more %ld %lu %s", (long)s << 33, 7ul, "and more"); }
#include "sessmain.h"
