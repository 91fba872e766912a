#include "sess.h"


// other statements, other order, other lines
static void more(int s) {
    for (int i = 0; i < 2; ++i)
        M(WARNING, "B loop %d/%d", i, s);
    M(NOTICE, "B %s%s", "", "with a rather long format string that makes the dictionary of this program bigger than that of the other program, so that nothing lines up");
}
static void body(int s) {
    M(ERROR, "B %s first %d", "argument", s);
    M(NOTICE, "B 100%% %x", s * 4099);
    M(NOTICE, "B %*d|%-6d|", 5, s, s);
    M(WARNING, "B plain");
}
#include "sessmain.h"
