// body(s): messages of session s by the calling thread; first(s), other(s) likewise
int main(int argc, char **argv) {
    const char *f = argv[1]; int s = atoi(argv[2]), kind = atoi(argv[3]); std::string o = std::string(f) + ".other";
    NanoLog::setLogFile(f);
    if (kind == 0) body(s);
    if (kind == 2) { body(s); NanoLog::setLogFile(f); body(s + 50); }
    if (kind == 3) { body(s); NanoLog::setLogFile(o.c_str()); printf("-\n"); fflush(stdout); int keep = dup(1); freopen("/dev/null", "w", stdout); body(s); fflush(stdout); dup2(keep, 1); NanoLog::setLogFile(f); body(s + 70); }
    if (kind == 4) { std::thread t(more, s); t.join(); body(s); NanoLog::sync(); fflush(stdout); _exit(0); }
    if (kind == 5) { more(s); for (int i = 0; i < 30; ++i) body(s + i); }
    if (kind == 6) { more(s); NanoLog::sync(); NanoLog::setLogFile(f); NanoLog::setLogFile(f); more(s + 1); }
    fflush(stdout); return 0;
}
