"""Enumerates source snippets with NANO_LOG statements for C17."""
import itertools, re
# text before the statement on its line; entries ending in a control structure guard the statement
PRE = ["", "T(1); ", "\t", "{;}", "if (c == '\"') ", "if (c != '\\'') ", "if (c != '\\\\') ", "if (c != '(') ", 's = "\\""; ', 's = "\\\\"; ', 's = "\\\\\\""; ', "s = \"'\"; ", 's = "//"; ', 's = "/*"; ', 's = ""; ',
       'T("NANO_LOG(ERROR, \\"x\\");"); ', "T('N'); ", "xNANO_LOG(1); ", "NNANO_LOG(1); ", "NANO_NNANO_LOG(1); ", "_NANO_LOG(2); ", "NANO_LOGX(3); ", "NANO_NANO_LOG(4); ", "NANO_LOG_(5); ", "N9NANO_LOG(6); ", "NANO_LO(6); ",
       "int NLVAR = 5; T(NLVAR); ", "{ int NLVAR = 1, b = NLVAR; T(NLVAR + b); } ", "for (int i = 0; i < 2; i++) ", "while (n--) ", "lab: ", "c = 1'000 % 7; ", "c = 0x1'0F & 0xF'F; ", "/* NANO_LOG(NOTICE, \"c\"); */ ", "/* \" */ ", "/* ' */ ",
       's = R"(")"; ', 's = R"x(NANO_LOG(NOTICE, "raw");)x"; T(s); ', 's = R"(\\)"; T(s); ', 's = R"(\n"NANO_LOG(NOTICE, "rawline");\n)"; T(s); ', "c = u'\"'; ", "c = L'\\''; ", "switch (1) case 1: ", "if (T(1)) ", "if (!T(1)) T(2); else ", "do ", "s = \"a\" \"b\"; ", "T(c == '\"' ? 1 : 2); ", "s = \"a\\\nb\"; T(s); ", "NANO_LOG(DEBUG, \"first\"); ", "c = '\"' + '\"'; ", "auto l = [&](int k) { return k; }; "]
# text after it on its line; '@n' statements see the line markers
SUF = ["", " T(2);", "T(3);", " NANO_LOG(ERROR, \"second %d\", 2);", " NANO_LOG(NOTICE, \"m%d\", 1);", " xNANO_LOG(1);", " c = '\"'; NANO_LOG(NOTICE, \"third\");", " ; ;", " // NANO_LOG(NOTICE, \"c\");", " /* \" */ NANO_LOG(DEBUG, \"dbg\");", " T(__builtin_LINE());", " s = \"NANO_LOG(NOTICE, 1)\"; T(s);", "\n\n  T(__builtin_LINE()); NANO_LOG(WARNING, \"later\");", " int NANO_LOG_N = 1; T(NANO_LOG_N);", "NANO_LOG(NOTICE,\"tight\");NANO_LOG(NOTICE,\"tight2\");"]
ARG = [("d", a) for a in ["1", "fn(1, 2)", "(T(1), 2)", "arr[1]", "')'", "'('", "','", "'\"'", "'\\''", "'\\\\'", "';'", "'{'", "']'", "L','", "u'\"'", "[](int a, int b){ return a + b; }(1, 2)", "[&]{ T(4); if (c) { return 3; } return 4; }()", "S2{1, 2}.a", "[c, n]{ return c + n; }()", "[&c, n](int a){ return c + a + n; }(2)", "arr[S2{1, 2}.a]", "std::min<int>(3, 4)", "tmpl<1, 2>()", "1'000", "0x1'F, 1'0 ? 1 : 2"[:5], "arr[fn(0, 1) - 1]", "fn(fn(1, 2), (3))", '(int)sizeof("),(")', "T(7)", "EOF", "INT_MAX", "M2(1, 2)", "c == '\"' ? 1 : 2", "c < 1", "c > 1", "__LINE__", "__builtin_LINE()", "'\\x41'", "'a' + ','", "(c)", "c ? fn(1, ')') : fn(2, '\\\\')", "'\"' == '\"'", "1'0'0", "(int)strlen(\"\\\\\\\"\")", "'\\\"'", "int{'('}", "(EOF + EOF)", "arr[EOF + 2]"]] + \
      [("s", a) for a in ['"x"', '"x,y"', '"a)b"', '"a(b"', '"a\\"b"', '"a\\\\"', '"\\\\\\""', '"a" "b"', '"a"\n"b"', 'str("xy", 1)', '"NANO_LOG(NOTICE, \\"z\\");"', 'R"(q"q)"', 'R"(a,b)"', 'R"x()")x"', 'R"(\\)"', 'R"(a\n")"', 'u8"x"', '"\'"', '"//"', '"/* "', "__func__", 'c ? "a" : "b"', 'SS{"a", ")"}.b', "STRM", '"{"', '"]"', '(char[3]){\'"\', \',\', 0}'[:0] or '"\\x41)"', '"\\\n)"', "s", "std::string(\"s,)\").c_str()", "\"'\" \"\\\"\""]]
# {0} is the conversion of the argument
FMT = ['"m{0}"', '"a\\"{0}"', '"a\\\\{0}"', '"{0}\\\\"', '"{0}\\\\\\""', '"a,{0}"', '"({0}"', '"){0}"', '"{{{0}"', '"]{0}"', '"\'{0}"', '"NANO_LOG(NOTICE, {0});"', '"a" "{0}"', '"a"   \n "{0}" "b"', '"{0}%%"', '"%%{0}"', '"//{0}"', '"/*{0}"', '"\\x41|{0}"', '"\\t{0}\\n"', '"\u00e9{0}"', '"# 1 \\"x.cc\\"{0}"', '"a;{0}"', '"{0}" "\\\\"', '"\\\\" "{0}"', '"\\\\\\\\{0}"', '"" "{0}"', '"{0}" /* , ) " */ "x"', '"\\"" "{0}\\""', '"a {0}, b"', '"a\\\nb{0}"']
SEV = ["NOTICE", "ERROR", "WARNING", "DEBUG", "SEVM", " NOTICE ", "(ERROR)", "NanoLog::LogLevels::ERROR", "/* , */ DEBUG", "\n  WARNING\n"]
def lay(style, toks):
    """joins the tokens of a statement: NANO_LOG ( sev , fmt [, arg]* ) ;"""
    if style == "tight": return "".join(toks)
    if style == "std": return toks[0] + "".join(t + (" " if t == "," else "") for t in toks[1:])
    if style == "sp": return " ".join(toks)
    if style == "tab": return "\t".join(toks)
    if style == "nlcomma": return toks[0] + "".join(t + ("\n        " if t == "," else "") for t in toks[1:])
    if style == "nlall": return "\n".join(toks)
    if style == "nlparen": return toks[0] + "\n  " + "".join(toks[1:])
    if style == "nlsemi": return "".join(toks[:-1]) + "\n  ;"
    if style == "blank": return ("\n\n").join(toks)
    if style == "cmt": return toks[0] + "".join("/* ,) \" */" + t for t in toks[1:])
    if style == "lcmt": return toks[0] + "".join(t + (" // it's ),(\n   " if t == "," else "") for t in toks[1:])
    if style == "bsnl": return " \\\n".join(toks)
LAY = ["std", "tight", "sp", "tab", "nlcomma", "nlall", "nlparen", "nlsemi", "blank", "cmt", "lcmt", "bsnl"]
def stmt(style="std", sev="NOTICE", fmt='"m{0}"', args=(("d", "1"),)):
    f = fmt.replace("{0}", " ".join("%" + k for k, _ in args)).replace("{{", "{").replace("}}", "}")
    toks = ["NANO_LOG", "(", sev, ",", f]
    for _, a in args: toks += [",", a]
    return lay(style, toks + [")", ";"])
def wrap(pre, body, suf):
    t = pre + body + suf
    if pre == "do ": t = pre + body + " while (0);" + suf
    if pre.endswith("else ") and suf.startswith(" T"): t = pre + body + suf
    # the marker after the snippet sees the line numbering
    return t + "\nT(__builtin_LINE()); NANO_LOG(NOTICE, \"end\");"
def snippets(thorough):
    o = []
    A = [(a,) for a in ARG]
    for p in PRE:
        for a in A: o.append(wrap(p, stmt(args=a), ""))
        for s in SUF: o.append(wrap(p, stmt(), s))
        for l in LAY: o.append(wrap(p, stmt(style=l), " T(5);"))
    for f in FMT:
        for a in A: o.append(wrap("", stmt(fmt=f, args=a), ""))
        for s in SUF: o.append(wrap("T(1); ", stmt(fmt=f), s))
        for l in LAY: o.append(wrap("", stmt(style=l, fmt=f), " T(5);"))
    for l in LAY:
        for a in A: o.append(wrap("", stmt(style=l, args=a), " NANO_LOG(ERROR, \"after\");"))
        for s in SUF: o.append(wrap("", stmt(style=l), s))
        for v in SEV: o.append(wrap("", stmt(style=l, sev=v), ""))
    for v in SEV:
        for f in FMT: o.append(wrap("", stmt(sev=v, fmt=f), ""))
        for s in SUF: o.append(wrap("", stmt(sev=v), s))
    for a in A:
        for s in SUF: o.append(wrap("if (c) ", stmt(args=a), s if not s.startswith(" T") else " else" + s))
    for a, b in itertools.product(ARG, ARG) if thorough else itertools.product(ARG[::2], ARG[1::2]): o.append(wrap("", stmt(args=(a, b)), ""))
    if thorough:
        for p in PRE:
            for f in FMT: o.append(wrap(p, stmt(fmt=f), ""))
            for v in SEV: o.append(wrap(p, stmt(sev=v), ""))
        for l in LAY:
            for f in FMT:
                for a in A: o.append(wrap("", stmt(style=l, fmt=f, args=a), ""))
            for p in PRE:
                for s in SUF: o.append(wrap(p, stmt(style=l), s))
    # two statements that must not be mixed up: same line, texts that differ little
    near = ['"a b"', '"a32b"', '"a.b"', '"a46b"', '"a"', '"a "', '"a_b"', '"a95b"']
    for x, y in itertools.product(near, near): o.append(f"NANO_LOG(NOTICE, {x}); NANO_LOG(NOTICE, {y});")
    for x, y in itertools.product(["NOTICE", "ERROR", "DEBUG"], repeat=2):
        for f in ('"same"', '"same %d", 1'): o.append(f"if (c) NANO_LOG({x}, {f}); else NANO_LOG({y}, {f}); NANO_LOG({y}, {f}); NANO_LOG({x}, {f});")
    o += ['LOGM("via macro");', 'LOGM("via macro %d", fn(1, 2)); LOGM("x");', 'NANO_LOG(SEVM, FMTM, 3);', 'NANO_LOG(NOTICE, FMTM " and " FMTM, 3, 4);', 'NANO_LOG(NOTICE, "%" PRId64 " x", (int64_t)5);', 'NANO_LOG(NOTICE, "%" PRIx64, (uint64_t)5); NANO_LOG(NOTICE, "z");', 'NANO_LOG(NOTICE,\n  "a %" PRIu64\n  " b",\n  (uint64_t)5); T(__builtin_LINE());\nNANO_LOG(NOTICE, "z");']
    # a line spliced inside a literal: g++ -E leaves what follows on the joined line, so its line number is unknowable
    o = [x for x in o if not ("\\\n" in x and re.search(r'"[^"\n]*\\\n[^\n]*NANO_LOG[^\n]*NANO_LOG|"[^"\n]*\\\n[^\n]*\); ?[^\n]*NANO_LOG', x))]
    return list(dict.fromkeys(o))
HDIR = "inc.d\u00e9_1"
def tu(name, snips, base):
    """source text of one translation unit; every 7th snippet lives in a header of its own path"""
    h, c = ["#include \"snip.h\"", "namespace NS {"], [f'#include "{HDIR}/{name}.h"', "namespace NS {", "void mark(int i) { NANO_LOG(ERROR, \"##mark %d\", i); }"]
    for i, s in enumerate(snips):
        dst = h if i % 7 == 3 else c
        dst.append(f"static void f{i}() {{ int c = '\"', n = 2, arr[] = {{1, 2, 3}}; const char *s = \"s\"; (void)c; (void)n; (void)arr; (void)s; {{")
        dst.append(s); dst.append("} }")
    h.append("}"); c += [f"extern void (*const fns[])(); extern const int nfns;", "void (*const fns[])() = {" + ", ".join(f"f{i}" for i in range(len(snips))) + "};", f"const int nfns = {len(snips)};", "}"]
    return "\n".join(h) + "\n", "\n".join(c) + "\n"
