"""Generates the statement chunks for C08 (and, through the preprocessor, C18)."""
import itertools, os, sys
INT_T = {"d": {"hh": "v_sc", "h": "v_sh", "": "v_i", "l": "v_l", "ll": "v_ll", "j": "v_j", "z": "v_sz", "t": "v_t"},
         "u": {"hh": "v_uc", "h": "v_us", "": "v_u", "l": "v_ul", "ll": "v_ull", "j": "v_uj", "z": "v_z", "t": "v_t"}}
WID = ["", "1", "12", "*"]
PRE = ["", ".", ".0", ".3", ".12", ".*"]
def subsets(s):
    for r in range(len(s) + 1):
        for c in itertools.combinations(s, r): yield "".join(c)
def stmt(fl, w, p, ln, cv, arr, tail=""):
    mac = "T" + ("W" if w == "*" else "") + ("P" if p == ".*" else "")
    if mac == "T": mac = "T1"
    return f'{mac}({arr}, "%{fl}{w}{p}{ln}{cv}{tail}");'
def specs(thorough):
    out = []
    tails = itertools.cycle(["", "|", " x", "%%", "\\n", "]: "])
    def add(flags, convs, lens, pre=PRE, full=True):
        for cv in convs:
            for ln, arr in lens.items():
                for fl in subsets(flags):
                    if " " in fl and "+" in fl and not thorough: continue
                    if "-" in fl and "0" in fl and not thorough: continue
                    for w in WID:
                        for p in pre:
                            if not thorough and not full and w and p and fl not in ("", "-"): continue
                            out.append(stmt(fl, w, p, ln, cv, arr, next(tails)))
    core = {"": "v_i", "l": "v_l"}; rest = {k: v for k, v in INT_T["d"].items() if k not in core}
    add("-+ 0", "d", core); add("-+0", "d", rest, full=False); add("-+ 0" if thorough else "-", "i", INT_T["d"], full=False)
    add("-#0", "x", {"": "v_u", "l": "v_ul"}); add("-#0" if thorough else "-#", "uoxX", INT_T["u"], full=False)
    add("-+ #0", "f" if not thorough else "feEgGaAF", {"": "v_d"}); add("-+#0" if thorough else "-#", "FeEgGaA", {"": "v_d"}, full=False); add("-0", "fg", {"L": "v_ld", "l": "v_d"}, full=False); add("-", "eaAFEG", {"L": "v_ld"}, full=False); add("-", "eEaAFG", {"l": "v_d"}, ["", ".3"], full=False)
    add("-", "c", {"": "v_c"}, [""]); add("-", "c", {"": "v_ci", "l": "v_lc"}, [""]); add("-", "p", {"": "v_p"}, [""]); add("-", "s", {"": "v_s", "l": "v_ls"})
    # other argument types that are passed to a conversion through the usual promotions
    for cv, arrs in {"d": "v_b v_c v_sc v_sh v_uc v_us", "u": "v_b v_uc v_us", "x": "v_uc v_us v_b", "f": "v_f", "g": "v_f", "c": "v_sc v_uc"}.items():
        for a in arrs.split():
            if cv == "c": out.append(f'T1({a}, "[%{cv}]");'.replace("v_sc", "(v_c)").replace("v_uc", "(v_c)"))
            else: out.append(f'T1({a}, "[%{cv}]");')
    return list(dict.fromkeys(out))
REP = [("%d", "-7"), ("%lu", "1234567890123UL"), ("%s", 'v_s[2]'), ("%.3s", 'v_s[4]'), ("%.*s", '5, v_s[4]'), ("%*s", '9, v_s[1]'), ("%f", "v_d[5]"), ("%c", "'q'"), ("%p", "v_p[2]"), ("%ls", "v_ls[2]"), ("%*.*f", "11, 3, v_d[3]"), ("%hhd", "v_sc[3]"), ("%Lg", "v_ld[2]"), ("%s", 'v_s[0]'), ("%llx", "v_ull[2]"), ("%-8s", "v_s[1]")]
SEP = ["", " ", "%%", "x", "\\\\", ",\\n", "%%%%", "\\\\%%"]
def seqs(thorough):
    out = []; n = 0
    for L in (2, 3):
        pool = REP if L == 2 or thorough else REP[:10]
        for c in itertools.product(pool, repeat=L):
            n += 1; f = SEP[n % 8] if n % 3 == 0 else ""
            for k, (s, _) in enumerate(c): f += s + SEP[(n // 2 + 3 * k) % 8]
            out.append(f'T("{f}", ' + ", ".join(a for _, a in c) + ");")
    # long argument lists
    for n in list(range(4, 21)) + [24, 30]:
        for off in range(len(REP) if thorough else 5):
            c = [REP[(off * 3 + k * (1 + off % 4)) % len(REP)] for k in range(n)]
            out.append('T("' + " ".join(s for s, _ in c) + '", ' + ", ".join(a for _, a in c) + ");")
    return out
TOK = ["%%", "\\\\", "a", "%d", "\\\"", "\\n", "%5s", " "]
def literals(thorough):
    out = []
    for L in range(0, 5 if thorough else 4):
        for c in itertools.product(TOK, repeat=L):
            args = [{"%d": "3", "%5s": 'v_s[1]'}[t] for t in c if t in ("%d", "%5s")]
            f = "".join(c)
            out.append(f'T("{f}"' + ("" if not args else ", " + ", ".join(args)) + ");")
    return out
def special(pp=False):
    o = []
    big = "x" * 900
    o.append(f'T("{big}%d{big}", 5);'); o.append(f'T("{big}");')
    for n in (10230, 10239, 10240, 12000, 25000, 41000):      # around and beyond the decoder's 10 KB of initial space, growing several times
        x = ("abcdefghijklmnopqrstuvwxyz" * (n // 26 + 1))[:n]; o.append(f'T("{x}"); T("%d {x} %s", 5, "abc"); T("{x}%5.2f{x[:n // 3]}", 2.5);')
    o.append('{ static char s[5001]; memset(s, \'y\', 5000); T("%s", s); T("%.4999s|%d", s, 1); T("%d%s", 1, s); T("%*s", 6000, s); }')
    o.append('{ char s[] = "array"; const char c[] = "carray"; T("%s %s", s, c); char *p = s; T("%s", p); T("%p", (void *)p); T("%s", "literal"); T("%.2s", "literal"); }')
    o.append('{ enum E { e0, e1 = 70000 }; E e = e1; T("%d", e); T("%u %x", e, e0); }')
    o.append('{ volatile int v = 12; const int k = 13; int &r = *new int(14); T("%d %d %d", v, k, r); long q = v_l[3]; T("%ld", q); T("%zd %zu", v_sz[3], v_z[1]); }')
    o.append('{ int x; T("%p", &x); T("%p %p", (const void *)&x, (char *)0); const wchar_t w[] = L"arr"; T("%ls|%.2ls", w, w); wchar_t w2[] = L"mutable"; T("%ls", w2); T("%s%ls%s%ls", "a", w, "bc", w2); T("%s%ls", "abcd", w); T("%d%s%ls%c", 1, "ab", w, \'c\'); }')
    o.append('{ int w = -6, p = -1; T("%*d|%.*d|%*.*d", w, 5, p, 5, w, p, 5); T("%*s|%.*s|%*.*s", w, "ab", p, "abc", w, 2, "abc"); T("%*.*f|", w, p, 2.5); T("%-*d|%0*d", w, 3, 6, 3); }')
    o.append('{ int a = 300, b = -129, c = 70000, d = 0x1234567; T("%hhd", a); T("%hhd", b); T("%hd", c); T("%hhu", a); T("%hhx", b); T("%hu %d", c, d); T("%hhd %hx", d, d); T("%c", a); T("%lc", L\'w\'); T("%x", -5); T("%u", -7); T("%d", 4000000000u); T("%lx", -5L); T("%lu", -7L); T("%ld", 1UL << 63); T("%hhx", (signed char)-3); T("%hhu", (char)-3); T("%hx", (short)-3); T("%hhd", (unsigned char)200); T("%hd", (unsigned short)40000); T("%zu", (ssize_t)-3); T("%tx", (ptrdiff_t)-3); T("%jx", (intmax_t)-9); T("%lld", 5L); T("%ld", 5LL); T("%c|", 0); T("%p", "abc"); T("%f %e", 1, 2.0f) ; }'.replace(' T("%f %e", 1, 2.0f) ;', ' T("%e", 2.0f);'))
    if not pp: o.append('{ const unsigned char us[] = "unsigned"; unsigned char um[] = "um"; const signed char ss[] = {\'s\', \'i\', 0}; signed char sm[] = {\'z\', 0}; T("%s", us); T("%s|%d", um, 1); T("%s %s", ss, sm); T("%.3s|%.*s", us, 4, us); T("%p %p", us, sm); T("%d%s%s%d", 1, us, "x", 2); }')
    o.append('{ T("%1$s" + 0 == 0 ? "" : "plain"); }') if False else None
    return [x.replace("; T(", ";\nT(").replace("; } ", ";\n} ") for x in o if x]
def write(d, chunks, thorough, only=None, pp=False):
    st = []
    if not only or "specs" in only: st += specs(thorough)
    if not only or "seqs" in only: st += seqs(thorough)
    if not only or "literals" in only: st += literals(thorough)
    if not only or "special" in only: st += special(pp)
    os.makedirs(d, exist_ok=True)
    for c in range(chunks):
        part = st[c::chunks]
        with open(os.path.join(d, f"chunk{c}.cc"), "w") as f:
            f.write('#include "fmt.h"\n')
            n = 0; k = 0
            for i in range(0, len(part), 40):
                f.write(f"static void part{k}() {{\n" + "\n".join(part[i:i + 40]) + "\n}\n"); k += 1
            f.write("void statements() {" + " ".join(f"part{j}();" for j in range(k)) + "}\n")
    return len(st)
if __name__ == "__main__": print(write(sys.argv[1], int(sys.argv[2]), len(sys.argv) > 3 and sys.argv[3] == "thorough"))
