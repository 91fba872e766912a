import glob, itertools, os, re
import vlib
from checks import C08
from fmt import fmtgen
RULE = "one evaluation = one message decoded in one of three ways (dictionary, generated function, arguments passed to an aggregation function) and compared with snprintf; statements are generated by enumerating the conversion grammar without repetition"
ASSUME = C08.ASSUME + ["arguments have the type of the conversion (the generated functions are typed, others do not compile)", "translation units: all 27 ways to place one of two formats or none on the same line of two sources and a header shared by both"]
def multi(d, n):
    """two translation units and a shared header with statements on the same lines"""
    opt = ["", 'T("same %d", {k});', 'T("other %s", "{k}");']; body = {"": [], "b": [], "h": []}
    for i, c in enumerate(itertools.product(range(3), repeat=3)):
        for k, o in zip(body, c): body[k].append(opt[o].replace("{k}", str(i * 10 + len(k))))
    # the statements start on line 4 of every file
    w = lambda f, lines: open(os.path.join(d, f), "w").write("\n".join(lines) + "\n")
    w(f"chunk{n}h.h", ['#pragma once', '#include "fmt.h"', "inline void hdr() {"] + body["h"] + ["}"])
    w(f"chunk{n}.cc", [f'#include "chunk{n}h.h"', "void second();", "static void first() {"] + body[""] + ["}", "void statements() { first(); second(); hdr(); first(); }"])
    w(f"chunk{n}b.cc", [f'#include "chunk{n}h.h"', "", "void second() {"] + body["b"] + ["hdr(); }"])
def build(chk, d):
    r = vlib.run(["bash", os.path.join(C08.FMT, "build_fmtpp.sh"), d], env={"VSRC": vlib.REPO, "JOBS": str(vlib.JOBS)})
    if r.returncode: raise vlib.HarnessError("preprocessor programs failed to build:\n" + (r.stdout + r.stderr).decode(errors="replace")[-3000:])
    bad = set()
    for e in sorted(glob.glob(os.path.join(d, "*.err"))):
        t = open(e, errors="replace").read(); k = re.sub(r"chunk\d+", "chunk", " ".join(t.split())[:60])
        bad.add(int(re.search(r"chunk(\d+)", os.path.basename(e)).group(1)))
        if len(bad) <= 5: chk.violation("rejected:" + k, "well-formed statements are rejected, or the generated code does not compile: " + " / ".join(x for x in t.replace("\r", "").split("\n") if x.strip())[:500], t)
    return bad
def main():
    chk = vlib.Check("C18", "model_checking", RULE, ASSUME)
    t = chk.tier == "thorough"; d = os.path.join(vlib.scratch(), "fmtpp"); n = 96 if t else 24
    st = fmtgen.write(d, n, t, pp=True); multi(d, n)
    cap = open(os.path.join(C08.FMT, "cap.cc")).read().replace('GALL(unsigned char, "");', ""); open(os.path.join(d, f"chunk{n+1}.cc"), "w").write(cap)
    bad = build(chk, d)
    C08.run_chunks(chk, d, n + 2, f"{st} enumerated statements, several translation units, guarded string arguments", skip=bad)
    return chk.finish()
