import json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
from pre import snipgen
PRE = os.path.join(vlib.VERIF, "pre")
RULE = "one evaluation = one enumerated source snippet run through the real pipeline (g++ -E, parser.py, compiler, runtime, decoder) and compared with the same snippet in which the compiler itself expanded NANO_LOG: severity, file, line and text of every message, their order, and a trace of the surrounding code; no snippet is repeated"
ASSUME = ["snippets: one statement composed of (text before, layout, severity, format literal, argument(s), text after), every pair of dimensions crossed completely; pairs of arguments; thorough: three dimensions crossed for layout x format x argument and layout x before x after",
          "not claimed: a NANO_LOG nested in the argument of another one, formats that are not literals, messages inside unexpanded macros, the line number of a statement that follows a spliced literal (backslash-newline) on its line (g++ -E does not preserve it)"]
def runtime(d):
    rt = os.path.join(d, "rt"); os.makedirs(rt, exist_ok=True); R = os.path.join(vlib.REPO, "runtime")
    fl = ["g++", "-std=c++17", "-O1", "-include", "array", "-w", "-I" + R, "-I" + PRE, "-DPREPROCESSOR_NANOLOG", "-c"]
    jobs = [(os.path.join(R, f + ".cc"), f) for f in ("Cycles", "Util", "Log", "NanoLog", "RuntimeLogger", "TimeTrace")] + [(os.path.join(PRE, "snip_main.cc"), "snip_main")]
    with ThreadPoolExecutor(vlib.JOBS) as ex: rs = list(ex.map(lambda j: vlib.run(fl + [j[0], "-o", os.path.join(rt, j[1] + ".o")]), jobs))
    for r in rs:
        if r.returncode: raise vlib.HarnessError("runtime does not build:\n" + r.stderr.decode(errors="replace")[-2000:])
def build(d, name, snips):
    os.makedirs(d, exist_ok=True); h, c = snipgen.tu(name, snips, 0)
    os.makedirs(os.path.join(d, snipgen.HDIR), exist_ok=True); open(os.path.join(d, snipgen.HDIR, name + ".h"), "w").write(h); open(os.path.join(d, name + ".cc"), "w").write(c)
    return vlib.run(["bash", os.path.join(PRE, "pipe.sh"), name], cwd=d, env={"VSRC": vlib.REPO, "RTDIR": os.path.join(vlib.scratch(), "pre", "rt")}, timeout=400)
def why(r):
    t = (r.stdout + r.stderr).decode(errors="replace").strip().replace("\r", "")
    return ("the preprocessor rejects it: " if r.returncode == 4 else "the rewritten program does not compile: ") + t[:400].replace("\n", " / ")
def culprit(d, snips, r, depth=0):
    """smallest part of a failing program that still fails"""
    if len(snips) == 1: return snips[0], why(r)
    m = len(snips) // 2
    for part in (snips[:m], snips[m:]):
        q = build(os.path.join(d, "b"), "b", part)
        if q.returncode == 3: raise vlib.HarnessError("reference does not build: " + q.stderr.decode(errors="replace")[-1500:])
        if q.returncode: return culprit(d, part, q)
    return "\n".join(snips[:3]), "only in combination: " + why(r)
def chunk(a):
    root, i, snips = a; d = os.path.join(root, f"k{i}")
    try:
        r = build(d, f"k{i}", snips)
        if r.returncode == 3: return {"harness": "reference does not build: " + r.stderr.decode(errors="replace")[-1500:]}
        if r.returncode: s, w = culprit(d, snips, r); return {"evals": 1, "bad": [(s, w)]}
        out = os.path.join(d, "out.json")
        try: rc = vlib.run([os.path.join(d, f"k{i}.exe"), out], cwd=d, timeout=250).returncode
        except subprocess.TimeoutExpired: rc = "timeout"
        try: j = json.load(open(out))
        except Exception: return {"evals": 1, "bad": [(f"program of snippets {i}", f"the program with the rewritten statements died ({rc})")]}
        return {"evals": j["evals"], "records": j["records"], "distinct": j["distinct"], "sample": j["sample"], "bad": [(snips[v["snippet"]], v["text"]) for v in j["violations"]], "nbad": j["bad"]}
    except subprocess.TimeoutExpired: return {"evals": 1, "bad": [(f"program of snippets {i}", "preprocessing or compiling did not end")]}
    finally: shutil.rmtree(d, ignore_errors=True)
def run_snips(chk, snips, n, what):
    d = os.path.join(vlib.scratch(), "pre"); runtime(d)
    with ThreadPoolExecutor(vlib.JOBS) as ex: rs = list(ex.map(chunk, [(d, i, snips[i::n]) for i in range(n)]))
    recs = 0; seen = 0
    for r in rs:
        if "harness" in r: raise vlib.HarnessError(r["harness"])
        recs += r.get("records", 0)
        chk.add(evaluations=r["evals"], traces_validated_against_impl=r.get("records", 0), states=r["evals"], transitions=r.get("records", 0), distinct_nontrivial=r.get("distinct", 0))
        if r.get("sample"): chk.sample(r["sample"])
        for s, w in r["bad"]:
            seen += 1
            if seen <= 8: chk.violation("snippet:" + s[:80].replace("\n", "\\n"), f"{s!r}: {w}", s)
    chk.part({"what": what, "snippets": len(snips), "programs": n, "messages": recs})
# statements that must be rejected loudly (the preprocessor cannot handle them)
BAD = ['NANO_LOG(NOTICE, s);', 'NANO_LOG(NOTICE, s, 1);', 'NANO_LOG(NOTICE, c ? "a" : "b");', 'NANO_LOG(NOTICE, ("a"));', 'NANO_LOG(NOTICE, "a" + 1);', 'NANO_LOG(NOTICE, "a" s);', 'NANO_LOG(NOTICE, s "a");', 'NANO_LOG(NOTICE);', 'NANO_LOG("only");', 'NANO_LOG(NOTICE, "a", 1)\nT(1);', 'T((NANO_LOG(NOTICE, "a"), 1));', 'NANO_LOG(NOTICE, "%n", &c);', 'NANO_LOG(NOTICE, "a %n b", &c);', 'NANO_LOG(NOTICE, "%d %n", 1, &c);', 'NANO_LOG(NOTICE, "%y", 1);', 'NANO_LOG(NOTICE, "%d %q", 1, 2);', 'NANO_LOG(NOTICE, "100%");', 'NANO_LOG(NOTICE, "%hs", s);', 'NANO_LOG(NOTICE, "%lp", s);', 'NANO_LOG(NOTICE, "%Ld", 1);', 'NANO_LOG(NOTICE, "%d", (1;', 'NANO_LOG(NOTICE, "a']
def reject(a):
    d, i, s, inc = a; d = os.path.join(d, f"n{i}"); os.makedirs(d)
    open(os.path.join(d, "n.cc"), "w").write(('#include "snip.h"\n' if inc else "enum { NOTICE };\n") + "void f(int c, const char *s) {\n" + s + "\n}\n")
    R = os.path.join(vlib.REPO, "runtime")
    r = vlib.sh(f'g++ -std=c++17 -w -I{R} -I{PRE} -DPREPROCESSOR_NANOLOG -E n.cc -o n.cc.i || exit 99; PYTHONDONTWRITEBYTECODE=1 $(command -v python || command -v python3) -W ignore {vlib.REPO}/preprocessor/parser.py --mapOutput=n.map n.cc.i', cwd=d, timeout=100)
    shutil.rmtree(d); return r.returncode, (r.stdout + r.stderr).decode(errors="replace")
def run_bad(chk):
    d = os.path.join(vlib.scratch(), "bad"); os.makedirs(d)
    jobs = [(d, i, s, True) for i, s in enumerate(BAD)] + [(d, len(BAD), 'NANO_LOG(NOTICE, "x");', False)]
    with ThreadPoolExecutor(vlib.JOBS) as ex: rs = list(ex.map(reject, jobs))
    for (_, i, s, inc), (rc, out) in zip(jobs, rs):
        chk.add(evaluations=1, states=1, distinct_nontrivial=1)
        if rc == 0: chk.violation("accepted:" + s, f"statement that cannot be handled is accepted silently: {s!r}" + ("" if inc else " (without the NanoLog header)"), s)
    chk.sample(f"rejected: {BAD[0]!r}: {rs[0][1].strip()[:120]!r}"); chk.part({"what": "statements that must be rejected", "statements": len(jobs)})
def main():
    chk = vlib.Check("C17", "model_checking", RULE, ASSUME)
    t = chk.tier == "thorough"; s = snipgen.snippets(t)
    run_snips(chk, s, max(16, len(s) // 300), "enumerated source snippets")
    run_bad(chk)
    return chk.finish()
