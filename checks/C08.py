import json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
from fmt import fmtgen
FMT = os.path.join(vlib.VERIF, "fmt")
RULE = "one evaluation = one logged message (distinct statement/argument combination) whose decoded text and location were compared with snprintf; statements are generated by enumerating the conversion grammar without repetition"
ASSUME = ["the reference is this system's snprintf (C.UTF-8 locale)", "conversion grammar: flags x width (none, 1, 12, *) x precision (none, '.', .0, .3, .12, .*) x length modifier x conversion, boundary values per type; all pairs and triples of representative conversions; argument lists up to 30; all literal strings up to 3 (quick) / 4 (thorough) tokens",
          "not claimed: %n, positional arguments, malformed conversions"]
def run_chunks(chk, d, n, what, timeout=150, skip=()):
    def one(i):
        wd = os.path.join(d, f"r{i}"); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd); out = os.path.join(wd, "out.json")
        try: rc = vlib.run([os.path.join(d, f"chunk{i}"), out], cwd=wd, timeout=timeout).returncode
        except subprocess.TimeoutExpired: rc = "timeout"
        try: return json.load(open(out), strict=False)
        except Exception: return {"evals": 0, "states": 0, "transitions": 0, "nontrivial": 0, "complete": False, "samples": [], "info": {}, "violations": [{"key": f"died-chunk{i}", "text": f"program with the enumerated statements died: {rc}", "count": 1}]}
    with ThreadPoolExecutor(vlib.JOBS) as ex: rs = list(ex.map(one, [i for i in range(n) if i not in skip]))
    if not rs: return
    m = rs[0]
    for r in rs[1:]:
        for k in ("evals", "states", "transitions", "nontrivial"): m[k] += r[k]
        m["complete"] &= r["complete"]; m["violations"] += r["violations"]
        if len(m["samples"]) < 8: m["samples"] += r["samples"][:1]
    m["states"] = n
    vlib.merge_seq(chk, m, what)
def build(d):
    r = vlib.run(["bash", os.path.join(FMT, "build_fmt.sh"), d], env={"VSRC": vlib.REPO, "JOBS": str(vlib.JOBS)})
    if r.returncode: raise vlib.HarnessError("fmt build failed:\n" + r.stderr.decode(errors="replace")[-3000:])
def main():
    chk = vlib.Check("C08", "model_checking", RULE, ASSUME)
    t = chk.tier == "thorough"; d = os.path.join(vlib.scratch(), "fmt"); n = 64 if t else 24
    st = fmtgen.write(d, n, t); build(d)
    run_chunks(chk, d, n, f"{st} enumerated statements")
    return chk.finish()
