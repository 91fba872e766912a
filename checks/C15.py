import json, os, subprocess
import vlib
from checks.C14 import build_proc
RULE = "one evaluation = one log call or level query in a distinct sequence of level changes (the level history is part of the case); calls at each severity, in seven statement shapes, compared with the decoded log of the same process; states = level-change sequences, transitions = log calls"
ASSUME = ["levels set: all valid ones and 17 out-of-range values up to INT_MIN/INT_MAX; all sequences of two changes (quick) or three (thorough), from one thread, handed over between threads, and across file switches; C++17 and preprocessor builds",
          "that arguments of a filtered message are not evaluated is required of C++17 NanoLog only (the preprocessor version passes them to a function)"]
def main():
    chk = vlib.Check("C15", "model_checking", RULE, ASSUME)
    d = build_proc(["lev"], 0, 0, "lev")
    for p in ("lev17", "levpp"):
        wd = os.path.join(d, "r_" + p); os.makedirs(wd); out = os.path.join(wd, "out.json")
        try: rc = vlib.run([os.path.join(d, p), out, chk.tier], cwd=wd, timeout=400).returncode
        except subprocess.TimeoutExpired: rc = "timeout"
        if os.path.exists(out): vlib.merge_seq(chk, json.load(open(out), strict=False), p)
        else: chk.violation(p + "-died", f"{p}: the logging program died or hung ({rc})", f"run {p}\n")
    return chk.finish()
