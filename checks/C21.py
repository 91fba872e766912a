import os
import vlib
from checks.runtime_common import ASSUME as A
RULE = ("sequential part: one evaluation = one printed trace after a distinct sequence of operations, compared as complete text with a direct specification (states = operation sequences, transitions = operations); "
        "concurrent part: every distinct schedule of the recording and printing threads' memory accesses within the deviation bound, each printed trace compared with every history consistent with what had completed before printing started")
ASSUME = A[:1] + ["trace capacity 4 and 8 events per thread instead of 8192", "a record in progress when printing starts may be shown, garbled or missing (one line per thread); events offered while a trace is being printed may be dropped (documented)",
          "sequential: all sequences of record on 1-3 threads (time advancing or not), trace, reset up to depth 10/8/7 (thorough 12/9/8), and every pair of event counts up to four times the capacity; time stamps of one thread do not decrease", "sequential consistency"]
def main():
    chk = vlib.Check("C21", "model_checking", RULE, ASSUME); t = chk.tier == "thorough"
    os.environ["OPT"] = "-O2"; sd = vlib.build_seq({f"tt{e}": (0, 0, ["tt_seq"], f"-DNANOLOG_VERIF_TIMETRACE_EXP={e}") for e in (2, 3)}); os.environ.pop("OPT")
    dirs = vlib.build_mc({f"T{e}": (1024, 4096, ["scen_tt"], f"-DNANOLOG_VERIF_TIMETRACE_EXP={e}") for e in (2, 3)})
    for e in (2, 3): vlib.run_seq(chk, sd[f"tt{e}"], "tt_seq", f"operation sequences, capacity {1 << e}", shards=16)
    plan = []
    for s in "abcdefghijklmn":
        for c in ("T2", "T3"): plan.append({"cfg": c, "scen": "t_" + s, "bound": 1, "policies": ["0,0,0", "1,0,0"], "cap": 60})
        if t: plan.append({"cfg": "T2", "scen": "t_" + s, "bound": 2, "policies": ["0,0,0", "1,0,0"], "cap": 120})
        elif s in "dhilmn": plan.append({"cfg": "T2", "scen": "t_" + s, "bound": 2, "policies": ["0,0,0"], "cap": 60})
    vlib.explore(chk, dirs, plan)
    return chk.finish()
