import vlib
from concurrent.futures import ThreadPoolExecutor
from checks.runtime_common import ASSUME
RULE = ("sequential part: every distinct reachable state (ring positions, free-space hint, layout of unconsumed bytes, bytes shown to the consumer) of the real queue object is expanded with every enabled operation once (states = distinct states, transitions = operations executed); "
        "concurrent part: every distinct schedule of producer and consumer memory accesses within the deviation bound")
def main():
    chk = vlib.Check("C20", "model_checking", RULE, ASSUME)
    t = chk.tier == "thorough"
    sizes = [8, 9, 16, 17] + ([24, 32] if t else [])
    seqd = vlib.build_seq({f"sb{s}": (s, 4096, ["sb_seq"], "") for s in sizes})
    dirs = vlib.build_mc({"Q16": (16, 4096, ["scen_sb"], ""), "Q32": (32, 4096, ["scen_sb"], "")})
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda s: vlib.run_seq(chk, seqd[f"sb{s}"], "sb_seq", f"all reachable states, queue size {s}"), sizes))
    plan = []
    for c in ("Q16", "Q32"):
        for s in "abcdefghijkl":
            plan.append({"cfg": c, "scen": "q_" + s, "bound": 1, "policies": ["0,0,0", "1,0,0"], "cap": 60})
            if t: plan.append({"cfg": c, "scen": "q_" + s, "bound": 2, "policies": ["0,0,0"], "cap": 300})
    vlib.explore(chk, dirs, plan)
    return chk.finish()
