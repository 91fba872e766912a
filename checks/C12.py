import vlib
from checks.runtime_common import ASSUME as AR
RULE = ("file part: one evaluation = one log file, built by the real encoder from a distinct event history (log by thread, ring wrap, visit of the next staging buffer, output buffer full) of the modelled scan loop, decoded by the real ordered decoder; "
        "runtime part: one evaluation = one distinct schedule of a program run on the real runtime with a global clock, its file decoded in order; states = extents written / scheduling points, transitions = messages / visible operations")
ASSUME = AR + ["file part: 2 threads up to 9 events (quick) or 11 (thorough), 3 threads up to 8/9, at most 2 ring wraps, at most 1 output-buffer-full event; two and three executions per file with decreasing and increasing clocks"]
def main():
    chk = vlib.Check("C12", "model_checking", RULE, ASSUME)
    t = chk.tier == "thorough"
    d = vlib.build_seq({"ord": (256, 512, ["ord_seq"], "-DMODEL_FULL_WRAP=0 -DMAXFULL=1")})["ord"]
    dirs = vlib.build_mc({"A": (128, 512, ["scen_ord"], ""), "C": (128, 256, ["scen_ord"], "")})
    vlib.run_seq(chk, d, "ord_seq", "event histories", shards=16)
    plan = [{"cfg": c, "scen": s, "bound": 1, "cap": 60, "policies": ["0,0,0", "0,1,0"] + (["1,0,0", "0,0,7"] if t else [])} for c, ss in (("C", "o_b o_d o_f o_free"), ("A", "o_a o_c o_e")) for s in ss.split()]
    if t: plan += [{"cfg": c, "scen": s, "bound": b, "cap": 240, "policies": ["0,0,0", "1,0,0"]} for c in "AC" for s in "o_a o_b o_c o_d o_e o_f o_free".split() for b in (1, 2)]
    vlib.explore(chk, dirs, plan)
    return chk.finish()
