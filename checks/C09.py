import os, shutil
import vlib
from checks import C08
from checks.runtime_common import ASSUME as AR
RULE = ("capture part: one evaluation = one message whose string arguments lie between inaccessible pages (read-only during the call, overwritten afterwards), compared with snprintf; store part: one evaluation = one argument type/value/format-kind tuple; "
        "schedule part: one evaluation = one distinct schedule of a program that overwrites or frees its arguments right after each call")
ASSUME = AR + ["a read beyond what printf reads is observable only up to page granularity: strings are placed directly before an unreadable page and directly after one", "wide-string precision is taken in wide characters (ASCII content, so bytes and wide characters coincide)"]
def main():
    chk = vlib.Check("C09", "model_checking", RULE, ASSUME)
    t = chk.tier == "thorough"; d = os.path.join(vlib.scratch(), "cap"); os.makedirs(d)
    shutil.copy(os.path.join(C08.FMT, "cap.cc"), os.path.join(d, "chunk0.cc")); C08.build(d)
    C08.run_chunks(chk, d, 1, "guarded string arguments")
    os.environ["OPT"] = "-O0"; sd = vlib.build_seq({"store": (0, 0, ["store_seq"], "")})["store"]; os.environ.pop("OPT")
    vlib.run_seq(chk, sd, "store_seq", "reserved space vs stored bytes")
    dirs = vlib.build_mc({"A": (128, 512, ["scen_run"], ""), "B": (1024, 4096, ["scen_run"], "")})
    plan = [{"cfg": c, "scen": s, "bound": b, "cap": 200 if t else 40, "policies": None} for c in "AB" for s in ("m_mut", "m_mut2", "m_share") for b in ((1, 2) if t else (1,))]
    for p in plan: p["policies"] = vlib.DEFAULT_POLICIES if t else ["0,0,0", "0,1,0"]
    vlib.explore(chk, dirs, plan)
    return chk.finish()
