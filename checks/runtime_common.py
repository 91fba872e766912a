"""Machine A plans for the runtime properties."""
import vlib
CFG = {"A": (128, 512, ["scen_run"], ""), "C": (128, 256, ["scen_run"], ""), "B": (1024, 4096, ["scen_run"], ""),
       "D": (128, 512, ["scen_run"], "-DNANOLOG_VERIF_FILE_PARAMS=O_APPEND|O_RDWR|O_CREAT|O_NOATIME|O_DSYNC|O_DIRECT")}     # direct IO: padded writes
ASSUME = [
    "sequentially consistent memory (x86-TSO and compiler reorderings are outside the model)",
    "schedules are explored up to the stated number of deviations from each listed default policy (order,disk eagerness,timer period); context switches happen at synchronisation operations, AIO/file operations and accesses found to race by the vector-clock detector (iterated to a fixpoint)",
    "the disk model completes each asynchronous write in full, at any time after submission; bytes become durable at completion only if the file was opened with O_SYNC/O_DSYNC or flushed",
    "buffer sizes are reduced through the guarded NANOLOG_VERIF_* overrides; logic is otherwise the shipped code",
]
RULE = ("every execution is one distinct schedule (choice sequence) of a fixed small program run on the real library under the controlled scheduler; "
        "states = scheduling points with more than one choice that were visited, transitions = visible operations executed; an execution is non-trivial because it deviates from every other in at least one scheduling choice")
def run(pid, quick, thorough, extra_cfg=None):
    """quick/thorough: list of (cfgs, scenarios, bound, policies or None, cap)"""
    chk = vlib.Check(pid, "model_checking", RULE, ASSUME)
    plan_src = quick if chk.tier == "quick" else quick + thorough
    cfg = dict(CFG); cfg.update(extra_cfg or {})
    plan = []
    for cfgs, scens, bound, pols, cap in plan_src:
        for c in cfgs.split():
            for s in scens.split():
                p = {"cfg": c, "scen": s, "bound": bound, "cap": cap}
                if pols: p["policies"] = pols.split()
                plan.append(p)
    dirs = vlib.build_mc({c: cfg[c] for c in sorted({p["cfg"] for p in plan})})
    vlib.explore(chk, dirs, plan)
    return chk
