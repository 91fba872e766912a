#!/usr/bin/env python3
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
A = ("model_checking", "stateless model checking of the real runtime: all schedules within a deviation bound under a controlled scheduler, virtual disk with durability",
     "Exhaustive over all schedules within the stated deviation bound from each default policy for the listed small programs, on the real code (not a model); assumes sequential consistency and reduced buffer sizes.")
B = ("model_checking", "explicit-state / bounded-exhaustive enumeration of inputs and operation sequences executed on the real code against an independent oracle",
     "Every input or operation sequence of the stated finite space is executed on the real code and compared with an independent oracle; nothing is claimed outside the stated bounds.")
SPEC = {}
for i in range(1, 8): SPEC[f"C{i:02d}"] = A
SPEC["C20"] = ("model_checking", "stateless model checking of producer/consumer schedules plus explicit-state search over all reachable queue states, on the real queue", "Complete reachable state space of the real queue object for small sizes (sequential operations), and all schedules within the deviation bound for the concurrent part; assumes sequential consistency.")
SPEC["C21"] = ("model_checking", "stateless model checking of record/print schedules plus enumeration of all event sequences up to a depth, on the real code", "Exhaustive within the stated bounds (threads, events, deviation bound); assumes sequential consistency and a reduced trace capacity.")
for c in ("C08","C09","C10","C11","C12","C14","C15","C16","C17","C18","C19"): SPEC[c] = B
SPEC["C13"] = ("fault_enumeration", "enumeration of every cut position of the log files of a set of histories, decoded by the real decoder against an independent framing oracle", "Every byte position of every generated file is cut and decoded in all decoding modes; complete for those files.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPEC and os.path.exists(os.path.join(V, "checks", i + ".py")):
        l, t, n = SPEC[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
m = {"version": 1, "setup_cmd": "python3 -c 'import json;json.load(open(\"MANIFEST.json\"))'",
     "hooks": {"guard": "NANOLOG_VERIF_STAGING_BUFFER_SIZE, NANOLOG_VERIF_OUTPUT_BUFFER_SIZE, NANOLOG_VERIF_TIMETRACE_EXP", "enable": "-DNANOLOG_VERIF_STAGING_BUFFER_SIZE=<n> etc. on the compiler command line of the harness builds (engine/build1.sh)", "source_commits": [c.split()[0] for c in commits if "verif hooks" in c]},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds what it needs from /repo's working tree into a private scratch directory and removes it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "n/a")
