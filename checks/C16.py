import json, os, re, subprocess
import vlib
from checks.C14 import build_proc, PROC
RULE = "one evaluation = one decoder operation in a distinct sequence of operations, compared with a fresh decoder given the operations since the last open (fresh decoders are compared with the known contents), or one message / interface delivery compared with what was logged; states = operation sequences and statements, transitions = operations and messages"
ASSUME = ["operations: open of eight files (differing programs, two executions, no messages, missing, not a log, cut, damaged second execution), next x1/x2/all, decompressUnordered, decompressTo; all sequences of 5 operations with a restricted choice of first files (quick), all of 6 (thorough); two decoders sharing one message structure under all schedules of 8 (10) reads",
          "interfaces mixed in the middle of an extent without an open in between are not compared (unspecified); they must only leave no trace after the next open",
          "typed access and aggregation: every number of arguments 0..22 (25) x rotations of 16 argument kinds, C++17 and preprocessor builds; aggregation exists for preprocessor builds only", "the command line decompressor is run on the same logs"]
def cli(chk, d):
    rt = os.path.join(vlib.REPO, "runtime")
    for p, fl, objs in (("17", "", "Cycles.o Util.o Log.o genstub.o"), ("pp", "-DPREPROCESSOR_NANOLOG", "gen_typ.o Cycles.pp.o Util.pp.o Log.pp.o RuntimeLogger.pp.o NanoLog.pp.o TimeTrace.pp.o")):
        r = vlib.run(["bash", "-c", f"cd {d} && g++ -std=c++17 -O1 -include array -w -I{rt} {fl} {rt}/LogDecompressor.cc {objs} -lrt -pthread -o dec{p}"])
        if r.returncode: raise vlib.HarnessError("the decompressor failed to build:\n" + r.stderr.decode(errors="replace")[-2000:])
        wd = os.path.join(d, "r_typ" + p); want = open(os.path.join(wd, "typ.want"), "rb").read().split(b"\n")[:-1]; n = 0
        def out(*a): return vlib.run([os.path.join(d, "dec" + p)] + list(a), cwd=wd, timeout=60).stdout
        for cmd in ("decompress", "decompressUnordered"):
            o = out(cmd, "typ.log"); got = [l for l in o.split(b"\r\n") if l and not l.startswith(b"#")]; n += 1
            m = re.search(rb"after printing (-?\d+) log messages", o)
            if got != want: chk.violation(f"cli-{cmd}", f"decompressor {cmd} ({p}) shows {len(got)} messages, {len(want)} expected, or other texts", cmd)
            elif not m or int(m.group(1)) != len(want): chk.violation(f"cli-count-{cmd}", f"decompressor {cmd} ({p}) reports {m and m.group(1)} messages of {len(want)}", cmd)
        if p == "pp":
            for l in open(os.path.join(wd, "typ.ids")).read().split("\n")[:-1]:
                i, *v = l.split(); v = [int(x) for x in v]; o = out("minMaxMean", "typ.log", i).decode(errors="replace"); n += 1
                g = {k: int(re.search(k + r": (-?\d+)", o).group(1)) if re.search(k + r": (-?\d+)", o) else None for k in ("Matching Logs", "Min", "Max", "Total", "Logs Encountered")}
                w = {"Matching Logs": len(v), "Min": min(v), "Max": max(v), "Total": sum(v), "Logs Encountered": len(want)}
                if g != w: chk.violation("cli-minmaxmean", f"minMaxMean of log id {i}: {g} instead of {w}", l)
        chk.add(evaluations=n, traces_validated_against_impl=n)
def main():
    chk = vlib.Check("C16", "model_checking", RULE, ASSUME)
    d = os.path.join(vlib.scratch(), "typ"); os.makedirs(d)
    vlib.run(["python3", os.path.join(PROC, "gentyp.py"), os.path.join(d, "typ.cc"), chk.tier]); build_proc(["typ"], 0, 0, "typ"); ok = True
    for p in ("typ17", "typpp"):
        wd = os.path.join(d, "r_" + p); os.makedirs(wd); out = os.path.join(wd, "out.json")
        try: rc = vlib.run([os.path.join(d, p), out], cwd=wd, timeout=400).returncode
        except subprocess.TimeoutExpired: rc = "timeout"
        if os.path.exists(out): vlib.merge_seq(chk, json.load(open(out), strict=False), p)
        else: ok = False; chk.violation(p + "-died", f"{p}: the program that logs and decodes died or hung ({rc})", f"run {p}\n")
    if ok: cli(chk, d)
    os.environ["OPT"] = "-O2"; s = vlib.build_seq({"use": (0, 0, ["use_seq"], "")})["use"]; os.environ.pop("OPT")
    vlib.run_seq(chk, s, "use_seq", "operation sequences", shards=32)
    return chk.finish()
