import os
import vlib
PROC = os.path.join(vlib.VERIF, "proc")
RULE = "one evaluation = one log file produced by a distinct sequence of real logging sessions (processes), decoded in one of three modes; states = files, transitions = sessions run"
ASSUME = ["programs: two with different log statements, each built as C++17 and as preprocessor NanoLog (reduced buffers: staging 1024, output 4096); session kinds: normal exit, no messages, file re-selected, other file in between, thread + sync + abrupt _exit, many messages, repeated re-selection",
          "all sequences of two sessions, three with a restricted set of kinds (quick); all of three and four with two kinds (thorough)", "a session that ended abruptly did so after sync(), i.e. the file is not torn (torn tails: C13)"]
def build_proc(names, sb=1024, ob=4096, d="proc"):
    d = os.path.join(vlib.scratch(), d)
    r = vlib.run(["bash", os.path.join(PROC, "build_proc.sh"), d, str(sb), str(ob)] + names, env={"VSRC": vlib.REPO})
    if r.returncode: raise vlib.HarnessError("session programs failed to build:\n" + r.stderr.decode(errors="replace")[-3000:])
    return d
def main():
    chk = vlib.Check("C14", "model_checking", RULE, ASSUME)
    p = build_proc(["sessA", "sessB"])
    d = vlib.build_seq({"app": (1024, 4096, ["app_seq"], "")})["app"]
    vlib.run_seq(chk, d, "app_seq", "sequences of logging sessions", shards=16, args=["--dir", p])
    return chk.finish()
