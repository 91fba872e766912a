"""Shared driver code: scratch handling, builds from /repo, evidence, verdicts."""
import atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSRC", "/repo")
ENGINE = os.path.join(VERIF, "engine")
SEQ = os.path.join(VERIF, "seq")
JOBS = os.cpu_count() or 4

_scratch = None
def scratch():
    """Private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (2 << 30) else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="nlverif.", dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch

class HarnessError(Exception):
    pass

def run(cmd, cwd=None, timeout=None, env=None, inp=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=e, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=False)

def sh(cmd, **kw):
    return run(["bash", "-c", cmd], **kw)

def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

class Check:
    """Collects coverage and violations of one property's check run."""
    def __init__(self, pid, level, rule, assumptions):
        self.pid, self.level, self.rule, self.assumptions = pid, level, rule, assumptions
        self.tier = tier(); self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.samples, self.parts, self.viol, self.known = [], [], [], []
        self.exhaustive = True
        self.kf = [k for k in known_findings()["findings"] if k["property"] == pid]
        self.rdir = os.path.join(VERIF, "evidence", "replay", pid)
        shutil.rmtree(self.rdir, ignore_errors=True)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def part(self, d): self.parts.append(d)

    def violation(self, key, text, replay_text):
        """key identifies the failing input/schedule class; matched against known findings."""
        for k in self.kf:
            if re.fullmatch(k["key"], key):
                if k["id"] not in [x["id"] for x in self.known]: self.known.append(k)
                return False
        if any(v["key"] == key for v in self.viol): return True
        os.makedirs(self.rdir, exist_ok=True)
        fn = os.path.join(self.rdir, re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:80] + ".replay")
        with open(fn, "w") as f: f.write(replay_text)
        self.viol.append({"key": key, "text": text, "replay": fn})
        return True

    def finish(self):
        cov = dict(self.cov); cov["rule"] = self.rule; cov["samples"] = self.samples or ["(none)"]
        cov["exhaustive"] = bool(self.exhaustive); cov["parts"] = self.parts
        if self.known: cov["known_findings_reproduced"] = [k["id"] for k in self.known]
        if self.viol: cov["violations_found"] = [{"key": v["key"], "text": v["text"][:600], "replay": v["replay"]} for v in self.viol[:20]]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known: print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        for v in self.viol[:8]:
            print(f"-- {v['key']}: {v['text'][:500]}")
        for v in self.viol[:1]:
            print(f"VIOLATION property={self.pid} replay={v['replay']}")
        print(f"{self.pid} {self.tier}: executions={cov['evaluations']} states={cov['states']} transitions={cov['transitions']} violations={len(self.viol)} wall={ev['wall_s']}s")
        sys.stdout.flush()
        return 1 if self.viol else 0

# ------------------------------------------------------------------ Machine A
DEFAULT_POLICIES = ["0,0,0", "0,1,0", "1,0,0", "0,0,7", "0,1,7"]

def build_mc(cfgs):
    """cfgs: {name: (staging, output, [scenario files], extra defines)} -> {name: dir}"""
    def one(it):
        n, (sb, ob, files, xdef) = it
        d = os.path.join(scratch(), "mc_" + n)
        r = run(["bash", os.path.join(ENGINE, "build1.sh"), d, str(sb), str(ob)] + files, env={"XDEF": xdef, "VSRC": REPO})
        if r.returncode != 0:
            raise HarnessError("engine build failed:\n" + r.stderr.decode(errors="replace")[-3000:])
        return n, d
    with ThreadPoolExecutor(2) as ex:
        return dict(ex.map(one, cfgs.items()))

def explore(chk, dirs, plan):
    """plan: list of dict(cfg, scen, bound, policies, cap)"""
    for p in plan:
        d = dirs[p["cfg"]]
        sd = os.path.join(scratch(), "x"); shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
        outp = os.path.join(scratch(), "x.json")
        if os.path.exists(outp): os.unlink(outp)
        pols = p.get("policies", DEFAULT_POLICIES)
        cmd = [os.path.join(d, "mcx"), "--scenario", p["scen"], "--bound", str(p["bound"]), "--jobs", str(JOBS), "--cap", str(p.get("cap", 120)), "--scratch", sd, "--out", outp]
        for q in pols: cmd += ["--policy", q]
        r = run(cmd, cwd=scratch(), timeout=p.get("cap", 120) + 400)
        if not os.path.exists(outp) or r.returncode not in (0, 1):
            raise HarnessError(f"explorer failed on {p['scen']} rc={r.returncode}: {r.stderr.decode(errors='replace')[-800:]}")
        j = json.load(open(outp))
        chk.add(evaluations=j["executions"], traces_validated_against_impl=j["executions"], states=j["scheduling_points"], transitions=j["steps"],
                distinct_nontrivial=j["executions"])
        if not j["complete"] and not j["violation"]: chk.exhaustive = False
        chk.part({k: j[k] for k in ("scenario", "bound", "completed_bound", "complete", "cap_hit", "policies", "executions", "scheduling_points", "context_switches", "race_granules", "distinct_observations", "wall_s")} | {"config": p["cfg"]})
        chk.sample(f"scenario {p['scen']} [{p['cfg']}], deviation bound {p['bound']}, policies {','.join('(' + q + ')' for q in pols)}: {j['executions']} schedules, {j['distinct_observations']} distinct observable results")
        if j["violation"]:
            rep = f"# property {chk.pid}\n# config {p['cfg']} scenario {p['scen']}\n# {j['message']}\npolicy {j['policy']}\n" + "".join(f"race {x}\n" for x in j["races"]) + "".join(f"dev {x}\n" for x in j["devs"])
            rep += f"# replay: build engine/build1.sh for config {p['cfg']}, then mcx --scenario {p['scen']} --replay THIS_FILE\n"
            chk.violation(f"{p['scen']}", f"[{p['cfg']}] {j['message']}", rep)
        if len(chk.viol) >= 3: break

# ------------------------------------------------------------------ Machine B
def build_seq(cfgs):
    """cfgs: {name: (staging, output, [programs], extra defines)} -> {name: dir}"""
    def one(it):
        n, (sb, ob, progs, xdef) = it
        d = os.path.join(scratch(), "seq_" + n)
        r = run(["bash", os.path.join(SEQ, "build_seq.sh"), d, str(sb), str(ob)] + progs, env={"XDEF": xdef, "VSRC": REPO})
        if r.returncode != 0: raise HarnessError("seq build failed:\n" + r.stderr.decode(errors="replace")[-3000:])
        return n, d
    with ThreadPoolExecutor(3) as ex: return dict(ex.map(one, cfgs.items()))

def merge_seq(chk, j, what):
    chk.add(evaluations=j["evals"], traces_validated_against_impl=j["evals"], states=j["states"], transitions=j["transitions"], distinct_nontrivial=j["nontrivial"])
    if not j["complete"]: chk.exhaustive = False
    for s in j["samples"]: chk.sample(f"{what}: {s}")
    chk.part({"part": what, "evals": j["evals"], "states": j["states"], "transitions": j["transitions"], "complete": j["complete"], **j["info"]})
    for v in j["violations"]:
        chk.violation(v["key"], f"[{what}] {v['text']} ({v['count']} cases)", f"# property {chk.pid}\n# {what}\n# {v['key']}\n{v['text']}\n")

def run_seq(chk, d, prog, what, shards=1, args=(), timeout=850):
    """Runs an enumerator in parallel shards, each in its own directory, and merges the results."""
    def one(i):
        wd = os.path.join(scratch(), f"w_{os.path.basename(d)}_{prog}_{abs(hash(what))}_{i}"); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
        out = os.path.join(wd, "result.json")
        try: r = run([os.path.join(d, prog), "--out", out, "--tier", chk.tier, "--shard", f"{i}/{shards}"] + list(args), cwd=wd, timeout=timeout)
        except subprocess.TimeoutExpired: raise HarnessError(f"{prog} shard {i}: timeout")
        if not os.path.exists(out): 
            return {"evals": 0, "states": 0, "transitions": 0, "nontrivial": 0, "complete": False, "samples": [], "info": {},
                    "violations": [{"key": "enumerator-died", "text": f"{prog} died with status {r.returncode}: {(r.stderr or r.stdout).decode(errors='replace')[-300:]}", "count": 1}]}
        return json.load(open(out))
    with ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(one, range(shards)))
    m = rs[0]
    for r in rs[1:]:
        for k in ("evals", "states", "transitions", "nontrivial"): m[k] += r[k]
        m["complete"] = m["complete"] and r["complete"]
        m["violations"] += r["violations"]
        if len(m["samples"]) < 4: m["samples"] += r["samples"][:2]
    m["samples"] = m["samples"][:4]
    merge_seq(chk, m, what)
    return m
