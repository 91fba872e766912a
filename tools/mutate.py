#!/usr/bin/env python3
"""mutate.py FILE [ID...] -- mutation campaign: for every mutant of FILE (a '## id props... | path' line followed by
'<<<<' old '====' new '>>>>' blocks; '@@ path' switches file) copy the source tree (env BASE, default /repo) into /dev/shm/m,
apply the change there and run the quick checks of the listed properties on the copy (VSRC). Prints caught / MISSED / no answer."""
import sys, os, subprocess, shutil, time, re
BASE = os.environ.get("BASE", "/repo"); OUT = "/dev/shm/m"
def parse(fn):
    r = []; cur = None; mode = None
    for line in open(fn).read().split("\n"):
        if line.startswith("## "):
            a, b = line[3:].split("|"); a = a.split(); cur = (a[0], a[1:], []); r.append(cur); path = b.strip()
        elif line.startswith("@@ "): path = line[3:].strip()
        elif line == "<<<<": mode = "o"; old = []; new = []
        elif line == "====" and mode == "o": mode = "n"
        elif line == ">>>>": cur[2].append((path, "\n".join(old), "\n".join(new))); mode = None
        elif mode == "o": old.append(line)
        elif mode == "n": new.append(line)
    return r
def apply(m, d):
    for p, o, n in m[2]:
        f = os.path.join(d, p); s = open(f).read()
        if s.count(o) != 1: return f"block occurs {s.count(o)} times in {p}: {o[:60]!r}"
        open(f, "w").write(s.replace(o, n))
if __name__ == "__main__":
    ids = set(sys.argv[2:])
    for m in parse(sys.argv[1]):
        if ids and m[0] not in ids: continue
        d = f"{OUT}/{m[0]}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(OUT, exist_ok=True)
        shutil.copytree(BASE, d, symlinks=True, ignore=shutil.ignore_patterns(".git", "*.o", "*.a", "build"))
        e = apply(m, d)
        if e: print(m[0], "NOT APPLIED:", e, flush=True); shutil.rmtree(d); continue
        if os.environ.get("DRY"): shutil.rmtree(d); print(m[0], "ok"); continue
        for p in m[1]:
            t = time.time()
            r = subprocess.run(["timeout", "900", "python3", "/verif/check.py", p, "quick"], env=dict(os.environ, VSRC=d), cwd="/verif", capture_output=True, text=True)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            w = [l for l in (r.stdout + r.stderr).split("\n") if l.strip() and not l.startswith("KNOWN")]
            print(m[0], p, {0: "MISSED", 1: "caught"}.get(r.returncode, f"NO ANSWER rc={r.returncode}"), f"{time.time()-t:.0f}s", (v or w or [""])[-1][:160] if r.returncode else "", flush=True)
            if r.returncode == 1: break
        shutil.rmtree(d)
