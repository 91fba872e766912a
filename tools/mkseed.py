#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE -- reads OLD/NEW blocks (separated by lines '<<<<', '====', '>>>>') from stdin and records the change as seeded/ID/patch.diff.
Several blocks are possible; a line '@@ path' before a block selects another file."""
import sys, os, subprocess, json, shutil, tempfile
sid, prop, path = sys.argv[1:4]; needs, breaks = sys.argv[4:6]
t = tempfile.mkdtemp(); subprocess.run(["git", "clone", "-q", "/repo", t + "/w"], check=True); w = t + "/w"
cur = path; mode = None; old = []; new = []
for line in sys.stdin.read().split("\n"):
    if line.startswith("@@ "): cur = line[3:]
    elif line == "<<<<": mode = "o"; old = []; new = []
    elif line == "====" and mode == "o": mode = "n"
    elif line == ">>>>":
        f = os.path.join(w, cur); s = open(f).read(); o = "\n".join(old); n = "\n".join(new)
        if s.count(o) != 1: print("BLOCK OCCURS", s.count(o), "TIMES in", cur); sys.exit(1)
        open(f, "w").write(s.replace(o, n)); mode = None
    elif mode == "o": old.append(line)
    elif mode == "n": new.append(line)
d = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
shutil.rmtree(t)
o = f"/verif/seeded/{sid}"; os.makedirs(o, exist_ok=True); open(o + "/patch.diff", "w").write(d)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
print(sid, len(d.splitlines()), "diff lines")
