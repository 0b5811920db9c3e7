#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds_*.py (patches made against /repo's HEAD).
usage: make.py [id...]"""
import glob, importlib.util, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
dest = os.path.join(os.path.dirname(os.path.dirname(here)), "seeded")
seeds = []
for f in sorted(glob.glob(here + "/seeds_*.py")):
    spec = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    seeds += m.SEEDS
want = sys.argv[1:]
work = "/tmp/seedmake"
shutil.rmtree(work, True)
subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
base = "513d14a"
for s in seeds:
    if want and s["id"] not in want:
        continue
    subprocess.run(["git", "-C", work, "checkout", "-q", "."], check=True)
    touched = False
    for (f, old, new) in s["edits"]:
        p = os.path.join(work, f)
        t = open(p).read()
        if t.count(old) != 1:
            sys.exit(f"{s['id']}: {f}: {t.count(old)} matches of\n{old}")
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", work, "diff"], capture_output=True, text=True, check=True).stdout
    # removed lines that the original repository has
    n = 0
    for f in {e[0] for e in s["edits"]}:
        blame = subprocess.run(["git", "-C", work, "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True, check=True).stdout.splitlines()
        full = subprocess.run(["git", "-C", work, "rev-parse", base], capture_output=True, text=True).stdout.strip()
        orig = [full[:39] in b[:41] for b in blame]
        d = subprocess.run(["git", "-C", work, "diff", "-U0", "--", f], capture_output=True, text=True).stdout.splitlines()
        ln = 0
        for l in d:
            if l.startswith("@@"):
                ln = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                n += orig[ln - 1]
                ln += 1
    if n == 0:
        print(s["id"], "changes NO original line")
        continue
    out = os.path.join(dest, s["id"])
    shutil.rmtree(out, True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(diff)
    shutil.copy(here + "/h.py", out + "/h.py")
    open(out + "/demo.py", "w").write("from h import *\n\n" + s["demo"].strip() + "\n")
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    print(s["id"], "ok,", n, "original lines")
shutil.rmtree(work, True)
