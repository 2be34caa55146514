#!/usr/bin/env python3
"""Run the checks against patches in a scratch copy: evalp.py [--all] [--only C01,C02] [--slot N] PATCH_DIR_OR_DIFF...
By default only the check of the property in meta.json; with --all every check (C20 last)."""
import json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
args = sys.argv[1:]; slot = "0"; every = False; only = None; ps = []
while args:
    a = args.pop(0)
    if a == "--all": every = True
    elif a == "--slot": slot = args.pop(0)
    elif a == "--only": only = args.pop(0).split(",")
    else: ps.append(a)
W = f"/tmp/ev{slot}"
def prepare():
    os.makedirs(W, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", f"{W}/repo/"], check=False) if shutil.which("rsync") else subprocess.run(f"rm -rf {W}/repo && mkdir -p {W}/repo && cd /repo && git archive HEAD | tar -x -C {W}/repo", shell=True)
    os.makedirs(f"{W}/verif", exist_ok=True)
    subprocess.run(f"cd {ROOT} && tar -c --exclude=harness/target --exclude=.git --exclude=seeded --exclude=replays --exclude=evidence . | tar -x -C {W}/verif", shell=True)
    for f in ("check.py", "harness/Cargo.toml"):
        s = open(f"{W}/verif/{f}").read()
        s2 = s.replace('"/repo', f'"{W}/repo')
        if s2 != s: open(f"{W}/verif/{f}", "w").write(s2)
    if not os.path.isdir(f"{W}/verif/harness/target"):
        subprocess.run(["cp", "-a", f"{ROOT}/harness/target", f"{W}/verif/harness/target"])
allp = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
allp = [p for p in allp if p not in ("C20", "C21")] + ["C21", "C20"]
for p in ps:
    prepare()
    d = p if p.endswith(".diff") else f"{p}/patch.diff"
    meta = None if p.endswith(".diff") else json.load(open(f"{p}/meta.json"))
    r = subprocess.run(["patch", "-p1", "-s", "-i", os.path.abspath(d)], cwd=f"{W}/repo", capture_output=True, text=True)
    if r.returncode: print(p, "PATCH FAILS", r.stdout); continue
    todo = only or ([meta["property"]] if meta and not every else allp)
    if meta and every: todo = [meta["property"]] + [x for x in todo if x != meta["property"]]
    res = []
    for c in todo:
        t = time.time()
        try:
            r = subprocess.run([f"{W}/verif/check.py", c, "quick"], capture_output=True, text=True, timeout=900)
            v = next((l for l in r.stdout.splitlines() if l.startswith("VIOLATION")), "")
            rc, err = r.returncode, (r.stdout + r.stderr)[-300:]
        except subprocess.TimeoutExpired: rc, v, err = 124, "", "timeout"
        ok = rc == 1 and v
        res.append(f"{c}:{'CAUGHT' if ok else 'quiet' if rc == 0 else 'rc%d' % rc}({time.time()-t:.0f}s)")
        if rc not in (0, 1): res.append(err)
    print(os.path.basename(p), "|", (meta or {}).get("property", ""), "|", " ".join(res), flush=True)
