#!/usr/bin/env python3
"""Plant a bug: plant.py ID... (all in plants.py if none). Works in a scratch copy of /repo; keeps
those that build, pass the tests and whose demo tells the trees apart."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from plants import P
S = "/tmp/sd/repo"
def sh(c, t=600, cwd=S):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(c, 124, str(e.stdout), "timeout")
def reset():
    if not os.path.isdir(S): os.makedirs("/tmp/sd", exist_ok=True); subprocess.run(["cp", "-a", "/repo", S])
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd")
ids = sys.argv[1:] or list(P)
for i in ids:
    p = P[i]; reset(); d = f"{ROOT}/seeded/{i}"
    for f, old, new in p["edits"]:
        s = open(f"{S}/{f}").read()
        if s.count(old) != 1: print(i, "EDIT", f, s.count(old), "matches"); break
        open(f"{S}/{f}", "w").write(s.replace(old, new))
    else:
        diff = sh("git diff").stdout
        # original lines touched?
        orig = 0
        for f in {e[0] for e in p["edits"]}:
            bl = sh(f"git blame -s HEAD -- {f}").stdout.split("\n")
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(f"git diff -U0 -- {f}").stdout, re.M):
                a, n = int(h[1]), int(h[2] or 1)
                orig += sum("9f47653" in l.split()[0] for l in bl[a-1:a-1+n] if l)
        w = f"/tmp/sd/demo_{i}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        for f in ("demo.sh", "rk.rs"): shutil.copy(f"{HERE}/{f}", w)
        open(f"{w}/demo.rs", "w").write(p["demo"])
        b = sh("cargo build --offline && cargo test --offline --no-run")
        if b.returncode: print(i, "BUILD", b.stderr[-1500:]); continue
        bad = None
        for _ in range(2):
            t = sh("timeout 100 cargo test --offline --lib -- --test-threads=1 2>&1 | tail -30", 200)
            if "test result: ok" not in t.stdout: bad = t.stdout[-800:]; break
        pt = sh(f"bash {w}/demo.sh", 300); 
        
        for _ in range(1 if pt.returncode == 0 else 3):
            pt = sh(f"bash {w}/demo.sh", 300) if pt.returncode else pt
        sh("git stash -q")
        for _ in range(5):
            cl = sh(f"bash {w}/demo.sh", 300)
            if cl.returncode: break
        sh("git stash drop -q")
        ok = not bad and pt.returncode != 0 and cl.returncode == 0 and orig > 0 and pt.returncode != 2
        print(i, "KEPT" if ok else "REJECTED", f"orig_lines={orig} demo patched={pt.returncode} clean={cl.returncode}", (pt.stderr or pt.stdout).strip()[-200:].replace("\n", " | "), flush=True)
        if bad: print("  tests:", bad)
        if cl.returncode: print("  clean:", cl.stdout[-500:], cl.stderr[-1500:])
        if ok:
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(w, d)
            open(f"{d}/patch.diff", "w").write(diff)
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        shutil.rmtree(w)
reset()
