#!/usr/bin/env python3
"""Operator-level mutants of the library, run against every check with few cases (first pass) until one
reports. mutate.py OUT.jsonl [--sample N] [--seed S] [--slot K] [--files a.rs,b.rs]
Survivors are then run against the repository's tests and all checks in full."""
import json, os, random, re, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
a = sys.argv[1:]; out = a.pop(0); N = 100; seed = 1; slot = "m"; only = None
while a:
    k = a.pop(0)
    if k == "--sample": N = int(a.pop(0))
    elif k == "--seed": seed = int(a.pop(0))
    elif k == "--slot": slot = a.pop(0)
    elif k == "--files": only = a.pop(0).split(",")
W = f"/tmp/ev{slot}"
FILES = ["arq.rs", "fragment.rs", "packet.rs", "datatype.rs", "socket.rs", "server.rs", "utils.rs"]
def live_lines(s):
    """Indices of lines outside tests, logs, comments."""
    out, depth_log, skip, brace = [], 0, False, 0
    for i, l in enumerate(s.split("\n")):
        t = l.strip()
        if re.match(r"#\[(tokio::)?test", t) or t.startswith("#[cfg(test)]"):
            skip, brace, started = True, 0, False; continue
        if skip:
            brace += l.count("{") - l.count("}")
            if "{" in l: started = True
            if started and brace <= 0: skip = False
            continue
        if depth_log:
            depth_log += l.count("(") - l.count(")")
            depth_log = max(depth_log, 0); continue
        if "raknet_log_" in t:
            d = l.count("(") - l.count(")")
            depth_log = max(d, 0); continue
        if not t or t.startswith(("//", "use ", "pub use", "mod ", "#[", "#!", "///")): continue
        out.append(i)
    return out
def muts(l):
    code = l.split("//")[0]
    r = []
    def sub(pat, rep, name):
        for m in re.finditer(pat, code):
            r.append((name, code[:m.start()] + m.expand(rep) + code[m.end():]))
    sub(r" < (?!\w+>)", " <= ", "< to <="); sub(r" <= ", " < ", "<= to <"); sub(r" > ", " >= ", "> to >="); sub(r" >= ", " > ", ">= to >")
    sub(r" == ", " != ", "== to !="); sub(r" != ", " == ", "!= to =="); sub(r" && ", " || ", "&& to ||"); sub(r" \|\| ", " && ", "|| to &&")
    sub(r"\+ 1\b", "+ 2", "+1 to +2"); sub(r"\+ 1\b", "", "+1 removed"); sub(r"- 1\b", "", "-1 removed"); sub(r" \+= ", " -= ", "+= to -=")
    sub(r" \+ ", " - ", "+ to -"); sub(r" - ", " + ", "- to +"); sub(r" \* ", " / ", "* to /"); sub(r"wrapping_add\(1\)", "wrapping_add(2)", "wrapping_add 2")
    sub(r"\btrue\b", "false", "true to false"); sub(r"\bfalse\b", "true", "false to true")
    sub(r"\bif !", "if ", "drop !"); sub(r"\bif (?!let|!)(?=[\w(])", "if !", "negate if") if " if " in code or code.strip().startswith("if ") else None
    sub(r"\bbreak;", "continue;", "break to continue"); sub(r"\bcontinue;", "break;", "continue to break")
    sub(r"(?<![\w.])(\d{2,})(?![\w.x])", lambda m: str(int(m[1]) + 1), "const +1") if False else None
    for m in re.finditer(r"(?<![\w.x])(0x[0-9a-fA-F]+|\d+)(?![\w.])", code):
        v = int(m[1], 0)
        for d in ((v + 1), (v - 1), v * 2, v // 2):
            if d >= 0 and d != v: r.append((f"{m[1]} to {d}", code[:m.start()] + str(d) + code[m.end():]))
    t = code.strip()
    if t.endswith(";") and not t.startswith(("let ", "return", "pub ", "const ", "}", ")", ".", "type ", "break", "continue")) and t.count("(") == t.count(")") and t.count("{") == t.count("}"):
        r.append(("statement removed", re.match(r"\s*", code)[0] + ";"))
    if t.startswith("return ") and t.endswith(";"): pass
    return [(n, x) for n, x in r if x != code]
cands = []
for f in FILES:
    if only and f not in only: continue
    s = open(f"/repo/src/{f}").read(); L = s.split("\n")
    for i in live_lines(s):
        ms = muts(L[i])
        for n, x in ms: cands.append((f, i, n, x, len(ms)))
rng = random.Random(seed); rng.shuffle(cands)
# no more than two mutants a line
seen, todo = {}, []
for c in cands:
    k = (c[0], c[1]); seen[k] = seen.get(k, 0) + 1
    if seen[k] <= 2: todo.append(c)
print(len(cands), "candidates,", len(todo), "kept, running", N)
done = set()
if os.path.exists(out):
    done = {tuple(json.loads(l)["id"]) for l in open(out)}
sys.argv = ["evalp.py", "--slot", slot]
exec(open(f"{ROOT}/tools/plant/evalp.py").read().split("allp =")[0])
W = f"/tmp/ev{slot}"
prepare()
ORDER = "C01 C12 C06 C22 C13 C14 C03 C08 C07 C09 C05 C02 C10 C11 C15 C17 C18 C16 C04 C19 C21".split()
def sh(c, t, cwd, env=None):
    try: return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "", "timeout")
def checks(env, order):
    res = []
    for c in order:
        t = time.time()
        r = sh(f"exec timeout -k 5 600 {W}/verif/check.py {c} quick", 700, f"{W}/verif", env)
        if r.returncode == 1 and "VIOLATION" in r.stdout: return c, r.stdout[-600:]
        if r.returncode != 0: return f"{c}:rc{r.returncode}", (r.stdout + r.stderr)[-600:]
    return None, ""
for f, i, n, x, _ in todo[:N]:
    ident = [f, i + 1, n]
    if tuple(ident) in done: continue
    src = open(f"/repo/src/{f}").read(); L = src.split("\n"); old = L[i]; L[i] = x
    open(f"{W}/repo/src/{f}", "w").write("\n".join(L))
    t = time.time()
    b = sh("cargo build --offline -q --lib", 200, f"{W}/repo")
    rec = {"id": ident, "old": old.strip(), "new": x.strip()}
    if b.returncode: rec["result"] = "no build"
    else:
        few = dict(os.environ, RK_MAX="1200")
        k, msg = checks(few, ORDER)
        rec["result"] = k or "quiet-few"; rec["msg"] = msg
        if k is None:
            tt = sh("timeout 100 cargo test --offline --lib -- --test-threads=2 2>&1 | tail -40", 200, f"{W}/repo")
            if "test result: ok" not in tt.stdout: rec["result"] = "tests fail"
            else:
                k, msg = checks(dict(os.environ), ORDER)
                rec["result"] = ("full " + k) if k else "SURVIVED"; rec["msg"] = msg
    open(f"{W}/repo/src/{f}", "w").write(src)
    rec["s"] = round(time.time() - t)
    with open(out, "a") as h: h.write(json.dumps(rec) + "\n")
    print(rec["result"], ident, rec["old"][:70], "=>", rec["new"][:70], f"{rec['s']}s", flush=True)
