#!/usr/bin/env python3
"""Driver: ./check.py <property> builds the harness against /repo, runs the property's
generators, writes evidence/<property>.json and reports.

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: no answer.
"""
import fcntl, hashlib, json, os, resource, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
BINS = ["e2e", "internals"]
ASSUME = [
    "the network and the clock are the simulated ones of harness/src/sim.rs (hook raknet_verif); tokio runs on one thread under virtual time with seeded schedule perturbation",
    "oracles are harness/src/wire.rs (independent codec) and the reference models in harness/src; sampling, not enumeration",
]


def cargo_env():
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET")}
    env["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    return env


def fresh_sources():
    """Cargo goes by file times; make sure that it also notices any change of content."""
    h = hashlib.sha256()
    files = ["/repo/Cargo.toml"]
    for d, _, fs in sorted(os.walk("/repo/src")):
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    stamp = os.path.join(HARNESS, "target", "repo.sha256")
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != h.hexdigest():
        subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "rust-raknet"], cwd=HARNESS, env=cargo_env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.makedirs(os.path.dirname(stamp), exist_ok=True)
        open(stamp, "w").write(h.hexdigest())


def build(binary):
    os.makedirs(os.path.join(HARNESS, "target"), exist_ok=True)
    with open(os.path.join(HARNESS, "target", "driver.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        fresh_sources()
        r = subprocess.run(
            ["cargo", "build", "--offline", "-q", "--bin", binary],
            cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
    return r.returncode == 0, r.stdout


def exe(binary):
    return os.path.join(HARNESS, "target", "debug", binary)


def listing(binary):
    out = subprocess.run([exe(binary), "list"], capture_output=True, text=True).stdout
    return {l.split()[0]: l.split()[1].split(",") for l in out.splitlines() if l.strip()}


def limits(mem, cpu=None):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
    return f


def cpu_seconds(pid):
    try:
        v = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0


def culprit(binary, pid, env, state, subs):
    """The process died or hung inside a case: find the case by running the candidates alone."""
    import struct
    try:
        raw = open(state, "rb").read()
    except OSError:
        return None
    v = struct.unpack("<%dQ" % (len(raw) // 8), raw[: len(raw) // 8 * 8])
    procs = []
    for t in range(0, len(v) - 1, 2):
        if v[t] and v[t + 1]:
            cmd = [exe(binary), "fresh", pid, str(v[t + 1] - 1), str(v[t] - 1)]
            procs.append((cmd, subprocess.Popen(cmd, env=env, cwd=ROOT, preexec_fn=limits(6 << 30, 90),
                                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    found, end = None, time.time() + 400
    for cmd, p in procs:
        try:
            out, _ = p.communicate(timeout=max(10, end - time.time()))
            died = p.returncode < 0 or p.returncode not in (0, 1, 2)
        except subprocess.TimeoutExpired:
            died = cpu_seconds(p.pid) > 45
            p.kill()
            out = p.communicate()[0]
        if p.returncode == 1 and found is None:
            found = (cmd, "the case fails: " + out[-1500:])
        if died and found is None:
            found = (cmd, "running the case alone ends the process (status %d: crash, memory exhaustion or endless computation)" % p.returncode)
    return found


def main():
    pid = sys.argv[1]
    if pid == "build":
        for b in BINS:
            ok, log = build(b)
            if not ok:
                print(log[-4000:])
                return 1
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), RK_REPLAYS=os.path.join(ROOT, "replays"))
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(ROOT, d), exist_ok=True)
    notes = []
    results, violation = [], None
    for binary in BINS:
        ok, log = build(binary)
        if not ok:
            if binary == "e2e":
                print(log[-4000:])
                print("error: the harness does not build against /repo")
                return 2
            notes.append("the generators that drive private modules did not build against this tree and were skipped")
            continue
        subs = listing(binary).get(pid)
        if not subs:
            continue
        out = os.path.join(ROOT, "evidence", f".{pid}.{binary}.json")
        state = os.path.join(ROOT, "evidence", f".{pid}.{binary}.state")
        for f in (out, state):
            if os.path.exists(f):
                os.remove(f)
        e = dict(env, RK_OUT=out, RK_STATE=state)
        r = subprocess.run([exe(binary), "check", pid], env=e, cwd=ROOT, preexec_fn=limits(24 << 30))
        if r.returncode in (0, 1) and os.path.exists(out):
            j = json.load(open(out))
            results.append(j)
            if r.returncode == 1:
                violation = (j["replay"], j["violation"])
        elif r.returncode == 2:
            return 2
        else:
            print(f"{binary} ended with status {r.returncode}; looking for the case responsible")
            f = culprit(binary, pid, env, state, subs)
            if f is None:
                print("error: no single case reproduces it")
                return 2
            path = os.path.join(ROOT, "replays", f"{pid}-fresh-{f[0][3]}-{f[0][4]}.replay")
            with open(path, "w") as h:
                h.write(f"# run: VERIF_SEED={seed} VERIF_TIER={tier} {' '.join(f[0])}\n# {f[1]}\n")
            violation = (path, f[1])
        for f in (out, state):
            if os.path.exists(f):
                os.remove(f)
        if violation:
            break
    if not results and not violation:
        print(f"error: no generators for {pid}")
        return 2
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "labels": {}, "per_generator": []}
    rules = []
    for j in results:
        cov["evaluations"] += j["evaluations"]
        cov["distinct_nontrivial"] += j["distinct_nontrivial"]
        rules.append(j["rule"])
        cov["samples"] += j["samples"]
        cov["labels"].update(j["labels"])
        cov["per_generator"] += j["per_generator"]
    cov["rule"] = "Cases are drawn from a choice tape seeded by VERIF_SEED; non-trivial cases are counted by distinct tape. " + "; ".join(rules)
    if not cov["samples"]:
        cov["samples"] = ["(none finished)"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ASSUME + notes, "wall_s": round(time.time() - start, 2), "violations": 1 if violation else 0,
    }
    if violation:
        ev["violation"] = violation[1][:4000]
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as h:
        json.dump(ev, h, indent=1)
    for line in known_open(pid):
        print(line)
    if violation:
        print(violation[1][:3000])
        print(f"VIOLATION property={pid} replay={violation[0]}")
        return 1
    print(f"{pid}: held on {cov['evaluations']} cases, {cov['distinct_nontrivial']} non-trivial, {ev['wall_s']} s")
    return 0


def known_open(pid):
    """Entries of known_findings.txt that are not repaired."""
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            if l.startswith("known: ") and f"property={pid} " in l:
                yield "KNOWN-FINDING: " + l[len("known: "):].strip()
    except OSError:
        return


if __name__ == "__main__":
    sys.exit(main())
