#!/usr/bin/env python3
"""Decides one property by simulated runs of the code in /repo.

check.py PROP            build, run the directed scenarios and the seeded search, write evidence
check.py replay FILE     execute a replay file (-v for the event trace)
VERIF_SEED, VERIF_TIER (quick, thorough) select the search; VERIF_RUNS overrides the number of runs.
Exit 0: held; 1: violated (VIOLATION line); 2: no answer (build failure, error of the harness).
"""
import fcntl
import glob
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

# runs per tier; fixed, so that the same seed explores the same runs everywhere
RUNS = {
    "C01": (14000, 1000000), "C02": (16000, 1000000), "C03": (10000, 700000), "C04": (12000, 800000),
    "C05": (16000, 1000000), "C06": (12000, 800000), "C07": (14000, 1000000), "C08": (9000, 600000),
    "C09": (6400, 400000), "C10": (3200, 200000), "C11": (3200, 200000), "C12": (14000, 900000),
    "C13": (10000, 700000), "C14": (12000, 800000), "C15": (12000, 800000), "C16": (10000, 700000),
    "C17": (3200, 200000), "C18": (16000, 800000),
}
CAP = {"quick": 400, "thorough": 5400}  # seconds of search, a safety net for slow machines
RULES = {
    "C01": "a frame was received and the schedule has several arrivals or an injected fault",
    "C02": "at least one frame was expected and the line carried something besides it",
    "C03": "the line was damaged and intact frames were expected after the damage",
    "C04": "the listener or reader ran until the end of the line, a permanent error, or a silent line",
    "C05": "at least one read call with a caller's buffer around the size of the frame was judged",
    "C06": "a message was delivered and another was dropped, broke the file, or used the other checksum",
    "C07": "at least one message of the hostile input was delivered, printed, converted and written again",
    "C08": "frames or operations ran that allocate (more than four allocations)",
    "C09": "a file that was sent was also received and compared",
    "C10": "at least one transmission was judged",
    "C11": "a file was sent more than once, or after a failed transmission",
    "C12": "at least one message was delivered and compared with the reference decoder",
    "C13": "at least one message was delivered and compared with the reference decoder",
    "C14": "at least one line of readings was expected",
    "C15": "hostile stream, or a readable stream with numeric readings",
    "C16": "at least one line of readings was expected, or the port could not be opened",
    "C17": "threads were switched more often than they were started",
    "C18": "at least two identifiers were generated",
}
REAL = {
    "rx": ["sml_transport.c"],
    "lib": ["all of sml/src (transport receiver and writer, parser, file and message API, printers)"],
    "tool": ["examples/sml_server.c (main renamed)", "all of sml/src"],
}
STUB = {
    "line": "descriptor, select/poll/read and the peer on the line: simulated (virtual time)",
    "sink": "descriptor that accepts what is written: simulated, scripted results",
    "mem": "malloc/free: real allocator under ASan behind a ledger, contents chosen by the scenario",
    "tty": "serial port, termios, modem lines: simulated terminal driver",
    "stdout": "stdio output: simulated stream with real buffering rules",
    "entropy": "/dev/urandom, libuuid, rand: simulated",
    "threads": "pthreads of the caller: real threads, one at a time, switched by the simulator at basic blocks",
}
PARTS = {
    **{f"C0{i}": ("rx", ["line", "mem"]) for i in range(1, 6)},
    "C06": ("lib", ["line", "mem"]), "C07": ("lib", ["line", "sink", "mem", "stdout"]),
    "C08": ("tool", ["line", "sink", "mem", "stdout", "tty"]),
    "C09": ("lib", ["line", "sink", "mem"]), "C10": ("lib", ["sink", "mem"]), "C11": ("lib", ["sink", "mem"]),
    "C12": ("lib", ["line", "mem"]), "C13": ("lib", ["line", "mem"]),
    "C14": ("tool", ["line", "tty", "stdout", "mem"]), "C15": ("tool", ["line", "tty", "stdout", "mem"]),
    "C16": ("tool", ["line", "tty", "stdout", "mem"]),
    "C17": ("lib", ["line", "sink", "mem", "threads"]), "C18": ("lib", ["entropy", "mem"]),
}


def die(msg):
    print("check.py: no answer: " + msg, file=sys.stderr)
    sys.exit(2)


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["bash", os.path.join(HERE, "sim/build.sh"), REPO, BUILD], capture_output=True, text=True)
        if r.returncode:
            die("build failed\n" + (r.stdout + r.stderr)[-4000:])


def binary(text):
    m = re.search(r"^build (nouuid|threads|threads-nouuid)$", text, re.M)
    return os.path.join(BUILD, "simrun-" + m[1] if m else "simrun")


def run_file(path, *more):
    """(status, class, log hash, message)"""
    r = subprocess.run([binary(open(path).read()), "run", path, *more], capture_output=True, text=True, errors="replace")
    m = re.search(r"^(RUNNING|OK|VIOLATION|INVALID|HARNESS) class=(\S+) log=(\S+) steps=\d+ simtime_us=\d+ nontrivial=\d ?(.*)$", r.stdout, re.M)
    if not m:
        return ("HARNESS", "-", "-", "no verdict: " + (r.stdout + r.stderr)[-500:])
    return m.groups()


def known_findings():
    """entries 'known: property=<id> scenario=<file> class=<class> <what fails>' of KNOWN_FINDINGS"""
    out = []
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS")):
        m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) (.*)", line)
        if m:
            out.append(m.groups())
    return out


def evidence(prop, tier, seed, cov, wall, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "the kernel, libc and libuuid behave as the simulator models them (see DESIGN.md)",
            "clang's code generation stands for the shipped compiler's; sanitisers report memory errors",
            "a passing search is evidence for the runs it made, not a proof",
        ],
        "wall_s": round(wall, 2), "violations": violations,
    }
    tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))


def report(prop, src, cls, msg, minimise, tier):
    """gates, minimises and prints a violation; the replay file is what is printed"""
    a, b = run_file(src), run_file(src)
    if a[0] != "VIOLATION" or a[:2] != b[:2]:
        die(f"{src} does not reproduce: {a} / {b}")
    if a[2] != b[2]:
        print(f"{prop}: note: the same violation with different event logs, the code under test is not deterministic")
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    dst = os.path.join(HERE, "replays", os.path.basename(src))
    if minimise:
        r = subprocess.run([binary(open(src).read()), "shrink", src, dst, "--seconds", "60" if tier == "quick" else "300"],
                           capture_output=True, text=True, errors="replace")
        print(r.stdout.strip())
        c, d = (run_file(dst), run_file(dst)) if os.path.exists(dst) else (None, None)
        if not c or c[0] != "VIOLATION" or c[:2] != d[:2] or c[1] != a[1]:
            with open(dst, "w") as f:  # keep the original if the small one is not as good
                f.write(open(src).read())
            c = a
    else:
        with open(dst, "w") as f:
            f.write(open(src).read())
        c = a
    t = subprocess.run([binary(open(dst).read()), "run", dst, "-v"], capture_output=True, text=True, errors="replace")
    with open(dst + ".trace", "w") as f:
        f.write(t.stdout + t.stderr)
    print(f"{prop}: {c[1]}: {c[3][:1500]}")
    print(f"replay: python3 {HERE}/check.py replay {dst}   (event trace: {dst}.trace)")
    print(f"VIOLATION property={prop} replay={dst}", flush=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        build()
        path = sys.argv[2]
        r = subprocess.run([binary(open(path).read()), "run", path, *(sys.argv[3:] or ["-s"])])
        sys.exit(r.returncode)
    prop = sys.argv[1]
    if prop not in RUNS:
        die("unknown property " + prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in CAP:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = int(os.environ.get("VERIF_RUNS", RUNS[prop][tier == "thorough"]))
    t0 = time.time()
    build()
    t_build = time.time() - t0

    # 1. known findings and directed scenarios (minimised histories that broke the code once)
    known = 0
    for p, scn, cls, what in known_findings():
        if p != prop:
            continue
        st = run_file(os.path.join(HERE, scn))
        if st[0] == "VIOLATION" and (st[1] == cls or cls == "crash" and st[1].startswith("crash")):
            print(f"KNOWN-FINDING: property={prop} {what}")
            known += 1
        elif st[0] == "VIOLATION":
            report(prop, os.path.join(HERE, scn), st[1], st[3], False, tier)
            sys.exit(1)
        elif st[0] != "OK":
            die(f"{scn}: {st}")
    directed = sorted(glob.glob(os.path.join(HERE, "sim/directed", prop + "-*.scn")))
    for scn in directed:
        st = run_file(scn)
        if st[0] == "VIOLATION":
            evidence(prop, tier, seed, {"evaluations": len(directed), "distinct_nontrivial": 0, "rule": "directed scenario " + os.path.basename(scn), "samples": [open(scn).read()[:2000]]}, time.time() - t0, 1)
            report(prop, scn, st[1], st[3], False, tier)
            sys.exit(1)
        if st[0] != "OK":
            die(f"{scn}: {st}")

    # 2. seeded search
    work = os.path.join(BUILD, f"work-{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    per = max(1, total // WORKERS)
    jobs = []
    for w in range(WORKERS):
        # C18: both build variants, half of the workers each (C08, C17: a quarter without the UUID library); a worker's runs are w, w+8, ...
        b = "simrun-nouuid" if (prop == "C18" and w % 2) or (prop == "C08" and w % 4 == 3) else ("simrun-threads-nouuid" if w % 4 == 3 else "simrun-threads") if prop == "C17" else "simrun"
        out = os.path.join(work, f"w{w}.json")
        cmd = [os.path.join(BUILD, b), "batch", prop, "--seed", str(seed), "--start", str(w), "--step", str(WORKERS),
               "--count", str(per), "--seconds", str(CAP[tier]), "--out", out, "--fail", os.path.join(work, f"{prop}-s{seed}")]
        jobs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, f"w{w}.err"), "w"))))
    t1 = time.time()
    D = []
    for out, p in jobs:
        p.wait()
        try:
            D.append(json.load(open(out)))
        except (OSError, ValueError) as e:
            err = open(out.replace(".json", ".err"), errors="replace").read()[-2000:]
            die(f"worker failed ({p.returncode}): {e}\n{err}")
    search = time.time() - t1
    S = lambda k: sum(d[k] for d in D)
    logs, edges, counters = set(), set(), {}
    for d in D:
        logs.update(d["logs"])
        edges.update(d["edges"].split())
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
    fails = sorted((f["index"], f["class"], f["message"], f["file"]) for d in D for f in d["failures"])

    # 3. the simulator's own promise: one seed, one execution
    again = 0
    for i in range(0, 40, 8) if not fails else []:
        for variant in ("simrun", "simrun-nouuid") if prop in ("C08", "C17", "C18") else ("simrun",):
            f = os.path.join(work, f"det-{i}.scn")
            open(f, "w").write(subprocess.run([os.path.join(BUILD, variant), "gen", prop, str(seed), str(i)], capture_output=True, text=True).stdout)
            a, b = run_file(f), run_file(f)
            if a != b:
                die(f"index {i}: two executions differ: {a} / {b}")
            again += 1

    runs = S("runs")
    real, stubs = PARTS[prop]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(logs),
        "rule": "One evaluation is one scenario, generated from (VERIF_SEED, property, run index) and executed in a process of its own. "
                "Non-trivial: " + RULES[prop] + ". Distinct: by the hash of the complete event log (descriptor calls, results, virtual times, decoded data, switches).",
        "samples": [d["sample"] for d in D if d["sample"]][:3] or ["seed=%d index=0" % seed],
        "directed_scenarios": len(directed),
        "known_findings_reproduced": known,
        "runs_per_hour": int(runs / max(search, 0.001) * 3600),
        "seeds_per_hour": int(runs / max(search, 0.001) * 3600),
        "simulated_seconds": round(S("simtime_us") / 1e6, 1),
        "basic_blocks_executed": S("steps"),
        "thread_switches": S("switches"),
        "judged_parts": S("parts"),
        "runs_nontrivial": S("nontrivial"),
        "runs_discarded": S("invalid"),
        "faults_injected": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault-")},
        "probes": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault-")},
        "interleavings_measure": "distinct event log hashes of non-trivial runs (distinct_nontrivial); library edges reached: %d" % len(edges),
        "edges_reached": len(edges),
        "determinism_rechecks": again,
        "real_components": REAL[real],
        "stub_components": [STUB[s] for s in stubs],
        "workers": WORKERS,
        "build_s": round(t_build, 1),
        "search_s": round(search, 1),
        "planned_runs": per * WORKERS,
    }
    evidence(prop, tier, seed, cov, time.time() - t0, len(fails))
    if fails:
        i, cls, msg, src = fails[0]
        print(f"run {i} of seed {seed} violates {prop}; minimising")
        report(prop, src, cls, msg, True, tier)
        subprocess.run(["rm", "-rf", work])
        sys.exit(1)
    if S("harness"):
        die("harness error: " + next(d["harness_message"] for d in D if d["harness"]))
    subprocess.run(["rm", "-rf", work])
    print(f"{prop}: held in {runs} runs ({len(logs)} distinct non-trivial, {len(edges)} edges, {S('simtime_us') / 1e6:.0f} s simulated), "
          f"{len(directed)} directed scenarios, {time.time() - t0:.1f} s")
    sys.exit(0)


main()
