#!/usr/bin/env python3
"""Build one property's simulation from /repo's working tree, search, report.

usage: run.py <property> [--tier quick|thorough] [--replay FILE] [--time S] [--keep]
exit 0: held on everything explored; 1: VIOLATION printed; 2: error of the check.
"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GBS_REPO", "/repo")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
COMMON = ["-std=c++20", "-O2", "-w", "-pipe"]
HARNESS = COMMON + [
    "-DNDEBUG", "-DRAPIDJSON_HAS_CXX11_RVALUE_REFS", "-DGBS_SIM", "-gline-tables-only",
    "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
    "-D_PSTL_PARALLEL_BACKEND_H", "-include", f"{V}/sim/pstl_backend.h",
    f"-I{V}/sim", f"-I{V}/harness", f"-I{REPO}", f"-I{REPO}/inc", "-I/usr/include/eigen3"]

def die(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(2)

def cc(args):
    p = subprocess.run(args, capture_output=True, text=True)
    return p.returncode, p.stderr

def build(prop, spec, bdir):
    os.makedirs(bdir, exist_ok=True)
    jobs = [([CXX] + COMMON + ["-g1", "-c", f"{V}/sim/sim.cpp", "-o", f"{bdir}/sim.o"])]
    objs = [f"{bdir}/sim.o"]
    for src in spec["sources"]:
        o = f"{bdir}/{os.path.basename(src)}.o"
        objs.append(o)
        jobs.append([CXX] + HARNESS + ["-c", f"{V}/harness/{src}", "-o", o])
    with ThreadPoolExecutor(8) as ex:
        for (rc, err), j in zip(ex.map(cc, jobs), jobs):
            if rc:
                sys.stderr.write(err[-6000:])
                die(f"{prop}: the harness does not compile against {REPO}")
    exe = f"{bdir}/{prop}"
    rc, err = cc([CXX, "-no-pie", "-rdynamic"] + objs + ["-o", exe, "-lnlopt", "-lpthread", "-ldl"])
    if rc:
        sys.stderr.write(err[-4000:])
        die(f"{prop}: link failed")
    return exe

def known_for(prop):
    """known-findings.txt: 'known: property=<id> match=<scenario>|<class>|<substring> :: <text>' lines; 'fixed:' lines suppress nothing."""
    out = []
    try:
        for line in open(f"{V}/known-findings.txt"):
            line = line.strip()
            if line.startswith("known: ") and f"property={prop} " in line:
                m = line.split("match=", 1)[1]
                key, text = m.split(" :: ", 1)
                out.append((key, text))
    except FileNotFoundError:
        pass
    return out

def main():
    a = sys.argv[1:]
    if not a:
        die("usage: run.py <property> [--tier quick|thorough] [--replay FILE]")
    if a[0] == "--setup":
        for tool in (CXX, "python3"):
            if not shutil.which(tool): die(f"{tool} is missing")
        os.makedirs(f"{V}/build", exist_ok=True)
        rc, err = cc([CXX] + COMMON + ["-g1", "-c", f"{V}/sim/sim.cpp", "-o", f"{V}/build/setup-sim.o"])
        if rc: die("the simulator does not compile: " + err[-2000:])
        print("setup ok")
        sys.exit(0)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    secs = None
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--replay" in a: replay = a[a.index("--replay") + 1]
    if "--time" in a: secs = float(a[a.index("--time") + 1])
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    spec = json.load(open(f"{V}/checks.json")).get(prop)
    if spec is None: die(f"unknown property {prop}")
    t0 = time.time()
    bdir = f"{V}/build/{prop}" if REPO == "/repo" else f"{V}/build/alt{abs(hash(REPO))%9999}-{prop}"
    exe = build(prop, spec, bdir)
    t_build = time.time() - t0
    known = known_for(prop)
    kargs = []
    for k, _ in known: kargs += ["--known", k]

    if replay:
        p = subprocess.run([exe, "--replay", replay, "-v"])
        sys.exit(p.returncode)

    if secs is None: secs = spec.get("quick_s", 25) if tier == "quick" else spec.get("thorough_s", 1800)
    runs = 10**9
    rdir = f"{V}/replays"
    os.makedirs(rdir, exist_ok=True)
    rfile = f"{rdir}/{prop}-seed{seed}-{tier}.replay"
    if os.path.exists(rfile): os.remove(rfile)
    out = f"{bdir}/result.json"
    if os.path.exists(out): os.remove(out)
    jobs = os.cpu_count() or 8
    try: jobs = len(os.sched_getaffinity(0))
    except Exception: pass
    cmd = [exe, "--seed", str(seed), "--runs", str(runs), "--time", str(secs), "--jobs", str(jobs), "--out", out, "--prop", prop, "--replay-out", rfile] + kargs
    try:
        p = subprocess.run(cmd, timeout=secs + 600)
    except subprocess.TimeoutExpired:
        die(f"{prop}: the search did not stop in time")
    try: res = json.load(open(out))
    except Exception as e: die(f"{prop}: no result ({e}), exit {p.returncode}")

    # one actual case of each scenario, written out
    samples = []
    for name in list(res["scenarios"])[:6]:
        q = subprocess.run([exe, "--one", name, "--one-seed", str(seed)], capture_output=True, text=True, errors="replace")
        lines = q.stdout.splitlines()
        samples.append({"scenario": name, "seed": seed, "result": lines[0][:300] if lines else "", "trace_head": [l[:160] for l in lines[1:9]]})

    wall = time.time() - t0
    sw = max(res["wall_s"], 1e-9)
    cov = {
        "evaluations": res["runs"],
        "distinct_nontrivial": res["distinct_cases"],
        "rule": spec["rule"] + " A case counts as distinct and non-trivial when the hash of its scenario-specific tag (structure sizes, options, operation mix, fault actually fired) was not seen before in this batch.",
        "samples": samples,
        "scenarios": res["scenarios"],
        "runs_per_hour": int(res["runs"] / sw * 3600),
        "seeds": {"master": seed, "derived": res["runs"]},
        "simulated_steps": res["steps"],
        "simulated_time_ns": res["sim_ns"],
        "simulated_time_note": "the library reads no clock; progress is measured in instrumented memory accesses (steps)",
        "runs_fault_injecting": res["runs_fault_injecting"],
        "runs_fault_free": res["runs_fault_free"],
        "faults_injected": {k: v for k, v in res["counters"].items() if k.startswith("fault.")},
        "probes": {k: v for k, v in res["counters"].items() if not k.startswith("fault.")},
        "parallel_regions": res["parallel_regions"],
        "tasks_executed": res["pieces"],
        "preemptions_inside_tasks": res["preemptions"],
        "context_switches": res["switches"],
        "distinct_interleavings": res["distinct_interleavings"],
        "interleaving_measure": "distinct hashes of the whole sequence of (step, from-thread, to-thread, reason) context switches of a run",
        "determinism_reruns": res["determinism_reruns"],
        "determinism_mismatches": res["determinism_mismatches"],
        "real_code": spec.get("real", "all gbs headers from the working tree, Eigen, Boost, NLopt, libstdc++ containers, streams and parallel algorithms"),
        "stubs": spec.get("stubs", "task scheduler behind the parallel algorithms, thread scheduling, mutex/condition/once primitives, heap allocator, entropy, clock, files under /simdisk"),
        "build_s": round(t_build, 2),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []) + [
              "seeded sampling, not enumeration: a clean batch is evidence, not proof",
              "preemption happens at memory accesses of the instrumented gbs/Eigen/Boost/libstdc++ template code; precompiled libstdc++ and NLopt code runs without preemption",
              "sequentially consistent interleavings: weak-memory reorderings are covered only through the data-race detector"],
          "wall_s": round(wall, 2), "violations": 1 if res["rc"] == 1 else 0}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, text in known:
        print(f"KNOWN-FINDING: property={prop} {text}")
    if res["rc"] == 1:
        v = res["violation"]
        print(f"violation: scenario={v['scenario']} class={v['class']} seed={v['seed']}: {v['message'][:400]}")
        print(f"VIOLATION property={prop} replay={rfile}", flush=True)
        sys.exit(1)
    if res["rc"] != 0:
        die(f"{prop}: {res['why']}")
    # reach gate: a required probe stuck at zero means the exploration was hollow
    for k in spec.get("require", []):
        if not res["counters"].get(k):
            die(f"{prop}: probe {k} was never hit")
    print(f"OK property={prop} runs={res['runs']} distinct={res['distinct_cases']} wall={wall:.1f}s")
    sys.exit(0)

if __name__ == "__main__":
    main()
