#!/usr/bin/env python3
"""Rewrites MANIFEST.json from checks.json and the reasons below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks = json.load(open(f"{V}/checks.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = {
 "C20": "A statement about a pure function of its numeric arguments: no schedule, fault, time, I/O or history for a simulator to decide; input generation alone would be property-based testing, another technique. (The reference de Boor model of C11/C12 exercises it in passing.)",
 "C21": "Numerical accuracy of a deterministic, single-threaded linear solve; nothing nondeterministic to simulate. Independence of schedule, batch and faults of the same builders is claimed in C03, C04, C07 and C17.",
 "C22": "Optimality of a local optimiser (NLopt) is a numerical statement about pure functions; whether the answer depends on scheduling is claimed in C06.",
 "C23": "OpenCASCADE is not installed here, so the code cannot be built; and the conversions are pure functions.",
 "C24": "No CUDA toolchain or GPU in the sandbox; the kernels cannot run under a simulator here.",
 "C25": "The Python module is not part of the build here (pybind11 bindings need the module build); the wrapped C++ behaviour is what the claimed checks decide.",
}
out = {"version": 1,
 "setup_cmd": "python3 run.py --setup",
 "hooks": {"guard": "GBS_SIM", "enable": "the harnesses compile /repo's headers with -DGBS_SIM; no hook was needed in /repo so far (the seams are the parallel backend of the standard library, the allocator, the entropy device and the file descriptors)", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "Every check builds its harness from /repo's working tree, runs a seeded search, and writes evidence/<id>.json. Replay: python3 run.py <id> --replay replays/<file>."}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
          "technique": "deterministic simulation with fault injection" if c.get("faults") else "deterministic simulation (seeded schedules)",
          "level": c.get("level", "exploration"),
          "level_note": c.get("note", "Seeded search over inputs, schedules and faults in one process; every run is exactly repeatable from its seed. Evidence, not proof: assumes the sampled seeds are representative; trusts the simulator, clang's instrumentation and the reference model."),
          "evidence_file": f"evidence/{i}.json"})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "Not built yet.")})
json.dump(out, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
