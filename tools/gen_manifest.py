"""Writes MANIFEST.json from the checks present in checks/ and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "A01": "pure function of parameters and configuration: no schedule, time, I/O or several parties for a simulator to control (the sampling side of it is M04)",
 "A02": "pure function of parameters and configuration: nothing for a simulator to control",
}
NOTE = {
 "default": "seeded search over schedules, rank counts, inputs and call histories on the real code; oracle: serial numpy reference",
}
for k in ("F01", "F02", "F03", "F04", "F05"):
    NOTE[k] = "seeded search over kill points, failing writes, restarts, rank counts and schedules on the real program and a simulated file layer; oracle: uninterrupted run and a small reference model"
for k in ("M01", "M02", "M03", "M04"):
    NOTE[k] = "seeded search over move/update histories, seeds, rank counts and schedules on the real code; oracle: evaluation from scratch and exact distributions"
NOTE["F06"] = "seeded search over configurations, rank counts, schedules, per-rank orbital signs and random streams and repeated set-ups on the real programs; oracle: independent Hamiltonian matrix and equality over ranks"
TECH = "deterministic simulation with fault injection: seeded schedules"
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": f"bash run_check.sh {i} quick",
                       "thorough_cmd": f"bash run_check.sh {i} thorough",
                       "technique": TECH + (", kills, torn/failing writes and restarts" if i[0] == "F" and i != "F06" else " of simulated MPI ranks and seeded histories"),
                       "level": "exploration", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", 
           "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are the MPI communicator, mpi4jax lowerings, file functions and the public API", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
