"""Seeded search: runs cases of one check in worker processes, minimises the first
violation, writes the replay file and the evidence file.

A check is a module `checks/<id>.py` with

  PROPERTY        the property id
  RULE            what makes a run count as distinct and nontrivial
  REAL, STUB      which components ran real code / a stand-in
  BUDGET          {"quick": (blocks, cases per block, seconds), "thorough": ...}
  gen_block(rng, b)        -> dict shared by the cases of a block (sizes, models ...)
  gen_case(block, rng, i)  -> JSON-able case (carries the block's values)
  run_case(case)           -> Result
  shrink(case)             -> iterable of simpler cases (optional)

Everything in a case comes from PRNGs seeded with (VERIF_SEED, property, block, index).
"""
from __future__ import annotations

import argparse
import contextlib
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

HANG_S = 200   # a single simulated run takes a few seconds
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    def __init__(self):
        self.violation = None     # (kind, detail)
        self.digest = ""
        self.inter = ""           # interleaving measure
        self.key = None           # nontriviality key (hashable as str) or None
        self.fired = {}
        self.stats = {}
        self.probes = {}
        self.steps = 0
        self.decisions = None
        self.simtime = 0.0
        self.samples = None

    def bad(self, kind, detail):
        if self.violation is None:
            self.violation = (kind, str(detail)[:2000])
        return self

    def absorb(self, sim):
        """Take schedule, faults and protocol violations of one simulated run."""
        from .core import HarnessError
        if sim.harness_error is not None:
            raise HarnessError(repr(sim.harness_error)) from sim.harness_error
        self.digest = hashlib.sha256((self.digest + sim.digest()).encode()).hexdigest()[:16]
        self.inter = hashlib.sha256((self.inter + sim.interleaving()).encode()).hexdigest()[:16]
        self.steps += sim.step
        self.simtime += getattr(sim, "now", 0.0)
        for k, v in sim.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        if sim.sched.stalls:
            self.fired["rank stalled"] = self.fired.get("rank stalled", 0) + sim.sched.stalls
        if sim.sched.preempt:
            self.fired["preemption"] = self.fired.get("preemption", 0) + sim.sched.preempt
        for k, v in sim.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        if self.decisions is None:
            self.decisions = []
        self.decisions.append(list(sim.sched.decisions))
        if sim.violation is not None:
            self.bad(*sim.violation)

    def note(self, what):
        """Mix an observation into the digest (compared when replaying)."""
        self.digest = hashlib.sha256((self.digest + repr(what)).encode()).hexdigest()[:16]

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + int(n)


def seeded(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def load_check(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module("checks." + pid)


def make_block(mod, seed, b):
    blk = mod.gen_block(seeded(seed, mod.PROPERTY, "block", b), b)
    return blk


def make_case(mod, blk, seed, b, i):
    rng = seeded(seed, mod.PROPERTY, "case", b, i)
    case = mod.gen_case(blk, rng, i)
    return case


# ---------------------------------------------------------------------------
# worker

def execute(mod, case):
    import numpy as np
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).digest()
    np.random.seed(int.from_bytes(h[:4], "big"))
    random.seed(int.from_bytes(h[:8], "big"))
    return mod.run_case(case)


RESIDENT = 2.2e9


def resident():
    """Bytes of memory held by this process."""
    try:
        with open("/proc/self/statm") as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
    except OSError:
        return 0


def worker_main(pid, plan_path):
    out = os.fdopen(os.dup(1), "w")
    sys.stdout.flush()
    os.dup2(2, 1)  # anything the code under test prints goes to stderr
    plan = json.load(open(plan_path))
    mod = load_check(pid)
    deadline = plan["deadline"]

    def say(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()

    try:
        if plan.get("cases") is not None:
            # replay / minimise mode: run the given cases in order, report the last
            res = None
            for c in plan["cases"]:
                res = execute(mod, c)
            say(t="replay", violation=res.violation, digest=res.digest,
                decisions=res.decisions, fired=res.fired, steps=res.steps)
            if plan.get("minimise") and res.violation:
                best, bres, tried = minimise(mod, plan["cases"][-1], res, deadline)
                say(t="min", case=best, violation=bres.violation, digest=bres.digest,
                    tried=tried, steps=bres.steps)
            return 0
        history = []
        for pos, b in enumerate(plan["blocks"]):
            if time.time() > deadline:
                say(t="deadline")
                break
            if history and resident() > RESIDENT:
                # compiled functions accumulate: go on in a fresh process
                nxt = plan_path + ".next"
                with open(nxt + ".tmp", "w") as f:
                    json.dump({**plan, "blocks": plan["blocks"][pos:]}, f)
                os.replace(nxt + ".tmp", nxt)
                out.flush()
                os.dup2(out.fileno(), 1)
                os.execv(sys.executable, [sys.executable, "-m", "simlib.runner", "--worker", pid, nxt])
            blk = make_block(mod, plan["seed"], b)
            for i in range(plan["per_block"]):
                if time.time() > deadline:
                    break
                case = make_case(mod, blk, plan["seed"], b, i)
                t0 = time.time()
                say(t="begin", b=b, i=i, case=case)
                res = execute(mod, case)
                history.append(case)
                det = None
                if i == 1 or (i == 0 and plan["per_block"] == 1 and b % 4 == 0):
                    res2 = execute(mod, case)
                    det = (res.digest == res2.digest)
                    history.append(case)
                say(t="case", b=b, i=i, digest=res.digest, inter=res.inter, key=res.key,
                    fired=res.fired, stats=res.stats, probes=res.probes, steps=res.steps,
                    simtime=res.simtime, wall=time.time() - t0, det=det,
                    sample=res.samples, violation=res.violation,
                    case=case if (res.violation or i == 0) else None,
                    history=history if res.violation else None)
                if res.violation:
                    return 0
        say(t="done")
    except BaseException:  # noqa: BLE001
        say(t="harness", tb=traceback.format_exc())
        return 3
    return 0


def minimise(mod, case, res, deadline):
    """Greedy shrinking within one process; keeps the class of violation."""
    kind = res.violation[0]
    best, bres, tried = case, res, 0
    # a schedule is minimised as an explicit decision list
    improved = True
    while improved and time.time() < deadline:
        improved = False
        cands = []
        if hasattr(mod, "shrink"):
            cands += list(mod.shrink(best))
        cands += list(generic_shrink(best))
        for c in cands:
            if time.time() > deadline or tried > 400:
                return best, bres, tried
            tried += 1
            try:
                r = execute(mod, c)
            except BaseException:  # noqa: BLE001
                continue
            if r.violation and r.violation[0] == kind:
                best, bres = c, r
                improved = True
                break
    return best, bres, tried


def generic_shrink(case):
    """Faults away, simplest schedule."""
    for fk in ("faults",):
        fs = case.get(fk)
        if fs:
            yield {**case, fk: []}
            if len(fs) > 1:
                for j in range(len(fs)):
                    yield {**case, fk: fs[:j] + fs[j + 1:]}
    if case.get("policy") not in (None, "roundrobin"):
        yield {**case, "policy": "roundrobin"}
    if case.get("sched"):
        yield {**case, "sched": 0}


# ---------------------------------------------------------------------------
# parent

def spawn(pid, plan, tag, tmp, hashseed="0"):
    path = os.path.join(tmp, f"plan-{tag}.json")
    with open(path, "w") as f:
        json.dump(plan, f)
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = hashseed
    env["PYTHONWARNINGS"] = "ignore"
    env["PYTHONPATH"] = VERIF
    env["TMPDIR"] = tmp
    env["HOME"] = os.path.join(tmp, f"home-{tag}")
    os.makedirs(env["HOME"], exist_ok=True)
    err = open(os.path.join(tmp, f"err-{tag}.txt"), "wb")
    return subprocess.Popen([sys.executable, "-m", "simlib.runner", "--worker", pid, path],
                            stdout=subprocess.PIPE, stderr=err, env=env, cwd=VERIF)


def run_plan_once(pid, plan, tag, tmp, hashseed="0", timeout=600):
    p = spawn(pid, plan, tag, tmp, hashseed)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, _ = p.communicate()
    msgs = []
    for line in o.decode().splitlines():
        with contextlib.suppress(ValueError):
            msgs.append(json.loads(line))
    return msgs


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"]
                if k.get("property") == pid and k.get("status") == "known"]


def match_known(known, case, violation):
    for k in known:
        m = k["match"]
        if m.get("kind") and m["kind"] != violation[0]:
            continue
        if m.get("detail_contains") and m["detail_contains"] not in violation[1]:
            continue
        if all(case.get(a) == b for a, b in m.get("case", {}).items()):
            return k
    return None


def check_main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--blocks", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--dump")
    a = ap.parse_args(argv)
    pid = a.property
    mod = load_check(pid)
    with tempfile.TemporaryDirectory(prefix=f"sim-{pid}-") as tmp:
        if a.replay:
            return replay_main(pid, a.replay, tmp)
        return search_main(pid, mod, a, tmp)


def replay_main(pid, path, tmp):
    with open(path) as f:
        rep = json.load(f)
    msgs = run_plan_once(pid, {"cases": rep["cases"], "deadline": time.time() + 600,
                               "seed": 0, "per_block": 0}, "replay", tmp)
    m = next((m for m in msgs if m["t"] == "replay"), None)
    if m is None and rep["violation"][0] == "hang" and not msgs:
        print("replay: the run hung again")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if m is None:
        print("replay failed to run:", msgs)
        return 2
    if m["violation"] is None:
        print("replay: no violation on this tree")
        return 0
    same = (m["digest"] == rep["digest"] and m["violation"][0] == rep["violation"][0])
    print(f"replay: {m['violation'][0]}: {m['violation'][1]}")
    print(f"replay: event log digest {m['digest']} "
          + ("identical to the recorded run" if same else f"(recorded {rep['digest']})"))
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def search_main(pid, mod, a, tmp):
    t_start = time.time()
    nblocks, per_block, seconds = mod.BUDGET[a.tier]
    if a.blocks:
        nblocks = a.blocks
    if a.seconds:
        seconds = a.seconds
    workers = max(1, min(a.workers, nblocks))
    deadline = t_start + seconds
    print(f"{pid}: seed {a.seed} tier {a.tier}: {nblocks} blocks x {per_block} runs, "
          f"{workers} workers", flush=True)
    procs = []
    import selectors
    sel = selectors.DefaultSelector()
    for w in range(workers):
        plan = {"blocks": list(range(w, nblocks, workers)), "per_block": per_block,
                "seed": a.seed, "deadline": deadline}
        p = spawn(pid, plan, f"w{w}", tmp)
        procs.append(p)
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, (w, bytearray()))
    cases, viols, harness = [], [], []
    hard = deadline + HANG_S + 30
    known = known_findings(pid)
    known_hits = {}
    running = {}
    open_n = workers
    while open_n and time.time() < hard:
        for key, _ in sel.select(timeout=1.0):
            w, buf = key.data
            data = key.fileobj.read()
            if data == b"":
                sel.unregister(key.fileobj)
                open_n -= 1
                continue
            if data is None:
                continue
            buf.extend(data)
            while b"\n" in buf:
                line, _, rest = bytes(buf).partition(b"\n")
                buf[:] = rest
                m = json.loads(line)
                m["w"] = w
                if m["t"] == "begin":
                    running[w] = (time.time(), m)
                    continue
                running.pop(w, None)
                if m["t"] == "case":
                    cases.append(m)
                    if m["violation"]:
                        k = match_known(known, m["case"], m["violation"])
                        if k:
                            known_hits[k["id"]] = k
                        else:
                            viols.append(m)
                elif m["t"] == "harness":
                    harness.append(m)
        if viols:
            break
        for w, (t0, m) in running.items():
            if time.time() - t0 > HANG_S:
                viols.append({**m, "violation": ("hang", f"the run did not end within {HANG_S} s "
                                                 "of wall time (usual: a few seconds)"),
                              "digest": "", "history": [m["case"]], "steps": 0, "hang": True})
                break
        if viols:
            break
    for p in procs:
        if p.poll() is None:
            if viols or time.time() >= hard:
                p.kill()
        p.wait()
    crashed = [w for w, p in enumerate(procs) if p.returncode not in (0, -9)]
    if not viols:
        for w in crashed:
            if not any(h["w"] == w for h in harness):
                with open(os.path.join(tmp, f"err-w{w}.txt"), errors="replace") as f:
                    tail = f.read()[-3000:]
                harness.append({"w": w, "tb": f"worker exited {procs[w].returncode}\n{tail}"})
    rc = 0
    replay_info = None
    if viols:
        rc, replay_info = report_violation(pid, mod, viols[0], a, tmp)
    elif harness:
        print(harness[0]["tb"][-4000:])
        print(f"{pid}: HARNESS ERROR (not a property violation)")
        rc = 2
    elif not cases:
        print(f"{pid}: no case finished")
        rc = 2
    for k in known_hits.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if not a.no_evidence:
        write_evidence(pid, mod, a, cases, viols, harness, time.time() - t_start, replay_info,
                       nblocks, per_block)
    if a.dump:
        with open(a.dump, "w") as f:
            for c in sorted(cases, key=lambda c: (c["b"], c["i"])):
                f.write(f"{c['b']} {c['i']} {c['digest']} {c['inter']}\n")
    if rc == 0:
        print(f"{pid}: held on {len(cases)} simulated runs "
              f"({time.time() - t_start:.1f} s)")
    return rc


def report_violation(pid, mod, m, a, tmp):
    print(f"{pid}: block {m['b']} run {m['i']}: {m['violation'][0]}: {m['violation'][1]}")
    case = m["case"]
    if m.get("hang"):
        return write_replay(pid, a, m, [case], {"violation": m["violation"], "digest": ""},
                            "the run hung; it was stopped, so there is no event log")
    deadline = time.time() + (60 if a.tier == "quick" else 300)
    base = {"seed": 0, "per_block": 0, "deadline": deadline}
    # 1. reproduce alone in a fresh process, then minimise there
    msgs = run_plan_once(pid, {**base, "cases": [case], "minimise": True}, "min", tmp,
                         timeout=180 if a.tier == "quick" else 700)
    got = next((x for x in msgs if x["t"] == "replay" and x["violation"]), None)
    cases, mn = [case], next((x for x in msgs if x["t"] == "min"), None)
    note = ""
    if got is None:
        # depends on what ran before in the same process: keep the whole prefix
        cases = m["history"]
        note = "violation needs the preceding runs of the same worker process"
        rep = None
    else:
        if mn is not None:
            cases = [mn["case"]]
        rep = None
    for k in range(2):
        out = run_plan_once(pid, {**base, "deadline": time.time() + 300, "cases": cases},
                            f"rep{k}", tmp, hashseed=str(k), timeout=150 if a.tier == "quick" else 400)
        rep = next((x for x in out if x["t"] == "replay"), None)
        if rep is None or not rep["violation"]:
            cases, rep = [case], {"violation": m["violation"], "digest": m["digest"],
                                  "decisions": None, "steps": m["steps"]}
            note = "minimised case did not replay; original case recorded"
            break
    return write_replay(pid, a, m, cases, rep, note)


def write_replay(pid, a, m, cases, rep, note):
    case = m["case"]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    h = hashlib.sha256(json.dumps(cases, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "verif_seed": a.seed, "block": m["b"], "run": m["i"],
                   "violation": rep["violation"], "digest": rep["digest"], "cases": cases,
                   "schedule": rep.get("decisions"), "note": note,
                   "original_case": case,
                   "how": f"python -m simlib.runner {pid} --replay {path} (cwd /verif)"},
                  f, indent=1)
    print(f"{pid}: minimised case: {json.dumps(cases[-1])[:1500]}")
    print(f"{pid}: {rep['violation'][0]}: {rep['violation'][1][:800]}")
    if note:
        print(f"{pid}: {note}")
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1, {"path": path, "violation": rep["violation"]}


def write_evidence(pid, mod, a, cases, viols, harness, wall, replay_info, nblocks, per_block):
    fired, stats, probes = {}, {}, {}
    inter, keys, digests = set(), set(), set()
    det_ok = det_bad = 0
    steps = 0
    simtime = 0.0
    for c in cases:
        for src, dst in ((c["fired"], fired), (c["stats"], stats), (c["probes"], probes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        inter.add(c["inter"])
        digests.add(c["digest"])
        if c["key"] is not None:
            keys.add(c["key"])
        steps += c["steps"]
        simtime += c.get("simtime") or 0.0
        if c["det"] is not None:
            det_ok += c["det"]
            det_bad += (not c["det"])
    samples = []
    for c in cases:
        if c["case"] is not None and len(samples) < 5:
            samples.append({"seed": [a.seed, pid, c["b"], c["i"]], "case": c["case"],
                            "observed": c["sample"], "digest": c["digest"]})
    if det_bad:
        print(f"{pid}: WARNING: {det_bad} of {det_ok + det_bad} re-runs had a different event log")
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(cases),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples,
            "simulated_runs": len(cases),
            "planned_runs": nblocks * per_block,
            "runs_per_hour": round(len(cases) / max(wall, 1e-9) * 3600),
            "seeds_per_hour": round(len(cases) / max(wall, 1e-9) * 3600),
            "scheduler_steps": steps,
            "simulated_seconds": round(simtime, 3),
            "faults_injected": fired,
            "operations": stats,
            "probes": probes,
            "distinct_interleavings": len(inter),
            "interleaving_measure": "hash of the global order of (rank, operation) events",
            "distinct_event_logs": len(digests),
            "determinism_reruns_equal": det_ok,
            "determinism_reruns_different": det_bad,
            "components_real": mod.REAL,
            "components_stub": mod.STUB,
        },
        "wall_s": round(wall, 2),
        "violations": len(viols),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
    }
    if replay_info:
        ev["coverage"]["replay"] = replay_info
    if harness:
        ev["coverage"]["harness_errors"] = len(harness)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


COMMON_ASSUMPTIONS = [
    "ranks interleave only at MPI and file operations (they share no memory)",
    "XLA's CPU compiler, numpy and netket are correct; sampled runs, not a proof",
]


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        sys.exit(worker_main(sys.argv[2], sys.argv[3]))
    sys.exit(check_main())
