"""F01: the water data set behind its disk cache, with kills, failing writes and concurrency.

A history of job incarnations requests data sets from one cache directory on the simulated disk;
ranks run concurrently, can be killed before any disk operation, and writes can fail or be short.
Whatever a request returns is compared with an independent from-scratch computation, and a
request that is not itself disturbed has to succeed.
"""
from __future__ import annotations

import contextlib
import io
import os

import numpy as np

from . import chem
from . import common as C
from simlib import core, disk as D
from simlib.runner import Result

PROPERTY = "F01"
RULE = "nontrivial: at least one kill or disk fault fired or two ranks raced on an empty cache; keyed by the disk history"
REAL = ["GPSKet.datasets.h2o", "numpy.save/load", "pyscf (sto-3g instead of 6-31G, memoised solvers)"]
STUB = ["file system (simulated interception points over a scratch directory)", "process kills",
        "clock, process ids, temporary names"]
ASSUMPTIONS = ["process-crash model: data handed to the kernel survives a kill; no power loss",
               "concurrently running processes compute in the same orbital gauge (signs); "
               "processes of different incarnations may differ"]
BUDGET = {"quick": (24, 30, 45), "thorough": (600, 100, 1500)}

BASES = ("CANONICAL", "LOCAL", "BOYS", "SPLIT")


def request(rng):
    return {"basis": rng.choice(BASES), "method": rng.choice(["FCI", "FCI", "CISD"]),
            "largest": rng.choice([None, None, 1, 5, 50, 441]), "case": rng.random() < 0.3}


def gen_block(rng, b):
    return {"n": [1, 2, 3, 2][b % 4]}


def gen_case(blk, rng, i):
    n = blk["n"]
    pool = [request(rng) for _ in range(rng.choice([1, 1, 2]))]
    runs = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        run = {"reqs": [rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))],
               "kill": None, "disk": [], "gauge": rng.randrange(3),
               **C.sched_fields(rng)}
        x = rng.random()
        if x < 0.55:
            run["kill"] = {"kind": "kill", "rank": rng.randrange(n), "at": rng.randint(1, 24 * n),
                           "grace": rng.choice([0, 0, 3, 20])}
        elif x < 0.8:
            kind = rng.choice(["enospc", "enospc", "eio", "short", "eioread"])
            run["disk"] = [{"kind": kind, "nth": rng.randint(1, 6 * n), "len": rng.choice([1, 1, 2, 50])}]
        runs.append(run)
    runs.append({"reqs": [dict(p) for p in pool], "kill": None, "disk": [],
                 "gauge": rng.randrange(3), **C.sched_fields(rng)})
    return {**blk, "runs": runs, "gauges": n == 1 and rng.random() < 0.7, **C.sched_fields(rng)}


def shrink(case):
    runs = case["runs"]
    for k in range(len(runs) - 1):
        yield {**case, "runs": runs[:k] + runs[k + 1:]}
    for k, r in enumerate(runs):
        if len(r["reqs"]) > 1:
            for j in range(len(r["reqs"])):
                yield {**case, "runs": runs[:k] + [{**r, "reqs": r["reqs"][:j] + r["reqs"][j + 1:]}] + runs[k + 1:]}
        if r["kill"]:
            yield {**case, "runs": runs[:k] + [{**r, "kill": None}] + runs[k + 1:]}
        if r["disk"]:
            yield {**case, "runs": runs[:k] + [{**r, "disk": []}] + runs[k + 1:]}
    if case["n"] > 1:
        yield {**case, "n": case["n"] - 1}


def compare(req, conf, amp, gauges):
    conf, amp = np.asarray(conf), np.asarray(amp)
    k = req["largest"]
    problems = []
    for g in gauges:
        ref = chem.h2o_reference(req["basis"], req["method"], g)
        p = None
        want = min(k, len(ref)) if k else len(ref)
        if conf.ndim != 2 or conf.shape[0] != want or amp.shape != (want,):
            p = f"shapes {conf.shape} and {amp.shape} instead of {want} configurations"
        else:
            rows = [tuple(int(v) for v in c) for c in conf]
            if len(set(rows)) != want:
                p = "configurations repeated"
            elif any(r not in ref for r in rows):
                p = "configurations outside of the Hilbert space"
            else:
                r = np.array([ref[t] for t in rows])
                s = 1.0 if np.vdot(r, amp).real >= 0 else -1.0
                dev = float(np.max(np.abs(amp - s * r)))
                if not dev < 1e-5:
                    p = f"amplitudes deviate by {dev:.3g}"
                elif k:
                    chosen = set(rows)
                    rest = [abs(v) for t, v in ref.items() if t not in chosen]
                    if rest and min(abs(r)) < max(rest) - 1e-6:
                        p = "not the configurations of largest probability"
        if p is None:
            return None
        problems.append(p)
    return problems[-1]


def run_case(case):
    res = Result()
    chem.install()
    chem.FORCE_BASIS = "sto-3g"
    n = case["n"]
    w = C.get_world(n, packages=("netket", "GPSKet", "GPSKet.datasets"), key="data")
    D.install()
    d = D.Disk()
    d.mkroot()
    path = os.path.join(d.root, "a", "data")
    hist = []
    raced = False
    first = {}
    one_gauge = not case["gauges"] or len({r["gauge"] for r in case["runs"]}) == 1
    try:
        gauges = []
        for k, run in enumerate(case["runs"]):
            chem.GAUGE = run["gauge"] if case["gauges"] else 0
            gauges.append(chem.GAUGE)
            d.next_run(run["disk"])
            got = []

            def prog(r):
                from GPSKet.datasets import get_H2O_dataset
                for q in run["reqs"]:
                    b, m = q["basis"], q["method"]
                    if q["case"]:
                        b, m = b.lower(), m.lower()
                    out = get_H2O_dataset(basis=b, method=m, select_largest=q["largest"],
                                          datapath=path)
                    got.append((r, q, np.array(out[0]), np.array(out[1])))
                return True

            before = len(d.ops)
            with D.use(d), contextlib.redirect_stdout(io.StringIO()):
                sim, out = C.run_job({**case, **{x: run[x] for x in ("sched", "policy")}}, n, prog,
                                     res, world=w, faults=[run["kill"]] if run["kill"] else (),
                                     allow_exc=True, salt=k)
            if res.violation:
                return res
            for r, q, c, a in got:
                p = compare(q, c, a, sorted(set(gauges)))
                if p:
                    return res.bad("wrong-data", f"run {k}, rank {r}: {q['method']} in {q['basis']}: {p}")
                # what is stored is what was computed
                key = (q["basis"], q["method"], q["largest"])
                if one_gauge and key in first and (C.differs(a, first[key][1], 1e-10)
                                                   or not np.array_equal(c, first[key][0])):
                    return res.bad("unstable-data", f"run {k}, rank {r}: {q['method']} in {q['basis']}: the data set "
                                                    "differs from the one returned before")
                first.setdefault(key, (c, a))
            disturbed = any(f.startswith("E") for f in sim.fired)
            for r, o in enumerate(out):
                if o[0] == "exc" and not (disturbed and isinstance(o[1], OSError)):
                    return res.bad(f"exception:{type(o[1]).__name__}",
                                   f"run {k}, rank {r}: {core.label_of(o[1]).replace(d.root, "<dir>")}\n"
                                   + C.short_tb(sim.ranks[r].tb))
            if n > 1 and k == 0:
                raced = True
            hist.append((tuple(o[0] for o in out), sorted(sim.fired.items()), len(got)))
            for o in out:
                res.probe("rank " + o[0])
            if d.ops.get("write2", 0):
                res.probe("write in two pieces")
    finally:
        chem.GAUGE = 0
        d.remove()
    res.note(hist)
    if raced or len(case["runs"]) > 1:
        res.key = C.h(np.frombuffer(repr((hist, res.digest)).encode(), dtype=np.uint8))
    return res
