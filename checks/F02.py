"""F02: molecular integrals cached in the work directory, across kills, faults and restarts.

A history of job incarnations sets up the molecular system and its reference orbitals in one work
directory on the simulated disk.  Molecular-orbital signs differ between incarnations, so a mixture
of files of different incarnations is visible.  Every system a job obtains is compared with an
independent computation in one gauge, on every rank.
"""
from __future__ import annotations

import contextlib
import io
import os

import numpy as np

from . import chem
from . import common as C
from simlib import core, disk as D
from simlib.runner import Result

PROPERTY = "F02"
RULE = "nontrivial: at least two incarnations in one directory, or several ranks; keyed by the disk history and outcome"
REAL = ["cpd_backflow.systems, cpd_backflow.models (orbitals, environments)", "numpy.save/load",
        "GPSKet ab-initio operators", "pyscf (memoised solvers)"]
STUB = ["MPI transport", "file system (interception points over a scratch directory)", "process kills",
        "clock, process ids, temporary names", "orbital signs chosen per incarnation"]
ASSUMPTIONS = ["process-crash model: data handed to the kernel survives a kill; no power loss",
               "one job at a time uses a work directory"]
BUDGET = {"quick": (24, 30, 45), "thorough": (600, 100, 1500)}

MOLS = {
    "H2": [("H", (0.0, 0.0, 0.0)), ("H", (0.0, 0.0, 0.9))],
    "H4": [("H", (0.1, 0.0, 0.0)), ("H", (0.0, 1.1, 0.0)), ("H", (0.9, 0.0, 0.1)), ("H", (1.2, 1.0, 0.3))],
    "H3": [("H", (0.0, 0.0, 0.0)), ("H", (0.0, 0.3, 0.9)), ("H", (0.0, 0.0, 1.9))],
    "LiH": [("Li", (0.0, 0.0, 0.0)), ("H", (0.0, 0.0, 1.6))],
}
BASES = ("canonical", "local-boys", "local-pipek-mezey", "local-edmiston-ruedenberg", "local-split",
         "local")


def gen_block(rng, b):
    return {"n": [1, 2, 3, 2][b % 4]}


def gen_case(blk, rng, i):
    n = blk["n"]
    mol = rng.choice(list(MOLS))
    case = {**blk, "mol": mol, "basis": rng.choice(BASES), "unit": rng.choice(["angstrom", "bohr"]),
            "thr": rng.choice([None, None, None, 0.0, 1e-3]), "cwd": rng.random() < 0.2,
            "gauges": rng.random() < 0.7, "sym": rng.random() < 0.3, **C.sched_fields(rng)}
    if mol == "H3" or (mol == "H4" and rng.random() < 0.3):
        case["n_elec"] = {"H3": [2, 1], "H4": [3, 1]}[mol]
        if case["basis"] == "local-split":
            case["basis"] = "local-boys"
    else:
        case["n_elec"] = None
    runs = []
    for k in range(rng.choice([0, 1, 1, 2, 3])):
        run = {"kill": None, "disk": [], "gauge": rng.randrange(3), "exch": rng.random() < 0.4,
               **C.sched_fields(rng)}
        x = rng.random()
        if x < 0.7:
            run["kill"] = {"kind": "kill", "rank": rng.choice([0, 0, rng.randrange(n)]),
                           "at": rng.randint(1, 30 + 12 * n), "grace": rng.choice([0, 0, 3, 20])}
        elif x < 0.9:
            run["disk"] = [{"kind": rng.choice(["enospc", "enospc", "eio", "short", "eioread"]),
                            "nth": rng.randint(1, 6), "len": rng.choice([1, 1, 2, 50])}]
        runs.append(run)
    runs.append({"kill": None, "disk": [], "gauge": rng.randrange(3), "exch": rng.random() < 0.5,
                 **C.sched_fields(rng)})
    if case["n_elec"]:
        for run in runs:      # the exchange matrix is only defined for closed shells
            run["exch"] = False
    case["runs"] = runs
    case["restricted"] = case["n_elec"] is None and rng.random() < 0.5
    case["fixed"] = rng.random() < 0.6
    return case


def shrink(case):
    runs = case["runs"]
    for k in range(len(runs) - 1):
        yield {**case, "runs": runs[:k] + runs[k + 1:]}
    for k, r in enumerate(runs):
        for key, v in (("kill", None), ("disk", []), ("exch", False)):
            if r[key] != v:
                yield {**case, "runs": runs[:k] + [{**r, key: v}] + runs[k + 1:]}
    if case["n"] > 1:
        yield {**case, "n": case["n"] - 1}
    for k, v in (("mol", "H2"), ("basis", "canonical"), ("thr", None), ("cwd", False)):
        if case[k] != v and not (k == "mol" and case["n_elec"]):
            yield {**case, k: v}


def sysconf(case):
    c = {"basis": case["basis"], "basis_set": "sto-3g", "molecule": MOLS[case["mol"]],
         "symmetry": case["sym"], "unit": case["unit"]}
    if case["n_elec"]:
        c["n_elec"] = tuple(case["n_elec"])
    if case["thr"] is not None:
        c["pruning_threshold"] = case["thr"]
    return c


def program(case, run, workdir, got):
    def prog(r):
        from ml_collections import ConfigDict
        from cpd_backflow.systems import get_system
        from cpd_backflow import models
        conf = ConfigDict({"system_name": "Hsheet", "system": sysconf(case),
                           "model": {"exchange_cutoff": 2} if run["exch"] else {}})
        ha = get_system(conf, workdir)
        hi = ha.hilbert
        phi = models.get_hf_orbitals_from_file(conf.system, hi._n_elec, workdir,
                                               restricted=case["restricted"],
                                               fixed_magnetization=case["fixed"])
        env = models.get_top_k_orbital_indices(conf.system, 2, workdir) if run["exch"] else None
        got.append((r, hi.size, tuple(int(x) for x in hi._n_elec), np.array(ha.h_mat),
                    np.array(ha.eri_mat), np.array(phi), None if env is None else np.array(env)))
        return True
    return prog


def wrong_environment(env, em):
    """The cutoff most strongly exchange-coupled orbitals of every orbital, strongest first."""
    em = np.abs(em)
    if env.shape != (len(em), 2):
        return f"shape {env.shape}"
    for i, row in enumerate(env):
        if len(set(row.tolist())) != len(row):
            return f"orbital {i}: {row.tolist()} names an orbital twice"
        if not np.all(np.abs(em[i][row] - np.sort(em[i])[::-1][:len(row)]) < 1e-6):
            return (f"orbital {i}: {row.tolist()} with couplings {em[i][row].round(6).tolist()}, the strongest are "
                    f"{np.sort(em[i])[::-1][:len(row)].round(6).tolist()}")
    return None


def close(a, b):
    return a.shape == b.shape and np.all(np.abs(a - b) < 1e-6)


def run_case(case):
    res = Result()
    chem.install()
    chem.FORCE_BASIS = None
    n = case["n"]
    pk = ("netket", "GPSKet", "cpd_backflow.systems", "cpd_backflow.models")
    w = C.get_world(n, packages=pk, key="cpdsys")
    D.install()
    d = D.Disk()
    d.mkroot()
    workdir = os.path.join(d.root, "work")
    os.makedirs(workdir)
    d.cwd = workdir if case["cwd"] else None
    hist = []
    sysc = sysconf(case)
    try:
        used = []
        for k, run in enumerate(case["runs"]):
            g = run["gauge"] if case["gauges"] else 0
            used.append(g)
            chem.GAUGE = g
            d.next_run(run["disk"])
            got = []
            with D.use(d), contextlib.redirect_stdout(io.StringIO()):
                sim, out = C.run_job({**case, **{x: run[x] for x in ("sched", "policy")}}, n,
                                     program(case, run, None if case["cwd"] else workdir, got),
                                     res, world=w, faults=[run["kill"]] if run["kill"] else (),
                                     allow_exc=True, salt=k)
            if res.violation:
                return res
            disturbed = any(f.startswith("E") for f in sim.fired)
            for r, o in enumerate(out):
                if o[0] == "exc" and not (disturbed and isinstance(o[1], OSError)):
                    return res.bad(f"exception:{type(o[1]).__name__}",
                                   f"run {k}, rank {r}: "
                                   + core.label_of(o[1]).replace(d.root, "<dir>") + "\n"
                                   + C.short_tb(sim.ranks[r].tb))
            for item in got[1:]:
                for a, b, what in zip(item[1:], got[0][1:], ("size", "n_elec", "h1", "h2", "orbitals",
                                                             "environments")):
                    if not np.array_equal(a, b):
                        return res.bad("ranks-differ", f"run {k}: {what} of rank {item[0]} differs "
                                                       f"from rank {got[0][0]}")
            for r, size, ne, h1, h2, phi, env in got[:1]:
                why = []
                for g in sorted(set(used)):
                    ref = chem.molecule_reference(sysc, g)
                    if size != ref["norb"] or ne != ref["nelec"]:
                        why = [f"{size} orbitals, {ne} electrons"]
                        continue
                    ok = (close(h1, ref["h1"]), close(h2, ref["h2"]),
                          close(phi, chem.expected_orbitals(ref, case["restricted"], case["fixed"])))
                    if all(ok):
                        why = None
                        break
                    why.append(f"gauge {g}: " + ", ".join(
                        x for x, y in zip(("h1", "h2", "reference orbitals"), ok) if not y) + " differ")
                if why is not None:
                    return res.bad("wrong-system", f"run {k}, rank {r}: {'; '.join(why)}")
                if env is not None:
                    bad = wrong_environment(env, ref["exchange"])
                    if bad:
                        return res.bad("wrong-environment", f"run {k}: {bad}")
                    res.probe("environments compared")
            hist.append((tuple(o[0] for o in out), sorted(sim.fired.items()), len(got)))
            for o in out:
                res.probe("rank " + o[0])
    finally:
        chem.GAUGE = 0
        d.remove()
    res.note(hist)
    if n > 1 or len(case["runs"]) > 1:
        res.key = res.digest
    return res
