"""F04: autoregressive training killed, disturbed and restarted until it finishes.

Same machinery and reference model as F03, for the program scripts/ARGPS/argps/vmc.py.
"""
from __future__ import annotations

import contextlib
import io
import os

import numpy as np

from . import chem
from . import common as C
from . import train as T
from .F03 import plain, read
from simlib import core, disk as D
from simlib.runner import Result

PROPERTY = "F04"
RULE = "nontrivial: an incarnation was disturbed and a later one ran in the same directory; keyed by the history"
REAL = ["argps.vmc (main), utils, systems, models, samplers, configs", "flax checkpoints and msgpack",
        "netket VMC driver, SRRMSProp preconditioner and its geometric tensor, samplers, models", "yaml, csv"]
STUB = ["MPI transport", "file system (interception points over a scratch directory)", "process kills",
        "command-line flags", "clocks, process ids, temporary names",
        "model construction memoised per configuration (keeps compiled functions)"]
ASSUMPTIONS = ["process-crash model: data handed to the kernel survives a kill; no power loss",
               "one job at a time uses a work directory",
               "sampler states are not part of a checkpoint"]
BUDGET = {"quick": (8, 200, 60), "thorough": (64, 2000, 1500)}


def gen_block(rng, b):
    return [{"n": 1, "system": "hubbard", "model": "ARFilterGPS", "dtype": "real"},
            {"n": 2, "system": "hubbard", "model": "ARFilterGPS", "dtype": "real"},
            {"n": 1, "system": "heisenberg", "model": "ARGPS", "dtype": "real"},
            {"n": 2, "system": "heisenberg", "model": "GPS", "dtype": "real"},
            {"n": 2, "system": "heisenberg", "model": "ARFilterGPS", "dtype": "complex"},
            {"n": 1, "system": "heisenberg", "model": "MaskedGPS", "dtype": "complex"},
            {"n": 3, "system": "hubbard", "model": "ARGPS", "dtype": "real"},
            {"n": 1, "system": "hubbard", "model": "ARGPS", "dtype": "complex"},
            ][b % 8]


def gen_case(blk, rng, i):
    n = blk["n"]
    case = {**blk, "total": rng.choice([1, 2, 3, 4, 5]), "ckpt": rng.choice([1, 1, 2, 2, 3, 0]),
            "progress": rng.choice([0, 1, 2]), "yaml": rng.random() < 0.5,
            "seed": rng.choice([None, rng.randrange(1000)]), **C.sched_fields(rng)}
    runs = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        run = {"kill": None, "disk": [], **C.sched_fields(rng)}
        x = rng.random()
        if x < 0.45:
            run["kill"] = {"kind": "killdisk", "rank": 0, "nth": rng.randint(1, 6 + 6 * case["total"]),
                           "grace": rng.choice([0, 0, 5, 40])}
        elif x < 0.8:
            run["kill"] = {"kind": "kill", "rank": rng.randrange(n),
                           "at": rng.randint(1, (20 + 10 * case["total"]) if n == 1 else 60 * case["total"] * (n - 1)),
                           "grace": rng.choice([0, 0, 5, 40])}
        else:
            run["disk"] = [{"kind": rng.choice(["enospc", "enospc", "eio", "short", "eioread"]),
                            "nth": rng.randint(1, 16), "len": rng.choice([1, 1, 2, 50])}]
        runs.append(run)
    case["runs"] = runs + [{"kill": None, "disk": [], **C.sched_fields(rng)}]
    return case


def shrink(case):
    runs = case["runs"]
    for k in range(len(runs) - 1):
        yield {**case, "runs": runs[:k] + runs[k + 1:]}
    for k, r in enumerate(runs):
        for key, v in (("kill", None), ("disk", [])):
            if r[key]:
                yield {**case, "runs": runs[:k] + [{**r, key: v}] + runs[k + 1:]}
    for k, v in (("progress", 0), ("yaml", False), ("total", 1), ("ckpt", 1), ("seed", 3)):
        if case[k] != v:
            yield {**case, k: v}


def make_config(case):
    n = case["n"]
    if case["system"] == "hubbard":
        from argps.configs.hubbard1d import get_config
        c = get_config()
        c.system.Lx, c.system.U = 3, 4.0
        c.model_name = case["model"]
    else:
        from argps.configs.heisenberg2d import get_config
        c = get_config(case["model"])
        c.system.Lx, c.system.Ly = 2, 2
        c.system.pbc = False
    c.max_steps = case["total"]
    c.checkpoint_every = case["ckpt"]
    c.progress_every = case["progress"]
    c.model.M = 1
    c.model.dtype = case["dtype"]
    c.optimizer.mode = case["dtype"]
    c.optimizer.learning_rate = 0.02
    c.variational_state.n_samples = 4 * n
    if "n_discard_per_chain" in c.variational_state:
        with c.ignore_type():
            c.variational_state.n_discard_per_chain = 1
    if "n_sweeps" in c.sampler:
        c.sampler.n_chains_per_rank = 2
    if case["seed"] is not None:
        c.variational_state.seed = case["seed"]
    return c


def prelude(r):
    T.prelude(r)
    T.memo_models("argps.models", lambda config, *a, **k: config.model_name
                  + repr(plain(config.model.to_dict())) + repr(plain(config.system.to_dict())))


_warm = {}


def world(case):
    n = case["n"]
    w = C.get_world(n, packages=("netket", "GPSKet", "argps.vmc"), prelude=prelude, key="argpsvmc")
    key = (n, case["system"], case["model"], case["dtype"])
    if key not in _warm:
        T.ready()
        T.observe(w)

        def warm(r):
            from argps.systems import get_system
            from argps.models import get_model
            from argps.configs.common import resolve
            c = resolve(make_config({**case, "seed": 1}))
            ha = get_system(c)
            get_model(c, ha.hilbert, ha.graph if hasattr(ha, "graph") else None)
            return True
        sim = core.Sim(n, seed=1, world=w, policy="roundrobin")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            out = sim.run(warm)
        if any(o[0] != "ok" for o in out):
            raise core.HarnessError(f"setting up the model failed: {[core.label_of(o[1]) for o in out if o[0] == 'exc']}")
        _warm[key] = True
    return w


def check_config(wd, case, w, before, seeds):
    import yaml
    text = read(os.path.join(wd, "config.yaml"))
    if text is None:
        return ("config-lost", "config.yaml disappeared") if before else None
    try:
        got = yaml.safe_load(text)
    except yaml.YAMLError as e:
        return "config-unreadable", f"config.yaml cannot be parsed: {e}"
    if not isinstance(got, dict):
        return "config-unreadable", f"config.yaml is not a configuration: {text[:60]!r}"
    with w.as_rank(0):
        want = plain(make_config(case).to_dict())
    got = plain(got)
    seed = got.get("variational_state", {}).pop("seed", None)
    want["variational_state"].pop("seed", None)
    if got != want or not isinstance(seed, int) or (case["seed"] is not None and seed != case["seed"]):
        return "config-wrong", "config.yaml does not hold the configuration of the run"
    if seeds and case["yaml"] and seed != seeds[-1]:
        return "config-wrong", "the stored seed changed although the run was continued from its directory"
    seeds.append(seed)
    return None


def run_case(case):
    res = Result()
    chem.install()
    chem.FORCE_BASIS = None
    n = case["n"]
    w = world(case)
    H = T.History([(case["total"], 0.02, case["ckpt"])], ema_all=True)
    d = D.Disk()
    d.mkroot()
    wd = os.path.join(d.root, "work")
    hist, seeds = [], []
    T.VALUES["workdir"] = wd
    try:
        for k, run in enumerate(case["runs"]):
            last = k == len(case["runs"]) - 1
            had = os.path.exists(os.path.join(wd, "config.yaml"))
            confs = {}

            def config(r):
                if case["yaml"] and had:
                    return None
                if r not in confs:
                    confs[r] = make_config(case)
                return confs[r]
            T.VALUES["config"] = config
            T.OBS.clear()
            d.next_run(run["disk"])

            def prog(r):
                from argps import vmc
                vmc.main(["vmc.py"])
                return True
            with D.use(d), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                sim, out = C.run_job({**case, **{x: run[x] for x in ("sched", "policy")}}, n, prog,
                                     res, world=w, faults=[run["kill"]] if run["kill"] else (),
                                     allow_exc=True, salt=k)
            d.close()
            where = f"incarnation {k + 1} of {len(case['runs'])}: "
            if res.violation:
                return res
            disturbed = any(f.startswith("E") for f in sim.fired)
            for r, o in enumerate(out):
                if o[0] == "exc" and not (disturbed and isinstance(o[1], OSError)):
                    return res.bad(f"exception:{type(o[1]).__name__}",
                                   where + f"rank {r}: " + core.label_of(o[1]).replace(d.root, "<dir>")
                                   + "\n" + C.short_tb(sim.ranks[r].tb))
            obs = list(T.OBS)
            ok = all(o[0] == "ok" for o in out)
            p = check_config(wd, case, w, had, seeds) or H.incarnation(obs, out) \
                or H.check_metrics(read(os.path.join(wd, "metrics.csv")), ok)
            if p:
                return res.bad(p[0], where + p[1])
            starts = [e["step"] for e in obs if e["ev"] == "start" and e["rank"] == 0]
            if starts and starts[0] > 0:
                res.probe("resumed from a checkpoint")
            res.probe("incarnation " + ("finished" if ok else "disturbed"))
            hist.append((tuple(o[0] for o in out), sorted(sim.fired.items()), starts, H.required))
            if last and not ok:
                return res.bad("not-finished", where + f"outcome {[o[0] for o in out]} without any fault")
    finally:
        T.OBS.clear()
        d.remove()
    res.note(hist)
    if len(case["runs"]) > 1:
        res.key = res.digest
    return res
