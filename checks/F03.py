"""F03: backflow training killed, disturbed and restarted until it finishes.

The real training program runs on every rank over the simulated disk and MPI.  Incarnations are
killed before arbitrary operations (or have failing writes) and restarted in the same directory;
a reference model of the run judges resumed states, steps, learning rates, best record, metrics,
configuration and evaluation.
"""
from __future__ import annotations

import contextlib
import io
import os

import numpy as np

from . import chem
from . import common as C
from . import train as T
from simlib import core, disk as D
from simlib.runner import Result

PROPERTY = "F03"
RULE = "nontrivial: an incarnation was disturbed and a later one resumed or several ranks ran; keyed by the history"
REAL = ["cpd_backflow.vmc (main), utils, systems, configs", "flax checkpoints and msgpack", "netket drivers, "
        "VMC_SRRMSProp, samplers, models", "yaml, csv"]
STUB = ["MPI transport", "file system (interception points over a scratch directory)", "process kills",
        "command-line flags", "clocks, process ids, temporary names",
        "model construction memoised per configuration (keeps compiled functions)"]
ASSUMPTIONS = ["process-crash model: data handed to the kernel survives a kill; no power loss",
               "one job at a time uses a work directory",
               "sampler states are not part of a checkpoint"]
BUDGET = {"quick": (8, 200, 75), "thorough": (64, 2000, 1500)}

OPTS = ("SRRMSProp", "kernelSR", "SR")


def gen_block(rng, b):
    return [{"n": 1, "opt": "SRRMSProp", "dtype": "real"}, {"n": 2, "opt": "SRRMSProp", "dtype": "real"},
            {"n": 2, "opt": "kernelSR", "dtype": "real"}, {"n": 1, "opt": "SR", "dtype": "real"},
            {"n": 2, "opt": "SR", "dtype": "real"}, {"n": 1, "opt": "kernelSR", "dtype": "real"},
            {"n": 1, "opt": "SRRMSProp", "dtype": "complex"}, {"n": 3, "opt": "SRRMSProp", "dtype": "real"},
            ][b % 8]


def gen_case(blk, rng, i):
    n = blk["n"]
    case = {**blk, "total": rng.choice([1, 2, 2, 3, 4]), "ckpt": rng.choice([1, 1, 2, 2, 3, 0]),
            "descent": rng.choice([0, 0, 1, 2, 3]), "evaluate": rng.choice([0, 0, 1, 2]),
            "progress": rng.choice([0, 1, 2]), "yaml": rng.random() < 0.4,
            "seed": rng.choice([None, rng.randrange(1000)]), **C.sched_fields(rng)}
    runs = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        run = {"kill": None, "disk": [], **C.sched_fields(rng)}
        x = rng.random()
        if x < 0.45:
            run["kill"] = {"kind": "killdisk", "rank": 0, "nth": rng.randint(1, 30),
                           "grace": rng.choice([0, 0, 5, 40])}
        elif x < 0.8:
            run["kill"] = {"kind": "kill", "rank": rng.randrange(n), "at": rng.randint(1, 60 if n == 1 else 220 * (n - 1)),
                           "grace": rng.choice([0, 0, 5, 40])}
        else:
            run["disk"] = [{"kind": rng.choice(["enospc", "enospc", "eio", "short", "eioread"]),
                            "nth": rng.randint(1, 16), "len": rng.choice([1, 1, 2, 50])}]
        runs.append(run)
    case["runs"] = runs + [{"kill": None, "disk": [], **C.sched_fields(rng)}]
    return case


def shrink(case):
    runs = case["runs"]
    for k in range(len(runs) - 1):
        yield {**case, "runs": runs[:k] + runs[k + 1:]}
    for k, r in enumerate(runs):
        for key, v in (("kill", None), ("disk", [])):
            if r[key]:
                yield {**case, "runs": runs[:k] + [{**r, key: v}] + runs[k + 1:]}
    for k, v in (("descent", 0), ("evaluate", 0), ("progress", 0), ("yaml", False), ("total", 1), ("ckpt", 1),
                 ("seed", 3)):
        if case[k] != v:
            yield {**case, k: v}


def make_config(case):
    from cpd_backflow.configs.fermi_hubbard import get_config
    c = get_config()
    n = case["n"]
    c.total_steps = case["total"]
    c.checkpoint_every = case["ckpt"]
    c.progress_every = case["progress"]
    c.system.Lx, c.system.Ly, c.system.n_elec = 3, 1, (1, 1)
    with c.ignore_type():
        c.system.pbc = False
    c.model.dtype = case["dtype"]
    c.model.restricted = c.model.fixed_magnetization = True
    c.model.sigma = 0.1
    c.variational_state.n_samples = 4 * n
    c.variational_state.n_discard_per_chain = 1
    if case["seed"] is not None:
        c.variational_state.seed = case["seed"]
    c.sampler.n_chains_per_rank = 2
    c.sampler.n_sweeps = 2
    c.optimizer_name = case["opt"]
    c.optimizer.mode = case["dtype"]
    c.optimizer.learning_rate = 0.02
    from ml_collections import ConfigDict
    if case["descent"]:
        c.descent_finishing.total_steps = case["descent"]
        c.descent_finishing.learning_rate = 0.003
    else:
        c.descent_finishing = ConfigDict()
    if case["evaluate"]:
        c.evaluate.total_steps = case["evaluate"]
        c.evaluate.n_samples = 8 * n
    else:
        c.evaluate = ConfigDict()
    return c


def prelude(r):
    T.prelude(r)
    T.memo_models("cpd_backflow.models",
                  lambda config, *a, **k: repr(plain(config.model.to_dict())) + repr(plain(config.system.to_dict())))


_warm = {}


def world(case):
    n = case["n"]
    w = C.get_world(n, packages=("netket", "GPSKet", "cpd_backflow.vmc"), prelude=prelude, key="cpdvmc")
    key = (n, case["dtype"])
    if key not in _warm:
        T.ready()
        T.observe(w)

        def warm(r):
            from cpd_backflow.systems import get_system
            from cpd_backflow.models import get_model
            from cpd_backflow.configs.common import resolve
            c = resolve(make_config({**case, "seed": 1}))
            ha = get_system(c, "/nonexistent")
            get_model(c, ha.hilbert, ha, "/nonexistent")
            return True
        sim = core.Sim(n, seed=1, world=w, policy="roundrobin")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            out = sim.run(warm)
        if any(o[0] != "ok" for o in out):
            raise core.HarnessError(f"setting up the model failed: {[core.label_of(o[1]) for o in out if o[0] == 'exc']}")
        _warm[key] = True
    return w


def read(path, mode="r"):
    try:
        with open(path, mode) as f:
            return f.read()
    except FileNotFoundError:
        return None


def best_on_disk(path):
    data = read(path, "rb")
    if data is None:
        return None
    from flax import serialization
    d = serialization.msgpack_restore(data)
    return float(np.asarray(d["Energy"])), float(np.asarray(d["Variance"])), T._leaves(d["Parameters"])


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def check_config(wd, case, w, before):
    import yaml
    p = os.path.join(wd, "config.yaml")
    text = read(p)
    if text is None:
        return ("config-lost", "config.yaml disappeared") if before else None
    try:
        got = yaml.safe_load(text)
    except yaml.YAMLError as e:
        return "config-unreadable", f"config.yaml cannot be parsed: {e}"
    if not isinstance(got, dict):
        return "config-unreadable", f"config.yaml is not a configuration: {text[:60]!r}"
    with w.as_rank(0):
        want = plain(make_config(case).to_dict())
    got = plain(got)
    seed = got.get("variational_state", {}).pop("seed", None)
    want["variational_state"].pop("seed", None)
    if got != want or not isinstance(seed, int) or (case["seed"] is not None and seed != case["seed"]):
        return "config-wrong", "config.yaml does not hold the configuration of the run"
    return None


def run_case(case):
    res = Result()
    chem.install()
    chem.FORCE_BASIS = None
    n = case["n"]
    w = world(case)
    phases = [(case["total"], 0.02, case["ckpt"])]
    if case["descent"]:
        phases.append((case["descent"], 0.003, 1))
    H = T.History(phases, evaluate=case["evaluate"], best=True)
    d = D.Disk()
    d.mkroot()
    wd = os.path.join(d.root, "work")
    hist = []
    T.VALUES["workdir"] = wd
    try:
        for k, run in enumerate(case["runs"]):
            last = k == len(case["runs"]) - 1
            had = os.path.exists(os.path.join(wd, "config.yaml"))
            confs = {}

            def config(r):
                if case["yaml"] and had:
                    return None
                if r not in confs:
                    confs[r] = make_config(case)
                return confs[r]
            T.VALUES["config"] = config
            T.OBS.clear()
            d.next_run(run["disk"])

            def prog(r):
                from cpd_backflow import vmc
                vmc.main(["vmc.py"])
                return True
            with D.use(d), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                sim, out = C.run_job({**case, **{x: run[x] for x in ("sched", "policy")}}, n, prog,
                                     res, world=w, faults=[run["kill"]] if run["kill"] else (),
                                     allow_exc=True, salt=k)
            d.close()
            where = f"incarnation {k + 1} of {len(case['runs'])}: "
            if res.violation:
                return res
            disturbed = any(f.startswith("E") for f in sim.fired)
            for r, o in enumerate(out):
                if o[0] == "exc" and not (disturbed and isinstance(o[1], OSError)):
                    return res.bad(f"exception:{type(o[1]).__name__}",
                                   where + f"rank {r}: " + core.label_of(o[1]).replace(d.root, "<dir>")
                                   + "\n" + C.short_tb(sim.ranks[r].tb))
            obs = list(T.OBS)
            ok = all(o[0] == "ok" for o in out)
            p = check_config(wd, case, w, had) or H.incarnation(obs, out)
            if p:
                return res.bad(p[0], where + p[1])
            try:
                rec = best_on_disk(os.path.join(wd, "best_params.mpack"))
            except Exception as e:  # noqa: BLE001
                return res.bad("best-unreadable", where + f"best_params.mpack: {core.label_of(e)}")
            p = H.check_best(rec)
            if p:
                return res.bad(p[0], where + p[1])
            p = H.check_metrics(read(os.path.join(wd, "metrics.csv")), ok)
            if p:
                return res.bad(p[0], where + p[1])
            ev = [[e for e in obs if e["ev"] == "expect" and e["rank"] == r] for r in range(n)]
            for r in range(n):
                for e in ev[r]:
                    if rec is not None and not T.same(e["params"], rec[2]):
                        return res.bad("wrong-evaluation", where + f"rank {r} evaluates other parameters than "
                                                                   "the recorded best")
                    if e["n"] != 8 * n:
                        return res.bad("wrong-evaluation", where + f"rank {r} evaluates with {e['n']} samples")
                if ok and len(ev[r]) != case["evaluate"]:
                    return res.bad("wrong-evaluation", where + f"rank {r} evaluated {len(ev[r])} times "
                                                               f"instead of {case['evaluate']}")
            if ok and case["evaluate"]:
                t = (read(os.path.join(wd, "evals.csv")) or "").splitlines()
                if not t or not t[0].startswith("Step,") or len(t) < 1 + case["evaluate"]:
                    return res.bad("evals-wrong", where + f"evals.csv: {t[:1]}, {len(t)} lines")
                m = t[0].split(",").index("Mean")
                import csv
                tail = list(csv.reader(t))[-case["evaluate"]:]
                for a, b in zip(tail, ev[0]):
                    if abs(complex(a[m]) - b["energy"]) > 1e-8 * (1 + abs(b["energy"])):
                        return res.bad("evals-wrong", where + "evals.csv does not hold the evaluated energies")
            starts = [e["step"] for e in obs if e["ev"] == "start" and e["rank"] == 0]
            if starts and starts[0] > 0:
                res.probe("resumed from a checkpoint")
            res.probe("incarnation " + ("finished" if ok else "disturbed"))
            hist.append((tuple(o[0] for o in out), sorted(sim.fired.items()), starts, H.required,
                         None if rec is None else round(rec[0], 6)))
            if last and not ok:
                return res.bad("not-finished", where + f"outcome {[o[0] for o in out]} without any fault")
    finally:
        T.OBS.clear()
        d.remove()
    res.note(hist)
    if len(case["runs"]) > 1:
        res.key = res.digest
    return res
