"""Running the training programs (scripts/*/vmc.py, rdms.py) as simulated jobs."""
from __future__ import annotations

import contextlib
import io
import logging as pylogging

import numpy as np

from . import chem
from . import common as C
from simlib import core, disk as D

# values of the command-line flags of the simulated processes, set per incarnation
VALUES = {"config": None, "workdir": None}


class _Flag:
    """Stands in the absl flag registry; the value depends on the rank that reads it."""
    present = 1
    using_default_value = False
    allow_override = True
    name = short_name = None
    help = ""

    def __init__(self, name):
        self.name = name

    @property
    def value(self):
        s = core.CURRENT
        v = VALUES[self.name]
        return v(s.current) if callable(v) else v


def prelude(r):
    """Before a rank's copy of a program is imported: its flags are defined anew."""
    D.install()          # clocks are looked up at import time
    from absl import flags, logging
    logging.use_python_logging()
    pylogging.getLogger("absl").setLevel(pylogging.CRITICAL)
    for n in ("config", "workdir"):
        if n in flags.FLAGS:
            delattr(flags.FLAGS, n)


def ready():
    """After the import: the flags count as parsed and take the simulated values."""
    from absl import flags
    F = flags.FLAGS
    for n in ("config", "workdir"):
        F.__dict__["__flags"][n] = _Flag(n)
    F.mark_as_parsed()


def memo_models(modname, calls):
    """Models are pure configuration: build each once per rank, so that compiled functions
    are reused between the processes simulated in one worker."""
    import importlib
    m = importlib.import_module(modname)
    orig = m.get_model

    def get_model(*a, **k):
        key = calls(*a, **k)
        cache = m.__dict__.setdefault("_simcache", {})
        if key not in cache:
            cache[key] = orig(*a, **k)
        return cache[key]
    get_model.real = orig
    m.get_model = get_model


# --- observing the optimisation ------------------------------------------------------------
OBS = []          # events of the running incarnation


def _leaves(t):
    import jax
    return [np.array(x) for x in jax.tree_util.tree_leaves(t)]


def _state(drv):
    ema = getattr(drv, "_ema", None)
    if ema is None:
        ema = getattr(getattr(drv, "preconditioner", None), "_ema", None)
    return {"params": _leaves(drv.state.parameters), "vars": _leaves(drv.state.variables),
            "opt": _leaves(drv._optimizer_state), "ema": _leaves(ema),
            "step": int(drv.step_count)}


def observe(w):
    """Record what every rank's drivers and states do (library methods, wrapped per rank)."""
    for r in range(w.n):
        with w.as_rank(r):
            import netket as nk
            cls = nk.driver.AbstractVariationalDriver
            if getattr(cls, "_observed", False):
                continue
            cls._observed = True
            it0, up0 = cls.iter, cls.update_parameters

            def iter(self, n_steps, step=1, _it0=it0):
                OBS.append({"ev": "start", "rank": core.CURRENT.current, **_state(self)})
                yield from _it0(self, n_steps, step)

            def update_parameters(self, dp, _up0=up0):
                before = _leaves(self.state.parameters)
                _up0(self, dp)
                e = self._loss_stats
                OBS.append({"ev": "step", "rank": core.CURRENT.current, "before": before,
                            "dp": _leaves(dp), "energy": complex(np.asarray(e.mean)),
                            "variance": float(np.asarray(e.variance)), **_state(self)})
            cls.iter, cls.update_parameters = iter, update_parameters
            ex0 = nk.vqs.MCState.expect

            def expect(self, *a, _ex0=ex0, **k):
                out = _ex0(self, *a, **k)
                OBS.append({"ev": "expect", "rank": core.CURRENT.current,
                            "params": _leaves(self.parameters), "n": int(self.n_samples),
                            "energy": complex(np.asarray(out.mean))})
                return out
            nk.vqs.MCState.expect = expect


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
                                    for x, y in zip(a, b))


def near(a, b, tol=1e-12):
    return len(a) == len(b) and all(
        x.shape == y.shape and np.all(np.abs(x - y) <= tol * (1 + np.abs(y))) for x, y in zip(a, b))


# --- histories of a training run --------------------------------------------------------------
class History:
    """Reference model of a training run in one work directory across incarnations.

    phases: list of (number of steps, learning rate, checkpoint interval)."""

    def __init__(self, phases, evaluate=0, best=False, ema_all=False):
        self.phases = phases
        self.total = sum(p[0] for p in phases)
        self.evaluate = evaluate
        self.best = best
        self.ema_all = ema_all      # every rank uses the moving average, not only the first
        self.saved = {}       # step -> list of states reached
        self.required = 0     # resuming may not go back behind this step
        self.record = None    # best record on disk after the last incarnation
        self.rows = []        # metrics rows: list of incarnations, (rows, last optional)
        self.evals = []
        self.had_config = False

    def is_checkpoint(self, s):
        done = 0
        for k, (n, _, every) in enumerate(self.phases):
            if s <= done + n:
                return bool(every and s % every == 0) or (k == 0 and s == n) or s == self.total
            done += n
        return False

    def rate(self, s):
        done = 0
        for n, lr, _ in self.phases:
            if s <= done + n:
                return lr
            done += n
        return None

    def incarnation(self, obs, outcomes, disturbed=False):
        """Check one incarnation; returns (kind, detail) or None."""
        n = len(outcomes)
        ok = all(o[0] == "ok" for o in outcomes)
        by = [[e for e in obs if e["rank"] == r] for r in range(n)]
        firsts = [next((e for e in ev if e["ev"] == "start"), None) for ev in by]
        f0 = next((f for f in firsts if f is not None), None)
        for r, f in enumerate(firsts):
            if f is not None and (f["step"] != f0["step"] or not same(f["vars"], f0["vars"])):
                return "ranks-differ", (f"rank {r} starts with step {f['step']} and other parameters "
                                        f"or step than another rank (step {f0['step']})")
        if f0 is not None:
            s0 = f0["step"]
            if s0 < self.required:
                return "lost-progress", (f"starts again after step {s0} although the checkpoint of "
                                         f"step {self.required} had been written")
            if s0 > 0:
                cands = self.saved.get(s0, [])
                if not cands:
                    return "phantom-state", f"resumes after step {s0}, which was never reached"
                if not any(same(f0["vars"], c["vars"]) for c in cands):
                    return "wrong-state", f"resumes after step {s0} with parameters that were never reached"
                for r, f in enumerate(firsts):
                    if f is None:
                        continue
                    good = [c for c in cands if same(f["vars"], c["vars"])]
                    if not any(same(f["opt"], c["opt"]) for c in good) and self.rate(s0) == self.rate(s0 + 1):
                        return "wrong-state", f"rank {r} resumes after step {s0} with another optimiser state"
                    if (r == 0 or self.ema_all) and not any(same(f["ema"], c["ema"]) for c in good):
                        return "wrong-state", (f"rank {r} resumes after step {s0} without the regularisation history "
                                               "(moving average of squared gradients)")
        elif ok and self.required < self.total and self.total in self.saved:
            self.required = self.total     # its checkpoint was complete when the run was killed
        elif ok and self.required < self.total:
            return "no-training", f"finished without training after step {self.required} of {self.total}"
        for r, ev in enumerate(by):
            cur = None
            for e in ev:
                if e["ev"] == "start":
                    if cur is not None and (e["step"] != cur["step"] or not same(e["vars"], cur["vars"])):
                        return "state-changed", (f"rank {r}: state changed between steps {cur['step']} "
                                                 f"and {e['step']}")
                    cur = e
                elif e["ev"] == "step":
                    if cur is None or e["step"] != cur["step"] + 1 or not same(e["before"], cur["params"]):
                        return "steps-skipped", f"rank {r}: step {e['step']} does not follow its predecessor"
                    lr = self.rate(e["step"])
                    if lr is None:
                        return "too-many-steps", f"rank {r}: step {e['step']} of {self.total}"
                    if not near(e["params"], [p - lr * d for p, d in zip(e["before"], e["dp"])]):
                        return "wrong-rate", (f"rank {r}: step {e['step']} is not an update with the "
                                              f"learning rate {lr}")
                    cur = e
            if ok and cur is not None and cur["step"] != self.total:
                return "steps-missing", f"rank {r} finished after step {cur['step']} of {self.total}"
        # states that may be resumed from, and those that must have been saved
        steps0 = [e for e in by[0] if e["ev"] == "step"]
        last = by[0][-1] if by[0] else None
        for e in steps0:
            self.saved.setdefault(e["step"], []).append(e)
        finished = [e for e in steps0 if e is not last or outcomes[0][0] == "ok"]
        for e in finished:
            if self.is_checkpoint(e["step"]):
                self.required = max(self.required, e["step"])
        self.rows.append(([(e["step"], e["energy"]) for e in steps0], len(finished) == len(steps0)))
        self.finished = finished
        self.steps0 = steps0
        return None

    # -- best parameters
    def check_best(self, rec, complete=True):
        """rec: (energy, variance, leaves) on disk after the incarnation, or None."""
        allowed = []
        best = self.record
        for e in self.finished:
            if best is None or (e["energy"].real < best[0] and e["variance"] < best[1]):
                best = (e["energy"].real, e["variance"], e)
        allowed.append(best)
        for e in self.steps0[len(self.finished):]:
            if best is None or (e["energy"].real < best[0] and e["variance"] < best[1]):
                allowed.append((e["energy"].real, e["variance"], e))
        for a in allowed:
            if a is None:
                if rec is None:
                    return None
                continue
            if rec is None or abs(rec[0] - a[0]) > 1e-10 * (1 + abs(a[0])) \
                    or abs(rec[1] - a[1]) > 1e-10 * (1 + abs(a[1])):
                continue
            e = a[2]
            if isinstance(e, dict):
                if not (same(rec[2], e["params"]) or same(rec[2], e["before"])):
                    continue
            elif not same(rec[2], e):
                continue
            self.record = (a[0], a[1], rec[2])
            return None
        say = [None if a is None else (round(a[0], 6), round(a[1], 6)) for a in allowed]
        return "wrong-best", (f"recorded best (energy, variance) {None if rec is None else (rec[0], rec[1])}"
                              f" with its parameters is none of the possible {say}")

    # -- metrics
    def check_metrics(self, text, complete, torn=False):
        import csv
        if text is None or text == "":
            rows = []
            if complete or any(r and full for r, full in self.rows) or any(len(r) > 1 for r, _ in self.rows):
                if self.total:
                    return "metrics-lost", "metrics.csv is missing or empty"
        else:
            if not text.endswith("\n"):
                return "metrics-torn", "metrics.csv ends in the middle of a row"
            lines = list(csv.reader(text.splitlines()))
            head = lines[0]
            if not head or head[0] != "Step" or "Mean" not in head:
                return "metrics-header", f"metrics.csv has no header: {lines[0][:3]}"
            if any(len(l) != len(head) for l in lines):
                return "metrics-torn", "metrics.csv has rows of different length"
            k = head.index("Mean")
            try:
                rows = [(int(l[0]), complex(l[k])) for l in lines[1:]]
            except ValueError as e:
                return "metrics-torn", f"metrics.csv: {e}"
        # match against the steps of the incarnations, the last of each possibly unlogged
        pos = {0}
        for steps, full in self.rows:
            new = set()
            for p in pos:
                for m in ([len(steps)] if full or not steps else [len(steps), len(steps) - 1]):
                    seg = rows[p:p + m]
                    if len(seg) == m and all(
                            a[0] == b[0] and abs(a[1] - b[1]) <= 1e-8 * (1 + abs(b[1]))
                            or (a[0] == b[0] and np.isnan(b[1])) for a, b in zip(seg, steps)):
                        new.add(p + m)
            pos = new
        if len(rows) not in pos:
            return "metrics-wrong", (f"metrics.csv has rows for steps {[r[0] for r in rows]}, the run "
                                     f"performed {[[s[0] for s in st] for st, _ in self.rows]}")
        return None
